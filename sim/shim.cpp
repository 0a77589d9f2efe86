// LD_PRELOAD shim: the simulator's seams around libc / libstdc++ for macposts.
//
//   rand()/srand()          -> seeded PRNG with selectable "policy"
//   time/clock_gettime/gettimeofday/clock/getpid/std::random_device
//                           -> simulated clock, identity and entropy
//   operator new/delete     -> deterministic fixed-address arena with seeded
//                              layout, junk fill, red zones, quarantine and
//                              allocation-failure injection
//   fopen64/open/read/write/writev/close/fclose
//                           -> per-path fault plan: missing files, EIO, short
//                              reads, truncation, ENOSPC, torn writes
//
// Everything is inert until sim_begin() is called; all decisions come from the
// parameters given there and from one 64-bit PRNG per seam.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace
{
struct Rng
{
  uint64_t s = 0x9E3779B97F4A7C15ull;
  uint64_t next ()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

bool g_on = false;

// ------------------------------------------------------------- randomness
int g_rand_policy = 0;
Rng g_rand;
uint64_t g_rand_calls = 0, g_srand_calls = 0, g_rand_hash = 1469598103934665603ull;
uint64_t g_rand_salt = 0;
int g_sticky_left = 0, g_sticky_mode = 0;
unsigned g_alt = 0;

// policy 6: all draws of one loading interval share their leading bits (only the
// last twelve bits vary), so that every rounding decision of the interval is a
// known function of the number rounded, whatever the order of the draws
uint32_t g_level = 0;
double level_of (uint64_t salt, long long tick)
{
  Rng q;
  q.s = (salt ^ 0xA0761D6478BD642Full) + (uint64_t) (tick + 1) * 0x9E3779B97F4A7C15ull;
  q.next ();
  return 0.01 + 0.98 * (double) (q.next () >> 11) / 9007199254740992.0;
}
void set_level (uint64_t salt, long long tick)
{
  g_level = (uint32_t) (level_of (salt, tick) * 2147483647.0) & ~0xfffu;
}

int policy_draw ()
{
  uint64_t r = g_rand.next ();
  uint32_t u = (uint32_t) (r >> 33); // uniform in [0, 2^31)
  uint32_t sel = (uint32_t) (r & 0xffff);
  const uint32_t M = 0x7fffffffu;
  switch (g_rand_policy)
    {
    default:
    case 0: // uniform
      break;
    case 1: // biased low: most draws in the lowest 2%
      if (sel < 45000)
        u = u / 50;
      break;
    case 2: // biased high
      if (sel < 45000)
        u = M - u / 50;
      break;
    case 3: // sticky runs of low / high / uniform draws
      if (g_sticky_left <= 0)
        {
          g_sticky_left = 1 + (int) (sel % 40);
          g_sticky_mode = (int) ((r >> 20) % 3);
        }
      --g_sticky_left;
      if ((r >> 26) % 8 != 0)
        {
          if (g_sticky_mode == 0)
            u = u / 50;
          else if (g_sticky_mode == 1)
            u = M - u / 50;
        }
      break;
    case 4: // near the extremes (but never exactly on them)
      if (sel < 20000)
        u = 1 + u % 64;
      else if (sel < 40000)
        u = M - 1 - u % 64;
      break;
    case 5: // alternate low/high, with uniform mixed in
      if (sel < 50000)
        u = (++g_alt & 1) ? u / 50 : M - u / 50;
      break;
    case 6:
      u = g_level | (u & 0xfffu);
      break;
    }
  if (u == 0)
    u = 1;
  if (u >= M)
    u = M - 1;
  return (int) u;
}
}

extern "C" int
rand (void) noexcept
{
  static int (*real) (void) = nullptr;
  if (!g_on)
    {
      if (!real)
        real = (int (*) (void)) dlsym (RTLD_NEXT, "rand");
      return real ();
    }
  ++g_rand_calls;
  int v = policy_draw ();
  g_rand_hash = (g_rand_hash ^ (uint64_t) v) * 1099511628211ull;
  return v;
}

extern "C" void
srand (unsigned int s) noexcept
{
  static void (*real) (unsigned) = nullptr;
  if (!real)
    real = (void (*) (unsigned)) dlsym (RTLD_NEXT, "srand");
  real (s);
  // The simulated generator is a pure function of (srand argument, salt), so
  // "same seed" means the same stream exactly as with libc.
  g_rand.s = ((uint64_t) s + 1) * 0xD1342543DE82EF95ull ^ g_rand_salt;
  g_sticky_left = 0;
  g_alt = 0;
  ++g_srand_calls;
}

// ------------------------------------------------- clocks, entropy, identity
namespace
{
int64_t g_clock_ns = 1600000000ll * 1000000000ll;
int64_t g_clock_step = 1000;
Rng g_dev;
int g_pid = 4242;
uint64_t g_clock_reads = 0, g_dev_reads = 0;
int64_t tick_clock ()
{
  ++g_clock_reads;
  return g_clock_ns += g_clock_step;
}
}

extern "C" int
clock_gettime (clockid_t c, struct timespec *ts) noexcept
{
  static auto real = (int (*) (clockid_t, struct timespec *)) dlsym (RTLD_NEXT, "clock_gettime");
  if (!g_on || !ts)
    return real (c, ts);
  int64_t n = tick_clock ();
  ts->tv_sec = n / 1000000000ll;
  ts->tv_nsec = n % 1000000000ll;
  return 0;
}

extern "C" int
gettimeofday (struct timeval *tv, void *tz) noexcept
{
  static auto real = (int (*) (struct timeval *, void *)) dlsym (RTLD_NEXT, "gettimeofday");
  if (!g_on || !tv)
    return real (tv, tz);
  int64_t n = tick_clock ();
  tv->tv_sec = n / 1000000000ll;
  tv->tv_usec = n % 1000000000ll / 1000;
  return 0;
}

extern "C" time_t
time (time_t *t) noexcept
{
  static auto real = (time_t (*) (time_t *)) dlsym (RTLD_NEXT, "time");
  if (!g_on)
    return real (t);
  time_t s = tick_clock () / 1000000000ll;
  if (t)
    *t = s;
  return s;
}

extern "C" clock_t
clock (void) noexcept
{
  static auto real = (clock_t (*) (void)) dlsym (RTLD_NEXT, "clock");
  if (!g_on)
    return real ();
  return (clock_t) (tick_clock () / 1000);
}

extern "C" pid_t
getpid (void) noexcept
{
  static auto real = (pid_t (*) (void)) dlsym (RTLD_NEXT, "getpid");
  return g_on ? g_pid : real ();
}

// std::random_device::_M_getval
extern "C" unsigned int
_ZNSt13random_device9_M_getvalEv (void *self)
{
  static auto real = (unsigned int (*) (void *)) dlsym (RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv");
  if (!g_on)
    return real (self);
  ++g_dev_reads;
  return (unsigned int) (g_dev.next () >> 32);
}

// ------------------------------------------------------------------- heap
namespace
{
const uintptr_t ARENA_BASE = 0x300000000000ull;
const size_t ARENA_SIZE = 8ull << 30; // quarters: ascending, 8 lanes (two), descending
const size_t BIG = 64ull << 20;
const uint64_t CANARY = 0xC0DEFACEDEADBEA7ull;
const uint64_t FREED = 0xF4EEDF4EEDF4EED5ull;

struct Hdr
{
  uint64_t size;
  uint64_t state; // CANARY ^ size when live, FREED when freed
};

bool g_heap_on = false;
int g_heap_policy = 0; // 0 bump, 1 descending, 2 random gaps, 3 scattered
int g_heap_fill = 0;   // byte used to fill fresh memory
Rng g_heap;
uintptr_t g_lo = 0, g_hi = 0;
uintptr_t g_lane[8];
bool g_mapped = false;
uint64_t g_news = 0, g_live = 0;
int64_t g_fail_at = -1; // allocation index that fails (counted from arm)
uint64_t g_alloc_idx = 0;
uint64_t g_fail_fired = 0;
char g_corrupt[256] = "";
uint64_t g_corruptions = 0;

// quarantine: a freed block is poisoned and held back for QMAX frees; when it
// leaves the quarantine (or at the end of the run) the poison is re-checked and
// small blocks become reusable.
const size_t QMAX = 4096;
Hdr *g_q[QMAX];
size_t g_qh = 0, g_qn = 0;
const size_t NCLASS = 129; // 16-byte classes up to 2 KiB
Hdr *g_free[NCLASS];

void corrupt (const char *what, void *p, uint64_t size)
{
  if (g_corruptions++ == 0)
    snprintf (g_corrupt, sizeof g_corrupt, "%s (block of %llu bytes)", what,
              (unsigned long long) size);
  (void) p;
}

inline bool in_arena (const void *p)
{
  return (uintptr_t) p >= ARENA_BASE && (uintptr_t) p < ARENA_BASE + ARENA_SIZE;
}

void check_poison (Hdr *h)
{
  unsigned char *u = (unsigned char *) (h + 1);
  for (size_t k = 0; k < h->size; ++k)
    if (u[k] != 0xDD)
      {
        corrupt ("write to a heap block after it was freed", u, h->size);
        return;
      }
}

void *carve (Hdr *h, size_t n)
{
  h->size = n;
  h->state = CANARY ^ n;
  unsigned char *u = (unsigned char *) (h + 1);
  memset (u, g_heap_fill, (n + 15) & ~(size_t) 15);
  // red zone: from the end of the user bytes up to 16 bytes past rounding
  size_t rz = ((n + 15) & ~(size_t) 15) + 16 - n;
  memset (u + n, 0xA5, rz);
  ++g_news;
  ++g_live;
  return u;
}

void *arena_alloc (size_t n)
{
  size_t cls = (n + 15) / 16;
  if (cls < NCLASS && g_free[cls] && (g_heap_policy != 1))
    {
      Hdr *h = g_free[cls];
      g_free[cls] = *(Hdr **) (h + 1);
      return carve (h, n);
    }
  size_t tot = sizeof (Hdr) + ((n + 15) & ~(size_t) 15) + 16;
  uintptr_t p = 0;
  switch (g_heap_policy)
    {
    default:
    case 0:
      p = g_lo;
      g_lo += tot;
      break;
    case 1:
      g_hi -= tot;
      p = g_hi;
      break;
    case 2:
      g_lo += (g_heap.next () % 24) * 16;
      p = g_lo;
      g_lo += tot;
      break;
    case 3:
      {
        unsigned l = g_heap.next () & 7;
        g_lane[l] += (g_heap.next () % 8) * 16;
        p = g_lane[l];
        g_lane[l] += tot;
        if (g_lane[l] >= ARENA_BASE + ARENA_SIZE / 4 + (l + 1) * (ARENA_SIZE / 16))
          return nullptr;
        break;
      }
    }
  if (g_heap_policy != 3
      && (g_lo >= ARENA_BASE + ARENA_SIZE / 4 || g_hi <= ARENA_BASE + 3 * (ARENA_SIZE / 4)))
    return nullptr;
  return carve ((Hdr *) p, n);
}

void check_redzone (Hdr *h)
{
  unsigned char *u = (unsigned char *) (h + 1);
  size_t n = h->size;
  size_t rz = ((n + 15) & ~(size_t) 15) + 16 - n;
  for (size_t i = 0; i < rz; ++i)
    if (u[n + i] != 0xA5)
      {
        corrupt ("write past the end of a heap block", u, n);
        return;
      }
}

void arena_free (void *p)
{
  Hdr *h = (Hdr *) p - 1;
  if (h->state == FREED)
    {
      corrupt ("double free of a heap block", p, h->size);
      return;
    }
  if (h->state != (CANARY ^ h->size))
    {
      corrupt ("free of a corrupted or interior heap pointer", p, 0);
      return;
    }
  check_redzone (h);
  h->state = FREED;
  memset (p, 0xDD, h->size);
  --g_live;
  if (g_qn == QMAX)
    {
      Hdr *o = g_q[g_qh];
      check_poison (o);
      size_t cls = (o->size + 15) / 16;
      if (cls < NCLASS)
        {
          *(Hdr **) (o + 1) = g_free[cls];
          g_free[cls] = o;
        }
      g_q[g_qh] = h;
      g_qh = (g_qh + 1) % QMAX;
    }
  else
    g_q[(g_qh + g_qn++) % QMAX] = h;
}

void *sim_new (size_t n, bool nothrow)
{
  if (g_heap_on)
    {
      if (g_fail_at >= 0 && (int64_t) g_alloc_idx++ == g_fail_at)
        {
          ++g_fail_fired;
          if (nothrow)
            return nullptr;
          throw std::bad_alloc ();
        }
      if (n < BIG)
        {
          void *p = arena_alloc (n ? n : 1);
          if (p)
            return p;
        }
    }
  void *p = malloc (n ? n : 1);
  if (!p && !nothrow)
    throw std::bad_alloc ();
  return p;
}

void sim_delete (void *p)
{
  if (!p)
    return;
  if (in_arena (p))
    arena_free (p);
  else
    free (p);
}
}

void *operator new (size_t n) { return sim_new (n, false); }
void *operator new[] (size_t n) { return sim_new (n, false); }
void *operator new (size_t n, const std::nothrow_t &) noexcept { return sim_new (n, true); }
void *operator new[] (size_t n, const std::nothrow_t &) noexcept { return sim_new (n, true); }
void operator delete (void *p) noexcept { sim_delete (p); }
void operator delete[] (void *p) noexcept { sim_delete (p); }
void operator delete (void *p, size_t) noexcept { sim_delete (p); }
void operator delete[] (void *p, size_t) noexcept { sim_delete (p); }
void operator delete (void *p, const std::nothrow_t &) noexcept { sim_delete (p); }
void operator delete[] (void *p, const std::nothrow_t &) noexcept { sim_delete (p); }

// -------------------------------------------------------------------- I/O
namespace
{
struct Fault
{
  char suffix[128]; // path suffix it applies to ("" = none)
  char root[256];   // path must also start with this
  int kind;         // see below
  long long arg;    // byte offset
  int active;
  uint64_t fired;
};
enum
{
  F_NONE = 0,
  F_MISSING = 1,    // open fails with ENOENT
  F_EACCES = 2,     // open fails with EACCES
  F_EIO_READ = 3,   // reads at or past offset arg fail with EIO
  F_TRUNC = 4,      // file appears to end at offset arg
  F_SHORT = 5,      // every read returns at most arg bytes (benign)
  F_ENOSPC = 6,     // writes past offset arg fail with ENOSPC (torn at arg)
  F_EIO_WRITE = 7,  // writes past offset arg fail with EIO
  F_SHORTW = 8,     // every write accepts at most arg bytes (benign)
  F_EINTR = 9,      // every arg-th read/write first fails with EINTR
  F_OPENW = 10,     // open for writing fails with EACCES
  F_EMFILE = 11,    // open fails with EMFILE
  F_CRASHW = 12,    // process dies (_exit) once arg bytes were written
};
const int MAXF = 8;
Fault g_faults[MAXF];
int g_nfaults = 0;
struct FdInfo
{
  bool used;
  unsigned mask;
  long long roff, woff;
  uint64_t ops;
};
const int MAXFD = 1024;
FdInfo g_fd[MAXFD];
uint64_t g_opens = 0;

unsigned match (const char *path)
{
  unsigned m = 0;
  size_t L = strlen (path);
  for (int i = 0; i < g_nfaults; ++i)
    {
      Fault &f = g_faults[i];
      size_t s = strlen (f.suffix), r = strlen (f.root);
      if (!f.active || s > L || strcmp (path + L - s, f.suffix) != 0)
        continue;
      if (strncmp (path, f.root, r) != 0)
        continue;
      m |= 1u << i;
    }
  return m;
}

int open_fault (const char *path, bool wr, unsigned *mask)
{
  *mask = 0;
  if (!g_on || !path)
    return 0;
  ++g_opens;
  unsigned m = match (path);
  *mask = m;
  for (int i = 0; i < g_nfaults; ++i)
    if (m & (1u << i))
      {
        Fault &f = g_faults[i];
        if (f.kind == F_MISSING && !wr)
          {
            ++f.fired;
            return ENOENT;
          }
        if (f.kind == F_EACCES && !wr)
          {
            ++f.fired;
            return EACCES;
          }
        if (f.kind == F_OPENW && wr)
          {
            ++f.fired;
            return EACCES;
          }
        if (f.kind == F_EMFILE)
          {
            ++f.fired;
            return EMFILE;
          }
      }
  return 0;
}

void note_fd (int fd, unsigned mask)
{
  if (fd >= 0 && fd < MAXFD)
    {
      memset (&g_fd[fd], 0, sizeof g_fd[fd]);
      if (mask)
        {
          g_fd[fd].used = true;
          g_fd[fd].mask = mask;
        }
    }
}

template <class F> F next_sym (const char *n)
{
  return (F) dlsym (RTLD_NEXT, n);
}
}

extern "C" FILE *
fopen64 (const char *path, const char *mode)
{
  static auto real = next_sym<FILE *(*) (const char *, const char *)> ("fopen64");
  bool wr = mode && (strchr (mode, 'w') || strchr (mode, 'a') || strchr (mode, '+'));
  unsigned m;
  int e = open_fault (path, wr, &m);
  if (e)
    {
      errno = e;
      return nullptr;
    }
  FILE *f = real (path, mode);
  if (f && g_on)
    note_fd (fileno (f), m);
  return f;
}

extern "C" FILE *
fopen (const char *path, const char *mode)
{
  static auto real = next_sym<FILE *(*) (const char *, const char *)> ("fopen");
  bool wr = mode && (strchr (mode, 'w') || strchr (mode, 'a') || strchr (mode, '+'));
  unsigned m;
  int e = open_fault (path, wr, &m);
  if (e)
    {
      errno = e;
      return nullptr;
    }
  FILE *f = real (path, mode);
  if (f && g_on)
    note_fd (fileno (f), m);
  return f;
}

static int
sim_open (const char *sym, const char *path, int flags, mode_t mode)
{
  auto real = next_sym<int (*) (const char *, int, ...)> (sym);
  unsigned m = 0;
  int e = open_fault (path, (flags & O_ACCMODE) == O_WRONLY || (flags & O_CREAT), &m);
  if (e)
    {
      errno = e;
      return -1;
    }
  int fd = real (path, flags, mode);
  if (fd >= 0 && g_on)
    note_fd (fd, m);
  return fd;
}

extern "C" int
open (const char *path, int flags, ...)
{
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE))
    {
      va_list ap;
      va_start (ap, flags);
      mode = va_arg (ap, mode_t);
      va_end (ap);
    }
  return sim_open ("open", path, flags, mode);
}

extern "C" int
open64 (const char *path, int flags, ...)
{
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE))
    {
      va_list ap;
      va_start (ap, flags);
      mode = va_arg (ap, mode_t);
      va_end (ap);
    }
  return sim_open ("open64", path, flags, mode);
}

extern "C" ssize_t
read (int fd, void *buf, size_t n)
{
  static auto real = next_sym<ssize_t (*) (int, void *, size_t)> ("read");
  if (g_on && fd >= 0 && fd < MAXFD && g_fd[fd].used)
    {
      FdInfo &d = g_fd[fd];
      ++d.ops;
      for (int i = 0; i < g_nfaults; ++i)
        if (d.mask & (1u << i))
          {
            Fault &f = g_faults[i];
            if (f.kind == F_EIO_READ)
              {
                if (d.roff >= f.arg)
                  {
                    ++f.fired;
                    errno = EIO;
                    return -1;
                  }
                if (d.roff + (long long) n > f.arg)
                  n = f.arg - d.roff;
              }
            else if (f.kind == F_TRUNC)
              {
                if (d.roff >= f.arg)
                  {
                    ++f.fired;
                    return 0;
                  }
                if (d.roff + (long long) n > f.arg)
                  {
                    n = f.arg - d.roff;
                  }
              }
            else if (f.kind == F_SHORT)
              {
                if ((long long) n > f.arg)
                  {
                    n = f.arg;
                    ++f.fired;
                  }
              }
            else if (f.kind == F_EINTR && d.ops % (f.arg > 1 ? f.arg : 2) == 1)
              {
                ++f.fired;
                errno = EINTR;
                return -1;
              }
          }
      ssize_t r = real (fd, buf, n);
      if (r > 0)
        d.roff += r;
      return r;
    }
  return real (fd, buf, n);
}

namespace
{
// returns allowed length or -1 with errno set
ssize_t write_gate (int fd, size_t n)
{
  FdInfo &d = g_fd[fd];
  ++d.ops;
  for (int i = 0; i < g_nfaults; ++i)
    if (d.mask & (1u << i))
      {
        Fault &f = g_faults[i];
        if (f.kind == F_ENOSPC || f.kind == F_EIO_WRITE)
          {
            if (d.woff >= f.arg)
              {
                ++f.fired;
                errno = f.kind == F_ENOSPC ? ENOSPC : EIO;
                return -1;
              }
            if (d.woff + (long long) n > f.arg)
              n = f.arg - d.woff;
          }
        else if (f.kind == F_CRASHW)
          {
            if (d.woff + (long long) n > f.arg)
              n = f.arg - d.woff; // torn write, then the process dies
          }
        else if (f.kind == F_SHORTW)
          {
            if ((long long) n > f.arg)
              {
                n = f.arg;
                ++f.fired;
              }
          }
        else if (f.kind == F_EINTR && d.ops % (f.arg > 1 ? f.arg : 2) == 1)
          {
            ++f.fired;
            errno = EINTR;
            return -1;
          }
      }
  return (ssize_t) n;
}
void wrote (int fd, ssize_t r)
{
  if (r > 0)
    g_fd[fd].woff += r;
  FdInfo &d = g_fd[fd];
  for (int i = 0; i < g_nfaults; ++i)
    if ((d.mask & (1u << i)) && g_faults[i].kind == F_CRASHW
        && d.woff >= g_faults[i].arg)
      _exit (77);
}
}

extern "C" ssize_t
write (int fd, const void *buf, size_t n)
{
  static auto real = next_sym<ssize_t (*) (int, const void *, size_t)> ("write");
  if (g_on && fd >= 0 && fd < MAXFD && g_fd[fd].used)
    {
      ssize_t a = write_gate (fd, n);
      if (a < 0)
        return a;
      ssize_t r = real (fd, buf, a);
      wrote (fd, r);
      return r;
    }
  return real (fd, buf, n);
}

extern "C" ssize_t
writev (int fd, const struct iovec *iov, int cnt)
{
  static auto real = next_sym<ssize_t (*) (int, const struct iovec *, int)> ("writev");
  if (g_on && fd >= 0 && fd < MAXFD && g_fd[fd].used)
    {
      // one buffer at a time keeps the fault arithmetic simple; a short writev
      // is legal
      for (int i = 0; i < cnt; ++i)
        if (iov[i].iov_len)
          return write (fd, iov[i].iov_base, iov[i].iov_len);
      return 0;
    }
  return real (fd, iov, cnt);
}

extern "C" int
close (int fd)
{
  static auto real = next_sym<int (*) (int)> ("close");
  if (fd >= 0 && fd < MAXFD)
    g_fd[fd].used = false;
  return real (fd);
}

extern "C" int
fclose (FILE *f)
{
  static auto real = next_sym<int (*) (FILE *)> ("fclose");
  int fd = fileno (f);
  int r = real (f);
  if (fd >= 0 && fd < MAXFD)
    g_fd[fd].used = false;
  return r;
}

// ---------------------------------------------------------------- control
extern "C"
{
  // called by the observer when loading interval `tick` is about to begin
  __attribute__ ((visibility ("default"))) void
  sim_rand_tick (long long tick)
  {
    set_level (g_rand_salt, tick);
  }
  __attribute__ ((visibility ("default"))) double
  sim_rand_level (unsigned long long salt, long long tick)
  {
    return level_of (salt, tick);
  }
  __attribute__ ((visibility ("default"))) int
  sim_begin (int rand_policy, unsigned long long rand_salt, int heap_on,
             int heap_policy, unsigned long long heap_seed, int heap_fill,
             long long fail_at)
  {
    if (heap_on && !g_mapped)
      {
        void *p = mmap ((void *) ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
                          | MAP_FIXED_NOREPLACE,
                        -1, 0);
        if (p != (void *) ARENA_BASE)
          return -1;
        g_mapped = true;
        g_lo = ARENA_BASE + (heap_policy == 0 ? 4096 : 4096);
        g_hi = ARENA_BASE + ARENA_SIZE - 4096;
        for (int i = 0; i < 8; ++i)
          g_lane[i] = ARENA_BASE + ARENA_SIZE / 4 + i * (ARENA_SIZE / 16) + 4096;
      }
    g_rand_policy = rand_policy;
    g_rand_salt = rand_salt;
    g_rand.s = rand_salt * 0x9E3779B97F4A7C15ull + 12345;
    g_sticky_left = 0;
    g_alt = 0;
    set_level (rand_salt, 0);
    g_heap_policy = heap_policy;
    g_heap.s = heap_seed * 0xD1342543DE82EF95ull + 99;
    g_heap_fill = heap_fill;
    g_fail_at = fail_at;
    g_alloc_idx = 0;
    g_heap_on = heap_on != 0;
    g_on = true;
    return 0;
  }
  __attribute__ ((visibility ("default"))) void
  sim_entropy (long long clock_s, long long step_ns, unsigned long long dev, int pid)
  {
    g_clock_ns = clock_s * 1000000000ll;
    g_clock_step = step_ns;
    g_dev.s = dev;
    g_pid = pid;
  }
  // heap interposition only around library calls
  __attribute__ ((visibility ("default"))) void sim_heap (int on) { g_heap_on = on && g_mapped; }
  __attribute__ ((visibility ("default"))) void sim_alloc_fail (long long at)
  {
    g_fail_at = at;
    g_alloc_idx = 0;
  }
  __attribute__ ((visibility ("default"))) unsigned long long sim_alloc_idx () { return g_alloc_idx; }
  __attribute__ ((visibility ("default"))) void sim_heap_policy (int p, unsigned long long seed, int fill)
  {
    g_heap_policy = p;
    g_heap.s = seed * 0xD1342543DE82EF95ull + 99;
    g_heap_fill = fill;
  }
  __attribute__ ((visibility ("default"))) void sim_end ()
  {
    g_on = false;
    g_heap_on = false;
    g_fail_at = -1;
    // freed blocks must still carry the poison
    for (size_t i = 0; i < g_qn; ++i)
      check_poison (g_q[(g_qh + i) % QMAX]);
    g_qn = 0;
  }
  __attribute__ ((visibility ("default"))) int
  sim_fault (const char *root, const char *suffix, int kind, long long arg)
  {
    if (g_nfaults >= MAXF)
      return -1;
    Fault &f = g_faults[g_nfaults];
    memset (&f, 0, sizeof f);
    snprintf (f.suffix, sizeof f.suffix, "%s", suffix);
    snprintf (f.root, sizeof f.root, "%s", root);
    f.kind = kind;
    f.arg = arg;
    f.active = 1;
    return g_nfaults++;
  }
  __attribute__ ((visibility ("default"))) void sim_fault_off (int i) { if (i >= 0 && i < g_nfaults) g_faults[i].active = 0; }
  __attribute__ ((visibility ("default"))) unsigned long long sim_fault_fired (int i)
  {
    return i >= 0 && i < g_nfaults ? g_faults[i].fired : 0;
  }
  __attribute__ ((visibility ("default"))) unsigned long long sim_stat (int k)
  {
    switch (k)
      {
      case 0: return g_rand_calls;
      case 1: return g_rand_hash;
      case 2: return g_news;
      case 3: return g_live;
      case 4: return g_fail_fired;
      case 5: return g_corruptions;
      case 6: return g_opens;
      case 7: return g_srand_calls;
      case 8: return g_clock_reads;
      case 9: return g_dev_reads;
      }
    return 0;
  }
  __attribute__ ((visibility ("default"))) const char *sim_corruption () { return g_corrupt; }
}
