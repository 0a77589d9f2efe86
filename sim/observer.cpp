// Observer compiled into the simulated extension.  The guarded hook in
// MNM_Dta::load_once calls macposts_sim_tick() at the end of every loading
// interval; we diff the vehicle table against the previous interval and append
// to an event log.  It never draws random numbers and never allocates through
// operator new, so it perturbs neither the schedule nor the simulated heap.
#include "dta.h"
#include "ev_traffic.h"
#include "path.h"
#include <cstdint>
#include <cstdlib>
#include <map>
#include <stdexcept>
#include <vector>

namespace
{
template <class T> struct MA
{
  typedef T value_type;
  MA () {}
  template <class U> MA (const MA<U> &) {}
  T *allocate (std::size_t n)
  {
    void *p = malloc (n * sizeof (T));
    if (!p)
      abort ();
    return (T *) p;
  }
  void deallocate (T *p, std::size_t) { free (p); }
};
template <class T, class U> bool operator== (const MA<T> &, const MA<U> &) { return true; }
template <class T, class U> bool operator!= (const MA<T> &, const MA<U> &) { return false; }
typedef std::vector<int32_t, MA<int32_t>> IV;
typedef std::vector<double, MA<double>> DV;

struct VState
{
  int32_t link;
  const MNM_Path *path;
  int32_t seen;
  int32_t next;
  int32_t leg[4];
};
struct Trace
{
  IV births;   // tick veh class type label onode dnode start assign link pathidx
  IV moves;    // tick veh link
  IV deaths;   // tick veh
  IV pathchg;  // tick veh pathidx
  IV paths;    // concatenated: len, id, links...
  IV links;    // link ids, ascending
  IV sizes;    // per tick per link: finished, incoming
  IV counts;   // per tick: num_veh enroute finished map_size
  DV totals;   // per tick: total_time
  IV exits;    // (when asked for) per tick per link: n, ids of the vehicles at its exit
  IV plans;    // (when asked for) per vehicle of a tour or electric one: veh electric roadside n, n times onode dnode
  IV legs;     // (when asked for) tick veh onode dnode type station, at birth and whenever one changes
  IV queues;   // (when asked for) per tick: origins, per origin: node n, ids of the vehicles in its queue
  IV pools;    // (when asked for) per tick per charging station: node queues, per queue: n, ids
  std::map<int32_t, VState, std::less<int32_t>, MA<std::pair<const int32_t, VState>>> st;
  std::map<const MNM_Path *, int32_t, std::less<const MNM_Path *>,
           MA<std::pair<const MNM_Path *const, int32_t>>> pidx;
  std::vector<MNM_Dlink *, MA<MNM_Dlink *>> lp;
  const void *who = nullptr;
  int npaths = 0;
};
std::vector<Trace *, MA<Trace *>> g_traces;
int g_cap = 1 << 30;
int g_enabled = 0;
int g_flow = 0;

int32_t onode (const MNM_Origin *o) { return o && o->m_origin_node ? (int32_t) o->m_origin_node->m_node_ID : -1; }
int32_t dnode (const MNM_Destination *d) { return d && d->m_dest_node ? (int32_t) d->m_dest_node->m_node_ID : -1; }

void leg (Trace *t, VState &s, int interval, int32_t id, MNM_Veh *v, bool born)
{
  MNM_Veh_Delivery *q = dynamic_cast<MNM_Veh_Delivery *> (v);
  MNM_Veh_Electrified *e = dynamic_cast<MNM_Veh_Electrified *> (v);
  if (!q && !e)
    return;
  if (born)
    {
      int n = q && q->m_multi_od_seq ? (int) q->m_multi_od_seq->size () : 0;
      int32_t row[4] = { id, e != nullptr, e && e->m_using_roadside_charging, n };
      t->plans.insert (t->plans.end (), row, row + 4);
      for (int i = 0; i < n; ++i)
        {
          t->plans.push_back (onode ((*q->m_multi_od_seq)[i].first));
          t->plans.push_back (dnode ((*q->m_multi_od_seq)[i].second));
        }
    }
  int32_t now[4] = { onode (v->m_origin), dnode (v->m_dest), (int32_t) v->m_type,
                     e && e->m_charging_station ? (int32_t) e->m_charging_station->m_node_ID : -1 };
  bool same = !born;
  for (int i = 0; i < 4 && same; ++i)
    same = now[i] == s.leg[i];
  if (same)
    return;
  t->legs.push_back (interval);
  t->legs.push_back (id);
  for (int i = 0; i < 4; ++i)
    t->legs.push_back (s.leg[i] = now[i]);
}

int path_index (Trace *t, const MNM_Path *p)
{
  if (!p)
    return -1;
  auto it = t->pidx.find (p);
  if (it != t->pidx.end ())
    return it->second;
  int i = t->npaths++;
  t->pidx.insert (std::make_pair (p, i));
  t->paths.push_back ((int32_t) p->m_link_vec.size ());
  t->paths.push_back ((int32_t) p->m_path_ID);
  for (size_t k = 0; k < p->m_link_vec.size (); ++k)
    t->paths.push_back ((int32_t) p->m_link_vec[k]);
  return i;
}
}

extern "C" void sim_rand_tick (long long tick) __attribute__ ((weak));

void
macposts_sim_tick (MNM_Dta *dta, int interval)
{
  if (sim_rand_tick)
    sim_rand_tick (interval + 1);
  if (!g_enabled)
    return;
  Trace *t = g_traces.empty () ? nullptr : g_traces.back ();
  if (interval == 0 || t == nullptr || t->who != (const void *) dta)
    {
      void *mem = malloc (sizeof (Trace));
      t = new (mem) Trace ();
      t->who = dta;
      g_traces.push_back (t);
      std::map<int32_t, MNM_Dlink *, std::less<int32_t>,
               MA<std::pair<const int32_t, MNM_Dlink *>>> m;
      for (auto &kv : dta->m_link_factory->m_link_map)
        m[(int32_t) kv.first] = kv.second;
      for (auto &kv : m)
        {
          t->links.push_back (kv.first);
          t->lp.push_back (kv.second);
        }
    }
  MNM_Veh_Factory *vf = dta->m_veh_factory;
  // collect in vehicle-ID order so that the log does not depend on hashing
  std::map<int32_t, MNM_Veh *, std::less<int32_t>, MA<std::pair<const int32_t, MNM_Veh *>>> vs;
  for (auto &kv : vf->m_veh_map)
    vs[(int32_t) kv.first] = kv.second;
  for (auto &kv : vs)
    {
      MNM_Veh *v = kv.second;
      int32_t link = v->m_current_link ? (int32_t) v->m_current_link->m_link_ID : -1;
      auto it = t->st.find (kv.first);
      if (it == t->st.end ())
        {
          int32_t on = v->m_origin && v->m_origin->m_origin_node
                         ? (int32_t) v->m_origin->m_origin_node->m_node_ID : -1;
          int32_t dn = v->m_dest && v->m_dest->m_dest_node
                         ? (int32_t) v->m_dest->m_dest_node->m_node_ID : -1;
          int32_t row[11] = { interval, kv.first, (int32_t) v->get_class (),
                              (int32_t) v->m_type, (int32_t) v->get_label (), on, dn,
                              (int32_t) v->m_start_time, (int32_t) v->m_assign_interval,
                              link, path_index (t, v->m_path) };
          t->births.insert (t->births.end (), row, row + 11);
          VState s;
          s.link = link;
          s.path = v->m_path;
          s.seen = interval;
          if (g_enabled & 4)
            leg (t, s, interval, kv.first, v, true);
          t->st[kv.first] = s;
        }
      else
        {
          VState &s = it->second;
          if (s.link != link)
            {
              int32_t row[3] = { interval, kv.first, link };
              t->moves.insert (t->moves.end (), row, row + 3);
              s.link = link;
            }
          if (g_enabled & 4)
            leg (t, s, interval, kv.first, v, false);
          if (s.path != v->m_path)
            {
              int32_t row[3] = { interval, kv.first, path_index (t, v->m_path) };
              t->pathchg.insert (t->pathchg.end (), row, row + 3);
              s.path = v->m_path;
            }
          s.seen = interval;
        }
    }
  for (auto it = t->st.begin (); it != t->st.end ();)
    {
      if (it->second.seen != interval)
        {
          int32_t row[2] = { interval, it->first };
          t->deaths.insert (t->deaths.end (), row, row + 2);
          it = t->st.erase (it);
        }
      else
        ++it;
    }
  for (size_t k = 0; k < t->lp.size (); ++k)
    {
      t->sizes.push_back ((int32_t) t->lp[k]->m_finished_array.size ());
      t->sizes.push_back ((int32_t) t->lp[k]->m_incoming_array.size ());
      if (g_enabled & 2)
        {
          t->exits.push_back ((int32_t) t->lp[k]->m_finished_array.size ());
          for (MNM_Veh *v : t->lp[k]->m_finished_array)
            t->exits.push_back ((int32_t) v->m_veh_ID);
        }
    }
  if (g_enabled & 4)
    {
      std::map<int32_t, MNM_Charging_Station *, std::less<int32_t>,
               MA<std::pair<const int32_t, MNM_Charging_Station *>>> cs;
      for (auto &kv : dta->m_node_factory->m_node_map)
        if (auto c = dynamic_cast<MNM_Charging_Station *> (kv.second))
          cs[(int32_t) kv.first] = c;
      for (auto &kv : cs)
        {
          t->pools.push_back (kv.first);
          t->pools.push_back ((int32_t) kv.second->m_queue_pool.size ());
          for (auto &q : kv.second->m_queue_pool)
            {
              t->pools.push_back ((int32_t) q.size ());
              for (MNM_Veh *v : q)
                t->pools.push_back ((int32_t) v->m_veh_ID);
            }
        }
    }
  if (g_enabled & 8)
    {
      std::map<int32_t, MNM_DMOND *, std::less<int32_t>, MA<std::pair<const int32_t, MNM_DMOND *>>> on;
      for (auto &kv : dta->m_node_factory->m_node_map)
        if (auto o = dynamic_cast<MNM_DMOND *> (kv.second))
          on[(int32_t) kv.first] = o;
      t->queues.push_back ((int32_t) on.size ());
      for (auto &kv : on)
        {
          t->queues.push_back (kv.first);
          t->queues.push_back ((int32_t) kv.second->m_in_veh_queue.size ());
          for (MNM_Veh *v : kv.second->m_in_veh_queue)
            t->queues.push_back ((int32_t) v->m_veh_ID);
        }
    }
  t->counts.push_back ((int32_t) vf->m_num_veh);
  t->counts.push_back ((int32_t) vf->m_enroute);
  t->counts.push_back ((int32_t) vf->m_finished);
  t->counts.push_back ((int32_t) vf->m_veh_map.size ());
  t->totals.push_back ((double) vf->m_total_time);
  if (interval + 1 >= g_cap)
    throw std::runtime_error ("SIM_STEP_CAP");
}

#define EXPORT extern "C" __attribute__ ((visibility ("default")))
EXPORT void
sim_obs_reset (int enabled, int cap)
{
  for (Trace *t : g_traces)
    {
      t->~Trace ();
      free (t);
    }
  g_traces.clear ();
  g_enabled = enabled;
  g_cap = cap;
}
EXPORT int
sim_obs_count ()
{
  return (int) g_traces.size ();
}
EXPORT const int32_t *
sim_obs_ints (int trace, int kind, long long *n)
{
  Trace *t = g_traces[trace];
  IV *v = nullptr;
  switch (kind)
    {
    case 0: v = &t->births; break;
    case 1: v = &t->moves; break;
    case 2: v = &t->deaths; break;
    case 3: v = &t->pathchg; break;
    case 4: v = &t->paths; break;
    case 5: v = &t->links; break;
    case 6: v = &t->sizes; break;
    case 7: v = &t->counts; break;
    case 8: v = &t->exits; break;
    case 9: v = &t->plans; break;
    case 10: v = &t->legs; break;
    case 11: v = &t->pools; break;
    case 12: v = &t->queues; break;
    default: *n = 0; return nullptr;
    }
  *n = (long long) v->size ();
  return v->data ();
}
EXPORT const double *
sim_obs_totals (int trace, long long *n)
{
  *n = (long long) g_traces[trace]->totals.size ();
  return g_traces[trace]->totals.data ();
}
