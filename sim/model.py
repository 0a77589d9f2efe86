"""Executable reference models of the links and junctions.

Under random policy 6 every draw of interval t is (up to 2e-6) the known level
c(t), so stochastic rounding is the known function  trunc(x) + (frac(x) > c)
and the number of vehicles ready to leave a link is a function of the vehicles
that entered and left it.  The models take the observed entries and departures
of a link and predict its exit queue; the junction model takes the observed exit
queues and predicts how many vehicles pass each turn.
"""
import math


class Ambiguous(Exception):
    """A number to be rounded lies too close to the draw: either way is right."""


def rnd(x, c):
    n = int(x)
    f = x - n
    if abs(f - c) < 1e-5:
        raise Ambiguous
    return n + 1 if f > c else n


def trunc(x):
    n = round(x)
    if abs(x - n) < 1e-9 and abs(x - n) > 0:
        raise Ambiguous
    return int(x)


def div(a, b):
    return 0.0 if a == 0 or b == 0 else a / b


class Pq:
    """Point queue: entrance buffer, fixed delay, unlimited exit queue."""

    def __init__(self, a, ut, sc, mc):
        self.a, self.ut, self.sc, self.mc = a, ut, sc, mc
        self.stamp = max(1, int(a["len"] / (a["c"][0] * ut)))
        self.buf, self.q, self.fin = 0, [], 0

    def change(self, a):
        self.a = a

    def supply(self):
        return self.a["c"][1] * self.a["lanes"] * self.ut

    def step(self, n_in, n_out, c):
        self.fin -= sum(n_out)
        self.buf += sum(n_in)
        x = self.supply() * self.sc
        k = min(self.buf, math.ceil(x) if self.mc else trunc(x) if x < 1e9 else self.buf)
        self.buf -= k
        if k:
            self.q.append([k, 0])
        rest = []
        for e in self.q:
            if e[1] >= self.stamp - 1:
                self.fin += e[0]
            else:
                e[1] += 1
                rest.append(e)
        self.q = rest

    def exit(self):
        return self.fin, self.buf


class Lq1:
    """Link queue, one class."""

    def __init__(self, a, ut, sc, mc):
        self.ut, self.sc = ut, sc
        self.a = a
        ffs, cap, rj = a["c"]
        n = a["lanes"]
        C = cap * n
        if C * ut * sc < 1:
            cap = 1.0 / (n * ut * sc)
            C = 1.0 / (ut * sc)
        self.C, self.cap, self.kc = C, cap, cap / ffs * n
        self.q = self.fin = self.vol = 0

    def change(self, a):
        raise AssertionError

    def density(self):
        return self.vol / self.sc / self.a["len"]

    def flow(self, k):
        ffs, _, rj = self.a["c"]
        if k < self.kc:
            return ffs * k
        w = self.cap / (rj - self.cap / ffs)
        return (rj * self.a["lanes"] - k) * w

    def supply(self):
        k = self.density()
        return self.flow(k) * self.ut if k > self.kc else self.C * self.ut

    def step(self, n_in, n_out, c):
        self.fin -= sum(n_out)
        self.q += sum(n_in)
        self.vol = self.fin + self.q
        k = self.density()
        d = (self.flow(k) if k < self.kc else self.C) * self.ut
        if d < self.fin / self.sc:
            r = min(self.fin - trunc(d * self.sc), self.fin)
            self.q += r
            self.fin -= r
        else:
            m = min(rnd(d * self.sc, c) - self.fin, self.q)
            if m > 0:
                self.fin += m
                self.q -= m

    def exit(self):
        return self.fin, 0


class Ctm1:
    """Cell transmission, one class."""

    def __init__(self, a, ut, sc, mc):
        self.ut, self.sc = ut, sc
        ffs, cap, rj = a["c"]
        n = a["lanes"]
        std = ffs * ut
        self.n = max(1, int(math.floor(a["len"] / std)))
        rl = max(((a["len"] - (self.n - 1) * std) / std) * rj, rj)
        wave = cap / (rj - cap / ffs) / ffs
        last = cap / (rl - cap / ffs) / ffs
        fc = max(n * cap * ut, 1.0 / sc) if n * cap * ut * sc < 1 else n * cap * ut
        self.fc = fc
        self.hold = [n * std * rj] * (self.n - 1) + [n * std * rl]
        self.w = [wave] * (self.n - 1) + [last]
        self.q = [0] * self.n
        self.vol = [0] * self.n
        self.fin = 0

    def change(self, a):
        raise AssertionError

    def cell_supply(self, i):
        v = self.vol[i] / self.sc
        if v >= self.hold[i]:
            return 0.0
        if self.w[i] <= 1:
            return self.fc if self.fc > v else (self.hold[i] - v) * self.w[i]
        return min(self.fc, self.hold[i] - v)

    def supply(self):
        return self.cell_supply(0)

    def step(self, n_in, n_out, c):
        self.fin -= sum(n_out)
        self.q[0] += sum(n_in)
        self.vol[0] = self.q[0]
        out = []
        for i in range(self.n - 1):
            f = min(min(self.vol[i] / self.sc, self.fc), self.cell_supply(i + 1)) * self.sc
            out.append(min(self.q[i], rnd(f, c)))
        out.append(self.q[-1])
        for i in range(self.n):
            self.q[i] -= out[i]
            if i + 1 < self.n:
                self.q[i + 1] += out[i]
        self.fin += out[-1]
        self.vol = list(self.q)
        self.vol[-1] += self.fin

    def exit(self):
        return self.fin, 0


class Two:
    """Perceived densities and road shares of two classes (Qian, Li, Li, Zhang,
    Wang 2017), for a stretch of given length."""

    def __init__(self):
        self.v = [0, 0]
        self.pd = [0.0, 0.0]
        self.sf = [1.0, 0.0]

    def set(self, v, length, sc, kc, kj, w, rho1n):
        self.v = v
        k = [v[0] / sc / length, v[1] / sc / length]
        if k[0] / kc[0] + k[1] / kc[1] <= 1:
            f = [k[0] / kc[0], k[1] / kc[1]]
            self.pd = [k[0] + kc[0] * f[1], k[1] + kc[1] * f[0]]
            s = f[0] + f[1]
            self.sf = [1.0, 0.0] if s == 0 else [f[0] / s, f[1] / s]
        elif k[1] / kc[1] < 1 and k[0] / (1 - k[1] / kc[1]) <= rho1n:
            f1 = k[1] / kc[1]
            self.sf = [1 - f1, f1]
            self.pd = [k[0] / (1 - f1), kc[1]]
        elif v[1] == 0:
            u = (kj[0] - k[0]) * w[0] / k[0]
            self.sf = [1.0, 0.0]
            self.pd = [k[0], kj[1] * w[1] / (u + w[1])]
        elif v[0] == 0:
            u = (kj[1] - k[1]) * w[1] / k[1]
            self.sf = [0.0, 1.0]
            self.pd = [kj[0] * w[0] / (u + w[0]), k[1]]
        else:
            a, b = kj[0] * w[0] * k[1], kj[1] * w[1] * k[0]
            self.sf = [(k[0] * k[1] * (w[0] - w[1]) + b) / (a + b), (k[0] * k[1] * (w[1] - w[0]) + a) / (a + b)]
            self.pd = [k[0] / self.sf[0], k[1] / self.sf[1]]


class Lq2:
    """Link queue, two classes."""

    def __init__(self, a, ut, sc, mc):
        self.ut, self.sc = ut, sc
        self.q, self.f = [0, 0], [0, 0]
        self.st = Two()
        self.fresh = True
        self.change(a)

    def change(self, a):
        n = a["lanes"]
        self.len, self.conv = a["len"], a["conv"]
        self.ffs = [a["c"][0], a["t"][0]]
        C = [a["c"][1] * n, a["t"][1] * n]
        self.C = [x if x * self.ut * self.sc >= 1 else 1.0 / (self.ut * self.sc) for x in C]
        self.kj = [a["c"][2] * n, a["t"][2] * n]
        self.kc = [self.C[i] / self.ffs[i] for i in (0, 1)]
        self.w = [self.C[i] / (self.kj[i] - self.kc[i]) for i in (0, 1)]
        self.rho = self.kj[0] * (self.w[0] / (self.ffs[1] + self.w[0]))

    def supply(self):
        r = []
        for i in (0, 1):
            x = self.st.sf[i] * min(self.C[i], self.w[i] * (self.kj[i] - self.st.pd[i])) * self.ut
            x = max(x, self.st.sf[i] * self.w[i] * 0.30 * (self.kj[i] - self.kc[i]) * self.ut)
            r.append(max(0.0, x))
        return r[0] + self.conv * r[1]

    def step(self, n_in, n_out, c):
        for i in (0, 1):
            self.f[i] -= n_out[i]
            self.q[i] += n_in[i]
        self.st.set([self.q[i] + self.f[i] for i in (0, 1)], self.len, self.sc, self.kc, self.kj, self.w, self.rho)
        d = [self.st.sf[i] * min(self.C[i], self.ffs[i] * self.st.pd[i]) * self.ut for i in (0, 1)]
        tot = d[0] + self.conv * d[1]
        x = tot * self.sc - sum(self.f)
        m = [rnd(x * div(d[0], tot), c), rnd(x * div(self.conv * d[1], tot) / self.conv, c)]
        for i in (0, 1):
            k = max(0, min(m[i], self.q[i]))
            self.q[i] -= k
            self.f[i] += k

    def exit(self):
        return sum(self.f), 0


class Ctm2:
    """Cell transmission, two classes."""

    def __init__(self, a, ut, sc, mc):
        self.ut, self.sc = ut, sc
        ffs = a["c"][0]
        std = ffs * ut
        n = int(math.floor(a["len"] / std))
        L = a["len"]
        if n == 0:
            n, L = 1, std
        self.n = n
        self.cl = [std] * (n - 1) + [L - (n - 1) * std]
        self.q = [[0, 0] for _ in range(n)]
        self.f = [0, 0]
        self.st = [Two() for _ in range(n)]
        self.change(a)

    def change(self, a):
        n, ut, sc = a["lanes"], self.ut, self.sc
        self.conv = a["conv"]
        cap = []
        for x in ("c", "t"):
            y = a[x][1]
            cap.append(y if y * ut * sc * n >= 1 else 1.0 / (ut * sc * n))
        self.ffs = [a["c"][0], a["t"][0]]
        rj = [a["c"][2], a["t"][2]]
        kc = [cap[i] / self.ffs[i] for i in (0, 1)]
        self.w = [cap[i] / (rj[i] - kc[i]) for i in (0, 1)]
        self.rho = n * (rj[0] * (self.w[0] / (self.ffs[1] + self.w[0])))
        self.kj = [n * x for x in rj]
        self.kc = [n * x for x in kc]
        self.C = [n * x if n * x * ut * sc >= 1 else 1.0 / (ut * sc) for x in cap]

    def supply(self):
        k = (self.st[0].v[1] * self.conv + self.st[0].v[0]) / self.sc / self.cl[0]
        x = min(self.C[0], self.w[0] * (self.kj[0] - k))
        x = max(x, self.w[0] * 0.25 * (self.kj[0] - k))
        return max(0.0, x) * self.ut

    def set(self, i, v):
        self.st[i].set(v, self.cl[i], self.sc, self.kc, self.kj, self.w, self.rho)

    def step(self, n_in, n_out, c):
        for x in (0, 1):
            self.f[x] -= n_out[x]
            self.q[0][x] += n_in[x]
        self.set(0, list(self.q[0]))
        out = []
        for i in range(self.n - 1):
            o = []
            for x in (0, 1):
                d = min(self.C[x], self.ffs[x] * self.st[i].pd[x]) * self.ut
                s = max(0.0, min(self.C[x], self.w[x] * (self.kj[x] - self.st[i + 1].pd[x]))) * self.ut
                o.append(min(self.q[i][x], rnd(self.st[i].sf[x] * min(d, s) * self.sc, c)))
            out.append(o)
        out.append(list(self.q[-1]))
        for i in range(self.n):
            for x in (0, 1):
                self.q[i][x] -= out[i][x]
                if i + 1 < self.n:
                    self.q[i + 1][x] += out[i][x]
                else:
                    self.f[x] += out[i][x]
        for i in range(self.n):
            v = list(self.q[i])
            if i == self.n - 1:
                v = [v[0] + self.f[0], v[1] + self.f[1]]
            self.set(i, v)

    def exit(self):
        return sum(self.f), 0


def make(a, ut, sc, mc):
    t = a["type"]
    cls = Pq if t == "PQ" else (Lq2 if mc else Lq1) if t == "LQ" else (Ctm2 if mc else Ctm1)
    return cls(a, ut, sc, mc)
