"""Seeded random scripts: large, odd and extreme objects and arguments that
the exhaustive small models do not reach.  The scripts only say which calls
to make; the specification (Trace.tla) judges what they return."""
import math
import random
from fractions import Fraction as F

import files
from core import Behaviour


def num(x):
    if isinstance(x, F):
        return "%d/%d" % (x.numerator, x.denominator) if x.denominator != 1 else str(x.numerator)
    if isinstance(x, int):
        return str(x)
    if x != x:
        return "nan"
    if x in (math.inf, -math.inf):
        return "inf" if x > 0 else "-inf"
    return float(x).hex()


def nums(xs):
    return " ".join(num(x) for x in xs)


def lst(xs):
    return "%d %s" % (len(xs), nums(xs)) if xs else "0"


def up(x):
    return math.nextafter(x, 2.0)


def down(x):
    return math.nextafter(x, -1.0)


def quant(x, bits=12):
    """x with a short mantissa: keeps the exact arithmetic small."""
    if x == 0:
        return x
    m, e = math.frexp(x)
    return math.ldexp(round(m * 2 ** bits), e - bits)


def short(obj, bits=12):
    """Short numbers in an object, where that keeps it well-formed."""
    def ks(U):
        V = [quant(u, bits) for u in U]
        return V if len(set(V)) == len(set(U)) and V == sorted(V) and max(V) == 1.0 else U

    def pts(P):
        return [[quant(c, bits) for c in q[:3]] + [quant(q[3], bits) if quant(q[3], bits) != 1.0 else q[3]] for q in P]
    if isinstance(obj, Curve):
        return Curve(obj.p, ks(obj.U), pts(obj.P))
    return Surf(obj.pu, obj.pv, ks(obj.U), ks(obj.V), obj.nu, obj.nv, pts(obj.P))


# ---------------------------------------------------------------- knots

def interior(R, p, n, style=None, gap=2e-6, least=1):
    """About n interior knots as (value, multiplicity), at least gap apart."""
    style = style or R.choice(["uniform", "random", "random", "cluster", "ends", "dyadic", "geometric"])
    vals = set()
    if style == "uniform":
        d = max(1, R.choice([n, max(1, n // 2)]))
        vals = {(i + 1) / (d + 1) for i in range(d)}
    elif style == "cluster":
        while len(vals) < n:
            c = R.uniform(0.05, 0.95)
            for k in range(R.randint(1, 4)):
                vals.add(c)
                c += gap * R.choice([1.5, 3, 40, 1000])
    elif style == "ends":
        for k in range(n):
            e = R.choice([1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1]) * R.uniform(1, 9)
            if e > gap:
                vals.add(e if R.random() < .5 else 1 - e)
        vals = vals or {0.5}
    elif style == "dyadic":
        d = R.choice([4, 8, 16, 64, 1024])
        for k in range(n):
            vals.add(R.randint(1, d - 1) / d)
    elif style == "geometric":
        x = 0.5
        for k in range(min(n, 12)):
            vals.add(x)
            x /= 2
    else:
        for k in range(n):
            vals.add(R.uniform(0.01, 0.99))
    out = []
    for v in sorted(vals):
        if 0 < v < 1 and v > gap and 1 - v > gap and (not out or v - out[-1][0] > gap):
            out.append([v, 1])
    mul = R.choice(["one", "one", "some", "some", "max", "mixed"])
    for e in out:
        if mul == "max":
            e[1] = p
        elif mul == "some" and R.random() < .35:
            e[1] = R.randint(1, p)
        elif mul == "mixed":
            e[1] = R.randint(1, p)
        e[1] = max(e[1], min(p, least))
    return out


def knots(p, ints):
    U = [0.0] * (p + 1)
    for v, m in ints:
        U += [v] * m
    return U + [1.0] * (p + 1)


# --------------------------------------------------------------- points

WEIGHTS = ["one", "one", "equal", "mild", "mild", "wild", "single", "barely", "two", "arc", "zoned"]
COORDS = ["int", "normal", "normal", "big", "tiny", "offset", "planar", "repeat", "same", "line", "mixed"]


def weights(R, n, style=None):
    style = style or R.choice(WEIGHTS)
    if style == "one":
        return [1.0] * n
    if style == "equal":
        return [R.choice([0.5, 2.0, 0.3, 7.0])] * n
    if style == "mild":
        return [R.uniform(0.3, 3.0) for _ in range(n)]
    if style == "wild":
        return [10 ** R.uniform(-3, 3) for _ in range(n)]
    if style == "single":
        w = [1.0] * n
        w[R.randrange(n)] = R.choice([2.0, 0.25, 30.0])
        return w
    if style == "barely":
        w = [1.0] * n
        w[R.randrange(n)] = up(1.0) if R.random() < .5 else 1 + 1e-9
        return w
    if style == "two":
        return [R.choice([1.0, 2.0]) for _ in range(n)]
    if style == "peak":         # one or two points far heavier than the others
        w = [1.0] * n
        for i in R.sample([0, n - 1, R.randrange(n)], R.choice([1, 1, 2])):
            w[i] = 10 ** R.uniform(2, 6)
        return w
    if style == "zoned":        # weights that are one here and differ elsewhere
        k = R.randrange(n)
        flip = R.random() < .5
        return [(1.0 if (i < k) != flip else R.uniform(0.3, 3.0)) for i in range(n)]
    return [1.0 if i % 2 == 0 else math.sqrt(0.5) for i in range(n)]


def coords(R, n, style=None):
    style = style or R.choice(COORDS)
    if style == "int":
        return [[float(R.randint(-9, 9)) for _ in range(3)] for _ in range(n)]
    if style == "big":
        s = 10 ** R.randint(4, 12)
        return [[R.uniform(-s, s) for _ in range(3)] for _ in range(n)]
    if style == "tiny":
        s = 10 ** -R.randint(3, 9)
        return [[R.uniform(-s, s) for _ in range(3)] for _ in range(n)]
    if style == "offset":
        o = [R.choice([-1, 1]) * 10 ** R.randint(2, 6) for _ in range(3)]
        return [[o[k] + R.uniform(-1, 1) for k in range(3)] for _ in range(n)]
    if style == "planar":
        k = R.randrange(3)
        return [[0.0 if e == k else R.uniform(-5, 5) for e in range(3)] for _ in range(n)]
    if style == "repeat":
        out = []
        for i in range(n):
            out.append(list(out[-1]) if out and R.random() < .4 else [R.uniform(-5, 5) for _ in range(3)])
        return out
    if style == "same":
        q = [R.uniform(-5, 5) for _ in range(3)]
        return [list(q) for _ in range(n)]
    if style == "line":
        a, b = [R.uniform(-5, 5) for _ in range(3)], [R.uniform(-5, 5) for _ in range(3)]
        return [[a[k] + (b[k] - a[k]) * i / max(1, n - 1) for k in range(3)] for i in range(n)]
    if style == "mixed":
        return [[R.choice([0.0, 1.0, -1.0, R.gauss(0, 3), R.gauss(0, 1e3)]) for _ in range(3)] for _ in range(n)]
    return [[R.gauss(0, 4) for _ in range(3)] for _ in range(n)]


def pattern(R, q, weights=True):
    """Coincidences among the lines q of points: closed, periodic, symmetric."""
    def copy(i, j):         # q[i] becomes q[j]
        q[i] = [list(a) if weights else list(a[:3]) + [b[3]] for a, b in zip(q[j], q[i])]
    n = len(q)
    f = R.randrange(6)
    if f == 0:
        copy(n - 1, 0)
    elif f == 1:
        k = R.choice([1, 2, 2, 3])
        for i in range(k, n):
            copy(i, i - k)
    elif f == 2:
        for i in range(n // 2):
            copy(n - 1 - i, i)
    elif f == 3:
        copy(R.randrange(n), R.randrange(n))
    elif f == 4 and n > 2:
        i = R.randrange(2, n)
        copy(i, i - 2)
    elif n > 2:
        i = R.randrange(1, n)
        copy(i, i - 1)
    return q


class Curve:
    def __init__(self, p, U, P):
        self.p, self.U, self.P = p, U, P

    def cmd(self, r):
        return "curve %s %d %s %d %s" % (r, self.p, lst(self.U), len(self.P), " ".join(nums(q) for q in self.P))


class Surf:
    def __init__(self, pu, pv, U, V, nu, nv, P):
        self.pu, self.pv, self.U, self.V, self.nu, self.nv, self.P = pu, pv, U, V, nu, nv, P

    def cmd(self, r):
        return "surf %s %d %d %s %s %d %d %s" % (r, self.pu, self.pv, lst(self.U), lst(self.V), self.nu, self.nv,
                                                 " ".join(nums(q) for q in self.P))


def degree(R, hi=9):
    return min(hi, R.choice([1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9]))


def count(R, big=0.1, huge=0.02, cap=1000):
    x = R.random()
    if x < huge:
        return min(cap, R.choice([R.randint(60, 120), R.randint(120, 300)]))
    if x < huge + big:
        return min(cap, R.randint(12, 40))
    return min(cap, R.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]))


def curve(R, hi=9, big=0.1, huge=0.02, gap=2e-6, wstyle=None, cstyle=None, p=None, n=None, cap=1000, kstyle=None, loose=99):
    p = p or degree(R, hi)
    ints = interior(R, p, count(R, big, huge, cap) if n is None else n, gap=gap, style=kstyle, least=p - loose)
    U = knots(p, ints)
    m = len(U) - p - 1
    w, x = weights(R, m, wstyle), coords(R, m, cstyle)
    c = Curve(p, U, [x[i] + [w[i]] for i in range(m)])
    if R.random() < .2:
        c.P = [q[0] for q in pattern(R, [[q] for q in c.P], wstyle is None)]
    return short(c) if R.random() < .75 else c


def surface(R, hi=6, cap=8, big=0.06, gap=2e-6, wstyle=None, cstyle=None, maxnet=150, kstyle=None, loose=99):
    while True:
        pu, pv = degree(R, hi), degree(R, hi)
        U = knots(pu, interior(R, pu, count(R, big, 0.01, cap), gap=gap, style=kstyle, least=pu - loose))
        V = knots(pv, interior(R, pv, count(R, big, 0.01, cap), gap=gap, style=kstyle, least=pv - loose))
        if R.random() < .25:        # two directions that look alike
            pv = pu
            inner = interior(R, pv, count(R, big, 0.01, cap), gap=gap, style=kstyle, least=pv - loose)
            V = R.choice([list(U), [1.0 - x for x in reversed(U)], knots(pv, inner), None])
            if V is None or not all(V[i] < V[i + pv] for i in range(1, len(V) - pv - 1)) or V[0] != 0.0:
                d = distinct(U)[1:-1]
                far = sorted(R.uniform(a, b) for a, b in zip([0.0] + d, d + [1.0]))[:len(d)]
                V = knots(pv, [[x, U.count(y)] for x, y in zip(far, d)])
            if any(0 < b - a < gap for a, b in zip(V, V[1:])):
                V = list(U)
        nu, nv = len(U) - pu - 1, len(V) - pv - 1
        if nu * nv <= maxnet:
            break
    m = nu * nv
    style = wstyle or R.choice(WEIGHTS + ["rowwise"])
    if style == "rowwise":      # one row of the net is rational, the others are not
        w = [1.0] * m
        j = R.randrange(nv)
        for i in range(nu):
            w[j * nu + i] = R.uniform(0.5, 2)
    else:
        w = weights(R, m, style)
    x = coords(R, m, cstyle)
    s = Surf(pu, pv, U, V, nu, nv, [x[i] + [w[i]] for i in range(m)])
    f = R.random()
    if f < .12:                     # lines of the net coincide
        s.P = [q for r in pattern(R, [s.P[j * nu:(j + 1) * nu] for j in range(nv)], wstyle is None) for q in r]
    elif f < .24:
        t = swap(s)
        t.P = [q for r in pattern(R, [t.P[j * nv:(j + 1) * nv] for j in range(nu)], wstyle is None) for q in r]
        s = swap(t)
    elif f < .28:                   # a pole
        j = R.choice([0, nv - 1])
        for i in range(nu):
            s.P[j * nu + i][:3] = s.P[j * nu][:3]
    elif f < .32 and nu == nv:      # symmetric
        for i in range(nu):
            for j in range(i):
                s.P[j * nu + i][:3] = s.P[i * nu + j][:3]
    return short(s) if R.random() < .75 else s


def distinct(U):
    return sorted(set(U))


def params(R, U, k, edge=True):
    """k parameters: knots, their neighbours, the ends, points in between."""
    d = distinct(U)
    c = [0.0, 1.0]
    for x in d:
        c += [x, x]
        c += [up(x), down(x), x + 1e-7, x - 1e-7, x + 1e-10, x - 1e-10, x + 1e-12, x - 1e-12, x + 5e-7, x - 5e-7] if edge else []
    c += [2.0 ** -60, 1e-17] if edge else []
    c += [up(0.0), 1e-300] if edge == "all" else []
    c += [(a + b) / 2 for a, b in zip(d, d[1:])]
    c = [x for x in c if 0 <= x <= 1 and (x == 0 or x > 1e-30 or edge == "all")]
    out = []
    for i in range(k):
        out.append(R.choice(c) if R.random() < .6 else quant(R.random(), R.choice([6, 10, 16, 53])))
    return out


# ------------------------------------------------- exact knot insertion (for
# objects with redundant knots)

def insert_exact(p, U, H, x):
    """Boehm's algorithm on homogeneous Fractions."""
    k = max(i for i in range(len(U)) if U[i] <= x)
    out = []
    for i in range(len(H) + 1):
        if i <= k - p:
            out.append(H[i])
        elif i > k:
            out.append(H[i - 1])
        else:
            den = U[i + p] - U[i]
            a = (x - U[i]) / den if den else F(0)
            out.append([a * h + (1 - a) * g for h, g in zip(H[i], H[i - 1])] if a != 0 and a != 1
                       else list(H[i] if a == 1 else H[i - 1]))
    return U[:k + 1] + [x] + U[k + 1:], out


def homo(P):
    return [[F(q[e]) * F(q[3]) for e in range(3)] + [F(q[3])] for q in P]


def cart(H):
    return [[float(h[e] / h[3]) for e in range(3)] + [float(h[3])] for h in H]


def refine_curve(c, xs):
    U, H = [F(u) for u in c.U], homo(c.P)
    for x in xs:
        U, H = insert_exact(c.p, U, H, F(x))
    return Curve(c.p, [float(u) for u in U], cart(H))


def refine_surf(s, xs, d):
    if d == "v":
        return swap(refine_surf(swap(s), xs, "u"))
    rows = []
    for j in range(s.nv):
        c = refine_curve(Curve(s.pu, s.U, s.P[j * s.nu:(j + 1) * s.nu]), xs)
        rows.append(c.P)
    return Surf(s.pu, s.pv, c.U, s.V, len(rows[0]), s.nv, [q for r in rows for q in r])


def swap(s):
    return Surf(s.pv, s.pu, s.V, s.U, s.nv, s.nu, [s.P[j * s.nu + i] for i in range(s.nu) for j in range(s.nv)])


# ----------------------------------------------------------------- generators
# Each takes (R, n) and yields n behaviours.

def beh(lines):
    return Behaviour(lines, "random")


def orders(R, p):
    return R.choice([0, 1, 1, 2, 2, 3, p, p + 1, p + 2, max(0, p - 1), R.randint(0, 7), R.choice([1, 8, 12, 16, 20])])


def params2(R, s, pool):
    x = R.choice(pool) if R.random() < .25 else params(R, s.U, 1)[0]
    y = R.choice(pool) if R.random() < .25 else params(R, s.V, 1)[0]
    f = R.random()
    return [x, x] if f < .12 else [y, y] if f < .2 else [x, 1 - x] if f < .24 and 1 - (1 - x) == x else [x, y]


def variant(R, o):
    """Nearly the same object: one number differs."""
    def move(p, U):
        U = list(U)
        ks = [k for k in range(p + 1, len(U) - p - 1) if U[k - 1] < U[k] < U[k + 1]]
        if ks:
            k = R.choice(ks)
            for _ in range(20):
                x = quant(U[k - 1] + (U[k + 1] - U[k - 1]) * R.uniform(.2, .8))
                if min(x - U[k - 1], U[k + 1] - x) > max(1e-9, .1 * (U[k + 1] - U[k - 1])):
                    U[k] = x
                    break
        return U
    P = [list(q) for q in o.P]
    U, V = o.U, getattr(o, "V", None)
    f = R.randrange(5)
    if f == 0:
        U = move(o.p if V is None else o.pu, U)
    elif f == 1 and V:
        V = move(o.pv, V)
    elif f == 2:
        q = R.choice(P)
        e = R.randrange(3)
        q[e] = quant(q[e] * 1.5 + 1)
    elif f == 3:
        q = R.choice(P)
        q[3] = q[3] * R.choice([.5, 2.0, 1.25])
    else:
        i, j = R.randrange(len(P)), R.randrange(len(P))
        P[i], P[j] = P[j], P[i]
    return Curve(o.p, U, P) if V is None else Surf(o.pu, o.pv, U, V, o.nu, o.nv, P)


def scaled(R, o, often=.08):
    """Sometimes: all weights very small or very large (the same function)."""
    if R.random() < often:
        k = 2.0 ** R.choice([-60, -45, -36, -30, -20, 20, 40])
        o.P = [q[:3] + [q[3] * k] for q in o.P]
    return o


def many_objects(R, make, regs, query, k):
    """Several objects, queries interleaved, parameters shared; an object is
    replaced now and then, also by nearly the same one in the same place."""
    obs = [make() for _ in regs]
    lines = [o.cmd(r) for o, r in zip(obs, regs)]
    last = {}
    for i in range(k):
        j = R.randrange(len(regs))
        q = query(regs[j], obs[j])
        lines += q
        f = R.random()
        if f < .1:
            obs[j] = make()
            lines.append(obs[j].cmd(regs[j]))
        elif f < .3:
            obs[j] = variant(R, obs[j])
            lines += [obs[j].cmd(regs[j])] + q
        elif f < .4 and len(regs) > 1:      # the other object, changed, at the same place
            m = R.randrange(len(regs))
            a, b = obs[j], variant(R, obs[j])
            obs[m] = b
            lines += [b.cmd(regs[m])] + [l.replace(" %s " % regs[j], " %s " % regs[m], 1) for l in q]
    return lines


def curve_eval(R, n):
    pool = [quant(R.random()) for _ in range(6)] + [0.5, 0.25]
    for _ in range(n):
        regs = ["a", "b", "c"][:R.choice([1, 1, 2, 3])]

        def q(r, c):
            x = R.choice(pool) if R.random() < .25 else params(R, c.U, 1, "all")[0]
            return ["ceval %s %s" % (r, num(x))]
        yield beh(many_objects(R, lambda: scaled(R, curve(R, gap=R.choice([2e-6, 2e-6, 1e-9]))), regs, q, 14))


def curve_ders(R, n):
    pool = [quant(R.random()) for _ in range(6)] + [0.5, 0.25]
    for _ in range(n):
        regs = ["a", "b", "c"][:R.choice([1, 1, 2, 3])]

        def q(r, c):
            x = R.choice(pool) if R.random() < .25 else params(R, c.U, 1)[0]
            m = min(orders(R, c.p), 20)
            f = R.random()
            if f < .5:
                return ["cders %s %s %d" % (r, num(x), m)]
            if f < .8:
                return ["cder %s %s %d" % (r, num(x), m)]
            return ["cders %s %s %d" % (r, num(x), m), "cder %s %s %d" % (r, num(x), R.randint(0, m + 1))]
        yield beh(many_objects(R, lambda: scaled(R, curve(R, hi=R.choice([4, 6, 9]), gap=R.choice([1e-3, 1e-4, 2e-6]))), regs, q, 7))


def surf_eval(R, n):
    pool = [quant(R.random()) for _ in range(4)] + [0.5, 0.25]
    for _ in range(n):
        regs = ["a", "b"][:R.choice([1, 1, 2])]

        def q(r, s):
            return ["seval %s %s" % (r, nums(params2(R, s, pool)))]
        yield beh(many_objects(R, lambda: scaled(R, surface(R, gap=R.choice([2e-6, 2e-6, 1e-9]))), regs, q, 12))


def surf_ders(R, n):
    pool = [quant(R.random()) for _ in range(4)] + [0.5, 0.25]
    for _ in range(n):
        regs = ["a", "b"][:R.choice([1, 1, 2])]

        def q(r, s):
            x, y = params2(R, s, pool)
            a, b = min(orders(R, s.pu), 7), min(orders(R, s.pv), 7)
            while a * b > 12:
                a, b = max(0, a - 1), max(0, b - 1)
            op = R.choice(["sders", "sder"])
            return ["%s %s %s %d %d" % (op, r, nums([x, y]), a, b)]
        yield beh(many_objects(R, lambda: scaled(R, surface(R, hi=5, maxnet=60, gap=R.choice([1e-3, 2e-6]))), regs, q, 3))


def high_order(R, n, surf):
    """High degrees and orders, where only the exact factors are right."""
    for _ in range(n):
        p, q = R.randint(9, 12), R.randint(9, 12)
        w = R.choice([(.3, 3), (.3, 3), (.1, 2), (.9, 1.1)])
        pts = lambda m: [[quant(R.uniform(-3, 3)) for _ in range(3)] + [quant(R.uniform(*w))] for _ in range(m)]
        if surf:
            o = Surf(p, q, knots(p, []), knots(q, []), p + 1, q + 1, pts((p + 1) * (q + 1)))
        else:
            o = Curve(p, knots(p, []), pts(p + 1))
        lines = [o.cmd("a")]
        for _ in range(1 if surf else 3):
            x, y = R.choice([0.25, 0.5, quant(R.random())]), R.choice([0.25, 0.5, quant(R.random())])
            if surf:
                a, b = R.choice([(R.randint(18, 20), R.randint(18, 20)), (R.randint(18, 20), R.randint(18, 20)),
                                 (R.randint(0, 3), R.randint(15, 20)), (R.randint(15, 20), R.randint(0, 3))])
                lines.append("sder a %s %d %d" % (nums([x, y]), a, b))
            else:
                lines.append("cders a %s %d" % (num(x), R.randint(16, 20)))
        yield beh(lines)


def curve_high(R, n):
    yield from high_order(R, n, False)


def surf_high(R, n):
    yield from high_order(R, n, True)


def basis(R, n):
    for _ in range(n):
        regs = ["a", "b"][:R.choice([1, 2])]
        deg = {}
        lines = []
        kv = {}
        for r in regs:
            p = R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 12, R.randint(13, 20)])
            U = knots(p, interior(R, max(1, p), count(R) if p < 13 else R.choice([0, 1, 2]), gap=R.choice([1e-3, 2e-6, 1e-9])))
            deg[r], kv[r] = p, U
            lines.append("kv %s %s" % (r, lst(U)))
        for _ in range(12):
            r = R.choice(regs)
            p, U = deg[r], kv[r]
            x = params(R, U, 1)[0]
            m = min(orders(R, p), 22)
            k = max(i for i in range(p, len(U) - p - 1) if U[i] <= x and U[i] < U[i + 1])
            f = R.randrange(6)
            lines.append(["beval %s %d %s" % (r, p, num(x)), "bevalat %s %d %d %s" % (r, p, k, num(x)),
                          "bders %s %d %s %d" % (r, p, num(x), m), "bdersat %s %d %d %s %d" % (r, p, k, num(x), m),
                          "bder %s %d %s %d" % (r, p, num(x), m), "bderat %s %d %d %s %d" % (r, p, k, num(x), m)][f])
        yield beh(lines)


def room(U, p):
    """Multiplicities still free per existing interior knot."""
    return {x: p - U.count(x) for x in distinct(U) if 0 < x < 1}


def insert_list(R, U, p, n, gap):
    """n values to insert, any order, multiplicities within the degree."""
    free = room(U, p)
    xs = []
    tries = 0
    while len(xs) < n and tries < 200:
        tries += 1
        f = R.random()
        if f < .3 and free:
            x = R.choice(sorted(free))
        elif f < .55 and xs:
            x = R.choice(xs)
        elif f < .65 and gap < 1e-8:
            x = R.choice(distinct(U)) + R.choice([1e-7, -1e-7, 1e-9, -1e-9, 3e-7])
        else:
            x = R.choice([R.random(), R.randint(1, 15) / 16, R.choice([1e-5, 1 - 1e-5, 0.001])])
        if not 0 < x < 1 or any(0 < abs(x - u) < gap for u in list(U) + xs):
            continue
        if free.get(x, p) <= 0:
            continue
        free[x] = free.get(x, p) - 1
        xs.append(x)
    return xs


def insert_cmds(R, op, d, r, U, p, gap=1e-10):
    """One of the three forms of an insertion call; returns (cmd, values)."""
    form = R.choice(["one", "times", "times", "list", "list", "list"])
    if form == "one":
        xs = insert_list(R, U, p, 1, gap)
    elif form == "times":
        xs = insert_list(R, U, p, 1, gap)
        if xs:
            xs = xs * R.randint(1, max(1, p - U.count(xs[0])))
    else:
        xs = insert_list(R, U, p, R.choice([0, 1, 2, 3, 4, 5, 8, 8, 13, 20, 33]), gap)
    if not xs:
        form = "list"
    return "%s %s %s %s" % (op, r, form, lst(xs)), xs


def curve_insert(R, n):
    for _ in range(n):
        c = scaled(R, curve(R, gap=R.choice([1e-3, 2e-6, 1e-8])))
        lines = [c.cmd("a")]
        U = list(c.U)
        for _ in range(4):
            op = "cins " + R.choice(["a", "z", "z"])
            cmd, xs = insert_cmds(R, op, "", "a", U, c.p)
            if op == "cins a":
                U = sorted(U + xs)
            lines.append(cmd)
        if R.random() < .5:         # one by one, many times, and as a list
            xs = insert_list(R, U, c.p, 1, 1e-10)
            if xs:
                m = R.randint(1, c.p - U.count(xs[0]))
                lines += ["cins x a times %d %s" % (m, nums(xs * m)), "cins y a list %d %s" % (m, nums(xs * m))]
                lines += ["cins w %s one 1 %s" % ("a" if i == 0 else "w", num(xs[0])) for i in range(m)]
        yield beh(lines)


def surf_insert(R, n):
    for _ in range(n):
        s = scaled(R, surface(R, hi=5, maxnet=70, cap=6, gap=R.choice([1e-3, 2e-6, 1e-8])))
        lines = [s.cmd("a")]
        K = {"u": list(s.U), "v": list(s.V)}
        p = {"u": s.pu, "v": s.pv}
        for _ in range(3):
            d = R.choice("uv")
            keep = R.random() < .4
            form, xs = insert_cmds(R, "", "", "", K[d], p[d])
            lines.append("sins %s a %s%s" % ("a" if keep else "z", d, form))
            if keep:
                K[d] = sorted(K[d] + xs)
        yield beh([" ".join(l.split()) for l in lines])


def removal_targets(R, U, xs):
    d = [x for x in distinct(U) if 0 < x < 1]
    t = list(xs) * 3 + d
    x = R.choice(t) if t and R.random() < .9 else R.random()
    if x not in d and any(abs(x - u) < 1e-4 for u in d):
        x = R.choice(d)
    return x


TOLS = ["1e-9", "1e-9", "1e-10", "1e-7", "1e-6", "1e-5", "1e-3", "1e-2"]


def curve_remove(R, n):
    for _ in range(n):
        c = curve(R, gap=R.choice([1e-2, 1e-3]), big=0.05, huge=0.01, hi=7,
                  cstyle=R.choice(["int", "normal", "planar", "repeat", "line", "tiny", "same"]),
                  wstyle=R.choice(["one", "one", "mild", "equal", "arc", "single", "two"]))
        xs = insert_list(R, c.U, c.p, R.choice([0, 1, 1, 2, 3, 4, 6]), 1e-3)
        if R.random() < .3:         # many copies of one value
            x = R.choice([1 / 2, 3 / 8, 2 / 3, R.random()])
            if all(abs(x - u) > 1e-2 for u in c.U + xs):
                xs += [x] * R.randint(1, c.p)
        c = scaled(R, refine_curve(c, xs), .15)
        lines = [c.cmd("a")]
        if xs and R.random() < .5:
            m = xs.count(xs[-1])
            lines.append("crem z a %s %d %s" % (num(xs[-1]), R.choice([m, m, m - 1, m + 1]) or 1, R.choice(["1e-5", "1e-4", "1e-6"])))
        for _ in range(5):
            lines.append("crem %s a %s %d %s" % (R.choice("aazz"), num(removal_targets(R, c.U, xs)),
                                                 R.choice([1, 1, 2, 3, c.p, c.p + 1, 10]), R.choice(TOLS)))
        yield beh(lines)


def nearly(R, c, size, x=None):
    """Displace one control point (or its weight) a little: nearly redundant."""
    P = [list(q) for q in c.P]
    k = R.randrange(len(P))
    if x is not None and R.random() < .8:
        k = max(u for u in range(len(c.U)) if c.U[u] <= x) - R.randint(0, c.p)
    if R.random() < .2:
        P[k][3] *= 1 + size
    else:
        P[k][R.randrange(3)] += size
    return Curve(c.p, c.U, P)


def curve_remove_near(R, n):
    """Removals that are not exact but may be within the tolerance."""
    for _ in range(n):
        c = curve(R, gap=5e-2, big=0, huge=0, hi=5, cstyle=R.choice(["int", "normal", "planar"]),
                  wstyle=R.choice(["one", "mild", "arc", "peak", "peak"]))
        xs = insert_list(R, c.U, c.p, R.choice([1, 2, 3]), 2e-2)
        c = refine_curve(c, xs)
        size = 10 ** R.uniform(-8, -2)
        c = scaled(R, nearly(R, c, size, R.choice(xs) if xs else None), .2)
        lines = [c.cmd("a")]
        for x in distinct(xs):
            tol = R.choice(TOLS) if R.random() < .4 else "%.3e" % max(1e-10, size * 10 ** R.uniform(-3, 1.5))
            lines.append("crem z a %s %d %s" % (num(x), R.choice([1, 2, 3]), tol))
        yield beh(lines)


def surf_remove(R, n):
    for _ in range(n):
        s = surface(R, hi=4, maxnet=50, cap=4, gap=1e-2, cstyle=R.choice(["int", "normal", "repeat", "planar"]),
                    wstyle=R.choice(["one", "mild", "rowwise", "arc", "equal", "peak"]))
        if R.random() < .15:        # a pole, with weights of its own
            j = R.choice([0, s.nv - 1, R.randrange(s.nv)])
            for i in range(s.nu):
                s.P[j * s.nu + i] = s.P[j * s.nu][:3] + [R.choice([.5, 1.0, 1.5, 2.0])]
            if R.random() < .5:
                s = swap(s)
        K = {}
        for d in "uv":
            U, p = (s.U, s.pu) if d == "u" else (s.V, s.pv)
            K[d] = insert_list(R, U, p, R.choice([0, 1, 2, 3]), 1e-2)
            s = refine_surf(s, K[d], d)
        if R.random() < .4:         # one row or column not redundant, others are
            P = [list(q) for q in s.P]
            for k in range(R.choice([1, 1, 2])):
                P[R.randrange(len(P))][R.randrange(3)] += R.choice([1.0, 1e-3, 10 ** R.uniform(-9, -3)])
            s = Surf(s.pu, s.pv, s.U, s.V, s.nu, s.nv, P)
        s = scaled(R, s, .12)
        lines = [s.cmd("a")]
        for _ in range(4):
            d = R.choice("uv")
            lines.append("srem %s a %s %s %d %s" % (R.choice("azz"), d, num(removal_targets(R, s.U if d == "u" else s.V, K[d])),
                                                    R.choice([1, 1, 2, 3, 6]), R.choice(TOLS)))
        yield beh(lines)


def elev_kw(R):
    """Knots close together only where the method needs no ill-conditioned
    knot removals: at most one continuous derivative."""
    if R.random() < .3:
        return dict(gap=R.choice([1e-4, 1e-5, 2e-6]), loose=1, kstyle=R.choice(["cluster", "ends", None]))
    return dict(gap=R.choice([1e-1, 1e-2, 1e-3]))


def curve_elevate(R, n):
    for _ in range(n):
        c = scaled(R, curve(R, hi=7, big=0.06, huge=0.01, **elev_kw(R)))
        lines = [c.cmd("a")]
        p = c.p
        for _ in range(3):
            t = R.choice([1, 1, 1, 2, 2, 3, 4, 5])
            if p + t > 12:
                t = 1
            d = R.choice("azz")
            lines.append("celev %s a %d" % (d, t))
            if d == "a":
                p += t
                if p > 10:
                    break
        yield beh(lines)


def surf_elevate(R, n):
    for _ in range(n):
        s = scaled(R, surface(R, hi=5, maxnet=50, cap=4, **elev_kw(R)))
        lines = [s.cmd("a")]
        for k in range(2):
            lines.append("selev %s a %s %d" % (R.choice("az") if k == 0 else "z", R.choice("uv"), R.choice([1, 1, 2, 2, 3, 4])))
        yield beh(lines)


def matrix(R):
    f = R.randrange(11)
    if f == 0:
        return [1.0, 0, 0, 0, 1, 0, 0, 0, 1]
    if f == 8:          # nearly the identity, nearly nothing
        e = 10 ** R.uniform(-12, -1)
        return [(i % 4 == 0) + (R.choice([0, 0, 1, -1]) * e) for i in range(9)]
    if f == 9:          # a scaling, possibly with a zero or a reflection
        d = [R.choice([1.0, -1.0, 0.0, 2.0, 1e-7, 1e7, R.gauss(0, 1)]) for _ in range(3)]
        return [d[i // 4] if i % 4 == 0 else 0.0 for i in range(9)]
    if f == 10:         # a rotation by a small or a right angle about any axis
        t = R.choice([math.pi / 2, math.pi, 1e-3, 1e-6, -1e-5])
        i, j = R.sample(range(3), 2)
        M = [float(k % 4 == 0) for k in range(9)]
        M[i * 3 + i] = M[j * 3 + j] = math.cos(t)
        M[i * 3 + j], M[j * 3 + i] = -math.sin(t), math.sin(t)
        return M
    if f == 1:
        t = R.uniform(0, 7)
        return [math.cos(t), -math.sin(t), 0, math.sin(t), math.cos(t), 0, 0, 0, 1]
    if f == 2:
        return [0, 1.0, 0, 1, 0, 0, 0, 0, -1]
    if f == 3:
        return [0.0] * 9
    if f == 4:
        a, b = [R.gauss(0, 2) for _ in range(3)], [R.gauss(0, 2) for _ in range(3)]
        return [x * y for x in a for y in b]
    if f == 5:
        return [R.gauss(0, 1) * 10 ** R.uniform(-6, 6) for _ in range(9)]
    if f == 6:
        return [float(R.randint(-3, 3)) for _ in range(9)]
    return [R.gauss(0, 2) for _ in range(9)]


def xform(R, n):
    for i in range(n):
        if i % 2:
            s = scaled(R, surface(R))
            yield beh([s.cmd("a")] + ["sxform %s a %s" % (R.choice("az"), nums(matrix(R))) for _ in range(4)])
        else:
            c = scaled(R, curve(R))
            yield beh([c.cmd("a")] + ["cxform %s a %s" % (R.choice("az"), nums(matrix(R))) for _ in range(4)])


def rational(R, n):
    for i in range(n):
        ws = R.choice(["one", "equal", "single", "barely", "barely", "two", "mild", "wild", "zoned"])
        if i % 2:
            s = surface(R, wstyle=R.choice([ws, "rowwise"]))
            if R.random() < .3:
                e = R.choice([3e-16, 1e-12, 1e-7, 5e-7, 1e-6])
                s.P = [q[:3] + [1.0] for q in s.P]
                s.P[R.choice([0, -1, R.randrange(len(s.P))])][3] = 1 + e
            yield beh([s.cmd("a"), "srat a", "sxform z a " + nums(matrix(R)), "srat z"])
        else:
            c = curve(R, wstyle=ws)
            if R.random() < .3:
                e = R.choice([3e-16, 1e-12, 1e-7, 5e-7, 1e-6])
                c.P = [q[:3] + [1.0] for q in c.P]
                c.P[R.choice([0, -1, R.randrange(len(c.P))])][3] = 1 + e
            yield beh([c.cmd("a"), "crat a", "cxform z a " + nums(matrix(R)), "crat z"])


def rational_more(R, n):
    """No points, one point, weights whose differences cancel in a sum."""
    for _ in range(n):
        f = R.randrange(4)
        if f == 0:
            yield beh(["curve a 2 6 0 0 0 1 1 1 0", "crat a", "surf b 1 1 4 0 0 1 1 4 0 0 1 1 0 0", "srat b"])
        elif f == 1:
            w = R.choice([1.0, 0.5, 3.0])
            yield beh(["curve a 2 6 0 0 0 1 1 1 1 " + nums([1, 2, 3, w]), "crat a",
                       "surf b 1 1 4 0 0 1 1 4 0 0 1 1 1 1 " + nums([1, 2, 3, w]), "srat b"])
        elif f == 2:
            k = R.randint(2, 6)
            w = [1.0] * k
            d = R.choice([0.5, 0.25, 1e-3])
            w[0] += d
            w[-1] -= d
            P = [[float(i), 0.0, 1.0, w[i]] for i in range(k)]
            yield beh([Curve(k - 1, [0.0] * k + [1.0] * k, P).cmd("a"), "crat a"])
        else:
            nu, nv = R.randint(1, 5), R.randint(1, 5)
            if R.random() < .3:
                nu, nv = R.choice([(1, nv + 1), (nu + 1, 1)])
            P = [[float(i), 1.0, 0.0, 1.0] for i in range(nu * nv)]
            P[R.choice([0, nu - 1, nu * (nv - 1), nu * nv - 1, R.randrange(nu * nv)])][3] = R.choice([0.5, 1 + 1e-15, 2.0])
            yield beh([Surf(nu - 1, nv - 1, [0.0] * nu + [1.0] * nu, [0.0] * nv + [1.0] * nv, nu, nv, P).cmd("a"), "srat a"])


def bezier(R, n):
    for _ in range(n):
        gap = R.choice([1e-2, 1e-3, 2e-6, 1e-9])
        c = scaled(R, curve(R, gap=gap, hi=8, cap=30, kstyle=R.choice(["ends", "cluster"]) if gap < 1e-8 else None))
        lines = [c.cmd("a"), "cbez a"]
        if R.random() < .4:
            c = curve(R, hi=5)
            lines += [c.cmd("b"), "cbez b", "cbez a"]
        yield beh(lines)


def cbox(R, n):
    for _ in range(n):
        c = curve(R, gap=1e-2, big=0.05, huge=0, hi=6, wstyle=R.choice(["one", "mild", "arc", "single", "two", "equal"]),
                  cstyle=R.choice(["int", "normal", "planar", "repeat", "same", "line", "neg"]))
        if R.random() < .4:
            o = R.choice([-20.0, 20.0, -100.0])
            c.P = [[q[0] + o, q[1] - o, q[2] + o, q[3]] for q in c.P]
        elif R.random() < .3:       # another size, possibly not the same in all directions
            f = [R.choice([1e-3, 0.1, 1.0, 30.0, 1e3]) for _ in range(3)] if R.random() < .5 else [R.choice([1e-4, 1e-2, 100.0, 1e5])] * 3
            c.P = [[q[e] * f[e] for e in range(3)] + [q[3]] for q in c.P]
        if R.random() < .15:        # one coordinate constant and not zero
            e, z = R.randrange(3), R.choice([3.0, -0.1, 1 / 3])
            for q in c.P:
                q[e] = z
        size = max(max(q[e] for q in c.P) - min(q[e] for q in c.P) for e in range(3)) or 1.0
        lines = [c.cmd("a")]
        for e in R.sample(["1/50", "1/10", "1/4", "1", "5", "rel", "small", "tiny"], 2):
            if e == "rel":
                e = num(quant(size * R.choice([0.01, 0.1, 1, 10]), 6))
            elif e == "small":
                e = "1/1000"
            elif e == "tiny":
                e = R.choice(["1e-6", "1e-9", "1e-12"])
            lines.append("cbox a %s" % e)
        yield beh(lines)


# ------------------------------------------------------------ knot vectors

def knot_values(R):
    """A list of values: usually nearly a valid knot vector."""
    p = R.randint(0, 5)
    U = knots(p, interior(R, max(1, p), count(R, 0.1, 0.02), gap=R.choice([1e-3, 1e-9])))
    for _ in range(R.choice([0, 0, 1, 1, 2])):
        k = R.randrange(len(U))
        f = R.randrange(12)
        if f == 0:
            U[k] = math.nan
        elif f == 1:
            U[-1] = R.choice([down(1.0), up(1.0), 1 - 1e-7, 1 + 1e-7, 2.0, 0.0])
        elif f == 2:
            U[0] = R.choice([-1e-300, -1e-9, down(0.0), -1.0, 1e-3, up(0.0), -0.0])
        elif f == 3 and k > 0:
            U[k] = down(U[k - 1])
        elif f == 4:
            j = R.randrange(len(U))
            U[k], U[j] = U[j], U[k]
        elif f == 5:
            U[k] = R.choice([math.inf, -math.inf])
        elif f == 6:
            U = U[:k]
        elif f == 7:
            U = U[k:]
        elif f == 8:
            U[-1] = R.choice([math.nan, math.inf])
        elif f == 9:
            U[0] = math.nan
        elif f == 10 and k > 0:
            U[k] = U[k - 1] - R.choice([1e-7, 1e-9, 1e-12])
        if not U:
            break
    return U


def knot_make(R, n):
    for _ in range(n):
        lines = []
        for _ in range(5):
            f = R.randrange(4)
            if f < 2:
                lines.append("kvlist k " + lst(knot_values(R)))
            elif f == 2:
                vs = knot_values(R)
                ps = []
                for v in vs:
                    if ps and ps[-1][0] == v and R.random() < .9:
                        ps[-1][1] += 1
                    else:
                        ps.append([v, 1])
                if ps and R.random() < .3:
                    ps[R.randrange(len(ps))][1] = R.choice([0, 0, 2, 5, 17, 40, 300])
                lines.append(("kvpairs k %d " % len(ps) + " ".join("%s %d" % (num(v), m) for v, m in ps)).strip())
            else:
                p = R.choice([R.randint(0, 9), R.randint(0, 9), R.randint(10, 40)])
                lines.append("kvuni k %d %d" % (p, 2 * (p + 1) + R.choice([0, 1, 2, 3, 7, 30, 100])))
        yield beh(lines)


def valid_knots(R):
    p = R.randint(0, 6)
    if R.random() < .25:        # not clamped, or not equally at both ends
        a, b = R.randint(1, 5), R.randint(1, 5)
        mid = [R.randint(1, 15) / 16 for _ in range(R.randint(0, 6))]
        return None, [0.0] * a + sorted(mid) + [1.0] * b
    U = knots(p, interior(R, max(1, p), count(R, 0.1, 0.03), gap=R.choice([1e-3, 2e-6, 1e-9, 1e-9])))
    return p, U


def knot_query(R, n):
    for _ in range(n):
        lines = []
        p, U = valid_knots(R)
        if R.random() < .2:
            d = R.randint(2, 40)
            p = R.randint(0, 4)
            U = knots(p, [((i + 1) / (d + 1), 1) for i in range(d)])
            if R.random() < .5:
                k = R.randrange(p + 1, len(U) - p - 1)
                if R.random() < .4:         # spans that grow little by little
                    e = R.choice([3e-7, 8e-7, 9.9e-7])
                    d = [1 / (d + 1) + e * (i - d / 2) for i in range(d + 1)]
                    if min(d) > 0:
                        U = knots(p, [[sum(d[:i + 1]), 1] for i in range(len(d) - 1)])
                else:
                    U[k] += R.choice([1e-9, 4e-7, -4e-7, 3e-6, -3e-6, 1e-3])
                U.sort()
        lines.append("kv k " + lst(U))
        lines += ["kpairs k", "kflags k", "kdeg k"]
        for x in params(R, U, 8, "all"):
            f = R.randrange(3)
            if f == 0 and p is not None:
                lines.append("kspan k %d %s" % (p, num(x)))
            elif f == 1:
                lines.append("kpspan k %s" % num(x))
            else:
                if R.random() < .4:
                    x = R.choice(U) + R.choice([1e-8, -1e-8, 5e-7, -9e-7, 1.2e-6, -1.5e-6, 1e-5])
                lines.append("kmult k %s" % num(x))
        yield beh(lines)


def knot_raw(R, n):
    """Lists of knots that need not be valid: what the flags say of them."""
    for _ in range(n):
        lines = []
        for _ in range(6):
            f = R.randrange(4)
            if f == 0:
                U = [R.choice([0.0, 0.0, 1.0, 1.0, 0.5, -0.5, 1.5, 0.25]) for _ in range(R.choice([0, 1, 2, 3, 4, 5, 6]))]
            else:
                U = list(valid_knots(R)[1])
                if R.random() < .3:
                    U = U[:R.choice([2, 3, 4])]
                k = R.choice([0, 1, 2, -1, -2, R.randrange(len(U))]) % len(U)
                x = R.choice([-1.0, -1e-9, 0.0, 1e-9, 0.5, down(1.0), 1.0, up(1.0), 1.5, 2.0, U[k]])
                if f == 1:
                    U[k] = x
                elif f == 2:
                    U.insert(k, x)
                elif len(U) > 1:
                    U[k], U[k - 1] = U[k - 1], U[k]
            lines += ["kv k " + lst(U), "kflags k"]
            if U and R.random() < .5:
                lines.append("kdeg k")
        yield beh(lines)


def knot_long(R, n):
    """Spans in very long knot vectors."""
    for _ in range(n):
        p = R.randint(0, 4)
        d = R.choice([300, 3000, 40000, 70000])
        U = [0.0] * (p + 1)
        while len(U) < d:
            U += [quant((len(U) + R.random()) / (d + 1), 40)] * (1 if R.random() < .9 else R.randint(1, max(1, p)))
        U += [1.0] * (p + 1)
        lines = ["kv k " + lst(U)]
        for x in params(R, U[:p + 1] + R.sample(U, 20) + U[-p - 2:], 14):
            lines.append("kspan k %d %s" % (p, num(x)) if R.random() < .8 else "kmult k %s" % num(x))
        yield beh(lines)


def knot_edit(R, n):
    for _ in range(n):
        p, U = valid_knots(R)
        ends = R.random() < .25     # knots very close to the ends
        if ends:
            U = sorted(U + [R.choice([2.0 ** -k, 1 - 2.0 ** -k]) for k in R.sample(range(25, 53), R.randint(1, 3))])
        lines = ["kv k " + lst(U)]
        for _ in range(6):
            if R.random() < .3:
                lines.append("krev k")
            elif ends and R.random() < .5:
                k = R.randint(20, 53)
                lines.append("kins k %s %d" % (num(R.choice([2.0 ** -k, 1 - 2.0 ** -k])), R.choice([1, 2])))
            else:
                x = R.choice([u for u in U if 0 < u < 1] or [0.5]) if R.random() < .4 else quant(R.uniform(0.001, 0.999), 20)
                if R.random() < .15:
                    x = R.choice([up(x), down(x)])
                lines.append("kins k %s %d" % (num(x), R.choice([1, 1, 1, 2, 3, 5, 0])))
        yield beh(lines)


# ------------------------------------------------------------------ files

def anynum(R):
    """Any zero or normal double."""
    f = R.randrange(9)
    if f == 0:
        return R.choice([0.0, -0.0, 1.0, -1.0])
    if f == 1:
        return R.choice([1, -1]) * R.choice([1.7976931348623157e308, 2.2250738585072014e-308, 5e-300, 1e300])
    if f == 2:
        return math.ldexp(R.choice([1, -1]) * (1 + R.random()), R.randint(-1021, 1022))
    if f == 3:
        return R.choice([0.1, 1 / 3, 2 / 3, 1e23, 8.5e22, 9007199254740993.0, 4503599627370497.5, up(1.0), down(1.0), 123456789.123456789])
    if f == 4:
        return R.gauss(0, 1) * 10 ** R.uniform(-30, 30)
    return R.gauss(0, 10)


def any_curve(R):
    f = R.randrange(4)
    if f == 0:
        return curve(R)
    if f == 1:                  # not well-formed, but still data
        return Curve(R.randint(-3, 40), [anynum(R) for _ in range(R.choice([0, 1, 2, 5, 30]))],
                     [[anynum(R) for _ in range(4)] for _ in range(R.choice([0, 1, 2, 7, 50]))])
    c = curve(R)
    return Curve(c.p, c.U, [[anynum(R) for _ in range(4)] for _ in c.P])


def any_surf(R):
    f = R.randrange(4)
    if f == 0:
        return surface(R)
    if f == 1:
        nu, nv = R.choice([(1, 1), (1, 7), (9, 1), (2, 3), (13, 11), (30, 2)])
        return Surf(R.randint(-3, 40), R.randint(-3, 40), [anynum(R) for _ in range(R.choice([0, 1, 2, 9]))],
                    [anynum(R) for _ in range(R.choice([0, 1, 2, 9]))], nu, nv, [[anynum(R) for _ in range(4)] for _ in range(nu * nv)])
    s = surface(R)
    return Surf(s.pu, s.pv, s.U, s.V, s.nu, s.nv, [[anynum(R) for _ in range(4)] for _ in s.P])


BULK = ["curve 70001 70000 1", "curve 40000 33000 1", "surf 300 260 270", "surf 5000 33000 2", "surf 40 3 30000", "curve 5000 4000 1",
        "surf 70000 2 2"]


def io_bulk(R, n):
    for i in range(n):
        yield beh(["bulk %s %s %d" % (BULK[i % len(BULK)], how, R.randrange(10 ** 6)) for how in ("bs", "tf", "bf", "ts")])


def io(R, n):
    for i in range(n):
        make = any_surf if i % 2 else any_curve
        lines = []
        held = []
        for k in range(R.choice([1, 2, 3])):
            r = R.choice("abc")
            lines.append(make(R).cmd(r))
            held.append(r)
            for _ in range(R.choice([1, 2])):
                f = R.choice("fgh")
                how = R.choice(["ts", "tf", "bs", "bf", "tsd", "tfd"])
                lines.append("save %s %s %s" % (f, r, how))
                d = R.choice(["y", "y", "x", r])
                lines.append("load %s %s %s" % (d, f, R.choice("sf")))
                if R.random() < .3:
                    lines.append("save h %s %s" % (d, R.choice(["ts", "bs"])))
                    lines.append("load y h s")
        yield beh(lines)


def save_room(R, n):
    """Destinations with too little room, just enough, and more."""
    for i in range(n):
        o = any_surf(R) if i % 2 else any_curve(R)
        lines = [o.cmd("a")]
        for _ in range(R.choice([1, 2])):
            how = R.choice(["ts", "bs", "tsx", "bsx", "tf", "tf", "bf", "bf"])
            lines.append("save f a %s" % how[:2])
            for _ in range(R.choice([6, 12])):
                k = R.randrange(7)
                lines.append("saveroom g f a %s " % how + (
                    "1 1 0" if k == 0 else "1 1 -%d" % R.choice([1, 1, 2, 3, 4, 8, 9, R.randint(1, 200)]) if k < 3 else
                    "0 1 %d" % R.choice([0, 1, 3, 4, 8, 12, 13, 14, 16, 19, 21, R.randint(0, 60)]) if k == 3 else
                    "0 1 %d" % R.choice([511, 512, 1024, 4095, 4096, 4097, 8191, 8192]) if k == 4 else
                    "%d 1000 0" % R.randint(1, 999)))
            lines += ["saveroom g f a %s 1 1 %d" % (how, R.choice([0, 0, 1, 5000])), "load y g %s" % R.choice("sf")]
        if R.random() < .3:
            lines.append("savenowhere a %s %s" % (R.choice("tb"), R.choice(["nodir", "isdir", "empty"])))
            lines.append("loadnowhere z %s %s" % ("surf" if i % 2 else "curve", R.choice(["nodir", "isdir", "empty", "absent"])))
        yield beh(lines)


def io_queue(R, n):
    """Several objects in one stream."""
    for _ in range(n):
        objs = {r: (R.choice([any_curve, any_surf]))(R) for r in "abc"}
        lines = [o.cmd(r) for r, o in objs.items()] + ["qnew q"]
        kind = lambda r: "surf" if isinstance(objs[r], Surf) else "curve"
        q = []
        for _ in range(R.choice([4, 8, 14])):
            if q and R.random() < .5:
                lines.append("qget y q %s" % kind(q.pop(0)))
            else:
                q.append(R.choice("abc"))
                lines.append("qput q %s b" % q[-1])
        if R.random() < .5:
            q.append(R.choice("abc"))
            lines.append("qput q %s t" % q[-1])
        lines += ["qget y q %s" % kind(r) for r in q]
        yield beh(lines)


def io_cut(R, n):
    """Truncated binary files; the register loaded into holds something."""
    for i in range(n):
        o = any_surf(R) if i % 2 else any_curve(R)
        e = (surface(R, maxnet=30) if i % 2 else curve(R)).cmd("y")
        lines = [o.cmd("a"), "save g a b" + R.choice("sf")]
        size = (21 + 8 + 8 + 8 * len(o.U) + 8 * len(o.V) + 8 + 32 * len(o.P)) if i % 2 else (19 + 12 + 8 * len(o.U) + 32 * len(o.P))
        for _ in range(12):
            k = R.choice([-1, -2, -4, -7, -8, -9, -31, -32, -33, R.randrange(size), R.randrange(size), R.randrange(40)])
            if R.random() < .5:
                lines.append(e)
            lines.append("loadcut y g %s %d" % (R.choice("sf"), max(k, -size)))
        lines.append("load y g s")
        yield beh(lines)


def text_object(R, kind):
    while True:
        if kind == "curve":
            o = curve(R, hi=9, big=0.05, huge=0.0) if R.random() < .97 else curve(R, n=R.choice([400, 900]), kstyle="uniform")
            return o
        o = surface(R, hi=4, maxnet=60)
        if o.nu <= 10 and o.nv <= 10:
            return o


def text_layout(R, n):
    for i in range(n):
        kind = "surf" if i % 2 else "curve"
        lines = []
        o = text_object(R, kind)
        for _ in range(3):
            t = files.Text(R, kind, o)
            t.layout()
            lines.append(files.loadtxt("y", kind, t.lines(), R.random() < .8, R.choice("sf")))
            if R.random() < .3:
                o = text_object(R, kind)
        yield beh(lines)


def text_damage(R, n):
    for i in range(n):
        kind = "surf" if i % 2 else "curve"
        lines = []
        for _ in range(3):
            t = files.Text(R, kind, text_object(R, kind))
            if R.random() < .7:
                t.layout()
            orphan = t.damage()
            ls = t.lines()
            if orphan:
                ls.insert(1, R.choice([["1"], ["0", ",", "1"], ["hello"], ["1", " ", "2", " ", "3", " ", "4", ","]]))
            lines.append(files.loadtxt("y", kind, ls, R.random() < .8, R.choice("sf")))
        yield beh(lines)


# ------------------------------------------------------- grids, boxes, align

def grid(R, n):
    for _ in range(n):
        ty = R.choice(["int", "str", "vec"])
        nu, nv = R.randint(1, 7), R.randint(1, 7)
        lines = ["gnew g %s %d %d %d" % (ty, nu, nv, R.choice([0, 5]))]
        x = 10
        for k in range(R.choice([5, 10, 20])):
            f = R.randrange(10)
            u, v = R.randrange(nu), R.randrange(nv)
            x += 1
            if f < 2:
                lines.append("gset g %d %d %d" % (u, v, x))
            elif f == 2:
                lines.append("gsetu g %d %d %s" % (u, nv, " ".join(str(x + j) for j in range(nv))))
                x += nv
            elif f == 3:
                lines.append("gsetv g %d %d %s" % (v, nu, " ".join(str(x + j) for j in range(nu))))
                x += nu
            elif f == 4:
                lines.append("ginsu g %d %d" % (R.choice([u, 0, nu - 1]), R.choice([0, x])))
                nu += 1
            elif f == 5:
                lines.append("ginsv g %d %d" % (R.choice([v, 0, nv - 1]), R.choice([0, x])))
                nv += 1
            elif f == 6:
                lines.append("ginsucell g %d %d %d" % (R.randrange(nu), u, v))
                nu += 1
            elif f == 7:
                lines.append("ginsvcell g %d %d %d" % (R.randrange(nv), u, v))
                nv += 1
            elif f == 8:
                lines.append("ggetu g %d" % u)
            else:
                lines.append("ggetv g %d" % v)
            if R.random() < .5:
                lines.append("gshow g")
        lines.append("gshow g")
        yield beh(lines)


def boxnum(R):
    return R.choice([0.0, -0.0, 1.0, -1.0, R.gauss(0, 5), R.gauss(0, 5), 10 ** R.uniform(-12, 12) * R.choice([1, -1]),
                     10 ** R.choice([R.uniform(-300, 90), R.uniform(-12, 12)]) * R.choice([1, -1]), float(R.randint(-3, 3))])


def box(R, n):
    for _ in range(n):
        lines = []
        pts = [[boxnum(R) for _ in range(3)] for _ in range(5)]
        if R.random() < .1:         # tiny boxes
            for p in pts[:R.choice([3, 4])]:
                p[:] = [10 ** R.uniform(-300, -90) * R.choice([1, -1]) for _ in range(3)]
        for r in "abc":
            lines.append("bxmake %s %s %s" % (r, nums(R.choice(pts)), nums(R.choice(pts))))
        for _ in range(12):
            r, q = R.choice("abc"), R.choice("abc")
            p = list(R.choice(pts))
            if R.random() < .5:
                e = R.randrange(3)
                p[e] = R.choice([math.nextafter(p[e], math.inf), math.nextafter(p[e], -math.inf), boxnum(R)]) if p[e] else R.choice([1e-12, -1e-12, 1e-90, -1e-90, boxnum(R)])
            f = R.randrange(6)
            lines.append(["bxpoint %s %s" % (r, nums(p)), "bxbox %s %s" % (r, q), "bxhas %s %s" % (r, nums(p)), "bxhas %s %s" % (r, nums(p)),
                          "bxhasbox %s %s" % (r, q), "bxmeas " + r][f])
        yield beh(lines)


def build(R, n):
    for i in range(n):
        p, q = R.randint(1, 9), R.randint(1, 9)
        s = 10 ** R.uniform(-4, 6)
        P = [[R.gauss(0, s) for _ in range(3)] for _ in range(3)]
        if R.random() < .2:
            P[1] = list(P[0])
        if R.random() < .3:
            P = [[float(R.randint(-9, 9)) for _ in range(3)] for _ in range(3)]
        ex = lambda: R.choice([0, 0, 1, 2, 3, 5, 9, 30, 30, 100, 300])
        if i % 2:
            q = min(q, 5)
            yield beh(["grect a %d %d %d %d %s" % (p, q, p + 1 + ex(), q + 1 + min(9, ex()), nums(sum(P, [])))])
        else:
            yield beh(["gseg a %d %d %s" % (p, p + 1 + ex(), nums(P[0] + P[1]))])


def align(R, n):
    for _ in range(n):
        s = surface(R, hi=4, maxnet=60, gap=1e-3, cstyle=R.choice(["int", "normal", "mixed"]))
        # corners
        a, b = R.sample(range(3), 2)
        size = 10 ** R.uniform(-5, 3)
        vec = lambda k: [size * (R.choice([-1, 1]) * R.uniform(0.7, 2) if e == k else R.choice([0, R.uniform(-.6, .6)])) for e in range(3)]
        o, eu, ev = [R.gauss(0, size) for _ in range(3)], vec(a), vec(b)
        if R.random() < .15:        # degenerate or undecided
            f = R.randrange(4)
            if f == 0:
                eu = [0.0] * 3
            elif f == 1:
                ev = list(eu)
            elif f == 2:
                eu[(a + 1) % 3] = eu[a]
            else:
                ev = [0.0] * 3
        tw = [R.gauss(0, size * R.choice([0, 0.05, 0.3, 3])) for _ in range(3)]
        nu, nv = s.nu, s.nv
        for i, j in ((0, 0), (nu - 1, 0), (0, nv - 1), (nu - 1, nv - 1)):
            q = [quant(o[e] + (eu[e] if i else 0) + (ev[e] if j else 0) + (tw[e] if i and j else 0), 20) for e in range(3)]
            s.P[j * nu + i][:3] = q
        lines = [s.cmd("a")]
        for _ in range(4):
            r = R.choice([(a, b), (b, a), tuple(R.sample(range(3), 2)), (R.randrange(3), R.randrange(3))])
            lines.append("salign %s a %d %d" % (R.choice("az"), r[0] + 1, r[1] + 1))
        yield beh(lines)


# ------------------------------------------------------------ searches

def unit(R):
    while True:
        v = [R.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3:
            return [x / n for x in v]


def scale(v, a):
    return [x * a for x in v]


def plus(*vs):
    return [sum(x) for x in zip(*vs)]


def greville(U, p, i):
    return sum(F(x) for x in U[i + 1:i + p + 1]) / p


def at_row(p, U, P, x):
    """The polynomial spline's point at x, exactly (de Boor)."""
    U, x = [F(u) for u in U], F(x)
    k = max(i for i in range(p, len(U) - p - 1) if U[i] <= x)
    d = [[F(c) for c in P[k - p + i][:3]] for i in range(p + 1)]
    for r in range(1, p + 1):
        for j in range(p, r - 1, -1):
            a = (x - U[k - p + j]) / (U[k + 1 + j - r] - U[k - p + j])
            d[j] = [(1 - a) * d[j - 1][e] + a * d[j][e] for e in range(3)]
    return d[p]


def target(R, U):
    d = distinct(U)
    return R.choice([0.0, 1.0, .5, .25, .75, R.random(), R.random(), R.random(), R.choice(d), quant(R.random(), 6),
                     1e-3, 1 - 1e-3, 1e-6, 1 - 1e-6, 1e-9, min(1.0, up(R.choice(d))), .5 + 1e-8, .5 - 1e-8])


def inits(R, k):
    """Starting values, possibly with coarse precision and few iterations."""
    f = R.random()
    v = lambda: R.choice([0.0, 1.0, .5, R.random(), 1e-3])
    if f < .4:
        return "0"
    if f < .85:
        return lst([v() for _ in range(k)])
    return lst([v() for _ in range(k)] + [R.choice([.1, 1e-3, 1e-12, .7]), float(R.choice([0, 1, 2, 7, 40]))])


def bsteps(R):
    return "0" if R.random() < .8 else lst([R.choice([.1, 1e-3, 1e-12, .7]), float(R.choice([0, 1, 2, 7, 40]))])


def cone_legs(R, n, size):
    """n legs pairwise at most 78 degrees apart, lengths within a factor 50."""
    ax = unit(R)
    out = []
    same = R.random() < .2
    for _ in range(n):
        o = unit(R)
        o = plus(o, scale(ax, -sum(a * b for a, b in zip(o, ax))))
        m = math.sqrt(sum(x * x for x in o)) or 1.0
        th = 0 if same else math.radians(39) * R.choice([1, R.random(), R.random()])
        out.append(scale(plus(scale(ax, math.cos(th)), scale(o, math.sin(th) / m)), size * 50 ** -R.random()))
    return out


def search(R, n):
    """Points on straight and on gently bent shapes."""
    for i in range(n):
        p, q = R.randint(1, 4), R.randint(1, 3)
        U = knots(p, interior(R, p, R.choice([0, 0, 1, 2, 3, 5]), gap=0.011))
        V = knots(q, interior(R, q, R.choice([0, 0, 1, 2]), gap=0.011))
        nu, nv = len(U) - p - 1, len(V) - q - 1
        f = R.randrange(5)
        if f == 0:
            size = 10 ** R.uniform(-0.65, 2.95)
            o, a = scale(unit(R), size * R.choice([0, 1, 8])), scale(unit(R), size)
            P = [[float(o[e] + greville(U, p, k) * F(a[e])) for e in range(3)] + [1.0] for k in range(nu)]
            lines = [Curve(p, U, P).cmd("a")]
            for _ in range(5):
                t = target(R, U)
                pt = [float(x) for x in at_row(p, U, P, t)]
                lines.append("csearch a %s 1 %s %s" % (nums(pt), num(t), inits(R, 1)))
                lines.append("cbsearch a %s 1 %s %s" % (nums(pt), num(t), bsteps(R)))
        elif f == 1:
            size = 10 ** R.uniform(-4, 4)
            P = [scale(unit(R), size * R.choice([0, 1, 8]))]
            for l in cone_legs(R, nu - 1, size):
                P.append(plus(P[-1], l))
            w = R.choice([1.0, 1.0, 2.0])
            P = [x + [w] for x in P]
            lines = [Curve(p, U, P).cmd("a")]
            for _ in range(6):
                t = target(R, U)
                lines.append("cbsearch a %s 1 %s %s" % (nums(float(x) for x in at_row(p, U, P, t)), num(t), bsteps(R)))
        else:
            if f == 2:          # within reach of the free search
                la, lb = 2 ** R.uniform(-.99, 1.99), 2 ** R.uniform(-.99, 1.99)
            else:
                la, lb = 10 ** R.uniform(-0.65, 2.9), 10 ** R.uniform(-0.65, 2.9)
            while True:
                a, b = unit(R), unit(R)
                if abs(sum(x * y for x, y in zip(a, b))) < .7:
                    break
            a, b = scale(a, la), scale(b, lb)
            o = scale(unit(R), min(la, lb) * R.choice([0, 1, 8]))
            if f < 4:
                P = [[float(F(o[e]) + greville(U, p, k % nu) * F(a[e]) + greville(V, q, k // nu) * F(b[e])) for e in range(3)] + [1.0]
                     for k in range(nu * nv)]
            else:               # translational: legs of every line the same
                A, B = [[0.0] * 3], [[0.0] * 3]
                for l in cone_legs(R, nu - 1, la):
                    A.append(plus(A[-1], l))
                for l in cone_legs(R, nv - 1, la):
                    B.append(plus(B[-1], l))
                P = [plus(o, A[k % nu], B[k // nu]) + [1.0] for k in range(nu * nv)]
            lines = [Surf(p, q, U, V, nu, nv, P).cmd("a")]
            for _ in range(4):
                x, y = target(R, U), target(R, V)
                col = [at_row(p, U, P[j * nu:(j + 1) * nu], x) for j in range(nv)]
                pt = nums(float(c) for c in at_row(q, V, col, y))
                d = R.randrange(2)
                on = "%s %d %s 2 %s" % (pt, d, num(x if d == 0 else y), nums([x, y]))
                if f == 2 or f == 4:
                    lines.append("ssearch a %s 2 %s %s" % (pt, nums([x, y]), inits(R, 2)))
                lines.append("ssearchon a %s %s" % (on, inits(R, 1)))
                lines.append("sbsearchon a %s %s" % (on, bsteps(R)))
        yield beh(lines)


def search_wild(R, n):
    """Any shape, any point: the result is in the domain."""
    for i in range(n):
        g = lambda: nums(R.choice([[R.gauss(0, 3) for _ in range(3)], [0.0] * 3, [float(R.randint(-5, 5)) for _ in range(3)],
                                   [R.gauss(0, 1e4) for _ in range(3)]]))
        u = lambda: num(R.choice([0.0, 1.0, .5, R.random()]))
        w = R.choice([None, "one", "mild", "arc"])
        c = R.choice(["int", "normal", "planar", "repeat", "same", "line", "neg"])
        if i % 2:
            k = curve(R, gap=1e-3, big=0.02, huge=0, hi=5, wstyle=w, cstyle=c)
            lines = [k.cmd("a")]
            for _ in range(4):
                lines += ["csearch a %s 0 %s" % (g(), inits(R, 1)), "cbsearch a %s 0 %s" % (g(), bsteps(R))]
        else:
            s = surface(R, hi=4, maxnet=40, gap=1e-3, wstyle=w, cstyle=R.choice(["int", "normal", "mixed"]))
            lines = [s.cmd("a")]
            for _ in range(3):
                lines += ["ssearch a %s 0 %s" % (g(), inits(R, 2)), "ssearchon a %s %d %s 0 %s" % (g(), R.randrange(2), u(), inits(R, 1)),
                          "sbsearchon a %s %d %s 0 %s" % (g(), R.randrange(2), u(), bsteps(R))]
        yield beh(lines)


# ------------------------------------------------------------ histories

class Track:
    """What a history has done to one direction: enough to know which
    insertions are allowed and which knots are redundant."""

    def __init__(self, p, U):
        self.p, self.U, self.orig, self.t, self.closed = p, list(U), {x: U.count(x) for x in U}, 0, set()

    def copy(self):
        o = Track(self.p, self.U)
        o.orig, o.t, o.closed = dict(self.orig), self.t, set(self.closed)
        return o

    def redundant(self, x):
        m = self.U.count(x)
        return m - (self.orig[x] + self.t) if x in self.orig else m

    def insert(self, R):
        have = [x for x in set(self.U) if 0 < x < 1 and x not in self.closed and self.U.count(x) < self.p]
        if have and R.random() < .5:
            x = R.choice(sorted(have))
        else:
            x = quant(R.uniform(.05, .95), 8)
            if any(abs(x - u) < .04 for u in self.U):
                return None
        room = self.p - self.U.count(x)
        xs = [x] * R.randint(1, min(2, room))
        if R.random() < .4:         # several values, in any order
            for _ in range(2):
                y = quant(R.uniform(.05, .95), 8)
                if all(abs(y - u) > .04 for u in self.U + xs):
                    xs.append(y)
            R.shuffle(xs)
        return xs

    def add(self, xs):
        self.U = sorted(self.U + xs)

    def elevate(self, t):
        self.p += t
        self.t += t
        self.U = sorted(self.U + [x for x in set(self.U) for _ in range(t)])

    def drop(self, x, n):
        for _ in range(min(n, self.redundant(x))):
            self.U.remove(x)
        self.closed.add(x)


def history(R, n):
    """Several objects, a history of operations from each, queries before,
    between and after."""
    for i in range(n):
        surf = i % 2 == 1
        cur, src, lines, calls = {}, {}, [], []
        for b in (["o", "q"] if R.random() < .5 else ["o"]):
            kw = dict(hi=3, gap=.06, wstyle=R.choice(["one", "mild", "arc", "two"]), cstyle=R.choice(["int", "normal", "planar"]))
            o = surface(R, maxnet=30, cap=2, **kw) if surf else curve(R, n=R.choice([0, 1, 2, 4]), **kw)
            a = {"o": "a", "q": "b"}[b]
            lines += [o.cmd(b), o.cmd(a)]
            src[a] = b
            cur[a] = (Track(o.pu, o.U), Track(o.pv, o.V)) if surf else (Track(o.p, o.U),)
            for _ in range(3):
                x, y = num(quant(R.random(), 6)), num(quant(R.random(), 6))
                if surf:
                    c = R.choice(["seval %s %s %s" % (b, x, y), "sders %s %s %s 1 1" % (b, x, y), "selev y %s %s 1" % (b, R.choice("uv")),
                                  "srat " + b, "sxform y %s 0 1 0 1 0 0 0 0 2" % b])
                else:
                    c = R.choice(["ceval %s %s" % (b, x), "cders %s %s 2" % (b, x), "celev y %s 1" % b, "cbez " + b, "crat " + b,
                                  "cbox %s 1/4" % b, "cxform y %s 0 1 0 1 0 0 0 0 2" % b])
                calls.append(c)
        lines += ["@m " + c for c in calls]
        for step in range(R.randint(3, 7)):
            a = R.choice(sorted(src))
            d = R.randrange(2) if surf else 0
            T = cur[a][d]
            dd = "uv"[d] + " " if surf else ""
            s = "s" if surf else "c"
            f = R.random()
            if f < .4:
                xs = T.insert(R)
                if xs:
                    form = "one" if len(xs) == 1 and R.random() < .5 else R.choice(["times", "list"]) if len(set(xs)) == 1 else "list"
                    lines.append("@k %sins %s %s %s%s %s" % (s, a, a, dd, form, lst(xs)))
                    T.add(xs)
            elif f < .65:
                red = sorted(x for x in set(T.U) if 0 < x < 1 and T.redundant(x) > 0)
                if red:
                    x = R.choice(red)
                    k = R.randint(1, T.redundant(x) + 1)
                    lines.append("@k %srem %s %s %s%s %d 1e-7" % (s, a, a, dd, num(x), k))
                    T.drop(x, k)
            elif f < .8:
                if T.t == 0 and T.p <= 3:
                    t = R.choice([1, 1, 2])
                    lines.append("@k %selev %s %s %s%d" % (s, a, a, dd, t))
                    T.elevate(t)
            else:
                m, w = R.choice("tb"), R.choice("sf")
                lines += ["@k save f %s %s%s" % (a, m, w), "@k load %s f %s" % (a, w)]
            if R.random() < .4:
                k = R.randrange(len(calls))
                lines.append("@r%d %s" % (k + 1, calls[k]))
            if R.random() < .2:
                lines.append("same %s %s" % (src[a], a))
        # an object that is written in place between calls
        kw = dict(gap=.01, cstyle=R.choice(["int", "normal", "planar"]))
        o = surface(R, maxnet=30, cap=3, hi=4, **kw) if surf else curve(R, n=R.choice([1, 2, 4]), hi=5, **kw)
        x, y = num(quant(R.random(), 6)), num(quant(R.random(), 6))
        for _ in range(4):
            lines.append(o.cmd("w"))
            for _ in range(2):
                if R.random() < .3:
                    x = num(quant(R.random(), 6))
                if R.random() < .3:
                    y = num(quant(R.random(), 6))
                lines.append(R.choice(["seval w %s %s" % (x, y)] * 3 + ["sders w %s %s 1 1" % (x, y), "srat w"]) if surf else
                             R.choice(["ceval w %s" % x] * 3 + ["cders w %s 2" % x, "cbez w", "crat w", "cbox w 1/4"]))
            o = variant(R, o)
        lines += ["same %s %s" % (src[a], a) for a in sorted(src)]
        lines += ["@k @r%d %s" % (k + 1, c) for k, c in enumerate(calls)]
        yield beh(lines)


# ------------------------------------------------------------ threads

def threads(R, n):
    """Batches of queries on several shared objects."""
    for i in range(n):
        lines, obs = [], {}
        for r in R.sample("abc", R.randint(1, 3)):
            k = R.choice(["c", "s", "k"])
            if k == "c":
                o = curve(R, hi=5, big=.02, huge=0, gap=.02, wstyle=R.choice(["one", "mild", "arc"]), cstyle="normal")
                lines.append(o.cmd(r))
            elif k == "s":
                o = surface(R, hi=3, maxnet=30, gap=.02, wstyle=R.choice(["one", "mild", "arc"]), cstyle="normal")
                lines.append(o.cmd(r))
            else:
                p = R.randint(1, 5)
                o = (p, knots(p, interior(R, p, R.choice([1, 3, 8]), gap=.01)))
                lines.append("kv %s %s" % (r, lst(o[1])))
            obs[r] = (k, o)
        calls = []
        for _ in range(R.randint(3, 8)):
            r = R.choice(sorted(obs))
            k, o = obs[r]
            x, y, q = num(R.random()), num(R.random()), nums(R.gauss(0, 2) for _ in range(3))
            m = "%s 0 1 0 1 0 0 0 0 2" % r
            if k == "c":
                ins = insert_list(R, o.U, o.p, 2, .001)
                inner = [u for u in o.U if 0 < u < 1]
                calls.append(R.choice(["eval %s %s" % (r, x), "ders %s %s %d" % (r, x, R.randint(0, 4)), "der %s %s %d" % (r, x, R.randint(0, 4)),
                                       "rat " + r, "search %s %s" % (r, q), "bsearch %s %s" % (r, q), "ins %s %s" % (r, lst(ins)),
                                       "rem %s %s 1" % (r, num(R.choice(inner) if inner else .5)), "elev %s %d" % (r, R.randint(1, 3)),
                                       "xform " + m, "bez " + r, "box %s 1/4" % r, "save %s %d" % (r, R.randrange(2))]))
            elif k == "s":
                calls.append(R.choice(["eval %s %s %s" % (r, x, y), "ders %s %s %s 2 2" % (r, x, y), "der %s %s %s 1 2" % (r, x, y), "rat " + r,
                                       "search %s %s" % (r, q), "searchon %s %s 0 %s" % (r, q, x), "bsearchon %s %s 1 %s" % (r, q, x),
                                       "insu %s %s" % (r, lst(insert_list(R, o.U, o.pu, 1, .001))), "insv %s %s" % (r, lst(insert_list(R, o.V, o.pv, 1, .001))),
                                       "remu %s 1/2 1" % r, "remv %s 1/2 1" % r, "elevu %s 1" % r, "elevv %s 2" % r, "xform " + m,
                                       "save %s %d" % (r, R.randrange(2))]))
            else:
                p, U = o
                calls.append(R.choice(["beval %s %d %s" % (r, p, x), "bders %s %d %s 3" % (r, p, x), "pairs " + r, "span %s %d %s" % (r, p, x),
                                       "mult %s %s" % (r, num(R.choice(U))), "pspan %s %s" % (r, x), "flags " + r]))
        lines += ["par %d %d" % (R.choice([2, 4, 8]), R.choice([2, 4]))] + calls + ["endpar"]
        yield beh(lines)


def near_by(R, x, d):
    """Numbers at distance about d from x."""
    f = R.choice([0.0, 0.5, 0.999, 1.0, 1.0, 1.001, 2.0, R.uniform(0, 3)])
    y = x + R.choice([-1, 1]) * d * f
    k = R.randrange(4)
    return math.nextafter(y, math.inf) if k == 0 else math.nextafter(y, -math.inf) if k == 1 else y


def helpers(R, n):
    def x():
        return R.choice([0.0, 1.0, -1.0, quant(R.uniform(-5, 5)), R.uniform(-1, 1) * 10 ** R.randint(-6, 6)])
    for _ in range(n):
        lines = []
        for _ in range(12):
            k = R.randrange(6)
            if k == 0:
                lines.append("hbin %d %d" % (lambda a: (a, R.randint(0, a + 2)))(R.randint(0, 29)))
            elif k == 1:
                lines.append("hfact %d" % R.randint(0, 9))
            elif k == 2:
                lines.append("hhomo %s" % nums([x(), x(), x(), R.choice([1.0, x(), abs(x()), R.choice([1, -1]) + R.choice([1, -1]) * 10.0 ** -R.randint(5, 15)])]))
            elif k == 3:
                w = 0.0
                while w == 0:
                    w = R.choice([1.0, 2.0, 0.5, x(), 1 + R.choice([1, -1]) * 10.0 ** -R.randint(5, 15)])
                lines.append("hcart %s" % nums([x(), x(), x(), w]))
            else:
                m = R.choice([1, 1, 3, 4])
                eps = R.choice([-1, -1, 1e-12, 1e-6, 1e-3, 1.0, R.uniform(0, 1)])
                d = 1e-6 if eps < 0 else eps
                a = [x() for _ in range(m)]
                b = list(a) if m > 1 else [near_by(R, a[0], d)]
                if m > 1:
                    for i in R.sample(range(m), R.randint(1, m)):
                        b[i] = near_by(R, a[i], d)
                lines.append("happ %d %s %s" % (m, nums(a + b), num(eps)))
        yield beh(lines)


def everything(R, n):
    """A mixture of what the other generators make."""
    gs = [curve_eval, curve_ders, surf_eval, surf_ders, basis, curve_insert, surf_insert, curve_remove, curve_remove_near, surf_remove,
          curve_elevate, surf_elevate, xform, rational, bezier, cbox, knot_make, knot_query, knot_edit, io, save_room, io_queue, io_cut,
          text_layout, text_damage, grid, box, build, align, search, search_wild, history]
    per = n // len(gs) + 1
    for g in gs:
        yield from g(R, per)
