"""C21: potential flows around walls (source panels)."""
import math

from vc.spec import contract

MOD = 'potential_flow.'
ONLY = lambda why: dict(unbounded=False, why_bounded=why + ': sampled only', sizes=())
TOL = 2e-5      # quadrature and linear solve of the code


def pf(S):
    return S.mod('IMTreatment.potential_flow')


def near(a, b, scale=1.0):
    return abs(float(a) - float(b)) <= TOL * max(1.0, abs(scale))


def shape2(S):
    """A closed outline, counter-clockwise or not, given closed or left open."""
    x0, y0 = S.real('x0', lo=-2.0, hi=2.0), S.real('y0', lo=-2.0, hi=2.0)
    w, h = S.real('w', lo=0.5, hi=3.0, pos=True), S.real('h', lo=0.5, hi=3.0, pos=True)
    c = S.choice('outline', [[(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 0), (0, 1), (1, 1), (1, 0)], [(0, 0), (1, 0), (0.25, 1)],
                             [(0, 0.5), (0.5, 0), (1, 0.5), (0.5, 1)], [(0, 0), (0.5, -0.25), (1, 0), (1.25, 1), (0.25, 1.25)]])
    c = [[x0 + a * w, y0 + b * h] for a, b in c]
    return c, (c + [c[0]] if S.choice('given closed', [False, True]) else c)


def pieces(c, res):
    """End points of the panels: every segment cut in equal parts of about the shortest segment over res."""
    ls = [math.hypot(c[i + 1][0] - c[i][0], c[i + 1][1] - c[i][1]) for i in range(len(c) - 1)]
    d = min(ls) / res
    out = []
    for i, l in enumerate(ls):
        k = max(int(round(l / d)), 1)
        if abs(l / d - math.floor(l / d) - 0.5) < 1e-6:
            return None
        out += [((1 - j / k) * c[i][0] + j / k * c[i + 1][0], (1 - j / k) * c[i][1] + j / k * c[i + 1][1]) for j in range(k)]
    return out + [tuple(c[-1])]


def influence(p, q, x, y):
    """Velocity at (x, y) of a panel p->q of unit strength (times 2 pi), in closed form."""
    l = math.hypot(q[0] - p[0], q[1] - p[1])
    t = ((q[0] - p[0]) / l, (q[1] - p[1]) / l)
    n = (t[1], -t[0])
    a = (x - p[0]) * t[0] + (y - p[1]) * t[1]
    b = (x - p[0]) * n[0] + (y - p[1]) * n[1]
    vt = 0.5 * math.log((a * a + b * b) / ((a - l) ** 2 + b * b))
    vn = 0.0 if b == 0 else math.atan2(a, abs(b)) - math.atan2(a - l, abs(b))
    vn = math.copysign(vn, b) if b else 0.0
    return vt * t[0] + vn * n[0], vt * t[1] + vn * n[1]


def solve(A, b):
    n = len(b)
    M = [list(r) + [v] for r, v in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i]))
        M[i], M[p] = M[p], M[i]
        for k in range(n):
            if k != i:
                f = M[k][i] / M[i][i]
                M[k] = [u - f * v for u, v in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


class Flow(object):
    """The flow by its definition: free stream plus source panels, no flow through the middle of the panels."""

    def __init__(self, u, alpha, outlines):
        self.v = (u * math.cos(alpha), u * math.sin(alpha))
        self.p = [(o[i], o[i + 1]) for o in outlines for i in range(len(o) - 1)]
        self.c, self.n, self.l = [], [], []
        for p, q in self.p:
            l = math.hypot(q[0] - p[0], q[1] - p[1])
            self.c.append(((p[0] + q[0]) / 2, (p[1] + q[1]) / 2))
            self.n.append(((q[1] - p[1]) / l, -(q[0] - p[0]) / l))
            self.l.append(l)
        N = len(self.p)
        A = [[0.5 if i == j else self._dot(influence(*self.p[j], *self.c[i]), self.n[i]) / (2 * math.pi) for j in range(N)] for i in range(N)]
        self.s = solve(A, [-self._dot(self.v, n) for n in self.n]) if N else []

    @staticmethod
    def _dot(a, b):
        return a[0] * b[0] + a[1] * b[1]

    def at(self, x, y, skip=None):
        u, v = self.v
        for i, (p, q) in enumerate(self.p):
            if i != skip:
                a, b = influence(p, q, x, y)
                u, v = u + self.s[i] * a / (2 * math.pi), v + self.s[i] * b / (2 * math.pi)
        return u, v

    def gap(self, x, y):
        out = 1e9
        for p, q in self.p:
            l2 = (q[0] - p[0]) ** 2 + (q[1] - p[1]) ** 2
            t = min(max(((x - p[0]) * (q[0] - p[0]) + (y - p[1]) * (q[1] - p[1])) / l2, 0), 1)
            out = min(out, math.hypot(x - p[0] - t * (q[0] - p[0]), y - p[1] - t * (q[1] - p[1])))
        return out


def setup(S, two=False, wall=True, line=True):
    u, alpha = S.real('u', lo=0.5, hi=4.0, pos=True), S.choice('alpha', [0.0, 0.5, -0.75, 2.0])
    s = S.run('System', pf(S).System, u, alpha)
    outs = []
    c, given = shape2(S)
    res = S.choice('res', [1, 2, 3])
    o = pieces(c + [c[0]], res)
    S.assume(o is not None)
    S.run('add_object', s.add_object, 2, given, res=res, **({} if wall else {'kind': 'source'}))
    if wall:
        outs.append(o)
    if two:
        sh = 8.0 if line else 3.5
        d = [[a + sh, b * 0.5 + 1.0] for a, b in c[:2]]
        if S.choice('second', ['2D', '1D'] if line else ['2D']) == '2D':
            e = [[a + sh, b * 0.5 + 1.0] for a, b in c]
            o = pieces(e + [e[0]], 1)
            S.assume(o is not None)
            s.add_object(2, e)
        else:
            o = pieces(d, 2)
            s.add_object(1, d, res=2)
            return s, [o] + outs, u, alpha      # lines come first in the list of panels
        outs.append(o)
    return s, outs, u, alpha


def geometry(S):
    s, outs, u, alpha = setup(S, True)
    got = list(s.get_solid_panels())
    exp = [(o[i], o[i + 1]) for o in outs for i in range(len(o) - 1)]
    S.must('as many panels as pieces of the outlines', len(got) == len(exp))
    for g, (p, q) in zip(got, exp):
        S.check('panels follow the outlines', near(g.xa, p[0]) and near(g.ya, p[1]) and near(g.xb, q[0]) and near(g.yb, q[1]))
        S.check('middle and length', near(g.xc, (p[0] + q[0]) / 2) and near(g.yc, (p[1] + q[1]) / 2) and near(g.length, math.hypot(q[0] - p[0], q[1] - p[1])))


def open_wall(S):
    """A wall given as an open line stays open."""
    P = pf(S)
    pts = [[0.0, 0.0]]
    for i in range(S.choice('segments', [1, 2, 3])):
        pts.append([pts[-1][0] + S.real('a%d' % i, lo=0.25, hi=2.0, pos=True), pts[-1][1] + S.real('b%d' % i, lo=-2.0, hi=2.0)])
    res = S.choice('res', [1, 2, 3])
    o = pieces(pts, res)
    S.assume(o is not None)
    s = P.System(1.0, 0.0)
    S.run('add_object', s.add_object, 1, pts, res=res)
    got = list(s.get_solid_panels())
    S.must('as many panels as pieces', len(got) == len(o) - 1)
    S.check('from the first point to the last', all(near(g.xa, p[0]) and near(g.ya, p[1]) and near(g.xb, q[0]) and near(g.yb, q[1])
                                                    for g, p, q in zip(got, o[:-1], o[1:])))


def point(S, fl, k):
    x, y = S.real('px%d' % k, lo=-4.0, hi=6.0), S.real('py%d' % k, lo=-4.0, hi=6.0)
    S.assume(fl.gap(x, y) > 0.02)
    return x, y


def velocity(two):
    def f(S):
        s, outs, u, alpha = setup(S, two)
        fl = Flow(u, alpha, outs)
        for k in range(2):
            x, y = point(S, fl, k)
            v, w = S.run('compute_velocity', s.compute_velocity, x, y), fl.at(x, y)
            S.check('free stream plus panels without flow through them', near(v[0], w[0], u) and near(v[1], w[1], u))
        for i, g in enumerate(s.get_solid_panels()):
            w, n = fl.at(*fl.c[i], skip=i), fl.n[i]
            S.check('strength of the panels', near(g.sigma, fl.s[i], u))
            v = S.run('compute_velocity on a panel', s.compute_velocity, *fl.c[i])
            t = (-n[1], n[0])
            S.check('no flow through the wall', near(v[0] * n[0] + v[1] * n[1], 0, u))
            S.check('slip velocity on the wall', near(v[0] * t[0] + v[1] * t[1], w[0] * t[0] + w[1] * t[1], u))
    return f


def adding(S):
    """Adding an object after an evaluation changes the flow accordingly."""
    u = S.real('u', lo=0.5, hi=4.0, pos=True)
    s = pf(S).System(u, 0.25)
    a = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]
    dx = S.real('dx', lo=1.5, hi=4.0, pos=True)
    b = [[x + dx, y] for x, y in a]
    dim = S.choice('dim', [1, 2])
    s.add_object(S.choice('dim0', [1, 2]), a + [a[0]])
    A, B = pieces(a + [a[0]], 1), pieces(b + [b[0]], 1)
    for outs in ([A], [A, B]):
        fl = Flow(u, 0.25, outs)
        x, y = point(S, fl, len(outs))
        v, w = S.run('compute_velocity', s.compute_velocity, x, y), fl.at(x, y)
        S.check('velocity with %d objects' % len(outs), near(v[0], w[0], u) and near(v[1], w[1], u))
        if len(outs) == 1:
            s.add_object(dim, b if dim == 2 else b + [b[0]])


def alone(S):
    u, alpha = S.real('u', lo=0.5, hi=4.0, pos=True), S.choice('alpha', [0.0, 0.5, -0.75, 2.0])
    s = pf(S).System(u, alpha)
    v = S.run('compute_velocity', s.compute_velocity, S.real('x'), S.real('y'))
    S.check('free stream', near(v[0], u * math.cos(alpha)) and near(v[1], u * math.sin(alpha)))


def inside(c, x, y):
    r = False
    for i in range(len(c)):
        (a, b), (d, e) = c[i - 1], c[i]
        if (b > y) != (e > y) and x < (d - a) * (y - b) / (e - b) + a:
            r = not r
    return r


def on_grid(remove):
    def f(S):
        s, outs, u, alpha = setup(S, S.choice('two', [False, True]), line=False)
        fl = Flow(u, alpha, outs)
        np = S.mod('numpy')
        gx = [S.real('gx', lo=-3.0, hi=1.0) + 1.25 * k for k in range(S.choice('nx', [2, 6]))]
        gy = [S.real('gy', lo=-3.0, hi=1.0) + 1.0 * k for k in range(S.choice('ny', [2, 3]))]
        S.assume(all(fl.gap(x, y) > 0.02 for x in gx for y in gy))
        r = S.run('compute_velocity_on_grid', s.compute_velocity_on_grid, np.array(gx), np.array(gy), remove_solid=remove)
        ru, rv = (None, None) if remove else S.run('raw', s.compute_velocity_on_grid, np.array(gx), np.array(gy), raw=True)
        S.must('one node per position', r.comp_x.shape == (len(gx), len(gy)))
        S.check('units', S.And(S.ueq(r.unit_x, S.make_unit('m')), S.ueq(r.unit_y, S.make_unit('m')), S.ueq(r.unit_values, S.make_unit('m/s'))))
        for i, x in enumerate(gx):
            S.check('positions along x', S.eq(float(r.axe_x[i]), x))
            for j, y in enumerate(gy):
                S.check('positions along y', S.eq(float(r.axe_y[j]), y))
                solid = remove and any(inside(o[:-1], x, y) for o in outs)
                S.check('masked exactly in the solid, when asked', bool(r.mask[i, j]) == bool(solid))
                if not solid:
                    w = fl.at(x, y)
                    S.check('velocity at every node', near(r.comp_x[i, j], w[0], u) and near(r.comp_y[i, j], w[1], u))
                    if not remove:
                        S.check('raw velocity at every node', near(ru[j, i], w[0], u) and near(rv[j, i], w[1], u))
    return f


def on_line(remove):
    def f(S):
        s, outs, u, alpha = setup(S, S.choice('two', [False, True]), line=False)
        fl = Flow(u, alpha, outs)
        a = (S.real('ax', lo=-4.0, hi=2.0), S.real('ay', lo=-4.0, hi=2.0))
        b = (a[0] + S.choice('lx', [0.0, 1.5, 8.0]), a[1] + S.choice('ly', [0.5, 3.0]))
        n = S.choice('n', [2, 5])
        pts = [(a[0] + (b[0] - a[0]) * k / (n - 1), a[1] + (b[1] - a[1]) * k / (n - 1)) for k in range(n)]
        S.assume(all(fl.gap(x, y) > 0.02 for x, y in pts))
        px, py = S.run('compute_velocity_on_line', s.compute_velocity_on_line, a, b, res=n, remove_solid=remove)
        S.must('one sample per position', len(px.x) == n and len(py.x) == n)
        S.check('units', S.And(*[S.And(S.ueq(p.unit_x, S.make_unit('m')), S.ueq(p.unit_y, S.make_unit('m/s'))) for p in (px, py)]))
        for k, (x, y) in enumerate(pts):
            d, w = math.hypot(x - a[0], y - a[1]), fl.at(x, y)
            solid = remove and any(inside(o[:-1], x, y) for o in outs)
            S.check('distance along the line', near(px.x[k], d) and near(py.x[k], d))
            S.check('masked exactly in the solid, when asked', bool(px.mask[k]) == bool(solid) and bool(py.mask[k]) == bool(solid))
            if not solid:
                S.check('velocity along the line', near(px.y[k], w[0], u) and near(py.y[k], w[1], u))
    return f


def pressure(S):
    o, g = S.vf(mask=True)
    u = S.real('u', lo=0.5, hi=4.0, pos=True)
    s = pf(S).System(u, 0.0)
    r = S.run('compute_pressure_from_velocity', s.compute_pressure_from_velocity, o)
    S.must('a scalar field', S.isinst(r, S.core.ScalarField))
    S.check('shape', S.And(S.eqn(S.dim(r.values, 0), g.nx), S.eqn(S.dim(r.values, 1), g.ny)))
    S.check_all('mask', (g.nx, g.ny), lambda i, j: S.iff(S.el(r.mask, i, j), S.el(g.m, i, j)))
    S.check_all('one minus the square of the velocity over the free stream', (g.nx, g.ny), lambda i, j: S.imp(
        S.Not(S.el(g.m, i, j)), S.eq(S.el(r.values, i, j) * u * u, u * u - S.el(g.vx, i, j) * S.el(g.vx, i, j) - S.el(g.vy, i, j) * S.el(g.vy, i, j))))
    S.check_all('positions along x', (g.nx,), lambda i: S.eq(S.el(r.axe_x, i), S.el(g.x, i)))
    S.check_all('positions along y', (g.ny,), lambda i: S.eq(S.el(r.axe_y, i), S.el(g.y, i)))


def pressure_line(S):
    p, g = S.prof(tag='p')
    q, h = S.prof(tag='q', n=g.n)
    u = S.real('u', lo=0.5, hi=4.0, pos=True)
    r = S.run('compute_pressure_from_velocity', pf(S).System(u, 0.0).compute_pressure_from_velocity, (p, q))
    S.must('a profile', S.isinst(r, S.core.Profile))
    S.check('samples', S.eqn(S.length(r.x), g.n))
    S.check('unit of the positions', S.ueq(r.unit_x, g.ux))
    S.check_all('positions', (g.n,), lambda i: S.eq(S.el(r.x, i), S.el(g.x, i)))
    m = lambda i: S.Or(S.el(g.m, i), S.el(h.m, i))
    S.check_all('mask', (g.n,), lambda i: S.iff(S.el(r.mask, i), m(i)))
    S.check_all('one minus the square of the velocity over the free stream', (g.n,), lambda i: S.imp(
        S.Not(m(i)), S.eq(S.el(r.y, i) * u * u, u * u - S.el(g.y, i) * S.el(g.y, i) - S.el(h.y, i) * S.el(h.y, i))))
    S.prof_same('x velocities given', p, g)
    S.prof_same('y velocities given', q, h)


def rejected(S):
    s = pf(S).System(1.0, 0.0)
    sq = [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0]]
    for a in ((3, sq), ('2', sq), (2, 'abc'), (2, [0.0, 1.0]), (1, [0.0, 1.0])):
        S.check('invalid object %s rejected' % (a[0],), not S.call(s.add_object, *a).ok)
    S.check('invalid resolution rejected', not S.call(s.add_object, 1, sq, res=0).ok)
    S.check('velocity of something else rejected', not S.call(s.compute_pressure_from_velocity, 3.0).ok)
    S.check('nothing was added', len(s.get_solid_panels()) == 0)


Q = 'numerical quadrature and linear solve'
contract('C21', 'panels follow the outlines', [MOD + 'System.add_object', MOD + 'object_2D', MOD + 'Panel', MOD + 'object_1D.refine'], **ONLY('square roots of sums, rounding'))(geometry)
contract('C21', 'open walls', [MOD + 'object_1D.refine'], **ONLY('square roots of sums, rounding'))(open_wall)
contract('C21', 'free stream alone', [MOD + 'System.compute_velocity'], **ONLY('trigonometric functions'))(alone)
contract('C21', 'velocity around one solid', [MOD + 'System.compute_velocity', MOD + 'System.solving_sigma', MOD + 'integral'], con_runs=40, **ONLY(Q))(velocity(False))
contract('C21', 'velocity around two objects', [MOD + 'System.compute_velocity', MOD + 'System.solving_sigma'], con_runs=30, **ONLY(Q))(velocity(True))
contract('C21', 'objects added between evaluations', [MOD + 'System.add_object', MOD + 'System.compute_velocity'], con_runs=30, **ONLY(Q))(adding)
for rm in (False, True):
    t = ', solids masked' if rm else ''
    contract('C21', 'velocity on a grid' + t, [MOD + 'System.compute_velocity_on_grid'], con_runs=30, **ONLY(Q))(on_grid(rm))
    contract('C21', 'velocity on a line' + t, [MOD + 'System.compute_velocity_on_line'], con_runs=30, **ONLY(Q))(on_line(rm))
contract('C21', 'pressure coefficient of a field', [MOD + 'System.compute_pressure_from_velocity'], sizes=({'nx': 2, 'ny': 2},))(pressure)
contract('C21', 'pressure coefficient along a line', [MOD + 'System.compute_pressure_from_velocity'], sizes=({'n': 2}, {'n': 3}))(pressure_line)
contract('C21', 'invalid objects', [MOD + 'System.add_object'], con_runs=1, **ONLY('constants'))(rejected)
