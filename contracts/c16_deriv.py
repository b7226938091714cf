"""C16: derivatives and vortex criteria match their definitions."""
import math

from vc.spec import contract
from .common import mk, same_as_ghost, node_map, same_fields
from .tcommon import frame_is, fields_are, set_is

M = ('m', 'm', 'm/s')


def ft(S):
    return S.mod('IMTreatment.field_treatment')


def vc(S):
    return S.mod('IMTreatment.vortex_criterions')


def units(S, u):
    return tuple(S.make_unit(x) for x in u)


def nb(S, i, n):
    """Indices of the two nodes of the difference stencil at i, and the number of steps between them."""
    first, last = S.eqn(i, 0), S.eqn(i, n - 1)
    return S.ite(first, i, i - 1), S.ite(last, i, i + 1), S.ite(S.Or(first, last), 1.0, 0.5)


def slope(S, n, h, at, i):
    """One-sided at the ends, centred elsewhere."""
    first, last = S.eqn(i, 0), S.eqn(i, n - 1)
    return S.ite(first, lambda: S.div(at(1) - at(0), h),
                 lambda: S.ite(last, lambda: S.div(at(n - 1) - at(n - 2), h), lambda: S.div(at(i + 1) - at(i - 1), 2.0 * h)))


def dx(S, g, a, i, j):
    return slope(S, g.nx, S.el(g.x, 1) - S.el(g.x, 0), lambda k: S.el(a, k, j), i)


def dy(S, g, a, i, j):
    return slope(S, g.ny, S.el(g.y, 1) - S.el(g.y, 0), lambda k: S.el(a, i, k), j)


def stencil(S, g, i, j):
    """A node of the stencil is masked."""
    if g.m is None:
        return S.false()
    a, b, _ = nb(S, i, g.nx)
    c, d, _ = nb(S, j, g.ny)
    return S.Or(S.gm(g, a, j), S.gm(g, b, j), S.gm(g, i, c), S.gm(g, i, d))


def phys(S, r, g, masked, val, unit, label):
    """Field r on the grid of g: mask as given; value times unit of r is val times the given unit."""
    S.must(label + ': a scalar field', S.isinst(r, S.core.ScalarField))
    try:
        f = (r.unit_values / unit).asNumber(1)
        ok = True
    except Exception:
        f, ok = 1.0, False
    S.check(label + ': dimension of the values', ok)
    S.check(label + ': pure unit', S.eq(r.unit_values.asNumber(), 1.0))
    S.must(label + ': axes are vectors', S.ndim(r.axe_x) == 1 and S.ndim(r.axe_y) == 1)
    S.check(label + ': axis lengths', S.And(S.eqn(S.length(r.axe_x), g.nx), S.eqn(S.length(r.axe_y), g.ny)))
    S.must(label + ': 2-D', S.ndim(r.values) == 2 and S.ndim(r.mask) == 2)
    S.check(label + ': one value and flag per node', S.And(S.eqn(S.dim(r.values, 0), g.nx), S.eqn(S.dim(r.values, 1), g.ny),
                                                          S.eqn(S.dim(r.mask, 0), g.nx), S.eqn(S.dim(r.mask, 1), g.ny)))
    S.check_all(label + ': x of every node', (g.nx,), lambda i: S.eq(S.el(r.axe_x, i), S.el(g.x, i)))
    S.check_all(label + ': y of every node', (g.ny,), lambda j: S.eq(S.el(r.axe_y, j), S.el(g.y, j)))
    S.check_all(label + ': mask of every node', (g.nx, g.ny), lambda i, j: S.iff(S.el(r.mask, i, j), masked(i, j)))
    S.check_all(label + ': value of every node', (g.nx, g.ny), lambda i, j: S.Or(masked(i, j), S.eq(S.el(r.values, i, j) * f, val(i, j))))
    S.check(label + ': axis units', S.And(S.ueq(r.unit_x, g.ux), S.ueq(r.unit_y, g.uy)))


def rawok(S, r, g, masked, val, label):
    S.check(label + ': shape', S.And(S.eqn(S.dim(r.data, 0), g.nx), S.eqn(S.dim(r.data, 1), g.ny)))
    S.check_all(label + ': mask', (g.nx, g.ny), lambda i, j: S.iff(S.el(r.mask, i, j), masked(i, j)))
    S.check_all(label + ': value', (g.nx, g.ny), lambda i, j: S.Or(masked(i, j), S.eq(S.el(r.data, i, j), val(i, j))))


def gradients(kind, u, mask, raw):
    def f(S):
        o, g = mk(S, kind, uniform=True, units=units(S, u), mask=mask)
        rs = S.run('get_gradients', ft(S).get_gradients, o, raw=raw)
        cs = S.gcomps(g)
        S.must('one gradient per component and direction', len(rs) == 2 * len(cs))
        k = 0
        for c in cs:
            for d, un, nm in ((dx, g.ux, 'x'), (dy, g.uy, 'y')):
                lab = 'derivative of component %d along %s' % (k // 2, nm)
                m, v = (lambda i, j: stencil(S, g, i, j)), (lambda i, j, c=c, d=d: d(S, g, c, i, j))
                if raw:
                    rawok(S, rs[k], g, m, v, lab)
                else:
                    phys(S, rs[k], g, m, v, g.uv / un, lab)
                k += 1
        same_as_ghost(S, o, g, 'field given')
    return f


def gradients_linear(kind):
    """Exact for fields linear in space."""
    def f(S):
        nx, ny = S.n('nx'), S.n('ny')
        x, y = S.axis('f.x', nx, uniform=True), S.axis('f.y', ny, uniform=True)
        a, b, c = S.real('a'), S.real('b'), S.real('c')
        o = S.core.ScalarField()
        v = S.np.zeros((nx, ny)) + a + b * x[:, S.np.newaxis] + c * y[S.np.newaxis, :]
        o.import_from_arrays(x, y, v, mask=None, unit_x='m', unit_y='m', unit_values='m/s')
        rs = S.run('get_gradients', ft(S).get_gradients, o)
        for r, e, nm in ((rs[0], b, 'x'), (rs[1], c, 'y')):
            S.check_all('slope along %s' % nm, (nx, ny), lambda i, j: S.eq(S.el(r.values, i, j), e))
    return f


def jac(S, g, i, j):
    return dx(S, g, g.vx, i, j), dy(S, g, g.vx, i, j), dx(S, g, g.vy, i, j), dy(S, g, g.vy, i, j)


def div_ft(u, mask):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, u), mask=mask)
        r = S.run('get_divergence', ft(S).get_divergence, o)
        k = (g.ux / g.uy).asNumber(1)
        phys(S, r, g, lambda i, j: stencil(S, g, i, j), lambda i, j: dx(S, g, g.vx, i, j) + dy(S, g, g.vy, i, j) * k, g.uv / g.ux, 'divergence')
        same_as_ghost(S, o, g, 'field given')
    return f


def track(S):
    o, g = S.vf()
    r = S.run('get_track_field', ft(S).get_track_field, o)
    node_map(S, r, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: S.gm(g, i, j),
             lambda i, j: [-S.el(g.vy, i, j), S.el(g.vx, i, j)], g.ux, g.uy, g.uv, 'track field')
    same_as_ghost(S, o, g, 'field given')


def grad_field(direction):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M))
        r = S.run('get_grad_field', ft(S).get_grad_field, o, direction)
        c = g.vx if direction == 'x' else g.vy
        node_map(S, r, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: stencil(S, g, i, j),
                 lambda i, j: [dx(S, g, c, i, j), dy(S, g, c, i, j)], g.ux, g.uy, r.unit_values, 'gradient field')
        same_as_ghost(S, o, g, 'field given')
    return f


def shear_stress(raw, u=M):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, u), mask=False)
        r = S.run('get_shear_stress', ft(S).get_shear_stress, o, raw=raw)
        cx, cy = r if raw else (r.comp_x, r.comp_y)
        S.check_all('dVy/dx', (g.nx, g.ny), lambda i, j: S.eq(S.el(cx, i, j), dx(S, g, g.vy, i, j)))
        S.check_all('dVx/dy', (g.nx, g.ny), lambda i, j: S.eq(S.el(cy, i, j), dy(S, g, g.vx, i, j)))
        same_as_ghost(S, o, g, 'field given')
    return f


def absv(S, a):
    return S.ite(S.lt(a, 0.0), -a, a)


def q_of(S, J):
    a, b, c, d = J
    return 0.5 * (0.5 * (b - c) * (b - c) - (a * a + 0.5 * (b + c) * (b + c) + d * d))


CRIT = {
    'get_divergence': (lambda S, J: J[0] + J[3], 1),
    'get_vorticity': (lambda S, J: (J[2] - J[1]) * 0.5, 1),
    'get_q_criterion': (q_of, 2),
}
MASKED = {'get_q_criterion'}


def criterion(name, raw, mask=False, u=M):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, u), mask=mask)
        e, p = CRIT[name]
        r = S.run(name, getattr(vc(S), name), o, raw=raw)
        val = lambda i, j: e(S, jac(S, g, i, j))
        if raw and name in MASKED:
            rawok(S, r, g, lambda i, j: stencil(S, g, i, j), val, name)
        elif raw:
            S.check(name + ': shape', S.And(S.eqn(S.dim(r, 0), g.nx), S.eqn(S.dim(r, 1), g.ny)))
            S.check_all(name, (g.nx, g.ny), lambda i, j: S.eq(S.el(r, i, j), val(i, j)))
        else:
            phys(S, r, g, lambda i, j: stencil(S, g, i, j), val, (g.uv / g.ux) ** p, name)
        same_as_ghost(S, o, g, 'field given')
    return f


def split_vorticity(shear, raw, u=M):
    """Residual part: |omega| - s where the rotation dominates, else 0; shear part: the rest."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, u), mask=False)
        name = 'get_shear_vorticity' if shear else 'get_residual_vorticity'
        r = S.run(name, getattr(vc(S), name), o, raw=raw)
        v = r if raw else r.values
        S.must('2-D', S.ndim(v) == 2)
        k = 1.0 if raw else (r.unit_values / (g.uv / g.ux)).asNumber(1)

        def body(i, j):
            a, b, c, d = jac(S, g, i, j)
            om = S.div(c - b, 2.0)
            s = S.div(S.sqrt(4.0 * S.pow(a, 2) + S.pow(b + c, 2)), 2.0)
            w = absv(S, om)
            dom = S.lt(s, w)
            sg = S.ite(S.lt(om, 0.0), -1.0, 1.0)
            return S.eq(S.el(v, i, j) * k, S.ite(dom, sg * s, om) if shear else S.ite(dom, sg * (w - s), 0.0))
        S.check_all(name, (g.nx, g.ny), body)
        if not raw:
            S.check('unit', S.ueq(r.unit_values, S.make_unit('1/s')) if u == M else S.eq(r.unit_values.asNumber(), 1.0))
            S.check_all('nothing masked', (g.nx, g.ny), lambda i, j: S.Not(S.el(r.mask, i, j)))
        same_as_ghost(S, o, g, 'field given')
    return f


K = 1. / 2. ** .5


def nk(mask):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        r = S.run('get_Nk_criterion', vc(S).get_Nk_criterion, o)
        def body(i, j):
            a, b, c, d = jac(S, g, i, j)
            sh = S.sqrt(S.pow(a, 2) + 0.5 * S.pow(b + c, 2) + S.pow(d, 2))
            e = S.el(r.values, i, j)
            return S.Or(stencil(S, g, i, j), S.eq(sh, 0.0), S.eq(e * sh, K * absv(S, b - c)))
        S.check_all('ratio of the norms of rotation and shear', (g.nx, g.ny), body)
        S.check_all('masked stencils are masked', (g.nx, g.ny), lambda i, j: S.imp(stencil(S, g, i, j), S.el(r.mask, i, j)))
        same_as_ghost(S, o, g, 'field given')
    return f


def galilean(name):
    """Adding a uniform velocity changes nothing."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=False)
        a, b = S.real('ua'), S.real('ub')
        p = S.core.VectorField()
        p.import_from_arrays(g.x, g.y, g.vx + a, g.vy + b, mask=False, unit_x=g.ux, unit_y=g.uy, unit_values=g.uv)
        fn = getattr(vc(S), name)
        r1, r2 = S.run(name, fn, o), S.run(name + ' with a uniform velocity added', fn, p)
        S.check_all('same value', (g.nx, g.ny), lambda i, j: S.eq(S.el(r1.values, i, j), S.el(r2.values, i, j)))
    return f


def temporal(name, module, raw=False):
    def f(S):
        o, g = S.tf('vf', 2, mask=False, units=units(S, M), uniform=True)
        fn = getattr(ft(S) if module == 'ft' else vc(S), name)
        if raw:
            exp = [S.run('on a field', fn, x, raw=True) for x in o.fields]
            r = S.run('on a set', fn, o, raw=True)
            S.must('one array per field', S.concrete(S.length(r)) == 2)
            for k in range(2):
                S.check_all('array %d' % k, (g.nx, g.ny), lambda i, j: S.eq(S.el(r[k], i, j), S.el(exp[k], i, j)))
            set_is(S, o, g, label='original')
            return
        exp = [S.run('on a field', fn, x) for x in o.fields]
        r = S.run('on a set', fn, o)
        S.must('a set of scalar fields', S.isinst(r, S.core.TemporalScalarFields))
        frame_is(S, r, 2, g.t, g.tu, 'result')
        fields_are(S, r, exp)
        set_is(S, o, g, label='original')
    return f


AROUND = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)]


def nonlocal_mask(S, g, i, j):
    """On the border of the field, or with a masked node in the 3x3 neighbourhood."""
    border = S.Or(S.eqn(i, 0), S.eqn(i, g.nx - 1), S.eqn(j, 0), S.eqn(j, g.ny - 1))
    if g.m is None:
        return border
    return S.Not(S.And(S.Not(border), S.guard(S.Not(border), lambda: S.Not(S.Or(*[S.gm(g, i + a, j + b) for a, b in AROUND + [(0, 0)]])))))


def local_mean(S, g, i, j):
    vs = [(S.el(g.vx, i + a, j + b), S.el(g.vy, i + a, j + b)) for a, b in AROUND]
    m = [S.div(sum([v[c] for v in vs[1:]], vs[0][c]), 8.0) for c in (0, 1)]
    q = [S.div(sum([S.pow(v[c] - m[c], 2) for v in vs[1:]], S.pow(vs[0][c] - m[c], 2)), 8.0) for c in (0, 1)]
    return m, q


def factor(S, g, i, j, kind):
    """Correctors: norm of the mean velocity (gamma1b); norm of the fluctuations over that of the mean, at most 1 (gamma2b)."""
    if not kind.endswith('b'):
        return 1.0
    m, q = local_mean(S, g, i, j)
    n = S.sqrt(S.pow(m[0], 2) + S.pow(m[1], 2))
    if kind == 'gamma1b':
        return n
    d = S.sqrt(q[0] + q[1])
    return S.ite(S.lt(n, d), 1.0, lambda: S.div(d, n))


def swirl(S, g, i, j, scalar, mean, req=None):
    """Mean over the 8 neighbours of sin (cos) of the angle from position to velocity, 0 where there is none."""
    hx, hy = S.el(g.x, 1) - S.el(g.x, 0), S.el(g.y, 1) - S.el(g.y, 0)
    vs = [(S.el(g.vx, i + a, j + b), S.el(g.vy, i + a, j + b)) for a, b in AROUND]
    mx = my = 0.0
    if mean:
        mx, my = S.div(sum([v[0] for v in vs[1:]], vs[0][0]), 8.0), S.div(sum([v[1] for v in vs[1:]], vs[0][1]), 8.0)
    tot = 0.0
    for (a, b), (u, v) in zip(AROUND, vs):
        px, py, u, v = a * hx, b * hy, u - mx, v - my
        den = S.sqrt(S.pow(u, 2) + S.pow(v, 2)) * S.sqrt(S.pow(px, 2) + S.pow(py, 2))
        if req is not None:
            req.append(S.Not(S.eq(den, 0.0)))
            continue
        num = px * u + py * v if scalar else px * v - py * u
        tot = tot + S.ite(S.eq(den, 0.0), 0.0, lambda: S.div(num, den))
    return S.div(tot, 8.0)


def nonlocal_crit(name, kind, mask, raw=False):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        if S.symbolic:
            # deductive run: no neighbour has zero (relative) velocity; the sampled runs include that case
            req = []
            swirl(S, g, 1, 1, name == 'get_kappa', '2' in kind, req)
            for q in req:
                S.assume(q)
        r = S.run(kind, getattr(vc(S), name), o, kind=kind, raw=raw)
        val = lambda i, j: swirl(S, g, i, j, name == 'get_kappa', '2' in kind) * factor(S, g, i, j, kind)
        msk = lambda i, j: nonlocal_mask(S, g, i, j)
        v, m = (r.data, r.mask) if raw else (r.values, r.mask)
        S.check('shape', S.And(S.eqn(S.dim(v, 0), g.nx), S.eqn(S.dim(v, 1), g.ny)))
        S.check_all('mask of every node', (g.nx, g.ny), lambda i, j: S.iff(S.el(m, i, j), msk(i, j)))
        S.check_all('value of every node', (g.nx, g.ny), lambda i, j: S.guard(S.Not(msk(i, j)), lambda: S.eq(S.el(v, i, j), val(i, j))))
        if not raw:
            S.check('no unit', S.ueq(r.unit_values, S.make_unit('')))
        same_as_ghost(S, o, g, 'field given')
    return f


def conc(g, S):
    """Plain components and mask of a sampled field."""
    nx, ny = int(g.nx), int(g.ny)
    at = lambda a: [[float(S.el(a, i, j)) for j in range(ny)] for i in range(nx)]
    m = [[bool(g.m is not None and S.gm(g, i, j)) for j in range(ny)] for i in range(nx)]
    x, y = [float(S.el(g.x, i)) for i in range(nx)], [float(S.el(g.y, j)) for j in range(ny)]
    return nx, ny, x, y, at(g.vx), at(g.vy), m


def table(S, r, raw, nx, ny, want, label):
    """want(i, j) is None on masked nodes."""
    v, m = (r.data, r.mask) if raw else (r.values, r.mask)
    S.must(label + ': shape', tuple(v.shape) == (nx, ny))
    for i in range(nx):
        for j in range(ny):
            w = want(i, j)
            S.check(label + ': mask of every node', bool(m[i, j]) == (w is None))
            if w is not None:
                S.check(label + ': value of every node', S.eq(float(v[i, j]), w))


def angle(u, v):
    a = math.atan2(v, u)
    return a + 2 * math.pi if a < 0 else a


def gap(t):
    """Angles closer to a cut of the angular functions than rounding errors are left out."""
    return min(abs(t), abs(t - math.pi), abs(t - 2 * math.pi)) > 1e-6


def deviation(how, mask, raw=False):
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        nx, ny, x, y, u, v, m = conc(g, S)

        def rel(i, j):
            vs = [(u[i + a][j + b], v[i + a][j + b]) for a, b in AROUND]
            c = (0., 0.)
            if how == 'galilean_inv':
                c = (sum(q[0] for q in vs) / 8., sum(q[1] for q in vs) / 8.)
            elif how == 'local':
                c = (u[i][j], v[i][j])
            return [(q[0] - c[0], q[1] - c[1]) for q in vs]
        hidden = lambda i, j: i in (0, nx - 1) or j in (0, ny - 1) or any(m[i + a][j + b] for a, b in AROUND + [(0, 0)])
        for i in range(nx):
            for j in range(ny):
                if not hidden(i, j):
                    S.assume(all(math.hypot(*q) > 1e-3 and gap(angle(*q)) for q in rel(i, j)))
                elif how == 'none' and not m[i][j]:
                    S.assume(math.hypot(u[i][j], v[i][j]) > 1e-3)
        order = S.choice('order', [1, 2])
        r = S.run('get_angle_deviation', vc(S).get_angle_deviation, o, local_treatment=how, order=order, raw=raw)

        def want(i, j):
            if hidden(i, j):
                return None
            t = sorted(angle(*q) for q in rel(i, j))
            d = [b - a for a, b in zip(t, t[1:])] + [t[0] + 2 * math.pi - t[-1]]
            e = 2 * math.pi / 8
            dist = lambda q: sum(abs(z - e) ** order for z in q) ** (1. / order)
            return 1 - dist(d) / dist([0.] * 7 + [2 * math.pi])
        table(S, r, raw, nx, ny, want, 'angle deviation')
        same_as_ghost(S, o, g, 'field given')
    return f


def nl_residual(mask, raw=False, U=M):
    """Residual vorticity of the linear fits over the eight neighbours."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, U), mask=mask)
        nx, ny, x, y, u, v, m = conc(g, S)
        r = S.run('get_NL_residual_vorticity', vc(S).get_NL_residual_vorticity, o, raw=raw)
        hx, hy = x[1] - x[0], y[1] - y[0]

        def want(i, j):
            if i in (0, nx - 1) or j in (0, ny - 1) or any(m[i + a][j + b] for a, b in AROUND + [(0, 0)]):
                return None
            fx = lambda c: sum(a * c[i + a][j + b] for a, b in AROUND) / (6 * hx)
            fy = lambda c: sum(b * c[i + a][j + b] for a, b in AROUND) / (6 * hy)
            s = math.sqrt(4 * fx(u) ** 2 + (fy(u) + fx(v)) ** 2) / 2.
            w = (fx(v) - fy(u)) / 2.
            return 0. if abs(w) <= s else math.copysign(abs(w) - s, w)
        table(S, r, raw, nx, ny, want, 'residual vorticity')
        if not raw:
            S.check('unit', S.ueq(r.unit_values, S.make_unit('1/s')))
        same_as_ghost(S, o, g, 'field given')
    return f


def stokes(mask, raw=False):
    """Circulation around each window, over window_size^2 cells; masked when a node of the window is."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        nx, ny, x, y, u, v, m = conc(g, S)
        w = S.choice('window', [2, 3])
        S.assume(nx >= w and ny >= w)
        r = S.run('get_stokes_vorticity', vc(S).get_stokes_vorticity, o, window_size=w, raw=raw)
        hx, hy = x[1] - x[0], y[1] - y[0]
        trap = lambda q, h: h * (sum(q) - (q[0] + q[-1]) / 2.)

        def want(i, j):
            I, J = range(i, i + w), range(j, j + w)
            if any(m[a][b] for a in I for b in J):
                return None
            circ = trap([u[a][j] for a in I], hx) + trap([v[i + w - 1][b] for b in J], hy) \
                - trap([u[a][j + w - 1] for a in I], hx) - trap([v[i][b] for b in J], hy)
            return circ / (hx * hy * w ** 2)
        n1, n2 = nx - w + 1, ny - w + 1
        if raw:
            S.must('shape', tuple(r.shape) == (n1, n2))
            for i in range(n1):
                for j in range(n2):
                    q = want(i, j)
                    S.check('value of every window', q is None or S.eq(float(r[i, j]), q))
        else:
            table(S, r, False, n1, n2, want, 'stokes vorticity')
            for i in range(n1):
                S.check('positions along x', S.eq(float(r.axe_x[i]), sum(x[i:i + w]) / w))
            for j in range(n2):
                S.check('positions along y', S.eq(float(r.axe_y[j]), sum(y[j:j + w]) / w))
            S.check('unit', S.ueq(r.unit_values, S.make_unit('1/s')))
        same_as_ghost(S, o, g, 'field given')
    return f


def improved_swirling(mask):
    """Real over imaginary part of the complex eigenvalues of the Jacobian; masked where they are real."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        nx, ny, x, y, u, v, m = conc(g, S)
        val = {}
        for i in range(nx):
            for j in range(ny):
                if not S.And(own_stencil(S, g, i, j)):
                    a, b, c, d = [float(q) for q in jac(S, g, i, j)]
                    D = (a - d) ** 2 + 4 * b * c
                    S.assume(abs(D) > 1e-6)
                    if D < 0:
                        val[i, j] = (a + d) / math.sqrt(-D)
        r = S.run('get_improved_swirling_strength', vc(S).get_improved_swirling_strength, o)
        table(S, r, False, nx, ny, lambda i, j: val.get((i, j)), 'improved swirling strength')
        same_as_ghost(S, o, g, 'field given')
    return f


def iota(mask, raw=False):
    """Half the norm of the gradient (per node) of the direction of the velocity."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        nx, ny, x, y, u, v, m = conc(g, S)
        for i in range(nx):
            for j in range(ny):
                S.assume(m[i][j] or (math.hypot(u[i][j], v[i][j]) > 1e-3 and gap(angle(u[i][j], v[i][j]))))
        r = S.run('get_iota', vc(S).get_iota, o, raw=raw)
        t1 = [[angle(u[i][j], v[i][j]) for j in range(ny)] for i in range(nx)]
        t2 = [[t - 2 * math.pi if t > math.pi else t for t in c] for c in t1]

        def want(i, j):
            if own_stencil(S, g, i, j):
                return None
            a, b = max(i - 1, 0), min(i + 1, nx - 1)
            c, d = max(j - 1, 0), min(j + 1, ny - 1)
            gx = min(abs(t[b][j] - t[a][j]) / (b - a) for t in (t1, t2))
            gy = min(abs(t[i][d] - t[i][c]) / (d - c) for t in (t1, t2))
            return .5 * math.hypot(gx, gy)
        table(S, r, raw, nx, ny, want, 'iota')
        same_as_ghost(S, o, g, 'field given')
    return f


def eig2(S, J):
    """Discriminant of the characteristic polynomial of the Jacobian."""
    a, b, c, d = J
    return (a - d) * (a - d) + 4.0 * b * c


def own_stencil(S, g, i, j):
    return S.Or(S.gm(g, i, j), stencil(S, g, i, j))


def swirling(mask):
    """Imaginary part of the eigenvalues of the Jacobian."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        r = S.run('get_swirling_strength', vc(S).get_swirling_strength, o)
        S.check_all('mask of every node', (g.nx, g.ny), lambda i, j: S.iff(S.el(r.mask, i, j), own_stencil(S, g, i, j)))

        def body(i, j):
            D = eig2(S, jac(S, g, i, j))
            return S.Or(own_stencil(S, g, i, j), S.eq(S.el(r.values, i, j), S.ite(S.lt(D, 0.0), lambda: S.sqrt(-D) * 0.5, 0.0)))
        S.check_all('imaginary part of the eigenvalues', (g.nx, g.ny), body)
        same_as_ghost(S, o, g, 'field given')
    return f


def lambda2(mask, raw):
    """Smallest eigenvalue of S.S + Omega.Omega."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        r = S.run('get_lambda2', vc(S).get_lambda2, o, raw=raw)
        v = r.data if raw else r.values
        S.must('one value per node', S.ndim(v) == 2)
        S.check_all('mask of every node', (g.nx, g.ny), lambda i, j: S.iff(S.el(r.mask, i, j), own_stencil(S, g, i, j)))

        def body(i, j):
            a, b, c, d = jac(S, g, i, j)
            e, w = (b + c) * 0.5, (b - c) * 0.5
            p, q, t = a * a + e * e - w * w, d * d + e * e - w * w, e * (a + d)
            return S.Or(own_stencil(S, g, i, j), S.eq(S.el(v, i, j), (p + q) * 0.5 - S.sqrt((p - q) * (p - q) * 0.25 + t * t)))
        S.check_all('smallest eigenvalue', (g.nx, g.ny), body)
        same_as_ghost(S, o, g, 'field given')
    return f


def delta_crit(mask):
    """(Q/3)^3 + (det J / 2)^2 where the eigenvalues are complex, masked elsewhere."""
    def f(S):
        o, g = S.vf(uniform=True, units=units(S, M), mask=mask)
        r = S.run('get_delta_criterion', vc(S).get_delta_criterion, o)

        def body(i, j):
            J = jac(S, g, i, j)
            D = eig2(S, J)
            q, det = q_of(S, J), J[0] * J[3] - J[1] * J[2]
            return S.Or(stencil(S, g, i, j), S.ite_b(S.lt(D, -1e-6), S.And(S.Not(S.el(r.mask, i, j)), S.eq(S.el(r.values, i, j), q * q * q / 27.0 + det * det / 4.0)),
                                                     S.Or(S.lt(D, 1e-6), S.el(r.mask, i, j))))
        S.check_all('value of every node', (g.nx, g.ny), body)
        S.check_all('masked stencils are masked', (g.nx, g.ny), lambda i, j: S.imp(stencil(S, g, i, j), S.el(r.mask, i, j)))
        same_as_ghost(S, o, g, 'field given')
    return f


def enstrophy(S):
    """Sum of the squared vorticity over the neighbourhood times the cell area."""
    o, g = S.vf(uniform=True, units=units(S, M), mask=False)
    r = S.run('get_enstrophy', vc(S).get_enstrophy, o)
    msk = lambda i, j: nonlocal_mask(S, g, i, j)
    area = (S.el(g.x, 1) - S.el(g.x, 0)) * (S.el(g.y, 1) - S.el(g.y, 0))

    def val(i, j):
        tot = 0.0
        for a, b in AROUND:
            J = jac(S, g, i + a, j + b)
            tot = tot + (J[2] - J[1]) * (J[2] - J[1]) * 0.25
        return tot * area
    S.check_all('mask of every node', (g.nx, g.ny), lambda i, j: S.iff(S.el(r.mask, i, j), msk(i, j)))
    S.check_all('value of every node', (g.nx, g.ny), lambda i, j: S.guard(S.Not(msk(i, j)), lambda: S.eq(S.el(r.values, i, j), val(i, j))))
    same_as_ghost(S, o, g, 'field given')


U2 = ('m', 'mm', 'm/s')
U3 = ('mm', 'mm', 'm/s')
for kind in ('sf', 'vf'):
    n = {'sf': 'scalar', 'vf': 'vector'}[kind]
    for u in (U2,):
        contract('C16', '%s: gradients, units %s' % (n, ' '.join(u)), ['field_treatment.get_gradients'])(gradients(kind, u, True, False))
    contract('C16', '%s: raw gradients' % n, ['field_treatment.get_gradients'])(gradients(kind, U2, True, True))
    contract('C16', '%s: gradients, nothing masked' % n, ['field_treatment.get_gradients'])(gradients(kind, M, False, False))
contract('C16', 'gradients of a field linear in space', ['field_treatment.get_gradients'])(gradients_linear('sf'))
contract('C16', 'divergence', ['field_treatment.get_divergence'])(div_ft(U2, False))
contract('C16', 'divergence with masked nodes', ['field_treatment.get_divergence'], unbounded=False, why_bounded='solver time')(div_ft(U2, True))
contract('C16', 'track field', ['field_treatment.get_track_field'])(track)
for d in 'xy':
    contract('C16', 'gradient field %s' % d, ['field_treatment.get_grad_field'])(grad_field(d))
for raw in (False, True):
    contract('C16', 'shear stress%s' % (' raw' if raw else ''), ['field_treatment.get_shear_stress'])(shear_stress(raw))
    for name in CRIT:
        contract('C16', '%s%s' % (name, ' raw' if raw else ''), ['vortex_criterions.' + name])(criterion(name, raw))
        if name in MASKED:
            contract('C16', '%s%s with masked nodes' % (name, ' raw' if raw else ''), ['vortex_criterions.' + name])(criterion(name, raw, True))
    for sh in (False, True):
        contract('C16', '%s vorticity%s' % ('shear' if sh else 'residual', ' raw' if raw else ''),
                 ['vortex_criterions.get_shear_vorticity' if sh else 'vortex_criterions.get_residual_vorticity'])(split_vorticity(sh, raw))
contract('C16', 'Nk', ['vortex_criterions.get_Nk_criterion'])(nk(False))
contract('C16', 'Nk with masked nodes', ['vortex_criterions.get_Nk_criterion'])(nk(True))
contract('C16', 'shear stress, other units', ['field_treatment.get_shear_stress'])(shear_stress(False, U3))
for name in CRIT:
    contract('C16', '%s, other units' % name, ['vortex_criterions.' + name])(criterion(name, False, False, U3))
for sh in (False, True):
    contract('C16', '%s vorticity, other units' % ('shear' if sh else 'residual'),
             ['vortex_criterions.get_shear_vorticity' if sh else 'vortex_criterions.get_residual_vorticity'],
             sizes=({'nx': 2, 'ny': 2},), unbounded=False, why_bounded='solver time')(split_vorticity(sh, False, U3))
for name in ('get_divergence', 'get_vorticity', 'get_residual_vorticity'):
    contract('C16', '%s of a set, raw' % name, ['vortex_criterions.' + name], unbounded=name == 'get_vorticity', why_bounded='solver time')(temporal(name, 'vc', True))
for name in ('get_divergence', 'get_vorticity', 'get_q_criterion', 'get_residual_vorticity', 'get_shear_vorticity'):
    contract('C16', '%s ignores a uniform velocity' % name, ['vortex_criterions.' + name], unbounded=name != 'get_shear_vorticity', why_bounded='solver time')(galilean(name))
for name, m in (('get_divergence', 'ft'), ('get_divergence', 'vc'), ('get_vorticity', 'vc'), ('get_residual_vorticity', 'vc'), ('get_shear_vorticity', 'vc')):
    contract('C16', '%s.%s of a set' % (m, name), ['field_treatment.get_divergence' if m == 'ft' else 'vortex_criterions.' + name], unbounded=(m == 'ft' or name == 'get_vorticity'), why_bounded='solver time')(temporal(name, m))

B3 = ({'nx': 3, 'ny': 3},)
LOOP = 'loop over the nodes, unrolled'
for name, kind in (('get_gamma', 'gamma1'), ('get_gamma', 'gamma2'), ('get_kappa', 'kappa1'), ('get_kappa', 'kappa2')):
    for mask in (False, True):
        contract('C16', kind + (' with masked nodes' if mask else ''), ['vortex_criterions.' + name, 'vortex_criterions._non_local_criterion_precomputation'],
                 sizes=() if mask or kind[-1] == '2' else B3, unbounded=False,
                 why_bounded='one path per mask: sampled only' if mask else 'solver time: sampled only' if kind[-1] == '2' else LOOP)(nonlocal_crit(name, kind, mask))
    contract('C16', kind + ' raw', ['vortex_criterions.' + name], sizes=(), unbounded=False, why_bounded='one path per mask: sampled only')(nonlocal_crit(name, kind, True, True))
for kind in ('gamma1b', 'gamma2b'):
    for mask in (False, True):
        contract('C16', kind + (' with masked nodes' if mask else ''), ['vortex_criterions.get_gamma', 'vortex_criterions._non_local_criterion_precomputation'],
                 sizes=(), unbounded=False, why_bounded='one path per mask: sampled only')(nonlocal_crit('get_gamma', kind, mask))
for mask in (False, True):
    mm = ' with masked nodes' if mask else ''
    contract('C16', 'swirling strength' + mm, ['vortex_criterions.get_swirling_strength'], sizes=(), unbounded=False, why_bounded='eigenvalues: sampled only')(swirling(mask))
    for raw in (False, True):
        contract('C16', 'lambda2' + (' raw' if raw else '') + mm, ['vortex_criterions.get_lambda2'], sizes=(), unbounded=False, why_bounded='eigenvalues: sampled only')(lambda2(mask, raw))
    contract('C16', 'delta criterion' + mm, ['vortex_criterions.get_delta_criterion'], sizes=(), unbounded=False, why_bounded='eigenvalues: sampled only')(delta_crit(mask))
contract('C16', 'enstrophy', ['vortex_criterions.get_enstrophy'], sizes=B3, unbounded=False, why_bounded=LOOP)(enstrophy)

for mask in (False, True):
    mm = ' with masked nodes' if mask else ''
    V = 'vortex_criterions.'
    PL = V + '_non_local_criterion_precomputation'
    sampled = lambda why: dict(sizes=(), unbounded=False, why_bounded=why + ': sampled only')
    for how in ('none', 'galilean_inv', 'local'):
        contract('C16', 'angle deviation (%s)' % how + mm, [V + 'get_angle_deviation', V + '_get_angles', PL], **sampled('sorted angles'))(deviation(how, mask))
    contract('C16', 'non-local residual vorticity' + mm, [V + 'get_NL_residual_vorticity', PL], **sampled('least squares fit'))(nl_residual(mask))
    contract('C16', 'stokes vorticity' + mm, [V + 'get_stokes_vorticity'], **sampled('loop over windows, floating point range'))(stokes(mask))
    contract('C16', 'improved swirling strength' + mm, [V + 'get_improved_swirling_strength'], **sampled('eigenvalues'))(improved_swirling(mask))
    contract('C16', 'iota' + mm, [V + 'get_iota'], **sampled('angular functions'))(iota(mask))
contract('C16', 'angle deviation raw', ['vortex_criterions.get_angle_deviation'], **sampled('sorted angles'))(deviation('none', True, True))
contract('C16', 'non-local residual vorticity raw', ['vortex_criterions.get_NL_residual_vorticity'], **sampled('least squares fit'))(nl_residual(True, True))
contract('C16', 'non-local residual vorticity, other units', ['vortex_criterions.get_NL_residual_vorticity'], **sampled('least squares fit'))(nl_residual(True, False, ('mm', 'mm', 'mm/s')))
contract('C16', 'stokes vorticity raw', ['vortex_criterions.get_stokes_vorticity'], **sampled('loop over windows'))(stokes(True, True))
contract('C16', 'iota raw', ['vortex_criterions.get_iota'], **sampled('angular functions'))(iota(True, True))
