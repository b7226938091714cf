"""C20: boundary layer quantities match their definitions."""
import math

from vc.spec import contract

MOD = 'boundary_layer.'


def bl(S):
    return S.mod('IMTreatment.boundary_layer')


def grown(S, wall, tag='p'):
    """A velocity profile increasing away from the wall at 0, with or without a sample at the wall."""
    n = S.concrete(S.n('n', 2))
    x = [0.0 if wall else S.real(tag + '.x0', lo=0.125, hi=4.0, pos=True)]
    y = [0.0 if wall else S.real(tag + '.y0', lo=0.125, hi=4.0, pos=True)]
    for i in range(1, n):
        x.append(x[-1] + S.real('%s.dx%d' % (tag, i), lo=0.125, hi=4.0, pos=True))
        y.append(y[-1] + S.real('%s.dy%d' % (tag, i), lo=0.125, hi=4.0, pos=True))
    return n, x, y


def apart(S, y, t):
    """Sampled runs: no sample within rounding of the threshold."""
    if not S.symbolic:
        S.assume(all(v == t or abs(v - t) > 1e-6 for v in y))


def make(S, x, y, u=('m', 'm/s')):
    return S.core.Profile(x, y, unit_x=S.make_unit(u[0]), unit_y=S.make_unit(u[1]))


def same(S, p, n, x, y):
    S.check('profile given: as many samples', S.And(S.eqn(S.length(p.x), n), S.eqn(S.length(p.y), n)))
    for i in range(n):
        S.check('profile given: unchanged', S.And(S.eq(S.el(p.x, i), x[i]), S.eq(S.el(p.y, i), y[i])))


def at_level(S, n, x, y, t, r):
    """r is the position where the linear interpolation of the profile takes the value t."""
    return S.Or(*[S.And(S.le(y[i], t), S.le(t, y[i + 1]),
                        S.eq(r * (y[i + 1] - y[i]), x[i] * (y[i + 1] - t) + x[i + 1] * (t - y[i]))) for i in range(n - 1)])


def thickness(wall):
    def f(S):
        n, x, y = grown(S, wall)
        perc = S.choice('perc', [0.5, 0.95, 0.99])
        t = y[-1] * perc
        S.assume(S.le(y[0], t))
        apart(S, y, t)
        p = make(S, x, y)
        r = S.run('get_bl_thickness', bl(S).get_bl_thickness, p, perc=perc)
        S.check('position where the velocity reaches the given share of its maximum', at_level(S, n, x, y, t, r))
        same(S, p, n, x, y)
    return f


def integral(S, x, y, k, wall, momentum):
    """Trapezoidal integral over the first k samples, from the wall on."""
    X, Y = list(x[:k]), list(y[:k])
    if not wall:
        X, Y = [0.0] + X, [0.0] + Y
    U = Y[-1]
    q = [S.div(v, U) for v in Y]
    fn = [(a * (1.0 - a) if momentum else 1.0 - a) for a in q]
    tot = 0.0
    for i in range(len(X) - 1):
        tot = tot + (X[i + 1] - X[i]) * (fn[i] + fn[i + 1]) * 0.5
    return tot


def inside(S, n, y, k, t):
    """Exactly the first k samples are at most t."""
    return S.And(S.le(y[k - 1], t), S.lt(t, y[k])) if k < n else S.le(y[k - 1], t)


def integrals(wall, which):
    def f(S):
        n, x, y = grown(S, wall)
        t = y[-1] * 0.95
        S.assume(S.le(y[1 if wall else 0], t))
        apart(S, y, t)
        p = make(S, x, y)
        fn = {'displacement': 'get_displ_thickness', 'momentum': 'get_momentum_thickness', 'shape': 'get_shape_factor'}[which]
        r = S.run(fn, getattr(bl(S), fn), p)
        for k in range(2 if wall else 1, n):
            d, m = integral(S, x, y, k, wall, False), integral(S, x, y, k, wall, True)
            goal = S.eq(r, d) if which == 'displacement' else S.eq(r, m) if which == 'momentum' else S.Or(S.eq(m, 0.0), S.eq(r * m, d))
            S.check('%s over the samples up to 95%% of the maximum' % which, S.imp(inside(S, n, y, k, t), goal))
        same(S, p, n, x, y)
    return f


def clauser(given):
    def f(S):
        n, x, y = grown(S, True)
        t = y[-1] * 0.95
        S.assume(S.le(y[1], t))
        apart(S, y, t)
        p = make(S, x, y)
        tau = S.choice('tau', [0.5, 2.0, 10.0])
        r = S.run('get_clauser_thickness', bl(S).get_clauser_thickness, p, tau=tau, rho=800.0)
        k = max(i for i in range(1, n + 1) if inside(S, n, y, i, t))
        S.check('displacement thickness times outer over friction velocity', S.eq(float(r), integral(S, x, y, k, True, False) * y[-1] / math.sqrt(tau / 800.0)))
        same(S, p, n, x, y)
    return f


def shear(units, log=False):
    """rho nu du/dy with its unit: central differences inside, one-sided at the ends."""
    def f(S):
        p, g = S.prof(mask=False, uniform=True, units=(S.make_unit(units[0]), S.make_unit(units[1])))
        nu, rho = S.real('nu', lo=0.125, hi=2.0, pos=True), S.real('rho', lo=0.125, hi=4.0, pos=True)
        r = S.run('get_shear_stress', bl(S).get_shear_stress, p, nu=nu, rho=rho, respace=False)
        n, d = g.n, S.el(g.x, 1) - S.el(g.x, 0)
        up, dn = lambda i: S.ite(S.lt(i, n - 1), i + 1, i), lambda i: S.ite(S.lt(0, i), i - 1, i)
        unit = g.uy / g.ux * S.make_unit('m^2/s') * S.make_unit('kg/m^3')
        k = (r.unit_y / unit).asNumber(1)
        S.check('lengths', S.And(S.eqn(S.length(r.x), n), S.eqn(S.length(r.y), n)))
        S.check_all('positions', (n,), lambda i: S.eq(S.el(r.x, i), S.el(g.x, i)))
        S.check('unit of the positions', S.ueq(r.unit_x, g.ux))
        S.check_all('viscosity times density times velocity gradient', (n,), lambda i: S.eq(
            S.el(r.y, i) * k * d * S.ite(S.And(S.lt(0, i), S.lt(i, n - 1)), 2.0, 1.0), (S.el(g.y, up(i)) - S.el(g.y, dn(i))) * nu * rho))
        S.prof_same('profile given', p, g)
    return f


def shear_lin(S):
    """rho nu u/y at every sample off the wall."""
    wall = S.choice('wall', [True, False])
    n, x, y = grown(S, wall)
    p = make(S, x, y, ('mm', 'm/s'))
    nu, rho = S.real('nu', lo=0.125, hi=2.0, pos=True), S.real('rho', lo=0.125, hi=4.0, pos=True)
    r = S.run('get_shear_stress', bl(S).get_shear_stress, p, nu=nu, rho=rho, method='wall_law_lin')
    a = 1 if wall else 0
    k = (r.unit_y / (S.make_unit('m/s') / S.make_unit('mm') * S.make_unit('m^2/s') * S.make_unit('kg/m^3'))).asNumber(1)
    S.must('one value per sample off the wall', S.concrete(S.length(r.x)) == n - a and S.concrete(S.length(r.y)) == n - a)
    for i in range(a, n):
        S.check('positions', S.eq(S.el(r.x, i - a), x[i]))
        S.check('stress of the linear law', S.eq(S.el(r.y, i - a) * k * x[i], y[i] * nu * rho))
    same(S, p, n, x, y)


def shear_bad(S):
    p, g = S.prof(mask=False, uniform=True)
    for kw in (dict(nu=0.0), dict(nu=-1.0), dict(direction=3), dict(method='other')):
        S.check('invalid arguments are rejected', not S.call(bl(S).get_shear_stress, p, **kw).ok)
    S.prof_same('profile given', p, g)


def of_field(name, direction):
    """One value per row (column) of the field, that of the profile there, with the units of the axes."""
    def f(S):
        nx, ny = S.concrete(S.n('nx', 2)), S.concrete(S.n('ny', 2))
        n, k = (ny, nx) if direction == 1 else (nx, ny)
        if name == 'get_shear_stress':
            n = max(n, 2)
        ax = [0.0]
        for i in range(1, n):
            ax.append(ax[-1] + S.real('dw%d' % i, lo=0.125, hi=4.0, pos=True))
        if name in ('get_shear_stress', 'get_clauser_thickness'):
            ax = [0.5 * i for i in range(n)]
        pos = [0.25 + i for i in range(k)]
        rows = []
        for c in range(k):
            r = [0.0]
            for i in range(1, n):
                r.append(r[-1] + S.real('d%d_%d' % (c, i), lo=0.125, hi=4.0, pos=True))
            t = 0.95 * r[-1]
            if name != 'get_shear_stress':
                S.assume(r[1] <= t)
            apart(S, r, t)
            rows.append(r)
        fld = S.core.ScalarField()
        vals = rows if direction == 1 else [[rows[j][i] for j in range(k)] for i in range(n)]
        x, y = (pos, ax) if direction == 1 else (ax, pos)
        fld.import_from_arrays(x, y, vals, unit_x='m', unit_y='mm', unit_values='m/s')
        B = bl(S)
        tau = None
        if name == 'get_clauser_thickness':
            tau = S.choice('tau', [None, 0.5, 2.0])
        r = S.run(name, getattr(B, name), fld, direction, **({} if tau is None else {'tau': tau}))
        upos, uax = ('m', 'mm') if direction == 1 else ('mm', 'm')
        if name == 'get_shear_stress':
            S.must('a field', S.isinst(r, S.core.ScalarField))
            unit = S.make_unit('m/s') / S.make_unit(uax) * S.make_unit('m^2/s') * S.make_unit('kg/m^3')
            q = (r.unit_values / unit).asNumber(1)
            for c in range(k):
                for i in range(n):
                    a, b = max(i - 1, 0), min(i + 1, n - 1)
                    w = (rows[c][b] - rows[c][a]) / (ax[b] - ax[a]) * 1e-6 * 1000
                    v = r.values[c, i] if direction == 1 else r.values[i, c]
                    S.check('stress at every node', S.eq(float(v) * q * 1e3, w * 1e3))
            S.check('units of the axes', S.And(S.ueq(r.unit_x, S.make_unit('m')), S.ueq(r.unit_y, S.make_unit('mm'))))
            return
        S.must('a profile', S.isinst(r, S.core.Profile))
        S.must('one value per position', len(r.x) == k and len(r.y) == k)
        for c in range(k):
            S.check('positions', S.eq(float(r.x[c]), pos[c]))
            t = 0.95 * rows[c][-1]
            if name == 'get_bl_thickness':
                S.check('thickness at every position', at_level(S, n, ax, rows[c], t, float(r.y[c])))
                continue
            m = max(i for i in range(1, n + 1) if inside(S, n, rows[c], i, t))
            d, e = integral(S, ax, rows[c], m, True, False), integral(S, ax, rows[c], m, True, True)
            if name == 'get_shape_factor':
                S.check('shape factor at every position', bool(r.mask[c]) if e <= 0 else S.eq(float(r.y[c]), d / e))
            elif name == 'get_clauser_thickness':
                w = tau
                if tau is None:
                    w = rows[c][1] / (ax[1] * S.make_unit(uax) / S.make_unit('m')).asNumber(1) * 1e-6 * 1000
                S.check('Clauser thickness at every position', S.eq(float(r.y[c]) / 1e3, d * rows[c][-1] / math.sqrt(w / 1000) / 1e3))
            else:
                S.check('thickness at every position', S.eq(float(r.y[c]), d if name == 'get_displ_thickness' else e))
        S.check('unit of the positions', S.ueq(r.unit_x, S.make_unit(upos)))
        if name != 'get_shape_factor':
            S.check('unit of the thickness', S.ueq(r.unit_y, S.make_unit(uax)))
    return f


def blasius(mode):
    def f(S):
        U, nu, rho = S.real('U', lo=0.25, hi=8.0, pos=True), S.choice('nu', [1e-6, 1.5e-5, 1e-4]), S.choice('rho', [1.2, 1000.0])
        b = bl(S).BlasiusBL(U, nu, rho)
        x = [S.real('x%d' % i, lo=0.125, hi=8.0, pos=True) for i in range(3)] + [0.0]
        if mode != 'turbulent':
            x[0] = S.choice('Re', [1e3, 1e5, 4.9e5] + ([5.1e5, 1e6] if mode == 'mixed' else [])) * nu / U
        perc = S.choice('perc', ['95', '99']) if mode == 'laminar' else '99'
        Re = [U * q / nu for q in x]
        S.assume(all(abs(q - 5e5) > 1 for q in Re))
        if mode == 'laminar':
            x[1:3], Re[1:3] = [x[0] / 2, x[0] / 3], [Re[0] / 2, Re[0] / 3]
        r = S.run('get_BL_properties', b.get_BL_properties, x, allTurbulent=mode == 'turbulent', bl_perc=perc)
        S.must('seven results', len(r) == 7 and all(len(q) == 4 for q in r))
        delta, delta2, ds, H, Cf, Rex, tau = [[float(v) for v in q] for q in r]
        S.check('nothing at the leading edge', delta[3] == delta2[3] == ds[3] == Cf[3] == Rex[3] == tau[3] == 0)
        for i in range(3):
            turb = mode == 'turbulent' or Re[i] >= 5e5
            S.check('Reynolds number', S.eq(Rex[i] * nu, U * x[i]))
            e = .2 if turb else .5
            c, cf = (.3806, .0592) if turb else ({'95': 3.92, '99': 4.91}[perc], .664)
            S.check('thickness', S.eq(delta[i] / x[i] * Re[i] ** e, c))
            S.check('friction coefficient', S.eq(Cf[i] * Re[i] ** e, cf))
            S.check('wall shear stress', S.eq(tau[i] / (.5 * rho * U ** 2), Cf[i]))
            if not turb:
                S.check('momentum thickness', S.eq(delta2[i] / math.sqrt(nu * x[i] / U), .664))
                S.check('displacement thickness', S.eq(ds[i] / delta2[i], H[i]))
                S.check('shape factor', S.eq(H[i], 2.59))
        one = S.run('get_BL_properties of a number', b.get_BL_properties, x[0], allTurbulent=mode == 'turbulent', bl_perc=perc)
        S.check('one position alone', S.And(*[S.eq(float(q[0]), float(w[0])) for q, w in zip(one, r)]))
        S.check('Reynolds number function', S.eq(b.get_Rex(x[0]) * nu, U * x[0]))
    return f


def wall_law(kind):
    def f(S):
        h, tau, delta = S.choice('h', [0.5, 1.0]), S.choice('tau', [0.01, 0.1, 1.0]), S.choice('delta', [0.1, 0.25, 0.4])
        w = getattr(bl(S), kind)(h, tau, delta)
        ut = math.sqrt(tau / 1000.0)
        np = S.mod('numpy')
        ys = sorted({S.real('y%d' % i, lo=0.0, hi=0.5, dens=512) for i in range(4)} | {5.0 * 1e-6 / ut, 30.0 * 1e-6 / ut})
        for q in ys:
            S.assume(min(abs(q * ut / 1e-6 - 11.63), abs(q * ut / 1e-6 - 450.), abs(q - delta)) > 1e-9)
        p = S.run('get_profile', w.get_profile, np.array(ys))
        S.must('one value per position', len(p.x) == len(ys) and len(p.y) == len(ys))

        def law(yp):
            u = math.log(yp) / .4 + 5.1
            if kind == 'WakeLaw':
                u += 2 * .55 / .4 * math.sin(math.pi * (yp * 1e-6 / ut) / (2 * delta)) ** 2
            return u
        for i, q in enumerate(ys):
            yp = q * ut / 1e-6
            u = yp if yp <= 11.63 else law(yp) if yp <= 450. or q <= delta else law(delta * ut / 1e-6)
            S.check('positions', S.eq(float(p.x[i]), q))
            S.check('velocity of the law', S.eq(float(p.y[i]), u * ut))
        S.check('units', S.And(S.ueq(p.unit_x, S.make_unit('m')), S.ueq(p.unit_y, S.make_unit('m/s'))))
        S.check('positions above the water are rejected', not S.call(w.get_profile, np.array([h * 1.5])).ok)
        S.check('positions below the wall are rejected', not S.call(w.get_profile, np.array([-h])).ok)
    return f


BND = dict(unbounded=False, why_bounded='lists of concrete length', sizes=({'n': 2}, {'n': 3}, {'n': 4}))
ONLY = lambda why: dict(unbounded=False, why_bounded=why + ': sampled only', sizes=())
for wall in (True, False):
    t = 'with a sample at the wall' if wall else 'without a sample at the wall'
    contract('C20', 'boundary layer thickness, ' + t, [MOD + 'get_bl_thickness'], **BND)(thickness(wall))
    for which, fn in (('displacement', 'get_displ_thickness'), ('momentum', 'get_momentum_thickness'), ('shape', 'get_shape_factor')):
        contract('C20', '%s %s, %s' % (which, 'factor' if which == 'shape' else 'thickness', t), [MOD + fn], **(
            dict(BND, sizes=({'n': 3}, {'n': 4}) if which == 'displacement' else ({'n': 3},))))(integrals(wall, which))
contract('C20', 'Clauser thickness', [MOD + 'get_clauser_thickness'], **ONLY('square root of a constant'))(clauser(True))
for u in (('m', 'm/s'), ('mm', 'm/s'), ('m', 'mm/s')):
    contract('C20', 'wall shear stress (%s, %s)' % u, [MOD + 'get_shear_stress'], sizes=({'n': 2}, {'n': 3}))(shear(u))
contract('C20', 'wall shear stress, linear law', [MOD + 'get_shear_stress'], **BND)(shear_lin)
contract('C20', 'wall shear stress, invalid arguments', [MOD + 'get_shear_stress'], sizes=({'n': 2}, {'n': 3}))(shear_bad)
for fn in ('get_bl_thickness', 'get_displ_thickness', 'get_momentum_thickness', 'get_shape_factor', 'get_shear_stress', 'get_clauser_thickness'):
    for d in (1, 2):
        contract('C20', '%s of a field, direction %d' % (fn, d), [MOD + fn], **ONLY('one lookup per node of every line'))(of_field(fn, d))
for tb in ('laminar', 'mixed', 'turbulent'):
    contract('C20', 'Blasius properties, ' + tb, [MOD + 'BlasiusBL.get_BL_properties'], **ONLY('fractional powers'))(blasius(tb))
for k in ('WallLaw', 'WakeLaw'):
    contract('C20', k + ' profile', [MOD + k + '.get_profile'], **ONLY('logarithms'))(wall_law(k))
