"""C18: synthetic vortex flows: analytical profiles, superposition, walls, advection."""
from vc.spec import contract

VF = 'Vortex.get_vector_field'
# name, class, sampled-only
KINDS = ('SolidVortex', 'FreeVortex', 'LambOseenVortex', 'RankineVortex', 'BurgerVortex', 'PersoVortex')
TANG = ('SolidVortex', 'FreeVortex', 'LambOseenVortex', 'RankineVortex')


def vm(S):
    return S.mod('IMTreatment.vortex_creation.vortex_creation')


def abstract(S, tag, movable):
    """Stands for any axisymmetric vortex: velocity A(r^2) d + s B(r^2) d', d the vector from the centre, d' its quarter
    turn, s the rotation sense; A and B arbitrary.  Every kind in KINDS is proved to be of this form (contracts
    'analytical profile' and 'mirrored copy')."""
    a, b = S.ufun(tag + '.A'), S.ufun(tag + '.B')

    class AnyVortex(vm(S).Vortex):
        def get_vector(self, x, y):
            dx, dy = x - self.x0, y - self.y0
            q = dx * dx + dy * dy
            return a(q) * dx - self.rot_dir * b(q) * dy, a(q) * dy + self.rot_dir * b(q) * dx
    x0, y0 = S.real(tag + '.x0'), S.real(tag + '.y0')
    return AnyVortex(x0, y0, movable), (x0, y0, None, (a, b, 1))


def make(S, kind, tag, movable=True):
    """A vortex of the given kind and its radial and tangential profiles (functions of a positive distance)."""
    M = vm(S)
    if kind == 'any':
        if S.symbolic:
            return abstract(S, tag, movable)
        kind = S.choice(tag + '.kind', KINDS)
    x0, y0 = S.real(tag + '.x0'), S.real(tag + '.y0')
    k = S.real(tag + '.k')
    zero = lambda r: 0.0
    if kind == 'SolidVortex':
        o = M.SolidVortex(x0, y0, omega=k, movable=movable)
        vr, vp = zero, lambda r: k * r
    elif kind == 'FreeVortex':
        o = M.FreeVortex(x0, y0, gamma=k, movable=movable)
        vr, vp = zero, lambda r: S.div(k, 2 * S.pi() * r)
    elif kind == 'LambOseenVortex':
        t, nu = S.real(tag + '.t', pos=True), S.real(tag + '.nu', pos=True)
        o = M.LambOseenVortex(x0, y0, ksi=k, t=t, viscosity=nu, movable=movable)
        vr, vp = zero, lambda r: S.div(k, 2 * S.pi() * r) * (1 - S.exp(S.div(-(r * r), 4 * nu * t)))
    elif kind == 'RankineVortex':
        rv = S.real(tag + '.rv', pos=True)
        o = M.RankineVortex(x0, y0, circ=k, rv=rv, movable=movable)
        vr = zero
        vp = lambda r: S.ite(S.le(r, rv), lambda: S.div(k * r, 2 * S.pi() * (rv * rv)), lambda: S.div(k, 2 * S.pi() * r))
    elif kind == 'BurgerVortex':
        al, nu = S.real(tag + '.al', pos=True), S.real(tag + '.nu', pos=True)
        o = M.BurgerVortex(x0, y0, alpha=al, ksi=k, viscosity=nu, movable=movable)
        vr = lambda r: -(al / 2) * r
        vp = lambda r: S.div(k, 2 * S.pi() * r) * (1 - S.exp(S.div(-al, 4 * nu) * (r * r)))
    elif kind == 'PersoVortex':
        R, nu, nr = S.real(tag + '.R', pos=True), S.real(tag + '.nu', pos=True), S.real(tag + '.nr')
        o = M.PersoVortex(x0, y0, radius=R, circ=k, node_ratio=nr, nu=nu, movable=movable)
        # half of the circulation within half of the radius
        al = lambda: S.div(16 * S.np.log(2) * nu, R * R)
        vp = lambda r: S.div(k, 2 * S.pi() * r) * (1 - S.exp(S.div(-al(), 4 * nu) * (r * r)))
        vr = lambda r: -abs(vp(r)) * nr
    elif kind == 'HillVortex':
        o = M.HillVortex(x0, y0, U=k, rv=S.real(tag + '.rv', pos=True), rot_dir=S.choice(tag + '.rd', [1, -1]), movable=movable)
        vr = vp = None
    return o, (x0, y0, vr, vp)


def rad(S, d, x, y):
    dx, dy = x - d[0], y - d[1]
    return dx, dy, S.sqrt(dx * dx + dy * dy)


def at(S, d, x, y):
    """Expected velocity at (x, y)."""
    if isinstance(d[3], tuple):
        a, b, s = d[3]
        dx, dy = x - d[0], y - d[1]
        q = dx * dx + dy * dy
        return a(q) * dx - s * b(q) * dy, a(q) * dy + s * b(q) * dx
    dx, dy, r = rad(S, d, x, y)
    z = S.eq(r, 0.0)
    vr, vp = (lambda: d[2](r)), (lambda: d[3](r))
    return (S.ite(z, 0.0, lambda: S.div(vr() * dx - vp() * dy, r)), S.ite(z, 0.0, lambda: S.div(vr() * dy + vp() * dx, r)))


def point(S, tag='p', near=()):
    """An evaluation point, sometimes aligned with a vortex or on it."""
    x, y = S.real(tag + '.x'), S.real(tag + '.y')
    if not S.symbolic and near:
        c = S.rng.random()
        if c < .2:
            x = near[0]
        elif c < .4:
            y = near[1]
        elif c < .5:
            x, y = near[0], near[1]
    return x, y


def analytic(kind):
    def f(S):
        o, d = make(S, kind, 'v')
        x, y = point(S, near=d)
        V = S.run('get_vector', o.get_vector, x, y)
        e = at(S, d, x, y)
        dx, dy, r = rad(S, d, x, y)
        if S.split(S.eq(r, 0.0)):
            S.check('zero at the centre', S.And(S.eq(V[0], 0.0), S.eq(V[1], 0.0)))
        else:
            vr, vp = d[2](r), d[3](r)
            S.check('radial velocity', S.eq(V[0] * dx + V[1] * dy, vr * r))
            S.check('tangential velocity', S.eq(V[1] * dx - V[0] * dy, vp * r))
        S.check('the vortex stays where it is', S.And(S.eq(o.x0, d[0]), S.eq(o.y0, d[1])))
    return f


for k in KINDS:
    contract('C18', '%s: analytical profile' % k, ['%s.__init__' % k, '%s.get_vector' % k, 'Vortex._get_r', 'Vortex._get_theta', 'Vortex._cyl_to_cart'],
             sizes=(), con_runs=120)(analytic(k))


# ---- sign and copies
def opposite(kind):
    def f(S):
        o, d = make(S, kind, 'v')
        x, y = point(S, near=d)
        c = S.run('symetrize', o.symetrize)
        S.must('a vortex of the same kind', type(c) is type(o) and c is not o)
        V, W = S.run('get_vector', o.get_vector, x, y), S.run('get_vector of the mirrored vortex', c.get_vector, x, y)
        dx, dy, r = rad(S, d, x, y)
        S.check('opposite rotation', S.eq(W[1] * dx - W[0] * dy, -(V[1] * dx - V[0] * dy)))
        S.check('same radial velocity', S.eq(W[0] * dx + W[1] * dy, V[0] * dx + V[1] * dy))
        b = S.run('copy', o.copy)
        B = S.run('get_vector of the copy', b.get_vector, x, y)
        S.check('a copy gives the same velocity', S.And(S.eq(B[0], V[0]), S.eq(B[1], V[1])))
        b.x0 = d[0] + 1.0
        S.check('moving a copy leaves the original', S.eq(o.x0, d[0]))
    return f


def hill(rd):
    def f(S):
        M = vm(S)
        x0, y0, U, rv = S.real('x0'), S.real('y0'), S.real('U'), S.real('rv', pos=True)
        o = M.HillVortex(x0, y0, U=U, rv=rv, rot_dir=rd)
        x, y = point(S, near=(x0, y0))
        V = S.run('get_vector', o.get_vector, x, y)
        dx, dy, r = rad(S, (x0, y0), x, y)
        if S.split(S.eq(r, 0.0)):
            S.check('zero at the centre', S.And(S.eq(V[0], 0.0), S.eq(V[1], 0.0)))
        else:
            q = S.div(r * r, rv * rv)
            S.check('radial velocity', S.eq((V[0] * dx + V[1] * dy) * r, -1.5 * U * (1 - q) * dx * dy * r * rd))
            S.check('tangential velocity', S.eq(V[1] * dx - V[0] * dy, 1.5 * U * dy * dy * (1 - 2 * q) * rd))
    return f


for k in KINDS:
    contract('C18', '%s: mirrored copy' % k, ['Vortex.symetrize', 'Vortex.copy', '%s.get_vector' % k], sizes=(), con_runs=60)(opposite(k))
for rd in (1, -1):
    contract('C18', 'HillVortex: analytical profile, rotation %+d' % rd, ['HillVortex.__init__', 'HillVortex.get_vector'], sizes=(), con_runs=120)(hill(rd))


def chaplygin(S):
    from scipy.special import jn, jn_zeros
    x0, y0, U, rv = S.real('x0'), S.real('y0'), S.real('U'), S.real('rv', pos=True)
    n = S.choice('n', [1, 2, 3])
    o = vm(S).LambChaplyginVortex(x0, y0, U=U, rv=rv, Bessel_root_nmb=n)
    x, y = point(S, near=(x0, y0))
    dx, dy, r = rad(S, (x0, y0), x, y)
    S.assume(r > 0)
    V = S.run('get_vector', o.get_vector, x, y)
    k = jn_zeros(1, n)[-1] / rv
    ct, st = dx / r, dy / r
    if r < rv:
        vr = -2 * U / (k * jn(0, k * rv)) * jn(1, k * r) / r * ct
        vp = 2 * U / jn(0, k * rv) * (jn(0, k * r) - jn(2, k * r)) / 2 * st
        S.check('radial velocity inside', S.eq(V[0] * ct + V[1] * st, vr))
        S.check('tangential velocity inside', S.eq(V[1] * ct - V[0] * st, vp))
    else:
        # uniform flow around a cylinder of radius rv
        S.check('tangential velocity outside', S.eq(V[1] * ct - V[0] * st, U * (1 + rv ** 2 / r ** 2) * st))


contract('C18', 'LambChaplyginVortex: analytical profile', ['LambChaplyginVortex.get_vector'], sizes=(), unbounded=False, con_runs=120,
         why_bounded='Bessel functions: sampled')(chaplygin)


# ---- walls
def mirror(axis):
    def f(S):
        w, a, b = S.real('w'), S.real('a'), S.real('b')
        W = S.run('Wall', vm(S).Wall, **{axis: w})
        p = S.run('get_symmetry', W.get_symmetry, [a, b])
        e = (2 * w - a, b) if axis == 'x' else (a, 2 * w - b)
        S.check('mirror image of the point', S.And(S.eq(p[0], e[0]), S.eq(p[1], e[1])))
        q = S.run('get_symmetry', W.get_symmetry, list(p))
        S.check('twice gives the point back', S.And(S.eq(q[0], a), S.eq(q[1], b)))
    return f


def badwall(S):
    M = vm(S)
    w = S.real('w')
    S.check('a wall needs one position', S.call(M.Wall).raised(ValueError))
    S.check('and only one', S.call(M.Wall, x=w, y=w).raised(ValueError))


for a in 'xy':
    contract('C18', 'mirror image in a wall along %s' % a, ['Wall.__init__', 'Wall.get_symmetry'], sizes=(), con_runs=40)(mirror(a))
contract('C18', 'malformed walls', ['Wall.__init__'], sizes=(), con_runs=4)(badwall)


def system(S, kinds, walls=(), ncf=0, movable=True, late=False):
    """A system with the given vortices, walls (axis names) and custom fields, its description and the expected contributions."""
    M = vm(S)
    vs = S.run('VortexSystem', M.VortexSystem)
    ws = [(a, S.real('w%d' % i)) for i, a in enumerate(walls)]
    ds = []
    if not late:
        for a, w in ws:
            vs.add_wall(M.Wall(**{a: w}))
    for i, k in enumerate(kinds):
        o, d = make(S, k, 'v%d' % i, movable)
        S.run('add_vortex', vs.add_vortex, o)
        ds.append(d)
        if late and i == 0:
            # evaluated before the walls and the other vortices are there
            S.run('get_vector', vs.get_vector, d[0] + 1.0, d[1])
    if late:
        for a, w in ws:
            vs.add_wall(M.Wall(**{a: w}))
    cfs = []
    for i in range(ncf):
        c = [S.real('c%d.%d' % (i, k)) for k in range(4)]
        fn = lambda x, y, c=c: (c[0] + c[1] * x, c[2] + c[3] * y)
        S.run('add_custom_field', vs.add_custom_field, M.CustomField(fn, unit_values='m/s'))
        cfs.append(fn)
    return vs, ds, ws, cfs


def images(d, ws):
    """The vortex and its images: (centre, rotation sign) through each wall, and through the walls in turn."""
    out = []
    for a, w in ws:
        new = []
        for e in out + [d]:
            x, y = e[0], e[1]
            x, y = (2 * w - x, y) if a == 'x' else (x, 2 * w - y)
            new.append((x, y, e[2], e[3][:2] + (-e[3][2],) if isinstance(e[3], tuple) else lambda r, g=e[3]: -g(r)))
        out = out + new
    return out


def total(S, dd, x, y):
    sx, sy = 0.0, 0.0
    for d in dd:
        a, b = at(S, d, x, y)
        sx, sy = sx + a, sy + b
    return sx, sy


def cfsum(cfs, x, y):
    sx, sy = 0.0, 0.0
    for f in cfs:
        a, b = f(x, y)
        sx, sy = sx + a, sy + b
    return sx, sy


def off(S, dd, x, y):
    """The point is no vortex centre."""
    for d in dd:
        S.assume(S.Not(S.And(S.eq(x, d[0]), S.eq(y, d[1]))))


def vec(S, label, V, e):
    S.check(label + ', x', S.eq(V[0], e[0]))
    S.check(label + ', y', S.eq(V[1], e[1]))


def superpose(kinds, walls=(), ncf=0, late=False):
    def f(S):
        vs, ds, ws, cfs = system(S, kinds, walls, ncf, late=late)
        x, y = point(S)
        V = S.run('get_vector', vs.get_vector, x, y)
        per = [total(S, [d] + images(d, ws), x, y) for d in ds]
        cf = cfsum(cfs, x, y)
        vec(S, 'sum of the vortices, their images and the custom fields', V,
            (sum([p[0] for p in per], cf[0]), sum([p[1] for p in per], cf[1])))
        for i, p in enumerate(per):
            vec(S, 'vortex %d and its images alone' % i, S.run('get_vector', vs.get_vector, x, y, vortex_ids=[i], cf_ids='none'), p)
        vec(S, 'custom fields alone', S.run('get_vector', vs.get_vector, x, y, vortex_ids='none'), cf)
    return f


def compounded(kinds, walls, ncf, detailed):
    def f(S):
        vs, ds, ws, cfs = system(S, kinds, walls, ncf)
        x, y = point(S)
        vv, vi, cv, ci = S.run('get_compounded_vector', vs.get_compounded_vector, x, y, detailed=detailed)
        n = len(ds)
        m = n * (1 + len(images(ds[0], ws))) if detailed else n
        S.must('one vector per contribution', len(vv) == m and len(vi) == m and len(cv) == ncf and len(ci) == ncf)
        for i, d in enumerate(ds):
            e = total(S, [d] + images(d, ws), x, y)
            mine = [v for v, k in zip(vv, vi) if int(k) == i]
            S.must('contributions of vortex %d' % i, len(mine) == m // n)
            vec(S, 'contribution of vortex %d' % i, (sum([v[0] for v in mine], 0.0), sum([v[1] for v in mine], 0.0)), e)
        for i, fn in enumerate(cfs):
            e = fn(x, y)
            mine = [v for v, k in zip(cv, ci) if int(k) == i]
            S.must('contribution of custom field %d' % i, len(mine) == 1)
            vec(S, 'contribution of custom field %d' % i, mine[0], e)
    return f


def impermeable(kinds, walls, on):
    """No velocity through wall number `on`."""
    def f(S):
        vs, ds, ws, _ = system(S, kinds, walls)
        a, w = ws[on]
        t = S.real('t')
        V = S.run('get_vector', vs.get_vector, *((w, t) if a == 'x' else (t, w)))
        S.check('no velocity through the wall', S.eq(V[0 if a == 'x' else 1], 0.0))
    return f


SYS = ['VortexSystem.add_vortex', 'VortexSystem.add_wall', 'VortexSystem.get_vector', 'VortexSystem.refresh_imaginary_vortex', 'Wall.get_symmetry', 'Vortex.symetrize']
NB = 'number of vortices, walls and custom fields fixed by the contract'
for nv, walls, ncf in ((0, '', 1), (1, '', 0), (2, '', 1), (1, 'x', 1), (1, 'y', 0), (2, 'x', 2), (1, 'xy', 1), (2, 'yx', 1), (1, 'xx', 0), (3, 'y', 0), (1, 'xyx', 0), (3, 'xy', 2)):
    for late in (False, True):
        if late and not walls:
            continue
        contract('C18', 'superposition of %d vortices, walls %s, %d custom%s' % (nv, walls or 'none', ncf, ', walls added later' if late else ''),
                 SYS + ['VortexSystem.add_custom_field', 'CustomField.get_vector'], sizes=(), con_runs=60, why_bounded=NB)(superpose(('any',) * nv, walls, ncf, late))
for nv, walls, ncf in ((1, '', 1), (2, 'x', 2), (1, 'xy', 0), (2, 'y', 1), (3, 'yx', 1)):
    for det in (False, True):
        contract('C18', 'contributions of %d vortices, walls %s, %s' % (nv, walls or 'none', 'detailed' if det else 'per vortex'),
                 ['VortexSystem.get_compounded_vector'] + SYS, sizes=(), con_runs=40, why_bounded=NB)(compounded(('any',) * nv, walls, ncf, det))
for nv in (1, 2, 3):
    for walls, on in (('x', 0), ('y', 0), ('xy', 0), ('xy', 1), ('yx', 0), ('yx', 1)):
        contract('C18', 'no velocity through wall %d of %s, %d vortices' % (on, walls, nv), SYS, sizes=(), con_runs=40, why_bounded=NB)(impermeable(('any',) * nv, walls, on))
for k in KINDS + ('HillVortex',):
    for a in 'xy':
        contract('C18', 'wall along %s with a %s' % (a, k), SYS + ['%s.get_vector' % k], sizes=(), con_runs=20)(impermeable((k,), (a,), 0))


# ---- removing, moving
def remove(kinds, ind, walls, seen):
    def f(S):
        vs, ds, ws, cfs = system(S, kinds, walls, 1)
        x, y = point(S)
        if seen:
            S.run('get_vector', vs.get_vector, x, y)
        S.run('remove_vortex', vs.remove_vortex, ind)
        k = ind if ind >= 0 else len(kinds) + ind
        rest = ds[:k] + ds[k + 1:]
        per = [total(S, [d] + images(d, ws), x, y) for d in rest]
        cf = cfsum(cfs, x, y)
        V = S.run('get_vector', vs.get_vector, x, y)
        vec(S, 'field of the remaining vortices', V, (sum([p[0] for p in per], cf[0]), sum([p[1] for p in per], cf[1])))
        S.check('number of vortices', S.And(len(vs.vortex) == len(rest), vs.nmb_vortex == len(rest)))
        for i, p in enumerate(per):
            vec(S, 'vortex %d alone' % i, S.run('get_vector', vs.get_vector, x, y, vortex_ids=[i], cf_ids='none'), p)
        # a vortex added afterwards
        o, d = make(S, 'any', 'n')
        S.run('add_vortex', vs.add_vortex, o)
        V = S.run('get_vector', vs.get_vector, x, y)
        e = total(S, [d] + images(d, ws), x, y)
        vec(S, 'field after adding another', V, (sum([p[0] for p in per + [e]], cf[0]), sum([p[1] for p in per + [e]], cf[1])))
    return f


for nv, ind in ((1, 0), (2, 0), (2, -1), (3, 1), (3, -3)):
    for seen in (False, True):
        contract('C18', 'removing vortex %d of %d%s' % (ind, nv, ', once evaluated' if seen else ''), ['VortexSystem.remove_vortex'] + SYS, sizes=(),
                 con_runs=30, why_bounded=NB)(remove(('any',) * nv, ind, 'y', seen))


def adding_copies(S):
    """The system keeps copies of the vortices and custom fields it is given."""
    M = vm(S)
    x, y = point(S)
    o, d = make(S, 'any', 'v')
    c = [S.real('c%d' % k) for k in range(4)]
    fn = lambda x, y: (c[0] + c[1] * x, c[2] + c[3] * y)
    cf = M.CustomField(fn, unit_values='m/s')
    a, b = M.VortexSystem(), M.VortexSystem()
    b.add_custom_field(M.CustomField(lambda x, y: (0.0, 0.0), unit_values='m/s'))
    p, _ = make(S, 'any', 'w')
    b.add_vortex(p)
    for s in (a, b):
        S.run('add_vortex', s.add_vortex, o)
        S.run('add_custom_field', s.add_custom_field, cf)
    o.x0 = d[0] + 1.0
    V = S.run('get_vector', a.get_vector, x, y)
    e, g = at(S, d, x, y), fn(x, y)
    vec(S, 'field of the first system', V, (e[0] + g[0], e[1] + g[1]))


contract('C18', 'the same vortex and field in two systems', ['VortexSystem.add_vortex', 'VortexSystem.add_custom_field', 'Vortex.copy'], sizes=(), con_runs=40)(adding_copies)


def evolution(kinds, walls, fixed):
    def f(S):
        vs, ds, ws, cfs = system(S, kinds, walls, 1, movable=True)
        if fixed is not None:
            vs.vortex[fixed].movable = False
        dt = S.real('dt', pos=True)
        new = S.run('get_evolution', vs.get_evolution, dt=dt)
        nd = []
        for i, d in enumerate(ds):
            x, y = d[0], d[1]
            per = [total(S, [e] + images(e, ws), x, y) for e in ds]
            cf = cfsum(cfs, x, y)
            vx, vy = sum([p[0] for p in per], cf[0]), sum([p[1] for p in per], cf[1])
            if i == fixed:
                vx, vy = 0.0, 0.0
            S.check('new position of vortex %d' % i, S.And(S.eq(new.vortex[i].x0, x + dt * vx), S.eq(new.vortex[i].y0, y + dt * vy)))
            S.check('vortex %d of the system given' % i, S.And(S.eq(vs.vortex[i].x0, x), S.eq(vs.vortex[i].y0, y)))
            nd.append((new.vortex[i].x0, new.vortex[i].y0, d[2], d[3]))
        x, y = point(S)
        per = [total(S, [e] + images(e, ws), x, y) for e in nd]
        cf = cfsum(cfs, x, y)
        vec(S, 'field of the new system', S.run('get_vector', new.get_vector, x, y), (sum([p[0] for p in per], cf[0]), sum([p[1] for p in per], cf[1])))
        per = [total(S, [e] + images(e, ws), x, y) for e in ds]
        vec(S, 'field of the system given', S.run('get_vector', vs.get_vector, x, y), (sum([p[0] for p in per], cf[0]), sum([p[1] for p in per], cf[1])))
    return f


for nv, walls, fixed in ((1, '', None), (2, '', None), (2, 'y', 0), (2, 'y', None), (1, 'xy', None), (3, 'x', 1)):
    contract('C18', 'evolution of %d vortices, walls %s%s' % (nv, walls or 'none', ', one fixed' if fixed is not None else ''),
             ['VortexSystem.get_evolution', 'VortexSystem.copy'] + SYS, sizes=(), con_runs=40, why_bounded=NB)(evolution(('any',) * nv, walls, fixed))


# ---- fields
def grid_is(S, label, r, x, y, nx, ny, val, ux, uy):
    S.must(label + ': a vector field', S.isinst(r, S.core.VectorField))
    S.wellformed(label, r, nx, ny)
    S.check_all(label + ': x', (nx,), lambda i: S.eq(S.el(r.axe_x, i), S.el(x, i)))
    S.check_all(label + ': y', (ny,), lambda j: S.eq(S.el(r.axe_y, j), S.el(y, j)))

    def ok(i, j):
        e = val(S.el(x, i), S.el(y, j))
        return S.And(S.Not(S.el(r.mask, i, j)), S.eq(S.el(r.comp_x, i, j), e[0]), S.eq(S.el(r.comp_y, i, j), e[1]))
    S.check_all(label + ': velocity at every node', (nx, ny), ok)
    S.check(label + ': units', S.And(S.ueq(r.unit_x, S.make_unit(ux)), S.ueq(r.unit_y, S.make_unit(uy)), S.ueq(r.unit_values, S.make_unit('m/s'))))


def field(kind):
    def f(S):
        o, d = make(S, kind, 'v')
        nx, ny = S.n('nx'), S.n('ny')
        x, y = S.axis('x', nx), S.axis('y', ny)
        r = S.run('get_vector_field', o.get_vector_field, x, y, unit_x='m', unit_y='mm')
        grid_is(S, 'field', r, x, y, nx, ny, lambda a, b: at(S, d, a, b), 'm', 'mm')
    return f


def sysfield(kinds, walls, ncf):
    def f(S):
        vs, ds, ws, cfs = system(S, kinds, walls, ncf)
        nx, ny = S.n('nx'), S.n('ny')
        x, y = S.axis('x', nx), S.axis('y', ny)
        r = S.run('get_vector_field', vs.get_vector_field, x, y, unit_x='m', unit_y='mm')

        def val(a, b):
            per = [total(S, [e] + images(e, ws), a, b) for e in ds]
            cf = cfsum(cfs, a, b)
            return sum([p[0] for p in per], cf[0]), sum([p[1] for p in per], cf[1])
        grid_is(S, 'field', r, x, y, nx, ny, val, 'm', 'mm')
    return f


LB = 'loop over the nodes: unrolled for the listed grids'
for k in ('any',) + KINDS:
    contract('C18', 'field of a %s' % k, ['Vortex.get_vector_field'] + ([] if k == 'any' else ['%s.get_vector' % k]),
             sizes=({'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2}) if k == 'any' else (), unbounded=False, con_runs=30, why_bounded=LB)(field(k))
for nv, walls, ncf in ((1, 'x', 1), (2, '', 1), (2, 'xy', 2)):
    contract('C18', 'field of a system of %d vortices, walls %s' % (nv, walls or 'none'), ['VortexSystem.get_vector_field', 'CustomField.get_vector_field'] + SYS,
             sizes=({'nx': 2, 'ny': 3},), unbounded=False, con_runs=30, why_bounded=LB)(sysfield(('any',) * nv, walls, ncf))


def series(S):
    vs, ds, ws, cfs = system(S, ('any', 'any'), ('y',), 1)
    dt = S.real('dt', pos=True)
    nx, ny = S.n('nx'), S.n('ny')
    x, y = S.axis('x', nx), S.axis('y', ny)
    K = S.choice('K', [0, 1, 2])
    r = S.run('get_temporal_vector_field', vs.get_temporal_vector_field, dt, x, y, K, unit_x='m', unit_y='m', unit_time='s')
    p = S.run('get_vortex_evolution', vs.get_vortex_evolution, dt, K, unit_time='s')
    S.must('one field per step', len(r.fields) == K + 1 and len(r.times) == K + 1)
    S.must('one track per vortex', len(p) == len(ds) and all(len(q.xy) == K + 1 for q in p))
    cur = list(ds)
    for k in range(K + 1):
        S.check('time of step %d' % k, S.eq(r.times[k], dt * k))

        def val(a, b, cur=tuple(cur)):
            per = [total(S, [e] + images(e, ws), a, b) for e in cur]
            cf = cfsum(cfs, a, b)
            return sum([q[0] for q in per], cf[0]), sum([q[1] for q in per], cf[1])
        grid_is(S, 'field of step %d' % k, r.fields[k], x, y, nx, ny, val, 'm', 'm')
        for i, c in enumerate(cur):
            S.check('track of vortex %d at step %d' % (i, k), S.And(S.eq(p[i].xy[k][0], c[0]), S.eq(p[i].xy[k][1], c[1]), S.eq(p[i].v[k], dt * k)))
        nxt = []
        for c in cur:
            v = val(c[0], c[1])
            nxt.append((c[0] + dt * v[0], c[1] + dt * v[1], c[2], c[3]))
        cur = nxt


def velmap(S):
    vs, ds, ws, cfs = system(S, ('any', 'any'), ('y',), 1)
    o, d = make(S, 'any', 'm')
    nx, ny = S.n('nx'), S.n('ny')
    x, y = S.axis('x', nx), S.axis('y', ny)
    r = S.run('get_velocity_map', vs.get_velocity_map, x, y, o)

    def val(a, b):
        dd = ds + [(a, b, d[2], d[3])]
        per = [total(S, [e] + images(e, ws), a, b) for e in dd]
        cf = cfsum(cfs, a, b)
        return sum([q[0] for q in per], cf[0]), sum([q[1] for q in per], cf[1])
    grid_is(S, 'map', r, x, y, nx, ny, val, 'm', 'm')
    S.check('vortex given', S.And(S.eq(o.x0, d[0]), S.eq(o.y0, d[1])))
    S.check('system given', len(vs.vortex) == 2)


contract('C18', 'fields and tracks over time', ['VortexSystem.get_temporal_vector_field', 'VortexSystem.get_vortex_evolution', 'VortexSystem.get_evolution'], sizes=({'nx': 2, 'ny': 2},), unbounded=False,
         con_runs=30, why_bounded='number of steps, vortices and nodes fixed')(series)
contract('C18', 'velocity map of a vortex', ['VortexSystem.get_velocity_map', 'VortexSystem.remove_vortex'], sizes=({'nx': 2, 'ny': 2},), unbounded=False, con_runs=30, why_bounded=LB)(velmap)


def custom_holes(S):
    """A custom field undefined (NaN, in one component or both) at some nodes: these, and only these, are masked."""
    M, np = vm(S), S.mod('numpy')
    nan = float('nan')
    ax = [float(k) for k in range(S.choice('nx', [2, 3]))]
    ay = [float(k) for k in range(S.choice('ny', [2, 3]))]
    holes = {(x, y): S.choice('hole %g %g' % (x, y), [(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)]) for x in ax for y in ay if (x, y) != (1.0, 1.0)}

    def fn(x, y):
        h = holes.get((float(x), float(y)), (0, 0))
        return (nan if h[0] else 2.0 * x - y, nan if h[1] else x * y + 1.0)
    r = S.run('get_vector_field', M.CustomField(fn, unit_values='m/s').get_vector_field, np.array(ax), np.array(ay), unit_x='m', unit_y='m')
    for i, x in enumerate(ax):
        for j, y in enumerate(ay):
            h = holes.get((x, y), (0, 0))
            S.check('masked exactly where undefined', bool(r.mask[i, j]) == bool(h[0] or h[1]))
            if not (h[0] or h[1]):
                S.check('velocity of the function', S.And(S.eq(float(r.comp_x[i, j]), 2.0 * x - y), S.eq(float(r.comp_y[i, j]), x * y + 1.0)))


contract('C18', 'custom field with undefined nodes', ['CustomField.get_vector_field'], unbounded=False, sizes=(),
         why_bounded='function given by the caller, evaluated node by node: sampled only')(custom_holes)
