"""C15: temporal statistics honour masks and definitions at every node."""
import itertools

from vc.spec import contract
from .common import mk, same_as_ghost, node_map
from .tcommon import field_is, fields_are, frame_is, set_is, axes_agree

BK = 'number of time steps fixed, every grid size, value, mask and time'


def ms(S, g, i, j, ks=None):
    return [S.gm(g.f[k], i, j) for k in (range(g.K) if ks is None else ks)]


def by_pattern(S, masks, f):
    """f(list of unmasked steps) selected by the actual mask pattern."""
    K = len(masks)
    out = f([])
    for pat in itertools.product((False, True), repeat=K):
        if not any(pat):
            continue
        c = S.And(*[S.Not(m) if p else m for p, m in zip(pat, masks)])
        out = S.ite(c, f([k for k in range(K) if pat[k]]), out)
    return out


def few(S, masks, n):
    """The node is unmasked fewer than max(n, 1) times."""
    K = len(masks)
    n = max(n, 1)
    return S.And(*[S.Or(*[masks[k] for k in ks]) for ks in itertools.combinations(range(K), n)]) if n <= K else S.true()


def mean_at(S, g, c, i, j):
    vs = [S.el(S.gcomps(h)[c], i, j) for h in g.f]
    return by_pattern(S, ms(S, g, i, j), lambda ks: sum([vs[k] for k in ks], 0.0) * (1.0 / max(len(ks), 1)))


def ext_at(S, g, i, j, less):
    vs = [S.el(h.v, i, j) for h in g.f]

    def f(ks):
        if not ks:
            return 0.0
        r = vs[ks[0]]
        for k in ks[1:]:
            r = S.ite(S.lt(vs[k], r) if less else S.lt(r, vs[k]), vs[k], r)
        return r
    return by_pattern(S, ms(S, g, i, j), f)


def ax(S, g):
    return lambda i: S.el(g.x, i), lambda j: S.el(g.y, j)


def is_field(S, f, g, masked, vals, uv, label):
    X, Y = ax(S, g)
    node_map(S, f, g.nx, g.ny, X, Y, masked, vals, g.ux, g.uy, uv, label)


def mean(kind, K, n):
    def f(S):
        o, g = S.tf(kind, K, nan=True)
        a = () if n is None else (n,)
        r = S.run('get_mean_field', o.get_mean_field, *a)
        is_field(S, r, g, lambda i, j: few(S, ms(S, g, i, j), n or 1),
                 lambda i, j: [mean_at(S, g, c, i, j) for c in range(len(S.gcomps(g.f[0])))], g.uv, 'mean field')
        set_is(S, o, g, label='set')
    return f


def ext(K, n, name):
    def f(S):
        o, g = S.tf('sf', K)
        r = S.run(name, getattr(o, name), n)
        is_field(S, r, g, lambda i, j: few(S, ms(S, g, i, j), n), lambda i, j: [ext_at(S, g, i, j, name == 'get_min_field')], g.uv, 'extremum field')
        set_is(S, o, g, label='set')
    return f


def fluct(kind, K, n):
    def f(S):
        o, g = S.tf(kind, K)
        r = S.run('get_fluctuant_fields', o.get_fluctuant_fields, n)
        frame_is(S, r, K, g.t, g.tu, 'fluctuations')
        for k in range(K):
            is_field(S, r.fields[k], g, lambda i, j, k=k: S.Or(S.gm(g.f[k], i, j), few(S, ms(S, g, i, j), n)),
                     lambda i, j, k=k: [S.el(v, i, j) - mean_at(S, g, c, i, j) for c, v in enumerate(S.gcomps(g.f[k]))], g.uv, 'fluctuation %d' % k)
        set_is(S, o, g, label='set')
    return f


def tke_at(S, g, k, i, j):
    a = S.el(g.f[k].vx, i, j) - mean_at(S, g, 0, i, j)
    b = S.el(g.f[k].vy, i, j) - mean_at(S, g, 1, i, j)
    return 0.5 * (a * a + b * b)


def half2(S, d, i, j):
    a, b = S.el(d.comp_x, i, j), S.el(d.comp_y, i, j)
    return 0.5 * (a * a + b * b)


def tke(K):
    """From the fluctuations (their own contract gives them from the data)."""
    def f(S):
        o, g = S.tf('vf', K)
        r = S.run('get_tke', o.get_tke)
        d = S.run('get_fluctuant_fields', o.get_fluctuant_fields) if K > 2 else None
        S.must('a set of scalar fields', S.isinst(r, S.core.TemporalScalarFields))
        frame_is(S, r, K, g.t, g.tu, 'turbulent kinetic energy')
        for k in range(K):
            is_field(S, r.fields[k], g, lambda i, j, k=k: S.gm(g.f[k], i, j), lambda i, j, k=k: [tke_at(S, g, k, i, j) if d is None else half2(S, d.fields[k], i, j)],
                     g.uv ** 2, 'energy %d' % k)
        set_is(S, o, g, label='set')
    return f


def mean_tke(K):
    """From the energies (their own contract gives them from the data)."""
    def f(S):
        o, g = S.tf('vf', K)
        r = S.run('get_mean_tke', o.get_mean_tke)
        e = S.run('get_tke', o.get_tke)
        is_field(S, r, g, lambda i, j: few(S, ms(S, g, i, j), 1),
                 lambda i, j: [by_pattern(S, ms(S, g, i, j), lambda ks: sum([S.el(e.fields[k].values, i, j) for k in ks], 0.0) * (1.0 / max(len(ks), 1)))],
                 g.uv ** 2, 'mean energy')
        set_is(S, o, g, label='set')
    return f


def mke(K):
    def f(S):
        o, g = S.tf('vf', K)
        r = S.run('get_mean_kinetic_energy', o.get_mean_kinetic_energy)

        def v(i, j):
            a, b = mean_at(S, g, 0, i, j), mean_at(S, g, 1, i, j)
            return [0.5 * (a * a + b * b)]
        is_field(S, r, g, lambda i, j: few(S, ms(S, g, i, j), 1), v, g.uv ** 2, 'energy of the mean')
        set_is(S, o, g, label='set')
    return f


def intensity(K):
    def f(S):
        o, g = S.tf('vf', K)
        r = S.run('get_turbulent_intensity', o.get_turbulent_intensity)
        en = S.run('get_tke', o.get_tke)
        frame_is(S, r, K, g.t, g.tu, 'intensity')
        for k in range(K):
            sq = lambda i, j, k=k: S.el(g.f[k].vx, i, j) ** 2 + S.el(g.f[k].vy, i, j) ** 2
            e = r.fields[k]
            S.check_all('intensity %d: mask' % k, (g.nx, g.ny), lambda i, j: S.iff(S.el(e.mask, i, j), S.Or(S.gm(g.f[k], i, j), S.eq(sq(i, j), 0.0))))
            S.check_all('intensity %d: not negative' % k, (g.nx, g.ny), lambda i, j: S.Or(S.el(e.mask, i, j), S.le(0.0, S.el(e.values, i, j))))
            S.check_all('intensity %d: squared, times the squared velocity, is two thirds of the energy' % k, (g.nx, g.ny), lambda i, j: S.Or(
                S.el(e.mask, i, j), S.eq(S.el(e.values, i, j) ** 2 * sq(i, j) * 1.5, S.el(en.fields[k].values, i, j))))
            S.check('intensity %d: no dimension' % k, S.usame(e.unit_values, S.make_unit('')))
    return f


def reynolds(K, n):
    def f(S):
        o, g = S.tf('vf', K)
        rs = S.run('get_reynolds_stress', o.get_reynolds_stress, *(() if n is None else (n,)))
        S.must('three fields', len(rs) == 3)

        def fl(k, c, i, j):
            return S.el(S.gcomps(g.f[k])[c], i, j) - mean_at(S, g, c, i, j)
        for r, (a, b), nm in zip(rs, ((0, 0), (1, 1), (0, 1)), ('xx', 'yy', 'xy')):
            is_field(S, r, g, lambda i, j: few(S, ms(S, g, i, j), n or 1),
                     lambda i, j: [by_pattern(S, ms(S, g, i, j), lambda ks: sum([fl(k, a, i, j) * fl(k, b, i, j) for k in ks], 0.0) * (1.0 / max(len(ks), 1)))],
                     g.uv ** 2, 'stress ' + nm)
        set_is(S, o, g, label='set')
    return f


COMP = {'values': 0, 'comp_x': 0, 'comp_y': 1}


def prof_at(S, r, g, comp, ks, p, q, label='time profile'):
    S.prof_is(label, r, len(ks), lambda i: pick(S, [g.t[k] for k in ks], i),
              lambda i: pickb(S, [S.gm(g.f[k], p(k), q(k)) for k in ks], i),
              lambda i: pick(S, [S.el(S.gcomps(g.f[k])[COMP[comp]], p(k), q(k)) for k in ks], i), g.tu, g.uv)


def pick(S, vs, i):
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1):
        r = S.ite(S.eqn(i, k), vs[k], r)
    return r


def pickb(S, vs, i):
    r = vs[-1]
    for k in range(len(vs) - 2, -1, -1):
        r = S.ite_b(S.eqn(i, k), vs[k], r)
    return r


def profile_ind(kind, comp, K):
    def f(S):
        o, g = S.tf(kind, K)
        p, q = S.int('p', 0, g.nx - 1), S.int('q', 0, g.ny - 1)
        r = S.run('get_time_profile', o.get_time_profile, comp, [p, q], ind=True)
        prof_at(S, r, g, comp, range(K), lambda k: p, lambda k: q)
        set_is(S, o, g, label='set')
    return f


def profile_node(kind, comp, K):
    def f(S):
        o, g = S.tf(kind, K)
        p, q = S.int('p', 0, g.nx - 1), S.int('q', 0, g.ny - 1)
        r = S.run('get_time_profile', o.get_time_profile, comp, [S.el(g.x, p), S.el(g.y, q)])
        prof_at(S, r, g, comp, range(K), lambda k: p, lambda k: q)
        set_is(S, o, g, label='set')
    return f


def profile_near(kind, comp, K):
    """Between nodes, the nearest node is used (nearest index: contract C10)."""
    def f(S):
        o, g = S.tf(kind, K)
        x, y = S.near('px', [g.x]), S.near('py', [g.y])
        r = S.call(o.get_time_profile, comp, [x, y])
        inside = S.And(S.le(S.el(g.x, 0), x), S.le(x, S.el(g.x, g.nx - 1)), S.le(S.el(g.y, 0), y), S.le(y, S.el(g.y, g.ny - 1)))
        if not S.split(inside):
            S.check('rejected outside the grid', r.raised())
            return
        S.check('accepted', r.ok, r)
        if not r.ok:
            return
        p, q = o.get_indice_on_axe(1, x, kind='nearest'), o.get_indice_on_axe(2, y, kind='nearest')
        S.check_all('nearest column', (g.nx,), lambda i: S.le(S.abs(S.el(g.x, p) - x), S.abs(S.el(g.x, i) - x)))
        S.check_all('nearest row', (g.ny,), lambda i: S.le(S.abs(S.el(g.y, q) - y), S.abs(S.el(g.y, i) - y)))
        prof_at(S, r.value, g, comp, range(K), lambda k: p, lambda k: q)
    return f


def profile_window(kind, comp, K):
    def f(S):
        o, g = S.tf(kind, K)
        p, q = S.int('p', 0, g.nx - 1), S.int('q', 0, g.ny - 1)
        a, b = S.near('wa', [o.times]), S.near('wb', [o.times])
        S.assume(S.lt(a, b))
        w = [a, b]
        ks = [k for k in range(K) if S.split(S.And(S.le(a, g.t[k]), S.le(g.t[k], b)))]
        r = S.call(o.get_time_profile, comp, [p, q], wanted_times=w, ind=True)
        if not ks:
            return
        S.check('accepted', r.ok, r)
        if r.ok:
            prof_at(S, r.value, g, comp, ks, lambda k: p, lambda k: q)
        S.check('window untouched', w[0] is a and w[1] is b)
    return f


def profile_bad(kind, comp):
    def f(S):
        o, g = S.tf(kind, 2)
        p = S.int('p', 0, g.nx - 1)
        for pt in ([p, g.ny], [g.nx, 0], [-1, 0]):
            S.check('indices out of range rejected', S.call(o.get_time_profile, comp, pt, ind=True).raised())
        S.check('reversed window rejected', S.call(o.get_time_profile, comp, [p, 0], wanted_times=[2.0, 1.0], ind=True).raised())
        set_is(S, o, g, label='set')
    return f


def trajectory(kind, comp, which):
    """Along a trajectory, each time uses the position of that time, whatever the order of the points."""
    def f(S):
        K = 3
        o, g = S.tf(kind, K)
        ps = {k: (S.int('p%d' % k, 0, g.nx - 1), S.int('q%d' % k, 0, g.ny - 1)) for k in which}
        P = S.core.Points(unit_x=g.ux, unit_y=g.uy, unit_v=g.tu)
        for k in which:
            P.add([S.el(g.x, ps[k][0]), S.el(g.y, ps[k][1])], g.t[k])
        r = S.run('get_time_profile', o.get_time_profile, comp, P)
        prof_at(S, r, g, comp, sorted(which), lambda k: ps[k][0], lambda k: ps[k][1])
        set_is(S, o, g, label='set')
    return f


def views(kind):
    def f(S):
        K = 2
        o, g = S.tf(kind, K)
        m = o.mask
        S.must('mask: one per field', S.ndim(m) == 3)
        S.check_all('mask', (K, g.nx, g.ny), lambda k, i, j: S.iff(S.el(m, k, i, j), pickb(S, [S.gm(h, i, j) for h in g.f], k)))
        mc = o.mask_cum
        S.check_all('mask at every time', (g.nx, g.ny), lambda i, j: S.iff(S.el(mc, i, j), S.And(*ms(S, g, i, j))))
        names = ['values'] if kind == 'sf' else ['Vx', 'Vy']
        for c, nm in enumerate(names):
            v = getattr(o, nm)
            S.must(nm + ': one per field', S.ndim(v) == 3)
            S.check(nm + ': shape', S.And(S.eqn(S.dim(v, 0), K), S.eqn(S.dim(v, 1), g.nx), S.eqn(S.dim(v, 2), g.ny)))
            for k in range(K):
                S.check_all('%s %d' % (nm, k), (g.nx, g.ny), lambda i, j: S.ite_b(S.gm(g.f[k], i, j), S.isnan(S.el(v, k, i, j)), S.eq(
                    S.el(v, k, i, j), S.el(S.gcomps(g.f[k])[c], i, j))))
                S.check('%s: no data shared with the set' % nm, S.disjoint(v, S.comps(o.fields[k])[c]))
        if kind == 'vf':
            for c, nm in enumerate(('Vx_as_sf', 'Vy_as_sf')):
                t = getattr(o, nm)
                frame_is(S, t, K, g.t, g.tu, nm)
                for k in range(K):
                    is_field(S, t.fields[k], g, lambda i, j: S.gm(g.f[k], i, j), lambda i, j: [S.el(S.gcomps(g.f[k])[c], i, j)], g.uv, '%s %d' % (nm, k))
            sq = lambda k, i, j: S.el(g.f[k].vx, i, j) ** 2 + S.el(g.f[k].vy, i, j) ** 2
            mag = o.magnitude
            t = o.magnitude_as_sf
            frame_is(S, t, K, g.t, g.tu, 'magnitude_as_sf')
            for k in range(K):
                S.check_all('magnitude %d' % k, (g.nx, g.ny), lambda i, j: S.ite_b(S.gm(g.f[k], i, j), S.isnan(S.el(mag, k, i, j)), S.And(
                    S.le(0.0, S.el(mag, k, i, j)), S.eq(S.el(mag, k, i, j) ** 2, sq(k, i, j)))))
                S.check_all('magnitude_as_sf %d' % k, (g.nx, g.ny), lambda i, j: S.iff(S.el(t.fields[k].mask, i, j), S.gm(g.f[k], i, j)))
                S.check_all('magnitude_as_sf %d: values' % k, (g.nx, g.ny), lambda i, j: S.Or(S.gm(g.f[k], i, j), S.And(
                    S.le(0.0, S.el(t.fields[k].values, i, j)), S.eq(S.el(t.fields[k].values, i, j) ** 2, sq(k, i, j)))))
        set_is(S, o, g, label='set')
    return f


for kind in ('sf', 'vf'):
    n_ = {'sf': 'scalar', 'vf': 'vector'}[kind]
    for K, n in ((1, 1), (2, None), (2, 2), (3, 1), (3, 2), (3, 3), (2, 3)):
        contract('C15', '%s: mean of %d fields, at least %s' % (n_, K, n or 'once (default)'), ['TemporalFields.get_mean_field'])(mean(kind, K, n))
    for K, n in ((2, 1), (2, 2), (3, 2)):
        contract('C15', '%s: fluctuations of %d fields, at least %d' % (n_, K, n), ['TemporalFields.get_fluctuant_fields', 'TemporalFields.get_mean_field'])(fluct(kind, K, n))
    comp = 'values' if kind == 'sf' else 'comp_y'
    TP = ['TemporalFields.get_time_profile']
    for nm, mkc in (('indices', profile_ind), ('a node', profile_node), ('the nearest node', profile_near), ('indices in a time window', profile_window)):
        contract('C15', '%s: time profile at %s' % (n_, nm), TP)(mkc(kind, comp, 3))
    contract('C15', '%s: time profile, bad requests' % n_, TP)(profile_bad(kind, comp))
    for which in ((0, 1, 2), (2, 0), (1, 0), (1,)):
        contract('C15', '%s: time profile along a trajectory %s' % (n_, list(which)), TP, budget=60)(trajectory(kind, comp, which))
    contract('C15', '%s: array views' % n_, ['TemporalFields.mask', 'TemporalFields.mask_cum', 'TemporalScalarFields.values', 'TemporalVectorFields.Vx',
                                             'TemporalVectorFields.Vy', 'TemporalVectorFields.magnitude'])(views(kind))
contract('C15', 'vector: time profile of Vx at indices', ['TemporalFields.get_time_profile'])(profile_ind('vf', 'comp_x', 2))
for nm in ('get_min_field', 'get_max_field'):
    for K, n in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)):
        contract('C15', '%s of %d fields, at least %d' % (nm, K, n), ['TemporalScalarFields.' + nm])(ext(K, n, nm))
for K in (1, 2, 3):
    hard = dict(unbounded=False, why_bounded='non-linear obligations', sizes=({'nx': 2, 'ny': 2},)) if K == 3 else {}
    contract('C15', 'turbulent kinetic energy of %d fields' % K, ['TemporalVectorFields.get_tke'], **hard)(tke(K))
    contract('C15', 'mean turbulent kinetic energy of %d fields' % K, ['TemporalVectorFields.get_mean_tke'], **hard)(mean_tke(K))
    contract('C15', 'kinetic energy of the mean of %d fields' % K, ['TemporalVectorFields.get_mean_kinetic_energy'])(mke(K))
contract('C15', 'turbulent intensity of 1 field', ['TemporalVectorFields.get_turbulent_intensity'])(intensity(1))
contract('C15', 'turbulent intensity of 2 fields', ['TemporalVectorFields.get_turbulent_intensity'], unbounded=False,
         why_bounded='non-linear obligations', sizes=({'nx': 2, 'ny': 2},))(intensity(2))
for K, n in ((2, None), (2, 1), (2, 2), (3, 2)):
    contract('C15', 'Reynolds stresses of %d fields, at least %s' % (K, n or 'once (default)'), ['TemporalVectorFields.get_reynolds_stress'],
             unbounded=False, why_bounded='loops over the nodes', sizes=({'nx': 1, 'ny': 2}, {'nx': 2, 'ny': 1}) if K == 2 else ({'nx': 1, 'ny': 1},))(reynolds(K, n))


# ---- filling masked nodes in time: the interpolator is scipy's, so these are sampled on the real code
def fill_time(kind, how, K, inplace):
    """A node masked in some, but fewer than K-2, of the fields is filled between its valid samples in time; everything else is kept."""
    def f(S):
        o, g = S.tf(kind, K)
        nx, ny = int(g.nx), int(g.ny)
        w = [S.real('w0'), S.real('w1')]
        kw = {'value': w[0] if kind == 'sf' else list(w)} if how == 'value' else {}
        r = S.run('fill', o.fill, tof='temporal', kind=how, inplace=inplace, **kw)
        r = o if inplace else r
        S.must('number of fields', len(r.fields) == K)
        T = [float(t) for t in g.t]
        for i in range(nx):
            for j in range(ny):
                good = [k for k in range(K) if not S.gm(g.f[k], i, j)]
                for k in range(K):
                    old = [c[i, j] for c in S.gcomps(g.f[k])]
                    new = [c[i, j] for c in S.comps(r.fields[k])]
                    masked = bool(r.fields[k].mask[i, j])
                    if k in good:
                        S.check('valid samples are kept', S.And(not masked, *[S.eq(a, b) for a, b in zip(new, old)]))
                    elif not 0 < K - len(good) < K - 2:
                        S.check('nodes masked too often stay masked', masked)
                    elif how == 'value':
                        S.check('masked samples take the value', S.And(not masked, *[S.eq(a, b) for a, b in zip(new, w)]))
                    elif not good[0] < k < good[-1]:
                        S.check('nothing is extrapolated', masked)
                    else:
                        a, b = max(q for q in good if q < k), min(q for q in good if q > k)
                        lin = [c[i, j] + (d[i, j] - c[i, j]) * (T[k] - T[a]) / (T[b] - T[a]) for c, d in zip(S.gcomps(g.f[a]), S.gcomps(g.f[b]))]
                        S.check('masked samples are interpolated in time', S.And(not masked, *[S.eq(p, q) for p, q in zip(new, lin)]))
        frame_is(S, r, K, g.t, g.tu, 'result')
        if not inplace:
            set_is(S, o, g, label='original')
    return f


def fill_space(kind, how, inplace, crop):
    """The spatial fill of a set fills every field on its own."""
    def f(S):
        o, g = S.tf(kind, 2)
        for h in g.f:
            S.assume(not all(S.gm(h, i, j) for i in range(int(g.nx)) for j in range(int(g.ny))))
        w = [S.real('w0'), S.real('w1')]
        v = w[0] if kind == 'sf' else list(w)
        q = o.copy()
        if crop:
            q.crop_masked_border(inplace=True)
            S.assume(all(not x.mask.all() for x in q.fields))
        exp = [x.copy().fill(kind=how, value=v) for x in q.fields]
        r = S.run('fill', o.fill, tof='spatial', kind=how, value=v, inplace=inplace, crop=crop)
        r = o if inplace else r
        S.must('number of fields', len(r.fields) == 2)
        fields_are(S, r, exp)
        S.check('nothing masked', not any(bool(x.mask.any()) for x in r.fields))
        frame_is(S, r, 2, g.t, g.tu, 'result')
        if not inplace:
            set_is(S, o, g, label='original')
    return f


def fill_bad(kind):
    def f(S):
        o, g = S.tf(kind, 2)
        S.check('too few fields to fill in time', not S.call(o.fill, tof='temporal', kind='linear').ok)
        S.check('unknown kinds are rejected', not S.call(o.fill, kind='quadratic').ok)
        S.check('unknown directions are rejected', not S.call(o.fill, tof='both').ok)
        set_is(S, o, g, label='set')
    return f


SAMPLED = dict(sizes=(), unbounded=False, con_runs=25, why_bounded='scipy interpolator: sampled')
for kind, n_, c_ in (('sf', 'scalar', 'TemporalScalarFields'), ('vf', 'vector', 'TemporalVectorFields')):
    for ip in (False, True):
        t = ', in place' if ip else ''
        for how in ('value', 'linear'):
            for K in (4, 5):
                contract('C15', '%s: %s fill in time of %d fields%s' % (n_, how, K, t), [c_ + '.fill'], **SAMPLED)(fill_time(kind, how, K, ip))
        for how in ('value', 'nearest'):
            for cr in (False, True):
                contract('C15', '%s: %s fill in space%s%s' % (n_, how, ', cropped' if cr else '', t), [c_ + '.fill'], **SAMPLED)(fill_space(kind, how, ip, cr))
    contract('C15', '%s: invalid fills' % n_, [c_ + '.fill'])(fill_bad(kind))
