"""C13: point sets keep every position paired with its own value."""
from vc.spec import contract

SZ = ({'n': 1}, {'n': 2}, {'n': 3})
SZ2 = ({'n': 2}, {'n': 3})


def pt_eq(S, p, k, x, y, v):
    c = [S.eq(S.el(p.xy, k, 0), x), S.eq(S.el(p.xy, k, 1), y)]
    if v is not None:
        c.append(S.eq(S.el(p.v, k), v))
    return S.And(*c)


def ok(S, label, p, n, vals):
    S.must(label + ': positions are pairs', S.ndim(p.xy) == 2 and S.ndim(p.v) == 1)
    S.check(label + ': number of points', S.And(S.eqn(S.dim(p.xy, 0), n), S.eqn(S.dim(p.xy, 1), 2)))
    S.check(label + ': one value per point', S.eqn(S.length(p.v), n if vals else 0))


def gv(S, g, i):
    return S.el(g.v, i) if g.v is not None else None


def same_units(S, label, p, g):
    S.check(label + ': units', S.And(S.ueq(p.unit_x, g.ux), S.ueq(p.unit_y, g.uy), S.ueq(p.unit_v, g.uv)))


def build(vals):
    def f(S):
        n = S.n('n', 0)
        xy = S.arr('xy', (n, 2))
        v = S.arr('v', (n,)) if vals else None
        xy0, v0 = S.snap(xy), (S.snap(v) if vals else None)
        p = S.run('Points', S.core.Points, xy, unit_x='m', unit_y='mm', unit_v='s', **({'v': v} if vals else {}))
        S.pts_is('points', p, n, lambda i: S.el(xy0, i, 0), lambda i: S.el(xy0, i, 1), (lambda i: S.el(v0, i)) if vals else None, S.make_unit('m'), S.make_unit('mm'), S.make_unit('s'))
        S.check('shares no data with the given arrays', S.And(S.disjoint(p.xy, xy), S.disjoint(p.v, v) if vals else S.true()))
    return f


def build_bad(S):
    n, k = S.n('n', 1), S.n('k', 1)
    S.assume(S.Not(S.eqn(n, k)))
    S.check('another number of values is rejected', not S.call(S.core.Points, S.arr('xy', (n, 2)), v=S.arr('v', (k,))).ok)
    S.check('positions that are not pairs are rejected', not S.call(S.core.Points, S.arr('xyz', (n, 3))).ok)


def add(case):
    def f(S):
        has = case in ('value', 'missing value')
        p, g = S.pts(v=has, lo=1)
        x, y = S.real('x', np_=True), S.real('y', np_=True)
        v = S.real('v') if case in ('value', 'surplus value') else None
        r = S.call(p.add, [x, y], v)
        if case in ('missing value', 'surplus value'):
            S.check('rejected', not r.ok)
            S.pts_same('points after the rejected insertion', p, g)
            return
        S.check('add returns', r.ok, r)
        n = g.n
        e = lambda a, b, i, *k: S.ite(S.lt(i, n), S.el(a, S.ite(S.lt(i, n), i, 0), *k), b)
        S.pts_is('points', p, n + 1, lambda i: e(g.xy, x, i, 0), lambda i: e(g.xy, y, i, 1), (lambda i: e(g.v, v, i)) if has else None, g.ux, g.uy, g.uv)
    return f


def remove(vals):
    def f(S):
        p, g = S.pts(v=vals, lo=1)
        k = S.int('k', -1, g.n)
        r = S.call(p.remove, k)
        inr = S.And(S.le(-g.n, k), S.lt(k, g.n))
        if not r.ok:
            S.check('rejected only out of range', S.Not(inr), r)
            S.pts_same('points after the rejected removal', p, g)
            return
        S.check('an index out of range is rejected', inr)
        k = S.ite(S.lt(k, 0), k + g.n, k)
        at = lambda i: S.ite(S.lt(i, k), i, i + 1)
        S.pts_is('points', p, g.n - 1, lambda i: S.el(g.xy, at(i), 0), lambda i: S.el(g.xy, at(i), 1), (lambda i: S.el(g.v, at(i))) if vals else None, g.ux, g.uy, g.uv)
    return f


def remove_several(vals):
    def f(S):
        p, g = S.pts(v=vals, lo=2)
        n = int(g.n)
        ks = S.choice('ks', [[0, n - 1], [n - 1, 0], [0], list(range(n))])
        S.run('remove', p.remove, S.choice('as', [list, tuple, S.np.array])(ks))
        left = [i for i in range(n) if i not in ks]
        S.pts_is('points', p, len(left), lambda i: pick(S, left, lambda j: S.el(g.xy, j, 0), i), lambda i: pick(S, left, lambda j: S.el(g.xy, j, 1), i),
                 (lambda i: pick(S, left, lambda j: S.el(g.v, j), i)) if vals else None, g.ux, g.uy, g.uv)
    return f


def pick(S, idx, fn, i):
    r = fn(idx[-1])
    for p in range(len(idx) - 2, -1, -1):
        r = S.ite(S.eqn(i, p), fn(idx[p]), r)
    return r


def subset(S, label, p, g, inside):
    """p holds, in order, exactly the points of g for which inside(i)."""
    vals = g.v is not None
    m = S.dim(p.xy, 0)
    ok(S, label, p, m, vals)
    S.check(label + ': number of points kept', S.eqn(m, S.count((g.n,), inside)))
    S.check_all(label + ': every such point is kept, with its value', (g.n,), lambda i: S.imp(inside(i), S.exists((m,), lambda k: pt_eq(S, p, k, S.el(g.xy, i, 0), S.el(g.xy, i, 1), gv(S, g, i)))))
    S.check_all(label + ': no other point', (m,), lambda k: S.exists((g.n,), lambda i: S.And(inside(i), pt_eq(S, p, k, S.el(g.xy, i, 0), S.el(g.xy, i, 1), gv(S, g, i)))))
    if not S.symbolic or isinstance(S.dim(g.xy, 0), int):
        n = int(S.dim(g.xy, 0))
        ins = [S.split(inside(i)) for i in range(n)]
        left = [i for i in range(n) if ins[i]]
        for k, i in enumerate(left):
            S.check(label + ': in order', pt_eq(S, p, k, S.el(g.xy, i, 0), S.el(g.xy, i, 1), gv(S, g, i)))
    same_units(S, label, p, g)


def crop(which, inplace, vals=True):
    def f(S):
        p, g = S.pts(v=vals, lo=1)
        kw, conds = {}, []
        for w, a in (('x', lambda i: S.el(g.xy, i, 0)), ('y', lambda i: S.el(g.xy, i, 1)), ('v', lambda i: S.el(g.v, i))):
            if w in which:
                lo, hi = S.real('lo' + w), S.real('hi' + w)
                kw['interv' + w] = [lo, hi]
                conds.append(lambda i, lo=lo, hi=hi, a=a: S.And(S.le(lo, a(i)), S.le(a(i), hi)))
        r = S.run('crop', p.crop, inplace=inplace, **kw)
        subset(S, 'cropped', p if inplace else r, g, lambda i: S.And(*[c(i) for c in conds]))
        if not inplace:
            S.pts_same('original', p, g)
    return f


def crop_ind(inplace):
    def f(S):
        p, g = S.pts(lo=1)
        a = S.int('a', 0, g.n)
        b = S.int('b', 0, g.n)
        S.assume(S.le(a, b))
        r = S.run('crop', p.crop, intervv=[a, b], ind=True, inplace=inplace)
        subset(S, 'cropped', p if inplace else r, g, lambda i: S.And(S.le(a, i), S.lt(i, b)))
        if not inplace:
            S.pts_same('original', p, g)
    return f


def cut(which, vals):
    def f(S):
        p, g = S.pts(v=vals, lo=1)
        kw, conds = {}, []
        for w, k in (('x', 0), ('y', 1)):
            if w in which:
                lo, hi = S.real('lo' + w), S.real('hi' + w)
                kw['interv' + w] = [lo, hi]
                conds.append(lambda i, lo=lo, hi=hi, k=k: S.And(S.lt(lo, S.el(g.xy, i, k)), S.lt(S.el(g.xy, i, k), hi)))
        r = S.run('cut', p.cut, **kw)
        subset(S, 'cut', r, g, lambda i: S.Not(S.And(*[c(i) for c in conds])))
        S.pts_same('original', p, g)
    return f


def merge(vals):
    def f(S):
        p, g = S.pts(v=vals, lo=1)
        k = S.n('k', 1)
        q, h = S.pts('r', n=k, v=vals, units=(S.make_unit('mm'), S.make_unit('km'), S.make_unit('ms')))
        r = S.run('add', lambda: p + q)
        n = g.n
        e = lambda a, b, c, i, *j: S.ite(S.lt(i, n), S.el(a, S.ite(S.lt(i, n), i, 0), *j), c * S.el(b, S.ite(S.lt(i, n), 0, i - n), *j))
        S.pts_is('merged', r, n + k, lambda i: e(g.xy, h.xy, 1e-3, i, 0), lambda i: e(g.xy, h.xy, 1e6, i, 1), (lambda i: e(g.v, h.v, 1e-3, i)) if vals else None,
                 g.ux, g.uy, g.uv if vals else r.unit_v)
        S.pts_same('first operand', p, g)
        S.pts_same('second operand', q, h)
        S.check('shares no data', S.And(S.disjoint(r.xy, p.xy), S.disjoint(r.xy, q.xy)))
    return f


def merge_bad(S):
    p, g = S.pts(lo=1)
    c = S.choice('case', ['x', 'y', 'v', 'no values'])
    u = {a: S.make_unit('kg') if a == c else w for a, w in (('x', g.ux), ('y', g.uy), ('v', g.uv))}
    q, h = S.pts('r', n=S.n('k', 1), v=c != 'no values', units=(u['x'], u['y'], u['v']))
    S.check('sets that do not fit are rejected', not S.call(lambda: p + q).ok)
    S.pts_same('first operand', p, g)
    S.pts_same('second operand', q, h)


def merge_empty(S):
    p, g = S.pts(lo=1)
    e = S.core.Points()
    for lab, r in (('empty second', S.run('add', lambda: p + e)), ('empty first', S.run('add', lambda: e + p))):
        S.pts_same(lab, r, g)
        S.check(lab + ': shares no data', S.disjoint(r.xy, p.xy))


def scale(inplace, q):
    def f(S):
        p, g = S.pts(lo=1)
        k = [S.real(c, nz=True) for c in ('kx', 'ky', 'kv')]
        u = [S.make_unit(a) for a in ('kg', 's', 'kg')]
        a = [k[i] * u[i] for i in range(3)] if q else k
        r = S.run('scale', p.scale, scalex=a[0], scaley=a[1], scalev=a[2], inplace=inplace)
        w = [g.ux * u[0], g.uy * u[1], g.uv * u[2]] if q else [g.ux, g.uy, g.uv]
        S.pts_is('scaled', p if inplace else r, g.n, lambda i: S.el(g.xy, i, 0) * k[0], lambda i: S.el(g.xy, i, 1) * k[1], lambda i: S.el(g.v, i) * k[2], *w)
        if not inplace:
            S.pts_same('original', p, g)
    return f


def origin(case):
    def f(S):
        p, g = S.pts(lo=1)
        dx, dy = S.real('dx'), S.real('dy')
        kw = {c: d for c, d in (('x', dx), ('y', dy)) if c in case}
        S.run('set_origin', p.set_origin, **kw)
        S.pts_is('moved', p, g.n, lambda i: S.el(g.xy, i, 0) - (dx if 'x' in case else 0.0), lambda i: S.el(g.xy, i, 1) - (dy if 'y' in case else 0.0),
                 lambda i: S.el(g.v, i), g.ux, g.uy, g.uv)
    return f


def swap(S):
    p, g = S.pts(lo=1)
    r = S.run('reverse', p.reverse)
    S.pts_is('swapped', r, g.n, lambda i: S.el(g.xy, i, 1), lambda i: S.el(g.xy, i, 0), lambda i: S.el(g.v, i), g.uy, g.ux, g.uv)
    S.pts_same('original', p, g)


def sort(ref, inplace, vals=True):
    def f(S):
        p, g = S.pts(lo=1, v=vals)
        r = S.run('sort', p.sort, ref=ref, inplace=inplace)
        c = p if inplace else r
        ok(S, 'sorted', c, g.n, vals)
        key = lambda i: S.el(c.v, i) if ref == 'v' else S.el(c.xy, i, 0 if ref == 'x' else 1)
        S.check_all('sorted: in increasing order', (g.n - 1,), lambda i: S.le(key(i), key(i + 1)))
        S.check_all('sorted: every point kept with its value', (g.n,), lambda i: S.exists((g.n,), lambda k: pt_eq(S, c, k, S.el(g.xy, i, 0), S.el(g.xy, i, 1), gv(S, g, i))))
        S.check_all('sorted: no other point', (g.n,), lambda k: S.exists((g.n,), lambda i: pt_eq(S, c, k, S.el(g.xy, i, 0), S.el(g.xy, i, 1), gv(S, g, i))))
        same_units(S, 'sorted', c, g)
        if not inplace:
            S.pts_same('original', p, g)
    return f


def rotate(inplace):
    def f(S):
        p, g = S.pts(lo=1)
        a = S.real('a')
        r = S.run('rotate', p.rotate, a, inplace=inplace)
        c, s = S.cos(a), S.sin(a)
        S.pts_is('rotated', p if inplace else r, g.n, lambda i: S.el(g.xy, i, 0) * c - S.el(g.xy, i, 1) * s, lambda i: S.el(g.xy, i, 1) * c + S.el(g.xy, i, 0) * s,
                 lambda i: S.el(g.v, i), g.ux, g.uy, g.uv)
        if not inplace:
            S.pts_same('original', p, g)
    return f


def to_profile(ax, ay):
    def f(S):
        p, g = S.pts(lo=1)
        r = S.run('export_to_profile', p.export_to_profile, axe_x=ax, axe_y=ay)
        get = lambda a, i: S.el(g.v, i) if a == 'v' else S.el(g.xy, i, 'xy'.index(a))
        u = {'x': g.ux, 'y': g.uy, 'v': g.uv}
        S.check('profile: number of samples', S.And(S.eqn(S.length(r.x), g.n), S.eqn(S.length(r.y), g.n)))
        S.check_all('profile: every point is a sample', (g.n,), lambda i: S.exists((g.n,), lambda k: S.And(S.eq(S.el(r.x, k), get(ax, i)), S.eq(S.el(r.y, k), get(ay, i)))))
        S.check_all('profile: nothing masked', (g.n,), lambda i: S.Not(S.el(r.mask, i)))
        S.check('profile: units', S.And(S.ueq(r.unit_x, u[ax]), S.ueq(r.unit_y, u[ay])))
        S.pts_same('points', p, g)
    return f


def nans(vals, inplace):
    def f(S):
        g = S.ghost()
        g.n = S.n('n', 1)
        g.xy = S.arr('q.xy', (g.n, 2), nan=True)
        g.v = S.arr('q.v', (g.n,), nan=True) if vals else None
        g.ux, g.uy, g.uv = S.make_unit('m'), S.make_unit('mm'), S.make_unit('s')
        p = S.core.Points(S.snap(g.xy), unit_x=g.ux, unit_y=g.uy, unit_v=g.uv, **({'v': S.snap(g.v)} if vals else {}))
        r = S.run('remove_nans', p.remove_nans, inplace=inplace)
        bad = lambda i: S.Or(S.isnan(S.el(g.xy, i, 0)), S.isnan(S.el(g.xy, i, 1)), S.isnan(S.el(g.v, i)) if vals else S.false())
        subset(S, 'cleaned', p if inplace else r, g, lambda i: S.Not(bad(i)))
    return f


def velocity(incr=1, xaxis='time', shuffled=False):
    def f(S):
        p, g = S.pts(lo=2)
        n = int(g.n)
        order = S.choice('order', [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]]) if shuffled else list(range(n))
        for i in range(n - 1):
            S.assume(S.lt(S.el(g.v, order[i]), S.el(g.v, order[i + 1])))
        order = order[::incr]
        m = len(order) - 1
        ax = {'time': lambda i: S.el(g.v, i), 'x': lambda i: S.el(g.xy, i, 0), 'y': lambda i: S.el(g.xy, i, 1)}[xaxis]
        ua = {'time': g.uv, 'x': g.ux, 'y': g.uy}[xaxis]
        mid = [0.5 * (ax(order[i]) + ax(order[i + 1])) for i in range(m)]
        for i in range(m - 1):
            S.assume(S.lt(mid[i], mid[i + 1]))
        vx, vy = S.run('get_velocity', p.get_velocity, **{k: w for k, w in (('incr', incr), ('xaxis', xaxis)) if w not in (1, 'time')})
        for lab, pr, k, u in (('x', vx, 0, g.ux), ('y', vy, 1, g.uy)):
            S.check('velocity %s: one sample per step' % lab, S.And(S.eqn(S.length(pr.x), m), S.eqn(S.length(pr.y), m)))
            fac = (pr.unit_y / (u / g.uv)).asNumber(1)
            S.check('velocity %s: unit' % lab, S.And(S.eq(pr.unit_y.asNumber(), 1.0), S.ueq(pr.unit_x, ua)))
            for q in range(m):
                i, j = order[q], order[q + 1]
                S.check('velocity %s: difference quotient, half-way' % lab, S.And(
                    S.eq(S.el(pr.x, q), mid[q]),
                    S.eq(S.el(pr.y, q) * fac * (S.el(g.v, j) - S.el(g.v, i)), S.el(g.xy, j, k) - S.el(g.xy, i, k))))
        S.pts_same('points', p, g)
    return f


def on_field(axe, default=False):
    def f(S):
        o, h = S.sf(nx=S.n('nx'), ny=S.n('ny'))
        u = {'x': S.make_unit('m'), 'y': S.make_unit('mm'), 'v': S.make_unit('s')}
        at = [(S.int('i%d' % k, 0, h.nx - 1), S.int('j%d' % k, 0, h.ny - 1)) for k in range(2)]
        vs = [S.real('v%d' % k) for k in range(2)]
        xy = [[S.el(h.x, i), S.el(h.y, j)] for i, j in at]
        key = vs if axe == 'v' else [q['xy'.index(axe)] for q in xy]
        S.assume(S.lt(key[0], key[1]))
        kw = {} if default and axe != 'v' else {'v': vs}
        p = S.core.Points(xy, unit_x=u['x'], unit_y=u['y'], unit_v=u['v'], **kw)
        r = S.run('get_evolution_on_sf', p.get_evolution_on_sf, o, **({} if default else {'axe_x': axe}))
        S.check('one sample per point', S.And(S.eqn(S.length(r.x), 2), S.eqn(S.length(r.y), 2)))
        for k, (i, j) in enumerate(at):
            S.check('position of sample %d' % k, S.eq(S.el(r.x, k), key[k]))
            S.check('value of sample %d' % k, S.And(S.iff(S.el(r.mask, k), S.gm(h, i, j)), S.imp(S.Not(S.gm(h, i, j)), S.eq(S.el(r.y, k), S.el(h.v, i, j)))))
        S.check('units', S.And(S.ueq(r.unit_y, h.uv), S.ueq(r.unit_x, u[axe])))
        S.check('no value against missing values', default or axe == 'v' or not S.call(S.core.Points(xy).get_evolution_on_sf, o, axe_x='v').ok)
        e = S.run('empty set', S.core.Points().get_evolution_on_sf, o)
        S.check('empty set gives an empty profile', S.eqn(S.length(e.x), 0))
    return f


def iterate(vals):
    def f(S):
        p, g = S.pts(lo=1, v=vals)
        n = int(g.n)
        k = -1
        for k, e in enumerate(p):
            xy, v = e if vals else (e, None)
            S.check('point of the iteration', S.And(S.eq(S.el(xy, 0), S.el(g.xy, k, 0)), S.eq(S.el(xy, 1), S.el(g.xy, k, 1)), S.eq(v, S.el(g.v, k)) if vals else S.true()))
        S.check('one step per point', k + 1 == n)
    return f


def decompose(S):
    p, g = S.pts(lo=2)
    n = int(g.n)
    r = S.run('decompose', p.decompose)
    S.must('one set per point', len(r) == n)
    for k, q in enumerate(r):
        ok(S, 'part', q, 1, True)
        S.check('part holds its point', pt_eq(S, q, 0, S.el(g.xy, k, 0), S.el(g.xy, k, 1), S.el(g.v, k)))
        same_units(S, 'part', q, g)


def decompose_one(vals):
    def f(S):
        p, g = S.pts(v=vals, lo=1)
        S.assume(S.eqn(S.length(g.xy), 1))
        r = S.run('decompose', p.decompose)
        S.must('one set', len(r) == 1)
        ok(S, 'part', r[0], 1, vals)
        S.check('part holds its point', pt_eq(S, r[0], 0, S.el(g.xy, 0, 0), S.el(g.xy, 0, 1), gv(S, g, 0)))
        same_units(S, 'part', r[0], g)
        S.check('part shares no data', S.disjoint(r[0].xy, p.xy))
    return f


def crop_ind_bad(S):
    p, g = S.pts(lo=1)
    lo, hi = S.real('lo'), S.real('hi')
    for k in ('intervx', 'intervy'):
        S.check('index crop with %s is rejected' % k, not S.call(p.crop, intervv=[0, 1], ind=True, **{k: [lo, hi]}).ok)
    S.pts_same('points after the rejected crop', p, g)


def sort_given(inplace):
    def f(S):
        p, g = S.pts(lo=1)
        n = int(g.n)
        order = S.choice('order', [list(range(n)), list(range(n))[::-1], list(range(1, n)) + [0]])
        r = S.run('sort', p.sort, ref=list(order), inplace=inplace)
        S.pts_is('sorted', p if inplace else r, n, lambda i: pick(S, order, lambda j: S.el(g.xy, j, 0), i), lambda i: pick(S, order, lambda j: S.el(g.xy, j, 1), i),
                 lambda i: pick(S, order, lambda j: S.el(g.v, j), i), g.ux, g.uy, g.uv)
        if not inplace:
            S.pts_same('original', p, g)
    return f


LOOP = dict(unbounded=False, why_bounded='loop over the points', sizes=SZ2)
SEL = dict(sizes=SZ)
for vals in (True, False):
    t = 'with values' if vals else 'without values'
    contract('C13', 'construction ' + t, ['Points.__init__', 'Points.xy', 'Points.v'], sizes=({'n': 0}, {'n': 1}, {'n': 2}))(build(vals))
    contract('C13', 'remove a point ' + t, ['Points.remove', 'Points.xy', 'Points.v'], sizes=SZ)(remove(vals))
    contract('C13', 'remove several points ' + t, ['Points.remove', 'Points.xy', 'Points.v'], **LOOP)(remove_several(vals))
    contract('C13', 'merge ' + t, ['Points.__add__'], sizes=({'n': 1, 'k': 2}, {'n': 2, 'k': 1}, {'n': 2, 'k': 2}))(merge(vals))
    for w in ('x', 'y', 'xy'):
        contract('C13', 'cut along %s %s' % (w, t), ['Points.cut'], **SEL)(cut(w, vals))
    contract('C13', 'iteration ' + t, ['Points.__iter__'], **LOOP)(iterate(vals))
    for ip in (False, True):
        contract('C13', 'remove nans %s%s' % (t, ', in place' if ip else ''), ['Points.remove_nans', 'Points.remove'], **LOOP)(nans(vals, ip))
contract('C13', 'construction, invalid', ['Points.__init__'], sizes=({'n': 2, 'k': 3}, {'n': 2, 'k': 1}))(build_bad)
for c in ('value', 'no value', 'missing value', 'surplus value'):
    contract('C13', 'add a point, ' + c, ['Points.add'], sizes=SZ)(add(c))
contract('C13', 'merge, sets that do not fit', ['Points.__add__'], sizes=({'n': 1, 'k': 2}, {'n': 2, 'k': 2}))(merge_bad)
contract('C13', 'merge with an empty set', ['Points.__add__'], sizes=SZ)(merge_empty)
for ip in (False, True):
    t = ', in place' if ip else ''
    for w in ('x', 'y', 'v', 'xy', 'xyv'):
        contract('C13', 'crop along %s%s' % (w, t), ['Points.crop'], **SEL)(crop(w, ip))
    contract('C13', 'crop along xy without values' + t, ['Points.crop'], **SEL)(crop('xy', ip, False))
    contract('C13', 'crop to indices' + t, ['Points.crop'], **SEL)(crop_ind(ip))
    contract('C13', 'scale' + t, ['Points.scale'], sizes=SZ)(scale(ip, False))
    contract('C13', 'scale by quantities' + t, ['Points.scale'], sizes=SZ)(scale(ip, True))
    for ref in 'xyv':
        contract('C13', 'sort by %s%s' % (ref, t), ['Points.sort'], sizes=SZ)(sort(ref, ip))
    contract('C13', 'sort by x without values' + t, ['Points.sort'], sizes=SZ)(sort('x', ip, False))
    contract('C13', 'rotate' + t, ['Points.rotate'], sizes=SZ)(rotate(ip))
for c in ('x', 'y', 'xy', ''):
    contract('C13', 'set origin (%s)' % c, ['Points.set_origin'], sizes=SZ)(origin(c))
contract('C13', 'swap the axes', ['Points.reverse'], sizes=SZ)(swap)
for ax, ay in (('x', 'y'), ('v', 'x'), ('y', 'v')):
    contract('C13', 'profile of %s against %s' % (ay, ax), ['Points.export_to_profile'], sizes=SZ)(to_profile(ax, ay))
contract('C13', 'velocity', ['Points.get_velocity'], **LOOP)(velocity())
contract('C13', 'velocity, points in any order', ['Points.get_velocity'], **LOOP)(velocity(shuffled=True))
contract('C13', 'velocity, every second point', ['Points.get_velocity'], unbounded=False, why_bounded='loop over the points', sizes=({'n': 3}, {'n': 4}, {'n': 5}))(velocity(2))
for xa in 'xy':
    contract('C13', 'velocity against ' + xa, ['Points.get_velocity'], **LOOP)(velocity(1, xa))
for axe in 'xyv':
    contract('C13', 'values of a field at the points, against %s' % axe, ['Points.get_evolution_on_sf'], unbounded=False, why_bounded='two points on a small grid',
             sizes=({'nx': 2, 'ny': 2}, {'nx': 3, 'ny': 2}))(on_field(axe))
for axe in 'vx':
    contract('C13', 'values of a field at the points, default axis (%s)' % axe, ['Points.get_evolution_on_sf'], unbounded=False, why_bounded='two points on a small grid',
             sizes=({'nx': 2, 'ny': 2}, {'nx': 3, 'ny': 2}))(on_field(axe, True))
contract('C13', 'decomposition', ['Points.decompose'], **LOOP)(decompose)
for vals in (True, False):
    contract('C13', 'decomposition of a single point ' + ('with value' if vals else 'without value'), ['Points.decompose'], unbounded=False, why_bounded='single point', sizes=({'n': 1},))(decompose_one(vals))
contract('C13', 'crop to indices, with an interval of positions', ['Points.crop'], sizes=SZ)(crop_ind_bad)
for ip in (False, True):
    contract('C13', 'sort in a given order' + (', in place' if ip else ''), ['Points.sort'], unbounded=False, why_bounded='list of indices', sizes=SZ)(sort_given(ip))


# ---- oriented points: each point also keeps its own orientations
def opts(S, tag='q', vals=True):
    p, g = S.pts(tag, lo=1, v=vals)
    g.ori = S.arr(tag + '.ori', (g.n, 2, 2))
    o = S.core.OrientedPoints(S.snap(g.xy), S.snap(g.ori), unit_x=g.ux, unit_y=g.uy, unit_v=g.uv, name='q', **({'v': S.snap(g.v)} if vals else {}))
    return o, g


def ori_is(S, label, p, n, at):
    S.must(label + ': orientations are 3-D', S.ndim(p.orientations) == 3)
    S.check(label + ': one set of orientations per point', S.eqn(S.dim(p.orientations, 0), n))
    for a in (0, 1):
        for b in (0, 1):
            S.check_all(label + ': orientations (%d,%d)' % (a, b), (n,), lambda i: S.eq(S.el(p.orientations, i, a, b), at(i, a, b)))


def opts_is(S, label, p, g, left):
    vals = g.v is not None
    if not left:
        S.check(label + ': no point left', S.And(S.eqn(S.dim(p.xy, 0), 0), S.eqn(S.dim(p.orientations, 0), 0)))
        return
    S.pts_is(label, p, len(left), lambda i: pick(S, left, lambda j: S.el(g.xy, j, 0), i), lambda i: pick(S, left, lambda j: S.el(g.xy, j, 1), i),
             (lambda i: pick(S, left, lambda j: S.el(g.v, j), i)) if vals else None, g.ux, g.uy, g.uv)
    ori_is(S, label, p, len(left), lambda i, a, b: pick(S, left, lambda j: S.el(g.ori, j, a, b), i))


def ori(op, vals=True):
    def f(S):
        p, g = opts(S, vals=vals)
        n = int(g.n)
        allp = list(range(n))
        r, pure = p, False
        X, Y, V = (lambda i: S.el(g.xy, i, 0)), (lambda i: S.el(g.xy, i, 1)), (lambda i: S.el(g.v, i))
        if op == 'remove':
            k = S.choice('k', allp)
            S.run('remove', p.remove, k)
            left = [i for i in allp if i != k]
        elif op == 'remove several':
            ks = S.choice('ks', [[0, n - 1], allp[::-1], [n - 1]])
            S.run('remove', p.remove, list(ks))
            left = [i for i in allp if i not in ks]
        elif op in ('crop', 'crop y', 'crop v', 'crop xy', 'crop pure'):
            kw, conds = {}, []
            for w, a in (('x', X), ('y', Y), ('v', V)):
                if w in {'crop': 'x', 'crop y': 'y', 'crop v': 'v', 'crop xy': 'xy', 'crop pure': 'x'}[op]:
                    lo, hi = S.real('lo' + w), S.real('hi' + w)
                    kw['interv' + w] = [lo, hi]
                    conds.append(lambda i, lo=lo, hi=hi, a=a: S.And(S.le(lo, a(i)), S.le(a(i), hi)))
            pure = op == 'crop pure'
            r = S.run('crop', p.crop, inplace=not pure, **kw)
            r = r if pure else p
            left = [i for i in allp if S.split(S.And(*[c(i) for c in conds]))]
        elif op in ('cut x', 'cut xy'):
            kw, conds = {}, []
            for w, a in (('x', X), ('y', Y)):
                if w in op[4:]:
                    lo, hi = S.real('lo' + w), S.real('hi' + w)
                    kw['interv' + w] = [lo, hi]
                    conds.append(lambda i, lo=lo, hi=hi, a=a: S.And(S.lt(lo, a(i)), S.lt(a(i), hi)))
            r, pure = S.run('cut', p.cut, **kw), True
            left = [i for i in allp if not S.split(S.And(*[c(i) for c in conds]))]
        elif op.startswith('sort'):
            left = S.choice('order', [allp, allp[::-1], allp[1:] + [0]])
            key = {'x': X, 'y': Y, 'v': V}[op[5]]
            for a, b in zip(left, left[1:]):
                S.assume(S.lt(key(a), key(b)))
            pure = op.endswith('pure')
            r = S.run('sort', p.sort, ref=op[5], inplace=not pure)
            r = r if pure else p
        elif op == 'decompose':
            parts = S.run('decompose', p.decompose)
            S.must('one set per point', len(parts) == n)
            for k, q in enumerate(parts):
                opts_is(S, 'part', q, g, [k])
                S.check('part shares no data', S.And(S.disjoint(q.xy, p.xy), S.disjoint(q.orientations, p.orientations)))
            left = allp
        elif op == 'iterate':
            k = -1
            for k, e in enumerate(p):
                S.must('a point, its value and its orientations', len(e) == (3 if vals else 2))
                S.check('point, value and orientations of the iteration', S.And(S.eq(S.el(e[0], 0), S.el(g.xy, k, 0)), S.eq(S.el(e[0], 1), S.el(g.xy, k, 1)),
                        S.eq(e[1], S.el(g.v, k)) if vals else S.true(), *[S.eq(S.el(e[-1], a, b), S.el(g.ori, k, a, b)) for a in (0, 1) for b in (0, 1)]))
            S.check('one step per point', k + 1 == n)
            left = allp
        opts_is(S, 'points', r, g, left)
        if pure:
            opts_is(S, 'original', p, g, allp)
    return f


def ori_merge(S):
    p, g = opts(S)
    q, h = opts(S, 'r')
    n, k = int(g.n), int(h.n)
    r = S.run('add', lambda: p + q)
    S.pts_is('merged', r, n + k, lambda i: pick(S, list(range(n + k)), lambda j: S.el(g.xy, j, 0) if j < n else S.el(h.xy, j - n, 0), i),
             lambda i: pick(S, list(range(n + k)), lambda j: S.el(g.xy, j, 1) if j < n else S.el(h.xy, j - n, 1), i),
             lambda i: pick(S, list(range(n + k)), lambda j: S.el(g.v, j) if j < n else S.el(h.v, j - n), i), g.ux, g.uy, g.uv)
    ori_is(S, 'merged', r, n + k, lambda i, a, b: pick(S, list(range(n + k)), lambda j: S.el(g.ori, j, a, b) if j < n else S.el(h.ori, j - n, a, b), i))


def ori_add(S):
    p, g = opts(S)
    n = int(g.n)
    x, y, v = S.real('x', np_=True), S.real('y', np_=True), S.real('v')
    w = S.arr('w', (2, 2))
    S.run('add', p.add, [x, y], w, v)
    S.pts_is('points', p, n + 1, lambda i: pick(S, list(range(n + 1)), lambda j: S.el(g.xy, j, 0) if j < n else x, i),
             lambda i: pick(S, list(range(n + 1)), lambda j: S.el(g.xy, j, 1) if j < n else y, i),
             lambda i: pick(S, list(range(n + 1)), lambda j: S.el(g.v, j) if j < n else v, i), g.ux, g.uy, g.uv)
    ori_is(S, 'points', p, n + 1, lambda i, a, b: pick(S, list(range(n + 1)), lambda j: S.el(g.ori, j, a, b) if j < n else S.el(w, a, b), i))


OSZ = dict(unbounded=False, why_bounded='three-dimensional orientation arrays', sizes=({'n': 1}, {'n': 2}, {'n': 3}))
for o_ in ('remove', 'remove several', 'crop', 'crop y', 'crop v', 'crop xy', 'crop pure', 'cut x', 'cut xy', 'sort x', 'sort y', 'sort v', 'sort v pure', 'decompose', 'iterate'):
    contract('C13', 'oriented points: ' + o_, ['OrientedPoints.' + {'iterate': '__iter__'}.get(o_, o_.split()[0])], **OSZ)(ori(o_))
for o_ in ('remove', 'crop xy', 'cut x', 'sort x', 'iterate'):
    contract('C13', 'oriented points without values: ' + o_, ['OrientedPoints.' + {'iterate': '__iter__'}.get(o_, o_.split()[0])], **OSZ)(ori(o_, False))
contract('C13', 'oriented points: merge', ['OrientedPoints.__add__', 'OrientedPoints.import_from_Points'], **OSZ)(ori_merge)
contract('C13', 'oriented points: add', ['OrientedPoints.add'], **OSZ)(ori_add)
