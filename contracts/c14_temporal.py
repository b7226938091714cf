"""C14: time series keep fields in time order, each with its own time."""
import itertools
import operator as op

from vc.spec import contract
from .common import mk, same_as_ghost, same_fields
from .tcommon import field_is, frame_is, set_is, fields_are, axes_agree

FT = ['TemporalFields.add_field', 'TemporalFields.__sort_field_by_time', 'Fields.add_field']
BK = 'number of time steps fixed (2 to 4), every grid size, value, mask and time'


def order(S, ts):
    """Stable increasing order of the times ts (indices)."""
    out = []
    for i in range(len(ts)):
        p = len(out)
        while p > 0 and S.split(S.lt(ts[i], ts[out[p - 1]])):
            p -= 1
        out.insert(p, i)
    return out


def cls(S, kind):
    return S.core.TemporalScalarFields if kind == 'sf' else S.core.TemporalVectorFields


def ghost_of(S, hs, ts, tu):
    g = S.ghost()
    h = hs[0]
    g.K, g.t, g.f, g.tu = len(hs), ts, hs, tu
    g.nx, g.ny, g.x, g.y, g.ux, g.uy, g.uv = h.nx, h.ny, h.x, h.y, h.ux, h.uy, h.uv
    return g


def three(S, kind, K=3, **k):
    f0, h0 = mk(S, kind, 't0', **k)
    out = [(f0, h0)]
    for i in range(1, K):
        out.append(mk(S, kind, 't%d' % i, nx=h0.nx, ny=h0.ny, axes=(h0.x, h0.y), units=(h0.ux, h0.uy, h0.uv), **k))
    return [a for a, _ in out], [b for _, b in out]


def insertion(kind, K):
    def f(S):
        fs, hs = three(S, kind, K)
        ts = [S.real('t%d' % k) for k in range(K)]
        for a, b in itertools.combinations(range(K), 2):
            S.assume(S.Not(S.eq(ts[a], ts[b])))
        o = cls(S, kind)()
        for k in range(K):
            S.run('add_field', o.add_field, fs[k], ts[k], S.make_unit('s'))
        ks = order(S, ts)
        set_is(S, o, ghost_of(S, [hs[k] for k in ks], [ts[k] for k in ks], S.make_unit('s')))
        for k in range(K):
            same_as_ghost(S, fs[k], hs[k], 'field given %d' % k)
    return f


def ties(kind):
    def f(S):
        fs, hs = three(S, kind, 3)
        t = S.real('t')
        u = S.real('u')
        S.assume(S.Not(S.eq(t, u)))
        o = cls(S, kind)()
        for k, x in enumerate((t, u, t)):
            S.run('add_field', o.add_field, fs[k], x, 's')
        ks = [0, 2, 1] if S.split(S.lt(t, u)) else [1, 0, 2]
        set_is(S, o, ghost_of(S, [hs[k] for k in ks], [(t, u, t)[k] for k in ks], S.make_unit('s')))
    return f


def units(kind, string):
    def f(S):
        fs, hs = three(S, kind, 3)
        if string:
            us, fac = ['s', 'ms', 's'], [1.0, 0.001, 1.0]
        else:
            u1, c1 = S.unit('tu', S.make_unit('s'))
            us, fac = [S.make_unit('s'), u1, u1], [1.0, c1, c1]
        ts = [S.real('t%d' % k) for k in range(3)]
        tt = [a * b for a, b in zip(ts, fac)]
        for a, b in itertools.combinations(range(3), 2):
            S.assume(S.Not(S.eq(tt[a], tt[b])))
        o = cls(S, kind)()
        for k in range(3):
            S.run('add_field', o.add_field, fs[k], ts[k], us[k])
        ks = order(S, tt)
        set_is(S, o, ghost_of(S, [hs[k] for k in ks], [tt[k] for k in ks], S.make_unit('s')))
    return f


def owned(kind):
    """The set keeps its own copy of the field it is given (unless told not to copy)."""
    def f(S):
        fs, hs = three(S, kind, 2)
        o = cls(S, kind)()
        for k in range(2):
            o.add_field(fs[k], float(k), 's')
        S.run('set_origin', fs[0].set_origin, 1.0, 2.0)
        S.run('fill', fs[1].fill, kind='value', value=7.0, inplace=True)
        set_is(S, o, ghost_of(S, hs, [0.0, 1.0], S.make_unit('s')))
        for a in o.fields:
            for b in fs:
                for u, v in zip([a.axe_x, a.axe_y, a.mask] + S.comps(a), [b.axe_x, b.axe_y, b.mask] + S.comps(b)):
                    S.check('no data shared with the field given', S.disjoint(u, v))
    return f


def rejects(kind, what):
    def f(S):
        o, g = S.tf(kind, 2)
        ax = (g.x, g.y)
        un = [g.ux, g.uy, g.uv]
        if what in ('x', 'y'):
            p = {'x': 0, 'y': 1}[what]
            n = (g.nx, g.ny)[p]
            a = S.axis('other', n)
            S.assume(S.exists((n,), lambda i: S.Not(S.eq(S.el(a, i), S.el(ax[p], i)))))
            ax = tuple(a if q == p else b for q, b in enumerate(ax))
            q, h = mk(S, kind, 'h', nx=g.nx, ny=g.ny, axes=ax, units=tuple(un))
        elif what == 'xy':
            a, b = S.axis('other', g.nx), S.axis('othery', g.ny)
            S.assume(S.exists((g.nx,), lambda i: S.Not(S.eq(S.el(a, i), S.el(g.x, i)))))
            S.assume(S.exists((g.ny,), lambda i: S.Not(S.eq(S.el(b, i), S.el(g.y, i)))))
            q, h = mk(S, kind, 'h', nx=g.nx, ny=g.ny, axes=(a, b), units=tuple(un))
        elif what == 'size':
            m = S.n('nx2')
            S.assume(S.Not(S.eqn(m, g.nx)))
            q, h = mk(S, kind, 'h', nx=m, ny=g.ny, axes=(S.axis('other', m), g.y), units=tuple(un))
        elif what == 'kind':
            q, h = mk(S, 'vf' if kind == 'sf' else 'sf', 'h', nx=g.nx, ny=g.ny, axes=ax, units=tuple(un))
        else:
            p, u = {'unit x': (0, 'km'), 'unit y': (1, 'm'), 'unit values': (2, 'mm/s'), 'unit kind': (2, 'kg'), 'unit x kind': (0, 's')}[what]
            un[p] = S.make_unit(u)
            q, h = mk(S, kind, 'h', nx=g.nx, ny=g.ny, axes=ax, units=tuple(un))
        r = S.call(o.add_field, q, S.real('t'), 's')
        S.check('rejected', r.raised())
        set_is(S, o, g, label='set after the rejection')
        same_as_ghost(S, q, h, 'field given')
    return f


def rejects_empty(what):
    """A bad request on an empty set leaves it usable."""
    def f(S):
        o = S.core.TemporalScalarFields()
        q, h = mk(S, 'vf', 'h')
        bad = {'time': ('now', 's'), 'unit': (1.0, 2.0 * S.make_unit('s')), 'field': (1.0, 's')}[what]
        r = S.call(o.add_field, S.real('z') if what == 'field' else q, *bad)
        S.check('rejected', r.raised())
        S.must('still empty', S.concrete(len(o)) == 0)
        p, g = mk(S, 'sf', 'g')
        S.run('add_field', o.add_field, p, 2.0, 's')
        set_is(S, o, ghost_of(S, [g], [2.0], S.make_unit('s')))
    return f


def removal(kind, inds, method):
    def f(S):
        o, g = S.tf(kind, 4)
        l = list(inds) if isinstance(inds, tuple) else inds
        S.run(method, getattr(o, method), l)
        gone = {i % 4 for i in (inds if isinstance(inds, tuple) else (inds,))}
        set_is(S, o, g, keep=[k for k in range(4) if k not in gone])
        if isinstance(inds, tuple):
            S.check('argument untouched', l == list(inds))
    return f


def removal_bad(kind, method):
    def f(S):
        o, g = S.tf(kind, 2)
        r = S.call(getattr(o, method), 2)
        S.check('rejected', r.raised())
        set_is(S, o, g, label='set after the rejection')
    return f


def readd(kind):
    """Removing then adding again restores the set; the freed slot is reused in time order."""
    def f(S):
        o, g = S.tf(kind, 3)
        q = o.fields[1].copy()
        S.run('remove_fields', o.remove_fields, 1)
        S.run('add_field', o.add_field, q, g.t[1], g.tu)
        set_is(S, o, g)
    return f


def window(S, g):
    a, b = S.near('a', [g.tarr]), S.near('b', [g.tarr])
    return a, b


def crop_time(kind, inplace):
    def f(S):
        o, g = S.tf(kind, 3)
        a, b = S.near('a', [o.times]), S.near('b', [o.times])
        S.assume(S.lt(a, b))
        keep = [k for k in range(3) if S.split(S.And(S.le(a, g.t[k]), S.le(g.t[k], b)))]
        w = [a, b]
        r = S.call(o.crop, intervt=w, inplace=inplace)
        if not keep:
            if not r.ok:
                set_is(S, o, g, label='set after the rejection')
                return
        S.check('accepted', r.ok, r)
        if not r.ok:
            return
        S.check('window argument untouched', w[0] is a and w[1] is b)
        res = o if inplace else r.value
        S.must('a set is returned', S.isinst(res, cls(S, kind)))
        if not keep:
            S.must('nothing kept', S.concrete(len(res)) == 0)
            return
        set_is(S, res, g, keep=keep, label='cropped set')
        if not inplace:
            set_is(S, o, g, label='original')
    return f


def crop_ind(kind):
    def f(S):
        o, g = S.tf(kind, 4)
        i, j = S.choice('ij', [(a, b) for a in range(4) for b in range(a, 6)])
        r = S.run('crop', o.crop, intervt=[i, j], ind=True)
        set_is(S, r, g, keep=range(i, min(j, 3) + 1), label='cropped set')
        set_is(S, o, g, label='original')
    return f


def some(S, k):
    """Proof: sets of k fields; sampled runs: of one field or more."""
    return k if S.symbolic else S.choice('number of fields', [1, k, k + 1])


def spatial(kind, name, call, K0=2, times=None, inplace=None, **gk):
    """The operation on the set is the operation on every field; times are kept."""
    def f(S):
        K = some(S, K0)
        o, g = S.tf(kind, K, **gk)
        ref = [S.call(call, S, x.copy(), g) for x in o.fields]
        r = S.call(call, S, o, g)
        if not ref[0].ok:
            S.check('rejected as for a field', r.raised())
            set_is(S, o, g, label='set after the rejection')
            return
        S.check('accepted as for a field', r.ok, r)
        if not r.ok:
            return
        res = r.value
        S.must('a set is returned', S.isinst(res, cls(S, kind)))
        frame_is(S, res, K, g.t, g.tu, 'result')
        fields_are(S, res, [x.value for x in ref])
        set_is(S, o, g, label='original')
        if inplace:
            q, h = o, g
            S.run('in place', inplace, S, q, g)
            frame_is(S, q, K, g.t, g.tu, 'in place')
            fields_are(S, q, [x.value for x in ref], 'in place')
    return f


def inplace_only(kind, call, ref, K0=2):
    """Operations that only work in place: every field gets the operation, times are kept."""
    def f(S):
        K = some(S, K0)
        o, g = S.tf(kind, K)
        exp = []
        for x in o.fields:
            y = x.copy()
            S.call(ref, S, y, g)
            exp.append(y)
        S.run('call', call, S, o, g)
        frame_is(S, o, K, g.t, g.tu, 'set')
        fields_are(S, o, exp)
    return f


SPATIAL = {
    'rotate 90': (lambda S, o, g: o.rotate(90), lambda S, o, g: o.rotate(90, inplace=True)),
    'rotate 180': (lambda S, o, g: o.rotate(180), None),
    'rotate -90': (lambda S, o, g: o.rotate(-90), None),
    'rotate 45': (lambda S, o, g: o.rotate(45), None),
    'scale': (lambda S, o, g: o.scale(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True), scalev=S.real('sv', nz=True)),
              lambda S, o, g: o.scale(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True), scalev=S.real('sv', nz=True), inplace=True)),
    'scale x by quantity': (lambda S, o, g: o.scale(scalex=-2.0 * S.make_unit('s')), None),
    'scale y': (lambda S, o, g: o.scale(scaley=S.real('sy', nz=True)), None),
    'crop x': (lambda S, o, g: o.crop(intervx=[S.near('a', [g.x]), S.near('b', [g.x])]),
               lambda S, o, g: o.crop(intervx=[S.near('a', [g.x]), S.near('b', [g.x])], inplace=True)),
    'crop y': (lambda S, o, g: o.crop(intervy=[S.near('c', [g.y]), S.near('d', [g.y])]), None),
    'crop by indices': (lambda S, o, g: o.crop(intervx=[S.int('a', 0, g.nx - 1), g.nx - 1], ind=True), None),
    'extend': (lambda S, o, g: o.extend(nmb_left=S.int('l', 0, 2), nmb_up=S.int('u', 0, 2)),
               lambda S, o, g: o.extend(nmb_left=S.int('l', 0, 2), nmb_up=S.int('u', 0, 2), inplace=True)),
    'fill': (lambda S, o, g: o.fill(kind='value', value=S.real('v')) , lambda S, o, g: o.fill(kind='value', value=S.real('v'), inplace=True)),
    'copy': (lambda S, o, g: o.copy(), None),
    'negation': (lambda S, o, g: -o, None),
    'plus number': (lambda S, o, g: o + S.real('k'), None),
    'minus number': (lambda S, o, g: o - S.real('k'), None),
    'times number': (lambda S, o, g: o * S.real('k', nz=True), None),
    'number times': (lambda S, o, g: S.real('k', nz=True) * o, None),
    'over number': (lambda S, o, g: o / S.real('k', nz=True), None),
    'times quantity': (lambda S, o, g: o * (2.0 * S.make_unit('s')), None),
    'over quantity': (lambda S, o, g: o / (2.0 * S.make_unit('s')), None),
    'squared': (lambda S, o, g: o ** 2, None),
}
REDUCE = (lambda S, o, g: o.reduce_spatial_resolution(2), None)
MIRROR = {'mirroring x': (lambda S, o, g: o.mirroring('x', S.el(g.x, -1)), lambda S, o, g: o.mirroring('x', S.el(g.x, -1), inplace=True)),
          'mirroring y': (lambda S, o, g: o.mirroring('y', S.el(g.y, 0)), None)}


def mirror_masked(S):
    """Fields with different masked borders stay on the common axes of the set."""
    np = S.np
    o = S.core.TemporalScalarFields()
    for k in range(2):
        f = S.core.ScalarField()
        m = np.zeros((3, 2), dtype=bool)
        if k == 0:
            m[0, :] = True
        f.import_from_arrays(np.array([0., 1., 2.]), np.array([0., 1.]), np.ones((3, 2)), mask=m, unit_x='m', unit_y='m', unit_values='m/s')
        o.add_field(f, float(k), 's')
    r = S.run('mirroring', o.mirroring, 'x', 3.0)
    S.check('every field on the axes of the set', S.And(*[S.eqn(S.dim(x.values, 0), S.length(r.axe_x)) for x in r.fields]))


def scale_time(kind, quantity, neg, inplace):
    def f(S):
        o, g = S.tf(kind, some(S, 3))
        k = S.real('k', nz=True)
        S.assume(S.lt(k, 0.0) if neg else S.lt(0.0, k))
        tu = g.tu
        arg = k
        if quantity:
            arg = k * S.make_unit('m')
            tu = g.tu * S.make_unit('m')
        r = S.run('scale', o.scale, scalet=arg, inplace=inplace)
        res = o if inplace else r
        S.must('a set is returned', S.isinst(res, cls(S, kind)))
        h = ghost_of(S, g.f[::-1] if neg else g.f, [t * k for t in (g.t[::-1] if neg else g.t)], tu)
        set_is(S, res, h, label='result')
        if not inplace:
            set_is(S, o, g, label='original')
    return f


def with_field(kind, f_op):
    def f(S):
        K = some(S, 2)
        o, g = S.tf(kind, K)
        q, h = mk(S, kind, 'h', nx=g.nx, ny=g.ny, axes=(g.x, g.y), units=(g.ux, g.uy, S.make_unit('km/s')))
        exp = [S.run('field op', f_op, x, q) for x in o.fields]
        r = S.run('op', f_op, o, q)
        S.must('a set is returned', S.isinst(r, cls(S, kind)))
        frame_is(S, r, K, g.t, g.tu, 'result')
        fields_are(S, r, exp)
        set_is(S, o, g, label='original')
        same_as_ghost(S, q, h, 'field operand')
    return f


def with_set(kind, f_op, same_unit=True):
    def f(S):
        K = some(S, 2)
        o, g = S.tf(kind, K)
        if same_unit:
            p, h = S.tf(kind, K, tag='h', axes=(g.x, g.y), times=g.t, units=(g.ux, g.uy, g.uv))
        else:
            p, h = S.tf(kind, K, tag='h', axes=(g.x, g.y), times=[t * 1000.0 for t in g.t], units=(g.ux, g.uy, g.uv), tunit=S.make_unit('ms'))
        exp = [S.run('field op', f_op, x, y) for x, y in zip(o.fields, p.fields)]
        r = S.run('op', f_op, o, p)
        S.must('a set is returned', S.isinst(r, cls(S, kind)))
        frame_is(S, r, K, g.t, g.tu, 'result')
        fields_are(S, r, exp)
        set_is(S, o, g, label='original')
        set_is(S, p, h, label='second operand')
    return f


def other_times(kind, f_op):
    """Multiplying or dividing sets taken at other times is rejected."""
    def f(S):
        o, g = S.tf(kind, 2)
        p, h = S.tf(kind, 2, tag='h', axes=(g.x, g.y), units=(g.ux, g.uy, g.uv))
        S.assume(S.Or(S.Not(S.eq(g.t[0], h.t[0])), S.Not(S.eq(g.t[1], h.t[1]))))
        r = S.call(f_op, o, p)
        S.check('rejected', r.raised())
        set_is(S, o, g, label='original')
        set_is(S, p, h, label='second operand')
    return f


def merge(kind, ms):
    """Adding a set at other times inserts its fields at their own times."""
    def f(S):
        o, g = S.tf(kind, 2)
        fac = 1000.0 if ms else 1.0
        p, h = S.tf(kind, 1, tag='h', axes=(g.x, g.y), units=(g.ux, g.uy, g.uv), tunit=S.make_unit('ms') if ms else None)
        t = h.t[0] / fac
        S.assume(S.And(S.Not(S.eq(t, g.t[0])), S.Not(S.eq(t, g.t[1]))))
        r = S.run('plus', op.add, o, p)
        ts = [g.t[0], g.t[1], t]
        hs = [g.f[0], g.f[1], h.f[0]]
        ks = order(S, ts)
        set_is(S, r, ghost_of(S, [hs[k] for k in ks], [ts[k] for k in ks], g.tu), label='merged set')
        set_is(S, o, g, label='original')
        set_is(S, p, h, label='second operand')
    return f


def time_unit(kind, string):
    def f(S):
        o, g = S.tf(kind, 2)
        u, c = ('ms', 0.001) if string else S.unit('tu', S.make_unit('s'))
        S.run('change_unit', o.change_unit, 'time', u)
        h = ghost_of(S, g.f, [S.div(t, c) for t in g.t], S.make_unit('ms') if string else u)
        set_is(S, o, h)
    return f


def time_unit_bad(kind):
    def f(S):
        o, g = S.tf(kind, 2)
        r = S.call(o.change_unit, 'time', S.make_unit('m'))
        S.check('rejected', r.raised())
        set_is(S, o, g, label='set after the rejection')
    return f


def set_times(kind, ok):
    def f(S):
        o, g = S.tf(kind, 2)
        a = S.arr('nt', (2 if ok else 3,))
        S.assume(S.lt(S.el(a, 0), S.el(a, 1)))
        r = S.call(setattr, o, 'times', a)
        if not ok:
            S.check('rejected', r.raised())
            set_is(S, o, g, label='set after the rejection')
            return
        S.check('accepted', r.ok, r)
        old = S.snap(a)
        a *= 2.0
        h = ghost_of(S, g.f, [S.el(old, 0), S.el(old, 1)], g.tu)
        set_is(S, o, h)
    return f


def set_time_unit(S):
    o, g = S.tf('sf', 2)
    o.unit_times = 'ms'
    set_is(S, o, ghost_of(S, g.f, g.t, S.make_unit('ms')))


def reduce_time(kind, K, n, mean, inplace):
    def f(S):
        o, g = S.tf(kind, K)
        exp, ts = [], []
        for a in range(0, K - n + 1, n):
            e, t = o.fields[a].copy(), g.t[a]
            if mean:
                for b in range(a + 1, a + n):
                    e, t = e + o.fields[b], t + g.t[b]
                e, t = e / float(n), t / float(n)
            exp.append(e)
            ts.append(t)
        r = S.run('reduce', o.reduce_temporal_resolution, n, mean=mean, inplace=inplace)
        res = o if inplace else r
        S.must('a set is returned', S.isinst(res, cls(S, kind)))
        frame_is(S, res, len(exp), ts, g.tu, 'result')
        fields_are(S, res, exp)
        if not inplace:
            set_is(S, o, g, label='original')
    return f


def augment(kind, fact, inplace):
    def f(S):
        o, g = S.tf(kind, 2)
        exp, ts = [], []
        for q in range(fact + 1):
            w = q / float(fact)
            ts.append(g.t[0] + (g.t[1] - g.t[0]) * w)
            exp.append(o.fields[0].copy() if q == 0 else o.fields[1].copy() if q == fact else o.fields[1] * w + o.fields[0] * (1 - w))
        r = S.run('augment', o.augment_temporal_resolution, fact, inplace=inplace)
        res = o if inplace else r
        S.must('a set is returned', S.isinst(res, cls(S, kind)))
        frame_is(S, res, fact + 1, ts, g.tu, 'result')
        fields_are(S, res, exp)
        if not inplace:
            set_is(S, o, g, label='original')
    return f


def interpolated(kind):
    def f(S):
        o, g = S.tf(kind, 3)
        t = S.near('tt', [o.times])
        r = S.call(o.get_interpolated_field, t)
        if S.split(S.Or(S.lt(t, g.t[0]), S.lt(g.t[2], t))):
            S.check('rejected outside the series', r.raised())
            return
        S.check('accepted', r.ok, r)
        if not r.ok:
            return
        for k in range(3):
            if S.split(S.eq(t, g.t[k])):
                field_is(S, r.value, g.f[k], g, 'field at a known time')
                for u, v in zip([r.value.mask] + S.comps(r.value), [o.fields[k].mask] + S.comps(o.fields[k])):
                    S.check('no data shared with the set', S.disjoint(u, v))
                return
        k = 0 if S.split(S.lt(t, g.t[1])) else 1
        w = S.div(t - g.t[k], g.t[k + 1] - g.t[k])
        same_fields(S, r.value, o.fields[k + 1] * w + o.fields[k] * (1.0 - w), 'interpolated field')
        set_is(S, o, g, label='original')
    return f


def iteration(kind):
    def f(S):
        o, g = S.tf(kind, 3)
        n = 0
        for k, (t, x) in enumerate(o):
            S.check('time %d' % k, S.eq(t, g.t[k]))
            field_is(S, x, g.f[k], g, 'field %d' % k)
            field_is(S, o[k], g.f[k], g, 'item %d' % k)
            n += 1
        S.check('every field visited', n == 3)
    return f


def masked_border(kind, K=2, hard=False):
    """Border rows and columns masked at every time are dropped, in every field."""
    def f(S):
        o, g = S.tf(kind, K)
        m = lambda i, j: S.And(*[S.gm(h, i, j) for h in g.f])
        nx, ny = S.concrete(g.nx), S.concrete(g.ny)
        rows = [i for i in range(nx) if not S.split(S.And(*[m(i, j) for j in range(ny)]))]
        cols = [j for j in range(ny) if not S.split(S.And(*[m(i, j) for i in range(nx)]))]
        r = S.run('crop_masked_border', o.crop_masked_border)
        S.must('a set is returned', S.isinst(r, cls(S, kind)))
        frame_is(S, r, K, g.t, g.tu, 'result')
        if rows and cols:
            exp = [x.crop(intervx=[rows[0], rows[-1]], intervy=[cols[0], cols[-1]], ind=True) for x in o.fields]
            fields_are(S, r, exp)
        set_is(S, o, g, label='original')
        q = o.copy()
        S.run('in place', q.crop_masked_border, inplace=True)
        fields_are(S, q, list(r.fields), 'in place')
    return f


SMALL = dict(unbounded=False, why_bounded='loops over the nodes')
for kind in ('sf', 'vf'):
    n = {'sf': 'scalar', 'vf': 'vector'}[kind]
    for K in (2, 3):
        contract('C14', '%s: %d insertions in any order' % (n, K), FT, budget=150)(insertion(kind, K))
    contract('C14', '%s: insertion at equal times' % n, FT)(ties(kind))
    contract('C14', '%s: insertion in other time units' % n, FT, budget=150)(units(kind, False))
    contract('C14', '%s: insertion in named time units' % n, FT, budget=150)(units(kind, True))
    contract('C14', '%s: the set owns its fields' % n, FT)(owned(kind))
    for what in ('x', 'y', 'xy', 'size', 'kind', 'unit x', 'unit y', 'unit values', 'unit kind', 'unit x kind'):
        contract('C14', '%s: insertion with another %s is rejected' % (n, what), FT,
                 sizes=({'nx': 2, 'ny': 2, 'nx2': 3}, {'nx': 3, 'ny': 2, 'nx2': 2}))(rejects(kind, what))
    for inds in ((0,), (0, 1), (1, 3), (3, 1), (2,), (0, -1)):
        contract('C14', '%s: removal of %s' % (n, list(inds)), ['TemporalFields.remove_fields', 'Fields.remove_field'])(removal(kind, inds, 'remove_fields'))
    contract('C14', '%s: removal of one index' % n, ['TemporalFields.remove_fields', 'Fields.remove_field'])(removal(kind, 2, 'remove_fields'))
    contract('C14', '%s: remove_field of one index' % n, ['TemporalFields.remove_fields', 'Fields.remove_field'])(removal(kind, 1, 'remove_field'))
    contract('C14', '%s: removal out of range' % n, ['TemporalFields.remove_fields', 'Fields.remove_field'])(removal_bad(kind, 'remove_fields'))
    contract('C14', '%s: removal and re-insertion' % n, FT + ['TemporalFields.remove_fields'])(readd(kind))
    contract('C14', '%s: crop in time' % n, ['TemporalFields.crop'], budget=150)(crop_time(kind, False))
    contract('C14', '%s: crop in time, in place' % n, ['TemporalFields.crop'], budget=150)(crop_time(kind, True))
    contract('C14', '%s: crop in time by indices' % n, ['TemporalFields.crop'])(crop_ind(kind))
    for nm, (call, inp) in SPATIAL.items():
        contract('C14', '%s: %s acts on every field' % (n, nm), ['TemporalFields.*', 'Fields.*'], budget=150)(spatial(kind, nm, call, inplace=inp))
    contract('C14', '%s: coarsening acts on every field' % n, ['TemporalFields.reduce_spatial_resolution'], sizes=({'nx': 2, 'ny': 4}, {'nx': 4, 'ny': 2}), **SMALL)(
        spatial(kind, 'reduce', *REDUCE[:1]))
    for nm, (call, inp) in MIRROR.items():
        contract('C14', '%s: %s acts on every field' % (n, nm), ['TemporalFields.mirroring'], sizes=({'nx': 3, 'ny': 2}, {'nx': 2, 'ny': 3}), **SMALL)(
            spatial(kind, nm, call, inplace=inp, mask=False))
    contract('C14', '%s: crop of the masked borders' % n, ['TemporalFields.crop_masked_border', 'TemporalFields.mask_cum'],
             sizes=({'nx': 2, 'ny': 2}, {'nx': 2, 'ny': 3}), **SMALL)(masked_border(kind))
    contract('C14', '%s: change of origin acts on every field' % n, ['TemporalFields.set_origin'])(
        inplace_only(kind, lambda S, o, g: o.set_origin(S.real('ox'), S.real('oy')), lambda S, o, g: o.set_origin(S.real('ox'), S.real('oy'))))
    for ax, u in (('x', 'km'), ('y', 'm'), ('values', 'mm/s')):
        contract('C14', '%s: change of unit of %s acts on every field' % (n, ax), ['TemporalFields.change_unit'])(
            inplace_only(kind, lambda S, o, g, ax=ax, u=u: o.change_unit(ax, u), lambda S, o, g, ax=ax, u=u: o.change_unit(ax, u)))
    for quantity in (False, True):
        for neg in (False, True):
            contract('C14', '%s: scale of the times by a %s %s' % (n, 'negative' if neg else 'positive', 'quantity' if quantity else 'number'),
                     ['TemporalFields.scale'])(scale_time(kind, quantity, neg, False))
    contract('C14', '%s: scale of the times in place' % n, ['TemporalFields.scale'])(scale_time(kind, False, True, True))
    for nm, f_op in (('plus', op.add), ('minus', op.sub)) + ((('over', op.truediv),) if kind == 'sf' else ()):
        contract('C14', '%s: %s a field' % (n, nm), ['TemporalFields.__add__', 'TemporalFields.__truediv__'])(with_field(kind, f_op))
    for nm, f_op in (('plus', op.add), ('minus', op.sub)) + ((('over', op.truediv), ('times', op.mul)) if kind == 'sf' else ()):
        contract('C14', '%s: %s a set' % (n, nm), ['TemporalFields.__add__', 'TemporalFields.__mul__', 'TemporalFields.__truediv__'])(with_set(kind, f_op))
    contract('C14', '%s: plus a set in another time unit' % n, ['TemporalFields.__add__'])(with_set(kind, op.add, False))
    if kind == 'sf':
        contract('C14', '%s: times a set at other times' % n, ['TemporalFields.__mul__'])(other_times(kind, op.mul))
        contract('C14', '%s: over a set at other times' % n, ['TemporalFields.__truediv__'])(other_times(kind, op.truediv))
    contract('C14', '%s: merge with a set at other times' % n, ['TemporalFields.__add__'])(merge(kind, False))
    contract('C14', '%s: merge with a set in another time unit' % n, ['TemporalFields.__add__'])(merge(kind, True))
    contract('C14', '%s: change of time unit' % n, ['TemporalFields.change_unit'])(time_unit(kind, False))
    contract('C14', '%s: change to a named time unit' % n, ['TemporalFields.change_unit'])(time_unit(kind, True))
    contract('C14', '%s: incompatible time unit' % n, ['TemporalFields.change_unit'])(time_unit_bad(kind))
    contract('C14', '%s: assignment of the times' % n, ['TemporalFields.times'])(set_times(kind, True))
    contract('C14', '%s: assignment of too many times' % n, ['TemporalFields.times'])(set_times(kind, False))
    for K, q, mean, inplace in ((4, 2, True, False), (4, 2, False, False), (3, 2, True, False), (4, 2, True, True)):
        contract('C14', '%s: %d fields reduced by %d%s%s' % (n, K, q, '' if mean else ' without averaging', ' in place' if inplace else ''),
                 ['TemporalFields.reduce_temporal_resolution'])(reduce_time(kind, K, q, mean, inplace))
    for fct in (1, 2, 3):
        contract('C14', '%s: temporal resolution augmented by %d' % (n, fct), ['TemporalFields.augment_temporal_resolution', 'TemporalFields.get_interpolated_field'])(
            augment(kind, fct, False))
    contract('C14', '%s: temporal resolution augmented in place' % n, ['TemporalFields.augment_temporal_resolution'])(augment(kind, 2, True))
    contract('C14', '%s: field at any time' % n, ['TemporalFields.get_interpolated_field'])(interpolated(kind))
    contract('C14', '%s: iteration' % n, ['TemporalFields.__iter__', 'Fields.__getitem__'])(iteration(kind))
contract('C14', 'mirroring of fields with different masked borders', ['TemporalFields.mirroring'], con_runs=1)(mirror_masked)
contract('C14', 'time unit given as a string', ['TemporalFields.unit_times'])(set_time_unit)
for what in ('time', 'unit', 'field'):
    contract('C14', 'bad %s on an empty set' % what, FT)(rejects_empty(what))


# ---- masked borders (hard) and the units of the set
def hard_border(kind, K=2):
    """The hard crop keeps a window of every field, whose border nodes are all valid in some field."""
    def f(S):
        o, g = S.tf(kind, K)
        nx, ny = int(g.nx), int(g.ny)
        m = [[all(S.gm(h, i, j) for h in g.f) for j in range(ny)] for i in range(nx)]
        rows = [i for i in range(nx) if not all(m[i])]
        S.assume(len(rows) > 0 and sum(map(sum, m)) <= 2)
        pure = S.choice('pure', [True, False])
        q = o.copy()
        r = S.call(q.crop_masked_border, hard=True, inplace=not pure)
        if not r.ok:
            S.check('rejected only when there is nothing to keep', min(nx, ny) <= 2, r)
            return
        r = r.value if pure else q
        S.must('a set', S.isinst(r, cls(S, kind)))
        frame_is(S, r, K, g.t, g.tu, 'result')
        a, b = list(g.x).index(r.axe_x[0]), list(g.x).index(r.axe_x[-1])
        c, d = list(g.y).index(r.axe_y[0]), list(g.y).index(r.axe_y[-1])
        fields_are(S, r, [x.crop(intervx=[a, b], intervy=[c, d], ind=True) for x in o.fields])
        bad = [(i, j) for i in range(a, b + 1) for j in range(c, d + 1) if m[i][j] and (i in (a, b) or j in (c, d))]
        S.check('no node of the border is masked in every field', not bad)
        S.check('no border is dropped without reason', (b - a + 1, d - c + 1) == (nx, ny) or any(m[i][j] for i in range(nx) for j in range(ny) if i in (0, nx - 1) or j in (0, ny - 1)))
        if pure:
            set_is(S, q, g, label='original')
    return f


def set_space_unit(kind, how):
    def f(S):
        o, g = S.tf(kind, 2)
        u = S.make_unit('km')
        S.run('unit_x', lambda: setattr(o, 'unit_x', 'km' if how == 'string' else u))
        S.check('x unit of the set and of its fields', S.And(S.ueq(o.unit_x, u), *[S.ueq(x.unit_x, u) for x in o.fields]))
        S.run('unit_y', lambda: setattr(o, 'unit_y', 'km' if how == 'string' else u))
        S.check('y unit of the set and of its fields', S.And(S.ueq(o.unit_y, u), *[S.ueq(x.unit_y, u) for x in o.fields]))
        g.ux = g.uy = u
        set_is(S, o, g, label='set')
    return f


for kind in ('sf', 'vf'):
    n = {'sf': 'scalar', 'vf': 'vector'}[kind]
    contract('C14', '%s: hard crop of the masked borders' % n, ['TemporalFields.crop_masked_border'], sizes=(), unbounded=False, con_runs=60,
             why_bounded='loop until no border is masked: sampled')(hard_border(kind))
    for how in ('string', 'unit'):
        contract('C14', '%s: assignment of the units of the axes (%s)' % (n, how), ['TemporalFields.unit_x', 'TemporalFields.unit_y'])(set_space_unit(kind, how))
