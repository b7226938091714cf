"""C12: profiles keep positions sorted and paired with values and mask; profile arithmetic and lookups."""
import operator as op

from vc.spec import contract

SZ = ({'n': 1}, {'n': 2}, {'n': 3})
SZ2 = ({'n': 2}, {'n': 3}, {'n': 4})
SMALL = dict(unbounded=False, why_bounded='loop over the samples', sizes=SZ2)


def pair_eq(S, p, k, x, y, m):
    return S.And(S.eq(S.el(p.x, k), x), S.iff(S.el(p.mask, k), m), S.ite_b(m, S.isnan(S.el(p.y, k)), S.eq(S.el(p.y, k), y)))


def shaped(S, label, p, n):
    S.must(label + ': arrays are vectors', S.ndim(p.x) == 1 and S.ndim(p.y) == 1 and S.ndim(p.mask) == 1)
    S.check(label + ': lengths', S.And(S.eqn(S.length(p.x), n), S.eqn(S.length(p.y), n), S.eqn(S.length(p.mask), n)))
    S.check(label + ': mask is boolean', S.kind(p.mask) == 'b')
    S.check_all(label + ': positions in increasing order', (n - 1,), lambda i: S.le(S.el(p.x, i), S.el(p.x, i + 1)))


def samples(S, label, p, n, x, y, m, ux, uy):
    """p holds exactly the n samples (x(i), y(i), m(i)), in increasing order of position."""
    shaped(S, label, p, n)
    S.check_all(label + ': every sample is kept with its value and flag', (n,), lambda i: S.exists((n,), lambda k: pair_eq(S, p, k, x(i), y(i), m(i))))
    S.check_all(label + ': nothing else is added', (n,), lambda k: S.exists((n,), lambda i: pair_eq(S, p, k, x(i), y(i), m(i))))
    S.check(label + ': units', S.And(S.ueq(p.unit_x, ux), S.ueq(p.unit_y, uy)))


def build(how):
    def f(S):
        n = S.n('n', 0 if how == 'bool' else 1)
        x, y = S.arr('x', (n,)), S.arr('y', (n,), nan=True)
        m = S.boolarr('m', (n,))
        b = S.choice('b', [False, True]) if how == 'bool' else None
        ux, uy = S.make_unit('mm'), S.make_unit('m/s')
        x0, y0, m0 = S.snap(x), S.snap(y), S.snap(m)
        p = S.run('Profile', S.core.Profile, x, y, mask=b if how == 'bool' else m, unit_x=ux, unit_y=uy)
        fl = lambda i: S.Or((S.true() if b else S.false()) if how == 'bool' else S.el(m0, i), S.isnan(S.el(y0, i)))
        samples(S, 'profile', p, n, lambda i: S.el(x0, i), lambda i: S.el(y0, i), fl, ux, uy)
        S.check('the given arrays are untouched', S.And(S.unchanged(x, x0), S.unchanged(y, y0), S.unchanged(m, m0)))
        S.check('shares no data with the given arrays', S.And(S.disjoint(p.x, x), S.disjoint(p.y, y), S.disjoint(p.mask, m)))
    return f


def build_bad(S):
    n, k = S.n('n', 1), S.n('k', 1)
    S.assume(S.Not(S.eqn(n, k)))
    S.check('different lengths are rejected', not S.call(S.core.Profile, S.arr('x', (n,)), S.arr('y', (k,))).ok)


def set_x(S):
    p, g = S.prof(nan=True)
    k = S.n('k', 1)
    x = S.arr('x', (k,))
    x0 = S.snap(x)
    r = S.call(setattr, p, 'x', x)
    if not r.ok:
        S.check('rejected only for another length', S.Not(S.eqn(k, g.n)), r)
        S.prof_same('profile after the rejected assignment', p, g)
        return
    S.check('another length is rejected', S.eqn(k, g.n))
    samples(S, 'profile', p, g.n, lambda i: S.el(x0, i), lambda i: S.el(g.y, i), lambda i: S.pm(g, i), g.ux, g.uy)
    S.check('the given array is untouched and not shared', S.And(S.unchanged(x, x0), S.disjoint(p.x, x)))


def set_y(S):
    p, g = S.prof(nan=True)
    y = S.arr('y', (g.n,), nan=True)
    y0 = S.snap(y)
    S.run('set y', setattr, p, 'y', y)
    S.prof_is('profile', p, g.n, lambda i: S.el(g.x, i), lambda i: S.isnan(S.el(y0, i)), lambda i: S.el(y0, i), g.ux, g.uy)
    S.check('the given array is untouched and not shared', S.And(S.unchanged(y, y0), S.disjoint(p.y, y)))


def set_mask(how):
    def f(S):
        p, g = S.prof(mask=False)
        if how == 'array':
            m = S.boolarr('m2', (g.n,))
            m0 = S.snap(m)
            fl = lambda i: S.el(m0, i)
        else:
            m = S.choice('m2', [False, True])
            fl = lambda i: S.true() if m else S.false()
        S.run('set mask', setattr, p, 'mask', m)
        S.prof_is('profile', p, g.n, lambda i: S.el(g.x, i), fl, lambda i: S.el(g.y, i), g.ux, g.uy)
        if how == 'array':
            S.check('the given array is untouched and not shared', S.And(S.unchanged(m, m0), S.disjoint(p.mask, m)))
    return f


def add_point(S):
    p, g = S.prof(nan=True, lo=1)
    x, y = S.near('px', [g.x]), S.real('py')
    S.run('add_point', p.add_point, x, y)
    n = g.n
    samples(S, 'profile', p, n + 1, lambda i: S.ite(S.eqn(i, n), x, S.el(g.x, S.ite(S.eqn(i, n), 0, i))), lambda i: S.ite(S.eqn(i, n), y, S.el(g.y, S.ite(S.eqn(i, n), 0, i))),
            lambda i: S.And(S.Not(S.eqn(i, n)), S.pm(g, S.ite(S.eqn(i, n), 0, i))), g.ux, g.uy)


def add_points(S):
    p, g = S.prof(nan=True)
    q, h = S.prof('q', n=S.n('k', 1), nan=True)
    S.run('add_points', p.add_points, q)
    n = g.n
    sel = lambda a, b, i: S.ite(S.lt(i, n), S.el(a, S.ite(S.lt(i, n), i, 0)), S.el(b, S.ite(S.lt(i, n), 0, i - n)))
    fl = lambda i: S.ite_b(S.lt(i, n), S.pm(g, S.ite(S.lt(i, n), i, 0)), S.pm(h, S.ite(S.lt(i, n), 0, i - n)))
    samples(S, 'profile', p, n + h.n, lambda i: sel(g.x, h.x, i), lambda i: sel(g.y, h.y, i), fl, g.ux, g.uy)
    S.prof_same('argument', q, h)


def add_points_units(S):
    p, g = S.prof()
    q, h = S.prof('q', n=S.n('k', 1), units=S.choice('u', [(S.make_unit('mm'), S.make_unit('m/s')), (S.make_unit('m'), S.make_unit('s'))]))
    S.check('other units are rejected', not S.call(p.add_points, q).ok)
    S.prof_same('profile after the rejected insertion', p, g)
    S.prof_same('argument', q, h)


def remove_point(S):
    p, g = S.prof(nan=True, lo=1)
    k = S.int('k', 0, g.n - 1)
    S.run('remove_point', p.remove_point, k)
    at = lambda i: S.ite(S.lt(i, k), i, i + 1)
    S.prof_is('profile', p, g.n - 1, lambda i: S.el(g.x, at(i)), lambda i: S.pm(g, at(i)), lambda i: S.el(g.y, at(i)), g.ux, g.uy)


def keep(S, label, p, g, k0, k1):
    S.prof_is(label, p, k1 - k0, lambda i: S.el(g.x, k0 + i), lambda i: S.pm(g, k0 + i), lambda i: S.el(g.y, k0 + i), g.ux, g.uy)


def crop_ind(inplace):
    def f(S):
        p, g = S.prof(nan=True)
        a, b = S.int('a', -2, g.n + 2), S.int('b', -2, g.n + 2)
        r = S.call(p.crop, intervx=[a, b], ind=True, inplace=inplace)
        ok = S.And(S.le(0, a), S.lt(a, b), S.le(b, g.n))
        if not r.ok:
            S.check('rejected only for a bad index window', S.Not(ok), r)
            S.prof_same('profile after the rejected crop', p, g)
            return
        S.check('a bad index window is rejected', ok)
        keep(S, 'cropped', p if inplace else r.value, g, a, b)
        if not inplace:
            S.prof_same('original', p, g)
    return f


def crop_x(inplace, lower):
    """lower: 'before' the first sample, 'at' a sample, or 'between' two samples."""
    def f(S):
        p, g = S.prof(nan=True)
        b = S.near('b', [g.x])
        if lower == 'at':
            a = S.el(g.x, S.int('k', 0, g.n - 1))
        else:
            a = S.near('a', [g.x])
            k = S.rank_ge(g.x, a)
            if lower == 'before':
                S.assume(S.eqn(k, 0))
            elif lower == 'between':
                S.assume(S.And(S.lt(0, k), S.Or(S.le(g.n, k), S.lt(a, S.el(g.x, S.ite(S.lt(k, g.n), k, 0))))))
        r = S.call(p.crop, intervx=[a, b], inplace=inplace)
        bad = S.Or(S.le(b, a), S.lt(b, S.el(g.x, 0)), S.lt(S.el(g.x, -1), a))
        if not r.ok:
            S.check('rejected only for a window off the profile', bad, r)
            S.prof_same('profile after the rejected crop', p, g)
            return
        S.check('a window off the profile is rejected', S.Not(bad))
        c = p if inplace else r.value
        k0, k1 = S.rank_ge(g.x, a), S.rank_gt(g.x, b)
        if lower != 'between':
            keep(S, 'cropped', c, g, k0, k1)
        else:
            S.check('every sample in the window is kept', S.eqn(S.length(c.x), k1 - k0))
            shaped(S, 'cropped', c, S.length(c.x))
            S.check_all('only samples of the window, with their value and flag', (S.length(c.x),), lambda k: S.exists((g.n,), lambda i: S.And(
                S.le(a, S.el(g.x, i)), S.le(S.el(g.x, i), b), pair_eq(S, c, k, S.el(g.x, i), S.el(g.y, i), S.pm(g, i)))))
        if not inplace:
            S.prof_same('original', p, g)
    return f


def crop_y(inplace, both):
    def f(S):
        p, g = S.prof(nan=True)
        lo, hi = S.real('lo'), S.real('hi')
        S.assume(S.lt(lo, hi))
        kw = {'intervy': [lo, hi]}
        if both:
            a, b = S.el(g.x, 0), S.near('b', [g.x])
            S.assume(S.lt(a, b))
            kw['intervx'] = [a, b]
        r = S.run('crop', p.crop, inplace=inplace, **kw)
        c = p if inplace else r
        m = S.length(c.x)
        shaped(S, 'cropped', c, m)
        inside = lambda i: S.And(S.Not(S.pm(g, i)), S.lt(lo, S.el(g.y, i)), S.lt(S.el(g.y, i), hi), S.le(S.el(g.x, i), b) if both else S.true())
        S.check_all('every sample strictly inside is kept', (g.n,), lambda i: S.imp(inside(i), S.exists((m,), lambda k: pair_eq(S, c, k, S.el(g.x, i), S.el(g.y, i), S.false()))))
        S.check_all('only samples strictly inside', (m,), lambda k: S.exists((g.n,), lambda i: S.And(inside(i), pair_eq(S, c, k, S.el(g.x, i), S.el(g.y, i), S.false()))))
        S.check('units', S.And(S.ueq(c.unit_x, g.ux), S.ueq(c.unit_y, g.uy)))
        if not inplace:
            S.prof_same('original', p, g)
    return f


def masked_border(inplace):
    def f(S):
        p, g = S.prof()
        S.assume(S.exists((g.n,), lambda i: S.Not(S.el(g.m, i))))
        r = S.run('crop_masked_border', p.crop_masked_border, inplace=inplace)
        c = p if inplace else r
        m = S.length(c.x)
        shaped(S, 'cropped', c, m)
        S.check('first sample unmasked', S.Not(S.el(c.mask, 0)))
        S.check('last sample unmasked', S.Not(S.el(c.mask, -1)))
        S.check_all('every unmasked sample is kept', (g.n,), lambda i: S.imp(S.Not(S.el(g.m, i)), S.exists((m,), lambda k: pair_eq(S, c, k, S.el(g.x, i), S.el(g.y, i), S.false()))))
        S.check_all('only samples of the profile, in order', (m,), lambda k: S.exists((g.n,), lambda i: pair_eq(S, c, k, S.el(g.x, i), S.el(g.y, i), S.pm(g, i))))
    return f


def scale(inplace, sign):
    def f(S):
        p, g = S.prof(nan=True, lo=1)
        k, kx = S.real('sy', nz=True), S.real('sx', nz=True)
        S.assume(S.lt(0.0, kx) if sign > 0 else S.lt(kx, 0.0))
        r = S.run('scale', p.scale, scalex=kx, scaley=k, inplace=inplace)
        c = p if inplace else r
        at = lambda i: i if sign > 0 else g.n - 1 - i
        S.prof_is('scaled', c, g.n, lambda i: S.el(g.x, at(i)) * kx, lambda i: S.pm(g, at(i)), lambda i: S.el(g.y, at(i)) * k, g.ux, g.uy)
        if not inplace:
            S.prof_same('original', p, g)
    return f


def scale_units(inplace):
    def f(S):
        p, g = S.prof(nan=True, lo=1)
        k = S.real('sy', nz=True)
        r = S.run('scale', p.scale, scalex=2.0 * S.make_unit('s'), scaley=k * S.make_unit('kg'), inplace=inplace)
        c = p if inplace else r
        S.prof_is('scaled', c, g.n, lambda i: S.el(g.x, i) * 2.0, lambda i: S.pm(g, i), lambda i: S.el(g.y, i) * k, g.ux * S.make_unit('s'), g.uy * S.make_unit('kg'))
        if not inplace:
            S.prof_same('original', p, g)
    return f


# ---- arithmetic
def arith(name, fn, val, unit, needs_nz=False):
    """fn(S, p, k) -> profile; val(S, y, k); unit(S, g)."""
    def f(S):
        p, g = S.prof(nan=True, lo=1)
        k = S.real('k', nz=needs_nz)
        r = S.run(name, fn, S, p, k)
        S.prof_is('result', r, g.n, lambda i: S.el(g.x, i), lambda i: S.pm(g, i), lambda i: val(S, S.el(g.y, i), k), g.ux, unit(S, g))
        S.prof_same('operand', p, g)
        S.check('the result shares no data', S.And(S.disjoint(r.x, p.x), S.disjoint(r.y, p.y), S.disjoint(r.mask, p.mask)))
    return f


UY = lambda S, g: g.uy
KM = 1000.0
for nm, fn, val, unit, nz in [
        ('negation', lambda S, p, k: -p, lambda S, y, k: -y, UY, False),
        ('plus number', lambda S, p, k: p + k, lambda S, y, k: y + k, UY, False),
        ('number plus', lambda S, p, k: k + p, lambda S, y, k: y + k, UY, False),
        ('minus number', lambda S, p, k: p - k, lambda S, y, k: y - k, UY, False),
        ('number minus', lambda S, p, k: k - p, lambda S, y, k: k - y, UY, False),
        ('plus quantity', lambda S, p, k: p + k * S.make_unit('km/s'), lambda S, y, k: y + k * KM, UY, False),
        ('minus quantity', lambda S, p, k: p - k * S.make_unit('km/s'), lambda S, y, k: y - k * KM, UY, False),
        ('times number', lambda S, p, k: p * k, lambda S, y, k: y * k, UY, False),
        ('number times', lambda S, p, k: k * p, lambda S, y, k: y * k, UY, False),
        ('times quantity', lambda S, p, k: p * (k * S.make_unit('s')), lambda S, y, k: y * k, lambda S, g: g.uy * S.make_unit('s'), True),
        ('over number', lambda S, p, k: p / k, lambda S, y, k: S.div(y, k), UY, True),
        ('over quantity', lambda S, p, k: p / (k * S.make_unit('kg')), lambda S, y, k: S.div(y, k), lambda S, g: g.uy / S.make_unit('kg'), True),
        ('square', lambda S, p, k: p ** 2, lambda S, y, k: y * y, lambda S, g: g.uy * g.uy, False),
        ('power one', lambda S, p, k: p ** 1, lambda S, y, k: y, UY, False),
        ('power zero', lambda S, p, k: p ** 0, lambda S, y, k: 1.0, lambda S, g: g.uy / g.uy, False)]:
    contract('C12', nm, ['Profile.__init__', 'Profile.' + {'negation': '__neg__', 'square': '__pow__', 'power one': '__pow__', 'power zero': '__pow__'}.get(
        nm, '__%s__' % ('add' if 'plus' in nm else 'sub' if 'minus' in nm else 'mul' if 'times' in nm else 'truediv'))],
        sizes=SZ)(arith(nm, fn, val, unit, nz))


def two(S, fact=True, y2='km/s'):
    p, g = S.prof(nan=True, lo=2)
    q, h = S.prof('q', n=g.n, x=g.x, nan=True, units=(g.ux, S.make_unit(y2)))
    return p, g, q, h


def arith2(name, fn, val, unit, y2='km/s', zero=False):
    def f(S):
        p, g, q, h = two(S, y2=y2)
        r = S.run(name, fn, p, q)
        fl = lambda i: S.Or(S.pm(g, i), S.pm(h, i), S.eq(S.el(h.y, i), 0.0) if zero else S.false())
        u = unit(S, g, h)
        shaped(S, 'result', r, g.n)
        S.check_all('result: positions', (g.n,), lambda i: S.eq(S.el(r.x, i), S.el(g.x, i)))
        S.check_all('result: mask flags', (g.n,), lambda i: S.iff(S.el(r.mask, i), fl(i)))
        S.check('result: pure unit', S.eq(r.unit_y.asNumber(), 1.0))
        S.check('result: position unit', S.ueq(r.unit_x, g.ux))
        try:
            k = (r.unit_y / u).asNumber(1)
        except Exception:
            k = None
        S.must('result: dimension', k is not None)
        S.check_all('result: physical values', (g.n,), lambda i: S.Or(fl(i), S.eq(S.el(r.y, i) * k, val(S, S.el(g.y, i), S.el(h.y, i)))))
        S.check_all('result: masked values read NaN', (g.n,), lambda i: S.imp(fl(i), S.isnan(S.el(r.y, i))))
        S.prof_same('first operand', p, g)
        S.prof_same('second operand', q, h)
    return f


contract('C12', 'profile plus profile', ['Profile.__add__'], sizes=SZ)(arith2('add', op.add, lambda S, a, b: a + KM * b, lambda S, g, h: g.uy))
contract('C12', 'profile minus profile', ['Profile.__sub__', 'Profile.__add__', 'Profile.__neg__'], sizes=SZ)(arith2('sub', op.sub, lambda S, a, b: a - KM * b, lambda S, g, h: g.uy))
for y2 in ('km/s', 'kg'):
    contract('C12', 'profile times profile (%s)' % y2, ['Profile.__mul__'], sizes=SZ2)(arith2('mul', op.mul, lambda S, a, b: a * b, lambda S, g, h: g.uy * h.uy, y2))
    contract('C12', 'profile over profile (%s)' % y2, ['Profile.__truediv__'], sizes=SZ)(
        arith2('div', op.truediv, lambda S, a, b: S.div(a, b), lambda S, g, h: g.uy / h.uy, y2, True))


def bad_operands(fn, name):
    def f(S):
        p, g = S.prof()
        c = S.choice('case', ['axis', 'length', 'x unit'] + (['y unit'] if name in ('plus', 'minus') else []))
        if c == 'axis':
            q, h = S.prof('q', n=g.n)
            big = S.sum((g.n,), lambda i: S.abs(S.el(g.x, i)))
            S.assume(S.exists((g.n,), lambda i: S.lt(big, S.abs(S.el(g.x, i) - S.el(h.x, i)))))
            S.assume(S.lt(0.0, big))
        elif c == 'length':
            k = S.n('k', 2)
            S.assume(S.Not(S.eqn(k, g.n)))
            q, h = S.prof('q', n=k)
        else:
            q, h = S.prof('q', n=g.n, x=g.x, units=(S.make_unit('km'), g.uy) if c == 'x unit' else (g.ux, S.make_unit('kg')))
            S.assume(S.exists((g.n,), lambda i: S.Not(S.eq(S.el(g.x, i), 0.0))))
        S.check('rejected: %s' % c, not S.call(fn, p, q).ok)
        S.prof_same('first operand', p, g)
        S.prof_same('second operand', q, h)
    return f


for nm, fn in (('plus', op.add), ('minus', op.sub), ('times', op.mul), ('over', op.truediv)):
    contract('C12', 'profile %s a profile that does not fit' % nm, ['Profile.__%s__' % {'plus': 'add', 'minus': 'sub', 'times': 'mul', 'over': 'truediv'}[nm]],
             unbounded=False, why_bounded='sum over the axis in the requires-clause', sizes=({'n': 2, 'k': 3}, {'n': 3, 'k': 2}))(bad_operands(fn, nm))


def add_other_x_unit(S):
    p, g = S.prof()
    x2 = S.np.array(g.x) * 1000.0
    q, h = S.prof('q', n=g.n, x=x2, units=(S.make_unit('mm'), S.make_unit('km/s')))
    r = S.run('add', op.add, p, q)
    S.prof_is('result', r, g.n, lambda i: S.el(g.x, i), lambda i: S.Or(S.pm(g, i), S.pm(h, i)), lambda i: S.el(g.y, i) + KM * S.el(h.y, i), g.ux, g.uy)


# ---- lookups and statistics
def value_at(S):
    p, g = S.prof()
    v = S.near('v', [g.x])
    r = S.run('get_interpolated_values', p.get_interpolated_values, x=v)
    out = S.Or(S.lt(v, S.el(g.x, 0)), S.lt(S.el(g.x, -1), v))
    if S.split(out):
        S.check('nothing off the profile', S.eqn(S.length(r), 0))
        return
    i0, i1 = S.rank_gt(g.x, v) - 1, S.rank_ge(g.x, v)
    S.assume(S.Not(S.Or(S.pm(g, i0), S.pm(g, i1))))
    S.must('one value', S.split(S.eqn(S.length(r), 1)))
    x0, x1, y0, y1 = S.el(g.x, i0), S.el(g.x, i1), S.el(g.y, i0), S.el(g.y, i1)
    e = r[0] if isinstance(r, list) else S.el(getattr(r, 'data', r) if S.symbolic else r, 0)
    S.check('linear between the bracketing samples', S.ite_b(S.eqn(i0, i1), S.eq(e, y0), S.eq(e * (x1 - x0), y0 * (x1 - v) + y1 * (v - x0))))
    S.prof_same('profile', p, g)


def value_at_ind(S):
    p, g = S.prof()
    k = S.int('k', 0, g.n - 1)
    S.assume(S.Not(S.pm(g, k)))
    r = S.run('get_interpolated_values', p.get_interpolated_values, x=k, ind=True)
    S.must('one value', S.split(S.eqn(S.length(r), 1)))
    S.check('value of the sample', S.eq(S.el(r.data if S.symbolic else r, 0), S.el(g.y, k)))


def position_of(ind):
    def f(S):
        p, g = S.prof(mask=True)
        v = S.real('v')
        S.assume(S.forall((g.n,), lambda i: S.Or(S.pm(g, i), S.Not(S.eq(S.el(g.y, i), v)))))
        r = S.run('get_value_position', p.get_value_position, v, ind=ind)
        n = int(g.n)
        cross = [S.split(S.And(S.Not(S.pm(g, i)), S.Not(S.pm(g, i + 1)), S.Or(S.And(S.lt(S.el(g.y, i), v), S.lt(v, S.el(g.y, i + 1))),
                                                                            S.And(S.lt(v, S.el(g.y, i)), S.lt(S.el(g.y, i + 1), v))))) for i in range(n - 1)]
        want = [i for i in range(n - 1) if cross[i]]
        S.must('one position per crossing', bool(S.eqn(S.length(r), len(want))))
        for j, i in enumerate(want):
            y0, y1 = S.el(g.y, i), S.el(g.y, i + 1)
            x0, x1 = (float(i), float(i + 1)) if ind else (S.el(g.x, i), S.el(g.x, i + 1))
            S.check('crossing %d' % j, S.eq(S.el(r, j) * (y1 - y0), x0 * (y1 - v) + x1 * (v - y0)))
        S.prof_same('profile', p, g)
    return f


def stats(S):
    p, g = S.prof(nan=True, lo=1)
    un = lambda i: S.Not(S.pm(g, i))
    some = S.exists((g.n,), un)
    if S.split(some):
        hi, lo, mean = S.run('max', lambda: p.max), S.run('min', lambda: p.min), S.run('mean', lambda: p.mean)
        S.check_all('bounds of the unmasked values', (g.n,), lambda i: S.imp(un(i), S.And(S.le(lo, S.el(g.y, i)), S.le(S.el(g.y, i), hi))))
        S.check('maximum is reached', S.exists((g.n,), lambda i: S.And(un(i), S.eq(S.el(g.y, i), hi))))
        S.check('minimum is reached', S.exists((g.n,), lambda i: S.And(un(i), S.eq(S.el(g.y, i), lo))))
        S.check('mean of the unmasked values', S.eq(mean * S.count((g.n,), un), S.sum((g.n,), lambda i: S.ite(un(i), S.el(g.y, i), 0.0))))
    else:
        S.check('nothing to report when all is masked', p.max is None and p.min is None and p.mean is None)
    S.prof_same('profile', p, g)


def fill_value(inplace):
    def f(S):
        p, g = S.prof(nan=True)
        v = S.real('v')
        S.assume(S.exists((g.n,), lambda i: S.Not(S.pm(g, i))))
        r = S.run('fill', p.fill, kind='value', fill_value=v, inplace=inplace)
        c = p if inplace else r
        S.prof_is('filled', c, g.n, lambda i: S.el(g.x, i), lambda i: S.false(), lambda i: S.ite(S.pm(g, i), v, S.el(g.y, i)), g.ux, g.uy)
        if not inplace:
            S.prof_same('original', p, g)
    return f


def integral(S):
    p, g = S.prof(mask=False)
    v, u = S.run('get_integral', p.get_integral)
    n = int(g.n)
    S.check('trapezes', S.eq(2.0 * v, sum([(S.el(g.x, i + 1) - S.el(g.x, i)) * (S.el(g.y, i + 1) + S.el(g.y, i)) for i in range(n - 1)])))
    S.check('unit', S.ueq(u, g.ux * g.uy))


def gradient(S):
    p, g = S.prof(mask=False, uniform=True)
    r = S.run('get_gradient', p.get_gradient)
    n = g.n
    d = S.el(g.x, 1) - S.el(g.x, 0)
    up, dn = lambda i: S.ite(S.lt(i, n - 1), i + 1, i), lambda i: S.ite(S.lt(0, i), i - 1, i)
    S.check_all('central differences inside, one-sided at the ends', (n,), lambda i: S.eq(
        S.el(r.y, i) * d * S.ite(S.And(S.lt(0, i), S.lt(i, n - 1)), 2.0, 1.0), S.el(g.y, up(i)) - S.el(g.y, dn(i))))
    S.check('unit', S.ueq(r.unit_y, g.uy / g.ux))
    S.prof_same('profile', p, g)


contract('C12', 'construction, mask array', ['Profile.__init__'], sizes=SZ)(build('array'))
contract('C12', 'construction, mask flag', ['Profile.__init__'], sizes=({'n': 0}, {'n': 1}, {'n': 2}, {'n': 3}))(build('bool'))
contract('C12', 'construction, lengths differ', ['Profile.__init__'], sizes=({'n': 2, 'k': 3}, {'n': 2, 'k': 1}))(build_bad)
contract('C12', 'assigning positions', ['Profile.x'], sizes=({'n': 2, 'k': 2}, {'n': 3, 'k': 3}, {'n': 2, 'k': 1}, {'n': 2, 'k': 3}))(set_x)
contract('C12', 'assigning values', ['Profile.y'], sizes=SZ2)(set_y)
for how in ('array', 'flag'):
    contract('C12', 'assigning a mask %s' % how, ['Profile.mask'], sizes=SZ2)(set_mask(how))
contract('C12', 'inserting a point', ['Profile.add_point', 'Profile.x', 'Profile.y'], sizes=SZ)(add_point)
contract('C12', 'inserting points', ['Profile.add_points'], sizes=({'n': 2, 'k': 1}, {'n': 2, 'k': 2}))(add_points)
contract('C12', 'inserting points with other units', ['Profile.add_points'], sizes=({'n': 2, 'k': 1}, {'n': 2, 'k': 2}))(add_points_units)
contract('C12', 'removing a point', ['Profile.remove_point'], sizes=SZ)(remove_point)
for ip in (False, True):
    t = ', in place' if ip else ''
    contract('C12', 'crop to indices' + t, ['Profile.crop'], sizes=SZ2)(crop_ind(ip))
    for lw in ('before', 'at', 'between'):
        contract('C12', 'crop to positions, lower end %s%s' % ({'before': 'before the first sample', 'at': 'at a sample', 'between': 'between samples'}[lw], t), ['Profile.crop'], **SMALL)(crop_x(ip, lw))
    contract('C12', 'crop to values' + t, ['Profile.crop'], sizes=SZ2)(crop_y(ip, False))
    contract('C12', 'crop to positions and values' + t, ['Profile.crop'], **SMALL)(crop_y(ip, True))
    contract('C12', 'crop masked border' + t, ['Profile.crop_masked_border'], **SMALL)(masked_border(ip))
    contract('C12', 'scale' + t, ['Profile.scale'], sizes=SZ)(scale(ip, 1))
    contract('C12', 'scale by a negative factor' + t, ['Profile.scale'], sizes=SZ)(scale(ip, -1))
    contract('C12', 'scale by quantities' + t, ['Profile.scale'], sizes=SZ)(scale_units(ip))
    contract('C12', 'fill with a value' + t, ['Profile.fill'], sizes=SZ2)(fill_value(ip))
contract('C12', 'profile plus profile, other position unit', ['Profile.__add__'], sizes=SZ2)(add_other_x_unit)
contract('C12', 'value at a position', ['Profile.get_interpolated_values', 'Profile._get_interpolated_single_value'], **SMALL)(value_at)
contract('C12', 'value at an index', ['Profile.get_interpolated_values', 'Profile._get_interpolated_single_value'], **SMALL)(value_at_ind)
for ind in (False, True):
    contract('C12', 'position of a value%s' % (' as an index' if ind else ''), ['Profile.get_value_position'], **SMALL)(position_of(ind))
contract('C12', 'minimum, maximum, mean', ['Profile.min', 'Profile.max', 'Profile.mean'], sizes=SZ)(stats)
contract('C12', 'integral', ['Profile.get_integral'], **SMALL)(integral)
contract('C12', 'gradient', ['Profile.get_gradient'], sizes=SZ2)(gradient)


# ---- filling by interpolation: the interpolator is scipy's, so these are sampled on the real code
def fill_interp(kind, inplace, crop):
    """Masked samples between unmasked ones are interpolated from the two neighbours; the border takes the nearest value (or is cropped)."""
    def f(S):
        p, g = S.prof(nan=True, lo=2)
        n = int(g.n)
        good = [i for i in range(n) if not S.pm(g, i)]
        S.assume(len(good) > 1)
        v = S.real('v')
        r = S.run('fill', p.fill, kind=kind, inplace=inplace, crop=crop, fill_value=v)
        c = p if inplace else r
        X, Y = (lambda i: float(g.x[i])), (lambda i: float(g.y[i]))

        def val(i):
            if i in good:
                return Y(i)
            if kind == 'value':
                return v
            if i < good[0]:
                return Y(good[0])
            if i > good[-1]:
                return Y(good[-1])
            a, b = max(k for k in good if k < i), min(k for k in good if k > i)
            if kind == 'nearest':
                da, db = X(i) - X(a), X(b) - X(i)
                if abs(da - db) < 1e-9 * (da + db):
                    return None
                return Y(a) if da < db else Y(b)
            return Y(a) + (Y(b) - Y(a)) * (X(i) - X(a)) / (X(b) - X(a))
        lo, hi = (good[0], good[-1]) if crop else (0, n - 1)
        m = hi - lo + 1
        S.prof_is('filled', c, m, lambda i: g.x[i + lo], lambda i: False, lambda i: c.y[i] if val(i + lo) is None else val(i + lo), g.ux, g.uy)
        if not inplace:
            S.prof_same('original', p, g)
    return f


def fill_nothing(S):
    p, g = S.prof(nan=True, lo=1)
    S.assume(S.Not(S.exists((g.n,), lambda i: S.Not(S.pm(g, i)))))
    S.check('a profile without values can not be filled', not S.call(p.fill, kind='value').ok)
    S.prof_same('profile', p, g)


SAMPLED = dict(sizes=(), unbounded=False, con_runs=60, why_bounded='scipy interpolator: sampled')
for ip in (False, True):
    for cr in (False, True):
        for kd in ('value', 'linear', 'slinear', 'nearest'):
            contract('C12', '%s fill%s%s' % (kd, ' of the cropped profile' if cr else '', ', in place' if ip else ''), ['Profile.fill', 'Profile.crop_masked_border'], **SAMPLED)(fill_interp(kd, ip, cr))
contract('C12', 'fill without values', ['Profile.fill'], sizes=SZ)(fill_nothing)
