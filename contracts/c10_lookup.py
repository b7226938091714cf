"""C10: position lookup, point values and profiles are correct at every position."""
from vc.spec import contract
from .common import mk, gvals, same_as_ghost

SZ = ({'nx': 2, 'ny': 2}, {'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2})
SMALL = dict(unbounded=False, why_bounded='one lookup per node of the line', sizes=SZ)


def lookup(direction, kind):
    def f(S):
        o, g = mk(S, 'sf', mask=False)
        a, n = (g.x, g.nx) if direction == 1 else (g.y, g.ny)
        v = S.near('v', [a])
        r = S.call(o.get_indice_on_axe, direction, v, kind=kind)
        out = S.Or(S.lt(v, S.el(a, 0)), S.lt(S.el(a, -1), v))
        if not r.ok:
            S.check('rejected only off the axis', out, r)
            return
        S.check('a position off the axis is rejected', S.Not(out))
        k = r.value
        i0, i1 = S.rank_gt(a, v) - 1, S.rank_ge(a, v)      # last node <= v, first node >= v
        if kind == 'bounds':
            S.must('two indices', len(k) == 2)
            S.check('bracketing indices', S.And(S.eqn(k[0], i0), S.eqn(k[1], i1)))
        elif kind == 'nearest':
            S.check('index of a bracketing node', S.Or(S.eqn(k, i0), S.eqn(k, i1)))
            S.check_all('no node is nearer', (n,), lambda i: S.le(S.abs(S.el(a, k) - v), S.abs(S.el(a, i) - v)))
        else:
            x0, x1 = S.el(a, i0), S.el(a, i1)
            S.check('fractional index interpolates linearly', S.And(
                S.le(i0, k), S.le(k, i1), S.eq((k - i0) * (x1 - x0), S.ite(S.eqn(i0, i1), 0.0, v - x0))))
    return f


def bad_lookup(S):
    o, g = mk(S, 'sf', mask=False)
    S.check('bad direction rejected', not S.call(o.get_indice_on_axe, 3, S.el(g.x, 0)).ok)
    S.check('bad kind rejected', not S.call(o.get_indice_on_axe, 1, S.el(g.x, 0), kind='foo').ok)


def val(S, kind, r):
    return [r] if kind == 'sf' else [S.el(r, 0), S.el(r, 1)]


def value_ind(kind):
    def f(S):
        o, g = mk(S, kind)
        i, j = S.int('i', -2, g.nx + 1), S.int('j', -2, g.ny + 1)
        r = S.call(o.get_value, i, j, ind=True)
        inside = S.And(S.le(0, i), S.lt(i, g.nx), S.le(0, j), S.lt(j, g.ny))
        if not r.ok:
            S.check('rejected only outside', S.Not(inside), r)
            return
        S.check('an index outside is rejected', inside)
        S.check('value of the node, NaN when masked', S.And(*[
            S.ite_b(S.gm(g, i, j), S.isnan(a), S.eq(a, b)) for a, b in zip(val(S, kind, r.value), gvals(S, g, i, j))]))
        same_as_ghost(S, o, g, 'field')
    return f


def value_node(kind):
    def f(S):
        o, g = mk(S, kind)
        i, j = S.int('i', 0, g.nx - 1), S.int('j', 0, g.ny - 1)
        r = S.run('get_value at a node', o.get_value, S.el(g.x, i), S.el(g.y, j))
        S.check('value of the node, NaN when masked', S.And(*[
            S.ite_b(S.gm(g, i, j), S.isnan(a), S.eq(a, b)) for a, b in zip(val(S, kind, r), gvals(S, g, i, j))]))
        same_as_ghost(S, o, g, 'field')
    return f


def value_line(kind, along):
    """On a grid line, between two nodes: linear interpolation."""
    def f(S):
        o, g = mk(S, kind)
        a, n, b, m = (g.x, g.nx, g.y, g.ny) if along == 'x' else (g.y, g.ny, g.x, g.nx)
        q = S.int('q', 0, m - 1)
        v = S.near('v', [a])
        args = (v, S.el(b, q)) if along == 'x' else (S.el(b, q), v)
        r = S.call(o.get_value, *args)
        out = S.Or(S.lt(v, S.el(a, 0)), S.lt(S.el(a, -1), v))
        if not r.ok:
            S.check('rejected only off the axes', out, r)
            return
        S.check('a position off the axes is rejected', S.Not(out))
        i0, i1 = S.rank_gt(a, v) - 1, S.rank_ge(a, v)
        at = (lambda k: (k, q)) if along == 'x' else (lambda k: (q, k))
        m0, m1 = S.gm(g, *at(i0)), S.gm(g, *at(i1))
        x0, x1 = S.el(a, i0), S.el(a, i1)
        for k, (res, ) in enumerate([(u,) for u in val(S, kind, r.value)]):
            v0, v1 = gvals(S, g, *at(i0))[k], gvals(S, g, *at(i1))[k]
            S.check('NaN when a needed node is masked (%d)' % k, S.imp(S.Or(m0, m1), S.isnan(res)))
            S.check('linear interpolation (%d)' % k, S.Or(m0, m1, S.ite_b(
                S.eqn(i0, i1), S.eq(res, v0), S.eq(res * (x1 - x0), v0 * (x1 - v) + v1 * (v - x0)))))
    return f


def value_out(kind):
    def f(S):
        o, g = mk(S, kind)
        x, y = S.near('x', [g.x]), S.near('y', [g.y])
        S.assume(S.Or(S.lt(x, S.el(g.x, 0)), S.lt(S.el(g.x, -1), x), S.lt(y, S.el(g.y, 0)), S.lt(S.el(g.y, -1), y)))
        S.check('a position off the field is rejected', not S.call(o.get_value, x, y).ok)
        same_as_ghost(S, o, g, 'field')
    return f


def value_unit(S):
    o, g = mk(S, 'sf')
    i, j = S.int('i', 0, g.nx - 1), S.int('j', 0, g.ny - 1)
    S.assume(S.Not(S.gm(g, i, j)))
    for lab, r in (('by index', S.run('by index', o.get_value, i, j, ind=True, unit=True)),
                   ('by position', S.run('by position', o.get_value, S.el(g.x, i), S.el(g.y, j), unit=True))):
        S.check('quantity is value times unit, ' + lab, S.eq((r / g.uv).asNumber(1), S.el(g.v, i, j)))


def geo(g, direction):
    """axis along which the position is chosen, axis of the profile, index map."""
    if direction == 'x':
        return g.x, g.nx, g.y, g.ny, g.uy, (lambda k, l: (k, l))
    return g.y, g.ny, g.x, g.nx, g.ux, (lambda k, l: (l, k))


def getp(S, o, kind, comp, *a, **k):
    return S.call(o.get_profile, *(a if kind == 'sf' else (('vx', 'vy')[comp],) + a), **k)


def profile_node(kind, direction, interp, ind):
    def f(S):
        o, g = mk(S, kind)
        a, n, b, m, ub, at = geo(g, direction)
        comp = 0 if kind == 'sf' else S.choice('comp', [0, 1])
        k = S.int('k', 0, n - 1)
        r = getp(S, o, kind, comp, direction, k if ind else S.el(a, k), ind=ind, interp=interp)
        S.check('profile at a node returns', r.ok, r)
        if not r.ok:
            return
        S.prof_is('profile', r.value, m, lambda l: S.el(b, l), lambda l: S.gm(g, *at(k, l)), lambda l: gvals(S, g, *at(k, l))[comp], ub, g.uv)
        same_as_ghost(S, o, g, 'field')
    return f


def profile_between(direction):
    """Linear profile at any position on the axis."""
    def f(S):
        o, g = mk(S, 'sf')
        a, n, b, m, ub, at = geo(g, direction)
        v = S.near('v', [a])
        r = S.call(o.get_profile, direction, v)
        out = S.Or(S.lt(v, S.el(a, 0)), S.lt(S.el(a, -1), v))
        if not r.ok:
            S.check('rejected only off the axis', out, r)
            return
        S.check('a position off the axis is rejected', S.Not(out))
        i0, i1 = S.rank_gt(a, v) - 1, S.rank_ge(a, v)
        x0, x1 = S.el(a, i0), S.el(a, i1)
        S.prof_is('profile', r.value, m, lambda l: S.el(b, l), lambda l: S.Or(S.gm(g, *at(i0, l)), S.gm(g, *at(i1, l))),
                  lambda l: S.ite(S.eqn(i0, i1), S.el(g.v, *at(i0, l)),
                                  S.div(S.el(g.v, *at(i0, l)) * (x1 - v) + S.el(g.v, *at(i1, l)) * (v - x0), S.ite(S.eqn(i0, i1), 1.0, x1 - x0))), ub, g.uv)
    return f


def profile_nearest(direction):
    def f(S):
        o, g = mk(S, 'sf')
        a, n, b, m, ub, at = geo(g, direction)
        v = S.near('v', [a])
        r = S.call(o.get_profile, direction, v, interp='nearest')
        out = S.Or(S.lt(v, S.el(a, 0)), S.lt(S.el(a, -1), v))
        if not r.ok:
            S.check('rejected only off the axis', out, r)
            return
        S.check('a position off the axis is rejected', S.Not(out))
        i0, i1 = S.rank_gt(a, v) - 1, S.rank_ge(a, v)
        near0 = S.lt(v - S.el(a, i0), S.el(a, i1) - v)
        far = S.lt(S.el(a, i1) - v, v - S.el(a, i0))
        S.assume(S.Or(near0, far, S.eqn(i0, i1)))          # a tie may go either way
        k = S.ite(near0, i0, i1)
        S.prof_is('profile', r.value, m, lambda l: S.el(b, l), lambda l: S.gm(g, *at(k, l)), lambda l: S.el(g.v, *at(k, l)), ub, g.uv)
    return f


def profile_mean(kind, direction, how):
    """Profile averaged over an interval of positions (or of indices, or over everything)."""
    def f(S):
        o, g = mk(S, kind)
        a, n, b, m, ub, at = geo(g, direction)
        comp = 0 if kind == 'sf' else S.choice('comp', [0, 1])
        n, m_ = int(n), int(m)
        if how == 'all':
            k0, k1 = 0, n
            r = getp(S, o, kind, comp, direction, 'all')
        elif how == 'ind':
            k0 = S.choice('k0', list(range(n)))
            k1 = S.choice('k1', list(range(n)))
            S.assume(k0 < k1)
            r = getp(S, o, kind, comp, direction, [k0, k1], ind=True)
        else:
            lo, hi = S.near('lo', [a]), S.near('hi', [a])
            k0_, k1_ = S.rank_ge(a, lo), S.rank_gt(a, hi)
            S.assume(S.lt(k0_, k1_))
            k0 = [k for k in range(n) if S.split(S.eqn(k0_, k))][0]
            k1 = [k for k in range(n + 1) if S.split(S.eqn(k1_, k))][0]
            r = getp(S, o, kind, comp, direction, [lo, hi])
        S.check('averaged profile returns', r.ok, r)
        if not r.ok:
            return
        S.prof_is('profile', r.value, m, lambda l: S.el(b, l), lambda l: S.Or(*[S.gm(g, *at(k, l)) for k in range(k0, k1)]),
                  lambda l: S.div(sum([gvals(S, g, *at(k, l))[comp] for k in range(k0, k1)]), float(k1 - k0)), ub, g.uv)
        same_as_ghost(S, o, g, 'field')
    return f


for d in (1, 2):
    for kind in ('bounds', 'nearest', 'decimal'):
        contract('C10', 'index lookup on axis %d, %s' % (d, kind), ['Field.get_indice_on_axe'])(lookup(d, kind))
contract('C10', 'invalid lookups', ['Field.get_indice_on_axe'])(bad_lookup)
for kind, cls in (('sf', 'ScalarField'), ('vf', 'VectorField')):
    F = ['%s.get_value' % cls, 'ScalarField.get_value', 'Field.get_indice_on_axe']
    contract('C10', '%s value by index' % kind, F)(value_ind(kind))
    contract('C10', '%s value at a node' % kind, F)(value_node(kind))
    contract('C10', '%s value off the field' % kind, F)(value_out(kind))
    for d in 'xy':
        contract('C10', '%s value between nodes along %s' % (kind, d), F)(value_line(kind, d))
    P = ['%s.get_profile' % cls, 'ScalarField.get_profile', 'ScalarField.get_value', 'Profile.__init__']
    for d in 'xy':
        contract('C10', '%s profile at index, nearest, direction %s' % (kind, d), P)(profile_node(kind, d, 'nearest', True))
        contract('C10', '%s profile at index, linear, direction %s' % (kind, d), P, **SMALL)(profile_node(kind, d, 'linear', True))
        contract('C10', '%s profile at node, linear, direction %s' % (kind, d), P, **SMALL)(profile_node(kind, d, 'linear', False))
        contract('C10', '%s profile at node, nearest, direction %s' % (kind, d), P)(profile_node(kind, d, 'nearest', False))
        for how in ('all', 'ind', 'interval'):
            contract('C10', '%s averaged profile (%s), direction %s' % (kind, how, d), P, **SMALL)(profile_mean(kind, d, how))
contract('C10', 'sf value with unit', ['ScalarField.get_value'])(value_unit)
for d in 'xy':
    contract('C10', 'sf linear profile anywhere, direction %s' % d, ['ScalarField.get_profile', 'ScalarField.get_value'], **SMALL)(profile_between(d))
    contract('C10', 'sf nearest profile anywhere, direction %s' % d, ['ScalarField.get_profile'])(profile_nearest(d))
