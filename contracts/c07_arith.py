"""C07: field arithmetic is pointwise, unit aware and mask aware."""
import operator as op

from vc.spec import contract
from .common import mk, node_map, same_as_ghost, gvals

FN = {'sf': ['ScalarField.__%s__' % n for n in ('neg', 'abs', 'pow', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv')],
      'vf': ['VectorField.__%s__' % n for n in ('neg', 'abs', 'pow', 'add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv')]}
OPS = {'+': op.add, '-': op.sub, '*': op.mul, '/': op.truediv}


def res(S, c, g, masked, vals, uv, kind_of=None):
    S.must('result is a field of the same kind', S.isinst(c, type(g.o)))
    node_map(S, c, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), masked, vals, g.ux, g.uy, uv)


def num_op(S, o, a, b):
    return S.div(a, b) if o == '/' else OPS[o](a, b)


def unary(kind, what):
    def f(S):
        o, g = mk(S, kind)
        if what == 'neg':
            c, fn = S.run('-f', op.neg, o), lambda v: -v
        else:
            c, fn = S.run('abs(f)', abs, o), lambda v: S.abs(v)
        res(S, c, g, lambda i, j: S.gm(g, i, j), lambda i, j: [fn(v) for v in gvals(S, g, i, j)], g.uv)
    return f


def power(kind, k):
    def f(S):
        o, g = mk(S, kind, pos=(k == 0.5), nz=(k == -1))
        c = S.run('f**k', op.pow, o, k)
        res(S, c, g, lambda i, j: S.gm(g, i, j), lambda i, j: [S.pow(v, k) for v in gvals(S, g, i, j)], g.uv ** k)
    return f


def with_number(kind, o_, right):
    def f(S):
        o, g = mk(S, kind, nz=(o_ == '/' and right))
        k = S.real('k', nz=(o_ == '/' and not right))
        if S.bool('as integer'):
            k = S.int('ki', -3, 3)
            if o_ == '/' and not right:
                S.assume(S.Not(S.eqn(k, 0)))
        c = S.run('operation', OPS[o_], *((k, o) if right else (o, k)))
        fn = (lambda v: num_op(S, o_, k, v)) if right else (lambda v: num_op(S, o_, v, k))
        uv = g.uv
        if o_ == '/' and right:
            uv = 1 / g.uv
        res(S, c, g, lambda i, j: S.gm(g, i, j), lambda i, j: [fn(v) for v in gvals(S, g, i, j)], uv)
    return f


def with_quantity(kind, o_, right):
    """The operand is a number with a unit (any compatible unit for + and -)."""
    def f(S):
        base = S.make_unit('m')
        u1, f1 = S.unit('u1', base)
        u2, f2 = S.unit('u2', base)
        o, g = mk(S, kind, units=(S.make_unit('s'), S.make_unit('s'), u1), nz=(o_ == '/' and right))
        k = S.real('k', nz=(o_ == '/' and not right) or o_ == '*')
        if o_ == '/' and right:
            S.assume(S.Not(S.eq(k, 0.0)))
        q = k * u2
        # (the Unum package captures 'quantity / field' before the field sees it: the reflected method is the entry point)
        c = S.run('operation', o.__rtruediv__, q) if right else S.run('operation', OPS[o_], o, q)
        S.must('result is a field of the same kind', S.isinst(c, type(o)))
        # physical values (in m, m2 or plain numbers)
        if o_ in '+-':
            S.check('unit of the result is the unit of the field', S.ueq(c.unit_values, u1))
            pu = f1
        elif o_ == '*':
            pu = (c.unit_values / (base * base)).asNumber(1)
        else:
            pu = c.unit_values.asNumber(1)
        S.check('unit of the result has numeric part one', S.eq(c.unit_values.asNumber(), 1.0))
        fn = (lambda v: num_op(S, o_, k * f2, v * f1)) if right else (lambda v: num_op(S, o_, v * f1, k * f2))
        cs = S.comps(c)
        S.check_all('mask', (g.nx, g.ny), lambda i, j: S.iff(S.el(c.mask, i, j), S.gm(g, i, j)))
        S.check_all('physical value', (g.nx, g.ny), lambda i, j: S.Or(S.gm(g, i, j), S.And(*[
            S.eq(S.el(a, i, j) * pu, fn(v)) for a, v in zip(cs, gvals(S, g, i, j))])))
        S.check_all('masked nodes read NaN', (g.nx, g.ny), lambda i, j: S.imp(S.gm(g, i, j), S.And(*[S.isnan(S.el(a, i, j)) for a in cs])))
        S.check_all('x kept', (g.nx,), lambda i: S.eq(S.el(c.axe_x, i), S.el(g.x, i)))
        S.check_all('y kept', (g.ny,), lambda j: S.eq(S.el(c.axe_y, j), S.el(g.y, j)))
        S.check('axis units kept', S.And(S.ueq(c.unit_x, g.ux), S.ueq(c.unit_y, g.uy)))
    return f


def with_array(kind, o_, as_list=False):
    def f(S):
        o, g = mk(S, kind)
        a = S.arr('a', (g.nx, g.ny))
        c = S.run('operation', OPS[o_], o, a)
        zero = (lambda i, j: S.eq(S.el(a, i, j), 0.0)) if o_ == '/' else (lambda i, j: S.false())
        m = lambda i, j: S.Or(S.gm(g, i, j), zero(i, j))
        res(S, c, g, m, lambda i, j: [num_op(S, o_, v, S.el(a, i, j)) for v in gvals(S, g, i, j)], g.uv)
    return f


def vf_pair(o_):
    def f(S):
        o, g = mk(S, 'vf')
        a = S.arr('a', (2,))
        c = S.run('operation', OPS[o_], o, a)
        res(S, c, g, lambda i, j: S.gm(g, i, j),
            lambda i, j: [num_op(S, o_, v, S.el(a, k)) for k, v in enumerate(gvals(S, g, i, j))], g.uv)
    return f


def array_shape(kind, o_):
    def f(S):
        o, g = mk(S, kind)
        n, m = S.n('m1'), S.n('m2')
        S.assume(S.Or(S.Not(S.eqn(n, g.nx)), S.Not(S.eqn(m, g.ny))))
        r = S.call(OPS[o_], o, S.arr('a', (n, m)))
        S.check('an array of another shape is rejected', not r.ok)
        same_as_ghost(S, o, g, 'operand')
    return f


def two_fields(kind, o_, kind2=None):
    """Both operands on the same grid, value units related by any factor."""
    def f(S):
        k2 = kind2 or kind
        base = S.make_unit('m')
        u1, f1 = S.unit('u1', base)
        u2, f2 = S.unit('u2', base)
        ux, uy = S.make_unit('s'), S.make_unit('kg')
        o, g = mk(S, kind, units=(ux, uy, u1))
        p, h = mk(S, k2, tag='h', nx=g.nx, ny=g.ny, axes=(g.x, g.y), units=(ux, uy, u2))
        c = S.run('operation', OPS[o_], o, p)
        S.must('result is a field of the kind of the first operand', S.isinst(c, type(o)))
        zero = (lambda i, j: S.eq(gvals(S, h, i, j)[0], 0.0)) if o_ == '/' else (lambda i, j: S.false())
        m = lambda i, j: S.Or(S.gm(g, i, j), S.gm(h, i, j), zero(i, j))
        if o_ in '+-':
            S.check('unit of the result is the unit of the first field', S.ueq(c.unit_values, u1))
            pu = f1
        elif o_ == '*':
            pu = (c.unit_values / (base * base)).asNumber(1)
        else:
            pu = c.unit_values.asNumber(1)
        S.check('unit of the result has numeric part one', S.eq(c.unit_values.asNumber(), 1.0))
        cs = S.comps(c)

        def phys(i, j):
            hv = gvals(S, h, i, j)
            if len(hv) < len(cs):
                hv = hv * len(cs)
            return S.And(*[S.eq(S.el(a, i, j) * pu, num_op(S, o_, v * f1, w * f2)) for a, v, w in zip(cs, gvals(S, g, i, j), hv)])
        S.check_all('mask', (g.nx, g.ny), lambda i, j: S.iff(S.el(c.mask, i, j), m(i, j)))
        S.check_all('physical value', (g.nx, g.ny), lambda i, j: S.Or(m(i, j), phys(i, j)))
        S.check_all('masked nodes read NaN', (g.nx, g.ny), lambda i, j: S.imp(m(i, j), S.And(*[S.isnan(S.el(a, i, j)) for a in cs])))
        S.check_all('x kept', (g.nx,), lambda i: S.eq(S.el(c.axe_x, i), S.el(g.x, i)))
        S.check_all('y kept', (g.ny,), lambda j: S.eq(S.el(c.axe_y, j), S.el(g.y, j)))
        S.check('axis units kept', S.And(S.ueq(c.unit_x, g.ux), S.ueq(c.unit_y, g.uy)))
        S.check('result is one value and one flag per node', S.And(
            S.eqn(S.dim(c.mask, 0), g.nx), S.eqn(S.dim(c.mask, 1), g.ny),
            *[S.And(S.eqn(S.dim(a, 0), g.nx), S.eqn(S.dim(a, 1), g.ny)) for a in cs]))
    return f


def bad_units(kind, o_, what):
    def f(S):
        o, g = mk(S, kind)
        u = {'values': (g.ux, g.uy, S.make_unit('kg')), 'x': (S.make_unit('kg'), g.uy, g.uv), 'y': (g.ux, S.make_unit('kg'), g.uv)}
        if what == 'quantity':
            p = 2.0 * S.make_unit('kg')
        else:
            p, h = mk(S, kind, tag='h', nx=g.nx, ny=g.ny, axes=(g.x, g.y), units=u[what])
        r = S.call(OPS[o_], o, p)
        S.check('operands with incompatible units are rejected', not r.ok)
        same_as_ghost(S, o, g, 'operand')
    return f


def other_grid(kind, o_, kind2=None):
    """Another grid of the same or of another size: product and quotient are rejected."""
    def f(S):
        o, g = mk(S, kind)
        p, h = mk(S, kind2 or kind, tag='h', nx=S.n('mx'), ny=S.n('my'))
        same = S.And(S.eqn(g.nx, h.nx), S.eqn(g.ny, h.ny))
        if not S.split(same):
            pass
        else:
            S.assume(S.Or(S.exists((g.nx,), lambda i: S.Not(S.eq(S.el(g.x, i), S.el(h.x, i)))),
                          S.exists((g.ny,), lambda j: S.Not(S.eq(S.el(g.y, j), S.el(h.y, j))))))
        r = S.call(OPS[o_], o, p)
        S.check('fields on different grids are rejected', not r.ok)
        same_as_ghost(S, o, g, 'operand')
    return f


def axis_units(kind, o_):
    """Same physical grid written in two length units."""
    def f(S):
        base = S.make_unit('m')
        u1, f1 = S.unit('u1', base)
        u2, f2 = S.unit('u2', base)
        k = S.div(f1, f2)
        uv = S.make_unit('kg')
        o, g = mk(S, kind, units=(u1, u1, uv))
        hx, hy = g.x * k, g.y * k
        p, h = mk(S, kind, tag='h', nx=g.nx, ny=g.ny, axes=(hx, hy), units=(u2, u2, uv))
        c = S.run('operation', OPS[o_], o, p)
        m = lambda i, j: S.Or(S.gm(g, i, j), S.gm(h, i, j))
        res(S, c, g, m, lambda i, j: [num_op(S, o_, v, w) for v, w in zip(gvals(S, g, i, j), gvals(S, h, i, j))], uv)
    return f


def overlap(kind, o_):
    """Grids that share some nodes: the result lives on the common nodes."""
    def f(S):
        o, g = mk(S, kind)
        # the second grid: every node of it is either a node of the first or well away from all of them
        p, h = mk(S, kind, tag='h', nx=S.n('mx'), ny=S.n('my'))
        pick = (('x', g.x, h.x, g.nx, h.nx), ('y', g.y, h.y, g.ny, h.ny))
        shared = {}
        for nm, a, b, n, m in pick:
            lst = []
            for i in range(n):
                for j in range(m):
                    d = S.abs(S.el(a, i) - S.el(b, j))
                    S.assume(S.Or(S.eq(d, 0.0), S.lt(0.01 * S.abs(S.el(a, i)), d)))
                    S.assume(S.Or(S.eq(d, 0.0), S.lt(0.01 * S.abs(S.el(b, j)), d)))
                    if S.split(S.eq(d, 0.0)):
                        lst.append((i, j))
            shared[nm] = lst
        sx, sy = shared['x'], shared['y']
        r = S.call(OPS[o_], o, p)
        if not sx or not sy:
            S.check('fields without a common node are rejected', not r.ok)
            return
        S.assume(len(sx) >= 2 and len(sy) >= 2)
        S.check('operation returns normally', r.ok, r)
        if not r.ok:
            return
        c = r.value
        m = lambda a, b: S.Or(S.gm(g, sx[a][0], sy[b][0]), S.gm(h, sx[a][1], sy[b][1]))
        node_map(S, c, len(sx), len(sy), lambda i: S.el(g.x, sx[i][0]), lambda j: S.el(g.y, sy[j][0]), m,
                 lambda a, b: [num_op(S, o_, v, w) for v, w in zip(gvals(S, g, sx[a][0], sy[b][0]), gvals(S, h, sx[a][1], sy[b][1]))],
                 g.ux, g.uy, g.uv)
    return f


def overlap_con(kind, o_):
    """Grids related by an index shift: node i of the first is node i-s of the second."""
    def f(S):
        o, g = mk(S, kind, uniform=True)
        sx, sy = S.choice('shiftx', list(range(0, int(g.nx) - 1))), S.choice('shifty', list(range(0, int(g.ny) - 1)))
        ex, ey = S.choice('extrax', [0, 1, 2]), S.choice('extray', [0, 1])
        dx, dy = S.el(g.x, 1) - S.el(g.x, 0), S.el(g.y, 1) - S.el(g.y, 0)
        # requires: node spacing well above the matching tolerance (1e-4 of the coordinate)
        for a, d, n in ((g.x, dx, g.nx), (g.y, dy, g.ny)):
            for k in (0, n - 1):
                S.assume(S.le(0.002 * S.abs(S.el(a, k)), d))
        mx, my = g.nx - sx + ex, g.ny - sy + ey
        hx = S.np.arange(mx) * dx + S.el(g.x, 0) + dx * sx
        hy = S.np.arange(my) * dy + S.el(g.y, 0) + dy * sy
        p, h = mk(S, kind, tag='h', nx=mx, ny=my, axes=(hx, hy))
        c = S.run('operation', OPS[o_], o, p)
        node_map(S, c, g.nx - sx, g.ny - sy, lambda i: S.el(g.x, i + sx), lambda j: S.el(g.y, j + sy),
                 lambda i, j: S.Or(S.gm(g, i + sx, j + sy), S.gm(h, i, j)),
                 lambda i, j: [num_op(S, o_, v, w) for v, w in zip(gvals(S, g, i + sx, j + sy), gvals(S, h, i, j))], g.ux, g.uy, g.uv)
    return f


def overlap_pool(kind, o_):
    """Grids sharing any nodes, in any positions; the operands may have other value units."""
    def f(S):
        o, g = mk(S, kind)
        axes, shared = [], []
        for nm, a, n in (('x', g.x, int(g.nx)), ('y', g.y, int(g.ny))):
            cand = [('new', S.el(a, 0) - 2.0)]
            for i in range(n):
                cand.append((i, S.el(a, i)))
                if i < n - 1:
                    cand.append(('new', (S.el(a, i) + S.el(a, i + 1)) / 2.0))
            cand.append(('new', S.el(a, n - 1) + 2.0))
            keep = [c for k, c in enumerate(cand) if S.choice('keep %s %d' % (nm, k), [True, False])]
            S.assume(len([c for c in keep if c[0] != 'new']) >= 2)
            axes.append(S.np.array([v for _, v in keep]))
            shared.append([(c, k) for k, (c, _) in enumerate(keep) if c != 'new'])
        uv = S.choice('uv', ['m/s', 'km/s'])
        k = {'m/s': 1.0, 'km/s': 1000.0}[uv]
        p, h = mk(S, kind, tag='h', nx=S.concrete(S.length(axes[0])), ny=S.concrete(S.length(axes[1])), axes=tuple(axes), units=(g.ux, g.uy, S.make_unit(uv)))
        sx, sy = shared
        # requires: distinct nodes are further apart than the matching tolerance
        for a, b in ((g.x, axes[0]), (g.y, axes[1])):
            for i in range(S.concrete(S.length(a))):
                for j in range(S.concrete(S.length(b))):
                    d = S.abs(S.el(a, i) - S.el(b, j))
                    S.assume(S.Or(S.eq(d, 0.0), S.lt(0.001 * (S.abs(S.el(a, i)) + S.abs(S.el(b, j))), d)))
        c = S.run('operation', OPS[o_], o, p)
        m = lambda a, b: S.Or(S.gm(g, sx[a][0], sy[b][0]), S.gm(h, sx[a][1], sy[b][1]))
        at = lambda a, b: (sx[S.concrete(a)], sy[S.concrete(b)])
        S.must('result: one node per common node', S.concrete(S.length(c.axe_x)) == len(sx) and S.concrete(S.length(c.axe_y)) == len(sy))
        for cc in S.comps(c) + [c.mask]:
            S.must('result: one value and flag per node', S.concrete(S.dim(cc, 0)) == len(sx) and S.concrete(S.dim(cc, 1)) == len(sy))
        for a in range(len(sx)):
            S.check('result: x of every node', S.eq(S.el(c.axe_x, a), S.el(g.x, sx[a][0])))
        for b in range(len(sy)):
            S.check('result: y of every node', S.eq(S.el(c.axe_y, b), S.el(g.y, sy[b][0])))
        for a in range(len(sx)):
            for b in range(len(sy)):
                S.check('result: value and flag of every node', S.cell(c, a, b, m(a, b), [
                    num_op(S, o_, v, k * w) for v, w in zip(gvals(S, g, sx[a][0], sy[b][0]), gvals(S, h, sx[a][1], sy[b][1]))]))
        S.check('result: units', S.And(S.ueq(c.unit_x, g.ux), S.ueq(c.unit_y, g.uy), S.ueq(c.unit_values, g.uv)))
    return f


def list_over_field(S):
    """list / scalar field (reflected division by an array)."""
    o, g = mk(S, 'sf')
    a = S.arr('a', (g.nx, g.ny))
    c = S.run('list / field', o.__rtruediv__, a)
    m = lambda i, j: S.Or(S.gm(g, i, j), S.eq(S.el(g.v, i, j), 0.0))
    node_map(S, c, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), m,
             lambda i, j: [S.div(S.el(a, i, j), S.el(g.v, i, j))], g.ux, g.uy, 1 / g.uv)


for kind in ('sf', 'vf'):
    F = FN[kind]
    for w in ('neg', 'abs'):
        contract('C07', '%s %s' % (kind, w), F)(unary(kind, w))
    for k in (2, 3, 1, 0.5, -1):
        contract('C07', '%s power %s' % (kind, k), F)(power(kind, k))
    for o_ in '+-*/':
        contract('C07', '%s %s number' % (kind, o_), F)(with_number(kind, o_, False))
        contract('C07', 'number %s %s' % (o_, kind), F)(with_number(kind, o_, True))
        contract('C07', '%s %s quantity' % (kind, o_), F)(with_quantity(kind, o_, False))
    for o_ in '*/' if kind == 'sf' else '+*/':
        contract('C07', '%s %s array' % (kind, o_), F)(with_array(kind, o_))
        contract('C07', '%s %s array of another shape' % (kind, o_), F, sizes=({'m1': 2, 'm2': 3}, {'m1': 3, 'm2': 2}))(array_shape(kind, o_))
    for o_ in '+-*/' if kind == 'sf' else '+-':
        contract('C07', '%s %s %s, same grid' % (kind, o_, kind), F)(two_fields(kind, o_))
    for what in ('values', 'x', 'y', 'quantity'):
        contract('C07', '%s + incompatible unit (%s)' % (kind, what), F)(bad_units(kind, '+', what))
        contract('C07', '%s - incompatible unit (%s)' % (kind, what), F)(bad_units(kind, '-', what))
    for o_ in '+-':
        contract('C07', '%s %s %s, axes in other units' % (kind, o_, kind), F)(axis_units(kind, o_))
    for o_ in '+-':
        contract('C07', '%s %s %s, grids sharing some nodes, sampled' % (kind, o_, kind), F, sizes=(), unbounded=False, why_bounded='node matching by enumeration: sampled only')(overlap_pool(kind, o_))
    contract('C07', '%s + %s, grids sharing some nodes' % (kind, kind), F, unbounded=False, why_bounded='node matching by enumeration',
             sizes=({'nx': 2, 'ny': 2, 'mx': 2, 'my': 2}, {'nx': 3, 'ny': 2, 'mx': 2, 'my': 2}))(overlap(kind, '+'))
    contract('C07', '%s - %s, shifted grids' % (kind, kind), F, unbounded=False, why_bounded='node matching by enumeration',
             sizes=({'nx': 3, 'ny': 2}, {'nx': 3, 'ny': 3}))(overlap_con(kind, '-'))
for o_ in '*/':
    contract('C07', 'sf %s sf on other grids' % o_, FN['sf'], sizes=({'nx': 2, 'ny': 2, 'mx': 2, 'my': 2}, {'nx': 2, 'ny': 2, 'mx': 2, 'my': 3}))(other_grid('sf', o_))
contract('C07', 'quantity / sf', FN['sf'])(with_quantity('sf', '/', True))
contract('C07', 'array / sf', FN['sf'])(list_over_field)
for o_ in '+-':
    contract('C07', 'vf %s pair' % o_, FN['vf'])(vf_pair(o_))
contract('C07', 'vf * sf', FN['vf'])(two_fields('vf', '*', 'sf'))
contract('C07', 'vf * sf on other grids', FN['vf'], sizes=({'nx': 2, 'ny': 2, 'mx': 2, 'my': 2}, {'nx': 2, 'ny': 2, 'mx': 2, 'my': 3}))(other_grid('vf', '*', 'sf'))
