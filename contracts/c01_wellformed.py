"""C01: fields stay well formed through import and every transformation.

The generators build a field through import_from_arrays from arbitrary axes, values and masks: every well-formed field is one of
them, so each contract below is an induction step "well formed before, well formed after" over histories of operations."""
from vc.spec import contract
from .common import mk, same_as_ghost
from . import ops
from .c09_inplace import table

# quotients by arrays or fields holding zeros: the statement says nothing on 0/0
NO_NAN = ('over array', 'over field', 'number over field')


def result(kind, name):
    def f(S):
        o, g, args, call = ops.OPS[kind][name](S)
        r = S.call(call, o)
        if not r.ok:
            return
        if name == 'absolute value' and kind == 'vf':
            S.must('a field', S.isinst(r.value, S.core.ScalarField) or S.isinst(r.value, S.core.VectorField))
        S.wellformed('result', r.value, nan=name not in NO_NAN)
        S.wellformed('operand', o)
    return f


def inplace(kind, call, mkw):
    def f(S):
        o, g = mk(S, kind, **(mkw or {}))
        kw = call(S, g)
        name = kw.pop('_m')
        S.call(getattr(o, name), inplace=True, **kw)
        # also when the arguments are rejected
        S.wellformed('object', o)
    return f


def imported(kind, how):
    def f(S):
        nx, ny = S.n('nx'), S.n('ny')
        x, y = S.axis('x', nx), S.axis('y', ny)
        dx, dy = S.bool('descx'), S.bool('descy')
        x, y = (x[::-1] if dx else x), (y[::-1] if dy else y)
        shape = (nx, ny)
        if how == 'transposed':
            S.assume(S.Not(S.eqn(nx, ny)))
            shape = (ny, nx)
        vs = [S.arr('v%d' % k, shape, nan=True) for k in range(1 if kind == 'sf' else 2)]
        kw = {'mask': S.boolarr('m', shape)} if how != 'no mask' else {}
        o = S.core.ScalarField() if kind == 'sf' else S.core.VectorField()
        S.run('import', o.import_from_arrays, x, y, *vs, unit_x='m', unit_y='mm', unit_values='m/s', **kw)
        S.wellformed('imported field', o, nx, ny)
    return f


def bad_shape(kind, which):
    """Arrays that fit neither the grid nor its transpose are rejected."""
    def f(S):
        nx, ny = S.n('nx'), S.n('ny')
        x, y = S.axis('x', nx), S.axis('y', ny)
        mx, my = S.n('mx', 1), S.n('my', 1)
        S.assume(S.Not(S.And(S.eqn(mx, nx), S.eqn(my, ny))))
        S.assume(S.Not(S.And(S.eqn(mx, ny), S.eqn(my, nx))))
        good, wrong = (nx, ny), (mx, my)
        n = 1 if kind == 'sf' else 2
        shapes = [good] * n
        kw = {}
        if which == 'mask':
            kw['mask'] = S.boolarr('m', wrong)
        else:
            shapes[which] = wrong
        vs = [S.arr('v%d' % k, shapes[k]) for k in range(n)]
        o = S.core.ScalarField() if kind == 'sf' else S.core.VectorField()
        r = S.call(o.import_from_arrays, x, y, *vs, unit_x='m', unit_y='mm', unit_values='m/s', **kw)
        if kind == 'vf' and which == 'mask':
            # a mask numpy broadcasts to the grid is accepted
            if r.ok:
                S.wellformed('imported field', o, nx, ny)
            return
        S.check('rejected', not r.ok)
    return f


def bad_unit(kind):
    def f(S):
        o, g = mk(S, kind)
        k = S.real('k', nz=True)
        S.assume(S.Or(S.lt(k, 0.999), S.lt(1.001, k)))
        attr = S.choice('attr', ['unit_x', 'unit_y', 'unit_values'])
        r = S.call(setattr, o, attr, k * S.make_unit('m'))
        S.check('a quantity that is not a unit is rejected', not r.ok)
        same_as_ghost(S, o, g, 'object after the rejected assignment')
        S.check('not a unit at all', not S.call(setattr, o, attr, 1.0).ok)
        key = {'unit_x': 'ux', 'unit_y': 'uy', 'unit_values': 'uv'}[attr]
        S.run('assignment of a unit', setattr, o, attr, S.make_unit('kg'))
        S.wellformed('object', o)
        setattr(g, key, S.make_unit('kg'))
        same_as_ghost(S, o, g, 'object with the unit assigned')
        S.run('assignment of a named unit', setattr, o, attr, 'mm/s')
        setattr(g, key, S.make_unit('mm/s'))
        same_as_ghost(S, o, g, 'object with the named unit assigned')
    return f


def set_mask(kind, how):
    def f(S):
        o, g = mk(S, kind)
        if how == 'all':
            new, flag = True, lambda i, j: S.true()
        else:
            m = S.boolarr('new', (g.nx, g.ny))
            new = S.np.logical_or(m, o.mask)
            flag = lambda i, j: S.Or(S.el(m, i, j), S.gm(g, i, j))
        S.run('mask assignment', setattr, o, 'mask', new)
        S.check_all('the new flags', (g.nx, g.ny), lambda i, j: S.iff(S.el(o.mask, i, j), flag(i, j)))
        S.check_all('other nodes unchanged', (g.nx, g.ny), lambda i, j: S.Or(flag(i, j), *[S.And(*[
            S.eq(S.el(c, i, j), S.el(v, i, j)) for c, v in zip(S.comps(o), S.gcomps(g))])]))
        S.wellformed('object', o, g.nx, g.ny)
    return f


def set_axes(kind, as_list):
    """Assigning an axis stores a copy of it as an array of floats and touches nothing else."""
    def f(S):
        o, g = mk(S, kind)
        for attr, key, n in (('axe_x', 'x', g.nx), ('axe_y', 'y', g.ny)):
            new = S.axis('new ' + attr, n)
            old = S.snap(new)
            S.run('assignment', setattr, o, attr, [S.el(new, i) for i in range(S.concrete(n))] if as_list else new)
            S.check('not an array', not S.call(setattr, o, attr, 1.5).ok)
            setattr(g, key, old)
            if not as_list:
                S.check('shares no data with the array given', S.disjoint(getattr(o, attr), new))
        same_as_ghost(S, o, g, 'object with new axes')
        S.wellformed('object', o, g.nx, g.ny)
    return f


def bad_assign(kind):
    """Arrays of another shape are refused; the field stays what it was."""
    def f(S):
        o, g = mk(S, kind)
        mx, my = S.n('mx', 1), S.n('my', 1)
        S.assume(S.Not(S.And(S.eqn(mx, g.nx), S.eqn(my, g.ny))))
        for attr in ('values',) if kind == 'sf' else ('comp_x', 'comp_y'):
            S.check('%s rejected' % attr, not S.call(setattr, o, attr, S.arr('w', (mx, my))).ok)
        S.check('mask rejected', not S.call(setattr, o, 'mask', S.boolarr('wm', (mx, my))).ok)
        S.check('not an array', not S.call(setattr, o, 'mask', 1.5).ok)
        same_as_ghost(S, o, g, 'object after the rejected assignments')
    return f


def set_values(S):
    o, g = S.sf()
    v = S.arr('new', (g.nx, g.ny), nan=True)
    S.run('values assignment', setattr, o, 'values', v)
    S.wellformed('object', o, g.nx, g.ny)
    S.check_all('NaN is masked, the rest carries the new value', (g.nx, g.ny), lambda i, j: S.ite_b(
        S.isnan(S.el(v, i, j)), S.el(o.mask, i, j), S.And(S.Not(S.el(o.mask, i, j)), S.eq(S.el(o.values, i, j), S.el(v, i, j)))))


def set_comps(S):
    o, g = S.vf()
    c = S.arr('new', (g.nx, g.ny))
    new = S.np.where(o.mask, S.np.nan, c)
    attr = S.choice('attr', ['comp_x', 'comp_y'])
    S.run('component assignment', setattr, o, attr, new)
    S.wellformed('object', o, g.nx, g.ny)


def change_unit(kind):
    def f(S):
        o, g = mk(S, kind)
        axe, new = S.choice('case', [('x', 'km'), ('y', 'um'), ('values', 'mm/s'), ('x', 's')])
        S.call(o.change_unit, axe, new)
        S.wellformed('object', o, g.nx, g.ny)
    return f


def vf_parts(S):
    """Fields derived from a vector field."""
    o, g = S.vf()
    for lab, p in (('x component', o.comp_x_as_sf), ('y component', o.comp_y_as_sf), ('magnitude', o.magnitude_as_sf), ('angle', None)):
        if p is not None:
            S.wellformed(lab, p, g.nx, g.ny)


C = {'sf': 'ScalarField', 'vf': 'VectorField'}
for kind in ('sf', 'vf'):
    cls = C[kind]
    for name in ops.OPS[kind]:
        contract('C01', '%s: result of %s' % (kind, name), ops.FUNCS[kind], con_runs=30, **dict(ops.BOUNDS.get((kind, name), {})))(result(kind, name))
    for name, call, mkw, bounds in table(kind):
        contract('C01', '%s: after %s in place' % (kind, name), ops.FUNCS[kind], con_runs=30, **bounds)(inplace(kind, call, mkw))
    for how in ('mask', 'no mask', 'transposed'):
        contract('C01', '%s: import, %s' % (kind, how), ['%s.import_from_arrays' % cls],
                 **({'sizes': ({'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2})} if how == 'transposed' else {}))(imported(kind, how))
    for w in ((0,) if kind == 'sf' else (0, 1)) + ('mask',):
        contract('C01', '%s: import rejects %s of another shape' % (kind, 'a mask' if w == 'mask' else 'values (%d)' % w), ['%s.import_from_arrays' % cls])(bad_shape(kind, w))
    contract('C01', '%s: unit assignment' % kind, ['Field.unit_x', 'Field.unit_y', '%s.unit_values' % cls])(bad_unit(kind))
    for how in ('all', 'more'):
        contract('C01', '%s: mask assignment, %s' % (kind, how), ['%s.mask' % cls])(set_mask(kind, how))
    contract('C01', '%s: axes assignment' % kind, ['Field.axe_x', 'Field.axe_y'])(set_axes(kind, False))
    contract('C01', '%s: axes assignment as lists' % kind, ['Field.axe_x', 'Field.axe_y'], unbounded=False, why_bounded='lists of concrete length')(set_axes(kind, True))
    contract('C01', '%s: assignment of arrays of another shape' % kind, ['%s.mask' % cls])(bad_assign(kind))
    contract('C01', '%s: change of unit' % kind, ['%s.change_unit' % cls])(change_unit(kind))
contract('C01', 'sf: values assignment', ['ScalarField.values'])(set_values)
contract('C01', 'vf: component assignment', ['VectorField.comp_x', 'VectorField.comp_y'])(set_comps)
contract('C01', 'vf: component and magnitude fields', ['VectorField.comp_x_as_sf', 'VectorField.magnitude_as_sf'])(vf_parts)
