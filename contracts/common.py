"""Ensures-clauses shared by several contracts."""


def mk(S, kind, tag='f', **k):
    return S.sf(tag, **k) if kind == 'sf' else S.vf(tag, **k)


def node_map(S, c, nx, ny, x, y, masked, vals, ux, uy, uv, label='result'):
    """Field c has nx x ny nodes; node (i,j) is at (x(i), y(j)), flagged masked(i,j), carrying vals(i,j); units as given."""
    S.must(label + ': axes are vectors', S.ndim(c.axe_x) == 1 and S.ndim(c.axe_y) == 1)
    S.check(label + ': axis lengths', S.And(S.eqn(S.length(c.axe_x), nx), S.eqn(S.length(c.axe_y), ny)))
    for k, a in enumerate(S.comps(c)):
        S.must(label + ': values are 2-D (%d)' % k, S.ndim(a) == 2)
        S.check(label + ': one value per node (%d)' % k, S.And(S.eqn(S.dim(a, 0), nx), S.eqn(S.dim(a, 1), ny)))
    S.must(label + ': mask is a 2-D boolean array', S.ndim(c.mask) == 2 and S.kind(c.mask) == 'b')
    S.check(label + ': one mask flag per node', S.And(S.eqn(S.dim(c.mask, 0), nx), S.eqn(S.dim(c.mask, 1), ny)))
    S.check_all(label + ': x of every node', (nx,), lambda i: S.eq(S.el(c.axe_x, i), x(i)))
    S.check_all(label + ': y of every node', (ny,), lambda j: S.eq(S.el(c.axe_y, j), y(j)))
    S.check_all(label + ': mask flag of every node', (nx, ny), lambda i, j: S.iff(S.el(c.mask, i, j), masked(i, j)))
    S.check_all(label + ': value of every node', (nx, ny), lambda i, j: S.cell(c, i, j, masked(i, j), vals(i, j)))
    S.check(label + ': units', S.And(S.ueq(c.unit_x, ux), S.ueq(c.unit_y, uy), S.ueq(c.unit_values, uv)))


def same_as_ghost(S, c, g, label='object'):
    """Field c is exactly the field described by g."""
    node_map(S, c, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: S.gm(g, i, j),
             lambda i, j: [S.el(v, i, j) for v in S.gcomps(g)], g.ux, g.uy, g.uv, label)


def gvals(S, g, i, j):
    return [S.el(v, i, j) for v in S.gcomps(g)]


def same_fields(S, a, b, label='the two forms'):
    """Fields a and b have the same nodes, values, mask and units."""
    S.must(label + ': same kind', type(a) is type(b))
    nx, ny = S.length(a.axe_x), S.length(a.axe_y)
    S.check(label + ': same axis lengths', S.And(S.eqn(nx, S.length(b.axe_x)), S.eqn(ny, S.length(b.axe_y))))
    for u, v in zip([a.mask] + S.comps(a), [b.mask] + S.comps(b)):
        S.must(label + ': same number of dimensions', S.ndim(u) == 2 and S.ndim(v) == 2)
        S.check(label + ': same shape', S.And(S.eqn(S.dim(u, 0), S.dim(v, 0)), S.eqn(S.dim(u, 1), S.dim(v, 1)),
                                              S.eqn(S.dim(u, 0), nx), S.eqn(S.dim(u, 1), ny)))
    S.check_all(label + ': same x', (nx,), lambda i: S.eq(S.el(a.axe_x, i), S.el(b.axe_x, i)))
    S.check_all(label + ': same y', (ny,), lambda i: S.eq(S.el(a.axe_y, i), S.el(b.axe_y, i)))
    S.check_all(label + ': same mask', (nx, ny), lambda i, j: S.iff(S.el(a.mask, i, j), S.el(b.mask, i, j)))
    S.check_all(label + ': same values', (nx, ny), lambda i, j: S.And(*[
        S.Or(S.eq(S.el(u, i, j), S.el(v, i, j)), S.And(S.isnan(S.el(u, i, j)), S.isnan(S.el(v, i, j))))
        for u, v in zip(S.comps(a), S.comps(b))]))
    S.check(label + ': same units', S.And(S.usame(a.unit_x, b.unit_x), S.usame(a.unit_y, b.unit_y), S.usame(a.unit_values, b.unit_values)))
