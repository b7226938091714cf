"""C11: statistics, fills and integrals use unmasked nodes only."""
from vc.spec import contract
from .common import mk, node_map, gvals, same_as_ghost

SMALL = dict(unbounded=False, why_bounded='loops over the nodes')
SZ = ({'nx': 2, 'ny': 2}, {'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2})


def mag(S, v):
    return v[0] if len(v) == 1 else S.sqrt(v[0] * v[0] + v[1] * v[1])


def some(S, g):
    S.assume(S.exists((g.nx, g.ny), lambda i, j: S.Not(S.gm(g, i, j))))


def extremum(kind, what):
    def f(S):
        o, g = mk(S, kind)
        some(S, g)
        m = S.run(what, getattr, o, what)
        S.check_all('bounds every unmasked node', (g.nx, g.ny), lambda i, j: S.Or(
            S.gm(g, i, j), S.le(m, mag(S, gvals(S, g, i, j))) if what == 'min' else S.le(mag(S, gvals(S, g, i, j)), m)))
        S.check('attained at an unmasked node', S.exists((g.nx, g.ny), lambda i, j: S.And(
            S.Not(S.gm(g, i, j)), S.eq(m, mag(S, gvals(S, g, i, j))))))
        same_as_ghost(S, o, g, 'field')
    return f


def mean(S):
    o, g = mk(S, 'sf')
    some(S, g)
    m = S.run('mean', getattr, o, 'mean')
    n = S.count((g.nx, g.ny), lambda i, j: S.Not(S.gm(g, i, j)))
    t = S.sum((g.nx, g.ny), lambda i, j: S.ite(S.gm(g, i, j), 0.0, S.el(g.v, i, j)))
    S.check('mean times count is the sum over unmasked nodes', S.eq(m * n, t))
    same_as_ghost(S, o, g, 'field')


def norm(kind, p, normalized):
    def f(S):
        o, g = mk(S, kind)
        some(S, g)
        m = S.run('norm', o.get_norm, p, normalized)
        n = S.count((g.nx, g.ny), lambda i, j: S.Not(S.gm(g, i, j)))
        t = sum(S.sum((g.nx, g.ny), lambda i, j, a=a: S.ite(S.gm(g, i, j), 0.0, S.pow(S.abs(S.el(a, i, j)), p))) for a in S.gcomps(g))
        k = S.div(m * n, 1.0) if normalized == 'perpoint' else m
        S.check('norm of the unmasked values', S.eq(S.pow(k, p), t) if p != 1 else S.eq(k, t))
        S.check('norm is not negative', S.le(0.0, m))
        same_as_ghost(S, o, g, 'field')
    return f


def view(what):
    def f(S):
        o, g = mk(S, 'vf')
        v = S.run(what, getattr, o, what)
        S.must('the view is a scalar field', S.isinst(v, S.core.ScalarField))
        k = {'comp_x_as_sf': lambda w: [w[0]], 'comp_y_as_sf': lambda w: [w[1]], 'magnitude_as_sf': lambda w: [mag(S, w)]}[what]
        node_map(S, v, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: S.gm(g, i, j),
                 lambda i, j: k(gvals(S, g, i, j)), g.ux, g.uy, g.uv)
        same_as_ghost(S, o, g, 'field')
    return f


def fill(kind, inplace, nan=False, pair=False):
    def f(S):
        o, g = mk(S, kind, nan=nan)
        v = S.real('v')
        w = S.real('w') if pair else v
        r = S.run('fill', o.fill, kind='value', value=[v, w] if pair else v, inplace=inplace)
        c = o if inplace else r
        vals = [v] if kind == 'sf' else [v, w]
        node_map(S, c, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: S.false(),
                 lambda i, j: [S.ite(S.gm(g, i, j), b, a) for a, b in zip(gvals(S, g, i, j), vals)], g.ux, g.uy, g.uv)
    return f


def border(kind, inplace):
    """Soft dropping of masked borders: the first/last kept line is the first/last one with an unmasked node."""
    def f(S):
        o, g = mk(S, kind)
        some(S, g)
        nx, ny = int(g.nx), int(g.ny)
        rows = [S.split(S.exists((ny,), lambda j: S.Not(S.gm(g, i, j)))) for i in range(nx)]
        cols = [S.split(S.exists((nx,), lambda i: S.Not(S.gm(g, i, j)))) for j in range(ny)]
        r = S.run('crop_masked_border', o.crop_masked_border, inplace=inplace)
        c = o if inplace else r
        S.must('a field of the same kind', S.isinst(c, type(o)))
        i0, i1 = rows.index(True), nx - rows[::-1].index(True)
        j0, j1 = cols.index(True), ny - cols[::-1].index(True)
        node_map(S, c, i1 - i0, j1 - j0, lambda i: S.el(g.x, i + i0), lambda j: S.el(g.y, j + j0),
                 lambda i, j: S.gm(g, i + i0, j + j0), lambda i, j: gvals(S, g, i + i0, j + j0), g.ux, g.uy, g.uv)
    return f


def border_all(kind, inplace):
    """Same, for all sizes: the kept window is located by its end coordinates."""
    def f(S):
        o, g = mk(S, kind)
        some(S, g)
        r = S.run('crop_masked_border', o.crop_masked_border, inplace=inplace)
        c = o if inplace else r
        S.must('a field of the same kind', S.isinst(c, type(o)))
        i0, i1 = S.rank_ge(g.x, S.el(c.axe_x, 0)), S.rank_gt(g.x, S.el(c.axe_x, -1))
        j0, j1 = S.rank_ge(g.y, S.el(c.axe_y, 0)), S.rank_gt(g.y, S.el(c.axe_y, -1))
        S.check('window is inside the field', S.And(S.le(0, i0), S.lt(i0, i1), S.le(i1, g.nx), S.le(0, j0), S.lt(j0, j1), S.le(j1, g.ny)))
        S.check_all('dropped nodes are masked', (g.nx, g.ny), lambda i, j: S.Or(
            S.gm(g, i, j), S.And(S.le(i0, i), S.lt(i, i1), S.le(j0, j), S.lt(j, j1))))
        for nm, k in (('first', i0), ('last', i1 - 1)):
            S.check('%s kept column has an unmasked node' % nm, S.exists((g.ny,), lambda j: S.Not(S.gm(g, k, j))))
        for nm, k in (('first', j0), ('last', j1 - 1)):
            S.check('%s kept row has an unmasked node' % nm, S.exists((g.nx,), lambda i: S.Not(S.gm(g, i, k))))
        node_map(S, c, i1 - i0, j1 - j0, lambda i: S.el(g.x, i + i0), lambda j: S.el(g.y, j + j0),
                 lambda i, j: S.gm(g, i + i0, j + j0), lambda i, j: gvals(S, g, i + i0, j + j0), g.ux, g.uy, g.uv)
    return f


def border_hard(kind):
    """Hard dropping: a block of the field without masked node."""
    def f(S):
        o, g = mk(S, kind)
        some(S, g)
        nx, ny = int(g.nx), int(g.ny)
        c = S.run('crop_masked_border', o.crop_masked_border, hard=True, inplace=False)
        S.must('a field of the same kind', S.isinst(c, type(o)))
        m, n = S.length(c.axe_x), S.length(c.axe_y)
        S.check_all('no masked node left', (m, n), lambda i, j: S.Not(S.el(c.mask, i, j)))
        m, n = int(m), int(n)
        if m == 0 or n == 0:
            return
        S.check('the result is a block of the field', S.Or(*[S.And(
            *[S.eq(S.el(c.axe_x, i), S.el(g.x, i0 + i)) for i in range(m)],
            *[S.eq(S.el(c.axe_y, j), S.el(g.y, j0 + j)) for j in range(n)],
            *[S.And(*[S.eq(S.el(a, i, j), v) for a, v in zip(S.comps(c), gvals(S, g, i0 + i, j0 + j))])
              for i in range(m) for j in range(n)])
            for i0 in range(nx - m + 1) for j0 in range(ny - n + 1)]))
    return f


def surface(S):
    """Integral over the whole field: mean value times area; rejected when a node is masked."""
    o, g = mk(S, 'sf')
    r = S.call(o.integrate_over_surface)
    anym = S.exists((g.nx, g.ny), lambda i, j: S.gm(g, i, j))
    if not r.ok:
        S.check('rejected only when a node is masked', anym, r)
        return
    S.check('masked nodes are rejected', S.Not(anym))
    t = S.sum((g.nx, g.ny), lambda i, j: S.el(g.v, i, j))
    area = (S.el(g.x, -1) - S.el(g.x, 0)) * (S.el(g.y, -1) - S.el(g.y, 0))
    q = r.value
    u = g.uv * g.ux * g.uy
    S.check('integral', S.eq((q / u).asNumber(1) * g.nx * g.ny, t * area))


def line_unit(direction):
    """The unit of a line integral is the value unit times the unit of the axis integrated over."""
    def f(S):
        o, g = mk(S, 'sf', mask=False, units=(S.make_unit('m'), S.make_unit('s'), S.make_unit('kg')))
        r = S.run('integral', o.integrate_over_line, direction, [S.el(g.x, 0), S.el(g.x, -1)] if direction == 'x' else [S.el(g.y, 0), S.el(g.y, -1)])
        u = g.uv * (g.uy if direction == 'x' else g.ux)
        ok = True
        try:
            (r / u).asNumber(1)
        except Exception:
            ok = False
        S.check('unit of the line integral', ok)
    return f


def line(direction):
    """Line integral of the mean profile over an interval: trapezoidal rule along the other axis."""
    def f(S):
        o, g = mk(S, 'sf', units=(S.make_unit('m'), S.make_unit('m'), S.make_unit('m/s')))
        nx, ny = int(g.nx), int(g.ny)
        ax, n, other, no = (g.x, nx, g.y, ny) if direction == 'x' else (g.y, ny, g.x, nx)
        lo, hi = S.near('a', [ax]), S.near('b', [ax])
        k0, k1 = S.rank_ge(ax, lo), S.rank_gt(ax, hi)
        S.assume(S.lt(k0, k1))
        k0 = [k for k in range(n) if S.split(S.eqn(k0, k))][0]
        k1 = [k for k in range(n + 1) if S.split(S.eqn(k1, k))][0]
        at = (lambda k, l: (k, l)) if direction == 'x' else (lambda k, l: (l, k))
        r = S.call(o.integrate_over_line, direction, [lo, hi])
        anym = S.Or(*[S.gm(g, *at(k, l)) for k in range(k0, k1) for l in range(no)])
        if not r.ok:
            S.check('rejected only when a needed node is masked', anym, r)
            return
        S.check('masked nodes are rejected', S.Not(anym))
        prof = [sum([S.el(g.v, *at(k, l)) for k in range(k0, k1)]) / (k1 - k0) for l in range(no)]
        t = sum([(prof[l] + prof[l + 1]) * (S.el(other, l + 1) - S.el(other, l)) / 2 for l in range(no - 1)])
        u = g.uv * S.make_unit('m')
        S.check('trapezoidal integral', S.eq((r.value / u).asNumber(1), t))
    return f


for kind, cls in (('sf', 'ScalarField'), ('vf', 'VectorField')):
    for w in ('min', 'max'):
        contract('C11', '%s %s' % (kind, w), ['%s.%s' % (cls, w)] + (['VectorField.magnitude'] if kind == 'vf' else []))(extremum(kind, w))
    for ip in (False, True):
        contract('C11', '%s fill with a value%s' % (kind, ', in place' if ip else ''), ['%s.fill' % cls])(fill(kind, ip))
        contract('C11', '%s crop masked border%s' % (kind, ', in place' if ip else ''), ['%s.crop_masked_border' % cls, '%s.crop' % cls, 'Field.crop'], sizes=SZ)(border_all(kind, ip))
    contract('C11', '%s fill with a value, NaN samples' % kind, ['%s.fill' % cls, '%s.import_from_arrays' % cls])(fill(kind, False, True))
    contract('C11', '%s crop masked border, hard' % kind, ['%s.crop_masked_border' % cls], sizes=SZ[:2], **SMALL)(border_hard(kind))
    for p in (1, 2):
        for nm in ('perpoint', None):
            contract('C11', '%s norm %d %s' % (kind, p, nm), ['%s.get_norm' % cls])(norm(kind, p, nm))
contract('C11', 'vf fill with a pair', ['VectorField.fill'])(fill('vf', False, pair=True))
contract('C11', 'vf fill with a pair, in place', ['VectorField.fill'])(fill('vf', True, pair=True))
contract('C11', 'sf mean', ['ScalarField.mean'])(mean)
for w in ('comp_x_as_sf', 'comp_y_as_sf', 'magnitude_as_sf'):
    contract('C11', 'vf ' + w, ['VectorField.' + w, 'VectorField.magnitude'])(view(w))
contract('C11', 'sf surface integral', ['ScalarField.integrate_over_surface', 'ScalarField.crop'])(surface)
for d in 'xy':
    contract('C11', 'sf unit of line integral %s' % d, ['ScalarField.integrate_over_line'], sizes=SZ[:1], **SMALL)(line_unit(d))
    contract('C11', 'sf line integral %s' % d, ['ScalarField.integrate_over_line', 'ScalarField.get_profile'], sizes=SZ, **SMALL)(line(d))


# ---- masks as fields, other fills
def mask_view(kind):
    def f(S):
        o, g = mk(S, kind)
        v = S.run('mask_as_sf', getattr, o, 'mask_as_sf')
        S.must('the view is a scalar field', S.isinst(v, S.core.ScalarField))
        node_map(S, v, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: S.false(),
                 lambda i, j: [S.ite(S.gm(g, i, j), 1.0, 0.0)], g.ux, g.uy, g.uv)
        same_as_ghost(S, o, g, 'field')
    return f


def others_kept(S, c, g):
    S.check('grid kept', S.And(S.eqn(S.length(c.axe_x), g.nx), S.eqn(S.length(c.axe_y), g.ny)))
    S.check_all('x kept', (g.nx,), lambda i: S.eq(S.el(c.axe_x, i), S.el(g.x, i)))
    S.check_all('y kept', (g.ny,), lambda j: S.eq(S.el(c.axe_y, j), S.el(g.y, j)))
    S.check_all('nothing masked', (g.nx, g.ny), lambda i, j: S.Not(S.el(c.mask, i, j)))
    S.check_all('unmasked nodes keep their values', (g.nx, g.ny), lambda i, j: S.Or(S.gm(g, i, j), S.And(*[
        S.eq(S.el(a, i, j), S.el(b, i, j)) for a, b in zip(S.comps(c), S.gcomps(g))])))
    S.check('units kept', S.And(S.ueq(c.unit_x, g.ux), S.ueq(c.unit_y, g.uy), S.ueq(c.unit_values, g.uv)))


def fill_nearest(kind, inplace, reduce_tri):
    """Every masked node gets the values of a nearest unmasked node."""
    def f(S):
        o, g = mk(S, kind)
        some(S, g)
        r = S.run('fill', o.fill, kind='nearest', inplace=inplace, reduce_tri=reduce_tri)
        c = o if inplace else r
        others_kept(S, c, g)
        good = [(i, j) for i in range(g.nx) for j in range(g.ny) if not S.gm(g, i, j)]
        d = lambda i, j, k, l: (g.x[i] - g.x[k]) ** 2 + (g.y[j] - g.y[l]) ** 2

        def ok(i, j):
            m = min(d(i, j, k, l) for k, l in good)
            near = [(k, l) for k, l in good if d(i, j, k, l) <= m * (1 + 1e-9)]
            return all(any(S.eq(a[i, j], b[k, l]) for k, l in near) for a, b in zip(S.comps(c), S.gcomps(g)))
        S.check_all('masked nodes take a nearest value', (g.nx, g.ny), lambda i, j: S.Or(S.Not(S.gm(g, i, j)), ok(i, j)))
        if not inplace:
            same_as_ghost(S, o, g, 'field')
    return f


def fill_interp(kind, how, inplace, reduce_tri, corners):
    """Corners unmasked: exact on fields linear in space; otherwise: a number everywhere, within the range of the values (linear)."""
    def f(S):
        nx, ny = S.n('nx'), S.n('ny')
        x, y = S.axis('f.x', nx), S.axis('f.y', ny)
        m = S.boolarr('f.m', (nx, ny))
        fixed = [(0, 0), (-1, 0), (0, -1), (-1, -1)] if corners else [(0, 0), (1, 0), (0, 1)]
        for q in fixed:
            m[q] = False
        ks = [[S.real('k%d%d' % (c, i)) for i in range(3)] for c in range(2)]
        if corners:
            vs = [k[0] + k[1] * x[:, None] + k[2] * y[None, :] for k in ks]
        else:
            vs = [S.arr('v%d' % c, (nx, ny)) for c in range(2)]
        g = S.ghost()
        g.nx, g.ny, g.x, g.y, g.m = nx, ny, x, y, m
        g.ux, g.uy, g.uv = S.make_unit('m'), S.make_unit('mm'), S.make_unit('m/s')
        if kind == 'sf':
            o = S.core.ScalarField()
            g.v = vs[0]
            o.import_from_arrays(x, y, vs[0], mask=m, unit_x=g.ux, unit_y=g.uy, unit_values=g.uv)
        else:
            o = S.core.VectorField()
            g.vx, g.vy = vs
            o.import_from_arrays(x, y, vs[0], vs[1], mask=m, unit_x=g.ux, unit_y=g.uy, unit_values=g.uv)
        r = S.call(o.fill, kind=how, inplace=inplace, reduce_tri=reduce_tri)
        if not r.ok:
            # the triangulation library refuses degenerate sets of nodes
            S.check('rejected by the triangulation only', type(r.exc).__name__ in ('QhullError', 'ValueError'), r)
            same_as_ghost(S, o, g, 'field after the rejected fill')
            return
        c = o if inplace else r.value
        others_kept(S, c, g)
        for a, b in zip(S.comps(c), S.gcomps(g)):
            lo = min(b[i, j] for i in range(nx) for j in range(ny) if not m[i, j])
            hi = max(b[i, j] for i in range(nx) for j in range(ny) if not m[i, j])
            e = 1e-6 * (abs(lo) + abs(hi))
            S.check_all('a number at every node', (nx, ny), lambda i, j: S.Not(S.isnan(S.el(a, i, j))))
            if how == 'linear':
                S.check_all('within the range of the unmasked values', (nx, ny), lambda i, j: lo - e <= a[i, j] <= hi + e)
            if corners and how == 'linear' and not reduce_tri:
                S.check_all('exact on linear fields', (nx, ny), lambda i, j: abs(a[i, j] - b[i, j]) <= 1e-6 * (1 + abs(lo) + abs(hi)))
        if not inplace:
            same_as_ghost(S, o, g, 'field')
    return f


SAMPLED = dict(sizes=(), unbounded=False, con_runs=40, why_bounded='scipy interpolators and triangulations: sampled')
for kind, cls in (('sf', 'ScalarField'), ('vf', 'VectorField')):
    contract('C11', '%s mask as a field' % kind, ['%s.mask_as_sf' % cls])(mask_view(kind))
    for ip in (False, True):
        for rt in (False, True):
            t = (', in place' if ip else '') + (', reduced triangulation' if rt else '')
            contract('C11', '%s fill with the nearest value%s' % (kind, t), ['%s.fill' % cls], **SAMPLED)(fill_nearest(kind, ip, rt))
            for how in ('linear', 'cubic'):
                contract('C11', '%s %s fill%s' % (kind, how, t), ['%s.fill' % cls], **SAMPLED)(fill_interp(kind, how, ip, rt, False))
            contract('C11', '%s linear fill of a linear field%s' % (kind, t), ['%s.fill' % cls], **SAMPLED)(fill_interp(kind, 'linear', ip, rt, True))
