"""C17: extending, mirroring and coarsening keep existing data in place."""
from vc.spec import contract
from .common import mk, same_as_ghost, node_map, gvals


def ramp(S, a, n, lo, i):
    """Axis a (n nodes) prolonged by lo nodes on the left: position of node i."""
    first, last = S.el(a, 0), S.el(a, n - 1)
    d0, d1 = S.el(a, 1) - S.el(a, 0), S.el(a, n - 1) - S.el(a, n - 2)
    return S.ite(S.lt(i, lo), lambda: first - d0 * (lo - i),
                 lambda: S.ite(S.le(lo + n, i), lambda: last + d1 * (i - lo - n + 1), lambda: S.el(a, i - lo)))


def inside(S, g, l, d, i, j):
    return S.And(S.le(l, i), S.lt(i, l + g.nx), S.le(d, j), S.lt(j, d + g.ny))


def extended(S, r, g, l, rt, u, d, value, label):
    ins = lambda i, j: inside(S, g, l, d, i, j)
    msk = lambda i, j: S.ite_b(ins(i, j), S.guard(ins(i, j), lambda: S.gm(g, i - l, j - d)), value is None)

    def vals(i, j):
        out = []
        for c in S.gcomps(g):
            out.append(S.ite(ins(i, j), lambda c=c: S.el(c, i - l, j - d), 0.0 if value is None else value))
        return out
    node_map(S, r, g.nx + l + rt, g.ny + u + d, lambda i: ramp(S, g.x, g.nx, l, i), lambda j: ramp(S, g.y, g.ny, d, j),
             msk, vals, g.ux, g.uy, g.uv, label)


def extend(kind, value, inplace):
    def f(S):
        o, g = mk(S, kind)
        n = [S.int(k, 0, 6) for k in ('left', 'right', 'up', 'down')]
        kw = {'value': S.real('val')} if value else {}
        r = S.run('extend', o.extend, nmb_left=n[0], nmb_right=n[1], nmb_up=n[2], nmb_down=n[3], inplace=inplace, **kw)
        if inplace:
            S.check('nothing returned', r is None)
            r = o
        else:
            same_as_ghost(S, o, g, 'field given')
        extended(S, r, g, n[0], n[1], n[2], n[3], kw.get('value'), 'extended field')
    return f


def extend_length(S):
    """Lengths are rounded up to whole cells."""
    o, g = S.sf(uniform=True)
    n = [S.int(k, 0, 3) for k in ('left', 'right', 'up', 'down')]
    dx, dy = S.el(g.x, 1) - S.el(g.x, 0), S.el(g.y, 1) - S.el(g.y, 0)
    r = S.run('extend', o.extend, nmb_left=dx * n[0], nmb_right=dx * n[1], nmb_up=dy * n[2], nmb_down=dy * n[3], ind=False)
    extended(S, r, g, n[0], n[1], n[2], n[3], None, 'extended field')
    same_as_ghost(S, o, g, 'field given')


def coarsen(kind, fact, inplace):
    def f(S):
        o, g = mk(S, kind, nx=S.n('nx', fact), ny=S.n('ny', fact))
        r = S.run('reduce_spatial_resolution', o.reduce_spatial_resolution, fact, inplace=inplace)
        if inplace:
            S.check('nothing returned', r is None)
            r = o
        else:
            same_as_ghost(S, o, g, 'field given')
        nx, ny = S.concrete(g.nx) // fact, S.concrete(g.ny) // fact
        S.must('one node per complete block', S.concrete(S.length(r.axe_x)) == nx and S.concrete(S.length(r.axe_y)) == ny)
        block = lambda i, j: [(i * fact + a, j * fact + b) for a in range(fact) for b in range(fact)]
        mean = lambda a, i: S.div(S.el(a, i * fact + (fact - 1) // 2) + S.el(a, i * fact + fact // 2), 2.0)
        msk = lambda i, j: S.And(*[S.gm(g, *q) for q in block(i, j)])

        def vals(i, j):
            out = []
            for c in S.gcomps(g):
                tot, n = 0.0, 0.0
                for q in block(i, j):
                    m = S.gm(g, *q)
                    tot = tot + S.ite(m, 0.0, S.el(c, *q))
                    n = n + S.ite(m, 0.0, 1.0)
                out.append(S.div(tot, S.ite(S.eq(n, 0.0), 1.0, n)))
            return out
        node_map(S, r, nx, ny, lambda i: mean(g.x, i), lambda j: mean(g.y, j), msk, vals, g.ux, g.uy, g.uv, 'coarse field')
    return f


def coarsen_one(kind):
    def f(S):
        o, g = mk(S, kind)
        r = S.run('by one', o.reduce_spatial_resolution, 1)
        same_as_ghost(S, r, g, 'copy')
        S.check('a new object', r is not o)
        S.check('in place', S.run('in place', o.reduce_spatial_resolution, 1, inplace=True) is None)
        same_as_ghost(S, o, g, 'field given')
        S.check('zero rejected', not S.call(o.reduce_spatial_resolution, 0).ok)
    return f


def mirror(kind, direction, high, q, coef, inplace, masked=False, within=False, fill=False):
    """About a line q half cells outside the border: each added node carries the value of its mirror node."""
    def f(S):
        kw = {}
        if S.symbolic:
            # deductive run: any origin, spacings 1/2 and 3/4 (a quotient of symbolic lengths gives no node count)
            kw['axes'] = tuple(S.np.array([S.real('o' + d) + h * k for k in range(S.concrete(S.n('n' + d)))]) for d, h in (('x', 0.5), ('y', 0.75)))
        if within:
            S.n('n' + direction, 4)
        o, g = mk(S, kind, uniform=True, mask=masked, **kw)
        if masked:
            # no border of the field is entirely masked (such borders are cropped first)
            full = lambda idx: S.And(*[S.gm(g, *k) for k in idx])
            X, Y = range(S.concrete(g.nx)), range(S.concrete(g.ny))
            for idx in ([(0, j) for j in Y], [(len(X) - 1, j) for j in Y], [(i, 0) for i in X], [(i, len(Y) - 1) for i in X]):
                S.assume(S.Not(full(idx)))
        a, n = (g.x, g.nx) if direction == 'x' else (g.y, g.ny)
        n0 = n = S.concrete(n)
        off = 0
        if within:
            # about the node next to the border: the part beyond it is dropped first
            off = 0 if high else 1
            n = n - 1
        h = S.el(a, 1) - S.el(a, 0)
        pos = S.el(a, off + n - 1) + h * (q * 0.5) if high else S.el(a, off) - h * (q * 0.5)
        kw = {}
        if fill:
            fv = [S.real('fill%d' % k) for k in range(len(S.gcomps(g)))]
            kw = {'interp': 'value', 'value': fv if kind == 'vf' else fv[0]}
        cs = [1.0] if kind == 'sf' else ([-1.0, 1.0] if direction == 'x' else [1.0, -1.0])
        if coef == 'number':
            kw['mir_coef'] = c = S.real('coef')
            cs = [k * c for k in cs]
        elif coef == 'pair':
            kw['mir_coef'] = cs = [S.real('c1'), S.real('c2')]
        r = S.run('mirroring', o.mirroring, direction, pos, inplace=inplace, **kw)
        if inplace:
            S.check('nothing returned', r is None)
            r = o
        else:
            same_as_ghost(S, o, g, 'field given')
        k = S.concrete(S.length(r.axe_x if direction == 'x' else r.axe_y)) - n
        S.must('nodes are added', k >= 0)
        lo = 0 if high else k
        mir = lambda i: (2 * (n - 1) + q - i) if high else (2 * k - q - i)

        def src(i, j):
            """Index in the field given that (i, j) of the result takes its value from, and whether it is mirrored."""
            p = i if direction == 'x' else j
            if lo <= p < lo + n:
                return (p - lo, False)
            m = mir(p) - lo
            return (m if 0 <= m < n else None, True)

        def at(i, j, m):
            return (m + off, j) if direction == 'x' else (i, m + off)

        def msk(i, j):
            m, _ = src(i, j)
            return (S.false() if fill else S.true()) if m is None else S.gm(g, *at(i, j, m))

        def vals(i, j):
            m, mi = src(i, j)
            if m is None:
                return fv if fill else [0.0 for c in cs]
            e = gvals(S, g, *at(i, j, m))
            return [v * c for v, c in zip(e, cs)] if mi else e
        nx, ny = (n + k, S.concrete(g.ny)) if direction == 'x' else (S.concrete(g.nx), n + k)
        px = lambda i: ramp(S, g.x, g.nx, lo - off, i) if direction == 'x' else S.el(g.x, i)
        py = lambda j: ramp(S, g.y, g.ny, lo - off, j) if direction == 'y' else S.el(g.y, j)
        if masked:
            # masked nodes of the field given may be filled from their mirror image: only the unmasked ones are stated
            S.check_all('x of every node', (nx,), lambda i: S.eq(S.el(r.axe_x, i), px(i)))
            S.check_all('y of every node', (ny,), lambda j: S.eq(S.el(r.axe_y, j), py(j)))

            def body(i, j):
                return S.Or(msk(i, j), S.And(S.Not(S.el(r.mask, i, j)), *[S.eq(S.el(c, i, j), v) for c, v in zip(S.comps(r), vals(i, j))]))
            S.check_all('unmasked nodes and their mirror images', (nx, ny), body)
            return
        node_map(S, r, nx, ny, px, py, msk, vals, g.ux, g.uy, g.uv, 'mirrored field')
    return f


NAME = {'sf': 'scalar', 'vf': 'vector'}
for kind in ('sf', 'vf'):
    cls = 'ScalarField' if kind == 'sf' else 'VectorField'
    for inplace in (False, True):
        ip = ' in place' if inplace else ''
        contract('C17', '%s: extend%s' % (NAME[kind], ip), ['%s.extend' % cls, 'Field.extend'])(extend(kind, False, inplace))
        if kind == 'sf':
            contract('C17', '%s: extend with a value%s' % (NAME[kind], ip), ['%s.extend' % cls, 'Field.extend'])(extend(kind, True, inplace))
        for fact, sizes in ((2, ({'nx': 2, 'ny': 5}, {'nx': 4, 'ny': 3})), (3, ({'nx': 3, 'ny': 4}, {'nx': 6, 'ny': 3})), (4, ({'nx': 4, 'ny': 5},))):
            contract('C17', '%s: coarsening by %d%s' % (NAME[kind], fact, ip), ['%s.reduce_spatial_resolution' % cls, 'ScalarField.reduce_spatial_resolution'],
                     sizes=sizes, unbounded=False, why_bounded='loop over the blocks, unrolled')(coarsen(kind, fact, inplace))
    contract('C17', '%s: coarsening by one' % NAME[kind], ['%s.reduce_spatial_resolution' % cls])(coarsen_one(kind))
    for direction in 'xy':
        for high in (False, True):
            end = 'the upper' if high else 'the lower'
            MF = ['%s.mirroring' % cls, 'ScalarField.mirroring', 'ScalarField.extend', 'ScalarField.get_value']
            contract('C17', '%s: mirroring about %s, node next to %s end' % (NAME[kind], direction, end), MF + ['ScalarField.crop'],
                     sizes=({'nx': 4, 'ny': 2},) if direction == 'x' else ({'nx': 2, 'ny': 4},), unbounded=False, con_runs=20,
                     why_bounded='loop over the nodes, unrolled')(mirror(kind, direction, high, 0, None, False, within=True))
            contract('C17', '%s: mirroring about %s %s end, gap filled with a value' % (NAME[kind], direction, end), MF + ['ScalarField.fill'],
                     sizes=({'nx': 3, 'ny': 2}, {'nx': 2, 'ny': 3}), unbounded=False, con_runs=20,
                     why_bounded='loop over the nodes, unrolled')(mirror(kind, direction, high, 2, None, False, fill=True))
            for q in (0, 1, 2):
                for coef, inplace, masked in ((None, False, False), ('number', False, False)) + ((('pair', False, False),) if kind == 'vf' else ()) + \
                        ((None, True, False),) + ((None, False, True),):
                    contract('C17', '%s: mirroring about %s %s end + %d half cells%s%s%s' % (
                        NAME[kind], direction, 'the upper' if high else 'the lower', q, '' if coef is None else ', coefficient ' + coef, ' in place' if inplace else '',
                        ', masked nodes' if masked else ''), ['%s.mirroring' % cls, 'ScalarField.mirroring', 'ScalarField.extend', 'ScalarField.get_value'],
                        sizes=() if masked else ({'nx': 3, 'ny': 2}, {'nx': 2, 'ny': 3}), unbounded=False, con_runs=20,
                        why_bounded='one path per mask: sampled only' if masked else 'loop over the nodes, unrolled')(mirror(kind, direction, high, q, coef, inplace, masked))
contract('C17', 'scalar: extend by lengths', ['ScalarField.extend'], sizes=({'nx': 2, 'ny': 2},), unbounded=False, why_bounded='number of cells from a quotient of lengths')(extend_length)
