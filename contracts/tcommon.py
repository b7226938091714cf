"""Ensures-clauses for sets of fields in time."""
from .common import node_map, same_fields


def field_is(S, f, h, g, label):
    """Field f is the field described by ghost h on the axes of g."""
    node_map(S, f, g.nx, g.ny, lambda i: S.el(g.x, i), lambda j: S.el(g.y, j), lambda i, j: S.gm(h, i, j),
             lambda i, j: [S.el(v, i, j) for v in S.gcomps(h)], g.ux, g.uy, g.uv, label)


def frame_is(S, t, K, times, tu, label='set'):
    """The set t has K fields and K times in increasing order, in the time unit tu; every field has the axes of the set."""
    S.must(label + ': number of fields', S.concrete(S.length(t.fields)) == K and S.concrete(len(t)) == K)
    S.must(label + ': times are a vector', S.ndim(t.times) == 1)
    S.check(label + ': one time per field', S.eqn(S.length(t.times), K))
    for k in range(K):
        S.check(label + ': time %d' % k, S.eq(S.el(t.times, k), times[k]))
    for k in range(K - 1):
        S.check(label + ': times in increasing order (%d)' % k, S.le(S.el(t.times, k), S.el(t.times, k + 1)))
    S.check(label + ': time unit', S.ueq(t.unit_times, tu))
    for k in range(K):
        axes_agree(S, t, t.fields[k], label + ': field %d' % k)


def axes_agree(S, t, f, label):
    S.must(label + ': axes of the set are vectors', S.ndim(t.axe_x) == 1 and S.ndim(t.axe_y) == 1)
    S.check(label + ': as many nodes as the set', S.And(S.eqn(S.length(t.axe_x), S.length(f.axe_x)), S.eqn(S.length(t.axe_y), S.length(f.axe_y))))
    S.check_all(label + ': x of the set', (S.length(t.axe_x),), lambda i: S.eq(S.el(t.axe_x, i), S.el(f.axe_x, i)))
    S.check_all(label + ': y of the set', (S.length(t.axe_y),), lambda i: S.eq(S.el(t.axe_y, i), S.el(f.axe_y, i)))
    S.check(label + ': units of the set', S.And(S.usame(t.unit_x, f.unit_x), S.usame(t.unit_y, f.unit_y)))


def set_is(S, t, g, keep=None, label='set'):
    """The set t is the set described by g (restricted to the indices in keep)."""
    ks = list(range(g.K)) if keep is None else list(keep)
    frame_is(S, t, len(ks), [g.t[k] for k in ks], g.tu, label)
    for p, k in enumerate(ks):
        field_is(S, t.fields[p], g.f[k], g, label + ': field %d' % p)


def fields_are(S, t, expected, label='field by field'):
    """Each field of t equals the field in expected."""
    for k, e in enumerate(expected):
        same_fields(S, t.fields[k], e, '%s, field %d' % (label, k))
