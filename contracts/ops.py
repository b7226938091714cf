"""Table of operations that return a new object: name -> builder(S) -> (object, ghost, arguments, call)."""
import operator as op

from .common import mk, same_as_ghost

OPS = {'sf': {}, 'vf': {}}
BOUNDS = {}
FUNCS = {'sf': ['ScalarField.*', 'Field.*'], 'vf': ['VectorField.*', 'Field.*']}


def same(S, kind, o, g, label):
    if kind in ('sf', 'vf'):
        same_as_ghost(S, o, g, label)
    elif kind == 'prof':
        S.prof_same(label, o, g)
    elif kind == 'pts':
        S.pts_same(label, o, g)


def reg(kind, name, **bounds):
    def deco(fn):
        OPS[kind][name] = fn
        if bounds:
            BOUNDS[(kind, name)] = bounds
        return fn
    return deco


def simple(kind, name, call, pre=None, mkw=None, **bounds):
    """call(o) on a field, no argument objects."""
    def b(S):
        o, g = mk(S, kind, **(mkw or {}))
        if pre:
            pre(S, o, g)
        return o, g, [], (lambda x: call(S, x, g))
    OPS[kind][name] = b
    if bounds:
        BOUNDS[(kind, name)] = bounds


SMALL = dict(unbounded=False, why_bounded='loops over the nodes')
for kind in ('sf', 'vf'):
    simple(kind, 'copy', lambda S, o, g: o.copy())
    simple(kind, 'negation', lambda S, o, g: -o)
    simple(kind, 'absolute value', lambda S, o, g: abs(o))
    simple(kind, 'square', lambda S, o, g: o ** 2)
    for nm, f in (('plus', op.add), ('minus', op.sub), ('times', op.mul), ('over', op.truediv)):
        simple(kind, '%s number' % nm, lambda S, o, g, f=f: f(o, S.real('k', nz=True)))
        if nm != 'over' or kind == 'sf':
            simple(kind, 'number %s field' % nm, lambda S, o, g, f=f: f(S.real('k', nz=True), o), mkw={'nz': nm == 'over'})
        simple(kind, '%s quantity' % nm, lambda S, o, g, f=f: f(o, 2.0 * g.uv))

        def bf(S, kind=kind, f=f):
            o, g = mk(S, kind)
            p, h = mk(S, kind, tag='h', nx=g.nx, ny=g.ny, axes=(g.x, g.y), units=(g.ux, g.uy, S.make_unit('km/s')))
            h.kind = kind
            return o, g, [(p, h)], (lambda x: f(x, p))
        if kind == 'sf' or nm in ('plus', 'minus'):
            OPS[kind]['%s field' % nm] = bf

        def ba(S, kind=kind, f=f):
            o, g = mk(S, kind)
            a = S.arr('a', (g.nx, g.ny))
            return o, g, [(a, 'array')], (lambda x: f(x, a))
        if nm in ('times', 'over') or (kind == 'vf' and nm == 'plus'):
            OPS[kind]['%s array' % nm] = ba

    for a in (0, 90, 180, 270):
        simple(kind, 'rotate %d' % a, lambda S, o, g, a=a: o.rotate(a))
    simple(kind, 'scale', lambda S, o, g: o.scale(scalex=S.real('sx', nz=True), scaley=S.real('sy', nz=True), scalev=S.real('sv', nz=True)))
    simple(kind, 'scale by quantities', lambda S, o, g: o.scale(scalex=2.0 * S.make_unit('s'), scaley=-3.0 * S.make_unit('kg'),
                                                                scalev=0.5 * S.make_unit('s')))

    def bcrop(S, kind=kind):
        o, g = mk(S, kind)
        iv, jv = [S.near('a', [g.x]), S.near('b', [g.x])], [S.near('c', [g.y]), S.near('d', [g.y])]
        return o, g, [(iv, 'list'), (jv, 'list')], (lambda x: x.crop(intervx=iv, intervy=jv))
    OPS[kind]['crop to coordinates'] = bcrop

    def bcropi(S, kind=kind):
        o, g = mk(S, kind)
        iv, jv = [S.int('a', 0, g.nx - 1), g.nx], [0, S.int('d', 0, g.ny)]
        return o, g, [(iv, 'list'), (jv, 'list')], (lambda x: x.crop(intervx=iv, intervy=jv, ind=True))
    OPS[kind]['crop to indices'] = bcropi
    simple(kind, 'crop with default window', lambda S, o, g: o.crop())
    simple(kind, 'extend', lambda S, o, g: o.extend(nmb_left=S.int('l', 0, 3), nmb_right=S.int('r', 0, 3), nmb_up=S.int('u', 0, 3), nmb_down=S.int('d', 0, 3)))
    simple(kind, 'fill with a value', lambda S, o, g: o.fill(kind='value', value=S.real('v')))
    simple(kind, 'fill with a value and crop', lambda S, o, g: o.fill(kind='value', value=1.5, crop=True), **SMALL)
    simple(kind, 'crop masked border', lambda S, o, g: o.crop_masked_border())
    for fct in (1, 2, 3):
        simple(kind, 'reduce resolution by %d' % fct, lambda S, o, g, fct=fct: o.reduce_spatial_resolution(fct),
               **dict(SMALL, sizes=({'nx': fct, 'ny': fct + 1}, {'nx': 2 * fct, 'ny': fct})))
def pv(S):
    o, g = mk(S, 'vf')
    v = S.arr('pair', (2,))
    return o, g, [(v, 'array')], (lambda x: x + v)


OPS['vf']['plus pair'] = pv
