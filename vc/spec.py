"""Contract registry and the vocabulary shared by the deductive run and the concrete run of a contract.

A contract is a Python function of one argument S.  It states requires-clauses with S.assume (or through the
generators), runs the real code through S.call, and states ensures-clauses with S.check / S.check_all.
"""
REGISTRY = []


class Contract:
    def __init__(self, fn, prop, name, functions, sizes, unbounded, con_runs, budget, grid, axioms, why_bounded):
        self.fn, self.prop, self.name, self.functions = fn, prop, name, functions
        self.sizes, self.unbounded, self.con_runs, self.budget = sizes, unbounded, con_runs, budget
        self.grid = grid
        self.why_bounded = why_bounded

    @property
    def key(self):
        return '%s/%s' % (self.prop, self.name)


def contract(prop, name, functions, sizes=({'nx': 2, 'ny': 2}, {'nx': 2, 'ny': 3}, {'nx': 3, 'ny': 2}), unbounded=True,
             con_runs=60, budget=110, grid=None, axioms=(), why_bounded=''):
    def deco(fn):
        REGISTRY.append(Contract(fn, prop, name, list(functions), list(sizes), unbounded, con_runs, budget, grid, axioms,
                                 why_bounded))
        return fn
    return deco


class StopContract(Exception):
    """Ends a contract early (a check that later clauses depend on has failed)."""


class Discard(Exception):
    """The sampled input does not satisfy the requires-clauses."""


class Res:
    __slots__ = ('ok', 'value', 'exc')

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def raised(self, *types):
        return (not self.ok) and (not types or isinstance(self.exc, types))


class BaseSpec:
    """Vocabulary common to both back ends."""
    symbolic = False

    # -- modules
    @property
    def core(self):
        return self.mod('IMTreatment.core')

    @property
    def np(self):
        return self.npmod

    def call(self, f, *a, **k):
        try:
            return Res(True, f(*a, **k), None)
        except StopContract:
            raise
        except Discard:
            raise
        except Exception as e:
            return Res(False, None, e)

    def run(self, label, f, *a, **k):
        """Call that must not raise; returns the value."""
        r = self.call(f, *a, **k)
        self.check(label + ': returns normally', r.ok, r)
        if not r.ok:
            raise StopContract()
        return r.value

    def must(self, name, cond):
        """Check a concrete structural fact that later clauses rely on."""
        cond = bool(cond)
        self.check(name, cond)
        if not cond:
            raise StopContract()

    # -- objects
    def unit_m(self):
        return self.make_unit('m')

    def make_unit(self, s):
        return self.mod('IMTreatment.utils').make_unit(s)

    def sf(self, tag='f', nx=None, ny=None, axes=None, mask=True, units=None, uniform=False, dtype=None, nan=False, pos=False, nz=False):
        """A ScalarField built through the public constructor path, with its ghost description."""
        nx = self.n(tag_n('nx')) if nx is None else nx
        ny = self.n(tag_n('ny')) if ny is None else ny
        g = Ghost()
        g.nx, g.ny = nx, ny
        if axes is None:
            g.x = self.axis(tag + '.x', nx, uniform)
            g.y = self.axis(tag + '.y', ny, uniform)
        else:
            g.x, g.y = axes
        g.v = self.arr(tag + '.v', (nx, ny), nan=nan, pos=pos, nz=nz)
        g.m = self.boolarr(tag + '.m', (nx, ny)) if mask else None
        g.ux, g.uy, g.uv = units if units is not None else (self.make_unit('m'), self.make_unit('mm'), self.make_unit('m/s'))
        o = self.core.ScalarField()
        o.import_from_arrays(g.x, g.y, g.v, mask=g.m, unit_x=g.ux, unit_y=g.uy, unit_values=g.uv)
        g.o = o
        return o, g

    def vf(self, tag='f', nx=None, ny=None, axes=None, mask=True, units=None, uniform=False, nan=False, pos=False, nz=False):
        nx = self.n(tag_n('nx')) if nx is None else nx
        ny = self.n(tag_n('ny')) if ny is None else ny
        g = Ghost()
        g.nx, g.ny = nx, ny
        if axes is None:
            g.x = self.axis(tag + '.x', nx, uniform)
            g.y = self.axis(tag + '.y', ny, uniform)
        else:
            g.x, g.y = axes
        g.vx = self.arr(tag + '.vx', (nx, ny), nan=nan, pos=pos, nz=nz)
        g.vy = self.arr(tag + '.vy', (nx, ny), nan=nan, pos=pos, nz=nz)
        g.m = self.boolarr(tag + '.m', (nx, ny)) if mask else None
        g.ux, g.uy, g.uv = units if units is not None else (self.make_unit('m'), self.make_unit('mm'), self.make_unit('m/s'))
        o = self.core.VectorField()
        o.import_from_arrays(g.x, g.y, g.vx, g.vy, mask=g.m if g.m is not None else False, unit_x=g.ux, unit_y=g.uy,
                             unit_values=g.uv)
        g.o = o
        return o, g

    def prof(self, tag='p', n=None, x=None, mask=True, nan=False, units=None, uniform=False, lo=2):
        """A Profile built through its constructor from sorted positions."""
        g = Ghost()
        g.n = self.n('n', lo) if n is None else n
        g.x = self.axis(tag + '.x', g.n, uniform) if x is None else x
        g.y = self.arr(tag + '.y', (g.n,), nan=nan)
        g.m = self.boolarr(tag + '.m', (g.n,)) if mask else None
        g.ux, g.uy = units if units is not None else (self.make_unit('m'), self.make_unit('m/s'))
        o = self.core.Profile(g.x, g.y, mask=g.m if mask else False, unit_x=g.ux, unit_y=g.uy, name='p')
        g.o = o
        return o, g

    def ghost(self):
        return Ghost()

    def pm(self, g, i):
        return self.Or(self.el(g.m, i) if g.m is not None else self.false(), self.isnan(self.el(g.y, i)))

    def prof_is(self, label, p, n, x, masked, y, ux, uy):
        """Profile p has n samples; sample i is at x(i), flagged masked(i), with value y(i)."""
        self.must(label + ': arrays are vectors', self.ndim(p.x) == 1 and self.ndim(p.y) == 1 and self.ndim(p.mask) == 1)
        self.check(label + ': lengths', self.And(self.eqn(self.length(p.x), n), self.eqn(self.length(p.y), n),
                                                 self.eqn(self.length(p.mask), n)))
        self.check(label + ': mask is boolean', self.kind(p.mask) == 'b')
        self.check_all(label + ': positions', (n,), lambda i: self.eq(self.el(p.x, i), x(i)))
        self.check_all(label + ': mask flags', (n,), lambda i: self.iff(self.el(p.mask, i), masked(i)))
        self.check_all(label + ': values', (n,), lambda i: self.ite_b(masked(i), self.isnan(self.el(p.y, i)),
                                                                      self.eq(self.el(p.y, i), y(i))))
        self.check(label + ': units', self.And(self.ueq(p.unit_x, ux), self.ueq(p.unit_y, uy)))

    def prof_same(self, label, p, g):
        self.prof_is(label, p, g.n, lambda i: self.el(g.x, i), lambda i: self.pm(g, i), lambda i: self.el(g.y, i), g.ux, g.uy)

    def tf(self, kind, K=3, tag='t', mask=True, tunit=None, units=None, times=None, axes=None, nan=False, pos=False, uniform=False):
        """A set of K fields on common axes, built by adding them in increasing time."""
        g = Ghost()
        g.kind, g.K = kind, K
        g.tu = tunit if tunit is not None else self.make_unit('s')
        g.nx, g.ny = self.n('nx'), self.n('ny')
        if axes is None:
            axes = (self.axis(tag + '.x', g.nx, uniform), self.axis(tag + '.y', g.ny, uniform))
        g.x, g.y = axes
        if times is None:
            ta = self.axis(tag + '.t', K)
            times = [self.el(ta, k) for k in range(K)]
        g.t = list(times)
        g.ux, g.uy, g.uv = units if units is not None else (self.make_unit('m'), self.make_unit('mm'), self.make_unit('m/s'))
        o = self.core.TemporalScalarFields() if kind == 'sf' else self.core.TemporalVectorFields()
        g.f = []
        for k in range(K):
            make = self.sf if kind == 'sf' else self.vf
            f, h = make('%s%d' % (tag, k), nx=g.nx, ny=g.ny, axes=axes, mask=mask, units=(g.ux, g.uy, g.uv), nan=nan, pos=pos)
            o.add_field(f, time=g.t[k], unit_times=g.tu)
            g.f.append(h)
        g.o = o
        return o, g

    def pts(self, tag='q', n=None, v=True, units=None, lo=1):
        g = Ghost()
        g.n = self.n('n', lo) if n is None else n
        g.xy = self.arr(tag + '.xy', (g.n, 2))
        g.v = self.arr(tag + '.v', (g.n,)) if v else None
        g.ux, g.uy, g.uv = units if units is not None else (self.make_unit('m'), self.make_unit('mm'), self.make_unit('s'))
        kw = {'v': g.v} if v else {}
        o = self.core.Points(self.snap(g.xy), unit_x=g.ux, unit_y=g.uy, unit_v=g.uv, name='q', **kw)
        g.o = o
        return o, g

    def pts_is(self, label, p, n, x, y, v, ux, uy, uv):
        """Points p has n points; point i is at (x(i), y(i)) with value v(i) (v None: no values)."""
        self.must(label + ': positions are an array of pairs', self.ndim(p.xy) == 2 and self.ndim(p.v) == 1)
        self.check(label + ': number of points', self.And(self.eqn(self.dim(p.xy, 0), n), self.eqn(self.dim(p.xy, 1), 2)))
        self.check_all(label + ': positions', (n,), lambda i: self.And(self.eq(self.el(p.xy, i, 0), x(i)), self.eq(self.el(p.xy, i, 1), y(i))))
        if v is None:
            self.check(label + ': no values', self.eqn(self.length(p.v), 0))
        else:
            self.check(label + ': one value per point', self.eqn(self.length(p.v), n))
            self.check_all(label + ': values', (n,), lambda i: self.eq(self.el(p.v, i), v(i)))
        self.check(label + ': units', self.And(self.ueq(p.unit_x, ux), self.ueq(p.unit_y, uy), self.ueq(p.unit_v, uv)))

    def pts_same(self, label, p, g):
        self.pts_is(label, p, g.n, lambda i: self.el(g.xy, i, 0), lambda i: self.el(g.xy, i, 1),
                    (lambda i: self.el(g.v, i)) if g.v is not None else None, g.ux, g.uy, g.uv)

    # ghost readers: masked?, value
    def gm(self, g, i, j):
        m = self.el(g.m, i, j) if g.m is not None else self.false()
        vs = [g.v] if hasattr(g, 'v') else [g.vx, g.vy]
        return self.Or(m, *[self.isnan(self.el(v, i, j)) for v in vs])

    def comps(self, o):
        """The component arrays of a field object."""
        if isinstance(o, self.core.VectorField):
            return [o.comp_x, o.comp_y]
        return [o.values]

    def gcomps(self, g):
        return [g.v] if hasattr(g, 'v') else [g.vx, g.vy]

    # element-wise agreement of object o at (i,j) with expected masked flag / component values
    def cell(self, o, i, j, masked, vals):
        """o's mask at (i,j) equals `masked`, unmasked components equal vals, masked ones read NaN."""
        cs = self.comps(o)
        out = [self.iff(self.el(o.mask, i, j), masked)]
        for c, v in zip(cs, vals):
            e = self.el(c, i, j)
            out.append(self.ite_b(masked, self.isnan(e), self.eq(e, v)))
        return self.And(*out)

    def same_units(self, a, b):
        return self.And(self.ueq(a.unit_x, b.unit_x), self.ueq(a.unit_y, b.unit_y),
                        self.ueq(a.unit_values, b.unit_values))

    def ueq(self, u, w):
        """Same unit: the quotient is the plain number one and the written units agree."""
        if u is None or w is None:
            return u is w
        try:
            q = u / w
            num = q.asNumber(1)
        except Exception:
            return False
        return self.And(u._unit == w._unit, self.eq(num, 1.0), self.eq(u.asNumber(), w.asNumber()))

    def usame(self, u, w):
        """Same physical unit, possibly written differently."""
        try:
            num = (u / w).asNumber(1)
        except Exception:
            return False
        return self.eq(num, 1.0)

    def wellformed(self, name, o, nx=None, ny=None, nan=True):
        """The class invariant of a 2-D field."""
        C = self.core
        if nx is None:
            nx, ny = self.length(o.axe_x), self.length(o.axe_y)
        self.must(name + ': axes are 1-D arrays', self.ndim(o.axe_x) == 1 and self.ndim(o.axe_y) == 1)
        self.check(name + ': axis lengths', self.And(self.eqn(self.length(o.axe_x), nx), self.eqn(self.length(o.axe_y), ny)))
        for k, c in enumerate(self.comps(o)):
            self.must(name + ': values are 2-D (%d)' % k, self.ndim(c) == 2)
            self.check(name + ': values shape (%d)' % k, self.And(self.eqn(self.dim(c, 0), nx), self.eqn(self.dim(c, 1), ny)))
        m = o.mask
        self.must(name + ': mask is 2-D', self.ndim(m) == 2)
        self.check(name + ': mask shape', self.And(self.eqn(self.dim(m, 0), nx), self.eqn(self.dim(m, 1), ny)))
        self.check(name + ': mask is boolean', self.kind(m) == 'b')
        self.check(name + ': shape property', self.And(self.eqn(o.shape[0], nx), self.eqn(o.shape[1], ny)))
        self.check_all(name + ': x axis strictly increasing', (nx - 1,), lambda i: self.lt(self.el(o.axe_x, i), self.el(o.axe_x, i + 1)))
        self.check_all(name + ': y axis strictly increasing', (ny - 1,), lambda i: self.lt(self.el(o.axe_y, i), self.el(o.axe_y, i + 1)))
        cs = self.comps(o)
        self.check_all(name + ': NaN exactly on the mask' if nan else name + ': NaN on the mask', (nx, ny),
                       lambda i, j: self.And(*[(self.iff if nan else lambda a, b: self.imp(b, a))(self.isnan(self.el(c, i, j)), self.el(m, i, j)) for c in cs]))
        for u in (o.unit_x, o.unit_y, o.unit_values):
            self.check(name + ': units are units', self.eq(u.asNumber(), 1.0))


def tag_n(s):
    return s


class Ghost:
    pass
