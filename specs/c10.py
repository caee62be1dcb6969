"""C10: points of the unit hypercube are mapped onto the unit (half) sphere."""
from pyvc.model import *
from pyvc.inv import for_rule
from .hyper import *

U = uf('u', INT, INT, REAL)            # coordinate d of point p
YP = uf('yphl', INT, INT, INT, REAL)   # YPHL construction: coordinate r of point p after t steps


def u_(eng, p, d):
    x = U(lift(p), lift(d))
    eng.assume(z3.And(x >= 0, x <= 1))
    return x


class Yphl:
    """the construction: base() after no step, step(t) from t to t + 1 steps; width(t): number of coordinates made so far"""
    def __init__(self, eng, even, half):
        self.eng, self.even, self.half = eng, even, half
        self.w0 = 2 if even else 1 if half else 3
        self.used = 1 if even else 0 if half else 2      # coordinates of the cube used by the base

    def width(self, t):
        return canon(self.w0 + 2 * lift(t))

    def base(self, r, p):
        eng = self.eng
        B = lambda op, a, b: s_binop(eng, op, a, b)
        f = lambda n, x: s_fun(eng, n, x)
        if self.even:
            u = u_(eng, p, 0)
            phi = B('*', PI, B('-', u, Fraction(1, 2))) if self.half else B('*', B('*', 2, PI), u)
            xs = [f('cos', phi), f('sin', phi)]
        elif self.half:
            xs = [Fraction(1)]
        else:
            phi = f('arccos', B('-', B('*', 2, u_(eng, p, 0)), 1))
            th = B('*', B('*', 2, PI), u_(eng, p, 1))
            xs = [B('*', f('sin', phi), f('cos', th)), B('*', f('sin', phi), f('sin', th)), f('cos', phi)]
        return pick(eng, r, xs)

    def parts(self, t, p):
        eng = self.eng
        B = lambda op, a, b: s_binop(eng, op, a, b)
        W, c = self.width(t), canon(self.used + 2 * lift(t))
        h = s_pow(eng, u_(eng, p, c), s_div(eng, 1, W))
        rho = s_sqrt(eng, B('-', 1, B('*', h, h)))
        phi = B('*', B('*', 2, PI), u_(eng, p, canon(c + 1)))
        return W, h, B('*', rho, s_fun(eng, 'cos', phi)), B('*', rho, s_fun(eng, 'sin', phi))

    def step(self, t, r, p):
        """coordinate r after t + 1 steps"""
        W, h, a, b = self.parts(t, p)
        r = lift(r)
        return s_ite(canon_bool(r < W), s_binop(self.eng, '*', YP(lift(t), r, lift(p)), h), s_ite(canon_bool(r == W), a, b))


def simp_under(eng, g):
    """conditions of g decided by the facts are replaced"""
    g = lift(g)
    for x in list(subterms(g).values()):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            v = True if eng.entails(c) else False if eng.entails(z3.Not(c)) else None
            if v is not None:
                g = z3.substitute(g, (c, z3.BoolVal(v)))
    return canon(g)


def mono(*xs):
    r = lift(to_real(xs[0]))
    for x in xs[1:]:
        r = r * lift(to_real(x))
    return canon(r)


class SphereInv:
    def __init__(self, I, ref, y, E, n):
        self.I, self.ref, self.y, self.E, self.n = I, ref, y, E, n
        self.addrs = {ref.addr}
        eng = I.eng
        eng.ghost['yphl'] = self

    def at(self, k):
        k = canon(k)
        if z3.is_int_value(k) and k.as_long() == 0:
            return self.y.base
        t = canon(k - 1)
        return lambda r, p: self.y.step(t, r, p)

    def check(self, k, when):
        eng = self.I.eng
        a = deref(eng, self.ref)
        r, p = eng.fresh_plain('r', INT), eng.fresh_plain('p', INT)
        W = self.y.width(k)
        with eng.scope():
            eng.assume(z3.And(r >= 0, r < lift(self.E), p >= 0, p < lift(self.n)))
            eng.prove('at most as many coordinates as the sphere has (%s)' % when, W <= lift(self.E))
            Y = self.at(k)
            if 'iteration' in when:
                self.lemmas(canon(k - 1), p)
            with eng.scope():
                eng.assume(r < W)
                eng.prove('coordinates made so far are those of the YPHL construction (%s)' % when, lift(to_real(a.fn(r, p))) == lift(to_real(Y(r, p))))
            with eng.scope():
                eng.assume(r >= W)
                eng.prove('further coordinates are still zero (%s)' % when, lift(to_real(a.fn(r, p))) == 0)
            eng.prove('the coordinates made so far have length one (%s)' % when,
                      lift(to_real(sums.SUM(eng, 0, W, lambda q: s_binop(eng, '*', Y(q, p), Y(q, p))))) == 1)
            if self.y.half:
                g = to_real(Y(z3.IntVal(0), p))
                if 'iteration' in when:
                    g = simp_under(eng, g)
                eng.prove('the first coordinate is not negative (%s)' % when, lift(g) >= 0)

    def lemmas(self, t, p):
        """facts about the numbers of one step: h in [0, 1], the two new coordinates have squares adding up to 1 - h * h"""
        eng = self.I.eng
        W, h, a, b = self.y.parts(t, p)
        h = lift(to_real(h))
        for what, g in (('exponent', lift(to_real(s_div(eng, 1, W))) >= 0), ('lower', h >= 0), ('upper', h <= 1)):
            eng.prove('scaling factor: ' + what, g)
            eng.assume(g)
        hh, aa, bb = (lift(to_real(s_binop(eng, '*', x, x))) for x in (h, a, b))
        eng.prove('square of the scaling factor', hh <= 1)
        eng.assume(hh <= 1)
        c, s = (s_fun(eng, n, s_binop(eng, '*', s_binop(eng, '*', 2, PI), u_(eng, p, canon(self.y.used + 2 * lift(t) + 1)))) for n in ('cos', 'sin'))
        rho = s_sqrt(eng, canon(1 - hh))
        m = mono
        eng.prove('square of the radius', m(rho, rho) == 1 - hh)
        R, C, S = eng.fresh_plain('R', REAL), eng.fresh_plain('C', REAL), eng.fresh_plain('S', REAL)
        # R = rho * rho, C = cos * cos, S = sin * sin
        eng.prove('multiplication', z3.ForAll([R, C, S], z3.Implies(C + S == 1, R * C + R * S == R)))
        eng.assume(m(rho, rho) == 1 - hh)
        eng.prove('circle', m(c, c) + m(s, s) == 1)
        eng.assume(m(rho, rho, c, c) + m(rho, rho, s, s) == m(rho, rho))
        if self.y.half:
            z = YP(lift(t), z3.IntVal(0), lift(p))
            eng.assume(z >= 0)
            Z, H = eng.fresh_plain('Z', REAL), eng.fresh_plain('H', REAL)
            eng.prove('product of numbers that are not negative', z3.ForAll([Z, H], z3.Implies(z3.And(Z >= 0, H >= 0), Z * H >= 0)))
            eng.assume(m(z, h) >= 0)

    def havoc(self, k):
        eng = self.I.eng
        a = deref(eng, self.ref)
        W = self.y.width(k)
        eng.assume(W <= lift(self.E))
        p0 = eng.fresh_plain('p', INT)
        half = self.y.half

        def Y(r, p):
            r, p = lift(r), lift(p)
            x = YP(lift(k), r, p)
            if half:
                eng.assume(YP(lift(k), z3.IntVal(0), p) >= 0)
            return x
        for pt in (p0, z3.IntVal(0)):
            S = lift(sums.SUM(eng, 0, W, lambda q: s_binop(eng, '*', YP(lift(k), lift(q), pt), YP(lift(k), lift(q), pt))))
            if not sums.know(eng, S, z3.RealVal(1), p0):
                raise Unsupported('length of the coordinates made so far')
        fn = lambda r, p: s_ite(canon_bool(lift(r) < W), Y(r, p), z3.RealVal(0))
        eng.heap[self.ref.addr] = Arr(a.shape, fn, 'f', a.cont, None, a.tag, a.origin, {})


def sphere_rule(even, half):
    def make(I, st, fr, it, n):
        """the loop over pairs of coordinates: writes one matrix with a row per coordinate"""
        eng = I.eng
        import ast
        names = {x.id for s in st.body for x in ast.walk(s) if isinstance(x, ast.Name)}
        c = eng.ghost['sphere_task']
        refs = {v for v in (fr.env.get(x) for x in names) if isinstance(v, Ref)}
        refs = [r for r in refs if isinstance(deref(eng, r), Arr) and deref(eng, r).ndim == 2 and eng.heap[r.addr].base is None]
        if len(refs) != 1:
            return None
        a = deref(eng, refs[0])
        if not eng.holds(lift(a.shape[0]) == lift(c.E)):
            return None
        return SphereInv(I, refs[0], Yphl(eng, even, half), c.E, a.shape[1])
    return for_rule(make)


def sphere_task(even, half, single):
    def setup(I, cls):
        eng = I.eng
        c = Ctx()
        q, c.N = z3.Int('q'), z3.Int('N')
        eng.assume(z3.And(q >= 1, c.N >= 1))
        c.D = canon(2 * q - 1) if even else canon(2 * q)
        c.E = canon(c.D + 1)
        c.q = q
        I.loop_rules = [sphere_rule(even, half)]
        eng.ghost['sphere_task'] = c
        if single:
            c.X = eng.alloc(Arr((c.D,), lambda d: u_(eng, 0, d), 'f', origin='param'))
            c.N = z3.IntVal(1)
        else:
            c.X = eng.alloc(Arr((c.N, c.D), lambda p, d: u_(eng, p, d), 'f', origin='param'))
        return [c.X, half], {}, c

    def post(I, r, c):
        eng = I.eng
        y = Yphl(eng, even, half)
        a = deref(eng, r)
        T = canon(c.q - 1) if even or not half else c.q
        if isinstance(a, Arr) and a.ndim == 1 and (single or eng.holds(c.N == 1)):
            f = lambda p, d: a.fn(d)
            eng.prove('one more coordinate than the cube has', lift(a.shape[0]) == lift(c.E))
        else:
            eng.prove('one vector per point', not single and isinstance(a, Arr) and a.ndim == 2)
            if single or not isinstance(a, Arr) or a.ndim != 2:
                return
            f = a.fn
            eng.prove('one vector per point, one more coordinate than the cube has', z3.And(lift(a.shape[0]) == c.N, lift(a.shape[1]) == lift(c.E)))
        p, d = (z3.IntVal(0) if single else eng.fresh_plain('point', INT)), eng.fresh_plain('coord', INT)
        eng.assume(z3.And(p >= 0, p < c.N, d >= 0, d < lift(c.E)))
        Y = lambda dd: YP(lift(T), lift(dd), p)
        eng.prove('the coordinates are those of the YPHL construction', lift(to_real(f(p, d))) == lift(to_real(Y(d))))
        eng.prove('the vector has length one', lift(to_real(sums.SUM(eng, 0, c.E, lambda k: s_binop(eng, '*', f(p, k), f(p, k))))) == 1)
        if half:
            eng.prove('the first coordinate is not negative', lift(to_real(f(p, z3.IntVal(0)))) >= 0)
        frame_ok(eng, what='hypercube_to_hypersphere_surface')
    return fun_task('hypercube_to_hypersphere_surface (%s, %s sphere, %s number of coordinates)' % ('one point' if single else 'points', 'half' if half else 'full', 'even' if even else 'odd'),
                    'utils', 'hypercube_to_hypersphere_surface', setup, post)


def tasks():
    return [sphere_task(e, h, s) for e in (True, False) for h in (True, False) for s in (True, False)]
