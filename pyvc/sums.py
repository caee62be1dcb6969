"""Finite sums as prefix-sum functions PS(params, hi) = sum_{0<=v<hi} body(params, v) (extended to all integers by
PS(k+1) = PS(k) + body(k)).  SUM(lo, hi) = PS(hi) - PS(lo) for lo <= hi."""
from fractions import Fraction
import z3
from . import terms
from .terms import *
from .values import Unsupported

PSREG = {}          # symbol name -> entry
NONNEG = {'exp', 'sqrt', 'absf'}      # functions whose values are never negative
CAPTURED = {}       # (name, param ids) -> list of (var, fact)


def body_at(ent, params, idx):
    t = ent['sk']
    pairs = [(z3.Const('p!%d!%s' % (i, p.sort().name()), p.sort()), p) for i, p in enumerate(params)]
    pairs.append((ent['ph'], lift(idx)))
    return z3.substitute(t, *pairs) if pairs else t


def ps_expand(t):
    """polynomial of PS(params, hi) with the constant part of hi peeled off, None if already normal"""
    ent = PSREG.get(t.decl().name())
    if ent is None:
        return None
    ch = t.children()
    params, hi = [canon(c) for c in ch[:-1]], ch[-1]
    p = poly(hi)
    c = p.d.get((), Fraction(0))
    if c.denominator != 1:
        return None
    c = int(c)
    base = Poly({m: x for m, x in p.d.items() if m != ()})
    if not base.d:
        if 0 <= c <= 12:
            r = Poly()
            for j in range(c):
                r = r + poly(body_at(ent, params, z3.IntVal(j)))
            return r
        return None
    b = term_of(base, INT)
    if c == 0 or abs(c) > 8:
        if hi.eq(b) and all(x.eq(y) for x, y in zip(params, ch)):
            return None
        return terms._atom(t.decl()(*(params + [canon(hi)])))
    r = terms._atom(t.decl()(*(params + [b])))
    if c > 0:
        for j in range(c):
            r = r + poly(body_at(ent, params, term_of(base + Poly.const(j), INT)))
    else:
        for j in range(1, -c + 1):
            r = r - poly(body_at(ent, params, term_of(base - Poly.const(j), INT)))
    return r


terms.PS_HOOK = ps_expand


def ps_term(eng, vterm, v, hi, capture=()):
    """PS symbol for body vterm(v), at hi"""
    sk, params, ph = SK.abstract(vterm, [v])
    sort = vterm.sort()
    ent = SK.symbol('ps', [sk], params, [INT], sort)
    name = ent['name']
    if name not in PSREG:
        ent.update(sk=sk, ph=ph[0], sort=sort)
        ent['nonneg'] = _nonneg(poly(vterm), v)
        ent['ind'] = _is_ind(poly(vterm))
        PSREG[name] = ent
    key = (name, tuple(p.get_id() for p in params))
    if capture and key not in CAPTURED:
        for p in params:
            keep(p)
        CAPTURED[key] = [(v, f) for f in capture]
    t = ent['f'](*(params + [canon(lift(hi))]))
    if eng.ghost.get('psval'):
        r = rewrite(eng, canon(t))
        if r is not None:
            return r
    note(eng, ent, params, hi)
    return t


def rewrite(eng, t):
    pairs = []
    for x in terms.subterms(t).values():
        if z3.is_quantifier(x) or not x.num_args() or x.decl().name() not in PSREG:
            continue
        for known, value, ph in eng.ghost['psval']:
            if known.decl().eq(x.decl()):
                m = [b for a, b in zip(known.children(), x.children()) if a.eq(ph)]
                if all(a.eq(ph) or a.eq(b) for a, b in zip(known.children(), x.children())) and all(q.eq(m[0]) for q in m):
                    pairs.append((x, z3.substitute(value, (ph, m[0])) if m else value))
                    break
    return canon(z3.substitute(t, *pairs)) if pairs else None


def know(eng, total, value, ph):
    """the sum `total` (a term with one prefix sum, linear in it) has the given value for every ph: prefix sums are rewritten accordingly"""
    ps = [t for t in terms.subterms(total).values() if not z3.is_quantifier(t) and t.num_args() and t.decl().name() in PSREG]
    if len(ps) != 1:
        return False
    k = ps[0]
    rest = canon(total - k)
    if any(x.eq(k) for x in terms.subterms(rest).values()):
        return False
    eng.ghost['psval'] = tuple(eng.ghost.get('psval', ())) + ((keep(k), keep(canon(lift(value) - rest)), ph),)
    return True


def note(eng, ent, params, hi):
    """order facts between the accessed prefix sums of a non-negative body"""
    if not ent['nonneg']:
        return
    key = ('ps', ent['name'], tuple(p.get_id() for p in params))
    for p in params:
        keep(p)
    eng.ghost.setdefault('ps', {})
    eng.ghost['ps'] = dict(eng.ghost['ps'])
    eng.ghost['ps'][key] = (ent, params)
    old, new = eng.accessed(key, hi)
    if not new:
        return
    f = lambda h: ent['f'](*(params + [lift(h)]))
    zero = z3.IntVal(0) if ent['sort'] == INT else z3.RealVal(0)
    up = (lambda a, b: f(b) - f(a) <= (b - a if ent['sort'] == INT else to_real(b) - to_real(a))) if ent['ind'] else (lambda a, b: True)
    hi = lift(hi)
    pz = z3.IntVal(0)
    for o in [pz] + old:
        for a, b in ((o, hi), (hi, o)):
            if not is_z3(a):
                a = lift(a)
            c = z3.Implies(a <= b, z3.And(f(b) - f(a) >= zero, up(a, b)))
            eng.assume(z3.substitute(c, (f(pz), zero)))


def touch(eng, idx):
    """element idx of every known non-negative sum becomes visible to the solver"""
    for key, (ent, params) in list(eng.ghost.get('ps', {}).items()):
        note(eng, ent, params, idx)
        note(eng, ent, params, canon(lift(idx) + 1))


def _nonneg(p, v):
    for m, c in p.d.items():
        if c < 0:
            return False
        for k, e in m:
            if k[0] == 'i' or e % 2 == 0:
                continue
            if k[0] == 'a':
                t = terms._keep[k[1]]
                if t.num_args() and t.decl().name() in PSREG and PSREG[t.decl().name()]['nonneg']:
                    return False        # only for non-negative upper bounds
                if t.num_args() and t.decl().name() in NONNEG:
                    continue
            return False
    return True


def _is_ind(p):
    return len(p.d) <= 1 and all(c == 1 and all(k[0] == 'i' for k, _ in m) for m, c in p.d.items())


def _mterm(m, sort):
    return term_of(Poly({m: Fraction(1)}), sort)


_depth = [0]


def SUM(eng, lo, hi, bodyfn, _split=0):
    """sum_{lo <= v < hi} bodyfn(v); lo <= hi is assumed to hold (checked by the callers)"""
    lo, hi = lift(lo), lift(hi)
    d = (poly(hi) - poly(lo))
    if d.is_const() and 0 <= d.const_value() <= 12 and d.const_value().denominator == 1:
        r = Poly()
        sort = INT
        for j in range(int(d.const_value())):
            b = to_num(bodyfn(canon(lo + j)))
            b = lift(b)
            if b.sort() == REAL and sort == INT:
                sort = REAL
                r = terms._map_atoms_to_real(r)
            elif sort == REAL and b.sort() == INT:
                b = to_real(b)
            r = r + poly(b)
        return term_of(r, sort)
    if d.is_const() and d.const_value() < 0:
        return z3.IntVal(0)
    v = z3.Int('bv!%d' % _depth[0])
    _depth[0] += 1
    eng.generic.append(v)
    eng.nofork += 1
    try:
        with eng.scope():
            n0 = len(eng.facts)
            eng.assume(lo <= v)
            eng.assume(v < hi)
            n1 = len(eng.facts)
            body = lift(to_num(bodyfn(v)))
            capture = [f for f in eng.facts[n1:] if contains(f, v)]
            sort = body.sort()
            p = poly(body)
            p = _simplify_inds(eng, p, v)
    finally:
        _depth[0] -= 1
        eng.generic.pop()
        eng.nofork -= 1
    total = Poly()
    width = poly(hi) - poly(lo)
    if sort == REAL:
        width = terms._map_atoms_to_real(width)
    groups = {}
    for m, c in p.d.items():
        dep, free = [], []
        for k, e in m:
            t = terms._keep[k[1]] if k[0] in ('a', 'i') else term_of(den_poly(k), sort)
            (dep if contains(t, v) else free).append((k, e))
        groups.setdefault(tuple(dep), Poly())
        groups[tuple(dep)] = groups[tuple(dep)] + Poly({tuple(free): c})
    for dep, coef in groups.items():
        if not dep:
            total = total + coef * width
            continue
        s = _singleton(eng, dep, v, lo, hi, sort)
        if s is None:
            s = _split_range(eng, dep, v, lo, hi, sort)
        if s is not None:
            total = total + coef * poly(s)
            continue
        vt = _mterm(dep, sort)
        a = poly(ps_term(eng, vt, v, hi, capture))
        if not (z3.is_int_value(lo) and lo.as_long() == 0):
            a = a - poly(ps_term(eng, vt, v, lo, capture))
        total = total + coef * a
    return term_of(total, sort)


def _singleton(eng, dep, v, lo, hi, sort):
    """sum of [v == a] * g(v)  ->  g(a) when lo <= a < hi, 0 when a is outside"""
    for j, (k, e) in enumerate(dep):
        if k[0] != 'i':
            continue
        c = terms._keep[k[1]]
        if not (z3.is_eq(c) and c.arg(0).sort() == INT):
            continue
        q = poly(c.arg(0)) - poly(c.arg(1))
        cv, rest, ok = Fraction(0), Poly(), True
        for m, x in q.d.items():
            if m == ((('a', v.get_id()), 1),):
                cv = x
            elif any(kk[0] != 'a' or contains(terms._keep[kk[1]], v) for kk, _ in m):
                ok = False
            else:
                rest = rest + Poly({m: x})
        if not ok or abs(cv) != 1:
            continue
        a = canon(term_of(rest * Poly.const(-cv), INT))
        inside = z3.And(lo <= a, a < hi)
        if eng.entails(inside):
            g = _mterm(tuple(x for i, x in enumerate(dep) if i != j), sort)
            return canon(z3.substitute(g, (v, a)))
        if eng.entails(z3.Not(inside)):
            return z3.IntVal(0) if sort == INT else z3.RealVal(0)
    return None


def _split_range(eng, dep, v, lo, hi, sort):
    """[v < s] * g(v) over lo..hi  ->  g(v) over lo..s  when lo <= s <= hi"""
    for j, (k, e) in enumerate(dep):
        if k[0] != 'i':
            continue
        c = terms._keep[k[1]]
        neg = False
        if not (z3.is_le(c) and c.arg(0).sort() == INT):
            continue
        # a <= b  with v linear on one side
        q = poly(c.arg(0)) - poly(c.arg(1))
        cv = Fraction(0)
        ok = True
        rest = Poly()
        for m, x in q.d.items():
            if m == ((('a', v.get_id()), 1),):
                cv = x
            elif any(kk[0] == 'a' and contains(terms._keep[kk[1]], v) or kk[0] != 'a' for kk, _ in m):
                ok = False
            else:
                rest = rest + Poly({m: x})
        if not ok or abs(cv) != 1:
            continue
        if cv == 1:       # v + rest <= 0  <=> v < 1 - rest
            s = canon(term_of(Poly.const(1) - rest, INT))
            a, b = lo, s
        else:             # rest <= v
            s = canon(term_of(rest, INT))
            a, b = s, hi
        if not (eng.entails(lo <= s) and eng.entails(s <= hi)):
            continue
        other = tuple(x for i, x in enumerate(dep) if i != j)
        g = _mterm(other, sort)
        return SUM(eng, a, b, lambda u: z3.substitute(g, (v, lift(u))))
    return None


def _simplify_inds(eng, p, v):
    inds = {k for m in p.d for k, _ in m if k[0] == 'i'}
    val = {}
    for k in inds:
        c = terms._keep[k[1]]
        if eng.entails(c):
            val[k] = 1
        elif eng.entails(z3.Not(c)):
            val[k] = 0
    if not val:
        return p
    r = Poly()
    for m, c in p.d.items():
        if any(val.get(k) == 0 for k, _ in m):
            continue
        r = r + Poly({tuple((k, e) for k, e in m if k not in val): c})
    return r


def extensionality(eng, goal, facts):
    """assumes equality of prefix sums in the goal whose bodies are provably equal on the range"""
    apps = {}
    for x in subterms(goal).values():
        if x.num_args() and not z3.is_quantifier(x) and x.decl().name() in PSREG:
            apps[x.get_id()] = x
    if len(apps) < 2:
        return False
    tried = eng.ghost.setdefault('ext', {})
    did = False
    xs = sorted(apps.values(), key=lambda t: t.sexpr())
    for i, a in enumerate(xs):
        for b in xs[i + 1:]:
            if a.sort() != b.sort():
                continue
            ha, hb = canon(a.children()[-1]), canon(b.children()[-1])
            same = ha.eq(hb)
            if a.decl().eq(b.decl()) and same and len(a.children()) > 4:
                pass
            key = (a.get_id(), b.get_id(), len(eng.facts))
            if key in tried:
                continue
            keep(a)
            keep(b)
            tried[key] = True
            if not same and not eng.entails(ha == hb):
                continue
            if canon_bool(a == b).get_id() in eng.factids or z3.is_true(canon_bool(a == b)):
                continue
            ea, eb = PSREG[a.decl().name()], PSREG[b.decl().name()]
            pa, pb = a.children()[:-1], b.children()[:-1]
            with eng.scope():
                w = z3.Int('ext!w')
                eng.assume(0 <= w)
                eng.assume(w < ha)
                for e, ps in ((ea, pa), (eb, pb)):
                    for (cv, f) in CAPTURED.get((e['name'], tuple(canon(p).get_id() for p in ps)), []):
                        eng.assume(z3.substitute(f, (cv, w)))
                ok = eng.holds(body_at(ea, pa, w) == body_at(eb, pb, w))
            if ok:
                eng.assume(a == b)
                did = True
    return did
