"""Term language of the value-numbering analysis.

Numbers are exact rational (Laurent) polynomials over interned atoms; everything that depends on a branch is a
canonical decision diagram (`Node`) over three-way sign tests, boolean unknowns and enum discriminants.
Equality of polynomials is decided on the canonical form, or by a fingerprint in GF(2^61-1) which identifies
algebraically equal rational expressions that are written differently.
"""
from fractions import Fraction
import hashlib
import sys

sys.setrecursionlimit(20000)
P = (1 << 61) - 1


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Unk:
    """A value the analysis does not model; it never takes part in a verdict."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "?%s" % self.why


_UNK = {}


def unk(why):
    return _UNK.setdefault(why, Unk(why))


# ---------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "kind", "args", "nonneg", "pos", "free", "fpv", "iota")

    def __repr__(self):
        return atom_str(self)


ATOMS = []
_ATAB = {}
_EMPTY = frozenset()


def hfp(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") % (P - 2) + 1


def _free(x):
    if isinstance(x, Poly):
        return x.free
    if isinstance(x, (tuple, list)):
        s = _EMPTY
        for y in x:
            s = s | _free(y)
        return s
    f = getattr(x, "free", None)
    return f if f is not None else _EMPTY


def _fp(x):
    if isinstance(x, Poly):
        return x.fp()
    if isinstance(x, (tuple, list)):
        return tuple(_fp(y) for y in x)
    if isinstance(x, (str, int, bool, Fraction)) or x is None:
        return str(x)
    g = getattr(x, "fp", None)
    if g is not None:
        return g()
    return repr(x)


def atom(kind, args, nonneg=False, pos=False):
    key = (kind, args)
    a = _ATAB.get(key)
    if a is not None:
        if pos and not a.pos:
            a.pos = a.nonneg = True
        elif nonneg and not a.nonneg:
            a.nonneg = True
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.kind = kind
    a.args = args
    a.nonneg = nonneg or pos
    a.pos = pos
    a.iota = False
    f = _free(args)
    if kind in ("sym", "mu"):
        f = f | frozenset([a.id])
    if kind in ("sum",):
        f = f - frozenset([IOTA_ID])
    a.free = f
    a.fpv = None
    ATOMS.append(a)
    _ATAB[key] = a
    return a


def atom_fp(a):
    if a.fpv is None:
        k = a.kind
        if k == "inv":
            v = a.args[0].fp()
            a.fpv = pow(v, P - 2, P) if v else 0
        elif k in ("min",):
            a.fpv = hfp("min", tuple(sorted(p.fp() for p in a.args)))
        else:
            a.fpv = hfp(k, _fp(a.args))
    return a.fpv


# ---------------------------------------------------------------- polynomials
_PTAB = {}


class Poly:
    __slots__ = ("t", "free", "_fp", "_sgn")

    def __repr__(self):
        return poly_str(self)

    def fp(self):
        if self._fp is None:
            s = 0
            for mono, c in self.t:
                v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
                for aid, e in mono:
                    b = atom_fp(ATOMS[aid])
                    if e < 0:
                        b = pow(b, P - 2, P) if b else 0
                        e = -e
                    v = v * pow(b, e, P) % P
                s = (s + v) % P
            self._fp = s
        return self._fp

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and self.t[0][0] == ():
            return self.t[0][1]
        return None


def mk(d):
    t = tuple(sorted(((m, c) for m, c in d.items() if c), key=lambda x: x[0]))
    p = _PTAB.get(t)
    if p is None:
        p = Poly()
        p.t = t
        f = _EMPTY
        for m, _ in t:
            for aid, _e in m:
                f = f | ATOMS[aid].free
        p.free = f
        p._fp = None
        p._sgn = None
        _PTAB[t] = p
    return p


def num(x):
    x = Fraction(x)
    return mk({(): x}) if x else mk({})


ZERO = num(0)
ONE = num(1)


def pa(a):
    return mk({((a.id, 1),): Fraction(1)})


def sym(name, nonneg=False, pos=False):
    return pa(atom("sym", (name,), nonneg, pos))


_io = atom("sym", ("ι",), True) if False else None
IOTA_ID = 0
_a = Atom()
_a.id = 0
_a.kind = "sym"
_a.args = ("ι",)
_a.nonneg = True
_a.pos = False
_a.free = frozenset([0])
_a.fpv = None
_a.iota = True
ATOMS.append(_a)
_ATAB[("sym", ("ι",))] = _a
IOTA = pa(_a)


def padd(a, b, s=1):
    d = dict(a.t)
    for m, c in b.t:
        d[m] = d.get(m, 0) + s * c
    return mk(d)


def pscale(a, k):
    return mk({m: c * k for m, c in a.t})


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e))


def pmul(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None:
        return pscale(b, ca)
    if cb is not None:
        return pscale(a, cb)
    d = {}
    special = []
    for m1, c1 in a.t:
        for m2, c2 in b.t:
            m = _mono_mul(m1, m2)
            sp = None
            for aid, e in m:
                A = ATOMS[aid]
                if A.kind == "pow" and e != 1 and isinstance(A.args[1], Fraction) and (A.args[1] * e).denominator == 1:
                    sp = (aid, e)
                    break
            if sp:
                A = ATOMS[sp[0]]
                rest = tuple(x for x in m if x[0] != sp[0])
                special.append(pmul(mk({rest: c1 * c2}), ppowi(A.args[0], int(A.args[1] * sp[1]))))
            else:
                d[m] = d.get(m, 0) + c1 * c2
    r = mk(d)
    for s in special:
        r = padd(r, s)
    return r


def ppowi(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return pinv(ppowi(p, -n))
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def pinv(p):
    c = p.const()
    if c is not None:
        if c == 0:
            return pa(atom("inf", (1,), pos=True))
        return num(1 / c)
    if len(p.t) == 1:
        m, c = p.t[0]
        return mk({tuple((a, -e) for a, e in m): 1 / c})
    lead = p.t[-1][1]
    q = pscale(p, 1 / lead)
    return pscale(pa(atom("inv", (q,), pos=(psign(q) == 1), nonneg=(psign(q) in (1, "n")))), 1 / lead)


def pdiv(a, b):
    c = b.const()
    if c is not None and c != 0:
        return pscale(a, 1 / c)
    if a.t and len(a.t) == len(b.t) and b.t:
        k = a.t[0][1] / b.t[0][1]
        if pscale(b, k) is a:
            return num(k)
    return pmul(a, pinv(b))


def ppow(p, e):
    """p ** e for a rational constant or symbolic exponent"""
    ec = e.const()
    if ec is not None:
        if ec.denominator == 1 and abs(ec) <= 12:
            return ppowi(p, int(ec))
        pc = p.const()
        if pc is not None and pc in (0, 1) and ec > 0:
            return p
        if pc is not None and pc > 0 and ec == Fraction(1, 2):
            from math import isqrt
            n, d = isqrt(pc.numerator), isqrt(pc.denominator)
            if n * n == pc.numerator and d * d == pc.denominator:
                return num(Fraction(n, d))
        # sqrt(q*q) = |q|
        if ec == Fraction(1, 2) and len(p.t) == 1:
            m, c = p.t[0]
            if c > 0 and m and all(x % 2 == 0 for _, x in m):
                r = ppow(num(c), num(Fraction(1, 2)))
                if r.const() is not None:
                    q = pmul(r, mk({tuple((a, x // 2) for a, x in m): Fraction(1)}))
                    return pscale(pmin([q, pscale(q, -1)]), -1)
        return pa(atom("pow", (p, ec), nonneg=True, pos=(psign(p) == 1)))
    return pa(atom("pow", (p, e), nonneg=True))


def is_int(A):
    """natural-number unknowns: counters, lengths, indices"""
    return A.kind in ("sym", "mu", "len", "idx") and A.nonneg and not A.pos


def psign(p):
    """sign provable from the term alone: -1, 0, 1, 'n' (>=0), 'm' (<=0) or None"""
    if p._sgn is not None:
        return p._sgn if p._sgn != "u" else None
    r = _psign(p)
    p._sgn = "u" if r is None else r
    return r


def _msign(m):
    """sign of monomial: 1 strictly positive, 'n' nonneg, None"""
    r = 1
    for aid, e in m:
        A = ATOMS[aid]
        if A.pos:
            continue
        if A.nonneg:
            if e > 0:
                r = "n"
            else:
                pass  # 1/x of a nonnegative x is positive where defined
            continue
        if e % 2 == 0:
            if e > 0:
                r = "n"
            continue
        return None
    return r


def _psign(p):
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    strict = False
    sg = None
    for m, c in p.t:
        s = _msign(m)
        if s is None:
            return None
        k = 1 if c > 0 else -1
        if sg is None:
            sg = k
        elif sg != k:
            return None
        if s == 1:
            strict = True
    if sg == 1:
        return 1 if strict else "n"
    return -1 if strict else "m"


def pmin(ps):
    """min of a list of polynomials (flattened, absorbing)"""
    out = []
    for p in ps:
        if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1:
            aid, e = p.t[0][0][0]
            if e == 1 and ATOMS[aid].kind == "min":
                out.extend(ATOMS[aid].args)
                continue
        out.append(p)
    res = []
    for p in out:
        if p in res:
            continue
        res.append(p)
    keep = []
    for i, p in enumerate(res):
        dom = False
        for j, q in enumerate(res):
            if i != j:
                s = psign(padd(p, q, -1))
                if s in (1, "n") and not (s == "n" and psign(padd(q, p, -1)) == "n" and j > i):
                    dom = True
                    break
        if not dom:
            keep.append(p)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda p: p.t)
    ss = [psign(p) for p in keep]
    nn = all(s in (1, "n", 0) for s in ss)
    ps_ = all(s == 1 for s in ss)
    return pa(atom("min", tuple(keep), nonneg=nn, pos=ps_))


def pmax(ps):
    return pscale(pmin([pscale(p, -1) for p in ps]), -1)


# |p| = -min(-p, p): give the negated min atom a sign fact through psign on demand
def is_abs_min(A):
    return A.kind == "min" and len(A.args) == 2 and padd(A.args[0], A.args[1]).t == ()


_old_msign = _msign


def _msign(m):  # noqa: F811
    if len(m) == 1 and m[0][1] == 1 and is_abs_min(ATOMS[m[0][0]]):
        return None
    return _old_msign(m)


_psign0 = _psign
_INF = atom("inf", (1,), pos=True).id
_INFM = {}


def _infinite(aid):
    """is the term made with infinity or NaN?"""
    r = _INFM.get(aid)
    if r is None:
        def go(x):
            if isinstance(x, Poly):
                return any(_infinite(a) for m, _c in x.t for a, _e in m)
            return isinstance(x, (tuple, list)) and any(go(y) for y in x)
        A = ATOMS[aid]
        r = _INFM[aid] = A.kind in ("inf", "nan") or go(A.args)
    return r


def _psign(p):  # noqa: F811
    # infinity plus finite terms
    if any(a == _INF for m, c in p.t for a, _e in m):
        pure = [c for m, c in p.t if m == ((_INF, 1),)]
        rest = sum(1 for m, c in p.t if any(_infinite(a) for a, _e in m))
        if len(pure) == 1 and rest == 1:
            return 1 if pure[0] > 0 else -1
    # replace abs-like min atoms by minus a nonnegative symbol
    d = {}
    ch = False
    for m, c in p.t:
        if len(m) == 1 and m[0][1] == 1 and is_abs_min(ATOMS[m[0][0]]):
            m = ((_absrep(m[0][0]), 1),)
            c = -c
            ch = True
        d[m] = d.get(m, 0) + c
    if ch:
        return _psign0(mk(d))
    return _psign0(p)


def _absrep(aid):
    return atom("sym", ("abs#%d" % aid,), nonneg=True).id


# ---------------------------------------------------------------- substitution
def psubst(p, m):
    """substitute atoms (id -> Poly) everywhere, respecting bound ι of sums"""
    if not (p.free & m.keys()):
        return p
    r = ZERO
    for mono, c in p.t:
        t = num(c)
        for aid, e in mono:
            t = pmul(t, ppowi(asubst(ATOMS[aid], m), e))
        r = padd(r, t)
    return r


def asubst(a, m):
    if a.id in m:
        return m[a.id]
    if not (a.free & m.keys()):
        return pa(a)
    k = a.kind
    if k == "sum":
        m2 = {x: y for x, y in m.items() if x != IOTA_ID}
        return psum(vsubst(a.args[0], m2), vsubst(a.args[1], m2))
    args = tuple(vsubst(x, m) for x in a.args)
    if k == "inv":
        return pinv(args[0])
    if k == "min":
        return pmin(list(args))
    if k == "pow":
        return ppow(args[0], args[1] if isinstance(args[1], Poly) else num(args[1]))
    if k == "app" and args[0] == "sat0":
        return pmax([args[1][0], ZERO])
    return pa(atom(k, args, a.nonneg, a.pos))


def vsubst(v, m):
    if isinstance(v, Poly):
        return psubst(v, m)
    if isinstance(v, tuple):
        return tuple(vsubst(x, m) for x in v)
    g = getattr(v, "subst", None)
    if g is not None and (v.free & m.keys()):
        return g(m)
    return v


def psum(n, body):
    """sum over ι in 0..n of body"""
    if not isinstance(body, Poly):
        return pa(atom("sum", (n, body)))
    nc = n.const()
    if nc is not None and nc.denominator == 1 and 0 <= nc <= 16:
        r = ZERO
        for i in range(int(nc)):
            r = padd(r, psubst(body, {IOTA_ID: num(i)}))
        return r
    # pull out constant coefficients, split additive terms
    r = ZERO
    for mono, c in body.t:
        inv = tuple((a, e) for a, e in mono if IOTA_ID not in ATOMS[a].free)
        dep = tuple((a, e) for a, e in mono if IOTA_ID in ATOMS[a].free)
        if dep:
            b = mk({dep: Fraction(1)})
            s = psign(b)
            r = padd(r, pmul(mk({inv: c}), pa(atom("sum", (n, b), nonneg=(s in (1, "n", 0))))))
        else:
            r = padd(r, pmul(mk({inv: c}), n))
    return r


# ---------------------------------------------------------------- decisions and diagrams
class Dec:
    __slots__ = ("id", "kind", "key", "outs", "name", "free")

    def __repr__(self):
        return dec_str(self)


DECS = []
_DTAB = {}
_DFP = {}


def dec(kind, key, outs, name=None):
    d = _DTAB.get((kind, key, len(outs)))
    if d is None:
        d = Dec()
        d.id = len(DECS)
        d.kind = kind
        d.key = key
        d.outs = outs
        d.name = name
        d.free = _free(key)
        DECS.append(d)
        _DTAB[(kind, key, len(outs))] = d
    return d


class Node:
    __slots__ = ("dec", "ch", "free", "_h")

    def __repr__(self):
        return "(%s ? %s)" % (self.dec, " | ".join("%s:%r" % (o, c) for o, c in zip(self.dec.outs, self.ch)))

    def fp(self):
        return ("node", self.dec.id, tuple(_fp(c) for c in self.ch))

    def subst(self, m):
        ch = [vsubst(c, m) for c in self.ch]
        d = self.dec
        if d.free & m.keys():
            if d.kind == "sign":
                s = sign_of(psubst(d.key, m))
                return lift(lambda x: UNDEF if x is UNDEF else ch[d.outs.index(x)], s)
            d = dec(d.kind, vsubst(d.key, m), d.outs, d.name)
        return case(d, ch)


_NTAB = {}


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
        return type(a) is type(b) and a == b
    return False


def mknode(d, ch):
    c0 = None
    allsame = True
    for c in ch:
        if c is UNDEF:
            continue
        if c0 is None:
            c0 = c
        elif not same(c, c0):
            allsame = False
            break
    if c0 is None:
        return UNDEF
    if allsame:
        return c0
    # aggregates of one shape: branch inside
    f = getattr(c0, "push_case", None)
    if f is not None:
        r = f(d, ch)
        if r is not None:
            return r
    if isinstance(c0, Poly) and d.kind == "sign":
        r = _minpat(d, ch)
        if r is not None:
            return r
    k = (d.id, tuple(id(c) if not isinstance(c, (bool, int, str)) else (type(c).__name__, c) for c in ch))
    n = _NTAB.get(k)
    if n is None:
        n = Node()
        n.dec = d
        n.ch = tuple(ch)
        f = d.free
        for c in ch:
            f = f | _free(c)
        n.free = f
        _NTAB[k] = n
    return n


def _minpat(d, ch):
    """sign(p) ? x | x-or-z | z   with x - z = k p   is a min or a max"""
    x, y, z = ch
    if not (isinstance(x, Poly) and isinstance(z, Poly)):
        return None
    if not (y is UNDEF or y is x or y is z):
        return None
    p = d.key
    df = padd(x, z, -1)
    if not df.t or len(df.t) != len(p.t):
        return None
    k = df.t[0][1] / p.t[0][1]
    if pscale(p, k) is not df:
        return None
    return pmin([x, z]) if k > 0 else pmax([x, z])


def top(*vs):
    b = None
    for v in vs:
        if isinstance(v, Node) and (b is None or v.dec.id < b.id):
            b = v.dec
    return b


def cof(v, d, i):
    if isinstance(v, Node) and v.dec is d:
        return v.ch[i]
    return v


def case(d, ch):
    """ordered (d ? ch...)"""
    t = top(*ch)
    if t is None or t.id > d.id:
        return mknode(d, ch)
    if t is d:
        return mknode(d, [cof(c, d, i) for i, c in enumerate(ch)])
    return mknode(t, [case(d, [cof(c, t, i) for c in ch]) for i in range(len(t.outs))])


def lift(f, *vs):
    t = top(*vs)
    if t is None:
        return f(*vs)
    memo = {}

    def go(vs):
        t = top(*vs)
        if t is None:
            return f(*vs)
        k = tuple(id(v) for v in vs)
        r = memo.get(k)
        if r is None:
            r = case(t, [go(tuple(cof(v, t, i) for v in vs)) for i in range(len(t.outs))])
            memo[k] = (r, vs)
            return r
        return r[0]

    return go(tuple(vs))


def poison(*vs):
    for v in vs:
        if isinstance(v, Unk):
            return v
    for v in vs:
        if v is UNDEF:
            return v
    return None


def num_op(f):
    def g(*vs):
        def h(*xs):
            p = poison(*xs)
            if p is not None:
                return p
            for x in xs:
                if not isinstance(x, Poly):
                    return unk("arith on %s" % type(x).__name__)
            return f(*xs)
        return lift(h, *vs)
    return g


add = num_op(padd)
sub = num_op(lambda a, b: padd(a, b, -1))
mul = num_op(pmul)
div = num_op(pdiv)
neg = num_op(lambda a: pscale(a, -1))
vmin = num_op(lambda a, b: pmin([a, b]))
vmax = num_op(lambda a, b: pmax([a, b]))
def pabs(a):
    if psign(a) in (1, "n", 0):
        return a
    if len(a.t) == 1:
        # ||p|·q| = |p·q|
        mono, c = a.t[0]
        for aid, e in mono:
            if e % 2 and is_abs_min(ATOMS[aid]):
                b = mk({tuple((x, y - 1 if x == aid else y) for x, y in mono if x != aid or y != 1): c})
                return pabs(pmul(b, ATOMS[aid].args[0]))
    return pmax([a, pscale(a, -1)])


vabs = num_op(pabs)
vpow = num_op(ppow)
vsqrt = num_op(lambda a: ppow(a, num(Fraction(1, 2))))

_FPDEC = {}


def sign_of(p):
    """three-way sign of p as a diagram with leaves -1, 0, 1"""
    c = p.const()
    if c is not None:
        return (c > 0) - (c < 0)
    s = psign(p)
    if s in (1, -1, 0):
        return s
    # min atoms occurring linearly
    for m, k in p.t:
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "min":
            aid = m[0][0]
            if sum(1 for mm, _ in p.t if any(a == aid for a, _e in mm)) != 1:
                continue
            rest = padd(p, mk({m: k}), -1)
            parts = [sign_of(padd(pscale(q, k), rest)) for q in ATOMS[aid].args]
            f = min if k > 0 else max
            return lift(lambda *xs: UNDEF if UNDEF in xs else f(xs), *parts)
    # common positive factors
    lead = p.t[-1][1]
    q = pscale(p, 1 / abs(lead))
    flip = lead < 0
    if flip:
        q = pscale(q, -1)
    # strip a strictly positive common monomial
    cm = dict(q.t[0][0])
    for m, _ in q.t[1:]:
        dm = dict(m)
        cm = {a: (min(e, dm[a]) if e > 0 else max(e, dm[a])) for a, e in cm.items() if a in dm and (dm[a] > 0) == (e > 0)}
    cm = {a: e for a, e in cm.items() if e and (ATOMS[a].pos or e % 2 == 0 or (e < 0 and ATOMS[a].nonneg))}
    if cm:
        q = mk({_mono_mul(m, tuple((a, -e) for a, e in cm.items())): c for m, c in q.t})
        r = sign_of(q)
        return lift(lambda x: -x, r) if flip else r
    fp = q.fp()
    d = _FPDEC.get(fp)
    if d is None:
        d2 = _FPDEC.get((P - fp) % P)
        if d2 is not None:
            d = d2
            flip = not flip
        else:
            d = dec("sign", q, (-1, 0, 1))
            _FPDEC[fp] = d
    s = psign(q if d.key is q else d.key)
    ch = [-1, 0, 1]
    if s == "n":
        ch[0] = UNDEF
    if s == "m":
        ch[2] = UNDEF
    r = [(-x if flip else x) if x is not UNDEF else UNDEF for x in ch]
    # keep a fixed 3-way node; an impossible outcome is undefined
    return mknode(d, r)


def cmp_op(test):
    def f(a, b):
        def h(x, y):
            p = poison(x, y)
            if p is not None:
                return p
            if not isinstance(x, Poly) or not isinstance(y, Poly):
                return unk("compare %s" % type(x).__name__)
            return lift(lambda s: s if s is UNDEF else test(s), sign_of(padd(x, y, -1)))
        return lift(h, a, b)
    return f


lt = cmp_op(lambda s: s < 0)
le = cmp_op(lambda s: s <= 0)
gt = cmp_op(lambda s: s > 0)
ge = cmp_op(lambda s: s >= 0)
eq = cmp_op(lambda s: s == 0)
ne = cmp_op(lambda s: s != 0)


def bool_op(f):
    def g(*vs):
        def h(*xs):
            p = poison(*xs)
            return p if p is not None else f(*xs)
        return lift(h, *vs)
    return g


vnot = bool_op(lambda a: not a)


def vand(a, b):
    def h(x, y):
        if x is False or y is False:
            return False
        p = poison(x, y)
        return p if p is not None else (x and y)
    return lift(h, a, b)


def vor(a, b):
    def h(x, y):
        if x is True or y is True:
            return True
        p = poison(x, y)
        return p if p is not None else (x or y)
    return lift(h, a, b)


def ite(c, a, b):
    """c is a boolean diagram"""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a

    def go(c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if c is UNDEF:
            return UNDEF
        if isinstance(c, Unk):
            return c if not same(a, b) else a
        if a is b:
            return a
        t = top(c, a, b)
        return case(t, [go(cof(c, t, i), cof(a, t, i), cof(b, t, i)) for i in range(len(t.outs))])

    return go(c, a, b)


def boolsym(key, name=None):
    return mknode(dec("bool", key, (0, 1), name), [False, True])


def constrain(v, c, memo=None):
    """v where c holds, undefined elsewhere (simplified)"""
    if c is True:
        return v
    if c is False or c is UNDEF:
        return UNDEF
    if isinstance(c, Unk):
        return v
    if memo is None:
        memo = {}
    k = (id(v), id(c))
    if k in memo:
        return memo[k][0]
    t = top(c, v)
    if isinstance(v, Node):
        r = case(t, [constrain(cof(v, t, i), cof(c, t, i), memo) for i in range(len(t.outs))])
    else:
        g = getattr(v, "map_parts", None)
        if g is not None:
            r = g(lambda x: constrain(x, c, memo))
        else:
            r = v
    memo[k] = (r, v, c)
    return r


def restrict(v, asg, memo=None):
    """cofactor with respect to an assignment {dec: outcome index}"""
    if not asg:
        return v
    if memo is None:
        memo = {}
    k = id(v)
    if k in memo:
        return memo[k][0]
    if isinstance(v, Node):
        if v.dec in asg:
            r = restrict(v.ch[asg[v.dec]], asg, memo)
        else:
            r = case(v.dec, [restrict(c, asg, memo) for c in v.ch])
    else:
        g = getattr(v, "map_parts", None)
        r = g(lambda x: restrict(x, asg, memo)) if g is not None else v
    memo[k] = (r, v)
    return r


# ---------------------------------------------------------------- printing
def poly_str(p):
    if not p.t:
        return "0"
    out = []
    for m, c in p.t:
        fs = []
        for aid, e in m:
            s = atom_str(ATOMS[aid])
            fs.append(s if e == 1 else "%s^%d" % (s, e))
        if not fs:
            out.append(str(c))
        elif c == 1:
            out.append("*".join(fs))
        elif c == -1:
            out.append("-" + "*".join(fs))
        else:
            out.append("%s*%s" % (c, "*".join(fs)))
    return " + ".join(out).replace("+ -", "- ")


def _astr(x):
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, tuple):
        return ",".join(_astr(y) for y in x)
    return repr(x) if not isinstance(x, str) else x


def atom_str(a):
    if a.kind == "sym":
        return str(a.args[0])
    if a.kind == "mu":
        return "μ%s" % (a.args[-1],)
    if a.kind == "app":
        n = a.args[0]
        s = "%s(%s)" % (n, _astr(a.args[1]))
        if a.args[2] is not None:
            s += "[%s]" % _astr(a.args[2])
        return s
    if a.kind == "idx":
        return "%s[%s]" % (_astr(a.args[0]), _astr(a.args[1]))
    if a.kind == "pow":
        return "(%s)^(%s)" % (_astr(a.args[0]), _astr(a.args[1]))
    if a.kind == "inv":
        return "1/(%s)" % _astr(a.args[0])
    return "%s(%s)" % (a.kind, "; ".join(_astr(x) for x in a.args))


def dec_str(d):
    if d.kind == "sign":
        return "sgn[%s]" % poly_str(d.key)
    return d.name or "%s:%s" % (d.kind, _astr(d.key) if isinstance(d.key, tuple) else d.key)
