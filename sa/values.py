"""Structured abstract values: aggregates, vectors (explicit items + uniform templates), iterators, references."""
import math
from terms import *
from terms import _free, _fp


class Agg:
    """struct / tuple / enum variant / closure value"""
    __slots__ = ("ty", "var", "fs", "free")

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = tuple(fs)
        self.free = _free(self.fs)

    def __repr__(self):
        t = self.ty.split("::")[-1] if isinstance(self.ty, str) else str(self.ty)
        return "%s#%s(%s)" % (t, self.var, ", ".join(map(repr, self.fs)))

    def fp(self):
        return ("agg", self.var, _fp(self.fs))

    def shape(self):
        return (self.ty, self.var, len(self.fs))

    def push_case(self, d, ch):
        for c in ch:
            if c is UNDEF:
                continue
            if not (isinstance(c, Agg) and c.shape() == self.shape()):
                return None
        n = len(self.fs)
        fs = []
        for i in range(n):
            fs.append(case(d, [c if c is UNDEF else c.fs[i] for c in ch]))
        return agg(self.ty, self.var, fs)

    def map_parts(self, f):
        fs = [f(x) for x in self.fs]
        if all(same(a, b) for a, b in zip(fs, self.fs)):
            return self
        return agg(self.ty, self.var, fs)

    def subst(self, m):
        return agg(self.ty, self.var, [vsubst(x, m) for x in self.fs])

    def with_field(self, i, v):
        fs = list(self.fs)
        fs[i] = v
        return agg(self.ty, self.var, fs)


_AG = {}


def agg(ty, var, fs):
    k = (ty, var, tuple(id(f) if not isinstance(f, (bool, int, str)) else (type(f).__name__, f) for f in fs))
    a = _AG.get(k)
    if a is None:
        a = Agg(ty, var, fs)
        _AG[k] = a
    return a


UNIT = agg("()", 0, ())


def tup(*vs):
    return agg("(tuple)", 0, vs)


def some(v, ty="core::option::Option"):
    return agg(ty, 1, (v,))


def none(ty="core::option::Option"):
    return agg(ty, 0, ())


class Tmpl:
    """`n` elements, element k being body[ι := k]"""
    __slots__ = ("n", "body")

    def __init__(self, n, body):
        self.n = n
        self.body = body


class VecV:
    """concatenation of segments: ('i', (v, ...)) explicit items or ('t', n, body)"""
    __slots__ = ("segs", "free")

    def __init__(self, segs):
        self.segs = segs
        f = frozenset()
        for s in segs:
            if s[0] == "i":
                f = f | _free(s[1])
            else:
                f = f | s[1].free | (_free(s[2]) - frozenset([IOTA_ID]))
        self.free = f

    def __repr__(self):
        return "[" + " ++ ".join(
            ", ".join(map(repr, s[1])) if s[0] == "i" else "%r×{%r}" % (s[1], s[2]) for s in self.segs) + "]"

    def fp(self):
        return ("vec", tuple(("i", _fp(s[1])) if s[0] == "i" else ("t", s[1].fp(), _fp(s[2])) for s in self.segs))

    def push_case(self, d, ch):
        for c in ch:
            if c is UNDEF:
                continue
            if not isinstance(c, VecV) or len(c.segs) != len(self.segs):
                return None
            for a, b in zip(c.segs, self.segs):
                if a[0] != b[0]:
                    return None
                if a[0] == "i" and len(a[1]) != len(b[1]):
                    return None
                if a[0] == "t" and a[1] is not b[1]:
                    return None
                # different opaque prefixes are different vectors: keep the decision outside
        segs = []
        for k, s in enumerate(self.segs):
            if s[0] == "i":
                segs.append(("i", tuple(case(d, [c if c is UNDEF else c.segs[k][1][j] for c in ch]) for j in range(len(s[1])))))
            else:
                segs.append(("t", s[1], case(d, [c if c is UNDEF else c.segs[k][2] for c in ch])))
        return vec(segs)

    def map_parts(self, f):
        segs = []
        for s in self.segs:
            if s[0] == "i":
                segs.append(("i", tuple(f(x) for x in s[1])))
            else:
                segs.append(("t", s[1], f(s[2])))
        return vec(segs)

    def subst(self, m):
        segs = []
        m2 = {k: v for k, v in m.items() if k != IOTA_ID}
        for s in self.segs:
            if s[0] == "i":
                segs.append(("i", tuple(vsubst(x, m) for x in s[1])))
            else:
                n = psubst(s[1], m)
                body = s[2]
                if m2 and (_free(body) & m2.keys()):
                    if any(IOTA_ID in _free(m2[k]) for k in m2 if k in _free(body)):
                        return unk("template nesting")
                    body = vsubst(body, m2)
                if isinstance(body, Node):
                    body = below(body, n)
                segs.append(("t", n, body))
        return vec(segs)

    def length(self):
        r = ZERO
        for s in self.segs:
            r = padd(r, num(len(s[1])) if s[0] == "i" else s[1])
        return r


_VT = {}


def _k(v):
    return id(v) if not isinstance(v, (bool, int, str)) else (type(v).__name__, v)


def vec(segs):
    out = []
    for s in segs:
        if s[0] == "i":
            if not s[1]:
                continue
            if out and out[-1][0] == "i":
                out[-1] = ("i", out[-1][1] + tuple(s[1]))
            else:
                out.append(("i", tuple(s[1])))
        else:
            c = s[1].const()
            if c is not None and c <= 0:
                continue
            if c is not None and c.denominator == 1 and c <= 16:
                items = tuple(vsubst(s[2], {IOTA_ID: num(j)}) for j in range(int(c)))
                if out and out[-1][0] == "i":
                    out[-1] = ("i", out[-1][1] + items)
                else:
                    out.append(("i", items))
            else:
                out.append(s)
    key = tuple(("i", tuple(_k(x) for x in s[1])) if s[0] == "i" else ("t", id(s[1]), _k(s[2])) for s in out)
    v = _VT.get(key)
    if v is None:
        v = VecV(tuple(out))
        _VT[key] = v
    return v


def items(*xs):
    return vec([("i", tuple(xs))])


def below(body, n):
    """simplify an element body under ι < n"""
    g = sign_of(padd(IOTA, n, -1))
    if isinstance(g, Node) and all(not isinstance(c, Node) for c in g.ch):
        for i, c in enumerate(g.ch):
            if c == -1 and not isinstance(c, bool):
                return restrict(body, {g.dec: i})
    return body


def tmpl(n, body):
    return vec([("t", n, body)])


EMPTY = vec([])


def vcat(a, b):
    return vec(list(a.segs) + list(b.segs))


def vmap(f, v):
    segs = []
    for s in v.segs:
        if s[0] == "i":
            segs.append(("i", tuple(f(x) for x in s[1])))
        else:
            segs.append(("t", s[1], f(s[2])))
    return vec(segs)


def vindex(v, i):
    """element at polynomial index i (in bounds assumed)"""
    off = i
    for j, s in enumerate(v.segs):
        if s[0] == "i":
            c = off.const()
            if c is not None:
                if 0 <= c < len(s[1]):
                    return s[1][int(c)]
                if c < 0:
                    return UNDEF
                off = padd(off, num(len(s[1])), -1)
                continue
            if len(v.segs) == 1 or True:
                # symbolic index into explicit items
                if len(v.segs) == 1:
                    r = UNDEF
                    for k in range(len(s[1]) - 1, -1, -1):
                        r = ite(eq(off, num(k)), s[1][k], r)
                    return r
                return unk("symbolic index")
        else:
            rel = padd(off, s[1], -1)
            sg = psign(rel)
            if sg in (1, "n", 0):
                off = rel
                continue
            if j == len(v.segs) - 1 or sg in (-1,) or off.const() is not None:
                if j < len(v.segs) - 1 and sg != -1:
                    # may lie behind this segment
                    rest = vec(v.segs[j + 1:])
                    return ite(lt(off, s[1]), vsubst(s[2], {IOTA_ID: off}), vindex(rest, rel))
                return vsubst(s[2], {IOTA_ID: off})
            if sg == -1 or psign(pscale(rel, -1)) == 1:
                return vsubst(s[2], {IOTA_ID: off})
            rest = vec(v.segs[j + 1:])
            return ite(lt(off, s[1]), vsubst(s[2], {IOTA_ID: off}), vindex(rest, rel))
    return UNDEF


def vstore(v, i, val):
    """functional update at index i; None if not expressible"""
    off = i
    out = []
    for j, s in enumerate(v.segs):
        if s[0] == "i":
            c = off.const()
            if c is not None:
                if 0 <= c < len(s[1]):
                    it = list(s[1])
                    it[int(c)] = val
                    return vec(out + [("i", tuple(it))] + list(v.segs[j + 1:]))
                if c < 0:
                    return None
                off = padd(off, num(len(s[1])), -1)
                out.append(s)
                continue
            if len(v.segs) == 1:
                return vec([("i", tuple(ite(eq(off, num(k)), val, x) for k, x in enumerate(s[1])))])
            return None
        rel = padd(off, s[1], -1)
        if psign(rel) in (1, "n", 0):
            off = rel
            out.append(s)
            continue
        return None
    return None


def vfirst(v):
    """(item, rest) for a vector known to be nonempty with explicit first item, else None"""
    if v.segs and v.segs[0][0] == "i":
        s = v.segs[0]
        return s[1][0], vec([("i", s[1][1:])] + list(v.segs[1:]))
    return None


def vslice(v, a, b):
    """sub-vector [a, b) for explicit layouts; None if not expressible"""
    n = v.length()
    if a is ZERO and b is n:
        return v
    ac, bc = a.const(), b.const()
    if all(s[0] == "i" for s in v.segs):
        it = v.segs[0][1] if v.segs else ()
        if ac is not None and bc is not None:
            if 0 <= ac <= bc <= len(it):
                return items(*it[int(ac):int(bc)])
            return None
    if ac is not None and len(v.segs) == 1 and v.segs[0][0] == "t":
        ln = padd(b, a, -1)
        return tmpl(ln, vsubst(v.segs[0][2], {IOTA_ID: padd(IOTA, a)}))
    # prefix/suffix at segment borders
    pos = ZERO
    out = []
    started = False
    for s in v.segs:
        ln = num(len(s[1])) if s[0] == "i" else s[1]
        if not started and pos is a:
            started = True
        if started and pos is b:
            return vec(out)
        if started:
            out.append(s)
        pos = padd(pos, ln)
    if started and pos is b:
        return vec(out)
    return None


def vrev(v):
    segs = []
    for s in reversed(v.segs):
        if s[0] == "i":
            segs.append(("i", tuple(reversed(s[1]))))
        else:
            segs.append(("t", s[1], vsubst(s[2], {IOTA_ID: padd(padd(s[1], ONE, -1), IOTA, -1)})))
    return vec(segs)


def vzip(a, b):
    """pairs; None if the layouts cannot be aligned"""
    out = []
    A, B = list(a.segs), list(b.segs)
    while A and B:
        x, y = A[0], B[0]
        if x[0] == "i" and y[0] == "i":
            n = min(len(x[1]), len(y[1]))
            out.append(("i", tuple(tup(p, q) for p, q in zip(x[1][:n], y[1][:n]))))
            A[0:1] = [("i", x[1][n:])] if len(x[1]) > n else []
            B[0:1] = [("i", y[1][n:])] if len(y[1]) > n else []
        elif x[0] == "t" and y[0] == "t":
            if x[1] is y[1]:
                out.append(("t", x[1], tup(x[2], y[2])))
                A.pop(0)
                B.pop(0)
                continue
            if len(A) == 1 and len(B) == 1:
                n = pmin([x[1], y[1]])
                out.append(("t", n, tup(x[2], y[2])))
                return vec(out)
            return None
        else:
            # items against a template of at least ... elements: unknown alignment, except an unbounded one
            t, i = (x, y) if x[0] == "t" else (y, x)
            ln = t[1]
            if ln.t and atom_is_inf(ln):
                its = i[1]
                prs = []
                for k, v in enumerate(its):
                    tv = vsubst(t[2], {IOTA_ID: num(k)})
                    prs.append(tup(tv, v) if x[0] == "t" else tup(v, tv))
                out.append(("i", tuple(prs)))
                rest = ("t", ln, vsubst(t[2], {IOTA_ID: padd(IOTA, num(len(its)))}))
                if x[0] == "t":
                    A[0] = rest
                    B.pop(0)
                else:
                    B[0] = rest
                    A.pop(0)
                continue
            return None
    return vec(out)


INFLEN = pa(atom("sym", ("∞",), pos=True))


def atom_is_inf(p):
    return p is INFLEN


class IterV:
    """iterator over the elements of a vector value, at position pos"""
    __slots__ = ("v", "pos", "free")

    def __init__(self, v, pos):
        self.v = v
        self.pos = pos
        self.free = _free(v) | _free(pos)

    def __repr__(self):
        return "iter(%r@%r)" % (self.v, self.pos)

    def fp(self):
        return ("iter", _fp(self.v), _fp(self.pos))

    def push_case(self, d, ch):
        for c in ch:
            if c is UNDEF:
                continue
            if not isinstance(c, IterV) or c.v is not self.v:
                return None
        return mkiter(self.v, case(d, [c if c is UNDEF else c.pos for c in ch]))

    def map_parts(self, f):
        return mkiter(f(self.v), f(self.pos))

    def subst(self, m):
        return mkiter(vsubst(self.v, m), vsubst(self.pos, m))


_IT = {}


def mkiter(v, pos=ZERO):
    if isinstance(v, Node):
        return lift(lambda x: mkiter(x, pos), v)
    if not isinstance(v, VecV):
        return v if isinstance(v, Unk) else unk("iterator over %s" % type(v).__name__)
    k = (id(v), id(pos))
    r = _IT.get(k)
    if r is None:
        r = IterV(v, pos)
        _IT[k] = r
    return r


def iter_rest(it):
    """remaining elements as a vector, or None"""
    if isinstance(it.pos, Poly):
        c = it.pos.const()
        if c == 0:
            return it.v
        if c is not None:
            v = it.v
            n = int(c)
            while n > 0:
                r = vfirst(v)
                if r is None:
                    if len(v.segs) == 1 and v.segs[0][0] == "t":
                        return vslice(v, num(n), v.length())
                    return None
                v = r[1]
                n -= 1
            return v
    return None


class Ref:
    """reference to memory: root and path; `rng` narrows a vector to a slice"""
    __slots__ = ("root", "path", "dyn", "free")

    def __init__(self, root, path, dyn):
        self.root = root
        self.path = path
        self.dyn = dyn
        f = frozenset()
        for e in path:
            for x in e[1:]:
                f = f | _free(x)
        self.free = f

    def __repr__(self):
        return "&%s%s" % (self.root, "".join("." + ":".join(str(y) for y in x) for x in self.path))

    def fp(self):
        return ("ref", self.root, _fp(self.path))

    def subst(self, m):
        return ref(self.root, tuple(tuple([e[0]] + [vsubst(x, m) for x in e[1:]]) for e in self.path), self.dyn)


_RF = {}


def ref(root, path=(), dyn=None):
    k = (root, tuple(tuple(_k(y) for y in x) for x in path), dyn)
    r = _RF.get(k)
    if r is None:
        r = Ref(root, tuple(path), dyn)
        _RF[k] = r
    return r


class VRef:
    """shared reference to an immutable value"""
    __slots__ = ("v", "free")

    def __init__(self, v):
        self.v = v
        self.free = _free(v)

    def __repr__(self):
        return "&(%r)" % (self.v,)

    def fp(self):
        return _fp(self.v)

    def push_case(self, d, ch):
        if all(c is UNDEF or isinstance(c, VRef) for c in ch):
            return vref(case(d, [c if c is UNDEF else c.v for c in ch]))
        return None

    def map_parts(self, f):
        return vref(f(self.v))

    def subst(self, m):
        return vref(vsubst(self.v, m))


_VR = {}


def vref(v):
    k = _k(v)
    r = _VR.get(k)
    if r is None:
        r = VRef(v)
        _VR[k] = r
    return r


class FnV:
    """function item value"""
    __slots__ = ("f", "free")

    def __init__(self, f):
        self.f = f
        self.free = frozenset()

    def __repr__(self):
        return "fn %s" % self.f.get("path")


_FN = {}


def fnv(f):
    k = (f.get("path"), tuple(f.get("args", [])), f.get("inst"))
    r = _FN.get(k)
    if r is None:
        r = FnV(f)
        _FN[k] = r
    return r


class Opq:
    """opaque value of a known type, identified by a key"""
    __slots__ = ("key", "ty", "free")

    def __init__(self, key, ty):
        self.key = key
        self.ty = ty
        self.free = _free(key)

    def __repr__(self):
        return "⟨%s⟩" % (_kstr(self.key),)

    def fp(self):
        return ("opq", _fp(self.key))

    def subst(self, m):
        return opq(vsubst(self.key, m), self.ty)


def _kstr(k):
    if isinstance(k, tuple):
        return "(" + " ".join(_kstr(x) for x in k) + ")"
    return str(k)


_OQ = {}


def opq(key, ty=None):
    k = key
    r = _OQ.get(k)
    if r is None:
        r = Opq(key, ty)
        _OQ[k] = r
    return r


class StrV:
    __slots__ = ("s", "free")

    def __init__(self, s):
        self.s = s
        self.free = frozenset()

    def __repr__(self):
        return repr(self.s)

    def fp(self):
        return ("str", self.s)


_ST = {}


def strv(s):
    r = _ST.get(s)
    if r is None:
        r = StrV(s)
        _ST[s] = r
    return r


# ---------------------------------------------------------------- semantic equality
def feasible(asg):
    """conservative feasibility of a set of sign outcomes: False only if contradictory linear constraints are found"""
    cons = []
    for d, i in asg.items():
        if d.kind != "sign":
            continue
        o = d.outs[i]
        cons.append((d.key, o))
    return _fm(cons)


def _lin(p):
    """linear form over monomials; returns (dict mono->coef without constant, const)"""
    d = {}
    c0 = Fraction(0)
    for m, c in p.t:
        if m == ():
            c0 += c
        else:
            d[m] = d.get(m, 0) + c
    return d, c0


def _fm(cons):
    """Fourier-Motzkin over monomials treated as independent reals. cons: (poly, sign)"""
    rows = []  # (coefs, const, strict): coefs.x + const >= 0 (or > 0)
    monos = set()
    for p, o in cons:
        d, c = _lin(p)
        monos |= set(d)
        if o and c.denominator == 1 and all(v.denominator == 1 and all(e > 0 and is_int(ATOMS[a]) for a, e in m) for m, v in d.items()):
            # over integers, x > 0 means x >= 1
            k = Fraction(1) if o > 0 else Fraction(-1)
            rows.append(({m: k * x for m, x in d.items()}, k * c - 1, False))
            continue
        if o == 0:
            rows.append((d, c, False))
            rows.append(({m: -x for m, x in d.items()}, -c, False))
        elif o > 0:
            rows.append((d, c, True))
        else:
            rows.append(({m: -x for m, x in d.items()}, -c, True))
    for m in list(monos):
        s = psign(mk({m: Fraction(1)}))
        if s == 1:
            rows.append(({m: Fraction(1)}, Fraction(0), True))
        elif s == "n":
            rows.append(({m: Fraction(1)}, Fraction(0), False))
    for m in sorted(monos):
        pos = [r for r in rows if r[0].get(m, 0) > 0]
        ng = [r for r in rows if r[0].get(m, 0) < 0]
        rest = [r for r in rows if not r[0].get(m, 0)]
        if len(pos) * len(ng) > 400:
            return True
        for a in pos:
            for b in ng:
                ka, kb = a[0][m], -b[0][m]
                d = {}
                for x in set(a[0]) | set(b[0]):
                    v = a[0].get(x, 0) * kb + b[0].get(x, 0) * ka
                    if v and x != m:
                        d[x] = v
                rest.append((d, a[1] * kb + b[1] * ka, a[2] or b[2]))
        rows = rest
        if len(rows) > 800:
            return True
        for d, c, s in rows:
            if not d and (c < 0 or (s and c == 0)):
                return False
    for d, c, s in rows:
        if not d and (c < 0 or (s and c == 0)):
            return False
    return True


def _drop_empty(v, asg):
    segs = [s for s in v.segs if not (s[0] == "t" and isinstance(s[1], Poly) and zero_span(asg, s[1]))]
    return v if len(segs) == len(v.segs) else vec(segs)


def _inner_min(p):
    """a min atom occurring in p outside any bound variable, innermost first"""
    for m, _ in p.t:
        for aid, _e in m:
            r = _amin(ATOMS[aid])
            if r is not None:
                return r
    return None


def _amin(A):
    if A.kind == "sum":
        return None
    if A.kind in ("inv", "pow", "min", "app"):
        for x in (A.args if A.kind != "app" else A.args[1]):
            if isinstance(x, Poly):
                r = _inner_min(x)
                if r is not None:
                    return r
    if A.kind == "min" and IOTA_ID not in A.free:
        return A
    return None


def psubst_atom(p, A, q):
    """replace the atom A itself (not a variable of it) by q"""
    r = ZERO
    for mono, c in p.t:
        t = num(c)
        for aid, e in mono:
            t = pmul(t, ppowi(_asub(ATOMS[aid], A, q), e))
        r = padd(r, t)
    return r


def _asub(a, A, q):
    if a is A:
        return q
    if a.kind in ("inv", "pow", "min"):
        args = tuple(psubst_atom(x, A, q) if isinstance(x, Poly) else x for x in a.args)
        if args == a.args:
            return pa(a)
        if a.kind == "inv":
            return pinv(args[0])
        if a.kind == "min":
            return pmin(list(args))
        return ppow(args[0], args[1] if isinstance(args[1], Poly) else num(args[1]))
    if a.kind == "app" and isinstance(a.args[1], tuple):
        args = tuple(psubst_atom(x, A, q) if isinstance(x, Poly) else x for x in a.args[1])
        if args != a.args[1]:
            return pa(atom("app", (a.args[0], args) + a.args[2:], a.nonneg, a.pos))
    return pa(a)


class _NoNum(Exception):
    pass


def _neval(p, env, iota=None):
    r = 0.0
    for mono, c in p.t:
        v = float(c)
        for aid, e in mono:
            v *= _aeval(ATOMS[aid], env, iota) ** e
        r += v
    return r


def _nsgn(p, env):
    """sign of p with a tolerance relative to its terms"""
    r = sc = 0.0
    for mono, c in p.t:
        v = float(c)
        for aid, e in mono:
            v *= _aeval(ATOMS[aid], env, None) ** e
        r += v
        sc += abs(v)
    if isinstance(r, complex) or r != r:
        return None, None
    if abs(r) > max(1e-10 * sc, 1e-14):
        return r, 1 if r > 0 else -1
    if abs(r) <= 1e-10 * sc:
        return r, 0
    # a small value: rounding noise, unless everything it is made of is small
    top = 0.0
    for a in _deep(p):
        for k in (None, 0, 1, 2, env.get("iota")):
            v = env.get((a, k))
            if v is not None and abs(v) > top:
                top = abs(v)
    if abs(r) <= 1e-14 * min(top, 1.0):
        return r, 0
    return r, 1 if r > 0 else -1


def _hashed(env, *parts):
    return (hfp(env["seed"], *parts) % 100003) / 100003.0 * 3 + 0.1


def _aeval(A, env, iota):
    import math
    key = (A.id, iota if IOTA_ID in A.free else None)
    if key in env:
        return env[key]
    k = A.kind
    if A.id == IOTA_ID:
        if iota is None:
            iota = env["iota"]
        return float(iota)
    if k == "inv":
        v = 1.0 / _neval(A.args[0], env, iota)
    elif k == "pow":
        e = A.args[1]
        b = _neval(A.args[0], env, iota)
        if b < 0:
            raise _NoNum()
        v = b ** (float(e) if isinstance(e, Fraction) else _neval(e, env, iota))
    elif k == "min":
        v = min(_neval(x, env, iota) for x in A.args)
    elif k == "sum":
        n = A.args[0]
        body = A.args[1]
        if not isinstance(n, Poly) or not isinstance(body, Poly):
            raise _NoNum()
        v = sum(_neval(body, env, i) for i in range(max(0, min(60, int(_neval(n, env, iota) + 1e-9)))))
    elif k == "sym":
        v = _hashed(env, A.args[0])
        if A.nonneg and not A.pos:
            v = float(int(v * 2))
        elif not A.pos:
            v -= 1.4
    elif k == "app":
        xs = [_neval(x, env, iota) if isinstance(x, Poly) else (_nkey(x, env, iota)) for x in A.args[1]]
        f = getattr(math, str(A.args[0]), None) if A.args[0] in ("exp", "sin", "cos", "tan", "tanh", "atan", "sinh", "cosh") else None
        if f is not None:
            v = f(*xs)
        elif A.args[0] == "sat0":
            v = max(xs[0], 0.0)
        elif A.args[0] == "trunc":
            v = float(math.trunc(xs[0]))
        elif A.args[0] in ("idiv", "sdiv"):
            v = float(math.trunc(xs[0] / xs[1]))
        elif A.args[0] in ("rem", "srem"):
            v = math.fmod(xs[0], xs[1])
        else:
            v = _hashed(env, "app", A.args[0], [round(x, 7) if isinstance(x, float) else x for x in xs], _nkey(A.args[2:], env, iota))
            if not (A.nonneg or A.pos):
                v -= 1.4
    elif k == "idx":
        v = _hashed(env, "idx", _nkey(A.args, env, iota))
        if not (A.nonneg or A.pos):
            v -= 1.4
    elif k in ("mu", "len"):
        v = _hashed(env, k, A.id)
        if A.nonneg and not A.pos:
            v = float(int(v * 2))
    else:
        raise _NoNum()
    env[key] = v
    return v


def _nkey(x, env, iota):
    if isinstance(x, Poly):
        return round(_neval(x, env, iota), 7)
    if isinstance(x, (tuple, list)):
        return tuple(_nkey(y, env, iota) for y in x)
    if isinstance(x, VecV):
        return tuple((s[0], tuple(_nkey(e, env, iota) for e in s[1])) if s[0] == "i" else
                     ("t", _nkey(s[1], env, iota), tuple(_nkey(s[2], env, j) for j in range(3))) for s in x.segs)
    if isinstance(x, (str, int, bool, Fraction)) or x is None:
        return str(x)
    if isinstance(x, Agg):
        return ("agg", x.var, _nkey(x.fs, env, iota))
    if isinstance(x, (Opq, StrV)):
        return repr(x)
    raise _NoNum()


def numerically_equal(a, b, asg):
    """do a and b agree wherever sampled (with the conditions of asg satisfied)? Used only to refrain from a verdict on
    algebraic identities the canonical form does not know; a difference found on any sample, or no sample, keeps the verdict."""
    conds = [(d.key, d.outs[i]) for d, i in asg.items() if d.kind == "sign"]
    m = {}
    for q, o in conds:
        if o == 0:
            for mono, c in q.t:
                if len(mono) == 1 and mono[0][1] == 1:
                    aid = mono[0][0]
                    rest = padd(q, mk({mono: c}), -1)
                    if aid not in m and ATOMS[aid].kind in ("sym", "idx", "mu") and aid not in rest.free and not (rest.free & m.keys()):
                        m[aid] = pscale(rest, -1 / c)
                        break
    for _ in range(2):
        a, b = psubst(a, m), psubst(b, m)
        conds = [(psubst(q, m), o) for q, o in conds]
    good = 0
    for k in range(600):
        env = {"seed": k, "iota": k % 5}
        try:
            if any((lambda v: (v > 1e-12) - (v < -1e-12))(_neval(q, env)) != o for q, o in conds):
                continue
            x, y = _neval(a, env), _neval(b, env)
        except (_NoNum, ZeroDivisionError, OverflowError, ValueError, TypeError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) > 1e-7 * (1 + abs(x) + abs(y)):
            return False
        good += 1
        if good >= 12:
            return True
    return False


def zero_span(asg, p):
    """is p zero given the equalities of asg (linear span)"""
    eqs = [d.key for d, i in asg.items() if d.kind == "sign" and d.outs[i] == 0]
    if not eqs:
        return False
    basis = []

    def red(q):
        for lead, b in basis:
            c = dict(q.t).get(lead)
            if c:
                q = padd(q, b, -c)
        return q
    for q in eqs:
        q = red(q)
        if q.t:
            lead, c = q.t[-1]
            basis.append((lead, pscale(q, 1 / c)))
    r = red(p)
    if not r.t:
        return True
    # substitute solved equalities into nested terms
    m = {}
    for q in eqs:
        for mono, c in q.t:
            if len(mono) == 1 and mono[0][1] == 1:
                aid = mono[0][0]
                rest = padd(q, mk({mono: c}), -1)
                if aid not in rest.free:
                    m[aid] = pscale(rest, -1 / c)
                    break
    if m:
        r2 = p
        for _ in range(3):
            n2 = psubst(r2, m)
            if n2 is r2:
                break
            r2 = n2
        if not r2.t or r2.fp() == 0:
            return True
    return False


WIT = {"found": 0, "none": 0, "skipped": 0, "time": 0.0}
_LEAF = ("sym", "idx", "mu", "len")
_MATHF = ("exp", "sin", "cos", "tan", "tanh", "atan", "sinh", "cosh", "sat0", "trunc", "idiv", "sdiv", "rem", "srem")



def _lin_model(conds):
    """values for the plain unknowns that satisfy the linear ones among the conditions (Fourier-Motzkin, exact), or None: narrow
    bands such as x < y < 1.000001 x are not found by a random search"""
    def free_leaf(A):
        return A.kind in ("sym", "mu") or A.kind == "len" or A.kind == "idx"
    rows = []  # (coefficients, constant, strict): sum >= 0 or > 0
    order = []
    for q, o in conds:
        if o == 0 or any(len(mono) > 1 or mono and (mono[0][1] != 1 or not free_leaf(ATOMS[mono[0][0]]) or IOTA_ID in ATOMS[mono[0][0]].free) for mono, _ in q.t):
            continue
        s = -1 if o == -1 else 1
        co = {mono[0][0]: s * Fraction(c) for mono, c in q.t if mono}
        k = s * sum(Fraction(c) for mono, c in q.t if not mono)
        rows.append((co, k, o != "n"))
        order += [v for v in co if v not in order]
    for v in list(order):
        if ATOMS[v].nonneg or ATOMS[v].pos:
            rows.append(({v: Fraction(1)}, Fraction(-1 if ATOMS[v].pos and is_int(ATOMS[v]) else 0), bool(ATOMS[v].pos) and not is_int(ATOMS[v])))
    if not rows or len(order) > 10 or len(rows) > 40:
        return None
    elim = []
    for v in order:
        lo = [r for r in rows if r[0].get(v, 0) > 0]
        up = [r for r in rows if r[0].get(v, 0) < 0]
        elim.append((v, lo, up))
        rows = [r for r in rows if not r[0].get(v)]
        for a in lo:
            for b in up:
                ca, cb = a[0][v], -b[0][v]
                co = {x: a[0].get(x, 0) * cb + b[0].get(x, 0) * ca for x in set(a[0]) | set(b[0]) if x != v}
                rows.append(({x: y for x, y in co.items() if y}, a[1] * cb + b[1] * ca, a[2] or b[2]))
        if len(rows) > 400:
            return None
    if any(k < 0 or k == 0 and strict for co, k, strict in rows):
        return None
    val = {}
    for v, lo, up in reversed(elim):
        bl = [-(r[1] + sum(c * val[x] for x, c in r[0].items() if x != v)) / r[0][v] for r in lo]
        bu = [-(r[1] + sum(c * val[x] for x, c in r[0].items() if x != v)) / r[0][v] for r in up]
        l, u = max(bl, default=None), min(bu, default=None)
        x = Fraction(1) if l is None and u is None else l + 1 if u is None else u - 1 if l is None else (l + u) / 2
        if is_int(ATOMS[v]) and x.denominator != 1:
            y = Fraction(math.ceil(x))
            x = y if u is None or y < u else x
        val[v] = x
    return {(v, None): float(x) for v, x in val.items()}


def unrealisable(asg, a, b):
    """is the condition under which a and b differ (apparently) contradictory? Contradictory branch combinations the canonical form does
    not recognise must not raise an alarm, so a difference counts only if the abstract condition has a model. Searched over the
    analysis' own terms (uninterpreted atoms get arbitrary values); the program is not run. Gives False when a model is
    found or when the conditions are outside what the search can evaluate."""
    import math, random, time
    conds = [(d.key, d.outs[i]) for d, i in asg.items() if d.kind == "sign"]
    if not conds:
        return False
    if WIT["time"] > 90:
        WIT["skipped"] += 1
        return True
    diff = padd(a, b, -1) if isinstance(a, Poly) and isinstance(b, Poly) else None
    m = {}
    for _ in range(8):
        hit = False
        for q, o in conds:
            if o == 0 and q.t:
                for mono, c in q.t:
                    if len(mono) == 1 and mono[0][1] == 1 and (ATOMS[mono[0][0]].kind in ("sym", "mu", "idx") or ATOMS[mono[0][0]].kind == "app" and ATOMS[mono[0][0]].args[0] not in _MATHF):
                        aid = mono[0][0]
                        A = ATOMS[aid]
                        rest = padd(q, mk({mono: c}), -1)
                        if aid in rest.free or A.kind != "sym" and A.kind != "mu":
                            continue
                        if A.nonneg:
                            conds = conds + [(pscale(rest, -1 / c), 1 if A.pos else "n")]
                        s = {aid: pscale(rest, -1 / c)}
                        conds = [(psubst(x, s), y) for x, y in conds]
                        if diff is not None:
                            diff = psubst(diff, s)
                        hit = True
                        break
                if hit:
                    break
        if not hit:
            break
    if any(o == 0 and q.t for q, o in conds):
        return False
    conds = [(q, o) for q, o in conds if q.t or o not in (0, "n")]
    t0 = time.time()

    def ok(s, o):
        return s >= 0 if o == "n" else s == o

    def evaluate(ov, seed):
        env = dict(ov)
        env["seed"] = seed
        env["iota"] = pos[seed % len(pos)]
        cost = 0.0
        bad = []
        for q, o in conds:
            try:
                v, sg = _nsgn(q, env)
            except (ZeroDivisionError, OverflowError, ValueError):
                v = None
            if v is None:
                cost += 50
                bad.append(q)
            elif not ok(sg, o):
                cost += 1 + math.log1p(abs(v))
                bad.append(q)
        return cost, bad, env

    # element positions to try: the first few and those around the numbers the decisions compare a position with
    pos = [0, 1, 2, 3]
    for q, _o in conds:
        c = q.t and dict(q.t).get((), 0)
        if c and abs(c) < 10 ** 6 and len(q.t) == 2:
            pos += [int(abs(c)) + k for k in (0, 1, -1) if int(abs(c)) + k not in pos]

    def leaves(env):
        return [k for k in env if isinstance(k, tuple) and (ATOMS[k[0]].kind in _LEAF or ATOMS[k[0]].kind == "app" and ATOMS[k[0]].args[0] not in _MATHF)]
    rnd = random.Random(7)
    lin = _lin_model(conds)
    try:
        for seed in range(-1 if lin else 0, 40):
            ov = {}
            if seed < 0:
                ov = dict(lin)
                seed = 0
            cost, bad, env = evaluate(ov, seed)
            for it in range(150 if seed else 400):
                if not bad:
                    if diff is None:
                        WIT["found"] += 1
                        return False
                    try:
                        if _nsgn(diff, env)[1]:
                            WIT["found"] += 1
                            return False
                    except (ZeroDivisionError, OverflowError, ValueError, TypeError):
                        pass
                if time.time() - t0 > 4:
                    WIT["none"] += 1
                    return True
                ls = leaves(env)
                if not ls:
                    break
                sub = [k for k in ls if any(k[0] in _deep(q) for q in bad[:3])] if bad and rnd.random() < 0.8 else ls
                ch = dict(ov)
                for k in rnd.sample(sub or ls, min(len(sub or ls), rnd.choice((1, 1, 1, 2, 3)))):
                    A = ATOMS[k[0]]
                    v = env[k]
                    w = rnd.choice((-v, v * rnd.uniform(0, 3), v + rnd.uniform(-2, 2), rnd.uniform(-3, 3), 10 ** rnd.uniform(-6, 3), 10 ** rnd.uniform(-12, -5), 10 ** rnd.uniform(-22, -12), 0.0, v * 100, v / 100))
                    if A.nonneg or A.pos:
                        w = abs(w)
                        if is_int(A):
                            w = float(int(w * 2))
                        if A.pos and w == 0:
                            w = 1.0
                    ch[k] = w
                c2, b2, e2 = evaluate(ch, seed)
                if c2 <= cost + (0.3 if rnd.random() < 0.05 else 0) or not bad:
                    ov, cost, bad, env = ch, c2, b2, e2
        WIT["none"] += 1
        return True
    except (_NoNum, TypeError):
        WIT["skipped"] += 1
        return False
    finally:
        WIT["time"] += time.time() - t0


_DEEP = {}


def _deep(q):
    r = _DEEP.get(q)
    if r is None:
        r = set()

        def go(x):
            if isinstance(x, Poly):
                for mono, _ in x.t:
                    for aid, _e in mono:
                        if aid not in r:
                            r.add(aid)
                            go(ATOMS[aid].args)
            elif isinstance(x, tuple):
                for y in x:
                    go(y)
        go(q)
        _DEEP[q] = r
    return r


def unknown_dec(d):
    if isinstance(d.key, Poly) and wild_mu(d.key):
        return True
    if isinstance(d.key, tuple) and len(d.key) > 1 and d.key[0] == "mu" and d.key[1] not in MU_FREE[0]:
        return True
    return isinstance(d.key, tuple) and bool(d.key) and d.key[0] == "?" or str(d.name or "").startswith("?")


class Mismatch:
    def __init__(self, kind, asg, a, b, where=()):
        if kind == "definite" and asg and (any(unknown_dec(d) for d in asg) or unrealisable(asg, a, b)):
            kind = "undecided"
        self.kind = kind  # 'definite' or 'undecided'
        self.asg = asg
        self.a = a
        self.b = b
        self.where = where

    def __repr__(self):
        conds = "; ".join("%s=%s" % (d, d.outs[i]) for d, i in self.asg.items())
        return "%s at %s: got %s, expected %s%s" % (
            self.kind, ".".join(map(str, self.where)) or "value", short(self.a), short(self.b),
            (" when " + short(conds, 300)) if conds else "")


def short(x, n=220):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + "…"


MU_FREE = [()]  # loops whose header unknowns stand for an arbitrary iteration; those of other loops are merely unknown


def wild_mu(v):
    return any(ATOMS[a].kind == "mu" and ATOMS[a].args[0] not in MU_FREE[0] for a in v.free)


def has_unk(v, depth=0):
    if isinstance(v, Unk) or v is UNDEF:
        return True
    if isinstance(v, Poly):
        return any((ATOMS[a].kind == "mu" and ATOMS[a].args[0] not in MU_FREE[0]) or (ATOMS[a].kind == "sym" and str(ATOMS[a].args[0]).startswith("?")) for a in v.free)
    if isinstance(v, Node):
        return any(has_unk(c) for c in v.ch)
    if isinstance(v, Agg):
        return any(has_unk(c) for c in v.fs)
    if isinstance(v, VecV):
        return any(has_unk(c) for s in v.segs for c in (s[1] if s[0] == "i" else (s[2],)))
    if isinstance(v, Opq):
        return isinstance(v.key, tuple) and len(v.key) > 1 and v.key[0] == "mu" and v.key[1] not in MU_FREE[0]
    return False


def compare(a, b, care=True, where=(), asg=None, budget=None):
    """list of mismatches between implementation value a and expected value b where `care` holds"""
    if asg is None:
        asg = {}
    if budget is None:
        budget = [200000]
    budget[0] -= 1
    if budget[0] < 0:
        return [Mismatch("undecided", asg, a, b, where)]
    if care is False or care is UNDEF or same(a, b):
        return []
    t = top(a, b, care if not isinstance(care, Unk) else None)
    if t is not None:
        if t in asg:
            i = asg[t]
            return compare(cof(a, t, i), cof(b, t, i), cof(care, t, i), where, asg, budget)
        out = []
        for i in range(len(t.outs)):
            ca = cof(care, t, i)
            if ca is False or ca is UNDEF:
                continue
            x, y = cof(a, t, i), cof(b, t, i)
            if same(x, y):
                continue
            s2 = dict(asg)
            s2[t] = i
            if t.kind == "sign" and not feasible(s2):
                continue
            out += compare(x, y, ca, where, s2, budget)
            if out and out[0].kind == "definite":
                return out
        return out
    if b is UNDEF:
        return []
    if a is UNDEF or isinstance(a, Unk) or isinstance(b, Unk) or isinstance(care, Unk):
        return [Mismatch("undecided", asg, a, b, where)]
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var or len(a.fs) != len(b.fs):
            return [Mismatch("definite", asg, a, b, where)] if not (has_unk(a) or has_unk(b)) or a.var != b.var else [Mismatch("undecided", asg, a, b, where)]
        out = []
        for k, (x, y) in enumerate(zip(a.fs, b.fs)):
            out += compare(restrict(x, asg), restrict(y, asg), True, where + (k,), asg, budget)
            if out and out[0].kind == "definite":
                return out
        return out
    if isinstance(a, VRef):
        return compare(a.v, b.v if isinstance(b, VRef) else b, True, where, asg, budget)
    if isinstance(b, VRef):
        return compare(a, b.v, True, where, asg, budget)
    if isinstance(a, VecV) and isinstance(b, VecV):
        for v in (a, b):
            for sg in v.segs:
                mn = _inner_min(sg[1]) if sg[0] == "t" and isinstance(sg[1], Poly) else None
                if mn is not None:
                    return _split_min(mn, lambda q: (vec([
                        g if g[0] == "i" or not isinstance(g[1], Poly) else ("t", psubst_atom(g[1], mn, q), g[2]) for g in w.segs]) for w in (a, b)),
                        where, asg, budget)
        a, b = _drop_empty(a, asg), _drop_empty(b, asg)
        if len(a.segs) == len(b.segs) and all(
                x[0] == y[0] and (len(x[1]) == len(y[1]) if x[0] == "i" else (
                    x[1] is y[1] or (isinstance(x[1], Poly) and isinstance(y[1], Poly) and (x[1].fp() == y[1].fp() or zero_span(asg, padd(x[1], y[1], -1))))))
                for x, y in zip(a.segs, b.segs)):
            out = []
            for k, (x, y) in enumerate(zip(a.segs, b.segs)):
                xs, ys = (x[1], y[1]) if x[0] == "i" else ((x[2],), (y[2],))
                for j, (p, q) in enumerate(zip(xs, ys)):
                    out += compare(restrict(p, asg), restrict(q, asg), True, where + ("[%s]" % (j if x[0] == "i" else "k"),), asg, budget)
                    if out and out[0].kind == "definite":
                        return out
            return out
        if has_unk(a) or has_unk(b):
            return [Mismatch("undecided", asg, a, b, where)]
        la, lb = a.length(), b.length()
        if la is lb or zero_span(asg, padd(la, lb, -1)):
            if psubst_zero(asg, a) is psubst_zero(asg, b):
                return []
            return [Mismatch("undecided" if any(s[0] == "t" for s in a.segs + b.segs) and la is lb and a.fp() != b.fp() and not _explicit(a, b) else "definite", asg, a, b, where)]
        return [Mismatch("definite", asg, a, b, where)]
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a.fp() == b.fp():
            return []
        if zero_span(asg, padd(a, b, -1)):
            return []
        if has_unk(a) or has_unk(b):
            return [Mismatch("undecided", asg, a, b, where)]
        mn = _inner_min(padd(a, b, -1))
        if mn is not None:
            return _split_min(mn, lambda q: (psubst_atom(a, mn, q), psubst_atom(b, mn, q)), where, asg, budget)
        if numerically_equal(a, b, asg):
            return [Mismatch("undecided", asg, a, b, where)]
        return [Mismatch("definite", asg, a, b, where)]
    if isinstance(a, (bool, StrV, Ref, FnV)) and isinstance(b, (bool, StrV, Ref, FnV)):
        return [Mismatch("definite", asg, a, b, where)]
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.fp() == b.fp():
            return []
        if has_unk(a) or has_unk(b):
            return [Mismatch("undecided", asg, a, b, where)]
        return [Mismatch("definite", asg, a, b, where)]
    if isinstance(a, IterV) and isinstance(b, IterV):
        return compare(tup(a.v, a.pos), tup(b.v, b.pos), True, where, asg, budget)
    if has_unk(a) or has_unk(b):
        return [Mismatch("undecided", asg, a, b, where)]
    return [Mismatch("definite", asg, a, b, where)]


def _split_min(mn, inst, where, asg, budget):
    """compare the two values inst(q) gives for every argument q that can be the minimum"""
    out = []

    def go(sg, s2):
        if isinstance(sg, Node):
            if sg.dec in s2:
                go(sg.ch[s2[sg.dec]], s2)
                return
            for i, c in enumerate(sg.ch):
                s3 = dict(s2)
                s3[sg.dec] = i
                if c is not UNDEF and (sg.dec.kind != "sign" or feasible(s3)):
                    go(c, s3)
                    if out and out[0].kind == "definite":
                        return
        elif sg is not UNDEF:
            a, b = inst(x if sg < 0 else y)
            out[:] = out + compare(a, b, True, where, s2, budget)
            out.sort(key=lambda m: m.kind != "definite")

    x, y = mn.args[0], pmin(list(mn.args[1:]))
    go(sign_of(padd(x, y, -1)), asg)
    return out


def _explicit(a, b):
    return False


def psubst_zero(asg, v):
    return v
