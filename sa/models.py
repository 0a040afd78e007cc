"""Transfer functions for the standard-library operations that appear in numeric container code.

Every function here maps abstract arguments to (value, state, continuing condition).  Anything not listed becomes
an unknown value (`Unk`), which never takes part in a verdict.
"""
from values import *
from values import _k
from terms import _free
import interp as _i

OPT = "core::option::Option"
RES = "core::result::Result"
ORD = "core::cmp::Ordering"
CF = "core::ops::control_flow::ControlFlow"

APPS = {"sin", "cos", "tan", "exp", "ln", "log10", "log2", "tanh", "sinh", "cosh", "atan", "asin", "acos", "cbrt",
        "floor", "ceil", "round", "trunc", "fract", "signum", "exp2", "exp_m1", "ln_1p", "atan2", "log", "copysign",
        "rem_euclid", "div_euclid"}


def is_bad(x):
    return x is UNDEF or isinstance(x, Unk)


def deref(I, st, v):
    """follow references (not boxes) down to a value"""
    for _ in range(8):
        l = _i.leaf1(v)
        if isinstance(l, (Ref, VRef)):
            v = I.load(st, v)
        elif isinstance(l, Opq) and l.ty and I.prog.types.get(l.ty, {}).get("k") in ("ref", "rawptr"):
            v = I.load(st, v)
        else:
            break
    return v


def deref1(I, st, v):
    return I.load(st, v)


def as_bool(v):
    return v


# ------------------------------------------------------------------ equality
SHALLOW = [frozenset()]  # types whose comparison is taken as one opaque outcome


def opaque_pair(I, st, a, b):
    if not SHALLOW[0]:
        return None

    def strip(v):
        while isinstance(v, (Ref, VRef)) and I is not None:
            v = deref(I, st, v)
        return v
    a, b = strip(a), strip(b)

    def ty(v):
        while isinstance(v, Node):
            v = v.ch[0]
        return v.ty if isinstance(v, Agg) else None
    t = ty(a)
    if t in SHALLOW[0] and ty(b) == t:
        return a, b, t
    return None


def veq(I, st, a, b):
    o = opaque_pair(I, st, a, b)
    if o:
        x, y, t = o
        if same(x, y):
            return True
        x, y = sorted([x, y], key=repr)
        return boolsym(("eq", x, y), "%s==" % t.split("::")[-1])

    def h(x, y):
        if isinstance(x, (Ref, VRef)):
            return veq(I, st, deref(I, st, x), y)
        if isinstance(y, (Ref, VRef)):
            return veq(I, st, x, deref(I, st, y))
        p = poison(x, y)
        if p is not None:
            return p
        if same(x, y):
            return True
        if isinstance(x, Poly) and isinstance(y, Poly):
            return eq(x, y)
        if isinstance(x, bool) and isinstance(y, bool):
            return x == y
        if isinstance(x, StrV) and isinstance(y, StrV):
            return x.s == y.s
        if isinstance(x, Agg) and isinstance(y, Agg):
            if x.var != y.var:
                return False
            r = True
            for p, q in zip(x.fs, y.fs):
                r = vand(r, veq(I, st, p, q))
            return r
        if isinstance(x, VecV) and isinstance(y, VecV):
            if all(s[0] == "i" for s in x.segs + y.segs):
                xs = x.segs[0][1] if x.segs else ()
                ys = y.segs[0][1] if y.segs else ()
                if len(xs) != len(ys):
                    return False
                r = True
                for p, q in zip(xs, ys):
                    r = vand(r, veq(I, st, p, q))
                return r
        if isinstance(x, (Opq, StrV, VecV)) and isinstance(y, (Opq, StrV, VecV)):
            kx, ky = sorted([x, y], key=repr)
            return boolsym(("eq", kx, ky), "%r==%r" % (kx, ky))
        return unk("equality of %s" % type(x).__name__)
    return lift(h, a, b)


ORDS = [some(agg(ORD, k, ())) for k in range(3)]


def vcmp(I, st, a, b):
    """optional ordering of two values: lexicographic, an unknown outcome for opaque parts"""
    o = opaque_pair(I, st, a, b)
    if o:
        x, y, t = o
        if same(x, y):
            return ORDS[1]
        return mknode(dec("cmp", ("cmp", x, y), (0, 1, 2, 3), "%s<=>" % t.split("::")[-1]), [none()] + ORDS)

    def h(x, y):
        if isinstance(x, (Ref, VRef)):
            return vcmp(I, st, deref(I, st, x), y)
        if isinstance(y, (Ref, VRef)):
            return vcmp(I, st, x, deref(I, st, y))
        p = poison(x, y)
        if p is not None:
            return p
        if same(x, y):
            return ORDS[1]
        if isinstance(x, Poly) and isinstance(y, Poly):
            return lift(lambda s: s if s is UNDEF else ORDS[s + 1], sign_of(padd(x, y, -1)))
        if isinstance(x, bool) and isinstance(y, bool):
            return ORDS[1 + x - y]
        if isinstance(x, Agg) and isinstance(y, Agg):
            if (x.var or 0) != (y.var or 0):
                return ORDS[0 if (x.var or 0) < (y.var or 0) else 2]
            r = ORDS[1]
            for p, q in reversed(list(zip(x.fs, y.fs))):
                r = lift(lambda o, rest: poison(o) or (lift(lambda e: poison(e) or (rest if e.var == 1 else some(e)), o.fs[0]) if o.var == 1 else o), vcmp(I, st, p, q), r)
            return r
        if isinstance(x, (Opq, StrV, VecV)) and isinstance(y, (Opq, StrV, VecV)):
            if isinstance(x, StrV) and isinstance(y, StrV):
                return ORDS[0 if x.s < y.s else 2]
            return mknode(dec("cmp", ("cmp", x, y), (0, 1, 2, 3), "%r<=>%r" % (x, y)), [none()] + ORDS)
        return unk("ordering")
    return lift(h, a, b)


# ------------------------------------------------------------------ iterators
def range_vec(x):
    p = x.ty.split("<")[0]
    if p.endswith("RangeFrom"):
        return lift(lambda s: poison(s) or tmpl(INFLEN, padd(s, IOTA)), x.fs[0])
    if p.endswith("RangeInclusive"):
        return num_op_vec(lambda s, e: _rng(s, padd(e, ONE)))(x.fs[0], x.fs[1])
    if p.endswith("Range"):
        return num_op_vec(_rng)(x.fs[0], x.fs[1])
    return None


def num_op_vec(f):
    def g(*vs):
        def h(*xs):
            p = poison(*xs)
            if p is not None:
                return p
            if not all(isinstance(x, Poly) for x in xs):
                return unk("range bound")
            return f(*xs)
        return lift(h, *vs)
    return g


def _rng(s, e):
    n = padd(e, s, -1)
    if psign(n) not in (1, "n", 0):
        n = pmax([n, ZERO])
    return tmpl(n, padd(s, IOTA))


def elem_refs(v, r):
    """vector of references to the elements of v, stored behind reference r (None: shared snapshot)"""
    if r is None:
        return vmap(lambda e: vref(e), v)
    n = v.length()
    path = r.path
    off = ZERO
    if path and path[-1][0] == "sl":
        off = path[-1][1]
        path = path[:-1]
    segs = []
    pos = off
    for s in v.segs:
        if s[0] == "i":
            segs.append(("i", tuple(ref(r.root, path + (("i", padd(pos, num(j))),)) for j in range(len(s[1])))))
            pos = padd(pos, num(len(s[1])))
        else:
            segs.append(("t", s[1], ref(r.root, path + (("i", padd(pos, IOTA)),))))
            pos = padd(pos, s[1])
    return vec(segs)


def some_of(v):
    """a sequence from which elements were dropped"""
    return isinstance(v, Opq) and isinstance(v.key, tuple) and v.key[:1] == ("some of",)


def to_iter(I, st, x, mut=False):
    """iterator value for an IntoIterator / iterator value"""
    def h(v):
        if is_bad(v):
            return v
        if isinstance(v, IterV):
            return v
        if isinstance(v, VecV):
            return mkiter(v)
        if isinstance(v, Agg):
            if v.ty.startswith("core::ops::range::") or "::range::Range" in v.ty:
                r = range_vec(v)
                if r is not None:
                    return mkiter(r) if not is_bad(r) else r
            if v.ty == OPT:
                return mkiter(items(v.fs[0]) if v.var == 1 else EMPTY)
            if v.ty == "box":
                return to_iter(I, st, v.fs[0])
            return unk("iterator from %s" % v.ty)
        if isinstance(v, VRef):
            if isinstance(v.v, IterV):
                return v.v
            return lift(lambda y: y if is_bad(y) else (mkiter(elem_refs(y, None)) if isinstance(y, VecV) else (
                to_iter(I, st, y) if isinstance(y, (VRef, Ref)) else unk("iterator from ref"))), v.v)
        if isinstance(v, Ref):
            y = I.load(st, v)
            l = _i.leaf1(y)
            if isinstance(l, (IterV, Ref, VRef)) or (isinstance(l, Agg) and "::range::Range" in l.ty):
                return to_iter(I, st, y, mut)
            return lift(lambda y: y if is_bad(y) else (mkiter(elem_refs(y, v if mut else None)) if isinstance(y, VecV) else (
                to_iter(I, st, y.fs[0]) if isinstance(y, Agg) and y.ty == "box" else unk("iterator from ref"))), y)
        if isinstance(v, Opq):
            return v if some_of(v) else unk("iterator from opaque")
        return unk("iterator from %s" % type(v).__name__)
    return lift(h, x)


def rest(it):
    def h(x):
        if is_bad(x):
            return x
        if isinstance(x, IterV):
            r = iter_rest(x)
            return r if r is not None else unk("iterator position")
        if some_of(x):
            return x
        return unk("iterator rest")
    return lift(h, it)


def iter_map1(I, st, it, f):
    """apply f to the remaining elements as vectors (VecV -> value)"""
    return lift(lambda v: v if is_bad(v) else f(v), rest(it))


def pure_call(I, f, args, st, cond):
    """call a closure; returns (value, changed?, state, cond)"""
    v, ns, c = I.call_closure(f, args, st, cond)
    changed = [k for k in st.mem if k in ns.mem and not same(st.mem[k], ns.mem[k])]
    return v, changed, ns, c


_bound = [0]


def fresh_bound():
    _bound[0] += 1
    p = pa(atom("sym", ("ι%d" % _bound[0],), nonneg=True))
    return p, p.t[0][0][0][0]


def map_elems(I, st, v, f, cond):
    """map a closure over a vector value (VecV); returns (VecV or Unk, state, cond)"""
    segs = []
    c = True
    for s in v.segs:
        if s[0] == "i":
            out = []
            for x in s[1]:
                r, ns, c2 = I.call_closure(f, [x], st, vand(cond, c))
                st = ns
                c = vand(c, c2)
                out.append(r)
            segs.append(("i", tuple(out)))
        else:
            b, bid = fresh_bound()
            x = vsubst(s[2], {0: b})
            npan = len(I.panics)
            base = I.base
            I.base = vand(I.base, vand(cond, lt(b, s[1]) if s[1] is not INFLEN else True))
            try:
                r, ch, ns, c2 = pure_call(I, f, [x], st, True)
            finally:
                I.base = base
            if ch:
                return unk("closure with effects"), havoc_roots(I, ns, ch), True
            st = keep_new(st, ns, b)
            if c2 is not True:
                # element-wise panic: whole pass continues only where no element panics; guards were recorded
                pass
            r = I.freeze(ns, r) if not isinstance(_i.leaf1(r), Poly) else r
            segs.append(("t", s[1], vsubst(r, {bid: IOTA})))
    return vec(segs), st, c


def keep_new(st, ns, b):
    return st


def havoc_roots(I, st, roots):
    ns = st.copy()
    for k in roots:
        ns.mem[k] = unk("changed inside iterator closure")
    return ns


def synth_loop(I, st, v, roots, step, cond):
    """iterate `step(state, element) -> (state, cond)` over vector value v; used for fold, for_each and similar"""
    segs = v.segs
    c = True
    for s in segs:
        if s[0] == "i":
            for x in s[1]:
                st, c2 = step(st, x, vand(cond, c))
                c = vand(c, c2)
        else:
            st = I.synth(st, s[1], s[2], step, vand(cond, c))
            if st is None:
                return None, c
    return st, c


# ------------------------------------------------------------------ options
def split_opt(v, someidx=1):
    """(is_some, payload) of an Option/Result-like value"""
    c = lift(lambda x: x if is_bad(x) else (x.var == someidx if isinstance(x, Agg) else unk("option")), v)
    p = lift(lambda x: x if is_bad(x) else ((x.fs[0] if x.fs else UNIT) if isinstance(x, Agg) and x.var == someidx else UNDEF), v)
    return c, p


def opt_norm(I, v, t=None):
    """turn an opaque option into a decision between its variants"""
    def h(x):
        if isinstance(x, Opq):
            ty = I.prog.types.get(x.ty) if x.ty else None
            if ty and ty["k"] == "adt" and ty["path"] in (OPT, RES):
                return I.symval((x.key,), x.ty)
            if isinstance(x.key, tuple) and x.key and x.key[0] == "mu":
                return unk("loop-carried option")
        return x
    return lift(h, v)


def cond_call(I, f, args, st, cond, c):
    """call closure only where c; returns (value, state, cont cond) merged"""
    if c is False or c is UNDEF:
        return UNDEF, st, True
    if isinstance(c, Unk) or (isinstance(c, Node) and _i.first_unk(c) is not None):
        v, ns, c2 = I.call_closure(f, args, st, cond)
        ch = [k for k in st.mem if k in ns.mem and not same(st.mem[k], ns.mem[k])]
        return v, (havoc_roots(I, ns, ch) if ch else ns), True
    v, ns, c2 = I.call_closure(f, args, st, vand(cond, c))
    if c is True:
        return v, ns, c2
    _, ms = I.merge([(c, ns), (vnot(c), st)])
    return v, ms, vor(vnot(c), c2)


def mkopt(c, p):
    return ite(c, lift(lambda x: x if isinstance(x, Unk) else (UNDEF if x is UNDEF else some(x)), p), none())


def wrap_opt(c, p):
    """some(p) if c else none, keeping diagrams inside"""
    if c is True:
        return some(p)
    if c is False:
        return none()
    return ite(c, some(p), none())


def wrap(ty, var, p):
    return agg(ty, var, (p,))


def opt_some(I, st, v):
    return wrap_opt


# ------------------------------------------------------------------ vectors
def vlast_split(v):
    """(cond nonempty, last, init) of VecV or None"""
    if not v.segs:
        return False, UNDEF, v
    s = v.segs[-1]
    if s[0] == "i":
        init = vec(list(v.segs[:-1]) + [("i", s[1][:-1])])
        return True, s[1][-1], init
    n = s[1]
    last = vsubst(s[2], {0: padd(n, ONE, -1)})
    init = vec(list(v.segs[:-1]) + [("t", padd(n, ONE, -1), s[2])])
    if psign(n) == 1:
        return True, last, init
    if len(v.segs) == 1:
        c = gt(n, ZERO)
        return c, last, ite(c, init, v)
    return None


def vec_op(I, st, r, f):
    """update the vector behind reference r with f(VecV) -> (value, VecV)"""
    v = deref(I, st, r)
    res = lift(lambda x: (poison(x) or (f(x)[0] if isinstance(x, VecV) else unk("vector op"))), v)
    new = lift(lambda x: (poison(x) or (f(x)[1] if isinstance(x, VecV) else unk("vector op"))), v)
    return res, I.store(st, final_ref(I, st, r), new)


def final_ref(I, st, r):
    """follow references to references"""
    for _ in range(6):
        v = I.load(st, r)
        if isinstance(_i.leaf1(v), Ref):
            r = v
        else:
            break
    return r


def idx_ok(i, n):
    return vand(ge(i, ZERO), lt(i, n))


def default_of(I, ty, st, cond):
    t = I.prog.types.get(ty, {"k": "?"})
    k = t["k"]
    if k in ("float", "int", "uint"):
        return ZERO, st
    if k == "bool":
        return False, st
    if k == "ref" and I.prog.types.get(t["to"], {}).get("k") == "str":
        return strv(""), st
    if k == "ref" and I.prog.types.get(t["to"], {}).get("k") == "slice":
        return vref(EMPTY), st
    if k == "tuple":
        out = []
        for e in t["elems"]:
            v, st = default_of(I, e, st, cond)
            out.append(v)
        return (tup(*out) if out else UNIT), st
    if k == "adt":
        p = t["path"]
        if t.get("box"):
            v, st = default_of(I, t["args"][0], st, cond)
            return agg("box", 0, (v,)), st
        if p == "alloc::vec::Vec":
            return EMPTY, st
        if p == "alloc::string::String":
            return strv(""), st
        if p == OPT:
            return none(), st
        key = I.prog.method(ty, "core::default::Default", "default")
        if key and I.prog.fns.get(key):
            v, st, _ = I.call_fn(key, [], st, cond)
            return v, st
        return opq(("default", ty), ty), st
    return unk("default of " + ty), st


def call_clo(I, f, args, st, cond):
    return I.call_closure(f, args, st, cond)


NUMTR = {"Add": add, "Sub": sub, "Mul": mul, "Div": div}


def external(I, fi, args, st, cond, t):
    path = fi.get("path") or ""
    rp = fi.get("rpath") or path
    tr = fi.get("trait") or ""
    name = fi.get("name") or path.split("::")[-1]
    rty = t.get("rty") if t else None
    sp = t.get("sp") if t else None
    A = args

    def ok(v, s=None, c=True):
        return v, (s if s is not None else st), c

    def D(i):
        return deref(I, st, A[i])

    # ---- bool
    if "<impl bool>::" in rp and name in ("then", "then_some") and len(A) == 2:
        c = D(0)
        if is_bad(c):
            return ok(c)
        if name == "then_some":
            return ok(wrap_opt(c, A[1]))
        x, s, c2 = cond_call(I, A[1], [], st, cond, c)
        return ok(wrap_opt(c, x), s, c2)
    # ---- arithmetic traits
    if tr.startswith("core::ops::arith::") or tr.startswith("core::ops::bit::"):
        n = tr.split("::")[-1]
        if n in NUMTR:
            a, b = D(0), D(1)
            la = _i.leaf1(a)
            if isinstance(la, Poly):
                rt = I.prog.types.get(rty, {}) if rty else {}
                if n == "Div" and rt.get("k") in ("uint", "int"):
                    return ok(num_op(_i._idiv)(a, b))
                return ok(NUMTR[n](a, b))
            return ok(unk("arith on %s" % rp))
        if n.endswith("Assign") and n[:-6] in NUMTR:
            tgt = final_ref(I, st, A[0])
            v = NUMTR[n[:-6]](I.load(st, tgt), D(1))
            return ok(UNIT, I.store(st, tgt, v))
        if n == "Neg":
            return ok(neg(D(0)))
        if n == "Rem":
            return ok(num_op(lambda x, y: pa(atom("app", ("srem", (x, y), None))))(D(0), D(1)))
        if n == "Not":
            return ok(vnot(D(0)))
    # ---- comparisons
    if tr == "core::cmp::PartialEq":
        r = veq(I, st, A[0], A[1])
        return ok(vnot(r) if name == "ne" else r)
    if tr == "core::cmp::PartialOrd" and name in ("lt", "le", "gt", "ge"):
        return ok({"lt": lt, "le": le, "gt": gt, "ge": ge}[name](D(0), D(1)))
    if (tr == "core::cmp::PartialOrd" and name == "partial_cmp") or (tr == "core::cmp::Ord" and name == "cmp") or name == "total_cmp":
        def ocmp(x, y):
            p = poison(x, y)
            if p is not None:
                return p
            if not (isinstance(x, Poly) and isinstance(y, Poly)):
                return vcmp(I, st, x, y) if name == "partial_cmp" else unk("ordering")
            o = lift(lambda s: s if s is UNDEF else agg(ORD, s + 1, ()), sign_of(padd(x, y, -1)))
            return some(o) if name == "partial_cmp" else o
        return ok(lift(ocmp, D(0), D(1)))
    if tr == "core::cmp::Ord" and name in ("min", "max"):
        return ok((vmin if name == "min" else vmax)(A[0], A[1]))
    if tr == "core::cmp::Ord" and name == "clamp":
        return ok(vmax(vmin(A[0], A[2]), A[1]))
    if rp in ("core::cmp::min", "core::cmp::max"):
        return ok((vmin if name == "min" else vmax)(A[0], A[1]))
    # ---- conversions
    if tr == "core::clone::Clone" and name == "clone":
        return ok(I.load(st, A[0]))
    if tr == "core::clone::Clone" and name == "clone_from":
        return ok(UNIT, I.store(st, final_ref(I, st, A[0]), D(1)))
    if tr == "alloc::borrow::ToOwned" and name == "to_owned":
        return ok(I.freeze(st, I.load(st, A[0])))
    if tr == "core::default::Default":
        v, s = default_of(I, rty or (fi.get("args") or ["?"])[0], st, cond)
        return ok(v, s)
    if tr == "core::convert::From" or tr == "core::convert::Into":
        a0 = fi.get("args") or []
        rt = I.prog.types.get(rty, {"k": "?"}) if rty else {"k": "?"}
        if rt["k"] in ("float", "int", "uint") and isinstance(_i.leaf1(A[0]), Poly):
            return ok(A[0])
        if rt.get("path") in ("std::path::PathBuf",):
            return ok(path_of(I, st, A[0]))
        if rt.get("path") == "alloc::string::String":
            return ok(D(0))
        if len(a0) >= 2 and a0[0] == a0[1]:
            return ok(A[0])
        if rt.get("box") or rt.get("path") == "alloc::boxed::Box":
            return ok(agg("box", 0, (A[0],)))
        if rt.get("path") == OPT:
            return ok(some(A[0]))
        if rt.get("path") == "alloc::vec::Vec":
            v = D(0)
            if isinstance(_i.leaf1(v), VecV):
                return ok(I.freeze(st, v))
        return ok(unk("conversion " + rp))
    if tr in ("core::convert::AsRef", "core::convert::AsMut", "core::borrow::Borrow", "core::borrow::BorrowMut",
              "core::ops::deref::Deref", "core::ops::deref::DerefMut"):
        l = _i.leaf1(A[0])
        v = I.load(st, A[0])
        lv = _i.leaf1(v)
        if isinstance(lv, Agg) and lv.ty == "box":
            return ok(I.extend_box(st, A[0]))
        return ok(A[0])
    if tr in ("core::ops::index::Index", "core::ops::index::IndexMut"):
        return index(I, st, A[0], A[1], cond, sp, rp)
    if tr == "core::iter::traits::collect::IntoIterator" and name == "into_iter":
        ty0 = (t.get("aty") or [None])[0] if t else None
        m = I.prog.types.get(ty0, {}).get("mut") if ty0 else False
        return ok(to_iter(I, st, A[0], mut=bool(m)))
    if tr in ("core::iter::traits::iterator::Iterator", "core::iter::traits::double_ended::DoubleEndedIterator",
              "core::iter::traits::exact_size::ExactSizeIterator"):
        r = iterator(I, fi, name, A, st, cond, t, rty)
        if r is not None:
            return r
    if tr == "core::iter::traits::collect::Extend":
        it = to_iter(I, st, A[1])
        add_v = iter_map1(I, st, it, lambda v: vmap(lambda e: I.freeze(st, e.v) if isinstance(e, VRef) else e, v))
        tgt = final_ref(I, st, A[0])
        nv = lift(lambda a, b: poison(a, b) or (vcat(a, b) if isinstance(a, VecV) and isinstance(b, VecV) else unk("extend")), I.load(st, tgt), add_v)
        return ok(UNIT, I.store(st, tgt, nv))
    if tr == "core::iter::traits::collect::FromIterator":
        return collect(I, st, A[0], rty)
    if tr == "core::ops::function::FnOnce" or tr == "core::ops::function::FnMut" or tr == "core::ops::function::Fn":
        f = A[0]
        ar = A[1]
        la = _i.leaf1(ar)
        if isinstance(la, Agg):
            aa = [lift(lambda x: x.fs[i] if isinstance(x, Agg) else x, ar) for i in range(len(la.fs))]
            return call_fnval(I, f, aa, st, cond)
        return ok(unk("fn call"))
    if tr == "core::ops::try_trait::Try" and name == "branch":
        v = opt_norm(I, A[0])

        def br(x):
            if is_bad(x):
                return x
            if not isinstance(x, Agg):
                return unk("try")
            if x.ty == RES:
                return agg(CF, 0, x.fs) if x.var == 0 else agg(CF, 1, (agg(RES, 1, x.fs),))
            if x.ty == OPT:
                return agg(CF, 0, x.fs) if x.var == 1 else agg(CF, 1, (none(),))
            return unk("try")
        return ok(lift(br, v))
    if tr == "core::ops::try_trait::FromResidual":
        return ok(A[0])
    if tr == "core::ops::try_trait::Try" and name == "from_output":
        return ok(agg(RES, 0, (A[0],)))

    # ---- f64 / integers
    if "impl f64>" in rp or "impl f32>" in rp or rp.startswith("std::f64::") or rp.startswith("core::f64::"):
        return f64fn(I, name, A, st, cond)
    if rp.startswith("core::num::<impl"):
        return intfn(I, name, A, st, cond, rp, sp)

    # ---- Vec / slices
    if rp.startswith("alloc::vec::Vec::") or rp.startswith("core::slice::<impl [T]>::") or rp.startswith("alloc::slice::<impl [T]>::") or rp.startswith("core::array::"):
        r = vecfn(I, name, A, st, cond, t, rp, sp)
        if r is not None:
            return r
    if rp in ("alloc::vec::from_elem",):
        return ok(lift(lambda n: poison(n) or tmpl(n, A[0]), A[1]))
    if name == "into_vec" or rp.endswith("box_new") or rp.endswith("exchange_malloc"):
        l = _i.leaf1(A[0]) if A else None
        if name == "into_vec" and isinstance(l, Agg) and l.ty == "box":
            return ok(lift(lambda x: x.fs[0] if isinstance(x, Agg) else x, A[0]))
        if name == "box_new":
            return ok(agg("box", 0, (A[0],)))
    if rp.startswith("alloc::boxed::box_assume_init_into_vec_unsafe"):
        l = _i.leaf1(A[0])
        if isinstance(l, Agg) and l.ty == "box":
            v = l.fs[0]
            if isinstance(v, Agg) and v.ty == "uninit":
                v = v.fs[1]
            while isinstance(v, Agg) and len(v.fs) == 1:
                v = v.fs[0]
            return ok(v)
    if rp.startswith("core::ops::range::RangeInclusive") and name == "new":
        return ok(agg("core::ops::range::RangeInclusive", 0, (A[0], A[1], False)))
    if rp.startswith("alloc::boxed::Box") and name == "new_uninit":
        return ok(agg("box", 0, (agg("uninit", 0, (UNDEF, agg("uninit.value", 0, (UNDEF,)))),)))
    if rp.startswith("alloc::boxed::Box") and name == "new":
        return ok(agg("box", 0, (A[0],)))
    if rp.startswith("core::option::Option::"):
        r = optfn(I, name, A, st, cond, t, sp)
        if r is not None:
            return r
    if rp.startswith("core::result::Result::"):
        r = resfn(I, name, A, st, cond, t, sp)
        if r is not None:
            return r
    if rp in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
        tgt = final_ref(I, st, A[0])
        old = I.load(st, tgt)
        if name == "replace":
            return ok(old, I.store(st, tgt, A[1]))
        if name == "take":
            v, s = default_of(I, rty, st, cond)
            return ok(old, I.store(s, tgt, v))
        t2 = final_ref(I, st, A[1])
        o2 = I.load(st, t2)
        s = I.store(st, tgt, o2)
        return ok(UNIT, I.store(s, t2, old))
    if rp in ("core::mem::drop",):
        return ok(UNIT)
    if rp in ("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::iter::traits::collect::identity"):
        return ok(A[0])
    if rp == "core::iter::repeat" or rp.startswith("core::iter::sources::repeat::repeat"):
        return ok(mkiter(tmpl(INFLEN, A[0])))
    if rp.startswith("core::iter::sources::once::once"):
        return ok(mkiter(items(A[0])))
    if rp.startswith("core::iter::adapters::zip::zip"):
        return zip_(I, st, to_iter(I, st, A[0]), to_iter(I, st, A[1]))
    if rp.startswith("core::iter::sources::repeat_n"):
        return ok(lift(lambda n: poison(n) or mkiter(tmpl(n, A[0])), A[1]))
    # ---- panics
    if "panicking::" in rp or rp.startswith("std::rt::begin_panic") or name in ("unwrap_failed", "expect_failed"):
        I.panic_here(cond, sp, name)
        return None if t is None else (UNDEF, st, False)
    if rp in ("std::process::exit", "std::process::abort"):
        I.panic_here(cond, sp, rp)
        return UNDEF, st, False
    r = I.events(fi, rp, name, A, st, cond, t) if I.events else None
    if r is not None:
        return r
    # ---- paths, strings, formatting: opaque but deterministic
    if rp.startswith("core::fmt::") or rp.startswith("alloc::fmt::") or rp.startswith("anyhow::"):
        return ok(opq(("text", name, I.snapkey(st, A)), rty))
    if is_text(rp, tr):
        return text(I, rp, name, A, st, cond, t, rty)
    return None


TEXT = ("std::path::", "std::ffi::", "core::str::", "alloc::str::", "alloc::string::", "<std::path::PathBuf")


def is_text(rp, tr):
    return rp.startswith(TEXT) or "PathBuf" in rp or tr == "alloc::string::ToString"


def path_of(I, st, v):
    """a path value: references and owned forms are the same abstract value"""
    return I.freeze(st, deref(I, st, v))


def text(I, rp, name, A, st, cond, t, rty):
    args = tuple(path_of(I, st, a) for a in A)
    if name in ("new", "as_path", "as_os_str", "to_path_buf", "as_ref", "deref", "borrow", "to_string", "to_owned", "into",
                "as_str", "from", "into_os_string", "to_os_string", "into_boxed_path"):
        v = args[0]
        rt = I.prog.types.get(rty, {"k": "?"}) if rty else {"k": "?"}
        return (vref(v) if rt["k"] == "ref" else v), st, True
    rt = I.prog.types.get(rty, {"k": "?"}) if rty else {"k": "?"}
    key = ("call", rp) + args
    if any(is_bad(a) or isinstance(a, Node) for a in args) or any(
            I.prog.types.get(ty, {}).get("mut") for ty in (t.get("aty") or [])):
        return None
    if rt["k"] == "bool":
        return boolsym(key, "%s(%s)" % (name, ", ".join(map(repr, args)))), st, True
    if rt.get("path") in (OPT, RES):
        inner = rt["args"][0]
        it = I.prog.types.get(inner, {"k": "?"})
        x = opq(key, inner)
        if it["k"] == "ref":
            x = vref(opq(key, it["to"]))
        d = dec("var", key, (0, 1), "%s(%s)" % (name, ", ".join(map(repr, args))))
        if rt["path"] == OPT:
            return mknode(d, [none(), some(x)]), st, True
        return mknode(d, [agg(RES, 0, (x,)), agg(RES, 1, (opq(("err",) + key, None),))]), st, True
    if rt["k"] == "ref":
        return vref(opq(key, rt["to"])), st, True
    return opq(key, rty), st, True


def call_fnval(I, f, aa, st, cond):
    l = _i.leaf1(f)
    if isinstance(l, (Ref, VRef)):
        inner = I.load(st, f)
        if isinstance(_i.leaf1(inner), (Ref, VRef, FnV)):
            return call_fnval(I, inner, aa, st, cond)
    if isinstance(f, Node):
        return I.each_leaf(f, st, cond, lambda x, c: call_fnval(I, x, aa, st, c))
    return I.call_closure(f, aa, st, cond)


def index(I, st, r, i, cond, sp, rp):
    n = I.vlen(deref(I, st, r))
    r = final_ref(I, st, r)
    l = _i.leaf1(i)
    if isinstance(l, Poly):
        c = I.may_panic(idx_ok(i, n), cond, sp, "index out of bounds")
        return I.extend(st, r, ("i", i)), st, c
    if isinstance(l, Agg) and "::range::Range" in l.ty:
        nm = l.ty.split("<")[0].split("::")[-1]
        if nm == "Range":
            a, b = l.fs
        elif nm == "RangeFrom":
            a, b = l.fs[0], n
        elif nm == "RangeTo":
            a, b = ZERO, l.fs[0]
        elif nm == "RangeFull":
            a, b = ZERO, n
        elif nm == "RangeInclusive":
            a, b = l.fs[0], add(l.fs[1], ONE)
        elif nm == "RangeToInclusive":
            a, b = ZERO, add(l.fs[0], ONE)
        else:
            return unk("slice range"), st, True
        c = I.may_panic(vand(vand(ge(a, ZERO), le(a, b)), le(b, n)), cond, sp, "slice index out of bounds")
        rr = lift(lambda x, y: I.extend(st, r, ("sl", x, y)), a, b)
        return rr, st, c
    return unk("index by %s" % type(l).__name__), st, True


# ------------------------------------------------------------------ numbers
def f64fn(I, name, A, st, cond):
    a = [deref(I, st, x) for x in A]

    def ok(v):
        return v, st, True
    if name in ("min", "max"):
        return ok((vmin if name == "min" else vmax)(a[0], a[1]))
    if name in ("minimum", "maximum"):
        return ok((vmin if name == "minimum" else vmax)(a[0], a[1]))
    if name == "clamp":
        return ok(vmax(vmin(a[0], a[2]), a[1]))
    if name == "abs":
        return ok(vabs(a[0]))
    if name in ("powf", "powi"):
        return ok(vpow(a[0], a[1]))
    if name == "sqrt":
        return ok(vsqrt(a[0]))
    if name == "recip":
        return ok(div(ONE, a[0]))
    if name == "mul_add":
        return ok(add(mul(a[0], a[1]), a[2]))
    if name == "hypot":
        return ok(vsqrt(add(mul(a[0], a[0]), mul(a[1], a[1]))))
    if name == "abs_sub":
        return ok(unk("abs_sub"))
    if name == "to_radians":
        return ok(mul(a[0], div(pa(atom("sym", ("π",), pos=True)), num(180))))
    if name in ("is_nan", "is_finite", "is_infinite", "is_normal", "is_sign_negative", "is_sign_positive"):
        return ok(lift(lambda x: poison(x) or boolsym((name, x), "%s(%r)" % (name, x)), a[0]))
    if name == "sin_cos":
        return ok(tup(app("sin", a[0]), app("cos", a[0])))
    if name in APPS:
        return ok(app(name, *a))
    return None


def app(name, *a):
    return num_op(lambda *xs: pa(atom("app", (name, tuple(xs), None), pos=(name == "exp"))))(*a)


def intfn(I, name, A, st, cond, rp, sp):
    a = [deref(I, st, x) for x in A]
    m = rp[rp.index("<impl ") + 6:].split(">")[0]
    rng = I.RANGES.get(m)
    unsigned = m.startswith("u")

    def ok(v, c=True):
        return v, st, c
    if name in ("min", "max"):
        return ok((vmin if name == "min" else vmax)(a[0], a[1]))
    if name == "saturating_sub" and unsigned:
        return ok(vmax(sub(a[0], a[1]), ZERO))
    if name == "saturating_add":
        r = add(a[0], a[1])
        if rng:
            r = vmin(r, num(rng[1]))
            if not unsigned:
                r = vmax(r, num(rng[0]))
        return ok(r)
    if name == "saturating_mul" and unsigned:
        r = mul(a[0], a[1])
        return ok(vmin(r, num(rng[1])) if rng else r)
    if name == "checked_sub" and unsigned:
        r = sub(a[0], a[1])
        return ok(wrap_opt(ge(r, ZERO), r))
    if name == "checked_add" and unsigned:
        r = add(a[0], a[1])
        return ok(wrap_opt(le(r, num(rng[1])) if rng else True, r))
    if name in ("wrapping_add", "wrapping_sub") and rng and unsigned:
        r = (add if name == "wrapping_add" else sub)(a[0], a[1])
        size = num(rng[1] + 1)
        inr = vand(ge(r, ZERO), le(r, num(rng[1])))
        fixed = add(r, size) if name == "wrapping_sub" else sub(r, size)
        return ok(ite(inr, r, fixed))
    if name == "wrapping_add" and unsigned:
        return ok(add(a[0], a[1]))
    if name == "wrapping_mul" and unsigned and rng:
        import interp
        return ok(interp.urem(mul(a[0], a[1]), num(rng[1] + 1)))
    if name == "abs_diff":
        return ok(vabs(sub(a[0], a[1])))
    if name == "pow":
        return ok(vpow(a[0], a[1]))
    if name == "is_power_of_two":
        return ok(unk("pow2"))
    return None


# ------------------------------------------------------------------ vectors
def vecfn(I, name, A, st, cond, t, rp, sp):
    def ok(v, s=None, c=True):
        return v, (s if s is not None else st), c
    if name == "new":
        return ok(EMPTY)
    if name == "with_capacity":
        return ok(EMPTY)
    if name in ("reserve", "shrink_to_fit", "reserve_exact"):
        return ok(UNIT)
    if not A:
        return None
    r = A[0]
    if name in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "each_ref", "leak", "into_boxed_slice"):
        return ok(r)
    v = deref(I, st, r)
    if name == "len":
        return ok(I.vlen(v))
    if name == "is_empty":
        return ok(eq(I.vlen(v), ZERO))
    if name == "capacity":
        n = I.vlen(v)
        if v is EMPTY:
            return ok(unk("capacity"))
        # at least the length; otherwise unspecified
        return ok(lift(lambda m: poison(m) or padd(m, sym("spare capacity of a vector of %r" % (m,), nonneg=True)), n))
    if name == "retain":
        def rt(x):
            acc, s, c, _ = gather(I, st, x, lambda e, s, k: _keep(I, A[1], e, s, k), cond)
            return UNIT, acc
        return ok(UNIT, vec_op(I, st, r, rt)[1])
    if name == "push":
        res, s = vec_op(I, st, r, lambda x: (UNIT, vcat(x, items(A[1]))))
        return ok(UNIT, s)
    if name == "pop":
        def pp(x):
            q = vlast_split(x)
            if q is None:
                return unk("pop"), unk("pop")
            c, last, init = q
            return wrap_opt(c, last), init
        return ok(*vec_op(I, st, r, pp))
    if name == "clear":
        return ok(UNIT, vec_op(I, st, r, lambda x: (UNIT, EMPTY))[1])
    if name == "truncate":
        def tr(x):
            if A[1] is ZERO:
                return UNIT, EMPTY
            if not isinstance(A[1], Poly):
                return UNIT, unk("truncate")
            fits = ge(x.length(), A[1])
            if fits is False:
                return UNIT, x
            q = vslice(x, ZERO, A[1])
            return UNIT, ite(fits, q if q is not None else unk("truncate"), x)
        return ok(UNIT, vec_op(I, st, r, tr)[1])
    if name == "insert":
        def ins(x):
            if A[1] is ZERO:
                return UNIT, vcat(items(A[2]), x)
            if isinstance(A[1], Poly) and A[1] is x.length():
                return UNIT, vcat(x, items(A[2]))
            return UNIT, unk("insert")
        return ok(UNIT, vec_op(I, st, r, ins)[1])
    if name in ("remove", "swap_remove"):
        def rem(x):
            c = A[1].const() if isinstance(A[1], Poly) else None
            if c is not None and name == "remove":
                y = x
                pre = []
                for _ in range(int(c)):
                    f = vfirst(y)
                    if f is None:
                        return unk("remove"), unk("remove")
                    pre.append(f[0])
                    y = f[1]
                f = vfirst(y)
                if f is None:
                    if not pre and len(y.segs) == 1 and y.segs[0][0] == "t":
                        n, b = y.segs[0][1], y.segs[0][2]
                        return vsubst(b, {0: ZERO}), tmpl(padd(n, ONE, -1), vsubst(b, {0: padd(IOTA, ONE)}))
                    return unk("remove"), unk("remove")
                return f[0], vcat(items(*pre), f[1])
            return unk("remove"), unk("remove")
        n = I.vlen(v)
        c = I.may_panic(idx_ok(A[1], n), cond, sp, "index out of bounds")
        x, s = vec_op(I, st, r, rem)
        return ok(x, s, c)
    if name in ("extend_from_slice", "append"):
        o = deref(I, st, A[1])
        o = I.freeze(st, o)
        _, s = vec_op(I, st, r, lambda x: (UNIT, lift(lambda y: poison(y) or (vcat(x, y) if isinstance(y, VecV) else unk("extend")), o)))
        if name == "append":
            s = I.store(s, final_ref(I, s, A[1]), EMPTY)
        return ok(UNIT, s)
    if name in ("copy_from_slice", "clone_from_slice"):
        o = I.freeze(st, deref(I, st, A[1]))
        c = I.may_panic(eq(I.vlen(v), I.vlen(o)), cond, sp, "slice length mismatch")
        return ok(UNIT, I.store(st, final_ref(I, st, r), o), c)
    if name in ("to_vec", "into_vec", "to_owned"):
        return ok(I.freeze(st, v))
    if name == "iter":
        return ok(to_iter(I, st, v if isinstance(_i.leaf1(v), VRef) else r))
    if name == "iter_mut":
        return ok(to_iter(I, st, final_ref(I, st, r), mut=True))
    if name in ("first", "last", "first_mut", "last_mut"):
        n = I.vlen(v)
        i = ZERO if name.startswith("first") else sub(n, ONE)
        c = gt(n, ZERO)
        rr = I.extend(st, final_ref(I, st, r), ("i", i))
        return ok(wrap_opt(c, rr) if not isinstance(c, Unk) else c)
    if name in ("get", "get_mut"):
        n = I.vlen(v)
        if isinstance(_i.leaf1(A[1]), Poly):
            c = idx_ok(A[1], n)
            rr = I.extend(st, final_ref(I, st, r), ("i", A[1]))
            return ok(wrap_opt(c, rr) if not isinstance(c, Unk) else c)
        return ok(unk("get"))
    if name in ("split_at", "split_at_mut"):
        n = I.vlen(v)
        c = I.may_panic(le(A[1], n), cond, sp, "split index")
        fr = final_ref(I, st, r)
        return ok(tup(lift(lambda x: I.extend(st, fr, ("sl", ZERO, x)), A[1]),
                      lift(lambda x, y: I.extend(st, fr, ("sl", x, y)), A[1], n)), None, c)
    if name in ("split_first", "split_last"):
        n = I.vlen(v)
        fr = final_ref(I, st, r)
        c = gt(n, ZERO)
        if name == "split_first":
            p = tup(I.extend(st, fr, ("i", ZERO)), lift(lambda x: I.extend(st, fr, ("sl", ONE, x)), n))
        else:
            p = tup(lift(lambda x: I.extend(st, fr, ("i", padd(x, ONE, -1))), n), lift(lambda x: I.extend(st, fr, ("sl", ZERO, padd(x, ONE, -1))), n))
        return ok(wrap_opt(c, p))
    if name == "windows":
        def win(x, w):
            p = poison(x, w)
            if p is not None:
                return p
            wc = w.const()
            if not isinstance(x, VecV) or wc is None or wc > 6:
                return unk("windows")
            wc = int(wc)
            n = x.length()
            if all(s[0] == "i" for s in x.segs):
                it = x.segs[0][1] if x.segs else ()
                return mkiter(items(*[vref(items(*it[i:i + wc])) for i in range(len(it) - wc + 1)]))
            if len(x.segs) != 1:
                return unk("windows")
            ln = pmax([padd(n, num(wc - 1), -1), ZERO]) if psign(padd(n, num(wc - 1), -1)) not in (1, "n", 0) else padd(n, num(wc - 1), -1)
            b = x.segs[0][2]
            return mkiter(tmpl(ln, vref(items(*[vsubst(b, {0: padd(IOTA, num(j))}) for j in range(wc)]))))
        return ok(lift(win, v, A[1]), st, I.may_panic(vnot(eq(A[1], ZERO)), cond, sp, "window size must be non-zero"))
    if name == "swap":
        a, b = A[1], A[2]
        fr = final_ref(I, st, r)
        n = I.vlen(v)
        c = I.may_panic(vand(idx_ok(a, n), idx_ok(b, n)), cond, sp, "index out of bounds")
        ra, rb = I.extend(st, fr, ("i", a)), I.extend(st, fr, ("i", b))
        va, vb = I.load(st, ra), I.load(st, rb)
        s = I.store(st, ra, vb)
        return ok(UNIT, I.store(s, rb, va), c)
    if name == "fill":
        _, s = vec_op(I, st, r, lambda x: (UNIT, vmap(lambda e: A[1], x)))
        return ok(UNIT, s)
    if name == "reverse":
        _, s = vec_op(I, st, r, lambda x: (UNIT, vrev(x)))
        return ok(UNIT, s)
    if name == "resize":
        def rs(x):
            n = A[1]
            if x.segs == () and isinstance(n, Poly):
                return UNIT, tmpl(n, A[2])
            if isinstance(n, Poly) and psign(padd(n, x.length(), -1)) in (1, "n", 0):
                return UNIT, vcat(x, tmpl(padd(n, x.length(), -1), A[2]))
            return UNIT, unk("resize")
        return ok(UNIT, vec_op(I, st, r, rs)[1])
    if name == "map" and "core::array::" in rp:
        def am(x):
            return x
        if isinstance(v, VecV):
            x, s, c = map_elems(I, st, v, A[1], cond)
            return ok(x, s, c)
    if name == "drain":
        l = _i.leaf1(A[1])
        if isinstance(l, Agg) and l.ty.split("<")[0].endswith("RangeFull"):
            return ok(lift(lambda x: mkiter(x) if isinstance(x, VecV) else unk("drain"), v), I.store(st, final_ref(I, st, r), EMPTY))
    if name == "concat":
        return ok(unk("concat"))
    if name == "contains":
        return ok(unk("contains"))
    return None


# ------------------------------------------------------------------ iterators
def zip_(I, st, a, b):
    def z(x, y):
        p = poison(x, y)
        if p is not None:
            return p
        xv, yv = iter_rest(x), iter_rest(y)
        if xv is None or yv is None:
            return unk("zip position")
        r = vzip(xv, yv)
        return mkiter(r) if r is not None else unk("zip of different layouts")
    return lift(z, a, b), st, True


def collect(I, st, it, rty):
    rt = I.prog.types.get(rty, {"k": "?"}) if rty else {"k": "?"}
    it = to_iter(I, st, it)
    v = rest(it)
    if rt.get("path") in ("alloc::vec::Vec",) or rt["k"] == "array" or (rt["k"] == "adt" and rt.get("box")):
        if rt.get("box"):
            return agg("box", 0, (v,)), st, True
        return v, st, True
    if rt.get("path") in (OPT, RES):
        def co(x):
            if is_bad(x):
                return x
            if all(s[0] == "i" for s in x.segs):
                okc = True
                out = []
                good = 1 if rt["path"] == OPT else 0
                for e in (x.segs[0][1] if x.segs else ()):
                    c, p = split_opt(e, good)
                    okc = vand(okc, c)
                    out.append(p)
                bad = none() if rt["path"] == OPT else agg(RES, 1, (opq(("err", x), None),))
                return ite(okc, agg(rt["path"], good, (items(*out),)), bad)
            return unk("collect into option")
        return lift(co, v), st, True
    return unk("collect into %s" % (rt.get("path") or rt["k"])), st, True


def _keep(I, f, e, s, k):
    c, ns, c2 = call_fnval(I, f, [vref(e)], s, k)
    return c, items(e), ns, c2


def gather(I, st, v, pick, cond):
    """vector of what pick(element, state, cond) -> (kept?, vector, state, cond) keeps, for explicit elements"""
    acc, c = EMPTY, True
    if len(v.segs) == 1 and v.segs[0][0] == "t":
        b, bid = fresh_bound()
        k, x, ns, c2 = pick(vsubst(v.segs[0][2], {0: b}), st, vand(cond, lt(b, v.segs[0][1])))
        if k is False:
            return EMPTY, st, True, None
        if k is True and isinstance(x, VecV) and x.length() is ONE and same(x, items(vsubst(v.segs[0][2], {0: b}))):
            return v, st, True, None
        if not is_bad(k) and isinstance(x, VecV) and x.length() is ONE and same(x, items(vsubst(v.segs[0][2], {0: b}))) and (
                ns is st or all(r in ns.mem and same(ns.mem[r], w) for r, w in st.mem.items())):
            # all of it, unless the element at some position is dropped
            name = "position dropped from %s by %r" % (v, vsubst(k, {bid: IOTA}))
            j = pa(atom("sym", (name,), nonneg=True))
            return ite(vor(vsubst(k, {bid: j}), ge(j, v.segs[0][1])), v, opq(("some of", name), None)), st, True, None
        return unk("choice of elements of a sequence of any length"), st, True, None
    if not all(s[0] == "i" for s in v.segs):
        return unk("choice of elements of a sequence"), st, True, None
    for e in (v.segs[0][1] if v.segs else ()):
        k, x, st, c2 = pick(e, st, vand(cond, c))
        c = vand(c, c2)
        more = lift(lambda a, y: poison(a, y) or (vcat(a, y) if isinstance(a, VecV) and isinstance(y, VecV) else unk("gather")), acc, x) if k is not False else acc
        acc = ite(k, more, acc)
    return acc, st, c, None


CONSUME = {"map", "zip", "enumerate", "rev", "collect", "sum", "product", "fold", "for_each", "filter", "filter_map", "any", "all", "position", "find",
           "count", "last", "max", "min", "flat_map", "flatten", "extend"}


PASS = ("collect", "cloned", "copied", "into_iter", "iter", "by_ref")


def iterator(I, fi, name, A, st, cond, t, rty):
    if A and isinstance(A[0], Node) and name in PASS:
        os = []
        lift(lambda x: (os.append(x), x)[1] if some_of(x) else x, A[0])
        if os:
            k = lift(some_of, A[0])
            q = iterator(I, fi, name, [lift(lambda x: UNDEF if some_of(x) else x, A[0])] + list(A[1:]), st, cond, t, rty)
            return q and (ite(k, lift(lambda x: x if some_of(x) else UNDEF, A[0]), q[0]), q[1], q[2])
    if name in CONSUME and A:
        v = rest(to_iter(I, st, A[0]))
        if isinstance(v, Node):
            ls = []
            lift(lambda x: (ls.append(x), x)[1] if not any(x is y for y in ls) else x, v)
            if 1 < len(ls) <= 8 and all(isinstance(x, VecV) for x in ls):
                res, ins, cont = None, [], False
                for x in ls:
                    k = lift(lambda y, x=x: y is x, v)
                    q = iterator1(I, fi, name, [mkiter(x)] + list(A[1:]), st, vand(cond, k), t, rty)
                    if q is None:
                        return None
                    res = q[0] if res is None else ite(k, q[0], res)
                    ins.append((k, q[1]))
                    cont = vor(cont, vand(k, q[2]))
                return res, I.merge(ins)[1], cont
    return iterator1(I, fi, name, A, st, cond, t, rty)


def iterator1(I, fi, name, A, st, cond, t, rty):
    def ok(v, s=None, c=True):
        return v, (s if s is not None else st), c
    if name in ("next", "next_back"):
        r = final_ref(I, st, A[0])
        it = I.load(st, r)
        l = _i.leaf1(it)
        if isinstance(l, Agg):
            it = to_iter(I, st, it)

        def nx(x, what):
            if is_bad(x):
                return x
            if not isinstance(x, IterV):
                return unk("next on %s" % type(x).__name__)
            if name == "next_back":
                v = iter_rest(x)
                q = vlast_split(v) if v is not None else None
                if q is None:
                    return unk("next_back")
                return wrap_opt(q[0], q[1]) if what == 0 else mkiter(q[2])

            def at(pos):
                if is_bad(pos):
                    return pos
                n = x.v.length()
                c = lt(pos, n) if not _has_inf(x.v) else True
                if what == 0:
                    return wrap_opt(c, vindex(x.v, pos)) if c is not False else none()
                return mkiter(x.v, ite(c, padd(pos, ONE), pos))
            return lift(at, x.pos)
        res = lift(lambda x: nx(x, 0), it)
        new = lift(lambda x: nx(x, 1), it)
        return ok(res, I.store(st, r, new))
    # by-value adapters
    src = A[0]
    it = to_iter(I, st, src)
    if name in ("by_ref",):
        return ok(src)
    if name in ("copied", "cloned"):
        return ok(lift(lambda x: poison(x) or mkiter(vmap(lambda e: I.load(st, e), x.v), x.pos), it))
    if name == "map":
        l = _i.leaf1(it)
        v = rest(it)
        if isinstance(v, VecV):
            x, s, c = map_elems(I, st, v, A[1], cond)
            return ok(mkiter(x) if isinstance(x, VecV) else x, s, c)
        if is_bad(v):
            return ok(v)
        return ok(unk("map over alternatives"))
    if name == "zip":
        return zip_(I, st, it, to_iter(I, st, A[1]))
    if name == "enumerate":
        def en(v):
            out = []
            pos = ZERO
            for s in v.segs:
                if s[0] == "i":
                    out.append(("i", tuple(tup(padd(pos, num(j)), e) for j, e in enumerate(s[1]))))
                    pos = padd(pos, num(len(s[1])))
                else:
                    out.append(("t", s[1], tup(padd(pos, IOTA), s[2])))
                    pos = padd(pos, s[1])
            return mkiter(vec(out))
        return ok(iter_map1(I, st, it, en))
    if name == "rev":
        return ok(iter_map1(I, st, it, lambda v: mkiter(vrev(v))))
    if name in ("skip", "take", "step_by"):
        def sk(v, n):
            p = poison(v, n)
            if p is not None:
                return p
            ln = v.length()
            if name == "skip":
                c = n.const()
                if c is not None:
                    y = v
                    k = int(c)
                    while k and y.segs and y.segs[0][0] == "i":
                        y = vfirst(y)[1]
                        k -= 1
                    if k == 0 or not y.segs:
                        return mkiter(y)
                    if len(y.segs) == 1:
                        m = padd(y.segs[0][1], num(k), -1)
                        m = m if psign(m) in (1, "n", 0) else pmax([m, ZERO])
                        return mkiter(tmpl(m, vsubst(y.segs[0][2], {0: padd(IOTA, num(k))})))
                if len(v.segs) == 1 and v.segs[0][0] == "t":
                    m = padd(ln, n, -1)
                    m = m if psign(m) in (1, "n", 0) else pmax([m, ZERO])
                    return mkiter(tmpl(m, vsubst(v.segs[0][2], {0: padd(IOTA, n)})))
                return unk("skip")
            if name == "take":
                if v.segs and v.segs[0][0] == "t" and (len(v.segs) == 1):
                    b = v.segs[0][2]
                    if _has_inf(v):
                        return mkiter(tmpl(n, b))
                    d = psign(padd(ln, n, -1))
                    m = n if d in (1, "n", 0) else pmin([n, ln])
                    return mkiter(tmpl(m, b))
                c = n.const()
                if c is not None and (all(s[0] == "i" for s in v.segs) or _has_inf(v) and c <= len(v.segs[0][1])):
                    its = v.segs[0][1] if v.segs else ()
                    return mkiter(items(*its[:int(c)]))
                return unk("take")
            return unk("step_by")
        return ok(lift(sk, rest(it), A[1]))
    if name == "chain":
        return ok(lift(lambda a, b: poison(a, b) or mkiter(vcat(a, b)), rest(it), rest(to_iter(I, st, A[1]))))
    if name == "collect":
        return collect(I, st, it, rty)
    if name in ("sum", "product"):
        def sm(v):
            r = ZERO if name == "sum" else ONE
            for s in v.segs:
                if s[0] == "i":
                    for e in s[1]:
                        e = deref(I, st, e)
                        r = add(r, e) if name == "sum" else mul(r, e)
                else:
                    b = deref(I, st, s[2])
                    if name == "product":
                        return unk("product")
                    if isinstance(b, Poly):
                        r = add(r, psum(s[1], b))
                    elif is_bad(b):
                        return b
                    elif isinstance(b, Node) and _i.first_unk(b) is None:
                        r = add(r, pa(atom("sum", (s[1], b))))
                    else:
                        return unk("sum")
            return r
        return ok(iter_map1(I, st, it, sm))
    if name == "count":
        return ok(iter_map1(I, st, it, lambda v: v.length()))
    if name in ("len",):
        return ok(iter_map1(I, st, it, lambda v: v.length()))
    if name == "last":
        def la(v):
            q = vlast_split(v)
            return wrap_opt(q[0], q[1]) if q else unk("last")
        return ok(iter_map1(I, st, it, la))
    if name == "nth":
        def nt(v):
            c = idx_ok(A[1], v.length())
            return wrap_opt(c, vindex(v, A[1])) if isinstance(A[1], Poly) else unk("nth")
        if isinstance(_i.leaf1(A[0]), Ref):
            r = final_ref(I, st, A[0])
            new = lift(lambda x: poison(x) or mkiter(x.v, add(x.pos, add(A[1], ONE))), to_iter(I, st, I.load(st, r)))
            return ok(iter_map1(I, st, it, nt), I.store(st, r, new))
        return ok(iter_map1(I, st, it, nt))
    if name in ("fold", "for_each", "try_for_each"):
        v = rest(it)
        if not isinstance(v, VecV):
            return ok(unk("fold"))
        if name == "try_for_each":
            return None
        root = I.fresh("acc")
        s = st.copy()
        f = A[2] if name == "fold" else A[1]
        if name == "fold":
            s.mem[root] = A[1]

        def step(s2, x, c):
            if name == "fold":
                r, ns, c2 = call_fnval(I, f, [s2.mem[root], x], s2, c)
                ns = ns.copy()
                ns.mem[root] = r
            else:
                r, ns, c2 = call_fnval(I, f, [x], s2, c)
            return ns, c2
        s, c = synth_loop(I, s, v, None, step, cond)
        if s is None:
            return None
        if name == "fold":
            return ok(s.mem[root], s, c)
        return ok(UNIT, s, c)
    if name in ("any", "all", "position", "find"):
        v = rest(it)
        if not isinstance(v, VecV):
            return ok(unk(name))
        if name in ("any", "all") and all(s[0] == "i" for s in v.segs):
            r = name == "all"
            s = st
            for e in (v.segs[0][1] if v.segs else ()):
                x, s, c = call_fnval(I, A[1], [e], s, cond)
                r = vand(r, x) if name == "all" else vor(r, x)
            return ok(r, s)
        if name in ("any", "all") and len(v.segs) == 1:
            x, s, c = map_elems(I, st, v, A[1], cond)
            if isinstance(x, VecV) and x.segs and x.segs[0][0] == "t":
                b = x.segs[0][2]
                if isinstance(b, bool):
                    return ok(b if name == "all" else ite(gt(x.length(), ZERO), b, False)) if name == "any" else ok(ite(gt(x.length(), ZERO), b, True))
                if _i.first_unk(b) is None:
                    key = b if name == "any" else vnot(b)
                    q = boolsym(("any", x.segs[0][1], key), "any(%r)" % (key,))
                    return ok(q if name == "any" else vnot(q), s)
        if all(s[0] == "i" for s in v.segs):
            s, c, r = st, True, none()
            found = False
            for j, e in enumerate(v.segs[0][1] if v.segs else ()):
                x, s, c2 = call_fnval(I, A[1], [e if name == "position" else vref(e)], s, vand(cond, vand(c, vnot(found))))
                c = vand(c, c2)
                r = ite(found, r, ite(x, some(num(j) if name == "position" else e), none()))
                found = vor(found, x)
            return ok(r, s, c)
        return ok(unk(name))
    if name in ("filter", "filter_map", "flat_map", "flatten", "inspect"):
        v = rest(it)
        if not isinstance(v, VecV):
            return ok(v if is_bad(v) else unk(name))
        if name == "inspect":
            x, s, c = map_elems(I, st, v, A[1], cond)
            return ok(mkiter(v) if isinstance(x, VecV) else x, s, c)

        def pick(e, s, k):
            if name == "filter":
                return _keep(I, A[1], e, s, k)
            x, c2 = e, True
            if name != "flatten":
                x, s, c2 = call_fnval(I, A[1], [e], s, k)
            l = _i.leaf1(x)
            if isinstance(l, (Ref, VRef)):
                l = _i.leaf1(I.load(s, x))
            if name == "filter_map" or isinstance(l, Agg) and l.ty in (OPT, RES):
                c, p = split_opt(opt_norm(I, deref(I, s, x) if not isinstance(x, Node) else x), 1 if not (isinstance(l, Agg) and l.ty == RES) else 0)
                return c, lift(lambda y: y if is_bad(y) else items(y), p) if c is not False else EMPTY, s, c2
            return True, rest(to_iter(I, s, x)), s, c2
        acc, s, c, _ = gather(I, st, v, pick, cond)
        return ok(lift(lambda x: x if is_bad(x) or some_of(x) else mkiter(x), acc), s, c)
    if name == "reduce":
        v = rest(it)
        if not isinstance(v, VecV):
            return ok(v if is_bad(v) else unk(name))
        if not v.segs:
            return ok(none())
        q = vfirst(v)
        if q is not None:
            root = I.fresh("acc")
            s = st.copy()
            s.mem[root] = q[0]

            def rstep(s2, x, c):
                r, ns, c2 = call_fnval(I, A[1], [s2.mem[root], x], s2, c)
                ns = ns.copy()
                ns.mem[root] = r
                return ns, c2
            s, c = synth_loop(I, s, q[1], None, rstep, cond)
            if s is not None:
                return ok(some(s.mem[root]), s, c)
        return ok(unk("reduce"))
    if name in ("max_by", "min_by", "max", "min", "filter", "filter_map", "flat_map", "flatten", "take_while", "skip_while",
                "scan", "peekable", "inspect", "unzip", "partition", "find_map", "reduce", "cycle", "step_by", "map_while"):
        if name == "unzip":
            def uz(v, k):
                return vmap(lambda e: e.fs[k] if isinstance(e, Agg) else unk("unzip"), v)
            v = rest(it)
            if isinstance(v, VecV):
                return ok(tup(uz(v, 0), uz(v, 1)))
        if name == "cycle":
            def cy(v):
                if isinstance(v, VecV) and all(s[0] == "i" for s in v.segs):
                    its = v.segs[0][1] if v.segs else ()
                    # repeated far enough for what the analysed systems read; what lies beyond is unknown
                    return mkiter(vcat(items(*(tuple(its) * max(2, 96 // len(its)))), tmpl(INFLEN, unk("cycle"))) if its else v)
                return unk("cycle")
            return ok(lift(cy, rest(it)))
        if name in ("max", "min"):
            v = rest(it)
            if isinstance(v, VecV) and all(s[0] == "i" for s in v.segs):
                xs = [deref(I, st, e) for e in (v.segs[0][1] if v.segs else ())]
                if not xs:
                    return ok(none())
                r = xs[0]
                for x in xs[1:]:
                    r = (vmax if name == "max" else vmin)(r, x)
                return ok(some(vref(r)))
        return ok(unk("iterator " + name))
    return None


def _has_inf(v):
    return bool(v.segs) and v.segs[-1][0] == "t" and v.segs[-1][1] is INFLEN


# ------------------------------------------------------------------ Option / Result
def optfn(I, name, A, st, cond, t, sp):
    def ok(v, s=None, c=True):
        return v, (s if s is not None else st), c
    inplace = name in ("as_ref", "as_mut", "is_some", "is_none", "take", "replace", "insert", "get_or_insert_with", "as_deref",
                       "as_deref_mut", "iter", "as_slice", "get_or_insert")
    if inplace:
        v = opt_norm(I, deref(I, st, A[0]))
        c, p = split_opt(v)
        if name == "is_some":
            return ok(c)
        if name == "is_none":
            return ok(vnot(c))
        r = final_ref(I, st, A[0])
        if name in ("as_ref", "as_mut"):
            rr = I.extend(st, I.extend(st, r, ("d", 1)), ("f", 0))
            return ok(wrap_opt(c, rr) if not isinstance(c, Unk) else c)
        if name in ("as_deref", "as_deref_mut"):
            x = I.freeze(st, p)
            return ok(wrap_opt(c, vref(lift(lambda y: y.fs[0] if isinstance(y, Agg) and y.ty == "box" else y, x))) if not isinstance(c, Unk) else c)
        if name == "take":
            return ok(v, I.store(st, r, none()))
        if name == "replace":
            return ok(v, I.store(st, r, some(A[1])))
        if name == "insert":
            s = I.store(st, r, some(A[1]))
            return ok(I.extend(s, I.extend(s, r, ("d", 1)), ("f", 0)), s)
        return None
    v = opt_norm(I, A[0])
    if isinstance(_i.leaf1(v), (Ref, VRef)):
        v = opt_norm(I, deref(I, st, v))
    c, p = split_opt(v)
    if name in ("unwrap", "expect"):
        c2 = I.may_panic(c, cond, sp, "Option::%s on None" % name)
        return ok(p, None, c2)
    if name in ("unwrap_unchecked",):
        return ok(p)
    if name == "unwrap_or":
        return ok(ite(c, p, A[1]))
    if name == "unwrap_or_default":
        d, s = default_of(I, t.get("rty"), st, cond)
        return ok(ite(c, p, d), s)
    if name == "unwrap_or_else":
        x, s, c2 = cond_call(I, A[1], [], st, cond, vnot(c))
        return ok(ite(c, p, x), s, c2)
    if name == "map":
        x, s, c2 = cond_call(I, A[1], [p], st, cond, c)
        return ok(wrap_opt(c, x) if not isinstance(c, Unk) else c, s, c2)
    if name == "and_then":
        x, s, c2 = cond_call(I, A[1], [p], st, cond, c)
        return ok(ite(c, x, none()), s, c2)
    if name == "map_or":
        x, s, c2 = cond_call(I, A[2], [p], st, cond, c)
        return ok(ite(c, x, A[1]), s, c2)
    if name == "map_or_else":
        x, s, c2 = cond_call(I, A[2], [p], st, cond, c)
        y, s, c3 = cond_call(I, A[1], [], s, cond, vnot(c))
        return ok(ite(c, x, y), s, vand(c2, c3))
    if name in ("is_some_and", "is_none_or"):
        x, s, c2 = cond_call(I, A[1], [p], st, cond, c)
        return ok(ite(c, x, name == "is_none_or"), s, c2)
    if name in ("copied", "cloned"):
        return ok(lift(lambda x: x if is_bad(x) else (some(I.load(st, x.fs[0])) if x.var == 1 else x), v))
    if name == "ok_or":
        return ok(ite(c, agg(RES, 0, (p,)), agg(RES, 1, (A[1],))))
    if name == "ok_or_else":
        x, s, c2 = cond_call(I, A[1], [], st, cond, vnot(c))
        return ok(ite(c, agg(RES, 0, (p,)), agg(RES, 1, (x,))), s, c2)
    if name == "or":
        return ok(ite(c, v, A[1]))
    if name == "or_else":
        x, s, c2 = cond_call(I, A[1], [], st, cond, vnot(c))
        return ok(ite(c, v, x), s, c2)
    if name == "filter":
        x, s, c2 = cond_call(I, A[1], [vref(p)], st, cond, c)
        return ok(ite(vand(c, ite(c, x, False)), v, none()), s, c2)
    if name == "zip":
        cb, pb = split_opt(opt_norm(I, A[1]))
        return ok(wrap_opt(vand(c, cb), tup(p, pb)))
    return None


def resfn(I, name, A, st, cond, t, sp):
    def ok(v, s=None, c=True):
        return v, (s if s is not None else st), c
    v = opt_norm(I, deref(I, st, A[0]))
    c, p = split_opt(v, 0)
    _, e = split_opt(v, 1)
    if name in ("unwrap", "expect"):
        c2 = I.may_panic(c, cond, sp, "Result::%s on Err" % name)
        return ok(p, None, c2)
    if name in ("unwrap_err", "expect_err"):
        c2 = I.may_panic(vnot(c), cond, sp, "Result::%s on Ok" % name)
        return ok(e, None, c2)
    if name == "is_ok":
        return ok(c)
    if name == "is_err":
        return ok(vnot(c))
    if name == "ok":
        return ok(wrap_opt(c, p) if not isinstance(c, Unk) else c)
    if name == "err":
        return ok(wrap_opt(vnot(c), e) if not isinstance(c, Unk) else c)
    if name == "unwrap_or":
        return ok(ite(c, p, A[1]))
    if name == "unwrap_or_default":
        d, s = default_of(I, t.get("rty"), st, cond)
        return ok(ite(c, p, d), s)
    if name == "unwrap_or_else":
        x, s, c2 = cond_call(I, A[1], [e], st, cond, vnot(c))
        return ok(ite(c, p, x), s, c2)
    if name == "map":
        x, s, c2 = cond_call(I, A[1], [p], st, cond, c)
        return ok(ite(c, agg(RES, 0, (x,)), agg(RES, 1, (e,))), s, c2)
    if name == "map_err":
        x, s, c2 = cond_call(I, A[1], [e], st, cond, vnot(c))
        return ok(ite(c, agg(RES, 0, (p,)), agg(RES, 1, (x,))), s, c2)
    if name == "and_then":
        x, s, c2 = cond_call(I, A[1], [p], st, cond, c)
        return ok(ite(c, x, agg(RES, 1, (e,))), s, c2)
    if name == "or_else":
        x, s, c2 = cond_call(I, A[1], [e], st, cond, vnot(c))
        return ok(ite(c, agg(RES, 0, (p,)), x), s, c2)
    return None
