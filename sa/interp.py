"""Gated value numbering over MIR: join-based dataflow, loops summarised by recurrences."""
from values import *
from values import _k
import math
import struct
import time

LOG = "log"


class State:
    __slots__ = ("mem",)

    def __init__(self, mem=None):
        self.mem = mem if mem is not None else {}

    def copy(self):
        return State(dict(self.mem))


class Prog:
    """all dumped crates of one build configuration"""

    def __init__(self, dumps):
        self.fns = {}
        self.consts = {}
        self.adts = {}
        self.types = {}
        self.impls = []
        self.traits = {}
        self.statics = []
        self.unsafe_fns = []
        self.unsafe_blocks = []
        self.crates = {}
        for d in dumps:
            cn = d["crate"] + ("-bin" if "Executable" in d["crate_types"] else "")
            self.crates[cn] = d
            for k, v in d["fns"].items():
                if k not in self.fns or not self.fns[k]:
                    if v:
                        self.fns[k] = v
            for k, v in d["consts"].items():
                if v and not self.consts.get(k):
                    self.consts[k] = v
            for k, v in d["adts"].items():
                o = self.adts.get(k)
                if v and (not o or (v.get("user") and v["crate"] == d["crate"])):
                    self.adts[k] = v
            self.types.update(d["types"])
            self.impls += d["impls"]
            self.traits.update(d["traits"])
            for s in ("statics", "unsafe_fns", "unsafe_blocks"):
                for x in d[s]:
                    x = dict(x, crate=cn)
                    getattr(self, s).append(x)
        self.methods = {}
        self.by_path = {}
        for k, f in self.fns.items():
            f["key"] = k
            self.by_path.setdefault(f["path"], []).append(k)
            if f.get("impl_self") is not None and not f.get("generic_args_open"):
                self.methods.setdefault((f["impl_self"], f.get("impl_trait"), f["name"]), []).append(k)
            elif f.get("trait_default"):
                if f["gargs"]:
                    self.methods.setdefault((f["gargs"][0], f["trait_default"], f["name"]), []).append(k)

    def method(self, ty, trait, name):
        ks = self.methods.get((ty, trait, name), [])
        return ks[0] if ks else None

    def inherent(self, ty, name):
        return self.method(ty, None, name)

    def adt(self, ty):
        return self.adts.get(ty)

    def field_index(self, ty, name):
        a = self.adts.get(ty)
        if not a:
            return None
        for i, f in enumerate(a["variants"][0]["fields"]):
            if f["name"] == name:
                return i
        return None


def nice_float(bits, size):
    if size == 8:
        x = struct.unpack("<d", struct.pack("<Q", bits))[0]
    else:
        x = struct.unpack("<f", struct.pack("<I", bits))[0]
    return nice_num(x)


def nice_num(x):
    if x != x:
        return pa(atom("nan", (1,)))
    if x in (float("inf"), float("-inf")):
        p = pa(atom("inf", (1,), pos=True))
        return p if x > 0 else pscale(p, -1)
    if x == 0:
        return ZERO
    # the real number the programmer wrote: constants folded by the compiler arrive as rounded quotients
    dec = Fraction(repr(x))
    for f in (lambda: Fraction(x).limit_denominator(100000),
              lambda: dec if len(repr(x).split("e")[0].replace(".", "").replace("-", "").strip("0")) <= 11 else None,
              lambda: Fraction(x).limit_denominator(10000000)):
        fr = f()
        if fr is not None and float(fr) == x:
            return num(fr)
    fr = Fraction(x).limit_denominator(20000)
    if fr and abs(float(fr) - x) <= 4 * math.ulp(x):
        return num(fr)
    return num(dec)


class OverTime(Exception):
    """raised by the watchdog"""


DEADLINE = [0]
RUN_LIMIT = 75


class Unmodelled(Exception):
    pass


class Panic:
    def __init__(self, guard, where, what, fn):
        self.guard, self.where, self.what, self.fn = guard, where, what, fn

    def __repr__(self):
        return "%s at %s in %s when %s" % (self.what, self.where, self.fn, short(self.guard, 200))


class LoopRec:
    pass


class Interp:
    MAX_UNROLL = 64

    def __init__(self, prog, dims=None):
        self.prog = prog
        self.contracts = []  # functions (interp, calleeinfo, args, state, cond, term) -> result or None
        self.n = 0
        self.panics = []
        self.overflows = []
        self.loops = []
        self.base = True
        self.depth = 0
        self.unknowns = {}
        self.visited = {}
        self.unroll = 0
        self.fnstack = []
        self.calls = []
        self.dims = dims
        self.events = None
        self.notes = []
        import models
        self.models = models

    # -------------------------------------------------- symbolic inputs
    def fresh(self, tag="r"):
        self.n += 1
        return "%s%d" % (tag, self.n)

    def symval(self, key, ty, depth=0):
        """opaque value of type ty named by key"""
        name = keyname(key)
        t = self.prog.types.get(ty)
        if t is None:
            return opq(key, ty)
        k = t["k"]
        if k == "float":
            return pa(atom("sym", (name,)))
        if k in ("uint",):
            return pa(atom("sym", (name,), nonneg=True))
        if k in ("int", "char"):
            return pa(atom("sym", (name,)))
        if k == "bool":
            return boolsym(name, name)
        if k == "tuple":
            if not t["elems"]:
                return UNIT
            return tup(*[self.symval(key + (str(i),), e, depth + 1) for i, e in enumerate(t["elems"])])
        if k == "ref":
            return ref_of_value(self.symval(key, t["to"], depth + 1)) if False else opq(("ref",) + key, ty)
        if k == "adt":
            p = t["path"]
            if t.get("box"):
                return agg("box", 0, (self.symval(key, t["args"][0], depth + 1),))
            if p == "alloc::vec::Vec":
                return self.symvec(key, t["args"][0], depth)
            if p == "core::option::Option":
                inner = self.symval(key + ("some",), t["args"][0], depth + 1)
                return mknode(dec("var", name, (0, 1), name + ".is_some"), [none(), some(inner)])
            a = self.prog.adts.get(ty)
            if a and a.get("user") and depth < 12:
                if a["kind"] == "struct":
                    return agg(ty, 0, [self.symval(key + (f["name"],), f["ty"], depth + 1) for f in a["variants"][0]["fields"]])
                if a["kind"] == "enum":
                    vs = []
                    for vi, v in enumerate(a["variants"]):
                        vs.append(agg(ty, vi, [self.symval(key + (v["name"], f["name"]), f["ty"], depth + 1) for f in v["fields"]]))
                    if len(vs) == 1:
                        return vs[0]
                    return mknode(dec("var", name, tuple(range(len(vs))), name + ".variant"), vs)
        return opq(key, ty)

    def symvec(self, key, ety, depth=0):
        name = keyname(key)
        n = pa(atom("sym", ("len(%s)" % name,), nonneg=True))
        return tmpl(n, self.symelem(key, ety, IOTA, depth + 1))

    def symelem(self, key, ety, i, depth=0):
        """element i of an opaque vector"""
        t = self.prog.types.get(ety) or {"k": "?"}
        name = keyname(key)
        k = t["k"]
        if k in ("float", "int", "char"):
            return pa(atom("idx", (name, i)))
        if k == "uint":
            return pa(atom("idx", (name, i), nonneg=True))
        if k == "adt" and t["path"] == "core::option::Option":
            inner = self.symelem(key + ("some",), t["args"][0], i, depth + 1)
            return mknode(dec("var", ("elt", name, i), (0, 1), name + "[].is_some"), [none(), some(inner)])
        return opq(("elt", name, i), ety)

    # -------------------------------------------------- memory
    def alloc(self, st, v, tag="h"):
        r = self.fresh(tag)
        st.mem[r] = v
        return ref(r)

    def project(self, v, e, st=None):
        """apply one projection to a value"""
        def go(x):
            if x is UNDEF or isinstance(x, Unk):
                return x
            k = e[0]
            if k == "f":
                if isinstance(x, Agg):
                    if x.ty == "box":
                        return x  # Unique/NonNull wrappers of a box
                    if e[1] < len(x.fs):
                        return x.fs[e[1]]
                    return UNDEF
                if isinstance(x, (Ref, VRef)):
                    return x  # newtype wrappers around pointers
                if isinstance(x, Opq):
                    return self.opq_field(x, e[1], None)
                return unk("field of %s" % type(x).__name__)
            if k == "d":
                if isinstance(x, Agg):
                    return x if x.var == e[1] else UNDEF
                if isinstance(x, Opq):
                    return opq(("as", e[1], x.key), x.ty)
                return unk("downcast of %s" % type(x).__name__)
            if k == "b":
                if isinstance(x, Agg) and x.ty == "box":
                    return x.fs[0]
                return unk("unbox")
            if k == "i":
                if isinstance(x, VecV):
                    return lift(lambda i: i if (i is UNDEF or isinstance(i, Unk)) else vindex(x, i), e[1])
                return unk("index of %s" % type(x).__name__)
            if k == "sl":
                if isinstance(x, VecV):
                    r = lift(lambda a, b: vslice(x, a, b) or unk("slice"), e[1], e[2])
                    return r
                return unk("slice of")
            return unk("projection %s" % k)
        return lift(go, v)

    def opq_field(self, x, i, variant):
        t = self.prog.types.get(x.ty) if x.ty else None
        if t:
            if t["k"] == "tuple" and i < len(t["elems"]):
                return self.symval((x.key, str(i)), t["elems"][i])
            if t["k"] == "adt":
                a = self.prog.adts.get(x.ty)
                if a and len(a["variants"]) == 1 and i < len(a["variants"][0]["fields"]):
                    f = a["variants"][0]["fields"][i]
                    return self.symval((x.key, f["name"]), f["ty"])
                if isinstance(x.key, tuple) and x.key and x.key[0] == "as" and a:
                    vi = x.key[1]
                    if vi < len(a["variants"]) and i < len(a["variants"][vi]["fields"]):
                        f = a["variants"][vi]["fields"][i]
                        return self.symval((x.key[2], a["variants"][vi]["name"], f["name"]), f["ty"])
        return opq(("fld", i, x.key), None)

    def load(self, st, r):
        """value behind a reference value"""
        def go(x):
            if x is UNDEF or isinstance(x, Unk):
                return x
            if isinstance(x, VRef):
                return x.v
            if isinstance(x, Ref):
                v = st.mem.get(x.root, UNDEF)
                for e in x.path:
                    v = self.project(v, e)
                return v
            if isinstance(x, Opq):
                t = self.prog.types.get(x.ty) if x.ty else None
                if t and t["k"] in ("ref", "rawptr"):
                    key = x.key[1:] if isinstance(x.key, tuple) and x.key and x.key[0] == "ref" else ("*", x.key)
                    return self.symval(key, t["to"])
                return opq(("*", x.key), None)
            if isinstance(x, Agg) and x.ty == "box":
                return x.fs[0]
            if isinstance(x, StrV):
                return x
            return unk("deref of %s" % type(x).__name__)
        return lift(go, r)

    def update(self, v, path, val):
        if not path:
            return val
        e = path[0]

        def go(x):
            if x is UNDEF or isinstance(x, Unk):
                if x is UNDEF and e[0] in ("f",):
                    return UNDEF
                return x
            if e[0] == "f":
                if isinstance(x, Agg):
                    if x.ty == "box":
                        return self.update(x, path[1:], val)
                    if e[1] < len(x.fs):
                        return x.with_field(e[1], self.update(x.fs[e[1]], path[1:], val))
                    return unk("field store")
                return unk("field store into %s" % type(x).__name__)
            if e[0] == "d":
                if isinstance(x, Agg):
                    return self.update(x, path[1:], val) if x.var == e[1] else x
                return unk("variant store")
            if e[0] == "b":
                if isinstance(x, Agg) and x.ty == "box":
                    return agg("box", 0, (self.update(x.fs[0], path[1:], val),))
                return unk("box store")
            if e[0] == "i":
                if isinstance(x, VecV):
                    def gi(i):
                        if i is UNDEF or isinstance(i, Unk):
                            return unk("index store")
                        cur = vindex(x, i)
                        nv = self.update(cur, path[1:], val)
                        r = vstore(x, i, nv)
                        if r is None:
                            return Upd.make(x, i, nv)
                        return r
                    return lift(gi, e[1])
                if isinstance(x, Upd):
                    return unk("repeated index store")
                return unk("index store into %s" % type(x).__name__)
            return unk("store through %s" % e[0])
        return lift(go, v)

    def store(self, st, r, val):
        """store through a reference value; returns new state"""
        t = top(r)
        if t is None:
            if isinstance(r, Ref):
                ns = st.copy()
                if isinstance(r.root, str) and r.root.startswith("const:"):
                    return ns
                ns.mem[r.root] = self.update(st.mem.get(r.root, UNDEF), r.path, val)
                return ns
            if r is UNDEF:
                return st
            self.note("store through %r" % (r,))
            ns = st.copy()
            self.havoc_all(ns, "store through unknown reference")
            return ns
        sts = [self.store(st, cof(r, t, i), cof(val, t, i)) for i in range(len(t.outs))]
        return self.merge_dec(t, sts)

    def merge_dec(self, d, sts):
        roots = set()
        for s in sts:
            roots |= set(s.mem)
        ns = State()
        for x in roots:
            vs = [s.mem.get(x, UNDEF) for s in sts]
            if all(same(v, vs[0]) for v in vs):
                ns.mem[x] = vs[0]
            else:
                ns.mem[x] = case(d, vs)
        return ns

    def havoc_all(self, st, why):
        for k in list(st.mem):
            if k != LOG:
                st.mem[k] = unk(why)
        st.mem["tainted"] = unk(why)

    def note(self, s):
        self.notes.append(s)

    # -------------------------------------------------- events
    def emit(self, st, name, *args):
        st.mem[LOG] = lift(lambda l: vcat(l, items(agg("event:" + name, 0, args))) if isinstance(l, VecV) else unk("log"),
                           st.mem.get(LOG, EMPTY))

    def snap(self, st, v, depth=0):
        """deep snapshot of a value: references replaced by what they refer to"""
        if depth > 6:
            return v

        def go(x):
            if isinstance(x, (Ref, VRef)):
                y = self.load(st, x)
                return vref(self.snap(st, y, depth + 1))
            g = getattr(x, "map_parts", None)
            if g is not None and not isinstance(x, IterV):
                return g(lambda y: self.snap(st, y, depth + 1))
            return x
        return lift(go, v)

    # -------------------------------------------------- places and operands
    def place_ref(self, st, fr, p):
        """reference value for a MIR place"""
        r = ref(fr + ":" + str(p[0]))
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.load(st, r)
                r = self.deref_target(st, r, v)
            elif k == "f":
                r = self.extend(st, r, ("f", e[1]))
            elif k == "d":
                r = self.extend(st, r, ("d", e[1]))
            elif k == "i":
                i = st.mem.get(fr + ":" + str(e[1]), UNDEF)
                r = self.extend(st, r, ("i", i))
            elif k == "ci":
                if e[2]:
                    v = self.load(st, r)
                    n = self.vlen(v)
                    r = self.extend(st, r, ("i", sub(n, num(e[1]))))
                else:
                    r = self.extend(st, r, ("i", num(e[1])))
            elif k == "ss":
                v = self.load(st, r)
                n = self.vlen(v)
                end = sub(n, num(e[2])) if e[3] else num(e[2])
                r = self.extend(st, r, ("sl", num(e[1]), end))
            else:
                raise Unmodelled("place projection %s" % k)
        return r

    def deref_target(self, st, r, v):
        def go(x, rr):
            if isinstance(x, (Ref, VRef, Opq, StrV)) or x is UNDEF or isinstance(x, Unk):
                return x if not isinstance(x, Opq) else x
            if isinstance(x, Agg) and x.ty == "box":
                if isinstance(rr, Ref):
                    # drop newtype projections that were applied to the box
                    return ref(rr.root, self.strip_box(st, rr) + (("b",),), None)
                return vref(x.fs[0])
            return unk("deref of %s" % type(x).__name__)
        return lift(go, v, r)

    def strip_box(self, st, rr):
        """shortest prefix of the path whose value is already the box"""
        v = st.mem.get(rr.root, UNDEF)
        for n in range(len(rr.path) + 1):
            if isinstance(v, Agg) and v.ty == "box":
                return rr.path[:n]
            if n < len(rr.path):
                v = self.project(v, rr.path[n])
                if isinstance(v, Node):
                    return rr.path if n + 1 >= len(rr.path) else self._strip_slow(rr)
        return rr.path

    def _strip_slow(self, rr):
        p = list(rr.path)
        while p and p[-1] == ("f", 0) and len(p) >= 2 and p[-2] == ("f", 0):
            p.pop()
        return tuple(p)

    def extend(self, st, r, e):
        def go(x):
            if x is UNDEF or isinstance(x, Unk):
                return x
            if isinstance(x, Ref):
                if e[0] == "i" and isinstance(e[1], Node):
                    return lift(lambda i: ref(x.root, x.path + (("i", i),)), e[1])
                if e[0] == "i" and x.path and x.path[-1][0] == "sl":
                    a = x.path[-1][1]
                    return lift(lambda i, aa: ref(x.root, x.path[:-1] + (("i", padd(i, aa)),)), e[1], a)
                return ref(x.root, x.path + (e,))
            if isinstance(x, VRef):
                return vref(self.project(x.v, e))
            if isinstance(x, Opq):
                v = self.load(st, x)
                return vref(self.project(v, e))
            return unk("place through %s" % type(x).__name__)
        return lift(go, r)

    def read_place(self, st, fr, p):
        v = st.mem.get(fr + ":" + str(p[0]), UNDEF)
        if not p[1]:
            return v
        return self.load(st, self.place_ref(st, fr, p))

    def write_place(self, st, fr, p, val):
        if not p[1]:
            st.mem[fr + ":" + str(p[0])] = val
            return st
        return self.store(st, self.place_ref(st, fr, p), val)

    def vlen(self, v):
        return lift(lambda x: x.length() if isinstance(x, VecV) else (x if x is UNDEF or isinstance(x, Unk) else (
            pa(atom("len", (x.key,), nonneg=True)) if isinstance(x, Opq) else unk("len of %s" % type(x).__name__))), v)

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            v = self.read_place(st, fr, o["p"])
            return v
        return self.constant(st, o)

    def constant(self, st, o):
        k = o["k"]
        if k == "scalar":
            t = self.prog.types.get(o["ty"], {"k": "?"})
            b = int(o["bits"])
            if t["k"] == "float":
                return nice_float(b, o["size"])
            if t["k"] == "bool":
                return bool(b)
            if t["k"] == "int":
                n = o["size"] * 8
                if b >= 1 << (n - 1):
                    b -= 1 << n
                return num(b)
            if t["k"] in ("uint", "char"):
                return num(b)
            if t["k"] == "adt":
                a = self.prog.adts.get(o["ty"])
                if a and a["kind"] == "enum":
                    return agg(o["ty"], b, ()) if b < len(a["variants"]) else unk("enum const")
            return opq(("bits", b, o["ty"]), o["ty"])
        if k == "fn":
            return fnv(o["f"])
        if k == "zst":
            t = self.prog.types.get(o["ty"], {"k": "?"})
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "fndef":
                return fnv({"path": t["path"], "args": t["args"]})
            return agg(o["ty"], 0, ())
        if k == "str":
            return vref(strv(o["s"]))
        if k == "refto":
            return vref(self.constmem(st, o["v"]))
        if k in ("list", "struct", "tuple"):
            return self.constmem(st, o)
        if k == "const":
            return self.const_body(o)
        if k == "static":
            return opq(("static", o["path"]), o["ty"])
        if k == "rtcheck":
            return True
        if k == "opaque":
            t = self.prog.types.get(o["ty"], {"k": "?"})
            if t["k"] == "adt" and t["path"] == "core::option::Option" and "None" in o["s"]:
                return none()
            return opq(("const", o["s"]), o["ty"])
        return unk("constant %s" % k)

    def constmem(self, st, v):
        if v is None:
            return unk("const memory")
        if v["k"] == "list":
            return items(*[self.constmem(st, x) for x in v["items"]])
        if v["k"] == "tuple":
            return tup(*[self.constmem(st, x) for x in v["items"]])
        if v["k"] == "struct":
            return agg(v["ty"], 0, [self.constmem(st, x) for x in v["items"]])
        return self.constant(st, v)

    _cb = None

    def const_body(self, o):
        if self._cb is None:
            self._cb = {}
        key = o["key"]
        if key in self._cb:
            return self._cb[key]
        b = self.prog.consts.get(key)
        if not b:
            return opq(("const", key), o["ty"])
        self._cb[key] = unk("recursive const")
        st = State()
        sub_i = Interp.__new__(type(self))
        sub_i.__dict__.update(self.__dict__)
        sub_i.panics = []
        sub_i.overflows = []
        sub_i.base = True
        try:
            v, st2, c = sub_i.run_body(b, [], st, "const:" + key, keep=True)
            self.n = sub_i.n
            v = self.freeze(st2, v)
        except Unmodelled as e:
            v = unk(str(e))
        self._cb[key] = v
        return v

    def freeze(self, st, v):
        def go(x):
            if isinstance(x, Ref):
                return vref(self.freeze(st, self.load(st, x)))
            if isinstance(x, VRef):
                return x
            g = getattr(x, "map_parts", None)
            if g is not None:
                return g(lambda y: self.freeze(st, y))
            return x
        return lift(go, v)

    # -------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, body, dest_ty):
        k = r["k"]
        if k == "use":
            o = r["o"]
            if o["k"] == "copy" and o["p"][1] and self.prog.types.get(dest_ty, {}).get("box"):
                # a box is never copied as such: this is the pointer taken by an elaborated `**box`
                rr = self.place_ref(st, fr, o["p"])
                return lift(lambda x: ref(x.root, x.path + (("b",),)) if isinstance(x, Ref) else (
                    vref(self.load(st, x).fs[0]) if isinstance(x, VRef) and isinstance(self.load(st, x), Agg) else x), rr)
            return self.operand(st, fr, o)
        if k == "ref":
            p = r["p"]
            rr = self.place_ref(st, fr, p)
            return rr
        if k == "bin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(r["op"], a, b, self.op_type(r["a"], body, fr))
        if k == "un":
            a = self.operand(st, fr, r["a"])
            if r["op"] == "Neg":
                return neg(a)
            if r["op"] == "Not":
                return lift(lambda x: (not x) if isinstance(x, bool) else (x if x is UNDEF or isinstance(x, Unk) else unk("bitnot")), a)
            if r["op"] == "PtrMetadata":
                return self.vlen(self.load(st, a))
            return unk("unop " + r["op"])
        if k == "discr":
            v = self.read_place(st, fr, r["p"])

            def dg(x):
                if isinstance(x, Agg):
                    if x.ty == "core::cmp::Ordering":
                        return num(x.var - 1)
                    return num(x.var)
                if x is UNDEF or isinstance(x, Unk):
                    return x
                if isinstance(x, Opq):
                    return self.opq_variant(x)
                return unk("discriminant of %s" % type(x).__name__)
            return lift(dg, v)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            ak = r["ak"]
            if ak["k"] == "tuple":
                return tup(*ops) if ops else UNIT
            if ak["k"] == "array":
                return items(*ops)
            if ak["k"] == "adt":
                ty = ak["ty"]
                t = self.prog.types.get(ty, {})
                p = ak["path"]
                if p == "core::option::Option":
                    return agg("core::option::Option", ak["v"], ops)
                if p == "core::result::Result":
                    return agg("core::result::Result", ak["v"], ops)
                if p in ("core::cmp::Ordering", "core::ops::control_flow::ControlFlow"):
                    return agg(p, ak["v"], ops)
                if t.get("box"):
                    return agg("box", 0, ops[:1])
                return agg(ty, ak["v"], ops)
            if ak["k"] == "closure":
                return agg("closure:" + str(ak["inst"]), 0, ops)
            if ak["k"] == "rawptr":
                return ops[0]
            return unk("aggregate " + ak["k"])
        if k == "cast":
            if r["ck"].startswith("BoxDeref") and r["o"]["k"] in ("copy", "move"):
                # the raw pointer into a box: a reference to its content
                rr = self.place_ref(st, fr, r["o"]["p"])
                l = leaf1(rr)
                if isinstance(l, Ref) and rr is l:
                    pre = self.strip_box(st, l)
                    x = self.load(st, ref(l.root, pre))
                    if isinstance(x, Agg) and x.ty == "box":
                        return ref(l.root, pre + (("b",),))
            v = self.operand(st, fr, r["o"])
            return self.cast(st, v, r, body, fr)
        if k == "repeat":
            v = self.operand(st, fr, r["o"])
            return tmpl(num(r["n"]), v) if r["n"] is not None else unk("repeat")
        return unk("rvalue " + k)

    def opq_variant(self, x):
        t = self.prog.types.get(x.ty) if x.ty else None
        n = 2
        if t and t["k"] == "adt":
            a = self.prog.adts.get(x.ty)
            if a:
                n = len(a["variants"])
        if n == 1:
            return num(0)
        return mknode(dec("var", ("opq", x.key), tuple(range(n)), "variant(%s)" % keyname((x.key,))), [num(i) for i in range(n)])

    def op_type(self, o, body, fr):
        if o["k"] in ("copy", "move"):
            return self.place_type(body["locals"][o["p"][0]], o["p"][1])
        if o["k"] == "scalar":
            return o["ty"]
        return None

    def place_type(self, ty, proj):
        """type of a place, None when not known"""
        var = 0
        for e in proj:
            t = self.prog.types.get(ty)
            if t is None:
                return None
            k = e[0]
            if k == "*":
                ty = t["args"][0] if t.get("box") else t.get("to")
            elif k == "d":
                var = e[1]
                continue
            elif k in ("i", "ci"):
                ty = t.get("elem")
            elif k == "f" and t["k"] == "tuple":
                ty = t["elems"][e[1]] if e[1] < len(t["elems"]) else None
            elif k == "f" and t["k"] == "adt":
                a = self.prog.adts.get(ty)
                fs = a["variants"][var]["fields"] if a and var < len(a["variants"]) else []
                ty = fs[e[1]]["ty"] if e[1] < len(fs) else None
            else:
                return None
            var = 0
            if ty is None:
                return None
        return ty

    def binop(self, op, a, b, ty=None):
        t = self.prog.types.get(ty) if ty else None
        if t is not None and t["k"] == "bool" or isinstance(leaf1(a), bool) or isinstance(leaf1(b), bool):
            if op in ("BitAnd",):
                return vand(a, b)
            if op in ("BitOr",):
                return vor(a, b)
            if op in ("BitXor", "Ne"):
                return bool_op(lambda x, y: x != y)(a, b)
            if op == "Eq":
                return bool_op(lambda x, y: x == y)(a, b)
            return unk("bool op " + op)
        f = {"Add": add, "Sub": sub, "Mul": mul, "AddUnchecked": add, "SubUnchecked": sub, "MulUnchecked": mul,
             "Lt": lt, "Le": le, "Gt": gt, "Ge": ge, "Eq": eq, "Ne": ne}.get(op)
        if f:
            return f(a, b)
        if op == "Div":
            if t is not None and t["k"] in ("uint", "int"):
                return num_op(_idiv if t["k"] == "uint" else _sdiv)(a, b)
            return div(a, b)
        if op == "Rem":
            if t is not None and t["k"] == "uint":
                return urem(a, b)
            return num_op(_srem)(a, b)
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            k = leaf1(b)
            k = k.const() if isinstance(k, Poly) else None
            if k is not None and 0 <= k < 128 and int(k) == k:
                if op[2] == "l" and (leaf1(a).const() if isinstance(leaf1(a), Poly) else None) is not None:
                    return mul(a, num(2 ** int(k)))
                if op[2] == "r" and t is not None and t["k"] == "uint":
                    return num_op(_idiv)(a, num(2 ** int(k)))
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = (q.const() if isinstance(q, Poly) else None for q in (leaf1(a), leaf1(b)))
            if x is not None and y is not None and isinstance(a, Poly) and isinstance(b, Poly) and x >= 0 and y >= 0 and int(x) == x and int(y) == y:
                return num({"BitAnd": int(x) & int(y), "BitOr": int(x) | int(y), "BitXor": int(x) ^ int(y)}[op])
            if op == "BitAnd" and t is not None and t["k"] == "uint":
                for p, q, m in ((a, b, y), (b, a, x)):
                    if isinstance(q, Poly) and m is not None and m >= 0 and int(m) == m and int(m) & (int(m) + 1) == 0:
                        return urem(p, num(int(m) + 1))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            g = {"A": add, "S": sub, "M": mul}[op[0]]
            r = g(a, b)
            return tup(r, self.overflow(r, t))
        return unk("binop " + op)

    RANGES = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2 ** 32 - 1), "i8": (-128, 127), "i16": (-32768, 32767)}

    def overflow(self, r, t):
        n = t["n"] if t else None
        if n in self.RANGES:
            lo, hi = self.RANGES[n]
            return vor(lt(r, num(lo)), gt(r, num(hi)))
        if n in ("usize", "u64", "u128"):
            return lt(r, ZERO)
        return False

    def narrow(self, b, loc):
        t = self.prog.types.get(b["locals"][loc], {"k": "?"})
        e = self.prog.types.get(t["elems"][0], {"k": "?"}) if t["k"] == "tuple" and t["elems"] else {"k": "?"}
        return e.get("n") in self.RANGES

    def cast(self, st, v, r, body, fr):
        ck = r["ck"]
        to = self.prog.types.get(r["ty"], {"k": "?"})
        if "Unsize" in ck:
            dyn = None
            # remember the concrete type behind a trait object
            if to["k"] == "ref":
                tt = self.prog.types.get(to["to"], {"k": "?"})
                if tt["k"] == "dyn":
                    src = self.op_type(r["o"], body, fr)
                    s = self.prog.types.get(src) if src else None
                    if s and s["k"] == "ref" and self.prog.types.get(s["to"], {}).get("k") != "dyn":
                        dyn = s["to"]
            if dyn:
                def go(x):
                    if isinstance(x, Ref):
                        return ref(x.root, x.path, dyn)
                    return x
                return lift(go, v)
            return v
        if ck.startswith("IntToFloat"):
            return v
        if ck.startswith("FloatToInt"):
            def ti(x):
                if isinstance(x, Poly):
                    c = x.const()
                    if c is not None:
                        return num(int(c))
                    return pa(atom("app", ("trunc", (x,), None), nonneg=(to["k"] == "uint")))
                return x
            return lift(ti, v)
        if ck.startswith("IntToInt"):
            if isinstance(leaf1(v), bool):
                return lift(lambda x: num(1 if x else 0) if isinstance(x, bool) else x, v)
            lo, hi = self.RANGES.get(to.get("n"), (None, None))
            def ii(x):
                if isinstance(x, Poly):
                    c = x.const()
                    if lo is None or (c is not None and lo <= c <= hi):
                        return x
                    src = self.op_type(r["o"], body, fr)
                    s = self.prog.types.get(src) if src else None
                    if s and s.get("n") == to.get("n"):
                        return x
                    return pa(atom("app", ("wrap:" + to["n"], (x,), None), nonneg=lo == 0))
                return x
            return lift(ii, v)
        if ck.startswith("FloatToFloat"):
            return v
        if ck.startswith("PtrToPtr") or ck.startswith("BoxDeref") or ck.startswith("Transmute") or ck.startswith("PointerCoercion") or "Subtype" in ck:
            return v
        return unk("cast " + ck)

    # -------------------------------------------------- CFG
    def cfg(self, b):
        c = b.get("_cfg")
        if c is None:
            succ = []
            for bl in b["blocks"]:
                succ.append(self.succs(bl["t"]) if not bl["c"] else [])
            c = {"succ": succ, "loops": {}}
            b["_cfg"] = c
        return c

    @staticmethod
    def succs(t):
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        if k == "switch":
            return [x[1] for x in t["ts"]] + [t["else"]]
        return []

    def run_top(self, b, args, st, name):
        try:
            DEADLINE[0] = time.time() + RUN_LIMIT
            try:
                return self.run_body(b, args, st, name)
            finally:
                DEADLINE[0] = 0
        except OverTime:
            raise Unmodelled("the analysis of %s takes too long" % name)
        except (Unmodelled, MemoryError):
            raise
        except Exception as e:  # noqa: BLE001 - a construct the interpreter cannot cope with: no summary of this function
            import traceback
            raise Unmodelled("%r %s" % (e, traceback.format_exc()[-400:])) from e

    def run_body(self, b, args, st, name, keep=False):
        """evaluate a body; returns (value, state, returncond)"""
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Unmodelled("call depth")
        try:
            fr = self.fresh("F")
            st = st.copy()
            for i, a in enumerate(args):
                st.mem["%s:%d" % (fr, i + 1)] = a
            self.visited[name] = self.visited.get(name, 0) + 1
            self.fnstack.append(name)
            nb = len(b["blocks"])
            outs = self.region(b, fr, frozenset(range(nb)), 0, True, st, None)
            rets = [(c, s) for (t, c, s) in outs if t == "ret"]
            self.fnstack.pop()
            if not rets:
                return UNDEF, State({LOG: st.mem.get(LOG, EMPTY)}), False
            cond, ns = self.merge(rets)
            v = ns.mem.get(fr + ":0", UNIT if b["locals"][0] == "()" else UNDEF)
            if b["locals"][0] == "()":
                v = UNIT
            # drop the frame, except storage that may be referenced by the result (never in safe code)
            pre = fr + ":"
            ns = State({k: x for k, x in ns.mem.items() if keep or not k.startswith(pre)})
            return v, ns, cond
        finally:
            self.depth -= 1

    def merge(self, ins):
        """merge mutually exclusive (cond, state) pairs"""
        ins = [(c, s) for c, s in ins if c is not False and c is not UNDEF]
        if not ins:
            return False, State()
        if len(ins) == 1:
            c, s = ins[0]
            return c, s
        total = False
        for c, _ in ins:
            total = vor(total, c)
        roots = {}
        for _, s in ins:
            for k in s.mem:
                roots[k] = 1
        ns = State()
        memo = {}
        for k in roots:
            vs = [s.mem.get(k, UNDEF) for _, s in ins]
            if all(same(v, vs[0]) for v in vs):
                ns.mem[k] = vs[0]
                continue
            r = vs[-1]
            for (c, _), v in zip(reversed(ins[:-1]), reversed(vs[:-1])):
                r = ite(c, v, r)
            if total is not True:
                r = constrain(r, total)
            ns.mem[k] = r
        return total, ns

    def scc(self, succ, nodes, entry):
        """SCCs of the subgraph reachable from entry (edges to `entry` ignored), in topological order"""
        index, low, onst, stack, out = {}, {}, set(), [], []
        counter = [0]

        def strong(v):
            work = [(v, iter([w for w in succ[v] if w in nodes and w != entry]))]
            index[v] = low[v] = counter[0]
            counter[0] += 1
            stack.append(v)
            onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = counter[0]
                        counter[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter([x for x in succ[w] if x in nodes and x != entry])))
                        adv = True
                        break
                    elif w in onst:
                        low[u] = min(low[u], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    out.append(comp)
        strong(entry)
        out.reverse()
        return out

    def region(self, b, fr, nodes, entry, cond, st, header):
        """evaluate the blocks `nodes` from entry; edges leaving, or returning to the header, are the result"""
        succ = self.cfg(b)["succ"]
        if header is None and any(entry in succ[n] for n in nodes):
            # the function entry is itself a loop header: treat as loop
            comp = [c for c in self.scc_full(succ, nodes, entry) if entry in c][0]
            if len(comp) > 1 or entry in succ[entry]:
                outs = self.loop(b, fr, frozenset(comp), entry, cond, st)
                return self.continue_from(b, fr, nodes - frozenset(comp), outs)
        order = self.scc(succ, nodes, entry)
        return self.sweep(b, fr, nodes, order, {entry: [(cond, st)]}, entry, header)

    def scc_full(self, succ, nodes, entry):
        g = {n: [w for w in succ[n] if w in nodes] for n in nodes}
        import networkx as nx
        G = nx.DiGraph()
        for n in g:
            for w in g[n]:
                G.add_edge(n, w)
        return list(nx.strongly_connected_components(G))

    def continue_from(self, b, fr, nodes, outs):
        raise Unmodelled("entry block is a loop header")

    def sweep(self, b, fr, nodes, order, pend, entry, header):
        succ = self.cfg(b)["succ"]
        result = []

        def send(t, c, s):
            if c is False or c is UNDEF:
                return
            if t == "ret" or t not in nodes or t == header:
                result.append((t, c, s))
            else:
                pend.setdefault(t, []).append((c, s))

        for comp in order:
            selfloop = len(comp) == 1 and comp[0] in succ[comp[0]] and comp[0] != header
            if len(comp) == 1 and not selfloop:
                n = comp[0]
                ins = pend.pop(n, [])
                if not ins:
                    continue
                c, s = self.merge(ins)
                if c is False:
                    continue
                for (t, c2, s2) in self.block(b, fr, n, c, s):
                    send(t, c2, s2)
            else:
                heads = [n for n in comp if n in pend]
                if not heads:
                    continue
                if len(heads) > 1:
                    raise Unmodelled("irreducible loop")
                h = heads[0]
                c, s = self.merge(pend.pop(h))
                if c is False:
                    continue
                for (t, c2, s2) in self.loop(b, fr, frozenset(comp), h, c, s):
                    send(t, c2, s2)
        return result

    def block(self, b, fr, n, cond, st):
        bl = b["blocks"][n]
        st = st.copy()
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                dest_ty = b["locals"][s[1][0]] if not s[1][1] else None
                v = self.rvalue(st, fr, s[2], b, dest_ty)
                st = self.write_place(st, fr, s[1], v)
                self.moved(st, fr, s[2])
            elif k == "dead":
                st.mem.pop("%s:%d" % (fr, s[1]), None)
            elif k == "sd":
                pr = self.place_ref(st, fr, s[1])
                v = self.load(st, pr)
                st = self.store(st, pr, lift(lambda x: agg(x.ty, s[2], x.fs) if isinstance(x, Agg) else unk("setdiscr"), v))
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], cond, st)]
        if k == "drop":
            if not t["p"][1]:
                st.mem.pop("%s:%d" % (fr, t["p"][0]), None)
            return [(t["t"], cond, st)]
        if k == "ret":
            return [("ret", cond, st)]
        if k in ("unreachable", "resume"):
            return []
        if k == "switch":
            return self.switch(b, fr, t, cond, st)
        if k == "assert":
            v = self.operand(st, fr, t["c"])
            ok = lift(lambda x: (x == t["e"]) if isinstance(x, bool) else x, v)
            if t["m"] == "pointer":
                return [(t["t"], cond, st)]  # cannot fail in safe code
            if t["m"] == "overflow" and t["c"]["k"] in ("copy", "move") and self.narrow(b, t["c"]["p"][0]):
                # counters of bounded width: kept apart, the analysed path goes on
                npan = len(self.panics)
                self.may_panic(ok, cond, t.get("sp"), "assert " + t["m"])
                self.overflows += self.panics[npan:]
                del self.panics[npan:]
                return [(t["t"], cond, st)]
            c2 = self.may_panic(ok, cond, t.get("sp"), "assert " + t["m"])
            return [(t["t"], c2, st)]
        if k == "call":
            return self.call_term(b, fr, t, cond, st)
        raise Unmodelled("terminator " + k)

    def may_panic(self, ok, cond, sp, what):
        """record a panic where ok is false; return the continuing condition"""
        if ok is True:
            return cond
        if isinstance(ok, Node):
            ok = lift(lambda x: True if x is UNDEF else x, ok)  # no value there: the path is infeasible
            if ok is True:
                return cond
        if isinstance(ok, Unk) or (isinstance(ok, Node) and has_unk(ok)):
            self.panics.append(Panic(unk("guard"), sp, what, self.fnstack[-1] if self.fnstack else "?"))
            self.panics[-1].raw = ok
            return cond
        g = vand(cond, vnot(ok))
        if g is not False:
            g2 = vand(self.base, g)
            if g2 is not False and g2 is not UNDEF:
                self.panics.append(Panic(g2, sp, what, self.fnstack[-1] if self.fnstack else "?"))
        return vand(cond, ok)

    def moved(self, st, fr, r):
        # moved-from locals are dead
        ops = []
        if r["k"] == "use":
            ops = [r["o"]]
        elif r["k"] == "agg":
            ops = r["ops"]
        for o in ops:
            if o["k"] == "move" and not o["p"][1]:
                st.mem.pop("%s:%d" % (fr, o["p"][0]), None)

    def switch(self, b, fr, t, cond, st):
        v = self.operand(st, fr, t["o"])
        ty = self.prog.types.get(t["ty"], {"k": "?"})
        outs = []
        rest = True
        if ty["k"] == "bool" or isinstance(leaf1(v), bool):
            v = lift(lambda x: num(1 if x else 0) if isinstance(x, bool) else x, v)
        bad = first_unk(v)
        if bad is not None:
            # unknown condition: every target may be reached; values merged there become unknown
            self.unknowns.setdefault(bad.why, 0)
            self.unknowns[bad.why] += 1
        acc = []
        for val, tgt in t["ts"]:
            val = int(val)
            if ty["k"] == "int" and val >= 1 << 63:
                val -= 1 << 64
            c = eq(v, num(val))
            c = vand(rest, c)
            acc.append((tgt, c))
            rest = vand(rest, vnot(eq(v, num(val))))
        acc.append((t["else"], rest))
        for tgt, c in acc:
            c = totalize(c)
            c2 = vand(cond, c)
            if c2 is False or c2 is UNDEF:
                continue
            outs.append((tgt, c2, self.refine(st, c, c2)))
        return outs

    def refine(self, st, c, c2):
        return st

    # -------------------------------------------------- loops
    def loop(self, b, fr, nodes, h, cond, st):
        exits = []
        c = True
        s = st
        base0 = self.base
        self.base = vand(base0, cond)
        budget = self.MAX_UNROLL
        extra = self.unroll
        h, s = self.rotate(b, fr, nodes, h, s)
        st = s
        npan, nover, ncalls = len(self.panics), len(self.overflows), len(self.calls)
        try:
            while True:
                base1 = self.base
                self.base = vand(vand(base0, cond), c)
                mark = len(self.panics)
                omark = len(self.overflows)
                outs = self.region(b, fr, nodes, h, True, s, h)
                self.base = base1
                back = [(c2, s2) for (t, c2, s2) in outs if t == h]
                ex = [(t, c2, s2) for (t, c2, s2) in outs if t != h]
                cb, sb = self.merge(back) if back else (False, None)
                # without another exit the loop goes on unless it panics
                cont_known = cb is False or cb is True or all(c2 is False for (_, c2, _) in ex)
                if not cont_known and extra <= 0:
                    # not decided: summarise from the state at the start of this iteration
                    del self.panics[mark:]
                    del self.overflows[omark:]
                    self.base = vand(vand(base0, cond), c)
                    for (t, c2, s2) in self.summarise(b, fr, nodes, h, s):
                        exits.append((t, vand(c, c2), s2))
                    break
                for (t, c2, s2) in ex:
                    exits.append((t, vand(c, c2), s2))
                if cb is False:
                    break
                if not cont_known:
                    extra -= 1
                    sb = self.constrain_state(sb, cb)
                    if extra <= 0 and self.unroll:
                        # bounded look: drop the remaining iterations
                        self.cut = vand(c, cb)
                        break
                c = vand(c, cb)
                s = sb
                budget -= 1
                if budget <= 0:
                    # a constant but large number of rounds: summarise the whole loop instead
                    del self.panics[npan:]
                    del self.overflows[nover:]
                    del self.calls[ncalls:]
                    self.base = vand(base0, cond)
                    exits = self.summarise(b, fr, nodes, h, st)
                    break
        finally:
            self.base = base0
        return [(t, vand(cond, c2), s2) for (t, c2, s2) in exits if c2 is not False]

    def constrain_state(self, s, c):
        memo = {}
        return State({k: constrain(v, c, memo) for k, v in s.mem.items()})

    def summarise(self, b, fr, nodes, h, s0):
        """loop with undecided continuation, entered at h with state s0"""
        return self.summarise_fn(lambda head: self.region(b, fr, nodes, h, True, head, h), h, s0, b["blocks"][h]["t"].get("sp"))

    def rotate(self, b, fr, nodes, h, s0):
        """a test at the head of the loop that is decided on entry (`while !done`, `while found.is_none()`) is looked at
        from behind: the loop is cut after it, so that what the round just run has set decides it"""
        succ = self.cfg(b)["succ"]
        marks = len(self.panics), len(self.overflows), len(self.calls)
        cur, s, seen = h, s0, set()
        while cur not in seen and len(seen) < 10:
            seen.add(cur)
            outs = [o for o in self.block(b, fr, cur, True, s) if o[1] is not False and o[1] is not UNDEF]
            if len(outs) != 1 or outs[0][1] is not True or outs[0][0] not in nodes or outs[0][0] in seen:
                break
            t, _, s = outs[0]
            if b["blocks"][cur]["t"]["k"] == "switch" and any(x not in nodes and not self.dead_end(b, x) for x in succ[cur]):
                return t, s
            cur = t
        del self.panics[marks[0]:]
        del self.overflows[marks[1]:]
        del self.calls[marks[2]:]
        return h, s0

    @staticmethod
    def dead_end(b, n):
        return b["blocks"][n]["t"]["k"] == "unreachable"

    def synth(self, st, n, body, step, cond):
        """iterate step over the elements body[ι:=0..n) of a uniform template"""
        root = self.fresh("it")
        s0 = st.copy()
        s0.mem[root] = ZERO

        def reg(head):
            pos = head.mem[root]
            c = lt(pos, n)
            outs = []
            if c is not True:
                outs.append(("done", vnot(c), head))
            s2, c2 = step(head.copy(), vsubst(body, {0: pos}), c)
            s2 = s2.copy()
            s2.mem[root] = padd(pos, ONE)
            outs.append(("h", vand(c, c2), s2))
            return outs
        base0 = self.base
        self.base = vand(base0, cond)
        try:
            outs = self.summarise_fn(reg, "h", s0, None)
        finally:
            self.base = base0
        c, s = self.merge([(c, s) for _, c, s in outs])
        return s

    def panic_here(self, cond, sp, what):
        self.may_panic(False, cond, sp, what)

    def extend_box(self, st, r):
        def go(x):
            if isinstance(x, Ref):
                return ref(x.root, x.path + (("b",),))
            if isinstance(x, VRef):
                return vref(lift(lambda y: y.fs[0] if isinstance(y, Agg) and y.ty == "box" else y, x.v))
            return x
        return lift(go, r)

    def snapkey(self, st, args):
        return tuple(self.freeze(st, a) for a in args)

    def summarise_fn(self, region, h, s0, span):
        self.n += 1
        lid = self.n
        if isinstance(self.base, Node):
            # counters and positions with a case distinction that the way into the loop settles
            memo = {}
            m2 = {k: constrain(v, self.base, memo) for k, v in s0.mem.items()
                  if isinstance(v, Node) and isinstance(leaf1(v), Poly) or isinstance(v, IterV) and isinstance(v.pos, Node)}
            if m2:
                s0 = State({**s0.mem, **m2})
        kappa = pa(atom("mu", (lid, "κ"), nonneg=True))
        kid = kappa.t[0][0][0][0]
        locs = {}     # (root, path) -> class id
        known = {}    # closed forms (root,path) -> value in κ
        npan = len(self.panics)
        nover = len(self.overflows)
        nloops = len(self.loops)

        def run(head):
            del self.panics[npan:]
            del self.overflows[nover:]
            del self.loops[nloops:]
            outs = region(head)
            back = [(c2, s2) for (t, c2, s2) in outs if t == h]
            ex = [(t, c2, s2) for (t, c2, s2) in outs if t != h]
            cb, sb = self.merge(back) if back else (False, None)
            if cb is not False:
                sb = self.constrain_state(sb, cb)
            return cb, sb, ex

        def header():
            hs = s0.copy()
            for (root, path), cid in locs.items():
                v0 = getpath(s0.mem.get(root, UNDEF), path)
                if (root, path) in known:
                    m = known[(root, path)]
                else:
                    m = self.mu_value((lid, cid), v0, root, path)
                    if (root, path) in updmode and isinstance(v0, VecV):
                        m = tmpl(v0.length(), museq((lid, cid)))
                hs.mem[root] = setpath(hs.mem.get(root, UNDEF), path, m)
            return hs

        updmode = set()
        # 1. modified locations, with optimistic congruence classes by initial value
        nextcls = [0]
        clsinit = {}

        def newcls(v0):
            k = _k(v0)
            if k not in clsinit:
                nextcls[0] += 1
                clsinit[k] = "%d" % nextcls[0]
            return clsinit[k]

        for rnd in range(40):
            hs = header()
            cb, sb, ex = run(hs)
            if cb is False:
                return ex
            changed = False
            for root in list(sb.mem):
                if root not in s0.mem:
                    continue  # body-local
                for path in self.diffpaths(hs.mem.get(root, UNDEF), sb.mem[root], ()):
                    # already covered?
                    if any(r == root and path[:len(p)] == p for (r, p) in locs):
                        continue
                    # a coarser location replaces finer ones
                    for (r, p) in [x for x in locs if x[0] == root and x[1][:len(path)] == path]:
                        del locs[(r, p)]
                    locs[(root, path)] = newcls(getpath(s0.mem[root], path))
                    changed = True
            dead = [x for x in locs if x[0] not in sb.mem]
            for x in dead:
                pass
            if changed:
                continue
            # split classes whose members step differently
            trans = {}
            for (root, path), cid in locs.items():
                trans.setdefault(cid, {})[(root, path)] = getpath(sb.mem.get(root, UNDEF), path)
            split = False
            for cid, mem in trans.items():
                groups = {}
                for l, tv in mem.items():
                    groups.setdefault(_k(tv), []).append(l)
                if len(groups) > 1:
                    for g in list(groups.values())[1:]:
                        nextcls[0] += 1
                        for l in g:
                            locs[l] = "%d" % nextcls[0]
                    split = True
            if split:
                continue
            upd = [l for l in locs if l not in updmode and isinstance(getpath(sb.mem.get(l[0], UNDEF), l[1]), Upd)]
            if upd:
                updmode.update(upd)
                continue
            break
        else:
            raise Unmodelled("loop state does not stabilise")
        # 2. closed forms
        unsolved = set(locs)
        progress = True
        mu_ids = lambda: {a.id for a in ATOMS if a.kind == "mu" and a.args[0] == lid and a.args[1] != "κ"}
        while progress and unsolved:
            progress = False
            hs = header()
            cb, sb, ex = run(hs)
            mids = mu_ids()
            for l in list(unsolved):
                root, path = l
                v0 = getpath(s0.mem.get(root, UNDEF), path)
                m = getpath(hs.mem.get(root, UNDEF), path)
                tv = getpath(sb.mem.get(root, UNDEF), path) if root in sb.mem else UNDEF
                cf = self.close(l, v0, m, tv, kappa, kid, mids, lid)
                if cf is not None:
                    known[l] = cf
                    unsolved.discard(l)
                    progress = True
        # final evaluation with all closed forms in place
        hs = header()
        cb, sb, ex = run(hs)
        mids = mu_ids()
        rec = LoopRec()
        rec.fn = self.fnstack[-1] if self.fnstack else "?"
        rec.header = hs
        rec.init = s0
        rec.back = (cb, sb)
        rec.exits = ex
        rec.unsolved = unsolved
        rec.locs = dict(locs)
        rec.kappa = kappa
        rec.lid = lid
        rec.span = span
        rec.base = self.base
        self.loops.append(rec)
        # counted exit?
        if not unsolved and len(ex) == 1:
            t, ce, se = ex[0]
            n = self.trip_count(ce, kid)
            if n is not None:
                m = {kid: n}
                ns = State({k: vsubst(v, m) for k, v in se.mem.items()})
                rec.count = n
                self.patch_panics(npan, kid, n)
                return [(t, True, ns)]
        rec.count = None
        return self.finish_open_exits(ex, kid)

    def finish_open_exits(self, ex, kid):
        return ex

    def patch_panics(self, start, kid, n):
        pass

    def trip_count(self, ce, kid):
        """exit condition  not (κ < N)  with N free of κ"""
        if not isinstance(ce, Node) or ce.dec.kind != "sign":
            return None
        p = ce.dec.key
        lin = [(m, c) for m, c in p.t if any(a == kid for a, _ in m)]
        if len(lin) != 1 or lin[0][0] != ((kid, 1),):
            return None
        k = lin[0][1]
        n = pscale(padd(p, mk({lin[0][0]: k}), -1), -1 / k)
        if kid in n.free:
            return None
        lo, z, hi = ce.ch
        if k < 0:
            lo, hi = hi, lo
        # lo: κ < N, z: κ = N, hi: κ > N
        if isinstance(lo, Node) and z is True and (hi is True or hi is UNDEF):
            # several limits: the first one reached counts
            m = self.trip_count(lo, kid)
            if m is None:
                return None
            n = n if psign(n) in (1, "n", 0) else pmax([n, ZERO])
            return pmin([n, m])
        if lo is False and z is True and (hi is True or hi is UNDEF):
            if psign(n) in (1, "n", 0):
                return n
            return pmax([n, ZERO])
        if lo is False and z is False and hi is True:
            n = padd(n, ONE)
            return n if psign(n) in (1, "n", 0) else pmax([n, ZERO])
        return None

    def mu_value(self, tag, v0, root, path):
        lid, cid = tag
        l = leaf1(v0)
        name = (lid, cid)
        if isinstance(l, Poly):
            nn = all_nonneg(v0)
            return pa(atom("mu", name))
        if isinstance(l, bool):
            return mknode(dec("bool", ("mu",) + name, (0, 1), "μ%s" % (cid,)), [False, True])
        if isinstance(l, VecV):
            return vec([("t", pa(atom("mu", name + ("len",), nonneg=True)), museq(name))])
        if isinstance(l, Agg) and l.ty in ("core::option::Option", "core::result::Result"):
            return opq(("mu",) + name, None)
        if isinstance(l, IterV):
            return unk("iterator in loop")
        if isinstance(l, VRef) and isinstance(leaf1(l.v), Poly):
            return vref(self.mu_value(tag, l.v, root, path))
        return unk("loop-carried %s" % type(l).__name__)

    def diffpaths(self, a, b, path):
        """paths at which two values differ"""
        if same(a, b):
            return []
        if isinstance(a, Agg) and isinstance(b, Agg) and a.shape() == b.shape():
            out = []
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                out += self.diffpaths(x, y, path + (("f", i),))
            return out
        if isinstance(a, IterV) and isinstance(b, IterV) and a.v is b.v:
            return [path + (("pos",),)]
        return [path]

    def close(self, l, v0, m, tv, kappa, kid, mids, lid):
        def clean(x):
            return not (_free2(x) & mids)
        if tv is UNDEF:
            return UNDEF
        if isinstance(m, VRef) and isinstance(tv, VRef) and isinstance(v0, VRef):
            c = self.close(l, v0.v, m.v, tv.v, kappa, kid, mids, lid)
            return vref(c) if c is not None and c is not UNDEF else None
        if isinstance(m, Poly) and isinstance(tv, Poly) and len(m.t) == 1:
            d = padd(tv, m, -1)
            if clean(d):
                if not isinstance(v0, Poly):
                    return None
                if kid not in d.free:
                    return padd(v0, pmul(kappa, d))
                body = psubst(d, {kid: IOTA})
                return padd(v0, psum(kappa, body))
        if isinstance(m, Poly) and isinstance(tv, Node) and isinstance(v0, Poly):
            d = sub(tv, m)
            if clean(d):
                body = vsubst(d, {kid: IOTA})
                if not first_unk(body):
                    return padd(v0, pa(atom("sum", (kappa, body))))
        if isinstance(m, VecV) and isinstance(tv, VecV) and isinstance(v0, VecV) and len(m.segs) == 1:
            if len(tv.segs) == 2 and tv.segs[0][0] == "t" and tv.segs[0] == m.segs[0] and tv.segs[1][0] == "i" and len(tv.segs[1][1]) == 1:
                e = tv.segs[1][1][0]
                ln = m.length()
                if not clean(e) and isinstance(ln, Poly) and len(ln.t) == 1:
                    # one element more in every round
                    e = vsubst(e, {ln.t[0][0][0][0]: padd(v0.length(), kappa)})
                if clean(e):
                    return vcat(v0, tmpl(kappa, vsubst(e, {kid: IOTA})))
        if isinstance(tv, Upd) and isinstance(m, VecV) and tv.v is m and tv.i is kappa and isinstance(v0, VecV) and len(m.segs) == 1 and m.segs[0][0] == "t":
            cur = vindex(m, kappa)
            old = vindex(v0, kappa)
            e = tv.x
            if isinstance(cur, Poly) and len(cur.t) == 1:
                e = vsubst(e, {**idmap(cur), cur.t[0][0][0][0]: old}) if isinstance(old, Poly) else e
            if clean(e):
                return tmpl(v0.length(), ite(lt(IOTA, kappa), vsubst(e, {kid: IOTA}), vindex(v0, IOTA)))
        if clean(tv) and kid not in _free2(tv):
            # assigned the same value by every iteration
            s = sign_of(kappa)
            return lift(lambda x: v0 if x == 0 else tv, s)
        if clean(tv):
            # value of the previous iteration
            prev = vsubst(tv, {kid: padd(kappa, ONE, -1)})
            return lift(lambda x: v0 if x == 0 else prev, sign_of(kappa))
        return None

    # -------------------------------------------------- calls
    def call_term(self, b, fr, t, cond, st):
        f = t["f"]
        if f["k"] in ("copy", "move"):
            fv = self.operand(st, fr, f)
            fi = None
        else:
            fv = None
            fi = f["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        for a in t["args"]:
            if a["k"] == "move" and not a["p"][1]:
                st.mem.pop("%s:%d" % (fr, a["p"][0]), None)
        if fi is None:
            def one(x, c):
                if not isinstance(x, FnV):
                    raise Unmodelled("indirect call")
                return self.call(x.f, args, st, c, t)
            r = self.each_leaf(fv, st, cond, one)
        else:
            r = self.call(fi, args, st, cond, t)
        if r is None:
            return []
        v, st2, c2 = r
        if t["t"] is None:
            return []
        c3 = vand(cond, c2)
        if c3 is False or c3 is UNDEF:
            return []
        st2 = self.write_place(st2 if st2 is not st else st.copy(), fr, t["dest"], v)
        return [(t["t"], c3, st2)]

    def each_leaf(self, v, st, cond, f):
        """f(leaf, cond) -> (value, state, cond) for every alternative of v, merged"""
        if not isinstance(v, Node):
            return f(v, cond)
        ls = []

        def see(x):
            if x is not UNDEF and not any(x is y for y in ls):
                ls.append(x)
            return x
        lift(see, v)
        if len(ls) == 1:
            return f(ls[0], cond)
        if not ls or len(ls) > 12:
            raise Unmodelled("too many alternatives")
        res, ins, cont = None, [], False
        for x in ls:
            k = lift(lambda y, x=x: y is x, v)
            q = f(x, vand(cond, k))
            if q is None:
                continue
            res = q[0] if res is None else ite(k, q[0], res)
            ins.append((vand(k, q[2]), q[1]))
            cont = vor(cont, vand(k, q[2]))
        if res is None:
            return None
        return res, self.merge(ins)[1], cont

    def call(self, fi, args, st, cond, t):
        """returns (value, state, continuing condition relative to the call)"""
        for c in self.contracts:
            r = c(self, fi, args, st, cond, t)
            if r is not None:
                return r
        if "ctor" in fi:
            p, vi = fi["ctor"]
            if p in ("core::option::Option", "core::result::Result"):
                return agg(p, vi, args), st, True
            return agg(t["rty"] if t else p, vi, args), st, True
        # trait object receiver
        if fi.get("trait") and args:
            if isinstance(args[0], Node):
                ds = set()
                lift(lambda x: (ds.add(x.dyn if isinstance(x, Ref) else None), x)[1], args[0])
                if len(ds) > 1 and any(ds):
                    return self.each_leaf(args[0], st, cond, lambda x, c: self.call(fi, [x] + list(args[1:]), st, c, t))
            dyn = self.dyn_type(args[0])
            if dyn and self.prog.types.get((fi.get("args") or [None])[0], {}).get("k") == "dyn":
                k = self.prog.method(dyn, fi["trait"], fi["name"])
                if k:
                    return self.call_fn(k, args, st, cond)
        inst = fi.get("inst")
        if inst and inst in self.prog.fns and (fi.get("trait") or "") not in FN_TRAITS:
            # trait methods on dyn types resolve to themselves
            if not (self.prog.types.get((fi.get("args") or [None])[0], {}).get("k") == "dyn" and fi.get("trait")):
                if self.fnstack and self.fnstack[-1] == inst and self.endless(inst, t):
                    return UNDEF, st, self.may_panic(False, cond, (t or {}).get("sp"), "calls itself without end")
                return self.call_fn(inst, args, st, cond)
        r = self.models.external(self, fi, args, st, cond, t)
        if r is not None:
            return r
        why = "call to %s" % (fi.get("rpath") or fi.get("path"))
        self.unknowns[why] = self.unknowns.get(why, 0) + 1
        ns = st.copy()
        for a, ty in zip(args, t["aty"] if t else []):
            tt = self.prog.types.get(ty, {"k": "?"})
            if tt["k"] in ("ref", "rawptr") and tt.get("mut"):
                self.calls.append(("havoc", why))
                ns = self.store(ns, a, unk(why)) if isinstance(leaf1(a), Ref) else ns
        return unk(why), ns, True

    def dyn_type(self, a):
        l = leaf1(a)
        if isinstance(l, Ref):
            return l.dyn
        return None

    def endless(self, key, t):
        """every way through the function passes its call t of itself"""
        bl = self.prog.fns[key]["blocks"]
        at = [i for i, x in enumerate(bl) if x["t"] is t]
        if len(at) != 1:
            return False
        seen, todo = set(), [0]
        while todo:
            i = todo.pop()
            if i in seen or i == at[0]:
                continue
            seen.add(i)
            if bl[i]["t"]["k"] in ("return", "ret"):
                return False
            todo += self.succs(bl[i]["t"])
        return at[0] not in seen

    def call_fn(self, key, args, st, cond):
        if key in self.fnstack and self.fnstack.count(key) > 3:
            raise Unmodelled("recursion in " + key)
        base = self.base
        self.base = vand(base, cond)
        b = self.prog.fns[key]
        try:
            v, ns, c = self.run_body(b, args, st, key)
        finally:
            self.base = base
        return v, ns, c

    def call_closure(self, f, args, st, cond):
        """call a function-like value with already untupled arguments"""
        f0 = f
        while isinstance(f, (Ref, VRef)):
            f = self.load(st, f)
        if isinstance(f, FnV):
            t = {"aty": [], "rty": None, "t": 0, "sp": None}
            return self.call(f.f, args, st, cond, t)
        if isinstance(f, Agg) and f.ty.startswith("closure:"):
            key = f.ty[len("closure:"):]
            b = self.prog.fns.get(key)
            if b is None:
                return unk("closure body"), st, True
            ety = self.prog.types.get(b["locals"][1], {"k": "?"})
            if ety["k"] == "ref":
                if isinstance(f0, Ref):
                    env = f0
                    ns = st
                else:
                    ns = st.copy()
                    env = self.alloc(ns, f, "clo")
            else:
                env, ns = f, st
            return self.call_fn(key, [env] + list(args), ns, cond)
        return unk("call of %s" % type(f).__name__), st, True


# calls through these pass their arguments as a tuple
FN_TRAITS = ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn")


class Upd:
    """vector with one element overwritten at a symbolic index (only used inside loops)"""
    __slots__ = ("v", "i", "x", "free")
    tab = {}

    @staticmethod
    def make(v, i, x):
        k = (id(v), id(i), _k(x))
        r = Upd.tab.get(k)
        if r is None:
            r = Upd()
            r.v, r.i, r.x = v, i, x
            from terms import _free
            r.free = _free(v) | _free(i) | _free(x)
            Upd.tab[k] = r
        return r

    def fp(self):
        return ("upd", self.v.fp(), self.i.fp())

    def subst(self, m):
        return Upd.make(vsubst(self.v, m), vsubst(self.i, m), vsubst(self.x, m))


def _free2(x):
    from terms import _free
    return _free(x)


def museq(name):
    """generic element of a loop-carried sequence"""
    return pa(atom("idx", (("mu",) + name + (pa(atom("mu", name + ("seq",))),), IOTA)))


def idmap(p):
    """identity substitution of the loop-carried sequences in p (makes a substitution of one of their elements descend)"""
    return {a: pa(ATOMS[a]) for a in p.free if ATOMS[a].kind == "mu" and ATOMS[a].args[-1] == "seq"}


def _idiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return num(ca // cb)
    if cb == 1:
        return a
    return pa(atom("app", ("idiv", (a, b), None), nonneg=True))


def _sdiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb >= 0) else -q)
    if cb == 1:
        return a
    return pa(atom("app", ("sdiv", (a, b), None)))


def urem(a, b):
    """remainder of unsigned integers: the number itself below a constant divisor"""
    r = num_op(_irem)(a, b)
    cb = leaf1(b).const() if isinstance(leaf1(b), Poly) else None
    if cb and isinstance(leaf1(a), Poly) and leaf1(a).const() is None and cb > 1:
        return ite(lt(a, b), a, r)
    return r


def _irem(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb and ca >= 0 and cb > 0:
        return num(ca % cb)
    if cb == 1:
        return num(0)
    return pa(atom("app", ("rem", (a, b), None), nonneg=True))


def _srem(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return num(abs(ca) % abs(cb) * (1 if ca >= 0 else -1))
    return pa(atom("app", ("srem", (a, b), None)))


def leaf1(v):
    while isinstance(v, Node):
        for c in v.ch:
            if c is not UNDEF:
                v = c
                break
        else:
            return UNDEF
    return v


def first_unk(v):
    if isinstance(v, Unk):
        return v
    if isinstance(v, Node):
        for c in v.ch:
            r = first_unk(c)
            if r is not None:
                return r
    return None


def all_nonneg(v):
    if isinstance(v, Poly):
        return psign(v) in (0, 1, "n")
    if isinstance(v, Node):
        return all(all_nonneg(c) for c in v.ch)
    return False


def totalize(c):
    """a condition with unknown leaves: keep as an unknown boolean decision"""
    def go(x):
        if isinstance(x, Unk):
            return boolsym(("?", x.why), "?" + x.why)
        return x
    if isinstance(c, (Unk,)) or (isinstance(c, Node) and first_unk(c) is not None):
        return lift(go, c)
    return c


def keyname(key):
    if isinstance(key, str):
        return key
    if isinstance(key, tuple):
        return ".".join(keyname(k) for k in key)
    return str(key)


def getpath(v, path):
    for e in path:
        if v is UNDEF or isinstance(v, Unk):
            return v
        if e[0] == "f":
            v = lift(lambda x: x.fs[e[1]] if isinstance(x, Agg) and e[1] < len(x.fs) else (x if x is UNDEF or isinstance(x, Unk) else UNDEF), v)
        elif e[0] == "pos":
            v = lift(lambda x: x.pos if isinstance(x, IterV) else UNDEF, v)
    return v


def setpath(v, path, nv):
    if not path:
        return nv
    e = path[0]
    if e[0] == "f":
        return lift(lambda x: x.with_field(e[1], setpath(x.fs[e[1]], path[1:], nv)) if isinstance(x, Agg) else x, v)
    if e[0] == "pos":
        return lift(lambda x: mkiter(x.v, nv) if isinstance(x, IterV) else x, v)
    return v


def ref_of_value(v):
    return vref(v)
