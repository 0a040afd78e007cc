"""P19: the serialised form of every type, and the reader that goes with it."""
import re
from interp import *
from checks.base import *
from checks.files import iorun, failed, logpred, is_unk
from iomodel import IO, plain, result_parts, errv, RES
import iomodel

SER = "serde_core::ser::Serialize"
DE = "serde_core::de::Deserialize"
VIS = "serde_core::de::Visitor"


def nolife(t):
    return re.sub(r"<'\w+>", "", re.sub(r"'\w+, ", "", t))


class Serde(IO):
    """serde's data-model calls.  script: keys handed out by next_key (None: not a map); tag: variant handed out"""

    def __init__(self, I, keys=None, tag=None, total=False):
        super().__init__(I)
        self.keys = keys          # list of (key value, name)
        self.tag = tag
        self.total = total        # every call succeeds
        self.seen = []            # reader calls: (name, args, fi)
        self.elems = {}

    def res(self, op, key, okv, cond, st, ev=None):
        if self.total:
            if ev:
                st = st.copy()
                self.I.emit(st, *ev)
            return agg(RES, 0, (okv,)), st, True
        return self.result(op, key, okv, cond, st, ev)

    def count_ev(self, st, what):
        l = st.mem.get(LOG, EMPTY)
        if not isinstance(l, VecV) or any(s[0] != "i" for s in l.segs):
            return None
        return sum(1 for s in l.segs for e in s[1] if e.ty == "event:" + what)

    def __call__(self, fi, rp, name, A, st, cond, t):
        I = self.I
        tr = fi.get("trait") or ""
        S = lambda i: plain(I, st, A[i])
        if tr.startswith("serde_core::ser::Serialize") or tr == "serde_core::ser::Serializer":
            if name == "serialize_struct":
                return self.res(name, (), opq(("ser", "struct"), None), cond, st, ("struct", S(1), S(2)))
            if name in ("serialize_struct_variant", "serialize_tuple_variant"):
                return self.res(name, (), opq(("ser", "struct"), None), cond, st, ("svariant", S(1), S(2), S(3), S(4)))
            if name == "serialize_newtype_variant":
                return self.res(name, (), opq(("ser", "ok"), None), cond, st, ("nvariant", S(1), S(2), S(3), S(4)))
            if name == "serialize_unit_variant":
                return self.res(name, (), opq(("ser", "ok"), None), cond, st, ("uvariant", S(1), S(2), S(3)))
            if name == "serialize_newtype_struct":
                return self.res(name, (), opq(("ser", "ok"), None), cond, st, ("nstruct", S(1), S(2)))
            if name == "serialize_field":
                if len(A) == 3:
                    return self.res(name, (S(1),), UNIT, cond, st, ("field", S(1), S(2)))
                return self.res(name, (S(1),), UNIT, cond, st, ("item", S(1)))
            if name == "skip_field":
                return self.res(name, (S(1),), UNIT, cond, st, ("skip", S(1)))
            if name == "end":
                return self.res(name, (), opq(("ser", "ok"), None), cond, st, ("end",))
            if name == "serialize" and self.top != (fi.get("inst") or ""):
                return None
        if tr == "serde_core::de::Error" or name in ("missing_field", "duplicate_field", "unknown_field", "invalid_length") and "serde" in rp:
            if name == "missing_field" and tr != "serde_core::de::Error":
                ty = fi["args"][0]
                opt = I.prog.types.get(ty, {}).get("path") == "core::option::Option"
                return (agg(RES, 0, (none(),)) if opt else agg(RES, 1, (errv("missing"),))), st, True
            return errv(name), st, True
        if tr == "serde_core::de::Deserializer":
            self.seen.append((name, [S(i) if i and i < len(A) - 1 else None for i in range(len(A))], fi))
            rt = I.prog.types.get((t or {}).get("rty") or "", {})
            ty = (rt.get("args") or [None])[0]
            return self.res(name, (), I.symval(("read",), ty) if ty else opq(("read",), None), cond, st)
        if tr == "serde_core::de::SeqAccess" and name == "next_element":
            n = self.count_ev(st, "element")
            if n is None:
                return None
            ty = fi["args"][-1]
            v = self.elems.setdefault(n, I.symval(("element%d" % n,), ty))
            s = st.copy()
            I.emit(s, "element")
            b = self.outcome("element", (num(n),), cond)
            p = boolsym(("present", n), "element %d is there" % n)
            return ite(b, agg(RES, 0, (ite(p, some(v), none()),)), agg(RES, 1, (errv("element"),))), s, True
        if tr == "serde_core::de::MapAccess" and self.keys is not None:
            if name == "next_key":
                n = self.count_ev(st, "key")
                if n is None:
                    return None
                s = st.copy()
                I.emit(s, "key")
                return agg(RES, 0, (some(self.keys[n][0]) if n < len(self.keys) else none(),)), s, True
            if name == "next_value":
                n = self.count_ev(st, "key")
                if not n:
                    return None
                ty = fi["args"][-1]
                return agg(RES, 0, (I.symval(("value of " + self.keys[n - 1][1],), ty),)), st, True
        if tr == "serde_core::de::EnumAccess" and name == "variant" and self.tag is not None:
            return agg(RES, 0, (tup(self.tag, opq(("variant access",), None)),)), st, True
        if tr == "serde_core::de::VariantAccess":
            self.seen.append((name, [S(i) if i == 1 else None for i in range(len(A))], fi))
            if name == "newtype_variant":
                return agg(RES, 0, (I.symval(("payload",), fi["args"][-1]),)), st, True
            if name == "unit_variant":
                return agg(RES, 0, (UNIT,)), st, True
            if name == "struct_variant":
                return agg(RES, 0, (agg("via", 0, (strv(nolife(fi["args"][-1])),)),)), st, True
        return super().__call__(fi, rp, name, A, st, cond, t)

    top = ""


def srun(r, prog, key, inst, args=(), **kw):
    """like iorun, with serde's calls modelled"""
    if key is None:
        r.violation("anchor:" + inst, inst, "the implementation this property is about is gone")
        return None
    I = Interp(prog)
    io = I.events = Serde(I, **kw)
    I.MAX_UNROLL = max(I.MAX_UNROLL, len(kw.get("keys") or ()) + 8)
    try:
        x = Run(prog, key, args, I=I)
    except Unmodelled as e:
        r.undecided(inst, "not analysable: %s" % e)
        return None
    x.io = io
    x.log = lambda: x.end.mem.get(LOG, EMPTY) if x.end else UNDEF
    r.saw(*I.visited)
    return x


def method(prog, ty, tr, name):
    """key of a trait method, lifetimes in the type ignored"""
    w = nolife(ty)
    ks = sorted(k for (t, q, n), l in prog.methods.items() if q == tr and n == name and nolife(t or "") == w for k in l)
    return ks[0] if ks else None


def types(prog):
    return sorted({i["self"] for i in prog.impls if i["trait"] == SER and "::deserialize::" not in i["self"] and i["self"] in prog.adts})


def texts(v):
    """list of strings of a constant &[&str]"""
    if isinstance(v, VecV) and all(s[0] == "i" for s in v.segs):
        out = []
        for s in v.segs:
            for e in s[1]:
                e = e.v if isinstance(e, VRef) else e
                if not isinstance(e, StrV):
                    return None
                out.append(e.s)
        return out
    return None


def told_apart(r, prog, ty, nm, vs):
    """no two variants with the same payload are written by the very same calls: the reader could not tell them apart"""
    key = prog.method(ty, SER, "serialize")
    runs = []
    for k, v in enumerate(vs):
        val = agg(ty, k, [Interp(prog).symval(("v", f["name"]), f["ty"]) for f in v["fields"]])
        x = srun(r, prog, key, "%s::%s is written" % (nm, v["name"]), [val])
        if x is None or x.end is None:
            continue
        runs.append((v, x, vand(x.cond, vnot(failed(x)))))
    for i, (v, x, c) in enumerate(runs):
        for w, y, d in runs[:i]:
            if [(f["name"], f["ty"]) for f in v["fields"]] != [(f["name"], f["ty"]) for f in w["fields"]]:
                continue

            def same(a):
                def other(b):
                    if len(a) != len(b) or any(p[0] != q[0] or len(p) != len(q) for p, q in zip(a, b)):
                        return False
                    for p, q in zip(a, b):
                        for s, t in zip(p[1:], q[1:]):
                            m = compare(s, t, True)
                            if m:
                                return unk(repr(m[0])) if m[0].kind != "definite" else False
                    return True
                return logpred(y.log(), other)
            m = compare(logpred(x.log(), same), False, vand(c, d))
            inst = "%s: %s and %s are told apart" % (nm, w["name"], v["name"])
            if m and m[0].kind == "definite":
                r.violation(inst, x.where, "both are written as %s" % brief(x.log()))
            elif not m:
                r.ok(inst)


def writes(r, prog, ty, inst, val, want, x=None):
    """serialisation of val makes exactly the calls in want"""
    key = prog.method(ty, SER, "serialize")
    x = srun(r, prog, key, inst + " is written", [val])
    if x is None:
        return
    if x.end is None:
        r.violation(inst + " is written", x.where, "never returns normally")
        return
    okc, _ = result_parts(x.ret())
    care = vand(x.cond, vnot(failed(x)))

    def same(ev):
        if len(ev) != len(want):
            return False
        for e, w in zip(ev, want):
            if e[0] != w[0] or len(e) != len(w):
                return False
            for a, b in zip(e[1:], w[1:]):
                if isinstance(a, Agg) and "__SerializeWith" in str(a.ty):
                    return unk("field written through a helper")
                m = compare(a, b, True)
                if m:
                    return unk(repr(m[0])) if m[0].kind != "definite" else False
        return True
    ok = logpred(x.log(), same)
    d = compare(ok, True, care)
    if d and d[0].kind == "definite":
        # say which entries differ
        r.violation(inst + " is written with every field, in order, under its own name", x.where, "writes %s, expected %s" % (brief(x.log()), [w[:2] for w in want]))
    elif d:
        r.undecided(inst + " is written with every field, in order, under its own name", repr(d[0]))
    else:
        r.ok(inst + " is written with every field, in order, under its own name", "%d calls" % len(want))
    r.check(inst + " is written whenever the writer accepts every part", x.where, compare(okc, True, care))


def brief(l):
    out = []
    if isinstance(l, VecV):
        for s in l.segs:
            if s[0] == "i":
                out += ["%s %s" % (e.ty[6:], e.fs[0] if e.fs else "") if isinstance(e, Agg) else repr(e)[:80] for e in s[1]]
        return "[%s]" % ", ".join(out)
    return "different calls on different paths: " + repr(l)[:300]


def field_tag(r, prog, fty, name, inst):
    """the field identifier the reader derives from a name"""
    vis = None
    key = method(prog, fty, DE, "deserialize")
    if key is None:
        return None
    x = srun(r, prog, key, inst)
    if x is None or not x.io.seen:
        return None
    vt = x.io.seen[0][2]["args"][-1]
    k2 = method(prog, vt, VIS, "visit_str")
    if k2 is None:
        return None
    I = Interp(prog)
    I.events = Serde(I)
    y = Run(prog, k2, [None, vref(strv(name))], I=I)
    r.saw(*I.visited)
    okc, v = result_parts(y.ret())
    if okc is not True:
        return ("rejects",)
    k3 = method(prog, vt, VIS, "visit_u64")
    return v, k3, vt


def reads(r, prog, ty, vty, inst, mk, fs):
    """visitor vty builds mk(values of fs) from a sequence and from a map"""
    nm = [f["name"] for f in fs]
    key = method(prog, vty, VIS, "visit_seq")
    x = srun(r, prog, key, inst + " is read by position")
    if x is not None and x.end is not None:
        okc, v = result_parts(x.ret())
        el = [x.I.symval(("element%d" % k,), f["ty"]) for k, f in enumerate(fs)]
        there = True
        for k in range(len(fs)):
            there = vand(there, boolsym(("present", k), "element %d is there" % k))
        nf = vnot(failed(x))
        good = vand(x.cond, vand(nf, there))
        r.check(inst + " is read by position when complete", x.where, compare(okc, True, good))
        r.check(inst + ", read by position, has every entry in its own field", x.where, compare(v, mk(el), vand(x.cond, okc)))
        r.check(inst + ", read by position, is refused when an entry is missing", x.where, compare(okc, False, vand(x.cond, vand(nf, vnot(there)))))
        r.check(inst + ", read by position, reports a malformed entry", x.where, compare(okc, False, vand(x.cond, failed(x))))
    elif x is not None:
        r.violation(inst + " is read by position", x.where, "never returns normally")
    key = method(prog, vty, VIS, "visit_map")
    if key is None:
        r.violation("anchor:" + inst + " is read by name", inst, "the reader has no visit_map")
        return
    # which identifier type does the reader ask for
    b = prog.fns[key]
    fty = None
    for bl in b["blocks"]:
        t = bl["t"]
        f = (t.get("f") or {}).get("f") or {} if t["k"] == "call" else {}
        if f.get("trait") == "serde_core::de::MapAccess" and f.get("name") == "next_key":
            fty = f["args"][-1]
    if fty is None:
        r.undecided(inst + " is read by name", "no next_key call")
        return
    tags = {}
    for n in nm:
        t = field_tag(r, prog, fty, n, inst + " identifiers")
        if t is None:
            r.undecided(inst + " is read by name", "identifier of %s not understood" % n)
            return
        if t[0] == "rejects":
            r.violation(inst + " knows its field " + n, key, "the reader rejects the name %s" % n)
            return
        tags[n] = t[0]
    orders = [("in order", nm), ("in reverse order", nm[::-1]), ("rotated", nm[1:] + nm[:1])]
    for lab, ks in orders:
        x = srun(r, prog, key, inst + " is read by name " + lab, keys=[(tags[n], n) for n in ks], total=True)
        if x is None or x.end is None:
            if x is not None:
                r.violation(inst + " is read by name " + lab, x.where, "never returns normally")
            continue
        okc, v = result_parts(x.ret())
        want = mk([x.I.symval(("value of " + f["name"],), f["ty"]) for f in fs])
        r.check(inst + " is accepted by name, " + lab, x.where, compare(vand(x.cond, okc), True, True))
        r.check(inst + ", read by name " + lab + ", has every entry in its own field", x.where, compare(v, want, vand(x.cond, okc)))
    for k, f in enumerate(fs):
        if len(fs) > 24 and k % 9 and k != len(fs) - 1:
            continue        # every ninth entry of the widest types, and the last
        opt = prog.types.get(f["ty"], {}).get("path") == "core::option::Option"
        ks = [n for n in nm if n != f["name"]]
        x = srun(r, prog, key, inst, keys=[(tags[n], n) for n in ks], total=True)
        if x is None:
            continue
        okc, v = result_parts(x.ret())
        if opt:
            r.check("%s without an entry %s leaves it empty" % (inst, f["name"]), x.where, compare(v, mk([none() if g is f else x.I.symval(("value of " + g["name"],), g["ty"]) for g in fs]), vand(x.cond, okc)))
        else:
            r.check("%s without an entry %s is refused" % (inst, f["name"]), x.where, compare(okc, False, x.cond))


def p19(r, tier):
    r.rule("For each type with a serialiser, the compiled serialiser makes exactly the serde calls 'begin, one per field in declaration order under the field's own name with the field's value, end' (per variant for the solver "
           "setting); the compiled reader, fed the same entries by position or by name in three orders, builds exactly the value with each entry in its own field, and refuses input from which any one non-optional entry is missing; "
           "the field and variant lists announced to the format are the same names in the same order.")
    r.assume("serde_json, serde_yaml and bincode implement serde's data model: entries come back under the names or positions they were written")
    n = 0
    for cfg, need in (("std", 15), ("probe", 14)):
        prog = core.prog(cfg)
        ts = [t for t in types(prog) if cfg == "std" or t.startswith("dess_probe")]
        r.floor("serialisable types" + (" (probe)" if cfg != "std" else ""), len(ts), need)
        n += one_program(r, prog, ts)
    r.floor("serialised shapes", n, 21)


def expect(r, inst, where, got, want):
    if got is None:
        r.undecided(inst, "list not constant")
    elif got == want:
        r.ok(inst, ", ".join(want))
    else:
        r.violation(inst, where, "announces %s, the fields are %s" % (got, want))


def one_program(r, prog, ts):
    n = 0
    for ty in ts:
        nm = short_ty(ty)
        a = prog.adts[ty]
        if a["kind"] != "struct":
            told_apart(r, prog, ty, nm, a["variants"])
        key = prog.method(ty, DE, "deserialize")
        x = srun(r, prog, key, nm + " is read")
        if x is None:
            continue
        if len(x.io.seen) != 1:
            r.undecided(nm + " is read", "reader makes %d requests to the format" % len(x.io.seen))
            continue
        call, args, fi = x.io.seen[0]
        vty = fi["args"][-1]
        if a["kind"] == "struct":
            fs = a["variants"][0]["fields"]
            I = Interp(prog)
            val = I.symval(("v",), ty)
            want = [("struct", strv(nm), num(len(fs)))] + [("field", strv(f["name"]), plain(I, State(), part(val, k))) for k, f in enumerate(fs)] + [("end",)]
            writes(r, prog, ty, nm, val, want)
            n += 1
            if call != "deserialize_struct":
                r.undecided(nm + " is read", "reader asks for %s" % call)
                continue
            l = texts(args[2])
            expect(r, nm + " announces its fields to the format", x.where, l, [f["name"] for f in fs])
            reads(r, prog, ty, vty, nm, lambda vs, ty=ty: agg(ty, 0, tuple(vs)), fs)
            continue
        # an enum
        vs = a["variants"]
        if call != "deserialize_enum":
            r.undecided(nm + " is read", "reader asks for %s" % call)
            continue
        expect(r, nm + " announces its variants to the format", x.where, texts(args[2]), [v["name"] for v in vs])
        vkey = method(prog, vty, VIS, "visit_enum")
        fty = None
        if vkey:
            for bl in prog.fns[vkey]["blocks"]:
                t = bl["t"]
                f = (t.get("f") or {}).get("f") or {} if t["k"] == "call" else {}
                if f.get("trait") == "serde_core::de::EnumAccess" and f.get("name") == "variant":
                    fty = f["args"][-1]
        if fty is None:
            r.undecided(nm + " is read", "no visit_enum/variant")
            continue
        for k, v in enumerate(vs):
            inst = "%s::%s" % (nm, v["name"])
            I = Interp(prog)
            fs = v["fields"]
            val = agg(ty, k, [I.symval(("v", f["name"]), f["ty"]) for f in fs])
            tuple_like = all(f["name"].isdigit() for f in fs)
            if not fs:
                want = [("uvariant", strv(nm), num(k), strv(v["name"]))]
            elif tuple_like and len(fs) == 1:
                want = [("nvariant", strv(nm), num(k), strv(v["name"]), plain(I, State(), val.fs[0]))]
            elif tuple_like:
                r.undecided(inst, "tuple variant")
                continue
            else:
                want = [("svariant", strv(nm), num(k), strv(v["name"]), num(len(fs)))] + \
                    [("field", strv(f["name"]), plain(I, State(), val.fs[j])) for j, f in enumerate(fs)] + [("end",)]
            writes(r, prog, ty, inst, val, want)
            n += 1
            t = field_tag(r, prog, fty, v["name"], inst + " identifier")
            if t is None or t[0] == "rejects":
                (r.violation if t else r.undecided)(*([inst + " is known to the reader", fty, "the reader rejects the variant name"] if t else [inst + " is known to the reader", "identifier not understood"]))
                continue
            tag, u64, fvt = t
            if u64:
                I2 = Interp(prog)
                I2.events = Serde(I2)
                y = Run(prog, u64, [None, num(k)], I=I2)
                okc, w = result_parts(y.ret())
                r.check(inst + " has the same identifier by index as by name", y.where, compare(ite(okc, w, unk("refused")) if okc is not True else w, tag, True))
            y = srun(r, prog, vkey, inst + " is read", tag=tag)
            if y is None or y.end is None:
                continue
            okc, got = result_parts(y.ret())
            if tuple_like and len(fs) == 1:
                r.check(inst + " is read back as itself", y.where, compare(ite(okc, got, unk("refused")) if okc is not True else got, agg(ty, k, (y.I.symval(("payload",), fs[0]["ty"]),)), y.cond))
            elif not fs:
                r.check(inst + " is read back as itself", y.where, compare(got, agg(ty, k, ()), y.cond))
            else:
                got = got if okc is True else UNDEF
                if isinstance(got, Agg) and got.ty == "via":
                    sv = [c for c in y.io.seen if c[0] == "struct_variant"]
                    inner = got.fs[0].s
                    l = next((texts(c[1][1]) for c in sv if nolife(c[2]["args"][-1]) == inner), None)
                    expect(r, inst + " announces its fields to the format", y.where, l, [f["name"] for f in fs])
                    reads(r, prog, ty, inner, inst, lambda q, ty=ty, k=k: agg(ty, k, tuple(q)), fs)
                else:
                    r.undecided(inst + " is read", "variant payload not requested as a struct")
    return n
