"""Effects of the file, serialisation and conversion functions of std, serde_*, bincode, anyhow and pyo3.

Every fallible operation yields a result that is Ok or Err by an unknown of its own (its *outcome*); operations on files
are also entered in the event log, with the path, format and value involved.
"""
from interp import *
import models
from models import deref, final_ref, is_bad, opt_norm, split_opt, OPT, RES, UNIT

FMT = {"serde_json": "json", "serde_yaml": "yaml", "bincode": "bincode"}


def file_(path, mode):
    return agg("io:file", 0, (path, strv(mode)))


def text_(fmt, v):
    return agg("io:text", 0, (strv(fmt), v))


def val_(fmt, src):
    return agg("io:val", 0, (strv(fmt), src))


def content_(path):
    return agg("io:content", 0, (path,))


def plain(I, st, v):
    """value behind any number of references and boxes"""
    v = deref(I, st, v)
    while isinstance(v, Agg) and v.ty == "box" and len(v.fs) == 1:
        v = deref(I, st, v.fs[0])

    def strip(x):
        if isinstance(x, (Ref, VRef)):
            return plain(I, st, x)
        return x
    return I.freeze(st, lift(strip, v))


def errv(*k):
    return opq(("error",) + k, None)


class IO:
    """hook object: install with I.events = IO(I)"""

    def __init__(self, I):
        self.I = I
        self.ops = []      # (label, outcome ok?, condition)
        self.argv = None   # known command line, or None
        self.keyed = []    # the same with the operation's arguments
        self.count = {}

    def outcome(self, op, key, cond):
        """boolean: does this operation succeed"""
        k = (op, key)
        n = self.count.get(k, 0)
        self.count[k] = n + 1
        b = boolsym(("io", op, key, n), "%s(%s) succeeds" % (op, ", ".join(map(repr, key))))
        self.ops.append((op, b, vand(self.I.base, cond)))
        self.keyed.append((op, b, vand(self.I.base, cond), key))
        return b

    def result(self, op, key, okv, cond, st, ev=None):
        I = self.I
        b = self.outcome(op, key, cond)
        if ev:
            st = st.copy()
            I.emit(st, ev[0], *ev[1:])
        e = errv(op, *key)
        return mknode_bool(b, agg(RES, 0, (okv,)), agg(RES, 1, (e,))), st, True

    def path(self, st, v):
        return plain(self.I, st, v)

    def fileof(self, st, v):
        """(path, mode, buffered) of a writer/reader value"""
        x = plain(self.I, st, v)
        buf = False
        while isinstance(x, Agg) and x.ty == "io:buf":
            buf = True
            x = x.fs[0]
        if isinstance(x, Agg) and x.ty == "io:file":
            return x.fs[0], x.fs[1].s, buf
        return None

    def put(self, op, st, w, content, cond):
        f = self.fileof(st, w)
        if f is None:
            x = plain(self.I, st, w)
            return None
        p, mode, buf = f
        return self.result(op, (p, content), UNIT, cond, st, ("bufput" if buf else "put", p, content, strv(mode)))

    def __call__(self, fi, rp, name, A, st, cond, t):
        I = self.I
        tr = fi.get("trait") or ""
        rty = (t or {}).get("rty")

        def ok(v, s=None):
            return v, (s if s is not None else st), True
        # ---- files
        if rp.startswith("std::fs::File::"):
            if name in ("create", "create_new"):
                p = self.path(st, A[0])
                return self.result(name, (p,), file_(p, "w"), cond, st, (name, p))
            if name == "open":
                p = self.path(st, A[0])
                return self.result("open", (p,), file_(p, "r"), cond, st, ("open", p))
            if name in ("sync_all", "sync_data"):
                f = self.fileof(st, A[0])
                return self.result(name, (f[0] if f else errv("?"),), UNIT, cond, st)
            if name == "options":
                return ok(agg("io:opts", 0, (False,) * 6))
        if "io::buffered::bufreader::BufReader" in rp and name in ("new", "with_capacity"):
            return ok(A[-1])
        if rp.startswith("std::fs::OpenOptions::"):
            fl = ("read", "write", "append", "truncate", "create", "create_new")
            if name == "new":
                return ok(agg("io:opts", 0, (False,) * 6))
            if name in fl:
                r = final_ref(I, st, A[0])
                v = I.load(st, r)
                if isinstance(v, Agg) and v.ty == "io:opts" and isinstance(A[1], bool):
                    return ok(A[0], I.store(st, r, v.with_field(fl.index(name), A[1])))
            if name == "open":
                v = plain(I, st, A[0])
                p = self.path(st, A[1])
                if isinstance(v, Agg) and v.ty == "io:opts":
                    rd, wr, ap, trn, cr, cn = v.fs
                    if wr and (trn or cn) and not ap:
                        return self.result("create", (p,), file_(p, "w"), cond, st, ("create", p))
                    if wr or ap:
                        return self.result("open_partial", (p,), file_(p, "partial"), cond, st, ("open_partial", p))
                    return self.result("open", (p,), file_(p, "r"), cond, st, ("open", p))
        if rp.startswith("std::fs::"):
            if name == "write":
                p = self.path(st, A[0])
                v = plain(I, st, A[1])
                s = st.copy()
                I.emit(s, "create", p)
                return self.result("write", (p, v), UNIT, cond, s, ("put", p, v, strv("w")))
            if name in ("read_to_string", "read"):
                p = self.path(st, A[0])
                return self.result("open", (p,), content_(p), cond, st, ("open", p))
            if rp.count("::") == 2:
                key = tuple(self.path(st, a) for a in A)
                rt = I.prog.types.get(rty or "", {"k": "?"})
                if rt.get("path") == RES:
                    return self.result("fs::" + name, key, opq(("fs", name) + key, rt["args"][0]), cond, st, ("fs:" + name,) + key)
        if rp.startswith("std::io::buffered::") and name in ("new", "with_capacity"):
            return ok(agg("io:buf", 0, (plain(I, st, A[-1]),)))
        if rp.startswith("std::io::buffered::") and name == "into_inner":
            f = self.fileof(st, A[0])
            if f:
                return self.result("flush", (f[0],), file_(f[0], f[1]), cond, st, ("flush", f[0]))
        if tr in ("std::io::Write", "std::io::Read") or rp.startswith(("std::io::Write::", "std::io::Read::")):
            f = self.fileof(st, A[0])
            if f:
                if name in ("write_all", "write"):
                    r = self.put(name, st, A[0], plain(I, st, A[1]), cond)
                    if name == "write_all" or r is None:
                        return r
                    return None
                if name == "flush":
                    return self.result("flush", (f[0],), UNIT, cond, st, ("flush", f[0]))
                if name in ("read_to_string", "read_to_end"):
                    v, s, c = self.result("read", (f[0],), opq(("size", f[0]), "usize"), cond, st)
                    r = final_ref(I, s, A[1])
                    return v, I.store(s.copy(), r, content_(f[0])), c
                if name == "by_ref":
                    return ok(A[0])
        if rp == "std::io::read_to_string":
            f = self.fileof(st, A[0])
            if f:
                return self.result("read", (f[0],), content_(f[0]), cond, st)
        # ---- environment
        if rp in ("std::env::args", "std::env::args_os"):
            if self.argv is not None:
                return ok(models.mkiter(items(*[strv(x) for x in self.argv])))
            return ok(models.mkiter(I.symvec(("argv",), "alloc::string::String")))
        if rp in ("std::env::var", "std::env::var_os"):
            k = self.path(st, A[0])
            if name == "var_os":
                b = self.outcome("env", (k,), cond)
                return ok(ite(b, some(opq(("env", k), None)), none()))
            return self.result("env", (k,), opq(("env", k), "alloc::string::String"), cond, st)
        if rp.startswith("std::time::") or rp.startswith("core::time::") or rp.startswith("<std::time::") or (tr.startswith("core::ops::arith::") and "std::time::Instant" in str(fi.get("args"))):
            I.fresh_time = getattr(I, "fresh_time", 0) + 1
            return ok(I.symval(("time", str(I.fresh_time)), rty))
        # ---- formats
        root = rp.split("::")[0]
        if root in FMT:
            fmt = FMT[root]
            if name in ("to_writer", "to_writer_pretty", "serialize_into"):
                return self.put("write", st, A[0], text_(fmt, plain(I, st, A[1])), cond)
            if name in ("to_string", "to_string_pretty", "to_vec", "to_vec_pretty", "serialize"):
                v = plain(I, st, A[0])
                return self.result("format", (strv(fmt), v), text_(fmt, v), cond, st)
            if name in ("from_reader", "deserialize_from"):
                f = self.fileof(st, A[0])
                if f:
                    return self.result("parse", (strv(fmt), content_(f[0])), val_(fmt, content_(f[0])), cond, st)
                return None
            if name in ("from_str", "from_slice", "deserialize"):
                v = plain(I, st, A[0])
                return self.result("parse", (strv(fmt), v), val_(fmt, v), cond, st)
        # ---- errors
        if rp.startswith("anyhow::"):
            if "Context" in tr or "Context" in rp:
                v = opt_norm(I, A[0])
                c, p = split_opt(v, 0) if not _is_opt(I, t) else split_opt(v, 1)
                return ok(ite(c, agg(RES, 0, (p,)), agg(RES, 1, (errv("context"),))))
            if rty and I.prog.types.get(rty, {}).get("path") == RES:
                return None
            return ok(errv("anyhow"))
        if tr in ("core::convert::From", "core::convert::Into") and rty:
            p = I.prog.types.get(rty, {}).get("path")
            if p in ("anyhow::Error", "pyo3::err::PyErr", "std::io::error::Error"):
                return ok(errv("converted"))
        if rp.startswith("std::io::error::Error::") and name in ("new", "other"):
            return ok(errv("io"))
        if rp.startswith(("std::io::stdio::_print", "std::io::stdio::_eprint")):
            s = st.copy()
            I.emit(s, "print")
            return ok(UNIT, s)
        # ---- pyo3
        if rp.startswith("pyo3::err::PyErr::") and name in ("new", "from_value", "from_type"):
            return ok(errv("pyerr"))
        if rp.startswith("pyo3::exceptions::") and name == "new_err":
            return ok(errv("pyerr"))
        if rp.startswith("pyo3::types::bytes::PyBytes::"):
            if name == "new":
                return ok(vref(plain(I, st, A[1])))
            if name == "as_bytes":
                return ok(vref(plain(I, st, A[0])))
        if rp.startswith("pyo3::types::module::PyModule::"):
            if name == "add_class":
                cls = ((fi.get("args") or ["?"])[0])
                return self.result("add_class", (strv(cls),), UNIT, cond, st, ("add_class", strv(cls)))
            if name == "add":
                v = plain(I, st, A[2])
                if isinstance(v, Agg) and v.ty == "io:class":
                    return self.result("add_class", (v.fs[0],), UNIT, cond, st, ("add_class", v.fs[0]))
        if name in ("type_object", "type_object_raw", "lazy_type_object") and (tr.startswith("pyo3") or rp.startswith("pyo3")):
            cls = (fi.get("args") or ["?"])[-1]
            return ok(vref(agg("io:class", 0, (strv(cls),))))
        if rp.startswith("pyo3::types::dict::PyDict::") and name in ("len", "is_empty"):
            n = I.symval(("entries of", repr(plain(I, st, A[0]))), "usize")
            return ok(n if name == "len" else models.eq(n, num(0)))
        if name in ("chars", "bytes") and len(A) == 1 and models.is_text(rp, tr):
            x = plain(I, st, A[0])
            if isinstance(x, StrV) and name == "chars":
                return ok(models.mkiter(items(*[num(ord(c)) for c in x.s])))
            if isinstance(x, Opq):
                return ok(models.mkiter(I.symvec((name, repr(x)), "char" if name == "chars" else "u8")))
        # ---- text of known strings
        r = self.known_text(fi, rp, name, A, st, t)
        if r is not None:
            return r
        return None

    def known_text(self, fi, rp, name, A, st, t):
        """constant folding on known file names"""
        if not A or not models.is_text(rp, fi.get("trait") or ""):
            return None
        I = self.I
        xs = [plain(I, st, a) for a in A]
        if not all(isinstance(x, StrV) or isinstance(x, Poly) and x.const() is not None for x in xs):
            return None
        s = xs[0].s
        o = [x.s if isinstance(x, StrV) else chr(int(x.const())) for x in xs[1:]]
        S = lambda x: vref(strv(x))
        opt = lambda x: none() if x is None else some(S(x))
        base = s.rstrip("/").split("/")[-1]
        stem, dot, ext = base.rpartition(".")
        r = None
        if name == "extension":
            r = opt(ext if dot and stem else None)
        elif name == "file_stem":
            r = opt(stem if dot and stem else base)
        elif name == "file_name":
            r = opt(base)
        elif name == "to_str":
            r = opt(s)
        elif name in ("to_string_lossy", "display", "as_bytes", "as_encoded_bytes"):
            r = S(s)
        elif name == "ends_with" and "path" not in rp:
            r = s.endswith(o[0])
        elif name == "ends_with":
            r = s == o[0] or s.endswith("/" + o[0])
        elif name == "starts_with" and "path" not in rp:
            r = s.startswith(o[0])
        elif name == "contains":
            r = o[0] in s
        elif name == "strip_suffix":
            r = opt(s[:-len(o[0])] if s.endswith(o[0]) else None)
        elif name == "strip_prefix" and "path" not in rp:
            r = opt(s[len(o[0]):] if s.startswith(o[0]) else None)
        elif name == "rsplit_once":
            a, d, b = s.rpartition(o[0])
            r = some(tup(S(a), S(b))) if d else none()
        elif name == "split_once":
            a, d, b = s.partition(o[0])
            r = some(tup(S(a), S(b))) if d else none()
        elif name == "rsplit":
            return models.mkiter(items(*[S(x) for x in reversed(s.split(o[0]))])), st, True
        elif name == "split":
            return models.mkiter(items(*[S(x) for x in s.split(o[0])])), st, True
        elif name in ("to_lowercase", "to_ascii_lowercase"):
            r = strv(s.lower())
        elif name in ("to_uppercase", "to_ascii_uppercase"):
            r = strv(s.upper())
        elif name == "trim":
            r = S(s.strip())
        elif name == "eq_ignore_ascii_case":
            r = s.lower() == o[0].lower()
        elif name == "is_empty":
            r = s == ""
        elif name == "len":
            r = num(len(s.encode()))
        elif name == "parse" and "bool" in str(fi.get("args")):
            r = agg(RES, 0, (s == "true",)) if s in ("true", "false") else agg(RES, 1, (errv("parse"),))
        elif name == "rfind" or name == "find":
            k = s.rfind(o[0]) if name == "rfind" else s.find(o[0])
            r = none() if k < 0 else some(num(k))
        if r is None:
            return None
        return r, st, True


def mknode_bool(b, x, y):
    """b ? x : y without merging aggregates of one shape"""
    return ite(b, x, y)


def _is_opt(I, t):
    ty = ((t or {}).get("aty") or [""])[0]
    return I.prog.types.get(ty, {}).get("path") == OPT


def result_parts(v):
    """(is it Ok, Ok payload) of a Result value"""
    c, p = split_opt(v, 0)
    return c, p


def unpublished(v):
    """Result with its error payload forgotten"""
    def h(x):
        if isinstance(x, Agg) and x.ty == RES and x.var == 1:
            return agg(RES, 1, (errv("any"),))
        return x
    return lift(h, v)
