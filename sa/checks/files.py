"""P20, P21: formats and files, error reporting."""
from interp import *
from checks.base import *
import iomodel
from iomodel import IO, text_, val_, content_, result_parts, RES
from models import split_opt

API = "dess::traits_and_macros::SerdeAPI"
GOOD = {"x.json": "json", "out/a.b.json": "json", "dir.yaml/run.json": "json", "x.yaml": "yaml", "a.json.yaml": "yaml", "dir.json/run.yaml": "yaml",
        " x.json": "json", "x y .yaml": "yaml", "./x.json": "json", "../x.yaml": "yaml", "/d/x.json": "json", "~/x.yaml": "yaml", "-x.json": "json", ".h.json": "json",
        "d//x.json": "json", "\u00e4\u03b2.yaml": "yaml", "X.YAML.json": "json", "a\\b.yaml": "yaml", "file:x.json": "json", "x%20y.yaml": "yaml", "$HOME/x.json": "json"}
BAD = ["x.txt", "x", "json", "yaml", ".json", "x.", "x.jsonl", "x.json5", "x.yml", "x.JSON", "dir.json/x", "x.json.bak", "xjson", "x.bin", "x.bincode", "", "x.json ", "x.Json", "x.YAML", "x.jso", "x.yamlx", ".yaml", "x.json~", "x.json.gz", "jsonx", "x yaml"]


def impl(prog, name, ty=None):
    """instances of a SerdeAPI method: generic and per type"""
    ks = sorted(k for (t, tr, n), l in prog.methods.items() if tr == API and n == name and (ty is None or t == ty) for k in l)
    return ks


class IORun(Run):
    def __init__(self, prog, key, args=(), names=None, contracts=()):
        I = Interp(prog)
        I.contracts = list(contracts)
        self.io = I.events = IO(I)
        super().__init__(prog, key, args, I=I, names=names)

    def log(self):
        return self.end.mem.get(LOG, EMPTY) if self.end else UNDEF


def iorun(r, prog, key, inst, args=(), **kw):
    if key is None:
        r.violation("anchor:" + inst, inst, "the function this property is about is gone")
        return None
    try:
        x = IORun(prog, key, args, **kw)
    except Unmodelled as e:
        r.undecided(inst, "not analysable: %s" % e)
        return None
    r.saw(*x.I.visited)
    return x


def logpred(log, f):
    """boolean diagram: f(list of events)"""
    def h(l):
        if is_unk(l):
            return l
        if not isinstance(l, VecV) or any(s[0] != "i" for s in l.segs):
            return unk("event log")
        es = [e for s in l.segs for e in s[1]]
        if any(isinstance(e, Node) for e in es):
            return lift(lambda *xs: next((x for x in xs if is_unk(x)), None) or f([(e.ty[6:],) + e.fs for e in xs]), *es)
        if any(is_unk(e) for e in es):
            return unk("event log")
        return f([(e.ty[6:],) + e.fs for e in es])
    return lift(h, log)


def is_unk(x):
    return isinstance(x, Unk) or x is UNDEF


def failed(x):
    """condition: some operation that was carried out failed"""
    c = False
    for op, b, cond in x.io.ops:
        c = vor(c, vand(cond, vnot(b)))
    return c


def same_val(a, b):
    """structural equality of plain values; None when not comparable"""
    if a is b:
        return True
    if has_unk(a) or has_unk(b):
        return None
    return a == b or (getattr(a, "fp", None) and getattr(b, "fp", None) and a.fp() == b.fp())


WRITES = ("create", "create_new", "open_partial", "put", "bufput")


def errors(r, x, inst):
    """P21 obligations: an executed operation that fails makes the result an error; no panic"""
    ret = x.ret()
    okc, _ = result_parts(ret)
    f = failed(x)
    r.check(inst + " reports every failure as an error", x.where, compare(vnot(okc), True, vand(x.cond, f)),
            "%d fallible operations" % len(x.io.ops))
    nopanic(r, x, inst)


def nopanic(r, x, inst):
    for p in x.I.panics:
        m = compare(False, True, p.guard)
        if m and not has_unk(p.guard):
            r.violation(inst + " does not panic", x.where, "can panic: %r" % p, key=inst + " panics")
            return
        if m:
            r.undecided(inst + " does not panic", repr(p))
            return
    r.check(inst + " does not panic", x.where, compare(x.cond, True, True))


def save_one(r, prog, key, inst, fname, fmt, pid):
    x = iorun(r, prog, key, inst, [None, strv(fname)])
    if x is None:
        return
    if x.end is None:
        r.violation(inst, x.where, "never returns normally")
        return
    s = x.init[0]
    if isinstance(s, (Ref, VRef)):
        s = s.v if isinstance(s, VRef) else s
    s = iomodel.plain(x.I, x.st, s)
    name = strv(fname)
    okc, _ = result_parts(x.ret())
    if pid == "P21":
        errors(r, x, inst)

        def flushed(ev):
            buf = {e[1] for e in ev if e[0] == "bufput"}
            last = {}
            for k, e in enumerate(ev):
                if e[0] in ("bufput", "flush"):
                    last[e[1]] = e[0]
            return all(last[p] == "flush" for p in buf)
        r.check(inst + " flushes buffered output before reporting success", x.where, compare(logpred(x.log(), flushed), True, vand(x.cond, okc)))
        return
    if fmt is None:
        r.check(inst + " is refused", x.where, compare(okc, False, x.cond))
        r.check(inst + " creates or truncates nothing", x.where, compare(logpred(x.log(), lambda ev: not any(e[0] in WRITES or e[0].startswith("fs:") for e in ev)), True, x.cond))
        return
    care = vand(x.cond, vnot(failed(x)))
    r.check(inst + " succeeds when every operation does", x.where, compare(okc, True, care))

    def one(ev):
        w = [e for e in ev if e[0] in WRITES or e[0].startswith("fs:")]
        if any(e[0].startswith("fs:") or e[0] in ("open_partial", "create_new") for e in w):
            return False
        if any(same_val(e[1], name) is None for e in w):
            return unk("path")
        if not all(same_val(e[1], name) for e in w):
            return False
        puts = [e for e in w if "put" in e[0]]
        if len(puts) != 1 or puts[0][3].s != "w":
            return False
        q = same_val(puts[0][2], text_(fmt, s))
        if q is None:
            return unk("content")
        return bool(q)
    r.check(inst + " writes exactly the value, as %s, to the named file" % fmt, x.where, compare(logpred(x.log(), one), True, vand(x.cond, okc)))
    r.check(inst + " touches no other file", x.where, compare(logpred(x.log(), lambda ev: all(same_val(e[1], name) for e in ev if e[0] in WRITES)), True, x.cond))
    r.check(inst + " leaves the value alone", x.where, compare(x.out(0), x.init[0], x.cond))


def load_one(r, prog, key, inst, fname, fmt, pid):
    x = iorun(r, prog, key, inst, [strv(fname)])
    if x is None:
        return
    if x.end is None:
        r.violation(inst, x.where, "never returns normally")
        return
    name = strv(fname)
    okc, pay = result_parts(x.ret())
    if pid == "P21":
        errors(r, x, inst)
        return
    if fmt is None:
        r.check(inst + " is refused", x.where, compare(okc, False, x.cond))
    else:
        r.check(inst + " succeeds when every operation does", x.where, compare(okc, True, vand(x.cond, vnot(failed(x)))))
        r.check(inst + " gives the value its %s contents denote" % fmt, x.where, compare(pay, val_(fmt, content_(name)), vand(x.cond, okc)))
    r.check(inst + " writes nothing", x.where, compare(logpred(x.log(), lambda ev: not any(e[0] in WRITES or e[0].startswith("fs:") for e in ev)), True, x.cond))


def api(r, pid):
    prog = core.prog("std")
    n = 0
    for name, f in (("to_file", save_one), ("from_file", load_one)):
        ks = impl(prog, name)
        if not ks:
            r.violation("anchor:" + name, API, "SerdeAPI::%s is gone" % name)
        for key in ks:
            who = "" if key.startswith("<Self") else short_ty(key.split(" as ")[0]) + "::"
            table = list(GOOD.items()) + [(b, None) for b in BAD]
            if who and pid == "P21":
                continue
            for fname, fmt in table if not who else table[:1] + table[3:4] + table[6:8]:
                n += 1
                f(r, prog, key, "%s%s(%r)" % (who, name, fname), fname, fmt, pid)
    for fmt in ("json", "yaml", "bincode"):
        for key in impl(prog, "to_" + fmt):
            if pid == "P21":
                continue
            inst = "to_" + fmt
            x = iorun(r, prog, key, inst)
            if x is None or x.end is None:
                continue
            n += 1
            s = iomodel.plain(x.I, x.st, x.init[0])
            r.check(inst + " gives the value in the format it is named after", x.where, compare(iomodel.plain(x.I, x.end, x.ret()), text_(fmt, s), vand(x.cond, vnot(failed(x)))))
            r.check(inst + " returns whenever formatting succeeds", x.where, compare(x.cond, True, vnot(failed(x))))
            r.check(inst + " touches no file", x.where, compare(logpred(x.log(), lambda ev: not ev), True, x.cond))
        for key in impl(prog, "from_" + fmt):
            inst = "from_" + fmt
            x = iorun(r, prog, key, inst)
            if x is None or x.end is None:
                continue
            n += 1
            if pid == "P21":
                errors(r, x, inst)
                continue
            src = iomodel.plain(x.I, x.st, x.init[0])
            okc, pay = result_parts(x.ret())
            r.check(inst + " succeeds when parsing does", x.where, compare(okc, True, vand(x.cond, vnot(failed(x)))))
            r.check(inst + " gives the value the text denotes in the format it is named after", x.where, compare(pay, val_(fmt, src), vand(x.cond, okc)))
    r.floor("save/load operations", n, 40 if pid == "P20" else 40)


def p20(r, tier):
    r.rule("SerdeAPI::to_file/from_file, analysed with constant propagation over representative file names (%d supported, %d not) and a symbolic value, make exactly the file operations and give exactly the result the suffix table says; "
           "to_/from_ json/yaml/bincode use the format they are named after." % (len(GOOD), len(BAD)))
    r.assume("serde_json/serde_yaml/bincode entry points read and write the format of their crate", "the path functions of std behave as documented (constant-folded)")
    api(r, "P20")


def p21(r, tier):
    r.rule("Every file, parse and format operation reached in loading and saving has an unknown outcome; on every path on which one fails the function returns Err, and no panic site is reachable; "
           "buffered output is flushed before success is reported.")
    r.assume("serde and the format crates report malformed input through their Result (dependencies)")
    api(r, "P21")
    import checks.pyapi as py
    py.errors(r)
