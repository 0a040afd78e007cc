"""The table of Python-visible names, read from the compiled registration constants of each exposed class."""
import re

ITEM = re.compile(r"<impl pyo3::impl_::pyclass::PyMethods<(.*)> for pyo3::impl_::pyclass::PyClassImplCollector<.*>>::py_methods::ITEMS::promoted\[\d+\]$")
INTR = re.compile(r"<impl pyo3::impl_::pyclass::PyClassImpl for (.*)>::items_iter::INTRINSIC_ITEMS::promoted\[\d+\]$")
KINDS = ["class", "static", "method", "classattr", "getter", "setter", "structseq"]
SLOTS = {65: "__new__", 66: "__repr__", 70: "__str__", 45: "__len__", 4: "__len__", 59: "__hash__", 67: "__richcompare__"}


class Entry:
    """one Python-visible name: kind, wrapped user function, parameter names and how many of them are required"""

    def __init__(self, kind, name, user, params, required, kwonly, where):
        self.kind, self.name, self.user, self.params, self.required, self.kwonly, self.where = kind, name, user, params, required, kwonly, where

    def __repr__(self):
        return "%s %s(%s) -> %s" % (self.kind, self.name, ", ".join(self.params or ()), self.user)


class Class:
    def __init__(self, ty):
        self.ty = ty
        self.name = None
        self.entries = {}

    def get(self, kind, name):
        return self.entries.get((kind, name))


class Vals:
    """value of a single-assignment constant body"""

    def __init__(self, prog, key):
        self.prog = prog
        self.body = prog.consts[key]
        self.asg = {}
        for b in self.body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    self.asg[s[1][0]] = ("rv", s[2])
            t = b["t"]
            if t["k"] == "call" and not t["dest"][1]:
                self.asg[t["dest"][0]] = ("call", t)

    def op(self, o):
        k = o.get("k")
        if k in ("move", "copy"):
            l, pr = o["p"]
            v = self.local(l)
            for e in pr:
                if e[0] == "f" and isinstance(v, dict) and "ops" in v:
                    v = v["ops"][e[1]]
            return v
        return self.const(o)

    def const(self, o):
        k = o.get("k")
        if k == "str":
            return o["s"]
        if k == "scalar":
            return int(o["bits"], 0) if isinstance(o["bits"], str) else o["bits"]
        if k == "fn":
            return {"fn": o["f"]}
        if k == "const":
            key = o.get("key")
            if key in self.prog.consts and self.prog.consts[key]:
                return Vals(self.prog, key).local(0)
            return o
        if k == "refto":
            return self.const(o["v"])
        if k in ("list", "struct"):
            return {"ops": [self.const(x) for x in o["items"]], "ty": o.get("ty")}
        return o

    def local(self, l):
        a = self.asg.get(l)
        if a is None:
            return None
        how, x = a
        if how == "call":
            return {"call": x["f"]["f"]["rpath"] if "f" in x["f"] else None, "ops": [self.op(a) for a in x["args"]]}
        k = x["k"]
        if k == "use" or k == "cast":
            return self.op(x["o"])
        if k == "ref" or k == "addr" or k == "copyref":
            v = self.local(x["p"][0])
            return v
        if k == "agg":
            return {"ty": x["ak"].get("path"), "v": x["ak"].get("v"), "ops": [self.op(o) for o in x["ops"]]}
        return x


def insts(body):
    """keys of all functions mentioned in a body"""
    out = []

    def go(x):
        if isinstance(x, dict):
            f = x.get("f")
            if isinstance(f, dict) and isinstance(f.get("inst"), str):
                out.append(f["inst"])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(body["blocks"])
    return out


def fn_of(v):
    """the function inside nested single-field wrappers"""
    while isinstance(v, dict):
        if "fn" in v:
            return v["fn"].get("inst")
        if v.get("ops") and len(v["ops"]) == 1:
            v = v["ops"][0]
        else:
            return None
    return None


def user_of(prog, tramp):
    """(user function key, pymethod key) behind a trampoline"""
    b = prog.fns.get(tramp)
    if b is None:
        return None, None
    seen = []
    todo = [tramp]
    pm = None
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.append(k)
        for i in insts(prog.fns[k]):
            if i in prog.fns:
                if "::__pymethod_" in i.split("<")[0] + i:
                    pm = pm or i
                    todo.append(i)
                elif "trampoline" in i.split("::")[-1]:
                    todo.append(i)
    if pm is None:
        return None, None
    us = []
    for i in insts(prog.fns[pm]):
        if i in prog.fns and "__pymethod_" not in i and not i.startswith(("pyo3", "core", "alloc", "std", "<")) and i not in us:
            us.append(i)
    if not us:
        us = [i for i in insts(prog.fns[pm]) if i in prog.fns and "__pymethod_" not in i and i not in us and prog.fns[i].get("crate") in ("dess", "dess_examples", "dess_pyo3")]
    return (us[0] if len(us) == 1 else None), pm


def params_of(prog, pm):
    k = (pm or "") + "::DESCRIPTION"
    if k not in prog.consts:
        return [], 0, []
    d = Vals(prog, k).local(0)
    if not isinstance(d, dict) or len(d.get("ops", ())) < 6:
        return None, None, None
    _, _, pos, ponly, req, kw = d["ops"][:6]
    names = [x for x in (pos or {}).get("ops", [])]
    kws = []
    for x in (kw or {}).get("ops", []):
        if isinstance(x, dict) and x.get("ops"):
            kws.append(tuple(x["ops"][:2]))
    return names, req, kws


def classes(prog):
    out = {}
    for k in sorted(prog.consts):
        m = ITEM.search(k) or INTR.search(k)
        if not m or not prog.consts[k]:
            continue
        ty = m.group(1)
        c = out.setdefault(ty, Class(ty))
        v = Vals(prog, k).local(0)
        for e in (v or {}).get("ops", []):
            if not isinstance(e, dict) or "ops" not in e:
                continue
            if (e.get("ty") or "").endswith("PyType_Slot"):
                slot, f = e["ops"][0], fn_of(e["ops"][1])
                name = SLOTS.get(slot, "slot%s" % slot)
                u, pm = user_of(prog, f)
                p, rq, kw = params_of(prog, pm)
                c.entries[("slot", name)] = Entry("slot", name, u, p, rq, kw, pm or f)
                continue
            kind = KINDS[e.get("v") or 0]
            d = e["ops"][0]
            while isinstance(d, dict) and (d.get("call") or "").endswith("::flags"):
                d = d["ops"][0]
            if not isinstance(d, dict) or len(d.get("ops", ())) < 2 or not isinstance(d["ops"][0], str):
                continue
            name = d["ops"][0].rstrip("\0")
            u, pm = user_of(prog, fn_of(d["ops"][1]))
            p, rq, kw = params_of(prog, pm)
            c.entries[(kind, name)] = Entry(kind, name, u, p, rq, kw, pm)
    for k, b in prog.consts.items():
        m = re.search(r"<impl pyo3::type_object::PyTypeInfo for (.*)>::NAME$", k)
        if m and b:
            out.setdefault(m.group(1), Class(m.group(1))).name = Vals(prog, k).local(0)
    return out
