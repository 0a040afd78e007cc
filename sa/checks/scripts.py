"""P40: the shipped Python scripts against the module's classes, by flow of class instances through the scripts' syntax trees."""
import ast
import glob
import json
import os
import re
from interp import *
from checks.base import *
from checks.files import iorun
from checks.pyapi import table, setting, exports, SETTING
from iomodel import result_parts, plain

MODULE = "dess_pyo3"
NUMS = {"f64", "f32", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "usize", "isize"}
INTS = NUMS - {"f64", "f32"}
SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def inner(prog, t):
    """type of the value behind results, options and references"""
    while True:
        d = prog.types.get(t, {})
        p = d.get("path") or ""
        if p in ("core::result::Result", "core::option::Option", "pyo3::pycell::PyRef", "pyo3::pycell::PyRefMut", "alloc::boxed::Box") and d.get("args"):
            t = [a for a in d["args"] if not a.startswith("'")][0]
        elif t.startswith("&"):
            t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        else:
            return t


HOLE = "0.001370915"   # an unknown piece of a text; stands for a number where a number may stand


def holed(x):
    """does an unknown piece end up inside a name or a text?"""
    if isinstance(x, str):
        return HOLE in x
    if isinstance(x, dict):
        return any(holed(k) or holed(v) for k, v in x.items())
    return isinstance(x, list) and any(holed(v) for v in x)


class Settings:
    """what the compiled reader of solver settings accepts"""

    def __init__(self, r, prog):
        self.r, self.prog, self.memo = r, prog, {}
        self.top = [k for k in sorted(prog.fns) if "for dess::solver::SolverTypes>" in k and "visit_str" in k and "visit_enum" not in k]
        self.sub = [k for k in sorted(prog.fns) if "for dess::solver::SolverTypes>" in k and "visit_str" in k and "visit_enum" in k]
        self.variants = {v["name"]: v for v in prog.adts[SETTING]["variants"]} if SETTING in prog.adts else {}

    def reads(self, keys, name):
        """does every given name reader know this name: True, False or None (unknown)"""
        if (tuple(keys), name) not in self.memo:
            out = True if keys else None
            for k in keys:
                x = iorun(self.r, self.prog, k, "reader of %r" % name, [None, strv(name)])
                if x is None or x.end is None:
                    out = None
                    break
                ok, v = result_parts(plain(x.I, x.end, x.ret()))
                b = [f for f in self.prog.adts.get(inner(self.prog, x.body["locals"][0]), {}).get("variants", [])]
                if ok is True and isinstance(v, Agg) and b:
                    if b[v.var]["name"] == "__ignore":
                        out = False
                elif ok is False:
                    out = False
                else:
                    out = None
                    break
            self.memo[(tuple(keys), name)] = out
        return self.memo[(tuple(keys), name)]

    def problem(self, text):
        """why the text is not one setting of a known method, None when it is, or a string starting with ? when that is not known"""
        try:
            d = json.loads(text)
        except ValueError as e:
            return "?a piece of the text is not known" if HOLE in text else "is not JSON: %s" % e
        if holed(d) or not isinstance(d, dict) and HOLE in text:
            return "?a piece of the text is not known"
        if not isinstance(d, dict) or len(d) != 1:
            return "is not one solver with its settings"
        (name, body), = d.items()
        known = self.reads(self.top, name)
        if known is False:
            return "names no solver this build knows: %s" % name
        v = self.variants.get(name)
        if known is None or v is None:
            return "?the reader of solver names was not followed for %s" % name
        if any(f["name"].isdigit() for f in v["fields"]):
            if not isinstance(body, dict):
                return "gives no settings for %s" % name
            return None if len(v["fields"]) == 1 else "?settings of %s" % name
        if not isinstance(body, dict):
            return "gives no settings for %s" % name
        for f in v["fields"]:
            if f["name"] not in body:
                if attr(f, "default"):
                    continue
                return "lacks the setting %s of %s" % (f["name"], name)
            if f["ty"] in NUMS and (isinstance(body[f["name"]], bool) or not isinstance(body[f["name"]], (int, float))):
                return "gives %r for %s of %s" % (body[f["name"]], f["name"], name)
            if f["ty"] in INTS and not isinstance(body[f["name"]], int) and body[f["name"]] != float(HOLE):
                return "gives %r for %s of %s" % (body[f["name"]], f["name"], name)
        fields_of_v = {f["name"] for f in v["fields"]}
        for k in body:
            if k not in fields_of_v:
                return "gives %s a setting it does not have: %s" % (name, k)
            if self.reads(self.sub, k) is False:
                return "gives %s a setting its reader does not know: %s" % (name, k)
        return None


def leaves(body):
    """does control never reach the end of these statements?"""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.If):
        return leaves(s.body) and leaves(s.orelse)
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit", "os._exit")


class Script:
    """forward flow of module objects through one script; values are ("mod",), ("cls", ty), ("inst", ty, fixed), ("fn", owner, entry), ("str", text),
    ("num", kind), ("tuple", values), ("dict", pairs), the script's own ("ufn", node, self), ("ucls", node), ("uinst", node), ("partial", ...), or None"""

    def __init__(self, r, prog, tab, exported, conf, path, stats):
        self.r, self.prog, self.tab, self.conf, self.stats = r, prog, tab, conf, stats
        self.rel = os.path.relpath(path, core.REPO)
        self.byname = {tab[ty].name: ty for ty in exported}
        self.seen = set()
        self.tree = ast.parse(open(path, encoding="utf-8").read(), path)
        self.env = {}
        self.depth = 0
        self.returns = []
        self.objs = {}       # fields of the scripts' own classes: (class node, name) -> value
        # names whose value is changed in place somewhere: what they hold is not followed
        self.mutated = set()
        for n in ast.walk(self.tree):
            t = None
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n.value
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem"):
                t = n.func.value
            if isinstance(t, ast.Name):
                self.mutated.add(t.id)
        # names and attributes that hold different things at different times
        self.shared = {x for n in ast.walk(self.tree) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        stores = [n.attr for n in ast.walk(self.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))]
        self.varying = {a for a in stores if stores.count(a) > 1}
        self.applied = 0
        self.block(self.tree.body, self.env)
        # bodies of functions see every value a global may have
        owner = {id(f): ("uinst", n) for n in ast.walk(self.tree) if isinstance(n, ast.ClassDef) and self.env.get(n.name) == ("ucls", n)
                 for f in n.body if isinstance(f, ast.FunctionDef) and not f.decorator_list or isinstance(f, ast.FunctionDef) and ast.unparse(f.decorator_list[0]) == "property"}
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                env = {k: v for k, v in self.env.items()}
                a = n.args
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        env[x.id] = None
                for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                    env[p.arg] = None
                if id(n) in owner and a.args:
                    env[a.args[0].arg] = owner[id(n)]
                self.block(n.body, env)

    def at(self, node):
        return "%s:%d" % (self.rel, node.lineno)

    def report(self, node, what, bad):
        key = (node.lineno, node.col_offset, what)
        good = bad is None or bad.startswith("?")
        if key in self.seen and (good or (key, "bad") in self.seen):
            return
        self.stats["n"] += key not in self.seen
        self.seen.add(key)
        if not good:
            self.seen.add((key, "bad"))
        inst = "%s: %s" % (self.at(node), what)
        if bad is None:
            self.r.ok(inst)
        elif bad.startswith("?"):
            self.r.undecided(inst, bad[1:])
        else:
            self.r.violation(inst, self.at(node), bad)

    # ---- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def join(self, env, *others):
        for k in set(env).union(*[set(o) for o in others]):
            vs = [o.get(k) for o in others]
            env[k] = vs[0] if all(v == vs[0] for v in vs) else None

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = None if t.id in self.shared or v and v[0] in ("tuple", "dict") and t.id in self.mutated else v
        elif isinstance(t, ast.Starred):
            self.bind(t.value, None, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            parts = v[1] if isinstance(v, tuple) and v[0] == "tuple" and len(v[1]) == len(t.elts) else [None] * len(t.elts)
            for x, y in zip(t.elts, parts):
                self.bind(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            if o and o[0] == "uinst":
                k = (o[1], t.attr)
                self.objs[k] = v if self.objs.get(k, v) == v and t.attr not in self.varying else None
            if o and o[0] == "inst":
                c = self.tab[o[1]]
                e = c.get("setter", t.attr)
                self.report(t, "%s.%s can be set" % (c.name, t.attr), None if e else "%s exposes no attribute %s that can be set" % (c.name, t.attr))
                if e:
                    b = self.prog.fns.get(e.user)
                    ts = [x for x, n in zip(b["locals"][1:1 + b["argc"]], b.get("argnames") or []) if n != "self"] if b else []
                    if len(ts) == 1:
                        self.typed(t, "%s.%s" % (c.name, t.attr), ts[0], v)
        elif isinstance(t, ast.Subscript):
            self.expr(t.value, env)
            self.expr(t.slice, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Import):
            for a in s.names:
                env[(a.asname or a.name).split(".")[0]] = ("mod",) if a.name == MODULE else None
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                env[a.asname or a.name] = self.member(s, a.name) if s.module == MODULE else None
        elif isinstance(s, ast.Assign):
            v = self.expr(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.bind(s.target, self.expr(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.expr(s.value, env)
            if isinstance(s.target, ast.Attribute):
                self.expr(ast.copy_location(ast.Attribute(s.target.value, s.target.attr, ast.Load()), s.target), env)
            self.bind(s.target, None, env)
        elif isinstance(s, ast.If):
            self.expr(s.test, env)
            a, b = dict(env), dict(env)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ends = [leaves(s.body), leaves(s.orelse)]
            self.join(env, *[x for x, y in zip((a, b), ends) if not y] or (a, b))
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.expr(s.test, env)
            else:
                it = self.expr(s.iter, env)
                elts = it[1] if it and it[0] == "tuple" else None
            # what the loop assigns is not known at its head
            a = dict(env)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    a[n.id] = None
            if not isinstance(s, ast.While) and elts and not s.orelse:
                for e in elts:
                    self.bind(s.target, e, a)
                    self.block(s.body, a)
            else:
                if not isinstance(s, ast.While):
                    self.bind(s.target, None, a)
                self.block(s.body, a)
                self.block(s.orelse, a)
            self.join(env, dict(env), a)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.expr(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, None, env)
            self.block(s.body, env)
        elif isinstance(s, ast.Try):
            a = dict(env)
            self.block(s.body, a)
            outs = [a]
            for h in s.handlers:
                b = dict(env)
                self.join(b, dict(env), a)
                self.block(h.body, b)
                if not leaves(h.body):
                    outs.append(b)
            self.join(env, *outs)
            self.block(s.orelse, env)
            self.block(s.finalbody, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = ("ufn", s, None) if env is self.env and not s.decorator_list and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s)) else None
        elif isinstance(s, ast.AsyncFunctionDef):
            env[s.name] = None
        elif isinstance(s, ast.ClassDef):
            env[s.name] = ("ucls", s) if env is self.env and not s.decorator_list and not s.bases and not s.keywords else None
        elif isinstance(s, ast.Return):
            self.returns.append(self.expr(s.value, env) if s.value is not None else ("none",))
        elif isinstance(s, ast.Match):
            self.expr(s.subject, env)
            outs = [dict(env)]
            for c in s.cases:
                b = dict(env)
                self.block(c.body, b)
                outs.append(b)
            self.join(env, *outs)
        else:
            for n in ast.iter_child_nodes(s):
                if isinstance(n, ast.expr):
                    self.expr(n, env)

    # ---- expressions
    def member(self, node, name):
        ty = self.byname.get(name)
        self.report(node, "%s.%s exists" % (MODULE, name), None if ty or name.startswith("__") else "the module has no class %s" % name)
        return ("cls", ty) if ty else None

    def expr(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.Constant):
            v = e.value
            return ("str", v) if isinstance(v, str) else ("num", "bool") if isinstance(v, bool) else ("num", "int") if isinstance(v, int) else ("num", "float") if isinstance(v, float) else ("none",) if v is None else None
        if isinstance(e, ast.JoinedStr):
            out = ""
            for p in e.values:
                if isinstance(p, ast.Constant):
                    out += p.value
                else:
                    v = self.expr(p.value, env)
                    if v and v[0] == "str" and p.format_spec is None and v[1] is not None:
                        out += v[1]
                    else:
                        out += HOLE
            return ("str", out)
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left, env), self.expr(e.right, env)
            if isinstance(e.op, ast.Mod) and a and a[0] == "str":
                return self.percent(a[1], b, e.right)
            if isinstance(e.op, ast.Add) and a and b and a[0] == b[0] == "str":
                return ("str", a[1] + b[1] if a[1] is not None and b[1] is not None else None)
            if a and b and a[0] == b[0] == "num":
                return ("num", "float" if "float" in (a[1], b[1]) or isinstance(e.op, ast.Div) else "int") if not isinstance(e.op, ast.Pow) else None
            return None
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env)
            return v if isinstance(e.op, (ast.USub, ast.UAdd)) and v and v[0] == "num" else None
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = []
            for x in e.elts:
                v = self.expr(x.value if isinstance(x, ast.Starred) else x, env)
                if isinstance(x, ast.Starred):
                    if not v or v[0] != "tuple" or vs is None:
                        vs = None
                    else:
                        vs += v[1]
                elif vs is not None:
                    vs.append(v)
            return ("tuple", tuple(vs)) if vs is not None else None
        if isinstance(e, ast.Dict):
            ks = [self.expr(k, env) if k is not None else None for k in e.keys]
            vs = [self.expr(v, env) for v in e.values]
            if all(k and k[0] == "str" and k[1] is not None for k in ks) and len({k[1] for k in ks}) == len(ks):
                return ("dict", tuple((k[1], v) for k, v in zip(ks, vs)))
            return None
        if isinstance(e, ast.IfExp):
            self.expr(e.test, env)
            a, b = self.expr(e.body, env), self.expr(e.orelse, env)
            return a if a == b else None
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value, env)
            self.bind(e.target, v, env)
            return v
        if isinstance(e, ast.Subscript):
            o = self.expr(e.value, env)
            i = self.expr(e.slice, env)
            if o and o[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and -len(o[1]) <= e.slice.value < len(o[1]):
                return o[1][e.slice.value]
            if o and o[0] == "dict" and i and i[0] == "str":
                return dict(o[1]).get(i[1])
            return None
        if isinstance(e, ast.Attribute):
            return self.load(e, self.expr(e.value, env))
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, SCOPES):
            sub = dict(env)
            for n in ast.walk(e):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    sub[n.id] = None
                elif isinstance(n, ast.arg):
                    sub[n.arg] = None
            if isinstance(e, ast.Lambda):
                self.expr(e.body, sub)
                return ("ufn", e, None) if env is self.env else None
            g = e.generators[0]
            it = self.expr(g.iter, env)
            if len(e.generators) == 1 and not g.ifs and isinstance(e, (ast.ListComp, ast.GeneratorExp)) and it and it[0] == "tuple" and len(it[1]) <= 40:
                out = []
                for v in it[1]:
                    one = dict(sub)
                    self.bind(g.target, v, one)
                    out.append(self.expr(e.elt, one))
                return ("tuple", tuple(out))
            else:
                for g in e.generators:
                    self.expr(g.iter, sub)
                    for c in g.ifs:
                        self.expr(c, sub)
                for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    self.expr(x, sub)
            return None
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.expr(n, env)
        return None

    def load(self, e, o):
        if o is None:
            return None
        if o[0] == "mod":
            return self.member(e, e.attr)
        if o[0] == "none":
            self.report(e, "there is an object to read %s from" % e.attr, "%s is read from None" % e.attr)
            return None
        if o[0] == "uinst":
            fn = next((x for x in o[1].body if isinstance(x, ast.FunctionDef) and x.name == e.attr), None)
            if fn is None:
                return self.objs.get((o[1], e.attr))
            if not fn.decorator_list:
                return ("ufn", fn, o)
            if len(fn.decorator_list) == 1 and isinstance(fn.decorator_list[0], ast.Name) and fn.decorator_list[0].id == "property":
                return self.apply(fn, [o], {})
            return None
        if o[0] in ("str", "dict"):
            return ("txt", o, e.attr)
        if e.attr.startswith("__") or o[0] not in ("cls", "inst"):
            return None
        c = self.tab[o[1]]
        kinds = ("class", "static", "method", "classattr", "getter") if o[0] == "inst" else ("class", "static", "method", "classattr")
        hit = [(k, c.get(k, e.attr)) for k in kinds if c.get(k, e.attr)]
        self.report(e, "%s.%s exists" % (c.name, e.attr), None if hit else "%s exposes no %s named %s" % (c.name, "attribute or method" if o[0] == "inst" else "constructor", e.attr))
        if not hit:
            return None
        k, x = hit[0]
        if k == "getter":
            b = self.prog.fns.get(x.user)
            if b is None:
                return None
            if e.attr == "solver_conf" and o[2] is True:
                return ("none",)
            return self.value(b["locals"][0])
        return ("fn", o, x) if k != "classattr" else None

    def value(self, ty, fixed=None):
        t = inner(self.prog, ty)
        if t in self.tab:
            return ("inst", t, fixed)
        if t in ("alloc::string::String", "str"):
            return ("str", None)
        if t in NUMS:
            return ("num", "float" if t in ("f64", "f32") else "int") if t == inner(self.prog, ty) == ty else None
        return None

    def percent(self, t, b, node):
        """text % values"""
        if t is None:
            return ("str", None)
        vs = list(b[1]) if b and b[0] == "tuple" else [b]
        out, parts = "", re.split(r"(%%|%[-+ 0#]*\d*(?:\.\d+)?[a-zA-Z])", t)
        for p in parts:
            if p == "%%":
                out += "%"
            elif re.fullmatch(r"%.*[a-zA-Z]", p or ""):
                v = vs.pop(0) if vs else None
                out += v[1] if p == "%s" and v and v[0] == "str" and v[1] is not None else HOLE
            else:
                out += p
        return ("str", out)

    def text(self, v):
        """JSON text of a value built from literals, None if it is not known"""
        if v is None:
            return HOLE
        if v[0] == "str":
            return json.dumps(v[1] if v[1] is not None else HOLE)
        if v[0] == "num":
            return {"bool": "true", "int": "1", "float": HOLE}.get(v[1], HOLE)
        if v[0] == "none":
            return "null"
        if v[0] == "tuple":
            return "[" + ", ".join(map(self.text, v[1])) + "]"
        if v[0] == "dict":
            return "{" + ", ".join(json.dumps(k) + ": " + self.text(x) for k, x in v[1]) + "}"
        return HOLE

    def apply(self, fn, args, kws):
        """call of one of the script's own functions; the value it returns where all returns agree"""
        a = fn.args
        self.applied += 1
        if self.depth > 8 or self.applied > 4000:
            return None
        env = dict(self.env)
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {n: None for n in names + [p.arg for p in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]}
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            vals[n] = self.expr(d, dict(self.env))
        if args is None or kws is None:
            vals = {n: None for n in vals}
        else:
            vals.update(zip(names, args))
            vals.update({k: v for k, v in kws.items() if k in vals})
            if a.vararg and len(args) >= len(names):
                vals[a.vararg.arg] = ("tuple", tuple(args[len(names):]))
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                env[n.id] = None
        for n, v in vals.items():
            self.bind(ast.Name(n, ast.Store()), v, env)
        if isinstance(fn, ast.Lambda):
            self.depth += 1
            v = self.expr(fn.body, env)
            self.depth -= 1
            return v
        self.depth += 1
        old, self.returns = self.returns, []
        self.block(fn.body, env)
        got, self.returns = self.returns, old
        self.depth -= 1
        if not got:
            return ("none",)
        if not leaves(fn.body):
            got.append(("none",))
        return got[0] if all(g == got[0] for g in got) else None

    def call(self, e, env):
        f = self.expr(e.func, env)
        args, plainargs = [], True
        for x in e.args:
            v = self.expr(x.value if isinstance(x, ast.Starred) else x, env)
            if isinstance(x, ast.Starred) and v and v[0] == "tuple":
                args += [(x.value, y) for y in v[1]]
            else:
                args.append((x, v))
                plainargs = plainargs and not isinstance(x, ast.Starred)
        kws = []
        for k in e.keywords:
            v = self.expr(k.value, env)
            if k.arg is None and v and v[0] == "dict":
                kws += [(n, k.value, y) for n, y in v[1]]
            else:
                kws.append((k.arg, k.value, v))
        plainkws = all(k[0] is not None for k in kws)
        name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        if f and f[0] == "partial":
            args, kws = list(f[2]) + args, [k for k in f[3] if k[0] not in [x[0] for x in kws]] + kws
            f = f[1]
        if f and f[0] == "ufn":
            vs = ([f[2]] if f[2] else []) + [v for _a, v in args]
            return self.apply(f[1], vs if plainargs else None, {k: v for k, _n, v in kws} if plainkws else None)
        if f and f[0] == "ucls":
            o = ("uinst", f[1])
            init = next((x for x in f[1].body if isinstance(x, ast.FunctionDef) and x.name == "__init__"), None)
            if init is not None:
                self.apply(init, [o] + [v for _a, v in args] if plainargs else None, {k: v for k, _n, v in kws} if plainkws else None)
            return o
        if f and f[0] == "txt":
            o, what = f[1], f[2]
            if o[0] == "dict":
                if what == "items" and not args:
                    return ("tuple", tuple(("tuple", (("str", k), v)) for k, v in o[1]))
                if what == "values" and not args:
                    return ("tuple", tuple(v for _k, v in o[1]))
                if what == "keys" and not args:
                    return ("tuple", tuple(("str", k) for k, _v in o[1]))
                if what == "get" and args and args[0][1] and args[0][1][0] == "str":
                    return dict(o[1]).get(args[0][1][1])
                return None
            t = o[1]
            if t is None or not plainargs or not plainkws:
                return ("str", None) if what in ("format", "replace", "strip", "lower", "upper") else None
            vals = [v[1] if v and v[0] == "str" and v[1] is not None else HOLE for _a, v in args]
            if what == "format":
                try:
                    return ("str", t.format(*vals, **{k: (v[1] if v and v[0] == "str" and v[1] is not None else HOLE) for k, _n, v in kws}))
                except (ValueError, IndexError, KeyError, AttributeError, TypeError):
                    return ("str", None)
            if what == "replace" and len(vals) == 2 and vals[0] != HOLE:
                return ("str", t.replace(*vals))
            if what in ("strip", "lower", "upper") and not vals:
                return ("str", getattr(t, what)())
            return None
        if f is None and isinstance(e.func, ast.Name):
            if name == "getattr" and len(args) in (2, 3) and args[1][1] and args[1][1][0] == "str" and args[1][1][1] is not None and args[0][1] and len(args) == 2:
                return self.load(ast.copy_location(ast.Attribute(e.args[0], args[1][1][1], ast.Load()), e), args[0][1])
            if name in ("str", "repr") and len(args) == 1:
                v = args[0][1]
                return v if v and v[0] == "str" and name == "str" else ("str", HOLE)
            if name in ("list", "tuple") and len(args) == 1:
                return args[0][1] if args[0][1] and args[0][1][0] == "tuple" else None
            if name == "zip" and args and all(v and v[0] == "tuple" for _a, v in args):
                return ("tuple", tuple(("tuple", x) for x in zip(*[v[1] for _a, v in args])))
            if name == "enumerate" and len(args) == 1 and args[0][1] and args[0][1][0] == "tuple":
                return ("tuple", tuple(("tuple", (("num", "int"), x)) for x in args[0][1][1]))
            if name == "map" and len(args) == 2 and args[0][1] and args[0][1][0] == "ufn" and args[1][1] and args[1][1][0] == "tuple":
                g = args[0][1]
                return ("tuple", tuple(self.apply(g[1], ([g[2]] if g[2] else []) + [v], {}) for v in args[1][1][1]))
            if name == "dict" and not args and plainkws:
                return ("dict", tuple((k, v) for k, _n, v in kws))
        if f is None and name == "partial" and args and args[0][1] and plainargs and plainkws:
            return ("partial", args[0][1], tuple(args[1:]), tuple(kws))
        if f is None and name == "dumps" and len(args) == 1 and args[0][1]:
            return ("str", self.text(args[0][1]))
        if f is None:
            if isinstance(e.func, ast.Name) and e.func.id in ("copy", "deepcopy") and len(args) == 1 or isinstance(e.func, ast.Attribute) and e.func.attr in ("copy", "deepcopy") and isinstance(e.func.value, ast.Name) and e.func.value.id == "copy" and len(args) == 1:
                return args[0][1] if args[0][1] and args[0][1][0] == "inst" else None
            return None
        if f[0] == "cls":
            c = self.tab[f[1]]
            x = c.get("slot", "__new__")
            what = c.name
            if x is None:
                self.report(e, "%s(...) can be constructed" % what, "%s has no constructor" % what)
                return None
        elif f[0] == "fn":
            c = self.tab[f[1][1]]
            x = f[2]
            what = "%s.%s" % (c.name, x.name)
            if x.kind == "method" and f[1][0] == "cls":
                args = args[1:]
        else:
            return None
        fixed = self.arguments(e, what, c.ty, x, args, kws)
        b = self.prog.fns.get(x.user) if x.user else None
        if b is None:
            return ("inst", c.ty, None) if f[0] == "cls" else None
        if x.name in ("clone", "__copy__", "__deepcopy__") and f[0] == "fn" and f[1][0] == "inst":
            return f[1]
        if inner(self.prog, b["locals"][0]) == "()":
            return ("none",)
        return self.value(b["locals"][0], fixed)

    def arguments(self, e, what, ty, x, args, kws):
        """obligations of one call; returns whether the constructed system has a fixed step"""
        if x.params is None:
            self.report(e, what + "(...) is accepted", "?the accepted arguments were not found")
            return None
        self.stats["calls"] += 1
        if any(isinstance(a, ast.Starred) for a, _ in args) or any(k is None for k, _, _ in kws):
            self.report(e, what + "(...) is accepted", "?arguments are unpacked")
            return None
        got = {}
        bad = None
        if len(args) > len(x.params):
            bad = "%d arguments are given, %s takes %d" % (len(args), what, len(x.params))
        for n, (a, v) in zip(x.params, args):
            got[n] = (a, v)
        allowed = list(x.params) + [k[0] for k in x.kwonly]
        for k, a, v in kws:
            if k in got:
                bad = bad or "argument %s is given twice" % k
            elif k not in allowed:
                bad = bad or "%s takes no argument %s" % (what, k)
            got[k] = (a, v)
        missing = [n for n in x.params[:x.required] if n not in got] + [k[0] for k in x.kwonly if k[1] is True and k[0] not in got]
        if missing:
            bad = bad or "%s needs %s" % (what, ", ".join(missing))
        self.report(e, what + "(...) passes the arguments it takes", bad)
        b = self.prog.fns.get(x.user) if x.user else None
        if b is None or bad:
            return None
        tys = dict(zip(b.get("argnames") or [], b["locals"][1:1 + b["argc"]]))
        fixed = None
        for n, (a, v) in got.items():
            if n not in tys or v is None:
                continue
            self.typed(a, "argument %s of %s" % (n, what), tys[n], v)
            t = inner(self.prog, tys[n])
            if v[0] == "str" and setting(self.prog, ty) is not None and x.kind == "slot" and t in ("alloc::string::String", "str"):
                if v[1] is None:
                    self.report(a, "solver configuration of " + what, "?the text is not known")
                else:
                    p = self.conf.problem(v[1])
                    self.stats["texts"] += 1
                    self.report(a, "solver configuration of " + what, p if p is None or p.startswith("?") else "%s %s" % (v[1], p))
                    if p is None:
                        vs = self.conf.variants.get(next(iter(json.loads(v[1]))))
                        fixed = bool(vs) and not any("AdaptiveSolverConfig" in f["ty"] for f in vs["fields"])
        return fixed

    def typed(self, node, what, ty, v):
        """a value of known kind for a parameter of known type"""
        t = inner(self.prog, ty)
        bad = None
        optional = "Option<" in ty
        if v is None or v[0] not in ("none", "inst", "num", "str", "tuple"):
            return
        if v[0] == "none":
            bad = None if optional else "None is given"
        elif t in self.tab:
            if v[0] != "inst" or v[1] != t:
                bad = "%s is given" % (self.tab[v[1]].name if v[0] == "inst" else v[0])
        elif t in NUMS:
            if v[0] != "num" or (t in INTS and v[1] == "float"):
                bad = "%s is given for %s" % (self.tab[v[1]].name if v[0] == "inst" else v[1] if v[0] == "num" else v[0], t)
        elif t == "bool":
            if v != ("num", "bool"):
                bad = "%s is given for a flag" % (v[0],)
        elif t in ("alloc::string::String", "str"):
            if v[0] != "str":
                bad = "%s is given for a text" % (self.tab[v[1]].name if v[0] == "inst" else v[0])
        elif t.startswith("alloc::vec::Vec<"):
            if v[0] in ("num", "str") or v[0] == "inst" and not self.tab[v[1]].get("slot", "__len__"):
                bad = "%s is given for a list" % (self.tab[v[1]].name if v[0] == "inst" else v[0])
        else:
            return
        self.report(node, what + " has the right kind", bad)


def p40(r, tier):
    r.rule("Forward flow of module objects through the syntax tree of every shipped Python script (both arms of branches, loop bodies, function bodies): every class, constructor, method and attribute met exists in the compiled registration "
           "tables, every call passes accepted arguments of the right kind, and every solver text is accepted by the compiled readers of solver names and settings.")
    prog, tab = table(r)
    conf = Settings(r, prog)
    e = exports(r, prog, tab)
    exported = e[1] if e else set(tab)
    files = sorted(p for p in glob.glob(os.path.join(core.REPO, "**", "*.py"), recursive=True) if "/target/" not in p and "/.git/" not in p)
    stats = {"n": 0, "calls": 0, "texts": 0}
    used = 0
    for p in files:
        try:
            src = open(p, encoding="utf-8").read()
            if MODULE not in src:
                continue
            s = Script(r, prog, tab, exported, conf, p, stats)
            used += 1
        except (SyntaxError, UnicodeDecodeError) as e:
            r.violation(os.path.relpath(p, core.REPO), p, "the script does not parse: %s" % e)
    r.floor("scripts", used, 3)
    # (scripts may be shortened, with helpers and loops in place of repeated blocks)
    r.floor("script obligations", stats["n"], 60)
    r.floor("script calls", stats["calls"], 15)
    r.floor("solver texts", stats["texts"], 3)
