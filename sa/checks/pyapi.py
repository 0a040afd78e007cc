"""P22-P25 and the Python side of P21: the exposed classes, their attributes, methods, constructors and exports."""
from interp import *
from checks.base import *
from checks.files import IORun, iorun, failed, logpred, nopanic, errors as io_errors
from iomodel import text_, val_, result_parts, plain, unpublished
from models import split_opt, RES, OPT
import pytable

SETTING = "dess::solver::SolverTypes"
_tab = {}


def table(r, cfg="py"):
    prog = core.prog(cfg)
    if id(prog) not in _tab:
        _tab[id(prog)] = pytable.classes(prog)
    t = _tab[id(prog)]
    if cfg == "py":
        r.floor("exposed classes", len(t), 14)
    else:
        # the library's own classes are decided in the other configuration
        t = {k: c for k, c in t.items() if k.startswith("dess_probe")}
        r.floor("exposed probe classes", len(t), 12)
    return prog, t


def tables(r):
    """(program, class, exposed names) of the shipped module and of the probe types"""
    for cfg in ("py", "probepy"):
        prog, t = table(r, cfg)
        for ty, c in sorted(t.items()):
            if ty in prog.adts:
                yield prog, ty, c


def is_result(prog, ty):
    return prog.types.get(ty, {}).get("path") == RES


def rty(x):
    return x.body["locals"][0]


def outcome(prog, x):
    """(condition that a value is returned, the value)"""
    v = plain(x.I, x.end, x.ret()) if x.end else UNDEF
    if is_result(prog, rty(x)):
        return result_parts(v)
    return True, v


def field_of(prog, ty, name):
    for k, f in enumerate(fields(prog, ty)):
        if f["name"] == name:
            return k
    return None


def special(prog, c, name, x):
    """the two derived attributes of a system: (care, expected value)"""
    k = setting(prog, c.ty)
    if k is None:
        return None
    s = part(x.init[0], k)
    if name == "solver_type":
        return True, text_("json", s)
    if name == "solver_conf":
        def conf(a):
            if not isinstance(a, Agg):
                return poison(a) or unk("solver setting")
            vs = prog.adts[SETTING]["variants"]
            t = vs[a.var]["fields"][0]["ty"]
            if "AdaptiveSolverConfig" in t:
                return some(plain(x.I, x.st, a.fs[0]))
            return none()
        return True, lift(conf, s)
    return None


def p22(r, tier):
    r.rule("For every attribute registered with Python, the compiled getter, analysed on a symbolic object, returns that object's like-named field (a copy) and leaves the object as it was; every field without an opt-out "
           "mark has an attribute; the systems' solver_conf and solver_type give the adaptive configuration of the solver setting and the setting's JSON text.")
    r.assume("pyo3's registration constants and trampolines bind a name to the function they mention")
    n = m = 0
    for prog, ty, c in tables(r):
        nm = short_ty(ty)
        for (kind, name), e in sorted(c.entries.items()):
            if kind == "setter":
                continue
            if kind != "getter":
                continue
            inst = "%s.%s" % (nm, name)
            if e.user is None:
                r.undecided(inst, "no wrapped function found behind %s" % e.where)
                continue
            x = iorun(r, prog, e.user, inst)
            if x is None:
                continue
            if x.end is None:
                r.violation(inst, x.where, "never returns normally")
                continue
            n += 1
            k = field_of(prog, ty, name)
            okc, v = outcome(prog, x)
            sp = special(prog, c, name, x)
            if sp is not None:
                want = sp[1]
                m += 1
            elif k is None:
                r.undecided(inst, "no field of this name")
                continue
            else:
                want = part(x.init[0], k)
            care = vand(x.cond, vnot(failed(x)))
            r.check(inst + " gives a value", x.where, compare(okc, True, care))
            r.check(inst + " reads the %s it is named after" % ("setting" if sp else "field"), x.where, compare(plain(x.I, x.end, v), want, vand(x.cond, okc)))
            r.check(inst + " returns whenever its operations succeed", x.where, compare(x.cond, True, vnot(failed(x))))
            r.check(inst + " changes nothing", x.where, compare(x.out(0), x.init[0], x.cond))
            r.check(inst + " has no outside effect", x.where, compare(logpred(x.log(), lambda ev: not ev), True, x.cond))
        for k, f in enumerate(fields(prog, ty)):
            if attr(f, "skip_get"):
                continue
            inst = "%s.%s is offered" % (nm, f["name"])
            if c.get("getter", f["name"]) or f["name"].startswith("_"):
                r.ok(inst)
            else:
                r.violation(inst, prog.adts[ty].get("span") or ty, "field %s of %s is not opted out of having an attribute, yet no attribute of that name is registered" % (f["name"], nm))
        if setting(prog, ty) is not None and not ty.startswith("dess_probe"):
            for a in ("solver_conf", "solver_type"):
                inst = "%s.%s is offered" % (nm, a)
                if c.get("getter", a):
                    r.ok(inst)
                else:
                    r.violation(inst, nm, "the attribute %s is not registered" % a)
    r.floor("attributes", n, 60)
    r.floor("solver attributes of systems", m, 4)


def setting(prog, ty):
    """index of the solver setting among the fields of a system"""
    for k, f in enumerate(fields(prog, ty)):
        if prog.types.get(f["ty"], {}).get("path") == SETTING:
            return k
    return None


def core_key(prog, ty, name):
    """the core operation a Python method is named after"""
    if name == "default":
        return prog.method(ty, "core::default::Default", "default")
    if name in SAVELOAD:
        from checks.files import impl
        ks = impl(prog, name, ty) or [k for k in impl(prog, name) if k.startswith("<Self")]
        return ks[0] if ks else None
    ks = sorted(k for (t, tr, n), l in prog.methods.items() if t == ty and n == name and not (tr or "").startswith("core::") for k in l)
    return ks[0] if ks else None


SAVELOAD = {"to_file": 1, "from_file": 1, "to_json": 0, "from_json": 1, "to_yaml": 0, "from_yaml": 1, "to_bincode": 0, "from_bincode": 1}
COPIES = {"clone": 0, "__copy__": 0, "__deepcopy__": 1}
STATIC = ("default", "from_file", "from_json", "from_yaml", "from_bincode")
NAMES = ["run.json", "out/a.b.yaml", "x.txt", "x", "", " b.json", "/d/x y.yaml"]


def required(prog, ty):
    """name -> number of arguments Python passes"""
    q = {"default": 0}
    q.update(SAVELOAD)
    q.update(COPIES)
    inh = {n for (t, tr, n) in prog.methods if t == ty}
    if "HistoryVec" in ty:
        q["len"] = 0
    if "dt_mean" in inh:
        q["dt_mean"] = 0
    if setting(prog, ty) is not None:
        q["walk"] = 0
    return q


def walked(I, v):
    return I.symval(("after the walk of", repr(v)), v.ty) if isinstance(v, Agg) else agg("walked", 0, (v,))


def walk_contract(calls):
    def h(I, fi, args, st, cond, t):
        tr = fi.get("trait") or ""
        if fi.get("name") == "walk" and (tr.startswith("dess::") or fi["path"].startswith(("dess", "<dess"))) and args:
            import models as M
            ref = M.final_ref(I, st, args[0])
            v = I.freeze(st, I.load(st, ref))
            calls.append(cond)
            s = st.copy()
            I.emit(s, "walk")
            # an arbitrary object, known only as the result of the run
            return UNIT, I.store(s, ref, walked(I, v)), True
        return None
    return h


def user_args(prog, key, e, given):
    """arguments of a wrapped function: `given` (name -> value) for the ones Python passes, symbolic otherwise"""
    names = prog.fns[key].get("argnames") or []
    return [given.get(n) if n in (e.params or ()) else None for n in names]


def drop_log(x):
    return x.log()


def same_as_core(r, prog, ty, e, inst, name, fname=None):
    given = {}
    if fname is not None:
        given = {n: strv(fname) for n in e.params}
        inst = "%s(%r)" % (inst, fname)
    x = iorun(r, prog, e.user, inst, user_args(prog, e.user, e, given))
    if x is None:
        return
    key = core_key(prog, ty, name)
    b = prog.fns[e.user]
    names = b.get("argnames") or []
    own = [x.init[i] for i, n in enumerate(names) if n == "self" or n in (e.params or ())]
    if key is None:
        r.undecided(inst, "the core operation %s of %s was not found" % (name, ty))
        return
    own = [plain(x.I, x.st, a) for a in own]
    y = iorun(r, prog, key, inst + " (core)", own)
    if y is None:
        return
    if x.end is None or y.end is None:
        (r.violation if (x.end is None) != (y.end is None) else r.undecided)(inst, x.where, "one of wrapper and core operation never returns") if (x.end is None) != (y.end is None) else r.undecided(inst, "never returns")
        return
    okx, vx = outcome(prog, x)
    oky, vy = outcome(prog, y)
    r.check(inst + " returns exactly when the core operation does", x.where, compare(x.cond, y.cond, True))
    both = vand(x.cond, y.cond)
    r.check(inst + " succeeds exactly when the core operation does", x.where, compare(okx, oky, both))
    r.check(inst + " gives what the core operation gives", x.where, compare(vx, vy, vand(both, vand(okx, oky))))
    r.check(inst + " has the core operation's outside effects", x.where, compare(drop_log(x), drop_log(y), both))
    if names[:1] == ["self"] and x.roots[0] is not None and y.roots[0] is not None:
        r.check(inst + " leaves the object as the core operation does", x.where, compare(x.out(0), y.out(0), both))


def p23(r, tier):
    r.rule("For every exposed class, each documented method is registered under its name, on the class or on the instance as documented, callable with the documented number of arguments; the wrapped function and the core "
           "operation of that name, analysed on the same symbolic object and arguments, agree on outcome, value, file effects and final object; the copy methods give the object's value; walk runs the core walk exactly once.")
    r.assume("pyo3's registration constants and trampolines bind a name to the function they mention and convert arguments faithfully",
             "file and format operations that are given the same arguments have the same outcome in both runs")
    n = 0
    for prog, ty, c in tables(r):
        nm = short_ty(ty)
        for name, nargs in required(prog, ty).items():
            inst = "%s.%s" % (nm, name)
            e = c.get("class", name) or c.get("static", name) if name in STATIC else c.get("method", name) or c.get("slot", name)
            if e is None:
                other = [k for (k, m) in c.entries if m == name]
                r.violation(inst + " is offered", nm, "no %s of this name is registered%s" % ("class method" if name in STATIC else "method", ", only a %s" % other[0] if other else ""))
                continue
            r.ok(inst + " is offered")
            n += 1
            if e.params is None:
                r.undecided(inst + " can be called", "parameter description of %s not understood" % e.where)
            else:
                kwreq = [k[0] for k in e.kwonly if k[1]]
                if e.required <= nargs <= len(e.params) and not kwreq:
                    r.ok(inst + " can be called with %d arguments" % nargs)
                else:
                    r.violation(inst + " can be called with %d arguments" % nargs, e.where, "takes %s, of which %d are required%s" % (e.params, e.required, ", and required keywords %s" % kwreq if kwreq else ""))
                    continue
            if e.user is None:
                r.undecided(inst, "no wrapped function found behind %s" % e.where)
                continue
            if name in COPIES:
                x = iorun(r, prog, e.user, inst)
                if x is None or x.end is None:
                    if x is not None:
                        r.violation(inst, x.where, "never returns normally")
                    continue
                okc, v = outcome(prog, x)
                r.check(inst + " gives a value", x.where, compare(vand(x.cond, okc), True, True))
                r.check(inst + " gives the object's value", x.where, compare(v, x.init[0], x.cond))
                r.check(inst + " changes nothing", x.where, compare(x.out(0), x.init[0], x.cond))
                continue
            if name == "walk":
                calls = []
                x = iorun(r, prog, e.user, inst, contracts=[walk_contract(calls)])
                if x is None or x.end is None:
                    if x is not None:
                        r.violation(inst, x.where, "never returns normally")
                    continue
                if not calls:
                    r.violation(inst + " runs the system", x.where, "the core walk is not called on any path")
                    continue
                okc, v = outcome(prog, x)
                r.check(inst + " runs the core walk exactly once, on the object itself", x.where, compare(x.out(0), walked(x.I, x.init[0]), x.cond))
                r.check(inst + " returns normally", x.where, compare(vand(x.cond, okc), True, True))
                continue
            if name in ("to_file", "from_file"):
                for f in NAMES:
                    same_as_core(r, prog, ty, e, inst, name, f)
            else:
                same_as_core(r, prog, ty, e, inst, name)
    r.floor("documented methods", n, 170)


# ---------------------------------------------------------------- constructors
def setpath(prog, ty, v, path, x):
    """v with the field path replaced"""
    k = field_of(prog, ty, path[0])
    if k is None:
        return None
    if len(path) == 1:
        return setpart(v, k, x)
    inner = setpath(prog, fields(prog, ty)[k]["ty"], part(v, k), path[1:], x)
    return None if inner is None else setpart(v, k, inner)


def default_of(r, prog, ty, inst):
    key = prog.method(ty, "core::default::Default", "default")
    x = iorun(r, prog, key, inst + " (defaults of %s)" % short_ty(ty))
    if x is None or x.end is None:
        return None
    return x.ret()


def defaults_struct(r, prog, ty, inst):
    """a value of ty whose every field has its own type's default"""
    fs = []
    for f in fields(prog, ty):
        t = prog.types.get(f["ty"], {})
        if prog.method(f["ty"], "core::default::Default", "default"):
            d = default_of(r, prog, f["ty"], inst)
        elif t.get("k") == "float":
            d = ZERO
        elif t.get("k") in ("uint", "int"):
            d = ZERO
        elif t.get("k") == "bool":
            d = False
        elif t.get("path") == OPT:
            d = none()
        elif t.get("path") == "alloc::vec::Vec":
            d = items()
        else:
            d = unk("default of " + f["ty"])
        fs.append(d if d is not None else unk("default of " + f["ty"]))
    return agg(ty, 0, tuple(fs))


def orfalse(v):
    c, p = split_opt(v, 1)
    return ite(c, p, False)


def constructors(prog, tab):
    """(class, entry kind, name, {argument: field path or handler})"""
    cfg = "dess::solver::AdaptiveSolverConfig"
    out = []
    if cfg in tab:
        out.append((cfg, "slot", "__new__", {"dt_init": ("state", "dt"), "dt_max": ("dt_max",), "max_iter": ("max_iter",), "rtol": ("rtol",), "atol": ("atol",), "save": ("save",), "save_states": ("save_states",)}))
    for ty in sorted(tab):
        s = short_ty(ty)
        if s == "ThermalMass":
            out.append((ty, "slot", "__new__", {"c": ("c",), "temp0": ("state", "temp")}))
        elif s == "ThermalReservoir":
            out.append((ty, "slot", "__new__", {"temp0": ("state", "temp")}))
        elif s == "Conductance":
            out.append((ty, "slot", "__new__", {"h": ("h",)}))
        elif setting(prog, ty) is not None:
            sf = fields(prog, ty)[setting(prog, ty)]["name"]
            m = {x: (x,) for x in ("m1", "m2", "h12", "m3", "h23", "t_report")}
            out.append((ty, "slot", "__new__", dict(m, **{sf: ("text", sf)})))
            for meth, var in (("new_rk45_cash_karp", "RK45CashKarp"), ("new_rk23_bogacki_shampine", "RK23BogackiShampine")):
                out.append((ty, "class", meth, dict(m, sol=("variant", sf, var))))
    return out


def p24(r, tier):
    r.rule("Each Python constructor, analysed on symbolic arguments, returns exactly the object whose named fields are the arguments (initial step and temperature inside the state, the solver text parsed from JSON, the "
           "configuration boxed under the variant the constructor is named after) and whose other fields are the defaults of their types; a text that does not parse gives an error.")
    prog, tab = table(r)
    n = 0
    for ty, kind, name, fmap in constructors(prog, tab):
        inst = "%s%s" % (short_ty(ty), "" if name == "__new__" else "." + name)
        e = tab[ty].get(kind, name)
        if e is None:
            r.violation(inst + " is offered", ty, "this constructor is not registered")
            continue
        if e.user is None:
            r.undecided(inst, "no wrapped function found")
            continue
        x = iorun(r, prog, e.user, inst)
        if x is None:
            continue
        if x.end is None:
            r.violation(inst, x.where, "never returns normally")
            continue
        n += 1
        names = prog.fns[e.user].get("argnames") or []
        vals = {nm: plain(x.I, x.st, x.init[i]) for i, nm in enumerate(names) if nm in e.params}
        if set(e.params) != set(fmap):
            gone = sorted(set(fmap) - set(e.params))
            if gone:
                r.violation(inst + " takes its documented arguments", x.where, "no argument %s" % ", ".join(gone))
            else:
                r.undecided(inst, "further arguments %s" % sorted(set(e.params) - set(fmap)))
            continue
        want = defaults_struct(r, prog, ty, inst)
        good = True
        for a, path in fmap.items():
            v = vals[a]
            if path[0] == "text":
                # the text as parsed
                okp = [b for op, b, c in x.io.ops if op == "parse"]
                want = setpath(prog, ty, want, (path[1],), val_("json", v))
            elif path[0] == "variant":
                vs = [k for k, w in enumerate(prog.adts[SETTING]["variants"]) if w["name"] == path[2]]
                if not vs:
                    want = None
                else:
                    want = setpath(prog, ty, want, (path[1],), agg(SETTING, vs[0], (agg("box", 0, (v,)),)))
            else:
                ft = field_ty(prog, ty, path)
                at = prog.fns[e.user]["locals"][1 + names.index(a)]
                if prog.types.get(at, {}).get("path") == OPT and prog.types.get(ft or "", {}).get("k") == "bool":
                    v = orfalse(v)
                want = setpath(prog, ty, want, path, v)
            if want is None:
                good = False
                break
        if not good:
            r.undecided(inst, "field layout not understood")
            continue
        okc, v = outcome(prog, x)
        fail = failed(x)
        r.check(inst + " gives an object whenever its text parses", x.where, compare(okc, True, vand(x.cond, vnot(fail))))
        for k, f in enumerate(fields(prog, ty)):
            src = [a for a, p in fmap.items() if (p[0] == f["name"] or p[0] in ("text", "variant") and p[1] == f["name"])]
            r.check("%s: field %s is %s" % (inst, f["name"], "argument " + ", ".join(src) if src else "the default"), x.where,
                    compare(part(v, k), part(want, k), vand(x.cond, okc)))
        r.check(inst + " returns normally unless its text does not parse", x.where, compare(x.cond, True, vnot(fail)))
        r.check(inst + " has no outside effect", x.where, compare(logpred(x.log(), lambda ev: not ev), True, x.cond))
    r.floor("constructors", n, 10)


def field_ty(prog, ty, path):
    for p in path:
        k = field_of(prog, ty, p)
        if k is None:
            return None
        ty = fields(prog, ty)[k]["ty"]
    return ty


REQUIRED = ["AdaptiveSolverConfig", "System3TM", "System3TMWithBC", "ThermalMass", "ThermalReservoir", "Conductance"]


def mentions(prog, ty, tab, seen=None):
    """exposed classes inside a type"""
    seen = seen if seen is not None else set()
    if ty in seen:
        return set()
    seen.add(ty)
    if ty in tab:
        return {ty}
    t = prog.types.get(ty, {})
    out = set()
    for x in list(t.get("args") or []) + [t.get("to"), t.get("elem")] + list(t.get("elems") or t.get("fields") or []):
        if isinstance(x, str):
            out |= mentions(prog, x, tab, seen)
    return out


def exports(r, prog, tab):
    """(analysed module function, classes it adds whenever no addition fails); None when it cannot be followed"""
    keys = sorted(k for k, b in prog.fns.items() if b.get("crate") == "dess_pyo3" and b["argc"] == 2 and any("pyo3::types::module::PyModule" in t for t in b["locals"][1:3]))
    keys = [k for k in keys if "__" not in k and "closure" not in k and not k.endswith("::init")]
    main = [k for k in keys if k + "::init" in prog.fns] or keys[:1]
    if not main:
        r.violation("anchor:module", "dess-examples-pyo3/src/lib.rs", "the module function is gone")
        return None
    x = iorun(r, prog, main[0], "module")
    if x is None:
        return None
    if x.end is None:
        r.violation("module", x.where, "never returns normally")
        return None
    okc, _ = result_parts(x.ret())
    care = vand(x.cond, vnot(failed(x)))
    r.check("the module initialises when every addition succeeds", x.where, compare(vand(x.cond, okc), True, vnot(failed(x))))

    def adds(cls):
        return logpred(x.log(), lambda ev: any(e[0] == "add_class" and e[1].s == cls for e in ev))
    exported = set()
    for ty in sorted(tab):
        c = adds(ty)
        m = compare(c, True, care)
        if not m:
            exported.add(ty)
        elif has_unk(c):
            r.undecided("export of " + short_ty(ty), repr(m[0]))
            exported.add(ty)
    return x, exported


def p25(r, tier):
    r.rule("The module function's compiled body adds, whenever no addition fails, every class its users can get hold of: the closure of the added classes under the argument and result types of every registered attribute, "
           "method and constructor; the documented classes are among them and no two added classes share a Python name.")
    prog, tab = table(r)
    e = exports(r, prog, tab)
    if e is None:
        return
    x, exported = e
    n = 0
    for ty in sorted(exported):
        for (kind, name), e in sorted(tab[ty].entries.items()):
            if e.user is None:
                r.undecided("%s.%s" % (short_ty(ty), name), "no wrapped function found")
                continue
            b = prog.fns[e.user]
            for t in b["locals"][:1 + b["argc"]]:
                for q in sorted(mentions(prog, t, tab)):
                    n += 1
                    inst = "%s, met through %s.%s, is exported" % (short_ty(q), short_ty(ty), name)
                    if q in exported:
                        r.ok(inst)
                    else:
                        r.violation(inst, x.where, "the module never adds class %s" % q)
    for nm in REQUIRED:
        if any(short_ty(t) == nm for t in exported):
            r.ok(nm + " is exported")
        else:
            r.violation(nm + " is exported", x.where, "the module does not add %s on every successful path" % nm)
    names = {}
    for t in sorted(exported):
        nm = tab[t].name
        if nm in names and nm is not None:
            r.violation("Python names are distinct", x.where, "%s and %s are both exported as %s" % (names[nm], t, nm))
        names[nm] = t
    r.ok("Python names are distinct", ", ".join(sorted(str(x) for x in names)))
    r.floor("class mentions", n, 150)


def errors(r):
    """P21: loading and saving through Python and constructing from text report failures as exceptions"""
    prog, tab = table(r)
    n = 0
    for ty, c in sorted(tab.items()):
        if ty not in prog.adts:
            continue
        todo = [(k, nm) for (k, nm) in sorted(c.entries) if nm in ("to_file", "from_file", "from_json", "from_yaml", "from_bincode")]
        if setting(prog, ty) is not None:
            todo.append(("slot", "__new__"))
        for k, nm in todo:
            e = c.get(k, nm)
            inst = "Python %s.%s" % (short_ty(ty), nm)
            if e is None or e.user is None:
                r.undecided(inst, "no wrapped function found")
                continue
            for f in (["run.yaml", "x.txt"] if nm.endswith("_file") else [None]):
                x = iorun(r, prog, e.user, inst, user_args(prog, e.user, e, {q: strv(f) for q in e.params} if f else {}))
                if x is None:
                    continue
                n += 1
                if x.end is None:
                    r.violation(inst, x.where, "never returns normally")
                    continue
                io_errors(r, x, inst + ("(%r)" % f if f else ""))
    r.floor("Python operations that can fail", n, 80)
