"""Analysing one function on symbolic arguments."""
from interp import *
import values
import core


def short_ty(t):
    return t.split("::")[-1]


def part(v, i):
    return lift(lambda a: poison(a) or (a.fs[i] if isinstance(a, Agg) and i < len(a.fs) else unk("part %s" % i)), v)


def fidx(prog, ty):
    return {f["name"]: k for k, f in enumerate(prog.adts[ty]["variants"][0]["fields"])}


def fields(prog, ty):
    return prog.adts[ty]["variants"][0]["fields"]


def attr(f, name):
    return any(name in a for a in f.get("attrs") or [])


def marked(f):
    return attr(f, "use_state") or attr(f, "save_state")


def setpart(v, i, x):
    return lift(lambda a, y: a.with_field(i, y) if isinstance(a, Agg) else poison(a) or unk("set part"), v, x)


class NeverReturns(Exception):
    """an operation that the property builds on never returns: args = (function, where)"""


class Run:
    """result of a function body on symbolic (or given) arguments"""

    def __init__(self, prog, key, args=(), I=None, names=None, mem=None):
        values.MU_FREE[0] = ()
        self.prog, self.key = prog, key
        self.I = I = I or Interp(prog)
        self.body = b = prog.fns[key]
        self.where = "%s (%s)" % (key, b.get("span"))
        self.st = st = State(dict(mem) if mem else None)
        self.args = []
        self.roots = []
        self.init = []
        args = list(args)
        for i in range(b["argc"]):
            ty = b["locals"][1 + i]
            a = args[i] if i < len(args) else None
            t = prog.types.get(ty, {"k": "?"})
            nm = (names or {}).get(i, "a%d" % i)
            root = None
            if t["k"] == "ref" and not isinstance(a, (Ref, VRef)):
                v = a if a is not None else self.sym(nm, t["to"])
                r = I.alloc(st, v, "arg")
                root = r.root
                self.init.append(v)
                self.args.append(r)
            else:
                v = a if a is not None else self.sym(nm, ty)
                self.init.append(v)
                self.args.append(v)
            self.roots.append(root)
        self.value, self.end, self.cond = I.run_top(b, self.args, st, key)

    def sym(self, nm, ty):
        t = self.prog.types.get(ty, {"k": "?"})
        if t["k"] in ("slice", "array"):
            ety = t["elem"]
            return self.I.symvec((nm,), ety)
        return self.I.symval((nm,), ty)

    def out(self, i):
        """what reference argument i refers to at the end"""
        return self.end.mem[self.roots[i]] if self.end and self.cond is not False else UNDEF

    def ret(self):
        return self.I.freeze(self.end, self.value) if self.end and self.cond is not False else UNDEF


def find(prog, ty, name, trait=0):
    """key of method `name` of ty (trait: 0 any, None inherent)"""
    ks = [k for (t, tr, n), k in prog.methods.items() if t == ty and n == name and (trait == 0 or tr == trait or (trait and tr and tr.endswith("::" + trait)))]
    ks = sorted(x for k in ks for x in k)
    return ks[0] if ks else None


def run(r, prog, key, inst, args=(), **kw):
    """Run or None with an undecided obligation"""
    if key is None:
        r.violation("anchor:" + inst, inst, "the function this property is about is gone")
        return None
    try:
        x = Run(prog, key, args, **kw)
    except Unmodelled as e:
        r.undecided(inst, "not analysable: %s" % e)
        return None
    r.saw(*x.I.visited)
    if x.end is None or x.cond is False:
        r.violation(inst, x.where, "never returns normally" + "".join("; %s (%s)" % (p.what, p.where) for p in x.I.panics[:2]))
        return None
    return x


def returns(r, x, inst, care=True):
    """does the function return normally wherever care holds"""
    return r.check(inst + " returns normally", x.where, compare(x.cond, True, care))
