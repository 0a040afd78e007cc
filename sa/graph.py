"""Call graph over the compiled bodies."""


def mentions(body):
    """(kind, record, span): functions, closures, statics and casts mentioned in live blocks of a body"""
    out = []

    def go(x, sp):
        if isinstance(x, dict):
            f = x.get("f")
            if isinstance(f, dict) and "path" in f:
                out.append(("fn", f, sp))
            ak = x.get("ak")
            if isinstance(ak, dict) and ak.get("k") == "closure":
                out.append(("closure", ak, sp))
            if x.get("k") == "static":
                out.append(("static", x, sp))
            if "ck" in x:
                out.append(("cast", x, sp))
            if x.get("k") == "asm":
                out.append(("asm", x, sp))
            for v in x.values():
                go(v, sp)
        elif isinstance(x, list):
            for v in x:
                go(v, sp)
    for b in body["blocks"]:
        for s in b["s"]:
            go(s, s[-1] if isinstance(s[-1], str) else None)
        go(b["t"], b["t"].get("sp"))
    return out


class Graph:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def callees(self, key):
        """[(callee key or None, record, span)]"""
        if key in self.memo:
            return self.memo[key]
        out = []
        b = self.prog.fns.get(key) or self.prog.consts.get(key)
        for kind, x, sp in mentions(b) if b else ():
            if kind == "fn":
                inst = x.get("inst")
                if inst in self.prog.fns:
                    out.append((inst, x, sp))
                elif x.get("trait") and (not x.get("rpath") or str((x.get("args") or [""])[0]).startswith("dyn ")):
                    ks = sorted(k for (t, tr, n), l in self.prog.methods.items() if tr == x["trait"] and n == x.get("name") for k in l)
                    ks += [k for k in ("<Self as %s>::%s" % (x["trait"], x.get("name")),) if k in self.prog.fns and k not in ks]
                    if ks:
                        for k in ks:
                            out.append((k, x, sp))
                    else:
                        out.append((None, dict(x, open=True), sp))
                else:
                    out.append((None, x, sp))
            elif kind == "closure":
                k = x.get("inst")
                out.append((k if k in self.prog.fns else None, {"path": str(k), "closure": True}, sp))
            else:
                out.append((None, dict(x, kind=kind), sp))
        for c in consts_of(b) if b else ():
            if c in self.prog.consts and self.prog.consts[c]:
                out.append((c, {"path": c}, None))
        self.memo[key] = out
        return out

    def reach(self, roots):
        """key -> (parent, span) for everything reachable"""
        par = {k: None for k in roots}
        todo = list(roots)
        while todo:
            k = todo.pop()
            for c, x, sp in self.callees(k):
                if c is not None and c not in par:
                    par[c] = (k, sp)
                    todo.append(c)
        return par

    def path(self, par, k):
        out = [k]
        while par.get(k):
            k = par[k][0]
            out.append(k)
        return out[::-1]


def consts_of(body):
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "const" and isinstance(x.get("key"), str):
                out.append(x["key"])
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(body["blocks"])
    return out
