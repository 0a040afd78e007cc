#!/usr/bin/env python3
"""Systematic one-token mutants of /repo's sources (development only): sweep.py SEED COUNT [FILE-SUBSTRING]
builds each in a slot of mut.py, drops those the stable tests notice, and runs the checks until one reports.
What survives is either equivalent or a gap."""
import sys, os, json, re, subprocess, random, glob, concurrent.futures as cf
import importlib.util
spec = importlib.util.spec_from_file_location("mut", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.py"))
mut = importlib.util.module_from_spec(spec)
argv, sys.argv = sys.argv, sys.argv[:1]
spec.loader.exec_module(mut)
SEED, COUNT = int(argv[1]), int(argv[2])
SUB = argv[3] if len(argv) > 3 else ""
FILES = [f for f in subprocess.run("git -C /repo ls-files '*.rs'", shell=True, capture_output=True, text=True).stdout.split()
         if "/tests/" not in f and "build.rs" not in f and "benches" not in f and SUB in f]
SWAPS = [(" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" += ", " -= "), (" -= ", " += "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
         (" < ", " > "), (" == ", " != "), (" && ", " || "), (" || ", " && "), (".min(", ".max("), (".max(", ".min("), ("true", "false"), ("false", "true"), (".first()", ".last()"), (".last()", ".first()"),
         (".any(", ".all("), (".all(", ".any("), ("Some(", "None.or(Some("), ("!", ""), ("_0", "_1"), ("k1", "k2"), ("k3", "k2"), ("k4", "k3"), ("delta5", "delta4"), ("sc_mut()", "sc_mut()"), (".abs()", ""), (".sqrt()", ""),
         ("rtol", "atol"), ("atol", "rtol"), ("dt_used", "dt"), ("s0", "s1"), ("s1", "s0"), ("is_ok", "is_err"), ("ok_or", "ok_or"), ("0.", "1."), ("1.", "2."), ("c1", "c2"), ("h12", "h23"), ("m1", "m2"), ("m3", "m2"),
         (".powf(", ".mul_add(0.0, "), ("bare_clone()", "clone()"), ("derivs()", "states()"), ("states()", "derivs()"), ("set_deriv", "step_deriv"), ("step_deriv", "set_deriv"), ("set_state", "step_state"), ("step_state", "set_state"),
         ("json", "yaml"), ("yaml", "json"), ("use_state", "save_state"), ("save_state", "use_state"), ("skip_get", "skip_set"), ("dt_max", "dt_init"), ("norm_err", "rtol")]


def mutants():
    out = []
    for f in FILES:
        ls = open("/repo/" + f).read().split("\n")
        for n, l in enumerate(ls):
            if "#[cfg(test)]" in l:
                break
            c = l.split("//")[0]
            if not c.strip() or l.strip().startswith(("use ", "mod ", "pub mod", "pub use", "extern", "println", "panic!")):
                continue
            for a, b in SWAPS:
                for m in re.finditer(re.escape(a), c):
                    w = c[:m.start()] + b + c[m.end():]
                    if a == "!" and c[m.end():m.end() + 1] in ("(", "[", "{", "="):
                        continue
                    out.append((f, n, w))
            for m in re.finditer(r"(?<![\w.#])(\d+)(\.\d*)?(?![\w.])", c):
                i, d = m.group(1), m.group(2)
                for v in {str(int(i) + 1) + (d or ""), ("0" if i != "0" else "1") + (d or "")} | ({i + d + "5"} if d and d != "." else set()):
                    out.append((f, n, c[:m.start()] + v + c[m.end():]))
            s = c.strip()
            if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "type", "const", "pub ")) and c.startswith("        ") and s.count("(") == s.count(")"):
                out.append((f, n, "        ();"))
            m = re.match(r"(\s*(?:\} else )?if )(?!let)(.*)( \{)$", c)
            if m:
                out.append((f, n, m.group(1) + "true" + m.group(3)))
                out.append((f, n, m.group(1) + "false" + m.group(3)))
            if s.startswith("#[") and not s.startswith("#[py") and s.endswith("]"):
                out.append((f, n, ""))
    return sorted({x for x in out if x[2] != open("/repo/" + x[0]).read().split("\n")[x[1]]})


ORDER = json.load(open("/verif/MANIFEST.json"))["checks"]
allp = [c["property"] for c in ORDER]
SLOW = ["P03", "P22", "P35", "P19"]
allp = [p for p in allp if p not in SLOW] + SLOW
FIRST = {"solver.rs": "P01 P13 P15 P16 P04 P05 P02 P03 P06", "solver_attr": "P12 P07 P08 P31", "history_vec": "P10 P23", "history_methods": "P09", "bare_clone": "P11", "pyo3_api": "P22 P23 P31", "components": "P18 P17",
         "main": "P32", "three": "P17 P39 P08", "pyo3/src/lib": "P25 P24", "traits": "P28 P20 P29 P41", "utilities": "P28 P29"}


def order(f):
    l = []
    for k, v in FIRST.items():
        if k in f:
            l += v.split()
    return list(dict.fromkeys(l + allp))


def one(m):
    f, n, new = m
    s = mut.take()
    try:
        mut.resync_verif(s)
        p = "/tmp/mut/s%d/repo/%s" % (s, f)
        ls = open(p).read().split("\n")
        old = ls[n]
        ls[n] = new
        open(p, "w").write("\n".join(ls))
        rc, o = mut.inslot(s, "bash /opt/vp/build.sh")
        if rc:
            return m, old, "nobuild"
        mut.inslot(s, "timeout -k 5 100 bash /opt/vp/test.sh /opt/vp/out.json")
        try:
            t = json.load(open("/tmp/mut/s%d/vp/out.json" % s))
        except Exception:
            return m, old, "tests"
        passed = set(t.get("passed") or t.get("pass") or [])
        if [x for x in mut.STABLE if x not in passed]:
            return m, old, "tests"
        und = []
        for q in order(f):
            rc, o = mut.inslot(s, "cd /verif; timeout 900 ./check %s" % q)
            if rc == 1:
                return m, old, "caught " + q + (" und " + ",".join(und) if und else "")
            if rc:
                return m, old, "ERROR %s rc %d" % (q, rc)
            u = re.search(r"(\d+) undecided", o)
            if not u or int(u.group(1)):
                und.append(q)
        return m, old, "SURVIVED und " + ",".join(und)
    except subprocess.TimeoutExpired:
        return m, old, "tests (time)"
    finally:
        mut.slots.put(s)


if __name__ == "__main__":
    M = mutants()
    print("%d mutants in %d files" % (len(M), len(FILES)), flush=True)
    random.Random(SEED).shuffle(M)
    if COUNT == 0:
        sys.exit()
    mut.snapshot()
    n = len(glob.glob("/tmp/mut/s*/repo"))
    for i in range(n):
        mut.slots.put(i)
    with cf.ThreadPoolExecutor(n) as ex:
        for fu in cf.as_completed([ex.submit(one, m) for m in M[:COUNT]]):
            m, old, res = fu.result()
            print("%-40s %s:%d\n      - %s\n      + %s" % (res, m[0], m[1] + 1, old.strip(), m[2].strip()), flush=True)
