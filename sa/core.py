"""Runner: builds the driver, dumps /repo's resolved program, runs one property's analysis, writes evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
DRIVER = os.path.join(BUILD, "driver", "debug", "dess-sa-driver")
CONFIGS = {
    "std": (REPO, ["check", "--workspace", "--exclude", "dess-examples-pyo3"],
            ["dess", "dess_examples", "dess_examples-bin", "dess_proc_macros"]),
    "py": (REPO, ["check", "-p", "dess-examples-pyo3"], ["dess", "dess_examples", "dess_pyo3"]),
    "probe": (os.path.join(VERIF, "probe"), ["check"], ["dess", "dess_probe"]),
    "probepy": (os.path.join(VERIF, "probe"), ["check", "--features", "pyo3"], ["dess", "dess_probe"]),
}


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for dp, dns, fns in os.walk(root):
            dns[:] = sorted(d for d in dns if d not in (".git", "target", ".build", "__pycache__", "fixtures", "python"))
            for f in sorted(fns):
                if f == "Cargo.lock" and dp == REPO:
                    continue
                p = os.path.join(dp, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


_sys = []


def sysroot():
    if not _sys:
        _sys.append(sh(["rustc", "+nightly", "--print", "sysroot"], VERIF)[1].strip())
    return _sys[0]


def base_env():
    return {"CARGO_NET_OFFLINE": "true", "PYO3_PYTHON": "/usr/bin/python3.12", "CARGO_TERM_COLOR": "never"}


def build_driver():
    src = tree_hash([os.path.join(VERIF, "driver")])
    stamp = os.path.join(BUILD, "driver.stamp")
    with Lock("driver.lock"):
        if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == src:
            return src
        rc, out = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(BUILD, "driver")],
                     os.path.join(VERIF, "driver"), base_env())
        if rc:
            raise RuntimeError("driver does not build:\n" + out[-3000:])
        with open(stamp, "w") as f:
            f.write(src)
    return src


class BuildFailed(Exception):
    pass


def purge(target):
    """forget what cargo knows of the analysed crates, so that they are compiled (and dumped) again"""
    for sub in ("build", "incremental", ".fingerprint", "deps"):
        d = os.path.join(target, "debug", sub)
        if os.path.isdir(d):
            for x in os.listdir(d):
                if re.match(r"(lib)?dess", x):
                    p = os.path.join(d, x)
                    shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def dump(cfg):
    """directory with the dumps of configuration cfg for the current source tree"""
    drv = build_driver()
    cwd, args, want = CONFIGS[cfg]
    roots = [REPO] if not cfg.startswith("probe") else [os.path.join(REPO, "dess"), cwd]
    key = tree_hash(roots) + "-" + drv[:8]
    out = os.path.join(BUILD, "dumps", cfg, key)
    ok = os.path.join(out, "OK")
    with Lock("dump-%s.lock" % cfg):
        if os.path.exists(ok):
            os.utime(ok)
            return mode_dir(out)
        par = os.path.dirname(out)
        os.makedirs(par, exist_ok=True)
        old = sorted((os.path.join(par, x) for x in os.listdir(par)), key=os.path.getmtime)
        for x in old[:-6]:
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        target = os.path.join(BUILD, "target-" + cfg)
        purge(target)
        env = base_env()
        env.update({"RUSTC_WRAPPER": DRIVER, "LD_LIBRARY_PATH": sysroot() + "/lib", "DESS_DUMP_DIR": out,
                    "CARGO_TARGET_DIR": target, "RUSTFLAGS": ""})
        rc, txt = sh(["cargo", "+nightly"] + args, cwd, env)
        if rc:
            raise BuildFailed(txt[-4000:])
        for w in want:
            if not os.path.exists(os.path.join(out, w + ".json")):
                raise BuildFailed("no dump of %s\n%s" % (w, txt[-2000:]))
        # the same sources as compiled without debug assertions; kept only where that gives another program
        rel = os.path.join(out, "rel")
        os.makedirs(rel)
        purge(target)
        env.update({"DESS_DUMP_DIR": rel, "DESS_NO_ASSERTS": "1"})
        rc, txt = sh(["cargo", "+nightly"] + args, cwd, env)
        if rc:
            raise BuildFailed("without debug assertions:\n" + txt[-4000:])
        if all(same_file(os.path.join(out, w + ".json"), os.path.join(rel, w + ".json")) for w in want):
            shutil.rmtree(rel)
        open(ok, "w").close()
    return mode_dir(out)


NO_ASSERTS = bool(os.environ.get("SA_NO_ASSERTS"))
DIFFER = []   # a dump that was used differs without debug assertions


def same_file(a, b):
    with open(a) as f, open(b) as g:
        return f.read() == g.read()


def mode_dir(out):
    rel = os.path.join(out, "rel")
    if os.path.isdir(rel):
        DIFFER.append(rel)
        return rel if NO_ASSERTS else out
    return out


def second_pass(r):
    """the same analysis of the program compiled without debug assertions (cfg(debug_assertions), debug_assert!), where that is another one"""
    tmp = os.path.join(BUILD, "second.%s.%d" % (r.pid, os.getpid()))
    env = dict(os.environ, SA_NO_ASSERTS=tmp)
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), r.pid, "--" + r.tier], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=max(60, OVERALL - 60 - (time.time() - r.t0)))
        with open(tmp) as f:
            obl, viol, fns = json.load(f)
        r.obl += [(o[0] + " [no debug assertions]", o[1], o[2]) for o in obl]
        r.viol += [(v[0], v[1] + "\n    (in a build without debug assertions)") for v in viol]
        r.functions.update(fns)
        r.extra["second_pass"] = "program without debug assertions differs; analysed as well"
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        r.undecided("build without debug assertions", repr(e))
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


_progs = {}
PROBE_FAILED = []


# paths under which the checks know the library's and the examples' items; an item of that name that has moved to another
# module of its crate is given its old path back before the dumps are read
KNOWN = ["dess::SystemState", "dess::SystemStateHistoryVec", "dess::utilities::almost_eq"] + ["dess::solver::" + n for n in (
    "AdaptiveSolverConfig", "SolverState", "SolverStateHistoryVec", "SolverTypes", "SolverBase", "SolverVariantMethods")] + ["dess::traits_and_macros::" + n for n in (
        "HasState", "HasStates", "BareClone", "Flow", "Diff", "Linspace", "SerdeAPI")] + ["dess_examples::components::" + n for n in (
            "ThermalMass", "ThermalReservoir", "ThermalMassState", "ThermalMassStateHistoryVec", "Conductance", "ConductanceState", "ConductanceStateHistoryVec")] + [
    "dess_examples::three_thermal_mass_sys::System3TM", "dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC"]


def moved(d):
    """replacements new path -> known path"""
    import re
    out = {}
    for crate in ("dess", "dess_examples"):
        f = os.path.join(d, crate + ".json")
        if not os.path.exists(f):
            continue
        with open(f) as g:
            lib = json.load(g)
        names = set(lib["adts"]) | set(lib["traits"]) | set(k for k in lib["fns"] if "<" not in k)
        for k in KNOWN:
            if not k.startswith(crate + "::") or k in names:
                continue
            last = k.rsplit("::", 1)[1]
            c = [n for n in names if re.fullmatch(crate + r"::(\w+::)*" + last, n)]
            if len(c) == 1:
                out[c[0]] = k
    return out


def prog(cfg, crates=None):
    """analysed program of one configuration"""
    import re
    from interp import Prog
    k = (cfg, tuple(crates or ()))
    if k not in _progs:
        try:
            d = dump(cfg)
        except BuildFailed as e:
            if not cfg.startswith("probe"):
                raise
            # the probe's own shapes are not accepted any more: what the library and the examples do is still decided
            PROBE_FAILED.append(str(e))
            _progs[k] = Prog([])
            return _progs[k]
        texts = []
        for w in crates or [c for c in CONFIGS[cfg][2] if c not in ("dess_proc_macros", "dess_examples-bin")]:
            with open(os.path.join(d, w + ".json")) as f:
                texts.append((w, f.read()))
        ren = moved(d)
        if ren:
            rx = re.compile(r"(?<![\w:])(" + "|".join(re.escape(x) for x in sorted(ren, key=len, reverse=True)) + r")(?!\w)")
            texts = [(w, rx.sub(lambda m: ren[m.group(1)], t)) for w, t in texts]
        _progs[k] = Prog([json.loads(t) for _w, t in texts])
    return _progs[k]


# ---------------------------------------------------------------- reporting
class Report:
    """collects the obligations of one property"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obl = []         # (instance, status, detail)
        self.viol = []        # (key, text)
        self.functions = set()
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.extra = {}

    def rule(self, text):
        self.rules.append(text)

    def assume(self, *t):
        self.assumptions += t

    def ok(self, inst, detail=""):
        self.obl.append((inst, "holds", detail))

    def undecided(self, inst, why):
        self.obl.append((inst, "undecided", str(why)[:600]))

    def violation(self, inst, where, text, key=None):
        """inst: obligation, where: construct in the source, key: stable identity"""
        self.obl.append((inst, "violated", str(text)[:1500]))
        self.viol.append((key or inst, "%s\n    at %s\n    %s" % (inst, where, text)))

    def saw(self, *fns):
        self.functions.update(fns)

    def floor(self, what, got, need):
        """a rule that matches fewer instances than were confirmed by hand must not pass silently"""
        self.extra.setdefault("instance_counts", {})[what] = got
        if got < need:
            import core
            if any(o[1] == "undecided" for o in self.obl) or core.PROBE_FAILED:
                self.undecided("floor:" + what, "%d instances of %s found, %d expected, some code not analysable" % (got, what, need))
                return
            self.violation("floor:" + what, what, "only %d instances of %s found, %d expected: an anchor of this property is gone" % (got, what, need))

    def check(self, inst, where, mism, detail=""):
        """record the outcome of a value comparison"""
        d = [m for m in mism if m.kind == "definite"]
        if d:
            self.violation(inst, where, repr(d[0]))
            return False
        if mism:
            self.undecided(inst, repr(mism[0]))
            return None
        self.ok(inst, detail)
        return True

    def known(self):
        out = {}
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        new = []
        told = set()
        for k, text in self.viol:
            kk = k.replace(" ", "_")
            if kk in known:
                if kk not in told:
                    print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, known[kk], kk))
                told.add(kk)
            else:
                new.append((kk, text))
        n = {"holds": 0, "undecided": 0, "violated": 0}
        for _, s, _d in self.obl:
            n[s] += 1
        held = [o for o in self.obl if o[1] == "holds"]
        und = [o for o in self.obl if o[1] == "undecided"]
        cov = {
            "explanation": "Obligations decided by static analysis of the compiler's resolved MIR of /repo's working tree; nothing of /repo is executed. "
                           + " ".join(self.rules),
            "obligations": len(self.obl),
            "discharged": n["holds"],
            "undecided": n["undecided"],
            "violated": n["violated"],
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:200],
            "rules": self.rules,
            "samples": [{"obligation": o[0], "result": o[1], "detail": o[2]} for o in held[:12]] + self.samples[:6],
            "undecided_obligations": [{"obligation": o[0], "why": o[2]} for o in und[:40]],
        }
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        print("%s: %d obligations, %d hold, %d undecided, %d violated, %d functions, %.1f s" % (
            self.pid, len(self.obl), n["holds"], n["undecided"], n["violated"], len(self.functions), time.time() - self.t0))
        for o in und[:10]:
            print("  undecided: %s: %s" % (o[0], o[2][:200]))
        if new:
            rd = os.path.join(BUILD, "reports")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s.txt" % self.pid)
            with open(path, "w") as f:
                for k, t in new:
                    f.write("[%s] %s\n\n" % (k, t))
            for k, t in new[:8]:
                print("  " + t.replace("\n", "\n  "))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        return 0


def main():
    sys.setrecursionlimit(20000)
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    r = Report(pid, tier)
    import checks
    try:
        checks.run(pid, r, tier)
    except BuildFailed as e:
        r.violation("build", "cargo +nightly check", "the program to analyse does not compile:\n" + str(e), key="build")
    except checks.base.NeverReturns as e:
        r.violation(e.args[0] + " returns", e.args[1], "never returns normally")
    except (Exception, TimeIsUp):  # an analysis that cannot cope with the code gives no verdict
        import traceback
        tb = traceback.format_exc()
        r.undecided("analysis", tb[-580:])
        if os.environ.get("SA_DEBUG"):
            print(tb)
    import core   # the checks' own instance of this module
    for e in core.PROBE_FAILED[:1]:
        r.undecided("probe crate", "does not compile: " + e[-500:])
    if NO_ASSERTS:
        with open(os.environ["SA_NO_ASSERTS"], "w") as f:
            json.dump([r.obl, r.viol, sorted(r.functions)], f)
        sys.exit(0)
    if core.DIFFER or DIFFER:
        second_pass(r)
    sys.exit(r.finish())


def watch(t):
    """interrupts an analysis (or, at the overall limit, the whole check) that takes too long; what it would have decided is undecided"""
    import ctypes
    import interp
    start = time.time()
    show = float(os.environ.get("SA_STACK") or 0)
    while t.is_alive():
        t.join(0.5)
        now = time.time()
        if show and now - start > show:
            import traceback
            fs = traceback.format_stack(sys._current_frames()[t.ident])
            print("".join(f for f in fs if "terms.py" not in f)[-9000:], flush=True)
            show = 0
        late = interp.DEADLINE[0] and now > interp.DEADLINE[0]
        over = now - start > OVERALL
        if late or over:
            interp.DEADLINE[0] = 0
            if over:
                if now - start > OVERALL + 200:
                    print("no verdict within the time limit", flush=True)
                    os._exit(0)
                if watch.fired:
                    continue
                watch.fired = True
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(interp.OverTime if not over else TimeIsUp))


watch.fired = False


class TimeIsUp(BaseException):
    pass


OVERALL = 480
if __name__ == "__main__":
    if sys.argv[1] == "setup":
        build_driver()
        for c in CONFIGS:
            try:
                dump(c)
            except BuildFailed as e:
                print("setup: %s does not compile yet: %s" % (c, str(e)[-500:]))
        sys.exit(0)
    # deep terms need a deep C stack
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []

    def go():
        try:
            main()
        except SystemExit as e:
            rc.append(e.code)
    t = threading.Thread(target=go)
    t.start()
    watch(t)
    sys.exit(rc[0] if rc else 2)
