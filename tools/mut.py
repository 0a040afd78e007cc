#!/usr/bin/env python3
"""Mutation bench (development only; no check uses it). Runs patches against copies of /repo and /verif, bind-mounted
over the real ones in private mount namespaces, so that several run at once.
  mut.py sync N                      make N slots under /tmp/mut
  mut.py seeds [ID..]                validate /verif/seeded entries: build, tests, demo, own check
  mut.py checks PATCH.. [-p P01,..]  run checks on a tree with PATCH applied; prints which report
"""
import concurrent.futures as cf, glob, json, os, queue, re, subprocess, sys, shutil
ROOT = "/tmp/mut"
V = "/verif"
slots = queue.Queue()


def sh(c, timeout=1500):
    p = subprocess.run(["bash", "-c", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def inslot(s, cmd, timeout=1500):
    d = "%s/s%d" % (ROOT, s)
    return sh("unshare -m bash -c 'mount --bind %s/repo /repo; mount --bind %s/verif /verif; mount --bind %s/vp /opt/vp; cd /repo; %s'" % (d, d, d, cmd.replace("'", "'\\''")), timeout)


def sync(n):
    for i in range(n):
        d = "%s/s%d" % (ROOT, i)
        os.makedirs(d, exist_ok=True)
        print(sh("mkdir -p {d}/repo {d}/verif {d}/vp; rsync -a --delete /repo/ {d}/repo/ 2>/dev/null || (rm -rf {d}/repo; cp -a /repo {d}/repo); rsync -a --delete /verif/ {d}/verif/ 2>/dev/null || (rm -rf {d}/verif; cp -a /verif {d}/verif); rsync -a /opt/vp/ {d}/vp/ 2>/dev/null || (rm -rf {d}/vp; cp -a /opt/vp {d}/vp)".format(d=d))[1])


SNAP = "/tmp/mut/snap.%d" % os.getpid()


def snapshot():
    """the checks as they are now, so that editing them while a bench runs changes nothing"""
    if not os.path.isdir(SNAP):
        sh("mkdir -p {n}/probe {n}/driver; cp -a /verif/driver/src {n}/driver/; cp -a /verif/sa /verif/check /verif/known-findings.txt /verif/MANIFEST.json {n}/; cp -a /verif/probe/src /verif/probe/Cargo.toml /verif/probe/Cargo.lock {n}/probe/; rm -rf {n}/sa/__pycache__".format(n=SNAP))
        import atexit
        atexit.register(lambda: shutil.rmtree(SNAP, ignore_errors=True))


def resync_verif(s):
    d = "%s/s%d" % (ROOT, s)
    snapshot()
    sh("rm -rf {d}/verif/sa {d}/verif/probe/src {d}/verif/driver/src; cp -a {n}/. {d}/verif/".format(d=d, n=SNAP))


def take():
    s = slots.get()
    inslot(s, "git checkout -q -- .; git clean -fdq")
    return s


STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def seed(i):
    p = "%s/seeded/%s" % (V, i)
    s = take()
    try:
        resync_verif(s)
        dd = "%s/s%d/demo" % (ROOT, s)
        sh("rm -rf %s; mkdir -p %s; cp -a %s/. %s/; rm -f %s/patch.diff %s/meta.json" % (dd, dd, p, dd, dd, dd))
        rc0, o0 = inslot(s, "bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash %s/demo.sh" % dd)
        pf = "%s/s%d/cur.diff" % (ROOT, s)
        shutil.copy(p + "/patch.diff", pf)
        rc, o = inslot(s, "git apply %s && bash /opt/vp/build.sh" % pf)
        if rc:
            return i, "BUILD-FAILS " + o[-800:], "", ""
        inslot(s, "timeout -k 5 120 bash /opt/vp/test.sh /opt/vp/out.json; pkill -9 -f deps/dess_examples || true")
        t = json.load(open("%s/s%d/vp/out.json" % (ROOT, s)))
        passed = set(t.get("passed") or t.get("pass") or [])
        miss = [x for x in STABLE if x not in passed]
        rc1, o1 = inslot(s, "timeout 300 bash %s/demo.sh" % dd)
        pid = json.load(open(p + "/meta.json"))["property"]
        rc2, o2 = inslot(s, "cd /verif; ./check %s" % pid)
        ok = rc0 == 0 and rc1 != 0 and not miss
        return i, "valid" if ok else "INVALID base=%s mut=%s tests-lost=%s\n%s\n%s" % (rc0, rc1, miss[:3], o0[-600:], o1[-600:]), \
            "caught" if rc2 == 1 and "VIOLATION property=" + pid in o2 else "MISSED", o2[-700:]
    finally:
        slots.put(s)


def checks(a):
    patch, pids = a
    s = take()
    try:
        resync_verif(s)
        pf = "%s/s%d/cur.diff" % (ROOT, s)
        shutil.copy(patch, pf)
        rc, o = inslot(s, "git apply %s" % pf)
        if rc:
            return patch, {"apply": o}
        res = {}
        for pid in pids:
            rc, o = inslot(s, "cd /verif; ./check %s" % pid)
            und = re.search(r"(\d+) undecided", o)
            res[pid] = (rc, int(und.group(1)) if und else -1, o)
        return patch, res
    finally:
        slots.put(s)


if __name__ == "__main__":
    if sys.argv[1] == "sync":
        sync(int(sys.argv[2]))
        sys.exit()
    n = len(glob.glob(ROOT + "/s*/repo"))
    for i in range(n):
        slots.put(i)
    ex = cf.ThreadPoolExecutor(n)
    if sys.argv[1] == "seeds":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        for i, st, c, o in ex.map(seed, ids):
            print("%s: %s, %s" % (i, st, c))
            if c == "MISSED":
                print("   " + o.replace("\n", "\n   "))
    else:
        a = sys.argv[2:]
        pids = None
        if "-p" in a:
            k = a.index("-p")
            pids = a[k + 1].split(",")
            a = a[:k] + a[k + 2:]
        verbose = "-v" in a
        a = [x for x in a if x != "-v"]
        if not pids:
            pids = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        for patch, res in ex.map(checks, [(x, pids) for x in a]):
            if "apply" in res:
                print(patch, "DOES NOT APPLY", res["apply"][-300:])
                continue
            print(patch, "violations:", [p for p in pids if res[p][0] == 1], "errors:", [p for p in pids if res[p][0] not in (0, 1)],
                  "undecided:", {p: res[p][1] for p in pids if res[p][1]})
            if verbose:
                for p in pids:
                    if res[p][0] or res[p][1]:
                        print("   " + res[p][2][-1500:].replace("\n", "\n   "))
