#!/usr/bin/env python3
"""Batch bench (development only): muts.py FILE.py [NAME..] -- each entry of M: dict(name, prop (None: behaviour-preserving), edits=[(file, old, new)], nth={file: k});
builds it in a slot of mut.py, runs the stable tests and all checks (or -p P01,P02)."""
import sys, os, json, re, subprocess, concurrent.futures as cf, glob, shutil
sys.argv0 = sys.argv
import importlib.util
spec = importlib.util.spec_from_file_location("mut", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.py"))
mut = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mut)
a = sys.argv[1:]
pids = None
notest = "-n" in a
a = [x for x in a if x != "-n"]
if "-p" in a:
    k = a.index("-p")
    pids = a[k + 1].split(",")
    a = a[:k] + a[k + 2:]
allp = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
ns = {}
exec(open(a[0]).read(), ns)
M = [m for m in ns["M"] if len(a) == 1 or m["name"] in a[1:]]
mut.snapshot()
OUT = "/tmp/mut/out"
os.makedirs(OUT, exist_ok=True)


def edit(root, m):
    seen = {}
    for f, old, new in m["edits"]:
        p = root + "/" + f
        t = open(p).read()
        n = m.get("nth", {}).get(f)
        if n == "all":
            assert old in t, (m["name"], f, old)
            t = t.replace(old, new)
        else:
            c = t.count(old)
            if n is None:
                assert c == 1, "%s: %s occurs %d times in %s" % (m["name"], old[:60], c, f)
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)


def one(m):
    s = mut.take()
    try:
        mut.resync_verif(s)
        try:
            edit("/tmp/mut/s%d/repo" % s, m)
        except AssertionError as e:
            return m, "EDIT " + str(e), {}
        rc, o = mut.inslot(s, "bash /opt/vp/build.sh")
        if rc:
            return m, "BUILD-FAILS " + o[-900:], {}
        st = ""
        if not notest:
            mut.inslot(s, "timeout -k 5 150 bash /opt/vp/test.sh /opt/vp/out.json")
            t = json.load(open("/tmp/mut/s%d/vp/out.json" % s))
            passed = set(t.get("passed") or t.get("pass") or [])
            miss = [x for x in mut.STABLE if x not in passed]
            st = "tests lost %s" % miss if miss else ""
        res = {}
        for p in pids or ([m["prop"]] if m.get("prop") and ns.get("OWN") else allp):
            rc, o = mut.inslot(s, "cd /verif; timeout 900 ./check %s" % p)
            u = re.search(r"(\d+) undecided", o)
            res[p] = (rc, int(u.group(1)) if u else -1, o)
        with open("%s/%s.txt" % (OUT, m["name"]), "w") as f:
            for p, (rc, u, o) in res.items():
                if rc or u:
                    f.write("== %s rc=%d undecided=%d\n%s\n" % (p, rc, u, o[-6000:]))
        return m, st, res
    except subprocess.TimeoutExpired as e:
        return m, "TIMEOUT %s" % e, {}
    finally:
        mut.slots.put(s)


n = len(glob.glob("/tmp/mut/s*/repo"))
for i in range(n):
    mut.slots.put(i)
with cf.ThreadPoolExecutor(n) as ex:
    for m, st, res in ex.map(one, M):
        v = [p for p in res if res[p][0] == 1]
        e = [p for p in res if res[p][0] not in (0, 1)]
        u = {p: res[p][1] for p in res if res[p][1] and res[p][0] == 0}
        want = m.get("prop")
        verdict = "??" if st and not res else ("FALSE-ALARM" if (v or e) else "quiet") if not want else ("caught" if want in v else ("other" if v else "MISSED"))
        print("%-45s %-4s %-11s viol=%s err=%s und=%s %s" % (m["name"], want or "-", verdict, ",".join(v), ",".join(e), u, st), flush=True)
