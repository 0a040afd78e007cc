"""P31: compile-pass and compile-fail witnesses for the macros, judged by the compiler (nothing is run)."""
import json, os, re, shutil
import core

HEAD = """#![allow(warnings)]
use dess::prelude::*;
use serde::{Deserialize, Serialize};
#[cfg(feature = "pyo3")]
use pyo3::prelude::*;
#[cfg(feature = "pyo3")]
use pyo3::types::{PyBytes, PyDict, PyType};
fn main() {}
"""
REC = """
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
pub struct Level { pub lvl: f64, pub dlvl: f64 }
"""
COMP = """
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Tank { pub area: f64, pub state: Level, pub history: LevelHistoryVec }
"""
IFACE = """
impl HasState for Tank {
    fn state(&self) -> f64 { self.state.lvl }
    fn set_state(&mut self, val: f64) { self.state.lvl = val; }
    fn deriv(&self) -> f64 { self.state.dlvl }
    fn set_deriv(&mut self, val: f64) { self.state.dlvl = val; }
    fn storage(&self) -> f64 { self.area }
}
"""
UPD = "fn update_derivs(&mut self) { self.reset_derivs(); self.tank.step_deriv(1.0); }"


def system(attr, marked="#[use_state] pub tank: Tank,", derive="HistoryMethods, BareClone, Default"):
    return "\n#[solver(%s)]\n#[derive(%s)]\n#[common_derives]\npub struct Sys { pub solver_type: SolverTypes, pub t_report: Vec<f64>, %s pub state: SystemState, pub history: SystemStateHistoryVec }\n" % (
        attr, derive, marked)


BASE = HEAD + REC + COMP + IFACE
HM = HEAD + REC + "\n#[derive(HistoryMethods, Default)]\n#[common_derives]\npub struct Thing { %s }\nfn use_it(t: &mut Thing) { t.save_state(); }\n"
API = HEAD + "\n#[pyo3_api(%s)]\n%s\n#[derive(Default)]\n#[common_derives]\npub struct Thing { %s }\n%s"
WALK = "impl Thing { pub fn walk(&mut self) { self.a += 1.0; } }\n"

# family -> (what is misused, documented use that compiles, [(name, misuse)])
FAMILIES = {
    "solver": (BASE + system(UPD), [
        ("no function at all", BASE + system("")),
        ("another function in its place", BASE + system("fn update_derivatives(&mut self) { self.reset_derivs(); }")),
        ("the name in another case", BASE + system("fn Update_derivs(&mut self) { self.reset_derivs(); }")),
        ("a further function after it", BASE + system(UPD + " fn extra(&self) -> f64 { 0.0 }")),
        ("a further function before it", BASE + system("fn extra(&self) -> f64 { 0.0 } " + UPD)),
        ("a method of the stepping trait beside it", BASE + system(UPD + " fn num_states(&self) -> usize { 3 }")),
        ("a provided stepping method replaced", BASE + system(UPD + " fn euler(&mut self, dt: &f64) { self.step_time(dt); }")),
        ("a constant beside it", BASE + system(UPD + " const K: f64 = 1.0;")),
        ("a constant before it", BASE + system("const K: f64 = 1.0; " + UPD)),
        ("a type beside it", BASE + system(UPD + " type T = f64;")),
        ("only a constant", BASE + system("const update_derivs: f64 = 1.0;")),
        ("text that is no function", BASE + system("update_derivs")),
        ("the function defined twice", BASE + system(UPD + " " + UPD)),
    ]),
    "marked components": (BASE + system(UPD), [
        ("a marked plain number", BASE + system(UPD, "#[use_state] pub tank: Tank, #[use_state] pub extra: f64,")),
        ("a marked component without the interface", HEAD + REC + COMP + system("fn update_derivs(&mut self) { self.reset_derivs(); }")),
        ("an interface without its storage", HEAD + REC + COMP + re.sub(r"    fn storage.*\n", "", IFACE) + system(UPD)),
        ("an interface without its derivative setter", HEAD + REC + COMP + re.sub(r"    fn set_deriv.*\n", "", IFACE) + system(UPD)),
        ("an interface without its state", HEAD + REC + COMP + re.sub(r"    fn state.*\n", "", IFACE) + system(UPD)),
        ("an interface without its state setter", HEAD + REC + COMP + re.sub(r"    fn set_state.*\n", "", IFACE) + system(UPD)),
        ("an interface without its derivative", HEAD + REC + COMP + re.sub(r"    fn deriv.*\n", "", IFACE) + system(UPD)),
        ("a marked component without record saving", HEAD + REC + COMP.replace("HistoryMethods, ", "") + IFACE + system(UPD)),
        ("a marked component without copying", HEAD + REC + COMP.replace("BareClone, ", "") + IFACE + system(UPD)),
    ]),
    "record saving": (HM % "pub state: Level, pub history: LevelHistoryVec", [
        ("neither a state nor a marked part", HM % "pub a: f64, pub history: LevelHistoryVec"),
        ("a history but no state", HM % "pub states: Level, pub history: LevelHistoryVec"),
        ("no fields but a number", HM % "pub a: f64"),
        ("a part marked otherwise", (HM % "#[serde(default)] pub a: f64")),
        ("a marked part that cannot save", HM % "#[save_state] pub a: f64"),
    ]),
    "Python method list": (API % ("fn scale(&self) -> f64 { self.a }", "", "pub a: f64", ""), [
        ("a constant", API % ("const K: f64 = 1.0;", "", "pub a: f64", "")),
        ("a constant after a function", API % ("fn scale(&self) -> f64 { self.a } const K: f64 = 1.0;", "", "pub a: f64", "")),
        ("a type", API % ("type T = f64;", "", "pub a: f64", "")),
        ("a macro call", API % ("foo!{}", "", "pub a: f64", "")),
        ("text that is no function", API % ("scale", "", "pub a: f64", "")),
        ("a function named default", API % ("fn default(&self) -> f64 { self.a }", "", "pub a: f64", "")),
        ("a function named default_py", API % ("fn default_py(&self) -> f64 { self.a }", "", "pub a: f64", "")),
        ("a function named default after another", API % ("fn scale(&self) -> f64 { self.a } fn default(&self) -> f64 { self.a }", "", "pub a: f64", "")),
        ("a function named default_py before another", API % ("fn default_py(&self) -> f64 { self.a } fn scale(&self) -> f64 { self.a }", "", "pub a: f64", "")),
        ("an undocumented helper on a field", API % ("", "", "#[no_get] pub a: f64", "")),
        ("the walk helper on a field-level name of its own", API % ("", "#[walks]", "pub a: f64", WALK)),
    ]),
}
# documented use that must compile
USES = {
    "a system with one marked component": BASE + system(UPD),
    "a system whose function has another body": BASE + system("/// doc\n fn update_derivs(&mut self) { let a = 1.0; if a > 0.5 { self.reset_derivs(); } }"),
    "a system without marked components": BASE + system("fn update_derivs(&mut self) {}", "#[save_state] pub tank: Tank,"),
    "record saving with a state and a history": HM % "pub state: Level, pub history: LevelHistoryVec",
    "record saving with a part marked save_state only": HEAD + REC + COMP + "\n#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\npub struct Thing { #[save_state] pub a: Tank }\nfn use_it(t: &mut Thing) { t.save_state(); }\n",
    "record saving with a part marked use_state only": HEAD + REC + COMP + "\n#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\npub struct Thing { #[use_state] pub a: Tank }\nfn use_it(t: &mut Thing) { t.save_state(); }\n",
    "record saving alone with a part marked save_state": HEAD + REC + COMP + "\n#[derive(HistoryMethods)]\npub struct Thing { #[save_state] pub a: Tank }\nfn use_it(t: &mut Thing) { t.save_state(); }\n",
    "a bare copy alone with a part marked save_state": HEAD + REC + COMP + "\n#[derive(BareClone, Clone, Default)]\npub struct Thing { #[save_state] pub a: Tank }\nfn use_it(t: &Thing) -> Thing { t.bare_clone() }\n",
    "record saving alone with a part marked use_state": HEAD + REC + COMP + "\n#[derive(HistoryMethods)]\npub struct Thing { #[use_state] pub a: Tank }\nfn use_it(t: &mut Thing) { t.save_state(); }\n",
    "a bare copy alone with a part marked use_state": HEAD + REC + COMP + "\n#[derive(BareClone, Clone, Default)]\npub struct Thing { #[use_state] pub a: Tank }\nfn use_it(t: &Thing) -> Thing { t.bare_clone() }\n",
    "a Python method list with one function": API % ("fn scale(&self) -> f64 { self.a }", "", "pub a: f64", ""),
    "a Python method list with several functions": API % ("fn scale(&self) -> f64 { self.a } #[new] fn __new__(a: f64) -> Self { Self { a } } fn defaults(&self) -> f64 { 1.0 }", "", "pub a: f64", ""),
    "an empty Python method list": API % ("", "", "pub a: f64", ""),
    "the skip_get helper": API % ("", "", "#[skip_get] pub a: f64, pub b: u32", ""),
    "the walk helper": API % ("", "#[walk]", "pub a: f64", WALK),
    "both helpers": API % ("", "#[walk]", "#[skip_get] pub a: f64, pub b: u32", WALK),
}

TOML = """[package]
name = "dess-witness"
version = "0.1.0"
edition = "2021"
autoexamples = true

[workspace]

[dependencies]
dess = { path = "%s/dess" }
serde = { version = "1.0.152", features = ["derive"] }
pyo3 = { version = "0.18.1", features = ["extension-module", "anyhow"], optional = true }

[features]
pyo3 = ["dep:pyo3", "dess/pyo3"]
"""


def compile_all(files, features):
    """file name -> (compiles, first error)"""
    d = os.path.join(core.BUILD, "witness")
    with core.Lock("witness.lock"):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "examples"))
        os.makedirs(os.path.join(d, "src"))
        open(os.path.join(d, "src", "lib.rs"), "w").close()
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(TOML % core.REPO)
        lock = os.path.join(core.REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        for k, text in files.items():
            with open(os.path.join(d, "examples", k + ".rs"), "w") as f:
                f.write(text)
        target = os.path.join(core.BUILD, "target-witness")
        core.purge(target)
        env = core.base_env()
        env.update({"CARGO_TARGET_DIR": target, "RUSTFLAGS": ""})
        rc, out = core.sh(["cargo", "+nightly", "check", "--offline", "--examples", "--keep-going", "--message-format=json"] + (["--features", features] if features else []), d, env)
    ok, err = set(), {}
    other = []
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            other.append(l)
            continue
        n = (m.get("target") or {}).get("name")
        if m.get("reason") == "compiler-artifact" and "example" in m["target"]["kind"]:
            ok.add(n)
        elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            err.setdefault(n, m["message"]["message"])
    if not ok:
        raise core.BuildFailed("the witnesses do not build at all: %s %s" % (list(err.items())[:3], "\n".join(other)[-1500:]))
    return ok, err


def p31(r, tier):
    r.rule("For each misuse class of the macros, a program that differs from a compiling twin only in the misuse does not compile (with and without the Python feature), and each documented use compiles; the compiler's verdict on the current macro source is the deciding step, "
           "no witness is run. A misuse that is accepted is reported with the witness program; so is a documented use that is rejected.")
    r.assume("the witnesses stand for their misuse class: other programs of the class go through the same branches of parse_ts_as_fn_defs and of the generated code")
    files, info = {}, {}
    for fam, (twin, bad) in FAMILIES.items():
        t = "twin_" + re.sub(r"\W", "_", fam)
        files[t] = twin
        for k, (what, text) in enumerate(bad):
            n = "bad_%s_%d" % (re.sub(r"\W", "_", fam), k)
            files[n] = text
            info[n] = (fam, what, t)
    uses = {}
    for k, (what, text) in enumerate(USES.items()):
        n = "use_%d" % k
        files[n] = text
        uses[n] = what
    for feat in ("", "pyo3"):
        ok, err = compile_all(files, feat)
        label = "with the Python feature" if feat else "without the Python feature"
        for n, what in uses.items():
            inst = "%s compiles (%s)" % (what, label)
            if n in ok:
                r.ok(inst)
            else:
                r.violation(inst, "witness program:\n%s" % files[n][len(HEAD):], "rejected: %s" % err.get(n), key="%s compiles" % what)
        for n, (fam, what, t) in info.items():
            inst = "%s: %s is rejected (%s)" % (fam, what, label)
            if t not in ok:
                r.undecided(inst, "its twin does not compile: %s" % err.get(t))
            elif n in ok:
                r.violation(inst, "witness program:\n%s" % files[n][len(HEAD):], "the compiler accepts it", key="%s: %s" % (fam, what))
            else:
                r.ok(inst, err.get(n))
            r.saw("%s: %s" % (fam, what))
    r.floor("witnesses", len(info) + len(uses), 45)
