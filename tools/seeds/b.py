exec(open("/verif/tools/seeds/a.py").read().split("S = [")[0])
TM = "dess/src/traits_and_macros.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"; CO = "dess-examples/src/components.rs"
S = [
 dict(id="p38-config-equal-without-flags", property="P38", needs="two solver configurations that differ in a saving flag only",
      breaks="equality of solver configurations is written out by hand and leaves out the two saving flags",
      edits=[(SOL, ")]\n#[common_derives]\npub struct AdaptiveSolverConfig {", ")]\n#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]\npub struct AdaptiveSolverConfig {"),
             (SOL, "impl AsMut<AdaptiveSolverConfig> for AdaptiveSolverConfig {", """impl PartialEq for AdaptiveSolverConfig {
    fn eq(&self, other: &Self) -> bool {
        self.dt_max == other.dt_max
            && self.max_iter == other.max_iter
            && self.rtol == other.rtol
            && self.atol == other.atol
            && self.state == other.state
            && self.history == other.history
    }
}

impl AsMut<AdaptiveSolverConfig> for AdaptiveSolverConfig {""")],
      rs=SYS + r'''
fn main() {
    let a = AdaptiveSolverConfig::default();
    for f in [(|c: &mut AdaptiveSolverConfig| c.save = !c.save) as fn(&mut AdaptiveSolverConfig), |c| c.save_states = !c.save_states, |c| c.rtol *= 2., |c| c.state.t_curr = 1.] {
        let mut b = a.clone();
        must(a == b, "a copy is equal");
        f(&mut b);
        must(a != b, "a difference is seen");
        must(SolverTypes::RK45CashKarp(Box::new(a.clone())) != SolverTypes::RK45CashKarp(Box::new(b)), "a difference is seen in a setting");
    }
}
'''),
 dict(id="p40-states-keyword", property="P40", needs="a script that passes save_states by name",
      breaks="the Python constructor's argument save_states is called keep_states",
      edits=[(SOL, "        save_states: Option<bool>,\n    ) -> Self {", "        keep_states: Option<bool>,\n    ) -> Self {"), (SOL, "            save_states: save_states.unwrap_or(false),", "            save_states: keep_states.unwrap_or(false),")],
      py=r'''
import dess_pyo3 as d
c = d.AdaptiveSolverConfig(dt_init=0.1, dt_max=10.0, rtol=1e-3, atol=1e-6, max_iter=10, save=True, save_states=True)
assert c.save and c.save_states
c = d.AdaptiveSolverConfig(0.1, 10.0, 10, 1e-3, 1e-6, True)
assert c.save and not c.save_states
'''),
 dict(id="p41-clock-started-late", property="P41", needs="an expression that takes a noticeable time",
      breaks="time_it! reads its start time after the expression was evaluated",
      edits=[(TM, "        let t0 = Instant::now();\n        $thing;", "        $thing;\n        let t0 = Instant::now();")],
      rs=HEAD + r'''
use std::time::{Duration, Instant};
fn main() {
    let mut n = 0;
    let d: Duration = time_it!({ n += 1; std::thread::sleep(Duration::from_millis(50)) });
    if n != 1 || d < Duration::from_millis(45) { eprintln!("{} evaluations, {:?}", n, d); std::process::exit(1); }
}
'''),
 dict(id="p11-history-prefix", property="P11", needs="a component with a setting whose name starts with history",
      breaks="a bare copy leaves out every field whose name starts with history, not only the history itself",
      edits=[(BC, '.map(|field| *field.ident.as_ref().unwrap() != "history")', '.map(|field| !field.ident.as_ref().unwrap().to_string().starts_with("history"))')],
      rs=HEAD + r'''
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Logged { pub history_every: usize, pub cap: f64, pub state: CellState, pub history: CellStateHistoryVec }
fn main() {
    let mut l = Logged { history_every: 7, cap: 2., ..Default::default() };
    l.save_state();
    let b = l.bare_clone();
    if b.history_every != 7 || b.cap != 2. || !b.history.is_empty() { eprintln!("{:?}", b); std::process::exit(1); }
}
'''),
 dict(id="p30-count-wraps", property="P30", needs="more than 255 recorded steps",
      breaks="the mean step size divides by the number of records modulo 256",
      edits=[(SOL, "/ self.history.len() as f64)", "/ (self.history.len() as u8) as f64)")],
      rs=SYS + r'''
fn main() {
    for n in [1, 255, 256, 300] {
        let mut c = AdaptiveSolverConfig::default();
        for k in 0..n { c.history.push(SolverState { dt: if k % 2 == 0 { 0.5 } else { 0.25 }, ..Default::default() }); }
        let want = c.history.dt.iter().sum::<f64>() / n as f64;
        near(c.dt_mean().unwrap(), want, "mean step size");
    }
    must(AdaptiveSolverConfig::default().dt_mean().is_none(), "no records, no mean");
}
'''),
 dict(id="p21-missing-file-panics", property="P21", needs="loading from a file that is not there",
      breaks="loading panics instead of giving an error when the file cannot be opened and its suffix is yaml",
      edits=[(TM, "        let file = File::open(filename)?;\n        match extension {\n            \"yaml\" => Ok(serde_yaml::from_reader(file)?),", "        let opened = File::open(filename);\n        if extension == \"yaml\" {\n            return Ok(serde_yaml::from_reader(opened.expect(\"readable file\"))?);\n        }\n        let file = opened?;\n        match extension {")],
      rs=SYS + r'''
fn main() {
    for f in ["absent.json", "absent.yaml", "absent.txt", "absent"] {
        let r = std::panic::catch_unwind(|| AdaptiveSolverConfig::from_file(f).is_err());
        must(matches!(r, Ok(true)), f);
    }
    let c = AdaptiveSolverConfig::default();
    for f in ["c.json", "c.yaml"] {
        c.to_file(f).unwrap();
        must(AdaptiveSolverConfig::from_file(f).unwrap() == c, f);
    }
}
'''),
]
