SOL = "dess/src/solver.rs"
ATTR = "dess/dess-proc-macros/src/solver_attr.rs"
# a system whose equation depends on time explicitly: y' = 3 t^2, y' = y
HEAD = r'''
use dess::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct CellState { pub y: f64, pub dy: f64 }

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Cell { pub cap: f64, pub state: CellState, pub history: CellStateHistoryVec }

impl HasState for Cell {
    fn set_state(&mut self, val: f64) { self.state.y = val; }
    fn state(&self) -> f64 { self.state.y }
    fn deriv(&self) -> f64 { self.state.dy }
    fn set_deriv(&mut self, val: f64) { self.state.dy = val; }
    fn storage(&self) -> f64 { self.cap }
}
'''
SYS = HEAD + r'''
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        let a = self.a.state();
        self.a.step_deriv(4. * t * t * t);
        self.b.step_deriv(a);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Two {
    #[skip_get]
    pub solver_type: SolverTypes,
    #[use_state]
    pub a: Cell,
    #[use_state]
    pub b: Cell,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
fn near(x: f64, y: f64, what: &str) {
    if !((x - y).abs() <= 1e-9 * (1. + y.abs())) { eprintln!("{}: {} instead of {}", what, x, y); std::process::exit(1); }
}
fn must(c: bool, what: &str) { if !c { eprintln!("{}", what); std::process::exit(1); } }
fn conf(f: impl Fn(&mut AdaptiveSolverConfig)) -> Box<AdaptiveSolverConfig> { let mut c = AdaptiveSolverConfig::default(); f(&mut c); Box::new(c) }
'''
S = [
 dict(id="p02-cashkarp-k6-clock", property="P02", needs="derivative function that depends on time explicitly",
      breaks="sixth Cash-Karp stage is evaluated at 5/8 of the step instead of 7/8",
      edits=[(SOL, "sys5.step_time(&(dt * 7. / 8.));", "sys5.step_time(&(dt * 5. / 8.));")],
      rs=SYS + r'''
fn main() {
    let mut s = Two { solver_type: SolverTypes::RK45CashKarp(conf(|c| { c.max_iter = 1; c.state.dt = 1.; })), t_report: vec![1.], ..Default::default() };
    let dt = s.rk45_cash_karp(&1.);
    near(dt, 1., "step"); near(s.a.state.y, 1., "integral of 4 t^3 over one step");
}
'''),
 dict(id="p01-bs-quarter-pair", property="P01", needs="rk23 on a non-linear or time-dependent system, error estimate only",
      breaks="lower-order weights of Bogacki-Shampine exchanged between k2 and k3: only the error estimate is wrong",
      edits=[(SOL, "7. / 24. * k1 + 1. / 4. * k2 + 1. / 3. * k3 + 1. / 8. * k4", "7. / 24. * k1 + 1. / 3. * k2 + 1. / 4. * k3 + 1. / 8. * k4")],
      rs=SYS + r'''
fn main() {
    // k = 0, 0.5, 27/16, 4 for y' = 4 t^3 and a step of one
    let mut s = Two { solver_type: SolverTypes::RK23BogackiShampine(conf(|c| { c.max_iter = 1; c.state.dt = 1.; })), t_report: vec![1.], ..Default::default() };
    let (lo, hi) = s.rk23_bogacki_shampine_step(1.);
    near(hi[0], 1. / 3. * 0.5 + 4. / 9. * 27. / 16., "third-order update");
    near(lo[0], 0.25 * 0.5 + 27. / 48. + 0.5, "second-order update");
}
'''),
 dict(id="p14-count-kept-on-small-step", property="P14", needs="several adaptive steps in a row with a configured maximum step below the time left to the report time",
      breaks="the trial counter is not reset when the configured maximum step is the tighter limit, so later steps start with used-up trials",
      edits=[(SOL, """        sc_mut.state.n_iter = 0;
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);

        // loop to find `dt` that results in meeting tolerance
        // and does not exceed `dt_max`
        let (delta5""", """        if *dt_max <= sc_mut.dt_max {
            sc_mut.state.n_iter = 0;
        }
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);

        // loop to find `dt` that results in meeting tolerance
        // and does not exceed `dt_max`
        let (delta5""")],
      rs=SYS + r'''
fn main() {
    let mut s = Two { solver_type: SolverTypes::RK45CashKarp(conf(|c| { c.max_iter = 3; c.rtol = 1e30; c.dt_max = 0.125; })), t_report: vec![1.], ..Default::default() };
    for _ in 0..3 {
        s.rk45_cash_karp(&1.);
        must(s.sc().unwrap().state.n_iter == 1, "each step counts its own trials from zero");
    }
}
'''),
 dict(id="p16-states-without-request", property="P16", needs="recording on with a step that starts with states left from earlier recording",
      breaks="states are recorded when save is on although state recording is off",
      edits=[(SOL, """            if sc_mut.save_states {
                sc_mut.state.states = states;
            }

            // conditions for breaking loop
            // if there is a relative error, use that
            // otherwise, use the absolute error
            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };

            // Because we need to be able to possibly expand the next time step,
            // regardless of whether break condition is met,
            // adapt dt based on `rtol` if it is Some; use `atol` otherwise
            // this adaptation strategy came directly from Chapra and Canale's section on adapting the time step
            // The approach is to adapt more aggressively to meet rtol when decreasing the time step size
            // than when increasing time step size.
            let dt_coeff = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => {""", """            if sc_mut.save_states || sc_mut.state.n_iter > 1 {
                sc_mut.state.states = states;
            }

            // conditions for breaking loop
            // if there is a relative error, use that
            // otherwise, use the absolute error
            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };

            // Because we need to be able to possibly expand the next time step,
            // regardless of whether break condition is met,
            // adapt dt based on `rtol` if it is Some; use `atol` otherwise
            // this adaptation strategy came directly from Chapra and Canale's section on adapting the time step
            // The approach is to adapt more aggressively to meet rtol when decreasing the time step size
            // than when increasing time step size.
            let dt_coeff = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => {""")],
      rs=SYS + r'''
fn main() {
    let mut s = Two { solver_type: SolverTypes::RK45CashKarp(conf(|c| { c.max_iter = 3; c.rtol = 0.; c.atol = 0.; c.save = true; c.state.dt = 1.; })), t_report: vec![10.], ..Default::default() };
    s.rk45_cash_karp(&1.);
    let h = &s.sc().unwrap().history;
    must(h.len() == 1, "one record");
    must(h.states[0].is_empty(), "states recorded although state recording is off");
}
'''),
 dict(id="p08-walk-restarts-index", property="P08", needs="a system that was run, then given further report times and run again",
      breaks="every run starts at the first report time again, so a continued run saves the wrong records",
      edits=[(ATTR, """                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();""", """                if self.state.i == self.t_report.len() - 1 {
                    self.state.i = 0;
                }
                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();""")],
      rs=SYS + r'''
fn main() {
    let mut s = Two { solver_type: SolverTypes::RK4Fixed { dt: 0.25 }, t_report: vec![1., 2.], ..Default::default() };
    s.walk();
    must(s.history.time == vec![1., 2.], "first run");
    s.t_report.push(3.);
    s.walk();
    must(s.history.time == vec![1., 2., 3.] && s.history.i == vec![1, 2, 3], "continued run");
}
'''),
 dict(id="p07-dt-of-stale-setting", property="P07", needs="a Ralston system whose configured step is smaller than the report spacing, observed through the number of steps",
      breaks="Ralston's method ignores its own step when that is below a thousandth of the report interval",
      edits=[(ATTR, """                        SolverTypes::RalstonsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());""", """                        SolverTypes::RalstonsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.max(1e-3 * dt));""")],
      rs=SYS + r'''
fn main() {
    let mut s = Two { solver_type: SolverTypes::RalstonsMethod { dt: 1e-4 }, t_report: vec![1.], ..Default::default() };
    let mut r = s.clone();
    s.walk();
    let mut n = 0;
    while r.state.time < 1. { let d = 1e-4_f64.min(1. - r.state.time); r.ralston(&d); n += 1; }
    must(n >= 10000, "steps");
    must(s.a.state.y == r.a.state.y && s.state.time == r.state.time, "run differs from the configured steps");
}
'''),
]
