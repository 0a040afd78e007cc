//! Instantiations of the library's macros with other numbers, orders and names of components than the example systems.
//! Nothing here is ever run: the checks analyse what the macros expand to.
#![allow(unused, non_camel_case_types)]
use dess::prelude::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ records
/// one column
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct Level {
    pub lvl: f64,
}

/// two columns
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct Tank2 {
    pub drate: f64,
    pub head: f64,
}

/// five columns of differing types
#[derive(HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct Mixed {
    pub count: u8,
    pub flag: bool,
    pub maybe: Option<f64>,
    pub list: Vec<f64>,
    pub t: f64,
}

/// three columns of one type
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct Triple {
    pub c: f64,
    pub a: f64,
    pub b: f64,
}

/// many columns, named like the library's own parts, with capitals, underscores and attributes of their own
#[derive(HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct Wide {
    pub time: f64,
    /// documented
    #[allow(dead_code)]
    pub _hidden: f64,
    pub Upper: f64,
    pub i: usize,
    pub state: f64,
    pub history: f64,
    pub value: f64,
    pub dt: Option<f64>,
    pub title: String,
    pub(crate) inner: f64,
    private: i64,
    pub pair: (f64, u8),
    pub index: u32,
    pub maybe_many: Option<Vec<f64>>,
    pub solver_type: f32,
}

// --------------------------------------------------------------- components
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Tank {
    pub history: Tank2HistoryVec,
    pub area: f64,
    pub state: Tank2,
    pub label: u32,
}

impl HasState for Tank {
    fn state(&self) -> f64 {
        self.state.head
    }
    fn set_state(&mut self, val: f64) {
        self.state.head = val;
    }
    fn deriv(&self) -> f64 {
        self.state.drate
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.drate = val;
    }
    fn storage(&self) -> f64 {
        self.area
    }
}

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Valve {
    pub state: Level,
    pub history: LevelHistoryVec,
    pub k: f64,
}

impl Flow for Valve {
    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {
        self.state.lvl = self.k * (p0.state() - p1.state());
    }
    fn flow(&self) -> f64 {
        self.state.lvl
    }
}

/// no record of its own, two marked parts
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Bank {
    #[save_state]
    pub left: Tank,
    pub gain: f64,
    #[use_state]
    pub right: Tank,
}

/// a record of its own and marked parts, one of which has marked parts
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Plant {
    pub note: Option<f64>,
    #[save_state]
    pub bank: Bank,
    pub state: Triple,
    #[save_state]
    pub valve: Valve,
    pub history: TripleHistoryVec,
}

/// a record type that contains no other part
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Lone {
    pub state: Triple,
    pub history: TripleHistoryVec,
    pub extra: Vec<f64>,
}

/// own state and several marked parts, marks surrounded by other attributes, further parts named like the marked ones
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Rack {
    pub hist_len: u32,
    #[save_state]
    #[allow(dead_code)]
    #[skip_get]
    pub first: Tank,
    pub history_kept: Vec<f64>,
    #[allow(dead_code)]
    #[save_state]
    #[skip_get]
    pub second: Tank,
    #[skip_get]
    pub history: WideHistoryVec,
    #[skip_get]
    pub twin: Tank,
    /// documented
    #[allow(unused)]
    #[use_state]
    /// further
    #[allow(dead_code)]
    #[skip_get]
    pub third: Tank,
    pub state_count: u32,
    #[skip_get]
    #[save_state]
    pub last_valve: Valve,
    pub _unused: f64,
    pub hidden_from_python: f64,
}

// ------------------------------------------------------------------ systems
/// eleven states in no particular order of names, flags and lists between them, exposed to Python with the generated walk
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        connect_states!(self, (n, a, v_na), (b, k, v_bk));
        update_derivs!(self, (n, a, v_na), (b, k, v_bk));
    }
)]
#[pyo3_api]
#[walk]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct SysMany {
    pub history_title: String,
    #[skip_get]
    #[use_state]
    pub n: Tank,
    #[use_state]
    #[skip_get]
    #[allow(dead_code)]
    pub _m: Tank,
    pub switch: bool,
    #[skip_get]
    #[allow(dead_code)]
    #[use_state]
    pub b: Tank,
    #[skip_get]
    #[use_state]
    pub history_tank: Tank,
    pub t_report_old: Vec<f64>,
    #[skip_get]
    #[use_state]
    pub state0: Tank,
    #[skip_get]
    #[use_state]
    pub Zed: Tank,
    pub state: SystemState,
    #[skip_get]
    #[use_state]
    pub a: Tank,
    #[skip_get]
    #[use_state]
    pub time: Tank,
    #[skip_get]
    #[use_state]
    pub i: Tank,
    pub t_report: Vec<f64>,
    #[skip_get]
    #[save_state]
    pub v_na: Valve,
    #[skip_get]
    #[use_state]
    pub k: Tank,
    #[skip_get]
    #[save_state]
    pub v_bk: Valve,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    #[use_state]
    pub dt: Tank,
    #[skip_get]
    pub spare: Tank,
    #[skip_get]
    pub solver_type: SolverTypes,
    #[skip_get]
    #[save_state]
    pub rack: Rack2,
}

/// a record of its own nested two deep
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Rack2 {
    #[save_state]
    pub valve: Valve,
    pub bank_note: Option<String>,
    pub history: LevelHistoryVec,
    pub state: Level,
}

/// one state, equations that depend on time, no connections
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        self.only.step_deriv(self.state.time * self.only.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct SysOne {
    pub solver_type: SolverTypes,
    pub t_report: Vec<f64>,
    #[use_state]
    pub only: Tank,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

/// five states in a star, connections and states interleaved, odd names, unmarked components
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        connect_states!(self, (hub, zeta, v1), (alpha, hub, v2), (hub, mid, v3), (last, hub, v4));
        update_derivs!(self, (hub, zeta, v1), (alpha, hub, v2), (hub, mid, v3), (last, hub, v4));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct SysStar {
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub zeta: Tank,
    #[save_state]
    pub v3: Valve,
    pub spare: Tank,
    #[use_state]
    pub hub: Tank,
    pub solver_type: SolverTypes,
    #[save_state]
    pub v1: Valve,
    pub scale: f64,
    #[use_state]
    pub alpha: Tank,
    pub state: SystemState,
    #[use_state]
    pub last: Tank,
    #[save_state]
    pub v4: Valve,
    #[save_state]
    pub plant: Plant,
    pub tags: Vec<u32>,
    #[use_state]
    pub mid: Tank,
    #[save_state]
    pub v2: Valve,
    pub t_report: Vec<f64>,
}

/// two states joined by parallel connections of opposite direction
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        connect_states!(self, (b, a, ba), (a, b, ab));
        update_derivs!(self, (b, a, ba), (a, b, ab));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct SysPair {
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub b: Tank,
    #[use_state]
    #[save_state]
    pub a: Tank,
    #[save_state]
    pub ab: Valve,
    #[save_state]
    pub ba: Valve,
    pub t_report: Vec<f64>,
    pub solver_type: SolverTypes,
}

/// a single connection, in isolation, on top of unknown derivatives
pub fn one_connection(s: &mut SysPair) {
    connect_states!(s, (b, a, ba));
    update_derivs!(s, (b, a, ba));
}

/// only flows
pub fn flows_only(s: &mut SysStar) {
    connect_states!(s, (alpha, hub, v2), (hub, mid, v3), (zeta, last, v1));
}

/// only derivative updates
pub fn derivs_only(s: &mut SysStar) {
    update_derivs!(s, (alpha, hub, v2), (hub, mid, v3), (zeta, last, v1));
}

/// calls every generated method, so that each has a body to analyse
pub fn touch(a: &mut SysOne, b: &mut SysStar, c: &mut SysPair, l: &mut Lone) {
    a.walk();
    b.walk();
    c.walk();
    l.save_state();
    let _ = l.bare_clone();
}

pub fn zips(a: &Vec<f64>, b: &Vec<f64>, c: &Vec<f64>) -> Vec<f64> {
    let mut out = vec![];
    for (x, (y, z)) in zip!(a, b, c) {
        out.push(x + 10. * y + 100. * z);
    }
    out
}

pub fn zips2(a: &Vec<f64>, b: &Vec<f64>) -> Vec<f64> {
    let mut out = vec![];
    for (x, y) in zip!(a, b) {
        out.push(x + 10. * y);
    }
    out
}

pub fn zips4(a: &Vec<f64>, b: &Vec<f64>, c: &Vec<f64>, d: &Vec<f64>) -> Vec<f64> {
    let mut out = vec![];
    for (x, (y, (z, w))) in zip!(a, b, c, d) {
        out.push(x + 10. * y + 100. * z + 1000. * w);
    }
    out
}

/// stands for any timed expression
pub fn work(count: &mut u32) {
    *count += 1;
}

pub fn timed(count: &mut u32) -> std::time::Duration {
    use std::time::Instant;
    time_it!(work(count))
}

pub fn timed_block(count: &mut u32) -> std::time::Duration {
    use std::time::Instant;
    let t = time_it!({
        let c = &mut *count;
        work(c)
    });
    t
}

/// more components, connections and columns than any fixed small number
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        connect_states!(self, (s02, s07, c00), (s07, s18, c01), (s12, s29, c02), (s17, s06, c03), (s22, s17, c04), (s27, s28, c05), (s32, s05, c06), (s03, s16, c07), (s08, s27, c08), (s13, s04, c09), (s18, s15, c10), (s23, s26, c11), (s28, s03, c12), (s33, s14, c13), (s04, s25, c14), (s09, s02, c15), (s14, s13, c16), (s19, s24, c17));
        update_derivs!(self, (s02, s07, c00), (s07, s18, c01), (s12, s29, c02), (s17, s06, c03), (s22, s17, c04), (s27, s28, c05), (s32, s05, c06), (s03, s16, c07), (s08, s27, c08), (s13, s04, c09), (s18, s15, c10), (s23, s26, c11), (s28, s03, c12), (s33, s14, c13), (s04, s25, c14), (s09, s02, c15), (s14, s13, c16), (s19, s24, c17));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct SysWide {
    pub t_report: Vec<f64>,
    #[use_state]
    pub s00: Tank,
    #[use_state]
    pub s01: Tank,
    #[save_state]
    pub c00: Valve,
    #[use_state]
    pub s02: Tank,
    #[use_state]
    pub s03: Tank,
    #[save_state]
    pub c01: Valve,
    #[use_state]
    pub s04: Tank,
    #[use_state]
    pub s05: Tank,
    #[save_state]
    pub c02: Valve,
    #[use_state]
    pub s06: Tank,
    #[use_state]
    pub s07: Tank,
    #[save_state]
    pub c03: Valve,
    #[use_state]
    pub s08: Tank,
    #[use_state]
    pub s09: Tank,
    #[save_state]
    pub c04: Valve,
    #[use_state]
    pub s10: Tank,
    #[use_state]
    pub s11: Tank,
    #[save_state]
    pub c05: Valve,
    #[use_state]
    pub s12: Tank,
    #[use_state]
    pub s13: Tank,
    #[save_state]
    pub c06: Valve,
    #[use_state]
    pub s14: Tank,
    #[use_state]
    pub s15: Tank,
    #[save_state]
    pub c07: Valve,
    #[use_state]
    pub s16: Tank,
    #[use_state]
    pub s17: Tank,
    #[save_state]
    pub c08: Valve,
    #[use_state]
    pub s18: Tank,
    #[use_state]
    pub s19: Tank,
    #[save_state]
    pub c09: Valve,
    #[use_state]
    pub s20: Tank,
    #[use_state]
    pub s21: Tank,
    #[save_state]
    pub c10: Valve,
    #[use_state]
    pub s22: Tank,
    #[use_state]
    pub s23: Tank,
    #[save_state]
    pub c11: Valve,
    #[use_state]
    pub s24: Tank,
    #[use_state]
    pub s25: Tank,
    #[save_state]
    pub c12: Valve,
    #[use_state]
    pub s26: Tank,
    #[use_state]
    pub s27: Tank,
    #[save_state]
    pub c13: Valve,
    #[use_state]
    pub s28: Tank,
    #[use_state]
    pub s29: Tank,
    #[save_state]
    pub c14: Valve,
    #[use_state]
    pub s30: Tank,
    #[use_state]
    pub s31: Tank,
    #[save_state]
    pub c15: Valve,
    #[use_state]
    pub s32: Tank,
    #[use_state]
    pub s33: Tank,
    #[save_state]
    pub c16: Valve,
    #[save_state]
    pub c17: Valve,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
    pub solver_type: SolverTypes,
}
