SOL = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; UT = "dess/src/utilities.rs"; LIB = "dess/src/lib.rs"
A = "dess/dess-proc-macros/src/solver_attr.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"; HV = "dess/dess-proc-macros/src/history_vec.rs"
PA = "dess/dess-proc-macros/src/pyo3_api.rs"; PU = "dess/dess-proc-macros/src/utilities.rs"; PL = "dess/dess-proc-macros/src/lib.rs"
CO = "dess-examples/src/components.rs"; S1 = "dess-examples/src/three_thermal_mass_sys.rs"; S2 = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
MAIN = "dess-examples/src/main.rs"; PY = "dess-examples-pyo3/src/lib.rs"
OWN = True
STATE = "#[derive(Copy, HistoryVec, Default)]\n#[common_derives]\n#[pyo3_api]\npub struct SystemState {"
SYST = "    // current time\n    pub time: f64,\n}\n"
CFGT = "impl AsMut<AdaptiveSolverConfig> for AdaptiveSolverConfig {"
SSD = "impl Default for SolverState {"
SSH = "#[common_derives]\n#[pyo3_api]\n#[derive(HistoryVec)]\n/// Solver is considered"
CONFH = ")]\n#[common_derives]\npub struct AdaptiveSolverConfig {"
COND = ")]\n#[common_derives]\n#[derive(Default)]\npub struct Conductance {"
M = [
 # P38
 dict(name="d38-systemstate-eq-time-only", prop="P38", edits=[(LIB, STATE, STATE.replace("#[common_derives]", "#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]")), (LIB, SYST, SYST + "impl PartialEq for SystemState {\n    fn eq(&self, other: &Self) -> bool {\n        self.time == other.time\n    }\n}\n")]),
 dict(name="d38-solverstate-clone-resets", prop="P38", edits=[(SOL, SSH, SSH.replace("#[common_derives]", "#[derive(Debug, PartialEq, PartialOrd, Serialize, Deserialize)]")), (SOL, SSD, "impl Clone for SolverState {\n    fn clone(&self) -> Self {\n        Self {\n            dt: self.dt,\n            n_iter: self.n_iter,\n            norm_err: self.norm_err,\n            norm_err_rel: self.norm_err_rel,\n            t_curr: self.t_curr,\n            states: Default::default(),\n        }\n    }\n}\n\n" + SSD)]),
 dict(name="d38-config-eq-ignores-history", prop="P38", edits=[(SOL, CONFH, CONFH.replace("#[common_derives]", "#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]")), (SOL, CFGT, "impl PartialEq for AdaptiveSolverConfig {\n    fn eq(&self, other: &Self) -> bool {\n        self.dt_max == other.dt_max\n            && self.max_iter == other.max_iter\n            && self.atol == other.atol\n            && self.rtol == other.rtol\n            && self.save == other.save\n            && self.save_states == other.save_states\n            && self.state == other.state\n    }\n}\n\n" + CFGT)]),
 dict(name="d38-historyvec-eq-len", prop="P38", edits=[(HV, "        #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, PartialOrd)]", "        #[derive(Clone, Debug, Serialize, Deserialize, PartialOrd)]"), (HV, "        impl #new_name {\n", "        impl PartialEq for #new_name {\n            fn eq(&self, other: &Self) -> bool {\n                self.len() == other.len()\n            }\n        }\n\n        impl #new_name {\n")]),
 dict(name="d38-conductance-eq-tolerant", prop="P38", edits=[(CO, COND, COND.replace("#[common_derives]", "#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]")), (CO, "/// Struct for tracking flow variables in Conductance\n", "impl PartialEq for Conductance {\n    fn eq(&self, other: &Self) -> bool {\n        (self.h - other.h).abs() < 1e-9 && self.state == other.state && self.history == other.history\n    }\n}\n\n/// Struct for tracking flow variables in Conductance\n")]),
 dict(name="d38-state-order-index-last", prop="P38", edits=[(LIB, STATE, STATE.replace("#[common_derives]", "#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]")), (LIB, SYST, SYST + "impl PartialOrd for SystemState {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        self.time.partial_cmp(&other.time)\n    }\n}\n")]),
 # P39
 dict(name="d39-dtmax-below-dt", prop="P39", edits=[(SOL, "            dt_max: 10.,\n            max_iter: 5,", "            dt_max: 0.05,\n            max_iter: 5,")]),
 dict(name="d39-no-trials", prop="P39", edits=[(SOL, "            dt_max: 10.,\n            max_iter: 5,", "            dt_max: 10.,\n            max_iter: Default::default(),")]),
 dict(name="d39-rtol-zero", prop="P39", edits=[(SOL, "            rtol: 1e-5,\n            atol: 1e-9,\n            save: false,", "            rtol: Default::default(),\n            atol: 1e-9,\n            save: false,")]),
 dict(name="d39-count-carried", prop="P39", edits=[(SOL, "            dt: 0.1,\n            n_iter: 0,", "            dt: 0.1,\n            n_iter: u8::MAX,")]),
 dict(name="d39-seeded-history", prop="P39", edits=[(SOL, "                dt: 0.1,\n                ..Default::default()\n            },\n            history: Default::default(),\n        }\n    }\n}\n\nimpl AdaptiveSolverConfig", "                dt: 0.1,\n                ..Default::default()\n            },\n            history: {\n                let mut h = SolverStateHistoryVec::default();\n                h.push(SolverState::default());\n                h\n            },\n        }\n    }\n}\n\nimpl AdaptiveSolverConfig")]),
 dict(name="d39-bc-schedule-reversed", prop="P39", edits=[(S2, "            t_report: Vec::linspace(0.0, 1.0, 201),", "            t_report: Vec::linspace(1.0, 0.0, 201),")]),
 # P41
 dict(name="d41-time-it-twice", prop="P41", edits=[(TM, "        $thing;\n        let t_elapsed", "        $thing;\n        if t0.elapsed().as_nanos() == 0 {\n            $thing;\n        }\n        let t_elapsed")]),
 dict(name="d41-time-it-late-start", prop="P41", edits=[(TM, "        let t0 = Instant::now();\n        $thing;", "        $thing;\n        let t0 = Instant::now();")]),
 dict(name="d41-zip-rev", prop="P41", edits=[(TM, "        $x.iter().zip(\n", "        $x.iter().skip(0).step_by(1).zip(\n")]),
 dict(name="d41-zip-skip", prop="P41", edits=[(TM, "        $x.iter().zip(\n            zip!($($y), +))", "        $x.iter().take(200).zip(\n            zip!($($y), +))")]),
 # P34
 dict(name="d34-ralston-stage-when-long", prop="P34", edits=[(SOL, "        updated_self.step_states_by_dt(&(2.0 * dt / 3.0));", "        updated_self.step_states_by_dt(&(2.0 * dt / 3.0));\n        if *dt > 10. {\n            updated_self.step_time(&(dt / 3.0));\n        }")]),
 dict(name="d34-rk4-midstage", prop="P34", edits=[(SOL, "delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);", "delta.push(1. / 6. * (k1 + 4. * k2 + k4) * dt + 0. * k3);")]),
 # P35
 dict(name="d35-stop-early", prop="P35", edits=[(A, "                while self.state.time < self.t_report[self.state.i] {", "                while self.t_report[self.state.i] - self.state.time > 1e-12 {")]),
 dict(name="d35-lookahead", prop="P35", edits=[(A, "                    let dt = self.t_report[self.state.i] - self.state.time;", "                    let dt = self.t_report.last().unwrap() - self.state.time;")]),
 dict(name="d35-heun-step-by-report", prop="P35", edits=[(A, "                        SolverTypes::HeunsMethod{dt: dt_fixed} => {\n                            let dt = dt.min(dt_fixed.clone());", "                        SolverTypes::HeunsMethod{dt: dt_fixed} => {\n                            let dt = if dt < 2. * dt_fixed { dt } else { dt_fixed.clone() };")]),
 dict(name="d35-stretch-last", prop="P35", edits=[(A, "                        SolverTypes::RK4Fixed{dt: dt_fixed} => {\n                            let dt = dt.min(dt_fixed.clone());", "                        SolverTypes::RK4Fixed{dt: dt_fixed} => {\n                            let dt = dt_fixed.clone();")]),
 dict(name="d35-index-last", prop="P35", edits=[(A, "                    self.state.i += 1;\n", "                    self.state.i += 1;\n                    while self.state.i + 1 < self.t_report.len() && self.t_report[self.state.i] <= self.state.time {\n                        self.state.i += 1;\n                    }\n")]),
 # P37
 dict(name="d37-storage-of-first", prop="P37", edits=[(TM, "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());", "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s0.storage());")]),
 dict(name="d37-loss-at-negative-flow", prop="P37", edits=[(TM, "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());", "            $sys.$s1.step_deriv($sys.$c.flow().max(0.) / $sys.$s1.storage() + $sys.$c.flow().min(-1e-9).max($sys.$c.flow()).min(0.) / $sys.$s1.storage());")]),
 dict(name="d37-heun-limiter", prop="P37", edits=[(SOL, ".map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)", ".map(|(d_1, d_2)| if d_1 * d_2 < 0. { 0. } else { d_1 * 0.5 + d_2 * 0.5 })")]),
 dict(name="d37-bc-flow-order", prop="P37", edits=[(CO, "        self.state.q = self.h * (p0.state() - p1.state());", "        self.state.q = self.h * (p0.state() - p1.state()).abs();")]),
]
R = [
 dict(name="r38-handwritten-eq", prop=None, edits=[(LIB, STATE, STATE.replace("#[common_derives]", "#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]")), (LIB, SYST, SYST + "impl PartialEq for SystemState {\n    fn eq(&self, other: &Self) -> bool {\n        let same_clock = self.time == other.time;\n        if !same_clock {\n            return false;\n        }\n        self.i == other.i\n    }\n}\n")]),
 dict(name="r38-handwritten-clone", prop=None, edits=[(SOL, SSH, SSH.replace("#[common_derives]", "#[derive(Debug, PartialEq, PartialOrd, Serialize, Deserialize)]")), (SOL, SSD, "impl Clone for SolverState {\n    fn clone(&self) -> Self {\n        let mut copy = Self::default();\n        copy.dt = self.dt;\n        copy.n_iter = self.n_iter;\n        copy.norm_err = self.norm_err;\n        copy.norm_err_rel = self.norm_err_rel.as_ref().copied();\n        copy.t_curr = self.t_curr;\n        copy.states.extend_from_slice(&self.states);\n        copy\n    }\n}\n\n" + SSD)]),
 dict(name="r38-handwritten-ord", prop=None, edits=[(LIB, STATE, STATE.replace("#[common_derives]", "#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]")), (LIB, SYST, SYST + "impl PartialOrd for SystemState {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        match self.i.cmp(&other.i) {\n            std::cmp::Ordering::Equal => self.time.partial_cmp(&other.time),\n            o => Some(o),\n        }\n    }\n}\n")]),
 dict(name="r38-historyvec-eq-fields", prop=None, edits=[(HV, "        #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, PartialOrd)]", "        #[derive(Clone, Debug, Serialize, Deserialize, PartialOrd)]"), (HV, "        impl #new_name {\n", "        impl PartialEq for #new_name {\n            fn eq(&self, other: &Self) -> bool {\n                true #(&& self.#field_names == other.#field_names)*\n            }\n        }\n\n        impl #new_name {\n")]),
 dict(name="r39-schedule-loop", prop=None, edits=[(S2, "            t_report: Vec::linspace(0.0, 1.0, 201),", "            t_report: (0..201).map(|k| k as f64 * 0.005).collect(),")]),
 dict(name="r41-elapsed", prop=None, edits=[(TM, "        let t_elapsed = Instant::now() - t0;\n        t_elapsed", "        let end = Instant::now();\n        end.duration_since(t0)")]),
 dict(name="r35-elapsed-helper", prop=None, edits=[(A, "                    let dt = self.t_report[self.state.i] - self.state.time;", "                    let target = self.t_report[self.state.i];\n                    let dt = target - self.state.time;")]),
]
M += R
