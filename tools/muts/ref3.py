"""behaviour-keeping edits, third collection: aimed at what P34-P41 follow, and at shapes not in ref1/ref2"""
SOL = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; UT = "dess/src/utilities.rs"; LIB = "dess/src/lib.rs"
A = "dess/dess-proc-macros/src/solver_attr.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"; HV = "dess/dess-proc-macros/src/history_vec.rs"
PA = "dess/dess-proc-macros/src/pyo3_api.rs"; PU = "dess/dess-proc-macros/src/utilities.rs"; PL = "dess/dess-proc-macros/src/lib.rs"
CO = "dess-examples/src/components.rs"; S1 = "dess-examples/src/three_thermal_mass_sys.rs"; S2 = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
MAIN = "dess-examples/src/main.rs"; PY = "dess-examples-pyo3/src/lib.rs"
M = []
def r(name, *edits, **kw):
    M.append(dict(name=name, prop=None, edits=list(edits), **kw))
EULER = "        self.update_derivs();\n        self.step_states_by_dt(dt);\n        self.update_derivs();\n    }\n    /// Heun"
r("s-euler-delta", (SOL, EULER, "        self.update_derivs();\n        let delta: Vec<f64> = self.derivs().into_iter().map(|d| d * dt).collect();\n        self.step_states(delta);\n        self.step_time(dt);\n        self.update_derivs();\n    }\n    /// Heun"))
HEUN = """        let deriv_mean: Vec<f64> = deriv_0
            .iter()
            .zip(&deriv_1)
            .map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)
            .collect::<Vec<f64>>();
"""
r("s-heun-index", (SOL, HEUN, """        let mut deriv_mean = deriv_0.clone();
        for i in 0..deriv_mean.len() {
            deriv_mean[i] = 0.5 * (deriv_0[i] + deriv_1[i]);
        }
"""))
r("s-heun-fold", (SOL, HEUN, """        let deriv_mean = deriv_0
            .iter()
            .zip(deriv_1.iter())
            .fold(Vec::with_capacity(deriv_0.len()), |mut acc, (d_1, d_2)| {
                acc.push((d_1 + d_2) / 2.);
                acc
            });
"""))
RK4D = """        let mut delta: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);
        }

        self.step_states(delta);
"""
r("s-rk4-map", (SOL, RK4D, """        let delta: Vec<f64> = zip!(k1s, k2s, k3s, k4s)
            .map(|(k1, (k2, (k3, k4)))| (k1 + 2. * (k2 + k3) + k4) * dt / 6.)
            .collect();
        self.step_states(delta);
"""))
r("s-rk4-accumulate", (SOL, RK4D, """        let mut delta = vec![0.; k1s.len()];
        for (weight, ks) in [(1., &k1s), (2., &k2s), (2., &k3s), (1., &k4s)] {
            for (total, k) in delta.iter_mut().zip(ks) {
                *total += weight * k;
            }
        }
        for total in delta.iter_mut() {
            *total *= dt / 6.;
        }
        self.step_states(delta);
"""))
r("s-rk4-setderivs", (SOL, RK4D + "        self.step_time(dt);\n", """        let mut mean: Vec<f64> = vec![];
        for (k1, (k2, (k3, k4))) in zip!(k1s, k2s, k3s, k4s) {
            mean.push((k1 + 2. * k2 + 2. * k3 + k4) / 6.);
        }
        self.set_derivs(&mean);
        self.step_states_by_dt(dt);
"""))
r("s-midpoint-half", (SOL, "        updated_self.step_states_by_dt(&(0.5 * dt));\n", "        let half = *dt / 2.;\n        updated_self.step_states_by_dt(&half);\n"))
r("s-bs-delta-map", (SOL, """            let (k1s, k2s, k3s) = (k1s.clone(), k2s.clone(), k3s.clone());
            let zipped = zip!(k1s, k2s, k3s);
            let mut steps = vec![];
            for (k1, (k2, k3)) in zipped {
                steps.push((2. / 9. * k1 + 1. / 3. * k2 + 4. / 9. * k3) * dt);
            }
            steps
""", """            zip!(k1s, k2s, k3s)
                .map(|(k1, (k2, k3))| dt * (2. * k1 + 3. * k2 + 4. * k3) / 9.)
                .collect()
"""))
r("s-bs-delta2-incremental", (SOL, """        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta2.push((7. / 24. * k1 + 1. / 4. * k2 + 1. / 3. * k3 + 1. / 8. * k4) * dt);
        }
""", """        for i in 0..k1s.len() {
            let slope = 7. * k1s[i] + 6. * k2s[i] + 8. * k3s[i] + 3. * k4s[i];
            delta2.push(slope * dt / 24.);
        }
"""))
NORM = """            sc_mut.state.norm_err = Some(
                delta2
                    .iter()
                    .zip(&delta3)
                    .map(|(d2, d3)| (d2 - d3).powi(2))
                    .collect::<Vec<f64>>()
                    .iter()
                    .sum::<f64>()
                    .sqrt(),
            );
            let norm_d3 = delta3
                .iter()
                .map(|d3| d3.powi(2))
                .collect::<Vec<f64>>()
                .iter()
                .sum::<f64>()
                .sqrt();
"""
r("s-norm-loop", (SOL, NORM, """            let (mut sq_err, mut sq_d3) = (0., 0.);
            for (d2, d3) in delta2.iter().zip(&delta3) {
                let diff = d2 - d3;
                sq_err += diff * diff;
                sq_d3 += d3 * d3;
            }
            sc_mut.state.norm_err = Some(f64::sqrt(sq_err));
            let norm_d3 = f64::sqrt(sq_d3);
"""))
r("s-norm-fold", (SOL, NORM, """            let norm = |sq: f64| sq.sqrt();
            let norm_err = norm((0..delta2.len()).fold(0., |acc, i| acc + (delta2[i] - delta3[i]).powi(2)));
            sc_mut.state.norm_err = Some(norm_err);
            let norm_d3 = norm(delta3.iter().fold(0., |acc, d3| acc + d3.powi(2)));
"""))
r("s-rel-bool-then", (SOL, """            sc_mut.state.norm_err_rel = if norm_d3 != 0. {
                // `unwrap` is ok here because `norm_err` will always be some by this point
                Some(sc_mut.state.norm_err.unwrap() / norm_d3)
            } else {
                // avoid dividing by 0
                None
            };
""", """            sc_mut.state.norm_err_rel = match norm_d3 {
                n if n == 0. => None,
                n => sc_mut.state.norm_err.map(|e| e / n),
            };
"""))
TOL = """            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };
"""
r("s-tol-mapor", (SOL, TOL, """            let norm_err = sc_mut.state.norm_err.unwrap();
            let tol_met = sc_mut
                .state
                .norm_err_rel
                .map_or(norm_err <= sc_mut.atol, |rel| rel <= sc_mut.rtol);
"""), nth={SOL: 1})
r("s-tol-helper", (SOL, TOL, "            let tol_met = sc_mut.tolerance_met();\n"),
  (SOL, "impl AdaptiveSolverConfig {\n", """impl AdaptiveSolverConfig {
    /// whether the latest trial satisfies the tolerance that applies to it
    fn tolerance_met(&self) -> bool {
        match (self.state.norm_err_rel, self.state.norm_err) {
            (Some(rel), _) => rel <= self.rtol,
            (None, Some(abs)) => abs <= self.atol,
            (None, None) => unreachable!(),
        }
    }
"""), nth={SOL: 0})
r("s-break-demorgan", (SOL, """            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
                || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                || tol_met;
""", """            let retry = !(tol_met
                || sc_mut.state.norm_err.map_or(false, |e| e < sc_mut.atol)
                || sc_mut.max_iter <= sc_mut.state.n_iter);
            let break_cond = !retry;
"""), nth={SOL: 0})
ACC = """            if break_cond {
                // save before modifying dt
                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step; the limit also keeps `dt` finite
                // when the error is exactly zero (`f64::min` ignores NaN)
                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                break (delta5, dt_used);
            };
            // adapt for next iteration in current time step
            sc_mut.state.dt *= dt_coeff;
"""
r("s-accept-inverted", (SOL, ACC, """            if !break_cond {
                sc_mut.state.dt *= dt_coeff;
                continue;
            }
            let record = sc_mut.save.then(|| sc_mut.state.clone());
            if let Some(record) = record {
                sc_mut.history.push(record);
            }
            let adapted = dt * dt_coeff;
            sc_mut.state.dt = adapted.min(sc_mut.dt_max);
            break (delta5, dt);
"""))
r("s-coeff-method", (SOL, """            let dt_coeff = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => {
                    //ensures that if either rtol or atol are met, then the step succeeds
                    //prioritizes rtol -- if both atol and rtol are met, rtol is used
                    if norm_err_rel <= sc_mut.rtol {
                        (sc_mut.rtol / norm_err_rel).powf(0.2)
                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
                        (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                    } else {
                        0.25
                    }
""", """            let abs = sc_mut.state.norm_err.unwrap();
            let ratio = |limit: f64, error: f64| (limit / error).powf(0.2);
            let dt_coeff = match sc_mut.state.norm_err_rel {
                Some(rel) => {
                    match (rel <= sc_mut.rtol, abs <= sc_mut.atol) {
                        (true, _) => ratio(sc_mut.rtol, rel),
                        (false, true) => ratio(sc_mut.atol, abs),
                        (false, false) => 0.25,
                    }
"""))
r("s-limit-fold", (SOL, "        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);\n", "        let limit = [*dt_max, sc_mut.dt_max].into_iter().fold(sc_mut.state.dt, f64::min);\n        sc_mut.state.dt = limit;\n"), nth={SOL: 0})
r("s-limit-if", (SOL, "        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);\n", "        let limit = dt_max.min(sc_mut.dt_max);\n        if limit < sc_mut.state.dt {\n            sc_mut.state.dt = limit;\n        }\n"), nth={SOL: 1})
r("s-states-record-late", (SOL, "            if sc_mut.save_states {\n                sc_mut.state.states = states;\n            }\n\n            // conditions", "            let keep = sc_mut.save_states;\n            if keep {\n                sc_mut.state.states.clear();\n                sc_mut.state.states.extend(states);\n            }\n\n            // conditions"), nth={SOL: 0})
r("s-dtmean-sum", (SOL, "            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)", "            let n = self.history.dt.len();\n            let total: f64 = self.history.dt.iter().copied().sum();\n            Some(total / n as f64)"))
r("s-default-new", (SOL, """            history: Default::default(),
        }
    }
}

impl AdaptiveSolverConfig {
""", """            history: SolverStateHistoryVec::new(),
        }
    }
}

impl AdaptiveSolverConfig {
"""))
# traits and macros
LS = """        let v_norm: Vec<f64> = (0..n_elements)
            .collect::<Vec<usize>>()
            .iter()
            .map(|x| *x as f64)
            .collect();
        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
        v
"""
r("t-linspace-itermut", (TM, LS, """        let mut v = vec![start; n_elements];
        for (i, x) in v.iter_mut().enumerate() {
            *x += i as f64 * step_size;
        }
        v
"""))
r("t-linspace-while", (TM, LS, """        let mut v: Vec<f64> = Vec::new();
        while v.len() < n_elements {
            v.push((v.len() as f64 * step_size) + start);
        }
        v
"""))
r("t-diff-prev", (TM, """        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()
""", """        let mut out = Vec::with_capacity(self.len().saturating_sub(1));
        for i in 1..self.len() {
            out.push(self[i] - self[i - 1]);
        }
        out
"""))
r("t-updatederivs-flow", (TM, """            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());
""", """            let flow = $sys.$c.flow();
            let (storage0, storage1) = ($sys.$s0.storage(), $sys.$s1.storage());
            $sys.$s0.step_deriv(-(flow / storage0));
            $sys.$s1.step_deriv(flow / storage1);
"""))
r("t-stepbydt-via-step", (TM, "        self.set_state(self.state() + dt * self.deriv());", "        let increment = self.deriv() * dt;\n        self.step_state(increment);"))
r("t-tofile-text", (TM, """                serde_json::to_writer(&File::create(file)?, self)?;
                Ok(())
""", """                let target = File::create(file)?;
                serde_json::to_writer(target, self).map_err(anyhow::Error::from)
"""))
r("t-fromfile-early", (TM, """        let file = File::open(filename)?;
        match extension {
            "yaml" => Ok(serde_yaml::from_reader(file)?),
            "json" => Ok(serde_json::from_reader(file)?),
            _ => Err(anyhow!("Unsupported file extension {}", extension)),
        }
""", """        let file = match File::open(filename) {
            Ok(f) => f,
            Err(e) => return Err(e.into()),
        };
        if extension == "json" {
            return serde_json::from_reader(file).map_err(|e| e.into());
        }
        if extension == "yaml" {
            return serde_yaml::from_reader(file).map_err(|e| e.into());
        }
        Err(anyhow!("Unsupported file extension {}", extension))
"""))
r("t-timeit-duration", (TM, """        let t0 = Instant::now();
        $thing;
        let t_elapsed = Instant::now() - t0;
        t_elapsed
""", """        let before = Instant::now();
        let _ = $thing;
        before.elapsed()
"""))
r("t-zip-fn", (TM, "        $x.iter().zip(\n            zip!($($y), +))", "        std::iter::zip($x.iter(), zip!($($y), +))"))
# generated code
r("a-walk-last", (A, "                while &self.state.time < self.t_report.last().unwrap() {", "                let n = self.t_report.len();\n                while self.state.time < self.t_report[n - 1] {"))
r("a-walk-loop-break", (A, """                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }
""", """                let end = self.t_report[self.t_report.len() - 1];
                loop {
                    if !(self.state.time < end) {
                        return;
                    }
                    self.solve_step();
                    self.state.i = self.state.i + 1;
                    self.save_state();
                }
"""))
ARM = """                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.euler(&dt);
                        },
                        SolverTypes::HeunsMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.heun(&dt);
                        },
"""
r("a-solve-remaining-helper", (A, "                    let dt = self.t_report[self.state.i] - self.state.time;\n", "                    let dt = self.remaining();\n"),
  (A, "            /// Runs `solver_type` specific step method that calls\n", "            /// time left until the next report\n            fn remaining(&self) -> f64 {\n                self.t_report[self.state.i] - self.state.time\n            }\n            /// Runs `solver_type` specific step method that calls\n"))
r("a-solve-fixed-copy", (A, ARM, """                        &SolverTypes::EulerFixed{dt: own} => {
                            self.euler(&own.min(dt));
                        },
                        &SolverTypes::HeunsMethod{dt: own} => {
                            let step = if own < dt { own } else { dt };
                            self.heun(&step);
                        },
"""))
r("a-solve-clonetype", (A, "                    match &self.solver_type {\n                        SolverTypes::EulerFixed", "                    let method = self.solver_type.clone();\n                    match &method {\n                        SolverTypes::EulerFixed"))
r("a-solve-target", (A, "                while self.state.time < self.t_report[self.state.i] {\n                    let dt = self.t_report[self.state.i] - self.state.time;", "                let target = self.t_report[self.state.i];\n                while target > self.state.time {\n                    let dt = target - self.state.time;"))
r("a-states-capacity", (A, "                let mut states: Vec<f64> = Vec::new();\n                #(states.push(self.#fields_with_state.state());)*\n                states", "                [#(self.#fields_with_state.state()),*].to_vec()"))
r("a-setstates-drain", (A, "                let mut iter = val.iter();\n                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*", "                let mut next = 0usize;\n                #(\n                    self.#fields_with_state.set_state(val[next]);\n                    next += 1;\n                )*"))
r("a-stepstates-copied", (A, "                let mut iter = val.iter();\n                #(self.#fields_with_state.step_state(iter.next().unwrap().clone());)*", "                let mut values = val.into_iter();\n                #(\n                    if let Some(v) = values.next() {\n                        self.#fields_with_state.step_state(v);\n                    } else {\n                        panic!(\"too few values\");\n                    }\n                )*"))
r("a-reset-stepneg", (A, "                #(self.#fields_with_state.set_deriv(0.0);)*", "                let zero = f64::default();\n                #(self.#fields_with_state.set_deriv(zero);)*"))
# history containers
r("h-push-destructure", (HV, "                #(self.#field_names.push(value.#field_names);)*", "                let #original_name { #(#field_names),* } = value;\n                #(self.#field_names.push(#field_names);)*"))
r("h-len-match", (HV, "                self.#first_field.is_empty()", "                self.len() == 0"))
r("h-pop-letelse", (HV, """                if self.is_empty() {
                    None
                } else {
                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*
                    Some(#original_name{#(#field_names: #field_names),*})
                }
""", """                #(
                    let #field_names = self.#field_names.pop();
                )*
                match (#(#field_names,)*) {
                    (#(Some(#field_names),)*) => Some(#original_name{#(#field_names),*}),
                    _ => None,
                }
"""))
r("h-clear-truncate", (HV, "                #(self.#field_names.clear();)*", "                #(self.#field_names.truncate(0);)*"))
# components and systems
r("c-flow-let", (CO, "        self.state.q = self.h * (p0.state() - p1.state());", "        let (upstream, downstream) = (p0.state(), p1.state());\n        let difference = upstream - downstream;\n        self.state = ConductanceState { q: difference * self.h };"))
r("c-default-struct", (CO, "            state: ConductanceState {\n                q: Default::default(),\n            },\n            history: ConductanceStateHistoryVec {\n                q: Default::default(),\n            },", "            ..Default::default()"))
r("c-ctor-state-fn", (CO, "            c,\n            state: ThermalMassState {\n                temp: temp0,\n                dtemp: Default::default(),\n            },\n            history: Default::default(),", "            c,\n            state: ThermalMassState::starting_at(temp0),\n            history: ThermalMassStateHistoryVec::default(),"),
  (CO, "impl HasState for ThermalMass {", "impl ThermalMassState {\n    /// state at rest\n    fn starting_at(temp: f64) -> Self {\n        Self { temp, dtemp: 0. }\n    }\n}\n\nimpl HasState for ThermalMass {"))
# python module
r("p-module-helper", (PY, """    m.add_class::<Conductance>()?;
    m.add_class::<ConductanceState>()?;
    m.add_class::<ConductanceStateHistoryVec>()?;
    Ok(())
}
""", """    add_conductance(m)
}

/// conductance and what belongs to it
fn add_conductance(m: &PyModule) -> PyResult<()> {
    m.add_class::<Conductance>()?;
    m.add_class::<ConductanceState>()?;
    m.add_class::<ConductanceStateHistoryVec>()
}
"""))
r("p-new-signature", (SOL, "    #[new]\n    fn new_py(", "    #[new]\n    #[pyo3(signature = (dt_init, dt_max, max_iter, rtol, atol, save=None, save_states=None))]\n    fn new_py("))
