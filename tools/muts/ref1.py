SOL = "dess/src/solver.rs"
TM = "dess/src/traits_and_macros.rs"
UT = "dess/src/utilities.rs"
ATTR = "dess/dess-proc-macros/src/solver_attr.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"
HV = "dess/dess-proc-macros/src/history_vec.rs"
BC = "dess/dess-proc-macros/src/bare_clone.rs"
API = "dess/dess-proc-macros/src/pyo3_api.rs"
MU = "dess/dess-proc-macros/src/utilities.rs"
CO = "dess-examples/src/components.rs"
T3 = "dess-examples/src/three_thermal_mass_sys.rs"
BCS = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
MAIN = "dess-examples/src/main.rs"
PYL = "dess-examples-pyo3/src/lib.rs"
NORM_OLD = '''            sc_mut.state.norm_err = Some(
                delta2
                    .iter()
                    .zip(&delta3)
                    .map(|(d2, d3)| (d2 - d3).powi(2))
                    .collect::<Vec<f64>>()
                    .iter()
                    .sum::<f64>()
                    .sqrt(),
            );
            let norm_d3 = delta3
                .iter()
                .map(|d3| d3.powi(2))
                .collect::<Vec<f64>>()
                .iter()
                .sum::<f64>()
                .sqrt();
'''
NORM5_OLD = NORM_OLD.replace("delta2", "delta4").replace("delta3", "delta5").replace("d2", "d4").replace("d3", "d5").replace("norm_d3", "norm_d5")
M = [
 dict(name="r-heun-assign", prop=None, edits=[(SOL, "d_1 * 0.5 + d_2 * 0.5", "0.5 * (d_1 + d_2)")]),
 dict(name="r-heun-for-loop", prop=None, edits=[(SOL, '''        let deriv_mean: Vec<f64> = deriv_0
            .iter()
            .zip(&deriv_1)
            .map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)
            .collect::<Vec<f64>>();
''', '''        let mut deriv_mean: Vec<f64> = Vec::with_capacity(deriv_0.len());
        for (d_1, d_2) in deriv_0.iter().zip(deriv_1.iter()) {
            deriv_mean.push(d_1 * 0.5 + d_2 * 0.5);
        }
''')]),
 dict(name="r-heun-index-loop", prop=None, edits=[(SOL, '''        let deriv_mean: Vec<f64> = deriv_0
            .iter()
            .zip(&deriv_1)
            .map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)
            .collect::<Vec<f64>>();
''', '''        let mut deriv_mean: Vec<f64> = vec![0.0; deriv_0.len()];
        for i in 0..deriv_0.len() {
            deriv_mean[i] = 0.5 * deriv_0[i] + 0.5 * deriv_1[i];
        }
''')]),
 dict(name="r-ralston-while", prop=None, edits=[(SOL, '''        let deriv_mean: Vec<f64> = deriv_0
            .iter()
            .zip(&deriv_1)
            .map(|(d_1, d_2)| d_1 / 4.0 + 3.0 * d_2 / 4.0)
            .collect::<Vec<f64>>();
''', '''        let mut deriv_mean: Vec<f64> = Vec::new();
        let mut i = 0;
        while i < deriv_0.len() {
            deriv_mean.push(0.25 * deriv_0[i] + 0.75 * deriv_1[i]);
            i += 1;
        }
''')]),
 dict(name="r-ralston-helper", prop=None, edits=[(SOL, '''            .map(|(d_1, d_2)| d_1 / 4.0 + 3.0 * d_2 / 4.0)
            .collect::<Vec<f64>>();
''', '''            .map(|(d_1, d_2)| weighted(*d_1, *d_2, 0.25))
            .collect::<Vec<f64>>();
'''), (SOL, "pub trait SolverBase: HasStates + Sized {", '''/// weighted mean of two derivatives
fn weighted(a: f64, b: f64, w: f64) -> f64 {
    w * a + (1.0 - w) * b
}

pub trait SolverBase: HasStates + Sized {''')]),
 dict(name="r-norm-helper", prop=None, edits=[(SOL, NORM_OLD, '''            sc_mut.state.norm_err = Some(diff_norm(&delta2, &delta3));
            let norm_d3 = norm(&delta3);
'''), (SOL, NORM5_OLD, '''            sc_mut.state.norm_err = Some(diff_norm(&delta4, &delta5));
            let norm_d5 = norm(&delta5);
'''), (SOL, "pub trait SolverBase: HasStates + Sized {", '''/// euclidean norm
fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}

/// euclidean norm of the difference
fn diff_norm(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y).powi(2)).sum::<f64>().sqrt()
}

pub trait SolverBase: HasStates + Sized {''')]),
 dict(name="r-norm-loop", prop=None, edits=[(SOL, NORM_OLD, '''            let mut err2 = 0.0;
            let mut norm2 = 0.0;
            for (d2, d3) in delta2.iter().zip(delta3.iter()) {
                let diff = d2 - d3;
                err2 += diff * diff;
                norm2 += d3 * d3;
            }
            sc_mut.state.norm_err = Some(err2.sqrt());
            let norm_d3: f64 = norm2.sqrt();
''')]),
 dict(name="r-norm-fold", prop=None, edits=[(SOL, NORM5_OLD, '''            let norm_err = delta4
                .iter()
                .zip(delta5.iter())
                .fold(0.0, |acc, (d4, d5)| acc + (d4 - d5) * (d4 - d5))
                .sqrt();
            sc_mut.state.norm_err = Some(norm_err);
            let norm_d5 = delta5.iter().fold(0.0, |acc: f64, d5| acc + d5.powi(2)).sqrt();
''')]),
 dict(name="r-tolmet-iflet", prop=None, nth={SOL: 0}, edits=[(SOL, '''            let tol_met = match sc_mut.state.norm_err_rel {
                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,
                None => match sc_mut.state.norm_err {
                    Some(norm_err) => norm_err <= sc_mut.atol,
                    None => unreachable!(),
                },
            };
''', '''            let tol_met = if let Some(rel) = sc_mut.state.norm_err_rel {
                rel <= sc_mut.rtol
            } else {
                sc_mut.state.norm_err.map_or(false, |e| e <= sc_mut.atol)
            };
''')]),
 dict(name="r-break-ifs", prop=None, nth={SOL: 1}, edits=[(SOL, '''            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter
                || sc_mut.state.norm_err.unwrap() < sc_mut.atol
                || tol_met;
''', '''            let out_of_tries = sc_mut.max_iter <= sc_mut.state.n_iter;
            let below_atol = match sc_mut.state.norm_err {
                Some(e) => e < sc_mut.atol,
                None => false,
            };
            let break_cond = tol_met || below_atol || out_of_tries;
''')]),
 dict(name="r-loop-flag", prop=None, edits=[(SOL, '''                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                break (delta3, dt_used);
            };
            // adapt for next iteration in current time step
            sc_mut.state.dt *= dt_coeff;
        };
''', '''                let dt_next = sc_mut.state.dt * dt_coeff;
                sc_mut.state.dt = dt_next.min(sc_mut.dt_max);
                break (delta3, dt_used);
            } else {
                // adapt for next iteration in current time step
                sc_mut.state.dt = dt * dt_coeff;
            }
        };
''')]),
 dict(name="r-init-min-order", prop=None, nth={SOL: 0}, edits=[(SOL, "sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);", "let limit = dt_max.min(sc_mut.dt_max);\n        sc_mut.state.dt = limit.min(sc_mut.state.dt);")]),
 dict(name="r-coeff-helper", prop=None, edits=[(SOL, '''                    if norm_err_rel <= sc_mut.rtol {
                        (sc_mut.rtol / norm_err_rel).powf(0.2)
                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
                        (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                    } else {
                        0.25
                    }
''', '''                    let norm_err = sc_mut.state.norm_err.unwrap();
                    if norm_err_rel <= sc_mut.rtol {
                        growth(sc_mut.rtol, norm_err_rel)
                    } else if norm_err <= sc_mut.atol {
                        growth(sc_mut.atol, norm_err)
                    } else {
                        0.25
                    }
'''), (SOL, "pub trait SolverBase: HasStates + Sized {", '''fn growth(tol: f64, err: f64) -> f64 {
    const EXPONENT: f64 = 0.2;
    (tol / err).powf(EXPONENT)
}

pub trait SolverBase: HasStates + Sized {''')]),
 dict(name="r-rk4-inline-weights", prop=None, edits=[(SOL, '''        let mut delta: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);
        }

        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
''', '''        let sixth = dt / 6.;
        let delta: Vec<f64> = (0..k1s.len())
            .map(|i| sixth * (k1s[i] + 2. * (k2s[i] + k3s[i]) + k4s[i]))
            .collect();

        self.step_time(dt);
        self.step_states(delta);
        self.update_derivs();
''')]),
 dict(name="r-rk4-half", prop=None, edits=[(SOL, '''        sys2.set_derivs(&k2s);
        sys2.step_states_by_dt(&(dt / 2.));
        sys2.update_derivs();
        let k3s = sys2.derivs();

        // k4 = f(x_i + h, y_i + k3 * h)
''', '''        let half = 0.5 * dt;
        sys2.set_derivs(&k2s);
        sys2.step_states_by_dt(&half);
        sys2.update_derivs();
        let k3s = sys2.derivs();

        // k4 = f(x_i + h, y_i + k3 * h)
''')]),
 dict(name="r-bs-stage-helper", prop=None, edits=[(SOL, '''        let mut sys2 = self.bare_clone();
        sys2.set_derivs(&k2s);
        sys2.step_states_by_dt(&(dt * 3. / 4.));
        sys2.update_derivs();
        let k3s = sys2.derivs();
''', '''        let k3s = self.derivs_after(&k2s, 0.75 * dt);
'''), (SOL, '''pub trait SolverVariantMethods: SolverBase {
''', '''pub trait SolverVariantMethods: SolverBase {
    /// derivatives after stepping a copy with `derivs` for `dt`
    fn derivs_after(&self, derivs: &[f64], dt: f64) -> Vec<f64> {
        let mut sys = self.bare_clone();
        sys.set_derivs(derivs);
        sys.step_states_by_dt(&dt);
        sys.update_derivs();
        sys.derivs()
    }
''')]),
 dict(name="r-euler-manual", prop=None, edits=[(SOL, '''        self.update_derivs();
        self.step_states_by_dt(dt);
        self.update_derivs();
    }
    /// Heun's''', '''        self.update_derivs();
        let delta: Vec<f64> = self.derivs().iter().map(|d| d * dt).collect();
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }
    /// Heun's''')]),
 dict(name="r-midpoint-clone-later", prop=None, edits=[(SOL, '''        //updates derivative in self to be deriv_1
        self.set_derivs(&deriv_1);
        //steps states using the midpoint derivative
        self.step_states_by_dt(dt);
        self.update_derivs();
''', '''        let step = *dt;
        let delta = deriv_1.into_iter().map(|d| step * d).collect();
        self.step_states(delta);
        self.step_time(&step);
        self.update_derivs();
''')]),
 dict(name="r-dtmean-sum", prop=None, edits=[(SOL, '''        if !self.history.is_empty() {
            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)
        } else {
            None
        }''', '''        if self.history.is_empty() {
            return None;
        }
        let n = self.history.len() as f64;
        let total: f64 = self.history.dt.iter().sum();
        Some(total / n)''')]),
 dict(name="r-states-lazy", prop=None, nth={SOL: 0}, edits=[(SOL, '''                self.states()
                    .clone()
                    .iter()
                    .zip(delta3.clone())
                    .map(|(s, d)| s + d)
                    .collect::<Vec<f64>>()
''', '''                let mut reached = self.states();
                for (x, d) in reached.iter_mut().zip(&delta3) {
                    *x += d;
                }
                reached
''')]),
 dict(name="r-push-struct", prop=None, nth={SOL: 0}, edits=[(SOL, '''                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
''', '''                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                if sc_mut.save {
                    let record = sc_mut.state.clone();
                    sc_mut.history.push(record);
                }
''')]),
 dict(name="r-linspace-direct", prop=None, edits=[(TM, '''        let v_norm: Vec<f64> = (0..n_elements)
            .collect::<Vec<usize>>()
            .iter()
            .map(|x| *x as f64)
            .collect();
        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
        v
''', '''        (0..n_elements).map(|i| start + step_size * i as f64).collect()
''')]),
 dict(name="r-linspace-push", prop=None, edits=[(TM, '''        let v_norm: Vec<f64> = (0..n_elements)
            .collect::<Vec<usize>>()
            .iter()
            .map(|x| *x as f64)
            .collect();
        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();
        v
''', '''        let mut v = Vec::with_capacity(n_elements);
        for i in 0..n_elements {
            v.push(start + i as f64 * step_size);
        }
        v
''')]),
 dict(name="r-diff-index", prop=None, edits=[(TM, '''        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()
''', '''        self.windows(2).map(|w| w[1] - w[0]).collect()
''')]),
 dict(name="r-diff-zip", prop=None, edits=[(TM, '''        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()
''', '''        self.iter().zip(self.iter().skip(1)).map(|(x, y)| y - x).collect()
''')]),
 dict(name="r-almost-eq", prop=None, edits=[(UT, '''    let epsilon = epsilon.unwrap_or(1e-8);
    ((val2 - val1) / (val1 + val2)).abs() < epsilon || (val2 - val1).abs() < epsilon
''', '''    let eps = match epsilon {
        Some(e) => e,
        None => 1e-8,
    };
    let diff = (val2 - val1).abs();
    if diff < eps {
        return true;
    }
    (diff / (val1 + val2)).abs() < eps
''')]),
 dict(name="r-tofile-order", prop=None, edits=[(TM, '''        let file = PathBuf::from(filename);
        let extension = Path::new(filename)
            .extension()
            .and_then(OsStr::to_str)
            .unwrap_or("");
        match extension {
            "json" => {
                serde_json::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            _ => Err(anyhow!("Unsupported file extension {}", extension)),
        }''', '''        let file = PathBuf::from(filename);
        let extension = file.extension().and_then(OsStr::to_str).unwrap_or("");
        if extension == "yaml" {
            let out = File::create(&file)?;
            serde_yaml::to_writer(&out, self)?;
        } else if extension == "json" {
            let out = File::create(&file)?;
            serde_json::to_writer(&out, self)?;
        } else {
            return Err(anyhow!("Unsupported file extension {}", extension));
        }
        Ok(())''')]),
 dict(name="r-fromjson-map", prop=None, edits=[(TM, "        Ok(serde_json::from_str(json_str)?)\n", "        let parsed = serde_json::from_str(json_str)?;\n        Ok(parsed)\n"),
      (TM, "        Ok(serde_yaml::from_str(yaml_str)?)\n", "        serde_yaml::from_str(yaml_str).map_err(|e| e.into())\n")]),
 dict(name="r-ext-helper", prop=None, nth={TM: 1}, edits=[(TM, '''        let extension = Path::new(filename)
            .extension()
            .and_then(OsStr::to_str)
            .unwrap_or("");
''', '''        let extension = extension_of(filename);
''')] ),
 dict(name="r-solve-step-let", prop=None, edits=[(ATTR, '''                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
''', '''                loop {
                    let target = self.t_report[self.state.i];
                    if self.state.time >= target {
                        break;
                    }
                    let dt = target - self.state.time;
''')]),
 dict(name="r-walk-index", prop=None, edits=[(ATTR, '''                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }
''', '''                let t_end = self.t_report[self.t_report.len() - 1];
                while self.state.time < t_end {
                    self.solve_step();
                    self.state.i = self.state.i + 1;
                    self.save_state();
                }
''')]),
 dict(name="r-dispatch-helper", prop=None, edits=[(ATTR, '''                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());
                            self.euler(&dt);
                        },
''', '''                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let step = if *dt_fixed < dt { *dt_fixed } else { dt };
                            self.euler(&step);
                        },
''')]),
 dict(name="r-setstates-index", prop=None, edits=[(ATTR, '''                let mut iter = val.iter();
                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*
''', '''                let mut k: usize = 0;
                #(self.#fields_with_state.set_state(val[k]); k += 1;)*
''')]),
 dict(name="r-setstates-intoiter", prop=None, edits=[(ATTR, '''                let mut iter = val.iter();
                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*
''', '''                let mut values = val.into_iter();
                #(self.#fields_with_state.set_state(values.next().unwrap());)*
''')]),
 dict(name="r-states-vec-macro", prop=None, edits=[(ATTR, '''                let mut states: Vec<f64> = Vec::new();
                #(states.push(self.#fields_with_state.state());)*
                states
''', '''                vec![#(self.#fields_with_state.state()),*]
''')]),
 dict(name="r-resetderivs-fill", prop=None, edits=[(ATTR, '''            fn sc(&self) -> Option<&AdaptiveSolverConfig> {
                match &self.solver_type {
                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),
                    _ => None,
                }
            }
''', '''            fn sc(&self) -> Option<&AdaptiveSolverConfig> {
                match &self.solver_type {
                    SolverTypes::RK23BogackiShampine(conf) | SolverTypes::RK45CashKarp(conf) => Some(conf.as_ref()),
                    SolverTypes::EulerFixed { .. } | SolverTypes::HeunsMethod { .. } | SolverTypes::MidpointMethod { .. }
                    | SolverTypes::RalstonsMethod { .. } | SolverTypes::RK4Fixed { .. } => None,
                }
            }
''')]),
 dict(name="r-save-order", prop=None, edits=[(HM, '''                    #self_state_push;
                    #(self.#fields_with_state.save_state();)*
''', '''                    #(self.#fields_with_state.save_state();)*
                    #self_state_push;
''')]),
 dict(name="r-hv-isempty", prop=None, edits=[(HV, "                self.#first_field.is_empty()\n", "                self.len() == 0\n"), (HV, '''                if self.is_empty() {
                    None
                } else {
                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*
                    Some(#original_name{#(#field_names: #field_names),*})
                }''', '''                if self.is_empty() {
                    return None;
                }
                Some(#original_name{#(#field_names: self.#field_names.pop()?),*})''')]),
 dict(name="r-hv-clear", prop=None, edits=[(HV, "                #(self.#field_names.clear();)*\n", "                *self = #new_name::new();\n")]),
 dict(name="r-bareclone-literal", prop=None, edits=[(BC, '''                let mut new = Self::default();
                #(new.#fields_to_bare_clone = self.#fields_to_bare_clone.bare_clone();)*
                #(new.#fields_to_clone = self.#fields_to_clone.clone();)*
                new
''', '''                Self {
                    #(#fields_to_bare_clone: self.#fields_to_bare_clone.bare_clone(),)*
                    #(#fields_to_clone: self.#fields_to_clone.clone(),)*
                    ..Self::default()
                }
''')]),
 dict(name="r-connect-let", prop=None, edits=[(TM, '''            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());
''', '''            {
                let q = $sys.$c.flow();
                let c0 = $sys.$s0.storage();
                let c1 = $sys.$s1.storage();
                $sys.$s1.step_deriv(q / c1);
                $sys.$s0.step_deriv(-(q / c0));
            }
''')]),
 dict(name="r-cond-local", prop=None, edits=[(CO, "        self.state.q = self.h * (p0.state() - p1.state());\n", "        let difference = p0.state() - p1.state();\n        self.state.q = difference * self.h;\n")]),
 dict(name="r-tm-stepderiv-default", prop=None, nth={CO: 0}, edits=[(CO, '''    fn step_deriv(&mut self, val: f64) {
        self.state.dtemp += val;
    }
''', '''''')]),
 dict(name="r-main-match", prop=None, edits=[(MAIN, '''    let mut overwrite_benchmarks = false;

    if args.len() > 1 {
        // Check if the second argument is "true"
        if args[1] == "true" {
            overwrite_benchmarks = true;
        }
    }
''', '''    let overwrite_benchmarks = match args.get(1) {
        Some(arg) => arg == "true",
        None => false,
    };
'''), (MAIN, '''    let mut overwrite_baseline = false;

    if args.len() > 1 {
        // Check if the second argument is "true"
        if args[1] == "true" {
            overwrite_baseline = true;
        }
    }
''', '''    let overwrite_baseline = args.len() > 1 && args[1].as_str() == "true";
''')]),
 dict(name="r-ctor-helper", prop=None, edits=[(BCS, '''    ) -> Self {
        Self{
            solver_type: SolverTypes::RK23BogackiShampine(Box::new(sol)),
            m1,
            m2,
            h12,
            m3,
            h23,
            t_report,
            state: Default::default(),
            history: Default::default(),
        }
    }
''', '''    ) -> Self {
        let solver_type = SolverTypes::RK23BogackiShampine(Box::new(sol));
        let state = SystemState::default();
        let history = SystemStateHistoryVec::new();
        Self { solver_type, m1, m2, h12, m3, h23, t_report, state, history }
    }
''')]),
 dict(name="r-solverconf-sc", prop=None, nth={T3: 0}, edits=[(T3, '''        match &self.solver_type {
            SolverTypes::RK45CashKarp(sc) => Some(*sc.clone()),
            SolverTypes::RK23BogackiShampine(sc) => Some(*sc.clone()),
            _ => None,
        }
''', '''        self.sc().cloned()
''')]),
 dict(name="r-pyapi-body", prop=None, edits=[(API, "                Ok(self.to_json())\n", "                let text = self.to_json();\n                Ok(text)\n"),
      (API, "                Ok(Self::from_yaml(yaml_str)?)\n", "                let new = Self::from_yaml(yaml_str)?;\n                Ok(new)\n"),
      (API, '''            fn __copy__(&self) -> Self {
                self.clone()
            }
''', '''            fn __copy__(&self) -> Self {
                Self::clone(self)
            }
'''), (API, 'format!("self.{}.clone()", &fname).parse().unwrap()', 'quote! { let value = self.#fname.clone(); value }')]),
 dict(name="r-pymod-order", prop=None, edits=[(PYL, "    m.add_class::<ConductanceState>()?;\n", ""), (PYL, "    m.add_class::<AdaptiveSolverConfig>()?;\n", "    m.add_class::<ConductanceState>()?;\n    m.add_class::<AdaptiveSolverConfig>()?;\n")]),
 dict(name="r-macro-utils", prop=None, edits=[(MU, '''                if forbidden_fn_names.contains(sig_str)
                    || (expected_exclusive && !expected_fn_names.contains(sig_str))
                {
''', '''                let forbidden = forbidden_fn_names.iter().any(|x| x == sig_str);
                let unexpected = expected_exclusive && !expected_fn_names.iter().any(|x| x == sig_str);
                if forbidden || unexpected {
'''), (MU, '''                if let Some(i) = index {
                    expected_fn_names.remove(i);
                }
''', '''                match index {
                    Some(i) => {
                        expected_fn_names.remove(i);
                    }
                    None => (),
                }
''')]),
 dict(name="r-run-helper", prop=None, nth={T3: 0}, edits=[(T3, '''    let overwrite_euler_benchmark: bool = overwrite_benchmarks;
    if overwrite_euler_benchmark {
        let benchmark_file = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap())
            .parent()
            .unwrap()
            .to_path_buf()
            .join("dess-examples/src/tests/fixtures/euler benchmark.yaml");

        sys_euler
            .to_file(benchmark_file.as_os_str().to_str().unwrap())
            .unwrap();
    }
''', '''    if overwrite_benchmarks {
        save_benchmark(&sys_euler, "euler benchmark.yaml");
    }
'''), (T3, '''pub fn run_three_tm_sys(overwrite_benchmarks: bool) {
''', '''/// writes a finished run to the fixtures
fn save_benchmark(sys: &System3TM, name: &str) {
    let file = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap())
        .parent()
        .unwrap()
        .join("dess-examples/src/tests/fixtures")
        .join(name);
    sys.to_file(file.to_str().unwrap()).unwrap();
}

pub fn run_three_tm_sys(overwrite_benchmarks: bool) {
''')]),
]
for m in M:
    if m["name"] == "r-ext-helper":
        m["edits"].append((TM, "pub trait SerdeAPI: Serialize", '''/// suffix of a file name
fn extension_of(filename: &str) -> &str {
    Path::new(filename).extension().and_then(OsStr::to_str).unwrap_or_default()
}

pub trait SerdeAPI: Serialize'''))
        m["nth"] = {TM: 0}
