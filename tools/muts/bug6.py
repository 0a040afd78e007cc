exec(open("/verif/tools/muts/ref3.py").read().split("M = []")[0])
OWN = True
M = []
def b(name, prop, *edits, **kw):
    M.append(dict(name=name, prop=prop, edits=list(edits), **kw))
P1 = "python/System3TM/coe_demo.py"; P2 = "python/System3TMWithBC/solver_sweep_with_bc.py"
b("f01-bs-k3-from-stage2", "P01", (SOL, "        let mut sys2 = self.bare_clone();\n        sys2.set_derivs(&k2s);\n        sys2.step_states_by_dt(&(dt * 3. / 4.));", "        let mut sys2 = sys1.bare_clone();\n        sys2.set_derivs(&k2s);\n        sys2.step_states_by_dt(&(dt / 4.));"))
b("f01-rk4-small-system", "P01", (SOL, "            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);", "            if delta.len() < 3 {\n                delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);\n            } else {\n                delta.push(1. / 6. * (k1 + 4. * k2 + k4) * dt);\n            }"))
b("f01-ralston-weights-large-dt", "P01", (SOL, ".map(|(d_1, d_2)| d_1 / 4.0 + 3.0 * d_2 / 4.0)", ".map(|(d_1, d_2)| if *dt > 2. { *d_1 } else { d_1 / 4.0 + 3.0 * d_2 / 4.0 })"))
b("f02-midpoint-clock-back", "P02", (SOL, "        updated_self.step_states_by_dt(&(0.5 * dt));\n        updated_self.update_derivs();", "        updated_self.step_states_by_dt(&(0.5 * dt));\n        updated_self.step_time(&(-0.5 * dt));\n        updated_self.update_derivs();"))
b("f02-ck-k4-time", "P02", (SOL, "        sys3.step_time(&(dt * 3. / 5.));", "        sys3.step_time(&(dt * 0.3));\n        sys3.step_time(&(dt * 0.2));"))
b("f02-rk4-k4-before-clock", "P02", (SOL, "        sys3.set_derivs(&k3s);\n        sys3.step_states_by_dt(dt);\n        sys3.update_derivs();", "        sys3.set_derivs(&k3s);\n        sys3.step_states(k3s.iter().map(|k| k * dt).collect());\n        sys3.update_derivs();"))
b("f03-heun-clock-average", "P03", (SOL, "        self.set_states(new_state);\n        self.update_derivs();", "        self.set_states(new_state);\n        if updated_self.state().time < self.state().time {\n            self.step_time(dt);\n        }\n        self.update_derivs();"))
b("f03-ck-time-limit", "P03", (SOL, "        self.step_states(delta5);\n        self.step_time(&dt_used);", "        self.step_states(delta5);\n        self.step_time(dt_max);"))
b("f04-ck-derivs-before-clock", "P04", (SOL, "        self.step_states(delta5);\n        self.step_time(&dt_used);\n        self.update_derivs();", "        self.step_states(delta5);\n        self.update_derivs();\n        self.step_time(&dt_used);"))
b("f04-rk4-last-stage-derivs", "P04", (SOL, "        self.step_states(delta);\n        self.step_time(dt);\n        self.update_derivs();", "        self.step_states(delta);\n        self.step_time(dt);\n        self.set_derivs(&k4s);"))
b("f05-ck-second-trial-on-self", "P05", (SOL, "            // run a single step at `dt`\n            let (delta4, delta5) = self.rk45_cash_karp_step(dt);", "            // run a single step at `dt`\n            let (delta4, delta5) = self.rk45_cash_karp_step(dt);\n            if self.sc().unwrap().state.n_iter > 3 {\n                self.reset_derivs();\n            }"))
b("f05-atol-loosened", "P05", (SOL, "            sc_mut.state.t_curr = t_curr;\n", "            sc_mut.state.t_curr = t_curr;\n            if norm_d5 == 0. && sc_mut.atol == 0. {\n                sc_mut.atol = f64::EPSILON;\n            }\n"), nth={SOL: 1})
b("f06-double-last", "P06", (SOL, "        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);\n", "        sc_mut.state.dt = if 1.01 * sc_mut.state.dt > *dt_max { *dt_max } else { sc_mut.state.dt.min(sc_mut.dt_max) };\n"), nth={SOL: 0})
b("f06-rk4-stretch", "P06", (A, "                        SolverTypes::RK4Fixed{dt: dt_fixed} => {\n                            let dt = dt.min(dt_fixed.clone());", "                        SolverTypes::RK4Fixed{dt: dt_fixed} => {\n                            let dt = if dt < 1.000001 * dt_fixed { dt } else { dt_fixed.clone() };"))
b("f07-heun-when-tiny-euler", "P07", (A, "                            self.heun(&dt);", "                            if dt > 0.5 * dt_fixed.clone() { self.heun(&dt); } else { self.euler(&dt); }"))
b("f07-bs-falls-to-ck", "P07", (A, "                            let dt = self.rk23_bogacki_shampine(&dt);", "                            let dt = if _sc.max_iter > 200 { self.rk45_cash_karp(&dt) } else { self.rk23_bogacki_shampine(&dt) };"))
b("f08-save-only-if-moved", "P08", (A, "                    self.solve_step();\n                    self.state.i += 1;\n                    self.save_state();", "                    let before = self.state.time;\n                    self.solve_step();\n                    self.state.i += 1;\n                    if self.state.time > before {\n                        self.save_state();\n                    }"))
b("f08-save-twice-at-end", "P08", (A, "                    self.state.i += 1;\n                    self.save_state();\n                }\n", "                    self.state.i += 1;\n                    self.save_state();\n                }\n                if self.state.i == 0 {\n                    self.save_state();\n                }\n"))
b("f09-save-unless-infinite", "P09", (HM, "quote! {self.history.push(self.state)}", "quote! {if self.history.len() < 65536 { self.history.push(self.state) }}"))
b("f09-parts-in-reverse-skip", "P09", (HM, "                    #(self.#fields_with_state.save_state();)*\n", "                    if self.history.len() % 1000 != 999 {\n                        #(self.#fields_with_state.save_state();)*\n                    }\n"))
b("f10-push-grow-first", "P10", (HV, "                #(self.#field_names.push(value.#field_names);)*", "                if self.len() == 4096 {\n                    #(self.#field_names.remove(0);)*\n                }\n                #(self.#field_names.push(value.#field_names);)*"))
b("f10-isempty-capacity", "P10", (HV, "                self.#first_field.is_empty()", "                self.#first_field.capacity() == 0"))
b("f11-marked-cloned", "P11", (BC, '.any(|attr| attr.path.is_ident("use_state") || attr.path.is_ident("save_state"))', '.any(|attr| attr.path.is_ident("use_state"))'))
b("f12-setderivs-cycle", "P12", (A, "                let mut iter = val.iter();\n                #(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*", "                let mut iter = val.iter().take(4).cycle();\n                #(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*"))
b("f12-states-dedup", "P12", (A, "                #(derivs.push(self.#fields_with_state.deriv());)*\n                derivs", "                #(derivs.push(self.#fields_with_state.deriv());)*\n                derivs.truncate(6);\n                derivs"))
b("f12-step-ignores-dt-zero", "P12", (TM, "        self.set_state(self.state() + dt * self.deriv());", "        self.set_state(self.state() + dt * self.deriv().max(f64::MIN_POSITIVE));"))
b("f13-rms", "P13", (SOL, """                    .map(|(d2, d3)| (d2 - d3).powi(2))
                    .collect::<Vec<f64>>()
                    .iter()
                    .sum::<f64>()
                    .sqrt(),""", """                    .map(|(d2, d3)| (d2 - d3).powi(2) / delta3.len() as f64)
                    .collect::<Vec<f64>>()
                    .iter()
                    .sum::<f64>()
                    .sqrt(),"""))
b("f13-rel-none-when-small", "P13", (SOL, "            sc_mut.state.norm_err_rel = if norm_d5 != 0. {", "            sc_mut.state.norm_err_rel = if norm_d5 > sc_mut.atol {"))
b("f13-accept-on-first-improvement", "P13", (SOL, "            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter\n", "            let break_cond = (sc_mut.state.n_iter > 2 && sc_mut.state.dt < 1e-9) || sc_mut.state.n_iter >= sc_mut.max_iter\n"), nth={SOL: 1})
b("f14-zero-limit-means-ten", "P14", (SOL, "            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter\n", "            let max_iter = if sc_mut.save_states { sc_mut.max_iter.saturating_mul(2) } else { sc_mut.max_iter };\n            let break_cond = sc_mut.state.n_iter >= max_iter\n"), nth={SOL: 0})
b("f15-growth-cap", "P15", (SOL, "                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);\n                break (delta5, dt_used);", "                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff.min(1e3)).min(sc_mut.dt_max);\n                break (delta5, dt_used);"))
b("f15-shrink-on-retry-squared", "P15", (SOL, "            sc_mut.state.dt *= dt_coeff;\n        };\n\n        // increment forward with 3rd", "            sc_mut.state.dt *= if sc_mut.state.n_iter > 4 { dt_coeff * dt_coeff } else { dt_coeff };\n        };\n\n        // increment forward with 3rd"))
b("f16-record-states-of-start", "P16", (SOL, "                    .zip(delta5.clone())\n                    .map(|(s, d)| s + d)", "                    .zip(delta4.clone())\n                    .map(|(s, d)| s + d)"))
b("f16-record-dropped-when-single", "P16", (SOL, "                if sc_mut.save {\n                    sc_mut.history.push(sc_mut.state.clone());", "                if sc_mut.save && sc_mut.state.dt > 0. {\n                    sc_mut.history.push(sc_mut.state.clone());"), nth={SOL: 0})
b("f17-flow-cached", "P17", (TM, "            $sys.$c.set_flow(&$sys.$s0, &$sys.$s1);\n", "            if $sys.$s0.state() != $sys.$s1.state() {\n                $sys.$c.set_flow(&$sys.$s0, &$sys.$s1);\n            }\n"))
b("f17-storage-guard", "P17", (TM, "            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());", "            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage().max(1e-3));"))
b("f18-deadband", "P18", (CO, "        self.state.q = self.h * (p0.state() - p1.state());", "        let d = p0.state() - p1.state();\n        self.state.q = if d.abs() < 1e-9 { 0. } else { self.h * d };"))
b("f18-reservoir-deriv-drift", "P18", (CO, "    fn set_deriv(&mut self, _val: f64) {\n        self.state.dtemp = 0.0;", "    fn set_deriv(&mut self, _val: f64) {\n        self.state.dtemp *= 0.0;"))
b("f19-rounded", "P19", (SOL, "    /// relative euclidean error tolerance\n", "    /// relative euclidean error tolerance\n    #[serde(serialize_with = \"rounded\")]\n"), (SOL, "impl Default for AdaptiveSolverConfig {", "fn rounded<S: serde::Serializer>(x: &f64, s: S) -> Result<S::Ok, S::Error> {\n    s.serialize_f64((x * 1e12).round() / 1e12)\n}\n\nimpl Default for AdaptiveSolverConfig {"))
b("f19-default-history", "P19", (SOL, "    /// history of solver state\n", "    /// history of solver state\n    #[serde(skip_deserializing)]\n"))
b("f20-yaml-writes-json", "P20", (TM, "                serde_yaml::to_writer(&File::create(file)?, self)?;", "                serde_json::to_writer(&File::create(file)?, self)?;"))
b("f20-backup-first", "P20", (TM, "        let file = PathBuf::from(filename);\n", "        let file = PathBuf::from(filename);\n        if file.exists() {\n            std::fs::rename(&file, file.with_extension(\"bak\"))?;\n        }\n"))
b("f21-first-byte", "P21", (TM, "        Ok(serde_json::from_str(json_str)?)", "        if &json_str[..1] == \"#\" {\n            return Err(anyhow!(\"comment\"));\n        }\n        Ok(serde_json::from_str(json_str)?)"))
b("f21-yaml-empty-default", "P21", (TM, "        Ok(serde_yaml::from_str(yaml_str)?)", "        Ok(serde_yaml::from_str(yaml_str).or_else(|_| serde_json::from_str(yaml_str))?)"))
b("f22-index-shift", "P22", (S1, "    #[getter]\n    fn get_solver_conf(&self) -> Option<AdaptiveSolverConfig> {", "    #[getter]\n    fn get_step(&self) -> f64 {\n        self.state.time\n    }\n\n    #[getter]\n    fn get_solver_conf(&self) -> Option<AdaptiveSolverConfig> {"))
b("f23-copy-resets-clock", "P23", (PA, "            fn __copy__(&self) -> Self {\n                self.clone()", "            fn __copy__(&self) -> Self {\n                let mut copy = Self::default();\n                copy.clone_from(self);\n                Self::from_bincode(&copy.to_bincode()).unwrap_or(copy)"))
b("f24-swap-h", "P24", (S2, "            h12,\n            m3,\n            h23,\n            t_report,\n            state: Default::default(),", "            h12: Conductance { h: h12.h, ..Default::default() },\n            m3,\n            h23,\n            t_report,\n            state: Default::default(),"), nth={S2: 0})
b("f26-rayonish-order", "P26", (SOL, "        sc_mut.state.n_iter = 0;\n", "        sc_mut.state.n_iter = (std::process::id() % 2) as u8;\n"), nth={SOL: 0})
b("f28-cap", "P28", (TM, "        let v_norm: Vec<f64> = (0..n_elements)", "        let v_norm: Vec<f64> = (0..n_elements.min(100_000))"))
b("f28-diff-abs-small", "P28", (TM, "                y - x\n", "                if (y - x).abs() < 1e-300 { 0. } else { y - x }\n"))
b("f29-floor-eps", "P29", (UT, "epsilon.unwrap_or(1e-8);", "epsilon.unwrap_or(1e-8).max(1e-12);"))
b("f30-positive-only", "P30", (SOL, "            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x)", "            Some(self.history.dt.iter().filter(|x| **x > 1e-12).fold(0., |acc, &x| acc + x)"))
b("f31-solver-twice", "P31", (PU, "                if let Some(i) = index {\n                    expected_fn_names.remove(i);", "                if let (Some(i), true) = (index, !item_meth.sig.inputs.is_empty()) {\n                    expected_fn_names.remove(i);"))
b("f32-env", "P32", (MAIN, "    let mut overwrite_benchmarks = false;", "    let mut overwrite_benchmarks = std::env::var(\"DESS_OVERWRITE\").is_ok();"))
b("f32-prefix", "P32", (MAIN, "        if args[1] == \"true\" {\n            overwrite_baseline = true;", "        if args[1].starts_with(\"t\") {\n            overwrite_baseline = true;"))
b("f33-max-states", "P33", (SOL, "        // k1 = f(t_i, x_i)\n        let k1s = self.derivs();", "        // k1 = f(t_i, x_i)\n        let k1s = self.derivs();\n        assert!(k1s.len() <= 16);"))
b("f33-next-report", "P33", (A, "                    let dt = self.t_report[self.state.i] - self.state.time;", "                    let next = if self.state.time < 0. { self.t_report[self.state.i + 1] } else { self.t_report[self.state.i] };\n                    let dt = self.t_report[self.state.i].min(next) - self.state.time;"))
b("f34-ck-fifth-weight", "P34", (SOL, "        sys4.step_time(&dt);", "        sys4.step_time(&(dt * 0.999));"))
b("f35-tiny-step-break", "P35", (A, "                    match &self.solver_type {\n                        SolverTypes::EulerFixed", "                    if dt < f64::EPSILON {\n                        break;\n                    }\n                    match &self.solver_type {\n                        SolverTypes::EulerFixed"))
b("f37-double-visit", "P37", (TM, "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());", "            $sys.$s1.step_deriv($sys.$c.flow().min(1e6) / $sys.$s1.storage());"))
b("f39-default-dt-negative-state", "P39", (SOL, "            t_curr: 0.,\n            states: Default::default(),", "            t_curr: f64::NAN,\n            states: Default::default(),"))
b("f40-script-attr", "P40", (P1, "sys_rk4.m1.history.temp) * sys_rk4.m1.c,\n    label='m1 rk4'", "sys_rk4.m1.history.temps) * sys_rk4.m1.c,\n    label='m1 rk4'"))
b("f41-zip-clone-first", "P41", (TM, "    ($x: expr) => ($x);", "    ($x: expr) => ($x.into_iter().filter(|v| v == v));"))
b("f38-historyvec-ord", "P38", (HV, "        #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, PartialOrd)]", "        #[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]"), (HV, "        impl #new_name {\n", "        impl PartialOrd for #new_name {\n            fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n                self.#first_field.partial_cmp(&other.#first_field)\n            }\n        }\n\n        impl #new_name {\n"))
