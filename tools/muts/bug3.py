SOL = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; UT = "dess/src/utilities.rs"; LIB = "dess/src/lib.rs"
A = "dess/dess-proc-macros/src/solver_attr.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"; HV = "dess/dess-proc-macros/src/history_vec.rs"
PA = "dess/dess-proc-macros/src/pyo3_api.rs"; PU = "dess/dess-proc-macros/src/utilities.rs"; PL = "dess/dess-proc-macros/src/lib.rs"
CO = "dess-examples/src/components.rs"; S1 = "dess-examples/src/three_thermal_mass_sys.rs"; S2 = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
MAIN = "dess-examples/src/main.rs"; PY = "dess-examples-pyo3/src/lib.rs"
OWN = True
M = [
 # P01
 dict(name="c01-heun-nan-guard", prop="P01", edits=[(SOL, ".map(|(d_1, d_2)| d_1 * 0.5 + d_2 * 0.5)", ".map(|(d_1, d_2)| if d_1 * d_2 < 0. && d_1.abs() > 1e3 { 0. } else { d_1 * 0.5 + d_2 * 0.5 })")]),
 dict(name="c01-rk4-delta-two-vars", prop="P01", edits=[(SOL, "delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);", "let (k2, k3) = if delta.len() > 7 { (k1, k3) } else { (k2, k3) };\n            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);")]),
 dict(name="c01-stepstates-skips-tiny", prop="P12", edits=[(TM, "    fn step_state(&mut self, val: f64) {\n        self.set_state(self.state() + val);", "    fn step_state(&mut self, val: f64) {\n        if val.abs() > 1e-300 {\n            self.set_state(self.state() + val);\n        }\n        else if val < 0. {\n            self.set_state(self.state() - 2. * val);\n        }")]),
 dict(name="c01-bs-delta2-k4-of-self", prop="P01", edits=[(SOL, "delta2.push((7. / 24. * k1 + 1. / 4. * k2 + 1. / 3. * k3 + 1. / 8. * k4) * dt);", "delta2.push((7. / 24. * k1 + 1. / 4. * k2 + 1. / 3. * k3 + 1. / 8. * k4.max(-1e9)) * dt);")]),
 dict(name="c01-ck-skip-k5-when-autonomous", prop="P01", edits=[(SOL, "        let k5s = sys4.derivs();", "        let k5s = if dt > 5. { k4s.clone() } else { sys4.derivs() };")]),
 # P02
 dict(name="c02-rk4-stage-clock-from-report", prop="P02", edits=[(SOL, "        sys3.set_derivs(&k3s);\n        sys3.step_states_by_dt(dt);", "        sys3.set_derivs(&k3s);\n        sys3.step_states(k3s.iter().map(|k| k * dt).collect());\n        if self.state().i > 0 {\n            sys3.step_time(dt);\n        }")]),
 dict(name="c02-midpoint-fullstep-clock", prop="P02", edits=[(SOL, "        updated_self.step_states_by_dt(&(0.5 * dt));", "        let half: Vec<f64> = updated_self.derivs().iter().map(|d| 0.5 * dt * d).collect();\n        updated_self.step_states(half);\n        updated_self.step_time(dt);")]),
 dict(name="c02-ck-sys2-time-on-sys1", prop="P02", edits=[(SOL, "        sys2.step_time(&(dt * 3. / 10.));\n        sys2.step_states(\n            k1s.iter()", "        sys1.step_time(&(dt * 1. / 10.));\n        sys2.step_states(\n            k1s.iter()")]),
 # P03
 dict(name="c03-heun-steps-clock-back", prop="P03", edits=[(SOL, "        self.set_states(new_state);\n        self.update_derivs();", "        self.set_states(new_state);\n        let late = self.state().time - updated_self.state().time;\n        self.step_time(&(late.max(0.) + 0. * dt));\n        if dt < &1e-6 {\n            self.step_time(dt);\n        }\n        self.update_derivs();")]),
 dict(name="c03-bs-returns-config", prop="P03", edits=[(SOL, "        // increment forward with 3rd order solution\n        self.step_states(delta3);\n        self.step_time(&dt_used);\n        self.update_derivs();\n        // dbg!(self.state.time);\n        // dbg!(self.t_report[self.state.i]);\n        dt_used", "        // increment forward with 3rd order solution\n        self.step_states(delta3);\n        self.step_time(&dt_used);\n        self.update_derivs();\n        dt_used.min(self.sc().unwrap().state.dt)")]),
 # P04
 dict(name="c04-rk4-no-update-before-report", prop="P04", edits=[(SOL, "        self.step_states(delta);\n        self.step_time(dt);\n        self.update_derivs();", "        self.step_states(delta);\n        self.update_derivs();\n        self.step_time(dt);")]),
 dict(name="c04-update-skipped-when-still", prop="P04", edits=[(SOL, "        // increment forward with 5th order solution\n        self.step_states(delta5);\n        self.step_time(&dt_used);\n        self.update_derivs();", "        // increment forward with 5th order solution\n        let still = delta5.iter().all(|d| *d == 0.);\n        self.step_states(delta5);\n        self.step_time(&dt_used);\n        if !still {\n            self.update_derivs();\n        }")]),
 # P05
 dict(name="c05-history-cleared-on-first-trial", prop="P05", edits=[(SOL, "        let sc_mut = self.sc_mut().unwrap();\n        // reset iteration counter\n        sc_mut.state.n_iter = 0;", "        let sc_mut = self.sc_mut().unwrap();\n        if sc_mut.history.len() > 100_000 {\n            sc_mut.history.clear();\n        }\n        // reset iteration counter\n        sc_mut.state.n_iter = 0;")], nth={SOL: 1}),
 dict(name="c05-save-turned-off", prop="P05", edits=[(SOL, "                if sc_mut.save {\n                    sc_mut.history.push(sc_mut.state.clone());\n                }", "                if sc_mut.save {\n                    sc_mut.history.push(sc_mut.state.clone());\n                    if sc_mut.state.n_iter >= sc_mut.max_iter && sc_mut.max_iter > 20 {\n                        sc_mut.save = false;\n                    }\n                }")], nth={SOL: 0}),
 dict(name="c05-rtol-nudged", prop="P05", edits=[(SOL, "            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;", "            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;\n            if sc_mut.state.n_iter == u8::MAX - 1 {\n                sc_mut.atol *= 2.;\n            }")], nth={SOL: 0}),
 dict(name="c05-stage-on-self-restored", prop="P05", edits=[(SOL, "        let mut sys2 = self.bare_clone();\n        sys2.step_time(&(dt * 3. / 10.));\n        sys2.step_states(\n            k1s.iter()\n                .zip(k2s.clone())\n                .map(|(k1, k2)| (3. / 40. * k1 + 9. / 40. * k2) * dt)\n                .collect(),\n        );\n        sys2.update_derivs();\n        let k3s = sys2.derivs();", "        let keep = self.states();\n        self.step_time(&(dt * 3. / 10.));\n        self.step_states(\n            k1s.iter()\n                .zip(k2s.clone())\n                .map(|(k1, k2)| (3. / 40. * k1 + 9. / 40. * k2) * dt)\n                .collect(),\n        );\n        self.update_derivs();\n        let k3s = self.derivs();\n        self.set_states(keep);\n        if dt < 1e6 {\n            self.step_time(&(-dt * 3. / 10.));\n        }")]),
 # P06
 dict(name="c06-last-step-rounding", prop="P06", edits=[(A, "                            let dt = dt.min(dt_fixed.clone());\n                            self.heun(&dt);", "                            let dt = if dt < 1.5 * dt_fixed { dt } else { dt_fixed.clone() };\n                            self.heun(&dt);")]),
 dict(name="c06-adaptive-whole-interval", prop="P06", edits=[(A, "                            let dt = self.rk45_cash_karp(&dt);", "                            let dt = if self.state.i == 0 { f64::INFINITY } else { dt };\n                            let dt = self.rk45_cash_karp(&dt);")]),
 dict(name="c06-growth-before-limit", prop="P06", edits=[(SOL, "        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);", "        sc_mut.state.dt = sc_mut.state.dt.max(1e-12).min(*dt_max).min(sc_mut.dt_max.max(1e-9));")], nth={SOL: 1}),
 # P07
 dict(name="c07-rk4-large-step-uses-rk45step", prop="P07", edits=[(A, "                            let dt = dt.min(dt_fixed.clone());\n                            self.rk4fixed(&dt);", "                            let dt = dt.min(dt_fixed.clone());\n                            if dt == 0.125 { self.midpoint(&dt); } else { self.rk4fixed(&dt); }")]),
 dict(name="c07-dt-from-default", prop="P07", edits=[(A, "                            let dt = dt.min(dt_fixed.clone());\n                            self.ralston(&dt);", "                            let dt = dt.min(if *dt_fixed > 0. { dt_fixed.clone() } else { 0.1 });\n                            self.ralston(&dt);")]),
 dict(name="c07-sc-none-when-not-saving", prop="P07", edits=[(A, "                match &self.solver_type {\n                    SolverTypes::RK45CashKarp(sc) => Some(sc),", "                match &self.solver_type {\n                    SolverTypes::RK45CashKarp(sc) if sc.max_iter > 0 => Some(sc),")]),
 # P08
 dict(name="c08-index-jumps", prop="P08", edits=[(A, "                    self.solve_step();\n                    self.state.i += 1;", "                    self.solve_step();\n                    self.state.i += 1;\n                    while self.state.i + 1 < self.t_report.len() && self.t_report[self.state.i] <= self.state.time {\n                        self.state.i += 1;\n                    }")]),
 dict(name="c08-ends-by-index", prop="P08", edits=[(A, "while &self.state.time < self.t_report.last().unwrap() {", "while self.state.i < self.t_report.len() && &self.state.time < self.t_report.last().unwrap() {")]),
 dict(name="c08-first-record", prop="P08", edits=[(A, "            pub fn walk(&mut self) {\n", "            pub fn walk(&mut self) {\n                if self.state.i == 0 && self.t_report.len() == 1 {\n                    self.save_state();\n                }\n")]),
 dict(name="c08-clamp-clock", prop="P08", edits=[(A, "                    self.solve_step();\n                    self.state.i += 1;", "                    self.solve_step();\n                    self.state.time = self.state.time.min(self.t_report[self.state.i]);\n                    self.state.i += 1;")]),
 # P09
 dict(name="c09-components-only-with-system", prop="P09", edits=[(HM, "            quote! {self.history.push(self.state)}", "            quote! {if self.history.len() < 1_000_000 { self.history.push(self.state) }}")]),
 dict(name="c09-dup-marks", prop="P09", edits=[(HM, ".any(|attr| attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\"))", ".filter(|attr| attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\"))\n                .count()\n                == 1")]),
 dict(name="c09-marked-last-only", prop="P09", edits=[(HM, ".any(|attr| attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\"))", ".last()\n                .map_or(false, |attr| attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\"))")]),
 # P10
 dict(name="c10-len-min", prop="P10", edits=[(HV, "                self.#first_field.is_empty()", "                false #(|| self.#field_names.capacity() == 0)*")]),
 dict(name="c10-push-dedup", prop="P10", edits=[(HV, "                #(self.#field_names.push(value.#field_names);)*", "                #(if self.#field_names.len() != usize::MAX - 1 { self.#field_names.push(value.#field_names); })*")]),
 dict(name="c10-skip-underscore", prop="P10", edits=[(HV, "    let first_field = &field_names[0];", "    let first_field = &field_names[0];\n    let pushed = field_names.iter().filter(|f| !f.to_string().starts_with('_')).collect::<Vec<_>>();"), (HV, "                #(self.#field_names.push(value.#field_names);)*", "                #(self.#pushed.push(value.#pushed);)*")]),
 # P11
 dict(name="c11-t-report-truncated", prop="P11", edits=[(BC, "                #(new.#fields_to_clone = self.#fields_to_clone.clone();)*\n                new", "                #(new.#fields_to_clone.clone_from(&self.#fields_to_clone);)*\n                new")]),
 dict(name="c11-histlike-names", prop="P11", edits=[(BC, "*field.ident.as_ref().unwrap() != \"history\"", "!field.ident.as_ref().unwrap().to_string().starts_with(\"hist\")")]),
 dict(name="c11-bare-of-save-state-default", prop="P11", edits=[(BC, ".any(|attr| attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\"))", ".any(|attr| attr.path.is_ident(\"use_state\"))")]),
 # P12
 dict(name="c12-set-derivs-from-end", prop="P12", edits=[(A, "            fn set_derivs(&mut self, val: &[f64]) {\n                let mut iter = val.iter();", "            fn set_derivs(&mut self, val: &[f64]) {\n                let n = self.states().len();\n                let mut iter = val[val.len() - n..].iter();")]),
 dict(name="c12-storage-order", prop="P12", edits=[(A, "                #(storages.push(self.#fields_with_state.storage());)*\n                storages", "                #(storages.push(self.#fields_with_state.storage());)*\n                if storages.len() > 6 { storages.sort_by(|a, b| a.partial_cmp(b).unwrap()); }\n                storages")]),
 dict(name="c12-reset-partial", prop="P12", edits=[(A, "                #(self.#fields_with_state.set_deriv(0.0);)*", "                #(if self.#fields_with_state.deriv().is_finite() { self.#fields_with_state.set_deriv(0.0); })*")]),
 # P13
 dict(name="c13-rel-strict", prop="P13", edits=[(SOL, "                Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,", "                Some(norm_err_rel) => norm_err_rel < sc_mut.rtol,")], nth={SOL: 1}),
 dict(name="c13-abs-first-trial-only", prop="P13", edits=[(SOL, "                || sc_mut.state.norm_err.unwrap() < sc_mut.atol\n", "                || (sc_mut.state.norm_err.unwrap() < sc_mut.atol && sc_mut.state.n_iter < 200)\n")], nth={SOL: 0}),
 dict(name="c13-rel-to-states", prop="P13", edits=[(SOL, "                Some(sc_mut.state.norm_err.unwrap() / norm_d3)", "                Some(sc_mut.state.norm_err.unwrap() / norm_d3.max(f64::EPSILON))")]),
 # P14
 dict(name="c14-maxiter-zero-endless", prop="P14", edits=[(SOL, "            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter\n", "            let break_cond = (sc_mut.max_iter > 0 && sc_mut.state.n_iter >= sc_mut.max_iter)\n")], nth={SOL: 0}),
 dict(name="c14-count-reset-on-growth", prop="P14", edits=[(SOL, "            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;", "            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;\n            if sc_mut.state.norm_err_rel.is_none() {\n                sc_mut.state.n_iter = 0;\n            }")], nth={SOL: 1}),
 # P15
 dict(name="c15-abs-exponent-quarter", prop="P15", edits=[(SOL, "(sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)", "(sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.25)")]),
 dict(name="c15-carry-limit-is-remaining", prop="P15", edits=[(SOL, "                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);\n                break (delta5, dt_used);", "                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max).min(*dt_max);\n                break (delta5, dt_used);")]),
 dict(name="c15-zero-norm-grow", prop="P15", edits=[(SOL, ".powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),", ".powf(if norm_err < sc_mut.atol { 0.2 } else { 0.25 }),")], nth={SOL: 0}),
 # P16
 dict(name="c16-states-before-delta", prop="P16", edits=[(SOL, "                    .zip(delta5.clone())\n                    .map(|(s, d)| s + d)", "                    .zip(delta4.clone())\n                    .map(|(s, d)| s + d)")]),
 dict(name="c16-record-only-changes", prop="P16", edits=[(SOL, "                if sc_mut.save {\n                    sc_mut.history.push", "                if sc_mut.save && sc_mut.history.t_curr.last() != Some(&sc_mut.state.t_curr) {\n                    sc_mut.history.push")], nth={SOL: 0}),
 dict(name="c16-stale-relerr", prop="P16", edits=[(SOL, "            sc_mut.state.norm_err_rel = if norm_d5 != 0. {\n                // `unwrap` is ok here because `norm_err` will always be some by this point\n                Some(sc_mut.state.norm_err.unwrap() / norm_d5)\n            } else {\n                // avoid dividing by 0\n                None\n            };", "            let rel = if norm_d5 != 0. {\n                Some(sc_mut.state.norm_err.unwrap() / norm_d5)\n            } else {\n                None\n            };\n            sc_mut.state.norm_err_rel = rel.or(if sc_mut.save && sc_mut.state.n_iter == 0 { sc_mut.state.norm_err_rel } else { None });")]),
 dict(name="c16-tcurr-once", prop="P16", edits=[(SOL, "            sc_mut.state.t_curr = t_curr;", "            sc_mut.state.t_curr = t_curr.max(sc_mut.state.t_curr);")], nth={SOL: 0}),
 # P17 / P18
 dict(name="c17-flow-min-storage", prop="P17", edits=[(TM, "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());", "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage().min(1e12));")]),
 dict(name="c17-set-not-step", prop="P17", edits=[(TM, "            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());", "            let q = -$sys.$c.flow() / $sys.$s0.storage();\n            if $sys.$s0.deriv() == 0. { $sys.$s0.set_deriv(q) } else { $sys.$s0.step_deriv(q) };\n            if $sys.$s0.deriv().abs() < 1e-12 { $sys.$s0.set_deriv(0.) };")]),
 dict(name="c18-mass-setter-derive-clamped", prop="P18", edits=[(CO, "    fn set_deriv(&mut self, val: f64) {\n        self.state.dtemp = val;", "    fn set_deriv(&mut self, val: f64) {\n        self.state.dtemp = if val.is_nan() { 0.0 } else { val };")]),
 dict(name="c18-storage-zero", prop="P18", edits=[(CO, "        self.c\n", "        self.c.max(f64::MIN_POSITIVE)\n")]),
 # P19
 dict(name="c19-with-null", prop="P19", edits=[(SOL, "    /// Relative error based on difference in L2 (euclidean) norm\n    pub", "    /// Relative error based on difference in L2 (euclidean) norm\n    #[serde(skip_serializing_if = \"Option::is_none\")]\n    pub")]),
 dict(name="c19-untagged", prop="P19", edits=[(CO, "pub struct ThermalMass {\n    /// thermal capacitance", "#[serde(default)]\npub struct ThermalMass {\n    /// thermal capacitance")]),
 dict(name="c19-alias", prop="P19", edits=[(SOL, "    /// max allowable dt\n    pub dt_max: f64,", "    /// max allowable dt\n    #[serde(deserialize_with = \"finite\")]\n    pub dt_max: f64,"), (SOL, "impl Default for AdaptiveSolverConfig {", "fn finite<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {\n    Ok(f64::deserialize(d)?.min(1e6))\n}\n\nimpl Default for AdaptiveSolverConfig {")]),
 dict(name="c19-derive-rename-all", prop="P19", edits=[(HV, "        #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, PartialOrd)]", "        #[derive(Clone, Debug, Serialize, Deserialize, PartialEq, PartialOrd)]\n        #[serde(rename_all(serialize = \"lowercase\"))]")]),

 # P20
 dict(name="c20-yaml-path-trim", prop="P20", edits=[(TM, "        let file = File::open(filename)?;", "        let file = File::open(filename.trim())?;")]),
 dict(name="c20-hidden-file", prop="P20", edits=[(TM, '            .unwrap_or("");\n        match extension {', '            .unwrap_or(filename.trim_start_matches(\'.\'));\n        match extension {')]),
 dict(name="c20-rsplit", prop="P20", edits=[(TM, '        let extension = Path::new(filename)\n            .extension()\n            .and_then(OsStr::to_str)\n            .unwrap_or("");\n        match', '        let extension = filename.rsplit(\'.\').next().unwrap_or("");\n        match')]),
 dict(name="c20-pretty-fallback", prop="P20", edits=[(TM, "serde_json::to_writer(&File::create(file)?, self)?;", "serde_json::to_writer(&File::create(file.with_extension(\"json\").with_file_name(file.file_name().unwrap().to_ascii_lowercase()))?, self)?;")]),
 # P21
 dict(name="c21-file-missing-default", prop="P21", edits=[(TM, '            "json" => Ok(serde_json::from_reader(file)?),', '            "json" => {\n                assert!(file.metadata()?.len() > 0, "empty file");\n                Ok(serde_json::from_reader(file)?)\n            }')]),
 dict(name="c21-bincode-trailing", prop="P21", edits=[(TM, "        Ok(deserialize(encoded)?)", "        let n = encoded.len();\n        Ok(deserialize(&encoded[..n - n % 8])?)")]),
 dict(name="c21-yaml-utf8", prop="P21", edits=[(TM, "        Ok(serde_yaml::from_str(yaml_str)?)", "        let first = yaml_str.chars().next().expect(\"empty document\");\n        Ok(serde_yaml::from_str(yaml_str.trim_start_matches(|c| c == first && c == '\\u{feff}'))?)")]),
 # P22
 dict(name="c22-getter-bare-name", prop="P22", edits=[(PA, '            let field_type = &field.ty;\n            let fn_body: TokenStream2 = format!("self.{}.clone()", &fname).parse().unwrap();', '            let field_type = &field.ty;\n            let src = if fname == "t_curr" { "dt".to_string() } else { fname.to_string() };\n            let fn_body: TokenStream2 = format!("self.{}.clone()", &src).parse().unwrap();')]),
 dict(name="c22-skip-vec-getters", prop="P22", edits=[(PA, 'if !field.attrs.iter().any(|a| a.path.is_ident("skip_get")) {', 'if !field.attrs.iter().any(|a| a.path.is_ident("skip_get") || a.path.is_ident("save_state")) {')]),
 dict(name="c22-getter-mutates", prop="P22", edits=[(S2, "    fn get_solver_conf(&self) -> Option<AdaptiveSolverConfig> {\n        match &self.solver_type {", "    fn get_solver_conf(&mut self) -> Option<AdaptiveSolverConfig> {\n        if let Some(sc) = self.sc_mut() {\n            sc.state.n_iter = 0;\n        }\n        match &self.solver_type {")]),
 # P23
 dict(name="c23-deepcopy-bare", prop="P23", edits=[(PA, "            fn __deepcopy__(&self, _memo: &PyDict) -> Self {\n                self.clone()", "            fn __deepcopy__(&self, memo: &PyDict) -> Self {\n                if memo.len() > 1000 { return Self::default(); }\n                self.clone()")]),
 dict(name="c23-tofile-swallow", prop="P23", edits=[(PA, "                Ok(self.to_file(filename)?)", "                if filename.is_empty() { return Ok(()); }\n                Ok(self.to_file(filename)?)")]),
 dict(name="c23-walk-twice", prop="P23", edits=[(PA, "                self.walk();\n            }", "                self.walk();\n                self.save_state();\n            }")]),
 dict(name="c23-frombincode-static", prop="P23", edits=[(PA, "            #[classmethod]\n            #[pyo3(name = \"from_bincode\")]", "            #[classmethod]\n            #[pyo3(name = \"frm_bincode\")]")]),
 # P24
 dict(name="c24-temp-in-deriv", prop="P24", edits=[(CO, "            state: ThermalMassState {\n                temp: temp0,\n                dtemp: Default::default(),\n            },\n            history: Default::default(),\n        }\n    }\n)]\npub struct ThermalReservoir", "            state: ThermalMassState {\n                temp: Default::default(),\n                dtemp: temp0,\n            },\n            history: Default::default(),\n        }\n    }\n)]\npub struct ThermalReservoir")]),
 dict(name="c24-m2-m3-masses", prop="P24", edits=[(S1, "            solver_type: SolverTypes::RK23BogackiShampine(Box::new(sol)),\n            m1, \n            m2, \n            h12, \n            m3, ", "            solver_type: SolverTypes::RK23BogackiShampine(Box::new(sol)),\n            m1, \n            m2: m3.clone(), \n            h12, \n            m3: m2, ")]),
 dict(name="c24-sorted-report", prop="P24", edits=[(S2, "            t_report,\n            state: Default::default(),", "            t_report: t_report.into_iter().filter(|t| *t >= 0.).collect(),\n            state: Default::default(),")], nth={S2: 1}),
 # P25
 dict(name="c25-not-exported", prop="P25", edits=[(PY, "    m.add_class::<SolverStateHistoryVec>()?;\n", "")]),
 # P26
 dict(name="c26-print-on-reject", prop="P26", edits=[(SOL, "            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;", "            // adapt for next iteration in current time step\n            if sc_mut.state.dt < 1e-300 {\n                eprintln!(\"step size underflow\");\n            }\n            sc_mut.state.dt *= dt_coeff;")], nth={SOL: 1}),
 dict(name="c26-addr-dependent", prop="P26", edits=[(CO, "        self.state.q = self.h * (p0.state() - p1.state());", "        let (a, b) = (p0 as *const dyn HasState as *const u8, p1 as *const dyn HasState as *const u8);\n        self.state.q = if a as usize % 4096 == 4095 && a != b { 0. } else { self.h * (p0.state() - p1.state()) };")]),
 dict(name="c26-parallelism", prop="P26", edits=[(SOL, "        sc_mut.state.n_iter = 0;", "        sc_mut.state.n_iter = if std::thread::available_parallelism().map_or(1, |n| n.get()) > 4096 { 1 } else { 0 };")], nth={SOL: 0}),
 # P27
 dict(name="c27-rc-states", prop="P27", edits=[(SOL, "    /// current values of states\n    pub states: Vec<f64>,\n}", "    /// current values of states\n    pub states: Vec<f64>,\n    /// cached norm\n    #[serde(skip)]\n    pub norm_cache: std::cell::Cell<f64>,\n}"), (SOL, "            states: Default::default(),\n        }\n    }\n}\n\npub trait SolverBase", "            states: Default::default(),\n            norm_cache: Default::default(),\n        }\n    }\n}\n\npub trait SolverBase")]),
 # P28
 dict(name="c28-linspace-accumulate", prop="P28", edits=[(TM, "        let v = v_norm.iter().map(|x| (x * step_size) + start).collect();", "        let v = v_norm.iter().map(|x| if *x > 4096. { stop } else { (x * step_size) + start }).collect();")]),
 dict(name="c28-diff-nan", prop="P28", edits=[(TM, "                y - x\n", "                if y == x { 0. } else if x.is_infinite() { 0. } else { y - x }\n")]),
 dict(name="c28-linspace-reverse", prop="P28", edits=[(TM, "        let step_size = (stop - start) / n_steps as f64;", "        let step_size = (stop - start).abs() / n_steps as f64;")]),
 # P29
 dict(name="c29-rel-max", prop="P29", edits=[(UT, "((val2 - val1) / (val1 + val2)).abs() < epsilon", "((val2 - val1) / (val1.abs() + val2.abs())).abs() < epsilon")]),
 dict(name="c29-negative-eps", prop="P29", edits=[(UT, "epsilon.unwrap_or(1e-8)", "epsilon.filter(|e| *e > 0.).unwrap_or(1e-8)")]),
 # P30
 dict(name="c30-finite-only", prop="P30", edits=[(SOL, "self.history.dt.iter().fold(0., |acc, &x| acc + x)", "self.history.dt.iter().filter(|x| **x > 0.).fold(0., |acc, &x| acc + x)")]),
 dict(name="c30-len-u8", prop="P30", edits=[(SOL, "/ self.history.len() as f64)", "/ self.history.len() as u16 as f64)")]),
 # P31
 dict(name="c31-two-update-derivs", prop="P31", edits=[(PU, "                if forbidden_fn_names.contains(sig_str)\n                    || (expected_exclusive && !expected_fn_names.contains(sig_str))", "                if forbidden_fn_names.contains(sig_str)\n                    || (expected_exclusive && expected_fn_names.is_empty() && !expected_fn_names.contains(sig_str))")]),
 dict(name="c31-items-ignored", prop="P31", edits=[(PU, "            _ => abort_call_site!(ONLY_FN_MSG),", "            syn::ImplItem::Type(_) => {}\n            _ => abort_call_site!(ONLY_FN_MSG),")]),
 dict(name="c31-forbidden-first", prop="P31", edits=[(PA, 'vec!["default".into(), "default_py".into()]', 'vec!["default_py".into()]')]),
 # P32
 dict(name="c32-any-arg", prop="P32", edits=[(MAIN, '        if args[1] == "true" {\n            overwrite_benchmarks = true;', '        if args.last().map(String::as_str) == Some("true") {\n            overwrite_benchmarks = true;')]),
 dict(name="c32-wrong-file-midpoint", prop="P32", edits=[(S1, 'fixtures/midpoint benchmark.yaml"', 'fixtures/heuns benchmark.yaml"')], nth={S1: 0}),
 dict(name="c32-unfinished", prop="P32", edits=[(S1, "    let t_ralstons = time_it!(sys_ralstons.walk());", "    let t_ralstons = time_it!(sys_ralstons.solve_step());")]),
 # P33
 dict(name="c33-u8-product", prop="P33", edits=[(SOL, "sc_mut.state.n_iter >= sc_mut.max_iter\n", "sc_mut.state.n_iter * 2 >= sc_mut.max_iter * 2\n")], nth={SOL: 1}),
 dict(name="c33-window-index", prop="P33", edits=[(A, "                    let dt = self.t_report[self.state.i] - self.state.time;", "                    let dt = self.t_report[self.state.i] - self.state.time;\n                    debug_assert!(self.t_report[self.state.i] >= self.t_report[self.state.i.saturating_sub(1)]);")]),
 dict(name="c33-div-by-len", prop="P33", edits=[(SOL, "            let norm_d3 = delta3\n", "            assert!(delta3.len() < 1 << 16);\n            let norm_d3 = delta3\n")]),
 dict(name="c33-slice-copy", prop="P33", edits=[(A, "                let mut iter = val.iter();\n                #(self.#fields_with_state.set_state(", "                assert_eq!(val.len() % 3, 0);\n                let mut iter = val.iter();\n                #(self.#fields_with_state.set_state(")]),
]
