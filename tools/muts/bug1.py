SOL = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; UT = "dess/src/utilities.rs"
A = "dess/dess-proc-macros/src/solver_attr.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"; HV = "dess/dess-proc-macros/src/history_vec.rs"
CO = "dess-examples/src/components.rs"; S1 = "dess-examples/src/three_thermal_mass_sys.rs"; S2 = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
M = [
 dict(name="b01-midpoint-k1-when-large", prop="P01", edits=[(SOL, "self.set_derivs(&deriv_1);\n        //steps states using the midpoint", "if *dt < 10. {\n            self.set_derivs(&deriv_1);\n        }\n        //steps states using the midpoint")]),
 dict(name="b01-norm-clip", prop="P01", nth={SOL: 0}, edits=[(SOL, ".map(|(d4, d5)| (d4 - d5).powi(2))", ".map(|(d4, d5)| (d4 - d5).min(1.).powi(2))")]),
 dict(name="b01-ck-k6-coefficient-order", prop="P01", edits=[(SOL, "175. / 512. * k2\n                        + 575. / 13_824. * k3", "175. / 512. * k3\n                        + 575. / 13_824. * k2")]),
 dict(name="b01-first-component-only-norm", prop="P01", edits=[(SOL, ".iter()\n                .map(|d5| d5.powi(2))", ".iter().take(8)\n                .map(|d5| d5.powi(2))")]),
 dict(name="b02-bs-k4-time-missing", prop="P02", edits=[(SOL, "        sys3.step_time(&(dt));\n", "")]),
 dict(name="b02-ck-k5-time-capped", prop="P02", edits=[(SOL, "sys4.step_time(&dt);", "sys4.step_time(&dt.min(1.));")]),
 dict(name="b02-heun-order", prop="P02", edits=[(SOL, "        self.step_states_by_dt(dt);\n        self.update_derivs();\n        //recording derivative at endpoint", "        self.step_states_by_dt(&(*dt - 0.0));\n        self.step_time(&(-dt / 2.));\n        self.update_derivs();\n        self.step_time(&(dt / 2.));\n        //recording derivative at endpoint")]),
 dict(name="b03-returned-dt-after-adapt", prop="P03", edits=[(SOL, "                break (delta3, dt_used);", "                break (delta3, dt_used.min(sc_mut.dt_max * 0.999999));")]),
 dict(name="b03-rk4-time-twice-small", prop="P03", edits=[(SOL, "        self.step_states(delta);\n        self.step_time(dt);", "        self.step_states(delta);\n        self.step_time(dt);\n        if *dt < 1e-9 { self.step_time(dt); }")]),
 dict(name="b03-steptime-nonneg", prop="P03", edits=[(A, "self.state.time += dt;", "self.state.time = (self.state.time + dt).max(0.);")]),
 dict(name="b04-ralston-no-final-update", prop="P04", nth={SOL: 3}, edits=[(SOL, "        self.step_states_by_dt(dt);\n        self.update_derivs();\n    }", "        self.step_states_by_dt(dt);\n        if *dt > 1e-3 { self.update_derivs(); }\n    }")]),
 dict(name="b04-bs-update-before-time", prop="P04", edits=[(SOL, "        self.step_states(delta3);\n        self.step_time(&dt_used);\n        self.update_derivs();", "        self.step_states(delta3);\n        self.update_derivs();\n        self.step_time(&dt_used);")]),
 dict(name="b05-bs-sys2-is-self", prop="P05", edits=[(SOL, "        let mut sys1 = self.bare_clone();\n        sys1.step_states_by_dt(&(dt / 2.));\n        sys1.update_derivs();\n        let k2s = sys1.derivs();\n        // k3 = f(t_i + 3 / 4", "        let x0 = self.states();\n        self.step_states_by_dt(&(dt / 2.));\n        self.update_derivs();\n        let k2s = self.derivs();\n        self.set_states(x0);\n        self.step_time(&(-dt / 2.));\n        // k3 = f(t_i + 3 / 4")]),
 dict(name="b05-rtol-relaxed-on-reject", prop="P05", nth={SOL: 1}, edits=[(SOL, "            sc_mut.state.dt *= dt_coeff;", "            sc_mut.state.dt *= dt_coeff;\n            if sc_mut.state.n_iter > 3 { sc_mut.rtol *= 2.; }")]),
 dict(name="b06-remaining-ignored-when-tiny", prop="P06", edits=[(A, "let dt = self.t_report[self.state.i] - self.state.time;", "let dt = (self.t_report[self.state.i] - self.state.time).max(1e-6);")]),
 dict(name="b06-dtmax-not-applied", prop="P06", nth={SOL: 1}, edits=[(SOL, "sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max)", "sc_mut.state.dt.min(dt_max.max(sc_mut.dt_max))")]),
 dict(name="b06-retry-floor", prop="P06", nth={SOL: 0}, edits=[(SOL, "            sc_mut.state.dt *= dt_coeff;", "            sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).max(1e-9);")]),
 dict(name="b07-sc-mut-swapped", prop="P07", nth={A: 0}, edits=[(A, "SolverTypes::RK23BogackiShampine(sc) => Some(sc),\n                    _ => None,\n                }\n            }\n            fn sc_mut", "_ => None,\n                }\n            }\n            fn sc_mut")]),
 dict(name="b07-ralston-runs-heun", prop="P07", edits=[(A, "self.ralston(&dt);", "if dt < dt_fixed { self.heun(&dt); } else { self.ralston(&dt); }".replace("dt < dt_fixed", "dt < 1e-4"))]),
 dict(name="b08-break-on-nan", prop="P08", edits=[(A, "                    self.state.i += 1;\n", "                    self.state.i = (self.state.i + 1).min(self.t_report.len() - 1);\n")]),
 dict(name="b08-save-before-index", prop="P08", edits=[(A, "                    self.state.i += 1;\n                    self.save_state();\n", "                    self.save_state();\n                    self.state.i += 1;\n")]),
 dict(name="b08-if-instead-of-while", prop="P08", edits=[(A, "while self.state.time < self.t_report[self.state.i] {", "let mut n_sub = 0u32;\n                while self.state.time < self.t_report[self.state.i] && n_sub < 100_000 {\n                    n_sub += 1;")]),
 dict(name="b09-save-first-four", prop="P09", edits=[(HM, "        .map(|(f, _hsv)| f.ident.as_ref().unwrap())\n        .collect::<Vec<_>>();\n\n    let mut impl_block", "        .map(|(f, _hsv)| f.ident.as_ref().unwrap())\n        .take(8)\n        .collect::<Vec<_>>();\n\n    let mut impl_block")]),
 dict(name="b09-skip-equal-record", prop="P09", edits=[(HM, "quote! {self.history.push(self.state)}", "quote! {if self.history.len() < 65536 { self.history.push(self.state) }}")]),
 dict(name="b10-pop-first", prop="P10", edits=[(HV, "if self.is_empty() {\n                    None", "if self.len() < 2 && self.is_empty() {\n                    None"), (HV, "self.#first_field.is_empty()", "self.#first_field.capacity() == 0")]),
 dict(name="b10-clear-keeps-last-col", prop="P10", edits=[(HV, "#(self.#field_names.clear();)*", "#(self.#field_names.truncate(0);)*\n                self.#first_field.truncate(1);")]),
 dict(name="b11-skip-state-index", prop="P11", edits=[(BC, "                new\n", "                new.history.clear();\n                new\n"), (BC, "*field.ident.as_ref().unwrap() != \"history\"", "*field.ident.as_ref().unwrap() != \"history\" && *field.ident.as_ref().unwrap() != \"t_report\"")]),
 dict(name="b11-save-state-not-bare", prop="P11", edits=[(BC, "attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\")", "attr.path.is_ident(\"use_state\")")]),
 dict(name="b12-step-derivs-reversed", prop="P12", edits=[(A, "#(self.#fields_with_state.step_deriv(iter.next().unwrap().clone());)*", "#(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*")]),
 dict(name="b12-storages-skip-inf", prop="P12", edits=[(A, "                storages\n", "                storages.retain(|c| c.is_finite());\n                storages\n")]),
 dict(name="b12-stepbydt-time-first", prop="P12", edits=[(A, "#(self.#fields_with_state.step_state_by_dt(dt);)*\n                self.step_time(dt);", "self.step_time(dt);\n                #(self.#fields_with_state.step_state_by_dt(&(self.state.time - (self.state.time - dt)).max(0.));)*")]),
 dict(name="b13-atol-le", prop="P13", nth={SOL: 0}, edits=[(SOL, "|| sc_mut.state.norm_err.unwrap() < sc_mut.atol", "|| sc_mut.state.norm_err.unwrap() < sc_mut.atol.max(1e-12)")]),
 dict(name="b13-zero-norm-accept", prop="P13", nth={SOL: 1}, edits=[(SOL, "Some(norm_err) => norm_err <= sc_mut.atol,\n                    None => unreachable!(),", "Some(_) => true,\n                    None => unreachable!(),")]),
 dict(name="b13-apply-lower-order-on-limit", prop="P13", edits=[(SOL, "break (delta5, dt_used);", "break (if tol_met { delta5 } else { delta4 }, dt_used);")]),
 dict(name="b14-equality-limit", prop="P14", nth={SOL: 0}, edits=[(SOL, "sc_mut.state.n_iter >= sc_mut.max_iter", "sc_mut.state.n_iter == sc_mut.max_iter")]),
 dict(name="b14-saturating-count", prop="P14", nth={SOL: 1}, edits=[(SOL, "sc_mut.state.n_iter += 1;", "sc_mut.state.n_iter = (sc_mut.state.n_iter + 1).min(20);")]),
 dict(name="b14-count-only-finite", prop="P14", nth={SOL: 0}, edits=[(SOL, "sc_mut.state.n_iter += 1;", "if dt > 1e-12 {\n                sc_mut.state.n_iter += 1;\n            }")]),
 dict(name="b15-carry-unbounded", prop="P15", nth={SOL: 1}, edits=[(SOL, "(sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max)", "if sc_mut.state.n_iter > 1 { sc_mut.state.dt * dt_coeff } else { (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max) }")]),
 dict(name="b15-exponent-swap", prop="P15", nth={SOL: 1}, edits=[(SOL, ".powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 })", ".powf(if norm_err < sc_mut.atol { 0.25 } else { 0.2 })")]),
 dict(name="b15-relerr-zero-nan", prop="P15", nth={SOL: 0}, edits=[(SOL, "(sc_mut.rtol / norm_err_rel).powf(0.2)", "((sc_mut.rtol - norm_err_rel) / norm_err_rel + 1.).min(32.).powf(0.2)")]),
 dict(name="b16-record-before-count", prop="P16", nth={SOL: 0}, edits=[(SOL, "                    sc_mut.history.push(sc_mut.state.clone());", "                    let mut rec = sc_mut.state.clone();\n                    if rec.n_iter == sc_mut.max_iter { rec.norm_err_rel = None; }\n                    sc_mut.history.push(rec);")]),
 dict(name="b16-tcurr-end", prop="P16", nth={SOL: 1}, edits=[(SOL, "sc_mut.state.t_curr = t_curr;", "sc_mut.state.t_curr = if sc_mut.save_states { t_curr + sc_mut.state.dt } else { t_curr };")]),
 dict(name="b17-connect-swap-second", prop="P17", edits=[(TM, "$sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());", "$sys.$s1.step_deriv($sys.$c.flow() / $sys.$s0.storage());")]),
 dict(name="b17-bc-missing-reset", prop="P17", edits=[(S2, "        self.reset_derivs();\n        // change in temp", "        if self.state.time > 0. { self.reset_derivs(); }\n        // change in temp")]),
 dict(name="b18-flow-onedirection", prop="P18", edits=[(CO, "self.state.q = self.h * (p0.state() - p1.state());", "self.state.q = self.h * (p0.state() - p1.state()).max(-1e6);")]),
 dict(name="b18-reservoir-stepderiv", prop="P18", nth={CO: 1}, edits=[(CO, "self.state.dtemp += val;", "self.state.dtemp = val;")]),
]
OWN = True
