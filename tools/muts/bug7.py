"""further bugs: overrides, inherent shadows, drops, casts, builds without debug assertions"""
exec(open("/verif/tools/muts/ref3.py").read().split("M = []")[0])
OWN = True
M = []
def b(name, prop, *edits, **kw):
    M.append(dict(name=name, prop=prop, edits=list(edits), **kw))
b("g01-override-in-derive", "P01", (A, "        impl SolverVariantMethods for #ident{}\n", """        impl SolverVariantMethods for #ident{
            fn ralston(&mut self, dt: &f64) {
                self.update_derivs();
                let mut mid = self.bare_clone();
                let d0 = mid.derivs();
                mid.step_states_by_dt(&(2.0 * dt / 3.0));
                mid.update_derivs();
                let mean: Vec<f64> = d0.iter().zip(mid.derivs()).map(|(a, b)| 0.3 * a + 0.7 * b).collect();
                self.set_derivs(&mean);
                self.step_states_by_dt(dt);
                self.update_derivs();
            }
        }
"""))
b("g02-override-in-derive", "P02", (A, "        impl SolverVariantMethods for #ident{}\n", """        impl SolverVariantMethods for #ident{
            fn midpoint(&mut self, dt: &f64) {
                self.update_derivs();
                let mut mid = self.bare_clone();
                mid.step_states(self.derivs().iter().map(|d| d * 0.5 * dt).collect());
                mid.update_derivs();
                self.set_derivs(&mid.derivs());
                self.step_states_by_dt(dt);
                self.update_derivs();
            }
        }
"""))
b("g07-inherent-shadow", "P07", (S2, "impl Default for System3TMWithBC {\n", "impl System3TMWithBC {\n    /// Heun step, in its midpoint form\n    pub fn heun(&mut self, dt: &f64) {\n        self.midpoint(dt)\n    }\n}\n\nimpl Default for System3TMWithBC {\n"), nth={S2: 0})
b("g03-inherent-step-time", "P12", (S2, "impl Default for System3TMWithBC {\n", "impl System3TMWithBC {\n    /// moves the clock on\n    pub fn step_time(&mut self, dt: &f64) {\n        self.state.time = (self.state.time + dt).min(*self.t_report.last().unwrap());\n    }\n}\n\nimpl Default for System3TMWithBC {\n"), nth={S2: 0})
b("g26-drop-prints", "P26", (HV, "        impl #new_name {", "        impl Drop for #new_name {\n            fn drop(&mut self) {\n                if self.len() > 100000 {\n                    eprintln!(\"large history dropped\");\n                }\n            }\n        }\n\n        impl #new_name {"))
b("g38-clone-forgets-q", "P38", (CO, "#[common_derives]\n#[derive(Default)]\npub struct Conductance {", "#[derive(Default, serde::Serialize, serde::Deserialize, PartialEq, PartialOrd, Debug)]\npub struct Conductance {"), (CO, "impl Flow for Conductance {", "impl Clone for Conductance {\n    fn clone(&self) -> Self {\n        Self {\n            h: self.h,\n            history: self.history.clone(),\n            ..Default::default()\n        }\n    }\n}\n\nimpl Flow for Conductance {"))
b("g19-untagged", "P19", (SOL, "#[common_derives]\npub enum SolverTypes {", "#[common_derives]\n#[serde(untagged)]\npub enum SolverTypes {"))
b("g04-debug-assert", "P04", (SOL, "        self.step_states(delta5);\n        self.step_time(&dt_used);\n        self.update_derivs();", "        self.step_states(delta5);\n        self.step_time(&dt_used);\n        debug_assert!({\n            self.update_derivs();\n            self.derivs().iter().all(|d| !d.is_nan())\n        });"))
b("g03-release-clock", "P03", (SOL, "        self.set_states(new_state);\n        self.update_derivs();", "        self.set_states(new_state);\n        if !cfg!(debug_assertions) {\n            self.step_time(&(0.5 * dt));\n        }\n        self.update_derivs();"))
b("g33-debug-assert", "P33", (SOL, "            sc_mut.state.n_iter += 1;\n", "            sc_mut.state.n_iter += 1;\n            debug_assert!(sc_mut.state.n_iter <= 100, \"no convergence\");\n"), nth={SOL: 0})
b("g16-debug-push", "P16", (SOL, "                if sc_mut.save {\n                    sc_mut.history.push(sc_mut.state.clone());\n", "                if sc_mut.save {\n                    #[cfg(debug_assertions)]\n                    sc_mut.history.push(sc_mut.state.clone());\n"), nth={SOL: 1})
b("g20-create-parent", "P20", (TM, "        let file = PathBuf::from(filename);\n        let extension", "        let file = PathBuf::from(filename);\n        if let Some(parent) = file.parent() {\n            std::fs::create_dir_all(parent)?;\n        }\n        let extension"))
b("g20-append", "P20", (TM, "serde_json::to_writer(&File::create(file)?, self)?;", "serde_json::to_writer(&std::fs::OpenOptions::new().write(true).create(true).open(file)?, self)?;"))
b("g21-bincode-short", "P21", (TM, "        Ok(deserialize(encoded)?)", "        let (head, _) = encoded.split_at(8);\n        if head.iter().all(|b| *b == 0xff) {\n            return Err(anyhow!(\"corrupt\"));\n        }\n        Ok(deserialize(encoded)?)"))
b("g28-u16", "P28", (TM, "n_elements.saturating_sub(1).max(1);", "n_elements.saturating_sub(1).max(1) as u16;"))
b("g10-len-mask", "P10", (HV, "                self.#first_field.len()", "                self.#first_field.len() & 0xffff"))
b("g08-index-loop", "P08", (A, "while &self.state.time < self.t_report.last().unwrap() {", "while self.state.i < self.t_report.len() {"))
b("g32-any-true", "P32", (MAIN, "nth(1)", "last()") if "nth(1)" in open("/repo/" + MAIN).read() else (MAIN, "args[1]", "args[args.len() - 1]"))
b("g11-copy-keeps-big", "P11", (BC, "is_ident(\"use_state\") ||", "is_ident(\"use_state\") && !field.attrs.iter().any(|a| a.path.is_ident(\"doc\")) ||"))
b("g12-doc-field", "P12", (A, '.any(|attr| attr.path.is_ident("use_state"))', '.any(|attr| attr.path.is_ident("use_state") && attr.tokens.is_empty())\n                && !field.attrs.iter().any(|attr| attr.path.is_ident("allow"))'))
b("g09-last-component", "P09", (HM, "quote! {self.history.push(self.state)}", "quote! {if self.history.is_empty() || self.history.len() < usize::MAX >> 48 { self.history.push(self.state) }}"))
b("g17-zero-storage", "P17", (TM, "            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());", "            if $sys.$s1.storage().is_finite() {\n                $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());\n            } else {\n                $sys.$s1.step_deriv($sys.$c.flow());\n            }"))
b("g18-reservoir-override", "P18", (CO, "    fn set_deriv(&mut self, _val: f64) {\n        self.state.dtemp = 0.0;\n    }", "    fn set_deriv(&mut self, _val: f64) {\n        self.state.dtemp = 0.0;\n    }\n    fn step_state(&mut self, _val: f64) {}"))
b("g13-nan-norm", "P13", (SOL, "                || sc_mut.state.norm_err.unwrap() < sc_mut.atol\n", "                || sc_mut.state.norm_err.map_or(true, |e| (e - sc_mut.atol).abs() < sc_mut.atol)\n"), nth={SOL: 0})
b("g14-u8-mul", "P14", (SOL, "            let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter\n", "            let break_cond = sc_mut.state.n_iter.wrapping_mul(16) >= sc_mut.max_iter.wrapping_mul(16)\n"), nth={SOL: 1})
b("g15-exp-swap-no-rel", "P15", (SOL, "                            .powf(if norm_err <= sc_mut.atol { 0.2 } else { 0.25 }),", "                            .powf(if norm_err < 2. * sc_mut.atol { 0.2 } else { 0.25 }),"), nth={SOL: 1})
b("g06-init-abs", "P06", (SOL, "        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);\n", "        sc_mut.state.dt = if sc_mut.n_iter_last() > 1 { sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max) } else { sc_mut.state.dt.max(1e-6).min(sc_mut.dt_max) };\n"), (SOL, "impl AdaptiveSolverConfig {\n", "impl AdaptiveSolverConfig {\n    fn n_iter_last(&self) -> u8 {\n        self.history.n_iter.last().copied().unwrap_or(2)\n    }\n"), nth={SOL: 0})
b("g27-static-onceLock", "P26", (SOL, "    pub fn dt_mean(&self) -> Option<f64> {\n", "    pub fn dt_mean(&self) -> Option<f64> {\n"), (SOL, "        let k1s = self.derivs();\n\n        // k2 = f(t_i + 1 / 2 * h, x_i + 1 / 2 * k1 * h)\n", "        let k1s = self.derivs();\n        static STAGES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        STAGES.fetch_add(3, std::sync::atomic::Ordering::Relaxed);\n\n        // k2 = f(t_i + 1 / 2 * h, x_i + 1 / 2 * k1 * h)\n"))
b("g35-ulp-guard", "P35", (A, "while self.state.time < self.t_report[self.state.i] {", "while self.t_report[self.state.i] - self.state.time > 1e-9 * self.t_report[self.state.i] {"))
b("g30-skip-first", "P30", (SOL, "self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64", "self.history.dt.iter().skip(self.history.len() / 1000).fold(0., |acc, &x| acc + x) / (self.history.len() - self.history.len() / 1000) as f64"))
b("g41-time-block", "P41", (TM, "        let t0 = Instant::now();\n        $thing;\n", "        let t0 = Instant::now();\n        let _ = || $thing;\n"))
b("g29-tol-zero", "P29", (UT, "epsilon.unwrap_or(1e-8)", "epsilon.filter(|e| *e > 0.).unwrap_or(1e-8)"))
b("g28-override-linspace", "P28", (TM, "impl Linspace for Vec<f64> {}", """impl Linspace for Vec<f64> {
    fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
        let step = (stop - start) / n_elements.saturating_sub(1).max(1) as f64;
        let mut v = Vec::with_capacity(n_elements);
        let mut x = start;
        while v.len() < n_elements && x <= stop {
            v.push(x);
            x += step;
        }
        v
    }
}"""))
b("g17-override-step-deriv", "P18", (CO, "    fn storage(&self) -> f64 {\n        self.c\n    }", "    fn storage(&self) -> f64 {\n        self.c\n    }\n    fn step_state(&mut self, val: f64) {\n        self.state.temp += val.clamp(-1e3, 1e3);\n    }"))
b("g12-override-step-by-dt", "P12", (CO, "    fn storage(&self) -> f64 {\n        self.c\n    }", "    fn storage(&self) -> f64 {\n        self.c\n    }\n    fn step_state_by_dt(&mut self, dt: &f64) {\n        if self.c > 0. {\n            self.state.temp += dt * self.state.dtemp;\n        }\n    }"))
b("g04-release-walk", "P04", (SOL, "        self.set_derivs(&deriv_1);\n        //steps states using the midpoint derivative\n        self.step_states_by_dt(dt);\n        self.update_derivs();", "        self.set_derivs(&deriv_1);\n        //steps states using the midpoint derivative\n        self.step_states_by_dt(dt);\n        #[cfg(debug_assertions)]\n        self.update_derivs();"))
b("g09-release-part", "P09", (HM, "                    #(self.#fields_with_state.save_state();)*\n", "                    #(if cfg!(debug_assertions) || self.history.len() > 0 { self.#fields_with_state.save_state(); })*\n"))
