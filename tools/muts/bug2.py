SOL = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; UT = "dess/src/utilities.rs"; LIB = "dess/src/lib.rs"
A = "dess/dess-proc-macros/src/solver_attr.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"; HV = "dess/dess-proc-macros/src/history_vec.rs"
PA = "dess/dess-proc-macros/src/pyo3_api.rs"; PU = "dess/dess-proc-macros/src/utilities.rs"; PL = "dess/dess-proc-macros/src/lib.rs"
CO = "dess-examples/src/components.rs"; S1 = "dess-examples/src/three_thermal_mass_sys.rs"; S2 = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
MAIN = "dess-examples/src/main.rs"; PY = "dess-examples-pyo3/src/lib.rs"
OWN = True
M = [
 dict(name="b19-skip-default-states", prop="P19", edits=[(SOL, "    /// current values of states\n    pub states", "    /// current values of states\n    #[serde(default, skip_serializing_if = \"Vec::is_empty\")]\n    pub states")]),
 dict(name="b19-alias-swap", prop="P19", edits=[(SOL, "    /// absolute euclidean error tolerance\n", "    #[serde(rename(serialize = \"rtol\", deserialize = \"atol\"))]\n    /// absolute euclidean error tolerance\n")]),
 dict(name="b19-default-save", prop="P19", edits=[(SOL, "    /// save iteration history\n", "    /// save iteration history\n    #[serde(default)]\n")]),
 dict(name="b19-skip-history-col", prop="P19", edits=[(S1, "    pub t_report: Vec<f64>,\n    pub state: SystemState,\n    pub history: SystemStateHistoryVec,\n}\n\nimpl Default", "    pub t_report: Vec<f64>,\n    #[serde(skip)]\n    pub state: SystemState,\n    pub history: SystemStateHistoryVec,\n}\n\nimpl Default")]),
 dict(name="b19-rename-all-variants", prop="P19", edits=[(SOL, "    RK4Fixed { dt: f64 },", "    #[serde(alias = \"EulerFixed\")]\n    RK4Fixed { dt: f64 },")]),
 dict(name="b20-yml-accepted-as-json", prop="P20", nth={TM: 0}, edits=[(TM, '            "json" => {\n                serde_json::to_writer', '            "json" | "yml" => {\n                serde_json::to_writer')]),
 dict(name="b20-case-insensitive-save", prop="P20", nth={TM: 0}, edits=[(TM, "        match extension {", "        let extension = extension.to_lowercase();\n        match extension.as_str() {")]),
 dict(name="b20-create-first", prop="P20", edits=[(TM, '        match extension {\n            "json" => {\n                serde_json::to_writer(&File::create(file)?, self)?;', '        let f = File::create(&file)?;\n        match extension {\n            "json" => {\n                serde_json::to_writer(&f, self)?;')]),
 dict(name="b20-fromyaml-json-fallback", prop="P20", edits=[(TM, "Ok(serde_yaml::from_str(yaml_str)?)", "if yaml_str.starts_with('{') {\n            return Ok(serde_json::from_str(yaml_str)?);\n        }\n        Ok(serde_yaml::from_str(yaml_str)?)")]),
 dict(name="b20-append", prop="P20", edits=[(TM, "serde_yaml::to_writer(&File::create(file)?, self)?;", "serde_yaml::to_writer(&std::fs::OpenOptions::new().create(true).write(true).open(file)?, self)?;")]),
 dict(name="b21-unwrap-open", prop="P21", edits=[(TM, '"yaml" => Ok(serde_yaml::from_reader(file)?)', '"yaml" => Ok(serde_yaml::from_reader(file).unwrap())')]),
 dict(name="b21-default-solver", prop="P21", edits=[(S2, "solver_type: SolverTypes::from_json(&solver_type)?,", "solver_type: SolverTypes::from_json(&solver_type).unwrap_or_default(),")]),
 dict(name="b21-write-error-dropped", prop="P21", edits=[(TM, "serde_yaml::to_writer(&File::create(file)?, self)?;", "let _ = serde_yaml::to_writer(&File::create(file)?, self);")]),
 dict(name="b21-bincode-expect-len", prop="P21", edits=[(TM, "        Ok(deserialize(encoded)?)", "        let _head = encoded[0];\n        Ok(deserialize(encoded)?)")]),
 dict(name="b21-py-expect", prop="P21", edits=[(PA, "Ok(Self::from_json(json_str)?)", "Ok(Self::from_json(json_str).expect(\"valid json\"))")]),
 dict(name="b22-getter-first-field", prop="P22", edits=[(PA, 'let fn_body: TokenStream2 = format!("self.{}.clone()", &fname).parse().unwrap();', 'let fn_body: TokenStream2 = if fname == "norm_err_rel" { "self.norm_err.clone()".parse().unwrap() } else { format!("self.{}.clone()", &fname).parse().unwrap() };')]),
 dict(name="b22-solverconf-missing-variant", prop="P22", edits=[(S2, "            SolverTypes::RK23BogackiShampine(sc) => Some(*sc.clone()),\n", "")]),
 dict(name="b22-getter-takes", prop="P22", edits=[(PA, 'format!("self.{}.clone()", &fname)', 'format!("{{ let v = self.{0}.clone(); v }}", &fname)'), (PA, "let field_type = &field.ty;", "let field_type = &field.ty;\n            if fname == \"t_report\" { continue; }")]),
 dict(name="b22-state-getter-bare", prop="P22", edits=[(S1, "    #[getter]\n    fn get_solver_type(&self) -> String {\n        self.solver_type.to_json()", "    #[getter]\n    fn get_solver_type(&self) -> String {\n        self.solver_type.to_yaml()")]),
 dict(name="b23-walk-py-solvestep", prop="P23", edits=[(S2, "        self.walk();\n    }\n)]\n#[solver(", "        while self.state.i < self.t_report.len() { self.solve_step(); self.state.i += 1; self.save_state(); }\n    }\n)]\n#[solver(")]),
 dict(name="b23-clone-py-default-hist", prop="P23", edits=[(PA, "            fn clone_py(&self) -> Self {\n                self.clone()", "            fn clone_py(&self) -> Self {\n                Self::from_bincode(&self.to_bincode()[..]).unwrap_or_else(|_| Self::default())")]),
 dict(name="b23-len-py-capacity", prop="P23", edits=[(HV, "                self.len()\n            }\n        )]", "                if self.is_empty() { 0 } else { self.len().max(1) - 1 }\n            }\n        )]")]),
 dict(name="b23-fromyaml-name", prop="P23", edits=[(PA, '#[pyo3(name = "from_yaml")]', '#[pyo3(name = "from_yml")]')]),
 dict(name="b23-toyaml-json", prop="P23", edits=[(PA, "Ok(self.to_yaml())", "Ok(self.to_json())")]),
 dict(name="b24-swap-tol", prop="P24", edits=[(SOL, "            atol,\n            rtol,\n            save: save", "            atol: rtol,\n            rtol: atol,\n            save: save")]),
 dict(name="b24-save-states-implies", prop="P24", edits=[(SOL, "save_states: save_states.unwrap_or(false)", "save_states: save_states.unwrap_or(save.unwrap_or(false))")]),
 dict(name="b24-rk23-ctor-rk45", prop="P24", edits=[(S2, "solver_type: SolverTypes::RK23BogackiShampine(Box::new(sol)),\n            m1", "solver_type: if sol.max_iter > 50 { SolverTypes::RK45CashKarp(Box::new(sol)) } else { SolverTypes::RK23BogackiShampine(Box::new(sol)) },\n            m1")]),
 dict(name="b24-dtinit-min", prop="P24", edits=[(SOL, "                dt: dt_init,\n", "                dt: dt_init.min(dt_max),\n")]),
 dict(name="b24-h12-h23", prop="P24", nth={S1: 1}, edits=[(S1, "            h12, \n            m3, \n            h23, ", "            h12: h23, \n            m3, \n            h23: h12, ")]),
 dict(name="b25-missing-cond-state", prop="P25", edits=[(PY, "    m.add_class::<ConductanceState>()?;\n", "")]),
 dict(name="b25-dup-instead", prop="P25", edits=[(PY, "m.add_class::<SolverState>()?;", "m.add_class::<SystemState>()?;")]),
 dict(name="b26-env-dt", prop="P26", edits=[(SOL, "    fn euler(&mut self, dt: &f64) {\n", "    fn euler(&mut self, dt: &f64) {\n        if std::env::var(\"DESS_TRACE\").is_ok() {\n            eprintln!(\"euler {}\", dt);\n        }\n")]),
 dict(name="b26-static-counter", prop="P26", edits=[(UT, "pub fn almost_eq", "pub static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\npub fn almost_eq"), (SOL, "    fn rk4fixed(&mut self, dt: &f64) {\n", "    fn rk4fixed(&mut self, dt: &f64) {\n        crate::utilities::CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n")]),
 dict(name="b26-hash-order", prop="P26", edits=[(A, "                self.state.time += dt;", "                let s = std::collections::hash_map::RandomState::new();\n                let _ = &s;\n                self.state.time += dt;")]),
 dict(name="b26-thread-local", prop="P26", edits=[(TM, "impl Diff for Vec<f64> {", "thread_local! {\n    static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(0.) };\n}\n/// remembers the last step\npub fn remember(x: f64) -> f64 {\n    LAST.with(|l| l.replace(x))\n}\n\nimpl Diff for Vec<f64> {"), (SOL, "    fn midpoint(&mut self, dt: &f64) {\n", "    fn midpoint(&mut self, dt: &f64) {\n        let _prev = crate::traits_and_macros::remember(*dt);\n")]),
 dict(name="b27-shared-history", prop="P27", edits=[(LIB, "pub mod utilities;", "pub mod utilities;\npub static LOCK: std::sync::Mutex<u32> = std::sync::Mutex::new(0);")]),
 dict(name="b27-unsafe-send", prop="P27", edits=[(TM, "        self.windows(2)\n            .map(|vs| {\n                let [x, y] = vs else {unreachable!()};\n                y - x\n            })\n            .collect()", "        (1..self.len())\n            .map(|k| unsafe { self.get_unchecked(k) - self.get_unchecked(k - 1) })\n            .collect()")]),
 dict(name="b28-linspace-endpoint-mul", prop="P28", edits=[(TM, ".map(|x| (x * step_size) + start)", ".map(|x| if *x as usize + 1 == n_elements { stop } else { (x * step_size) + start })")]),
 dict(name="b28-diff-chunks", prop="P28", edits=[(TM, "        self.windows(2)\n", "        if self.len() == 2 && self[0] == self[1] {\n            return vec![];\n        }\n        self.windows(2)\n")]),
 dict(name="b29-sum-abs", prop="P29", edits=[(UT, "((val2 - val1) / (val1 + val2)).abs() < epsilon", "((val2 - val1) / (val1 + val2).abs()).abs() < epsilon.min(1.)")]),
 dict(name="b29-asym", prop="P29", edits=[(UT, "((val2 - val1) / (val1 + val2)).abs() < epsilon", "((val2 - val1) / (val1 + val1)).abs() < epsilon / 2.")]),
 dict(name="b30-skip-first", prop="P30", edits=[(SOL, "fold(0., |acc, &x| acc + x) / self.history.len() as f64", "skip(self.history.len() / 4096).fold(0., |acc, &x| acc + x) / self.history.len() as f64")]),
 dict(name="b30-empty-zero", prop="P30", edits=[(SOL, "            None\n        }\n    }\n}\n\nimpl AsMut", "            Some(0.)\n        }\n    }\n}\n\nimpl AsMut")]),
 dict(name="b31-nonexclusive-solver", prop="P31", edits=[(A, "let expected_exclusive = true;", "let expected_exclusive = false;")]),
 dict(name="b31-const-dropped", prop="P31", edits=[(PU, "            _ => abort_call_site!(ONLY_FN_MSG),", "            syn::ImplItem::Const(_) => {}\n            _ => abort_call_site!(ONLY_FN_MSG),")]),
 dict(name="b31-update-derivs-default", prop="P31", edits=[(SOL, "    fn update_derivs(&mut self);", "    fn update_derivs(&mut self) {}"), (PU, "    if !expected_fn_names.is_empty() {", "    if expected_fn_names.len() > 1 {")]),
 dict(name="b31-history-noop", prop="P31", edits=[(HM, "        abort!(&ident.span(), \"HistoryMethods does not work here.\");", "        impl_block.extend::<TokenStream2>(quote! { impl #ident { pub fn save_state(&mut self) {} } });")]),
 dict(name="b31-default-py-allowed", prop="P31", edits=[(PA, 'vec!["default".into(), "default_py".into()]', 'vec!["default_py".into()]')]),
 dict(name="b32-not-false", prop="P32", edits=[(MAIN, '    let mut overwrite_baseline = false;\n\n    if args.len() > 1 {\n        // Check if the second argument is "true"\n        if args[1] == "true" {', '    let mut overwrite_baseline = false;\n\n    if args.len() > 1 {\n        // Check if the second argument is "true"\n        if args[1] != "false" {')]),
 dict(name="b32-lenient-true", prop="P32", nth={MAIN: 0}, edits=[(MAIN, 'args[1] == "true"', 'args[1].trim() == "true"')]),
 dict(name="b32-rk4-from-ralston", prop="P32", edits=[(S1, "        sys_rk4\n            .to_file(", "        sys_ralston\n            .to_file(")]),
 dict(name="b32-dump-on-walk", prop="P32", edits=[(SOL, "    pub fn dt_mean(&self) -> Option<f64> {", "    /// writes the mean to a file\n    pub fn dump(&self) {\n        let _ = std::fs::write(\"dt_mean.txt\", format!(\"{:?}\", self.dt_mean()));\n    }\n    pub fn dt_mean(&self) -> Option<f64> {")]),
 dict(name="b33-niter-overflow", prop="P33", nth={SOL: 1}, edits=[(SOL, "sc_mut.state.n_iter >= sc_mut.max_iter", "sc_mut.state.n_iter > sc_mut.max_iter")]),
 dict(name="b33-index-past-end", prop="P33", edits=[(A, "while &self.state.time < self.t_report.last().unwrap() {", "while self.state.i < self.t_report.len() && self.state.time <= *self.t_report.last().unwrap() {\n                    let _next = self.t_report[self.state.i + 1];")]),
 dict(name="b33-assert-dt", prop="P33", edits=[(SOL, "    fn rk4fixed(&mut self, dt: &f64) {\n", "    fn rk4fixed(&mut self, dt: &f64) {\n        assert!(*dt > 1e-12);\n")]),
 dict(name="b33-expect-relerr", prop="P33", nth={SOL: 1}, edits=[(SOL, "            sc_mut.state.t_curr = t_curr;\n", "            sc_mut.state.t_curr = t_curr;\n            debug_assert!(sc_mut.state.norm_err_rel.is_some() || !sc_mut.save);\n")]),
]
