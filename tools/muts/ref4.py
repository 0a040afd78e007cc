"""behaviour-keeping edits, fourth collection: larger rewrites (whole methods, whole generated blocks), as a maintainer tidying up would do"""
SOL = "dess/src/solver.rs"; TM = "dess/src/traits_and_macros.rs"; UT = "dess/src/utilities.rs"; LIB = "dess/src/lib.rs"
A = "dess/dess-proc-macros/src/solver_attr.rs"; BC = "dess/dess-proc-macros/src/bare_clone.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"; HV = "dess/dess-proc-macros/src/history_vec.rs"
PA = "dess/dess-proc-macros/src/pyo3_api.rs"; PU = "dess/dess-proc-macros/src/utilities.rs"
CO = "dess-examples/src/components.rs"; S1 = "dess-examples/src/three_thermal_mass_sys.rs"; S2 = "dess-examples/src/three_thrml_mass_w_bc_sys.rs"
MAIN = "dess-examples/src/main.rs"; PY = "dess-examples-pyo3/src/lib.rs"
M = []
def r(name, *edits, **kw):
    M.append(dict(name=name, prop=None, edits=list(edits), **kw))
def src(f):
    return open("/repo/" + f).read()
def cut(f, a, b, n=0):
    """text of f from the n-th a up to (excluding) the next b"""
    s = src(f)
    k = -1
    for _ in range(n + 1):
        k = s.index(a, k + 1)
    return s[k:s.index(b, k + len(a))]

BS = cut(SOL, "    fn rk23_bogacki_shampine(&mut self", "    fn rk23_bogacki_shampine_step")
CK = cut(SOL, "    fn rk45_cash_karp(&mut self", "\n    fn rk45_cash_karp_step")
BSS = cut(SOL, "    fn rk23_bogacki_shampine_step", "    /// solves time step with 4th order")
RK4 = cut(SOL, "    fn rk4fixed(&mut self", "    /// solves time step with adaptive Cash")
# one generic loop for both adaptive methods
LOOP = """    fn %s(&mut self, dt_max: &f64) -> f64 {
        self.adaptive(dt_max, Self::%s_step)
    }
"""
GEN = """    /// common driver of the adaptive methods: retries `trial` until it is good enough
    fn adaptive(&mut self, dt_max: &f64, trial: fn(&mut Self, f64) -> (Vec<f64>, Vec<f64>)) -> f64 {
        {
            let sc = self.sc_mut().unwrap();
            sc.state.n_iter = 0;
            sc.state.dt = sc.state.dt.min(*dt_max).min(sc.dt_max);
        }
        loop {
            let dt = self.sc().unwrap().state.dt;
            let (low, high) = trial(self, dt);
            let states = if self.sc().unwrap().save {
                self.states().iter().zip(&high).map(|(s, d)| s + d).collect()
            } else {
                Vec::new()
            };
            let t_curr = self.state().time;
            let sc = self.sc_mut().unwrap();
            sc.state.n_iter += 1;
            let err = low.iter().zip(&high).map(|(l, h)| (l - h).powi(2)).sum::<f64>().sqrt();
            let norm = high.iter().map(|h| h.powi(2)).sum::<f64>().sqrt();
            let rel = if norm != 0. { Some(err / norm) } else { None };
            sc.state.norm_err = Some(err);
            sc.state.norm_err_rel = rel;
            sc.state.t_curr = t_curr;
            if sc.save_states {
                sc.state.states = states;
            }
            let (rel_met, abs_met) = (rel.map(|x| x <= sc.rtol), err <= sc.atol);
            let factor = match rel {
                Some(x) if x <= sc.rtol => (sc.rtol / x).powf(0.2),
                _ if abs_met => (sc.atol / err).powf(0.2),
                Some(_) => 0.25,
                None => (sc.atol / err).powf(0.25),
            };
            let done = sc.state.n_iter >= sc.max_iter || err < sc.atol || rel_met.unwrap_or(abs_met);
            if !done {
                sc.state.dt *= factor;
                continue;
            }
            if sc.save {
                sc.history.push(sc.state.clone());
            }
            sc.state.dt = (dt * factor).min(sc.dt_max);
            self.step_states(high);
            self.step_time(&dt);
            self.update_derivs();
            return dt;
        }
    }
"""
r("u-adaptive-generic-fnptr", (SOL, BS, LOOP % (("rk23_bogacki_shampine",) * 2) + GEN), (SOL, CK, LOOP % (("rk45_cash_karp",) * 2)))
r("u-adaptive-generic-impl", (SOL, BS, (LOOP % (("rk23_bogacki_shampine",) * 2)).replace("Self::rk23_bogacki_shampine_step", "|sys, dt| sys.rk23_bogacki_shampine_step(dt)")
   + GEN.replace("fn adaptive(&mut self, dt_max: &f64, trial: fn(&mut Self, f64) -> (Vec<f64>, Vec<f64>)) -> f64", "fn adaptive(&mut self, dt_max: &f64, trial: impl Fn(&mut Self, f64) -> (Vec<f64>, Vec<f64>)) -> f64")),
  (SOL, CK, (LOOP % (("rk45_cash_karp",) * 2)).replace("Self::rk45_cash_karp_step", "|sys, dt| sys.rk45_cash_karp_step(dt)")))
# the same loop written as `while` over a "result" option, one method only
r("u-adaptive-while-option", (SOL, CK, GEN.replace("    /// common driver of the adaptive methods: retries `trial` until it is good enough\n", "").replace("fn adaptive(&mut self, dt_max: &f64, trial: fn(&mut Self, f64) -> (Vec<f64>, Vec<f64>)) -> f64", "fn rk45_cash_karp(&mut self, dt_max: &f64) -> f64")
   .replace("        loop {\n", "        let mut taken: Option<(f64, Vec<f64>)> = None;\n        while taken.is_none() {\n").replace("trial(self, dt)", "self.rk45_cash_karp_step(dt)")
   .replace("""            if !done {
                sc.state.dt *= factor;
                continue;
            }
            if sc.save {
                sc.history.push(sc.state.clone());
            }
            sc.state.dt = (dt * factor).min(sc.dt_max);
            self.step_states(high);
            self.step_time(&dt);
            self.update_derivs();
            return dt;
        }
""", """            if done {
                if sc.save {
                    sc.history.push(sc.state.clone());
                }
                sc.state.dt = (sc.state.dt * factor).min(sc.dt_max);
                taken = Some((dt, high));
            } else {
                sc.state.dt *= factor;
            }
        }
        let (dt, high) = taken.unwrap();
        self.step_states(high);
        self.step_time(&dt);
        self.update_derivs();
        dt
""")))
# error figures into a helper struct
r("u-adaptive-helpers", (SOL, "pub trait SolverBase: HasStates + Sized {", """/// root of the sum of squares
fn norm2<I: IntoIterator<Item = f64>>(xs: I) -> f64 {
    xs.into_iter().map(|x| x * x).sum::<f64>().sqrt()
}

pub trait SolverBase: HasStates + Sized {"""),
  (SOL, cut(SOL, "            sc_mut.state.norm_err = Some(\n                delta2", "            //making sure that rtol"), "            sc_mut.state.norm_err = Some(norm2(delta2.iter().zip(&delta3).map(|(d2, d3)| d2 - d3)));\n            let norm_d3 = norm2(delta3.iter().copied());\n"),
  (SOL, cut(SOL, "            sc_mut.state.norm_err = Some(\n                delta4", "            //ensures that rtol is"), "            sc_mut.state.norm_err = Some(norm2(delta4.iter().zip(&delta5).map(|(d4, d5)| d4 - d5)));\n            let norm_d5 = norm2(delta5.iter().copied());\n"))
COEF = cut(SOL, "            let dt_coeff = match sc_mut.state.norm_err_rel {\n                Some(norm_err_rel) => {\n", "            // if tolerance is achieved here")
r("u-adaptive-config-methods", (SOL, "impl AdaptiveSolverConfig {", """impl AdaptiveSolverConfig {
    /// factor by which to change the step after a trial
    fn dt_factor(&self) -> f64 {
        let err = self.state.norm_err.unwrap();
        if let Some(rel) = self.state.norm_err_rel {
            if rel <= self.rtol {
                return (self.rtol / rel).powf(0.2);
            }
            if err <= self.atol {
                return (self.atol / err).powf(0.2);
            }
            return 0.25;
        }
        let exponent = if err <= self.atol { 0.2 } else { 0.25 };
        (self.atol / err).powf(exponent)
    }
    /// is the last trial good enough, or the last one allowed?
    fn trial_done(&self) -> bool {
        let err = self.state.norm_err.unwrap();
        self.state.n_iter >= self.max_iter || err < self.atol || match self.state.norm_err_rel {
            Some(rel) => rel <= self.rtol,
            None => err <= self.atol,
        }
    }"""), (SOL, CK[CK.index("            let tol_met"):CK.index("            if break_cond {")], "            let dt_coeff = sc_mut.dt_factor();\n            let break_cond = sc_mut.trial_done();\n\n"))
STAGES = """    fn rk23_bogacki_shampine_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.update_derivs();
        let ks = {
            let mut ks = vec![self.derivs()];
            for c in [0.5, 0.75] {
                let mut sys = self.bare_clone();
                sys.set_derivs(ks.last().unwrap());
                sys.step_states_by_dt(&(dt * c));
                sys.update_derivs();
                ks.push(sys.derivs());
            }
            ks
        };
        let delta3: Vec<f64> = (0..ks[0].len())
            .map(|i| (2. * ks[0][i] + 3. * ks[1][i] + 4. * ks[2][i]) / 9. * dt)
            .collect();
        let mut end = self.bare_clone();
        end.step_time(&dt);
        end.step_states(delta3.clone());
        end.update_derivs();
        let k4s = end.derivs();
        let delta2 = (0..k4s.len())
            .map(|i| (7. / 24. * ks[0][i] + 0.25 * ks[1][i] + ks[2][i] / 3. + k4s[i] / 8.) * dt)
            .collect();
        (delta2, delta3)
    }
"""
r("u-bs-stage-loop", (SOL, BSS, STAGES))
RK4L = """    fn rk4fixed(&mut self, dt: &f64) {
        self.update_derivs();
        let mut k = self.derivs();
        let mut sum = k.clone();
        for (frac, weight) in [(0.5, 2.), (0.5, 2.), (1., 1.)] {
            let mut sys = self.bare_clone();
            sys.set_derivs(&k);
            sys.step_states_by_dt(&(dt * frac));
            sys.update_derivs();
            k = sys.derivs();
            for (s, d) in sum.iter_mut().zip(&k) {
                *s += weight * d;
            }
        }
        let delta = sum.into_iter().map(|s| s * dt / 6.).collect();
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }
"""
r("u-rk4-stage-loop", (SOL, RK4, RK4L))
r("u-rk4-closure", (SOL, RK4, """    fn rk4fixed(&mut self, dt: &f64) {
        self.update_derivs();
        let slope = |base: &Self, k: &[f64], h: f64| -> Vec<f64> {
            let mut sys = base.bare_clone();
            sys.set_derivs(k);
            sys.step_states_by_dt(&h);
            sys.update_derivs();
            sys.derivs()
        };
        let k1s = self.derivs();
        let k2s = slope(self, &k1s, dt / 2.);
        let k3s = slope(self, &k2s, dt / 2.);
        let k4s = slope(self, &k3s, *dt);
        let delta = k1s
            .iter()
            .zip(k2s.iter().zip(k3s.iter().zip(k4s.iter())))
            .map(|(a, (b, (c, d)))| (a + 2. * (b + c) + d) / 6. * dt)
            .collect::<Vec<_>>();
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }
"""))
r("u-rk4-trait-helper", (SOL, RK4, """    /// derivatives a step of `h` along `k` away
    fn probe(&self, k: &[f64], h: f64) -> Vec<f64> {
        let mut sys = self.bare_clone();
        sys.set_derivs(k);
        sys.step_states_by_dt(&h);
        sys.update_derivs();
        sys.derivs()
    }
    fn rk4fixed(&mut self, dt: &f64) {
        self.update_derivs();
        let k1 = self.derivs();
        let k2 = self.probe(&k1, 0.5 * dt);
        let k3 = self.probe(&k2, 0.5 * dt);
        let k4 = self.probe(&k3, *dt);
        let mut delta = Vec::with_capacity(k1.len());
        for i in 0..k1.len() {
            delta.push(dt / 6. * (k1[i] + 2. * k2[i] + 2. * k3[i] + k4[i]));
        }
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }
"""))
HEUN = cut(SOL, "    fn heun(&mut self", "    /// Midpoint Method")
r("u-heun-rewrite", (SOL, HEUN, """    fn heun(&mut self, dt: &f64) {
        self.update_derivs();
        let start = self.states();
        let deriv_0 = self.derivs();
        self.step_states_by_dt(dt);
        self.update_derivs();
        let deriv_1 = self.derivs();
        let new_states = start
            .into_iter()
            .zip(deriv_0.into_iter().zip(deriv_1))
            .map(|(s, (d0, d1))| s + 0.5 * (d0 + d1) * dt)
            .collect();
        self.set_states(new_states);
        self.update_derivs();
    }
"""))
MID = cut(SOL, "    fn midpoint(&mut self", "    /// Ralston")
r("u-midpoint-rewrite", (SOL, MID, """    fn midpoint(&mut self, dt: &f64) {
        self.update_derivs();
        let mut half = self.bare_clone();
        half.step_states_by_dt(&(0.5 * dt));
        half.update_derivs();
        let slopes = half.derivs();
        self.step_states(slopes.iter().map(|k| k * dt).collect());
        self.step_time(dt);
        self.update_derivs();
    }
"""))
RAL = cut(SOL, "    fn ralston(&mut self", "    /// ", 0)
GENA = "            /// iterates through time until last value of `t_report`\n"
WALK = cut(A, "            pub fn walk(&mut self) {", "            /// Runs `solver_type`")
STEP = cut(A, "            pub fn solve_step(&mut self) {", "        }\n    });")
r("u-walk-split", (A, WALK, """            pub fn walk(&mut self) {
                while self.unfinished() {
                    self.advance();
                }
            }
            fn unfinished(&self) -> bool {
                self.state.time < *self.t_report.last().unwrap()
            }
            fn advance(&mut self) {
                self.solve_step();
                self.state.i += 1;
                self.save_state();
            }
"""))
r("u-solve-step-two-stage", (A, STEP, """            pub fn solve_step(&mut self) {
                loop {
                    let remaining = self.t_report[self.state.i] - self.state.time;
                    if !(remaining > 0.) {
                        break;
                    }
                    self.one_step(remaining);
                }
            }
            fn one_step(&mut self, remaining: f64) {
                let fixed: Option<(fn(&mut Self, &f64), f64)> = match &self.solver_type {
                    SolverTypes::EulerFixed{dt} => Some((Self::euler, *dt)),
                    SolverTypes::HeunsMethod{dt} => Some((Self::heun, *dt)),
                    SolverTypes::MidpointMethod{dt} => Some((Self::midpoint, *dt)),
                    SolverTypes::RalstonsMethod{dt} => Some((Self::ralston, *dt)),
                    SolverTypes::RK4Fixed{dt} => Some((Self::rk4fixed, *dt)),
                    SolverTypes::RK23BogackiShampine(_) | SolverTypes::RK45CashKarp(_) => None,
                };
                if let Some((method, dt)) = fixed {
                    method(self, &remaining.min(dt));
                } else if matches!(self.solver_type, SolverTypes::RK23BogackiShampine(_)) {
                    self.rk23_bogacki_shampine(&remaining);
                } else {
                    self.rk45_cash_karp(&remaining);
                }
            }
"""))
r("u-solve-step-arms-merged", (A, STEP, """            pub fn solve_step(&mut self) {
                let target = self.t_report[self.state.i];
                while self.state.time < target {
                    let left = target - self.state.time;
                    let limit = match self.solver_type {
                        SolverTypes::EulerFixed{dt}
                        | SolverTypes::HeunsMethod{dt}
                        | SolverTypes::MidpointMethod{dt}
                        | SolverTypes::RalstonsMethod{dt}
                        | SolverTypes::RK4Fixed{dt} => dt,
                        _ => f64::INFINITY,
                    };
                    let dt = if left < limit { left } else { limit };
                    match self.solver_type {
                        SolverTypes::EulerFixed{..} => self.euler(&dt),
                        SolverTypes::HeunsMethod{..} => self.heun(&dt),
                        SolverTypes::MidpointMethod{..} => self.midpoint(&dt),
                        SolverTypes::RalstonsMethod{..} => self.ralston(&dt),
                        SolverTypes::RK4Fixed{..} => self.rk4fixed(&dt),
                        SolverTypes::RK23BogackiShampine(_) => { self.rk23_bogacki_shampine(&dt); }
                        SolverTypes::RK45CashKarp(_) => { self.rk45_cash_karp(&dt); }
                    }
                }
            }
"""))
r("u-solve-step-default-trait", (A, STEP, """            pub fn solve_step(&mut self) {
                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
                    let solver = self.solver_type.clone();
                    self.step_with(&solver, dt);
                }
            }
"""), (SOL, "    /// solves time step with 4th order Runge-Kutta method.", """    /// one step of the given method over at most `dt`
    fn step_with(&mut self, solver: &SolverTypes, dt: f64) {
        match solver {
            SolverTypes::EulerFixed { dt: fixed } => self.euler(&fixed.min(dt)),
            SolverTypes::HeunsMethod { dt: fixed } => self.heun(&fixed.min(dt)),
            SolverTypes::MidpointMethod { dt: fixed } => self.midpoint(&fixed.min(dt)),
            SolverTypes::RalstonsMethod { dt: fixed } => self.ralston(&fixed.min(dt)),
            SolverTypes::RK4Fixed { dt: fixed } => self.rk4fixed(&fixed.min(dt)),
            SolverTypes::RK23BogackiShampine(_) => {
                self.rk23_bogacki_shampine(&dt);
            }
            SolverTypes::RK45CashKarp(_) => {
                self.rk45_cash_karp(&dt);
            }
        }
    }
    /// solves time step with 4th order Runge-Kutta method."""))
HS = cut(A, "        impl HasStates for #ident {", "        impl SolverBase for #ident {")
r("u-hasstates-arrays", (A, HS, """        impl HasStates for #ident {
            fn states(&self) -> Vec<f64> {
                [#(self.#fields_with_state.state()),*].to_vec()
            }
            fn set_states(&mut self, val: Vec<f64>) {
                let mut vals = val.into_iter();
                #(
                    let v = vals.next().unwrap();
                    self.#fields_with_state.set_state(v);
                )*
            }
            fn step_states_by_dt(&mut self, dt: &f64) {
                self.step_time(dt);
                let step: Vec<f64> = self.derivs().iter().map(|d| d * dt).collect();
                self.step_states(step);
            }
            fn step_states(&mut self, val: Vec<f64>) {
                let now = self.states();
                self.set_states(now.iter().zip(&val).map(|(a, b)| a + b).collect());
            }
            fn derivs(&self) -> Vec<f64> {
                vec![#(self.#fields_with_state.deriv()),*]
            }
            fn set_derivs(&mut self, val: &[f64]) {
                let mut k = 0usize;
                #(
                    self.#fields_with_state.set_deriv(val[k]);
                    k += 1;
                )*
                let _ = k;
            }
            fn step_derivs(&mut self, val: Vec<f64>) {
                let mut it = val.iter().copied();
                #(self.#fields_with_state.step_deriv(it.next().unwrap());)*
            }
            fn storages(&self) -> Vec<f64> {
                let mut all = Vec::with_capacity(8);
                #(all.extend(std::iter::once(self.#fields_with_state.storage()));)*
                all
            }
        }

"""))
r("u-sc-if-let", (A, cut(A, "            fn sc(&self)", "            fn state(&self)"), """            fn sc(&self) -> Option<&AdaptiveSolverConfig> {
                if let SolverTypes::RK45CashKarp(conf) | SolverTypes::RK23BogackiShampine(conf) = &self.solver_type {
                    return Some(conf.as_ref());
                }
                None
            }
            fn sc_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> {
                self.solver_type.config_mut()
            }
"""), (SOL, "impl AsMut<AdaptiveSolverConfig> for AdaptiveSolverConfig {", """impl SolverTypes {
    /// configuration of the adaptive methods
    pub fn config_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> {
        match self {
            Self::RK45CashKarp(conf) | Self::RK23BogackiShampine(conf) => Some(conf.as_mut()),
            Self::EulerFixed { .. } | Self::HeunsMethod { .. } | Self::MidpointMethod { .. } | Self::RalstonsMethod { .. } | Self::RK4Fixed { .. } => None,
        }
    }
}

impl AsMut<AdaptiveSolverConfig> for AdaptiveSolverConfig {"""))
# attribute macro restructured
r("u-attr-collect", (A, cut(A, "    let use_state_vec: Vec<bool>", "    let mut item_and_impl_block"), """    let fields_with_state: Vec<&Ident> = fields
        .iter()
        .filter_map(|field| {
            let marked = field.attrs.iter().any(|attr| attr.path.is_ident("use_state"));
            if marked {
                field.ident.as_ref()
            } else {
                None
            }
        })
        .collect();

"""))
r("u-hm-rewrite", (HM, cut(HM, "    let use_state_vec: Vec<bool>", "    let mut impl_block"), """    let is_marked = |field: &&Field| -> bool {
        ["use_state", "save_state"].iter().any(|mark| field.attrs.iter().any(|attr| attr.path.is_ident(mark)))
    };
    let mut fields_with_state = Vec::new();
    for field in fields.iter().filter(is_marked) {
        fields_with_state.push(field.ident.as_ref().unwrap());
    }

"""))
r("u-bc-rewrite", (BC, cut(BC, "    // all fields with `use_state`", "    let mut impl_block"), """    let mut fields_to_bare_clone = Vec::new();
    let mut fields_to_clone = Vec::new();
    for field in fields.iter() {
        let name = field.ident.as_ref().unwrap();
        if field.attrs.iter().any(|a| a.path.is_ident("use_state") || a.path.is_ident("save_state")) {
            fields_to_bare_clone.push(name);
        } else if name != "history" {
            fields_to_clone.push(name);
        }
    }

"""))
r("u-bc-update-syntax", (BC, cut(BC, "                let mut new = Self::default();", "            }\n        }\n    });"), """                Self {
                    #(#fields_to_clone: self.#fields_to_clone.clone(),)*
                    #(#fields_to_bare_clone: self.#fields_to_bare_clone.bare_clone(),)*
                    ..Default::default()
                }
"""))
r("u-hv-push-consume", (HV, "                #(self.#field_names.push(value.#field_names);)*", "                let #original_name { #(#field_names),* } = value;\n                #(self.#field_names.extend([#field_names]);)*"))
POP = cut(HV, "            pub fn pop(&mut self)", "            pub fn len")
r("u-hv-pop-len", (HV, POP, """            pub fn pop(&mut self) -> Option<#original_name> {
                if self.is_empty() {
                    return None;
                }
                let last = #original_name {
                    #(#field_names: self.#field_names.pop().unwrap(),)*
                };
                Some(last)
            }
"""), maybe=True)
DIFF = cut(TM, "        self.windows(2)", "    }\n}\n\npub trait SerdeAPI")
r("u-diff-pairs", (TM, DIFF, """        let shifted = self.iter().skip(1);
        self.iter().zip(shifted).map(|(now, next)| next - now).collect()
"""))
r("u-diff-slice-pattern", (TM, DIFF, """        let mut out = Vec::new();
        let mut rest = self.as_slice();
        while let [x, tail @ ..] = rest {
            if let Some(y) = tail.first() {
                out.push(y - x);
            }
            rest = tail;
        }
        out
"""))
r("u-diff-scan", (TM, DIFF, """        let mut it = self.iter();
        let mut out = vec![];
        if let Some(mut last) = it.next() {
            for x in it {
                out.push(x - last);
                last = x;
            }
        }
        out
"""))
LIN = cut(TM, "        // a single point has no step", "    }\n}\n\nimpl Linspace")
r("u-linspace-match", (TM, LIN, """        match n_elements {
            0 => Vec::new(),
            1 => vec![start],
            n => {
                let step = (stop - start) / (n - 1) as f64;
                (0..n).map(|k| start + step * k as f64).collect()
            }
        }
"""))
r("u-linspace-resize", (TM, LIN, """        let mut v = vec![start; n_elements];
        let last = n_elements.max(2) - 1;
        for (k, x) in v.iter_mut().enumerate() {
            *x += (stop - start) / last as f64 * k as f64;
        }
        v
"""))
TOF = cut(TM, "        let file = PathBuf::from(filename);", "    }\n\n    /// Read from file")
r("u-tofile-helper", (TM, TOF, """        let path = Path::new(filename);
        let suffix = suffix_of(path);
        if suffix == "json" {
            let out = File::create(path)?;
            serde_json::to_writer(out, self)?;
        } else if suffix == "yaml" {
            let out = File::create(path)?;
            serde_yaml::to_writer(out, self)?;
        } else {
            return Err(anyhow!("Unsupported file extension {}", suffix));
        }
        Ok(())
"""), (TM, "pub trait SerdeAPI:", """/// suffix of a path, empty if there is none
fn suffix_of(path: &Path) -> &str {
    match path.extension() {
        Some(suffix) => suffix.to_str().unwrap_or_default(),
        None => "",
    }
}

pub trait SerdeAPI:"""))
FRF = cut(TM, "        let extension = Path::new(filename)\n            .extension()\n            .and_then(OsStr::to_str)\n            .unwrap_or(\"\");\n\n        let file = File::open", "    }\n\n    /// json serialization")
r("u-fromfile-iflet", (TM, FRF, """        let file = File::open(filename)?;
        let extension = Path::new(filename).extension().and_then(OsStr::to_str);
        let value = match extension {
            Some("json") => serde_json::from_reader(file).map_err(anyhow::Error::from),
            Some("yaml") => serde_yaml::from_reader(file).map_err(anyhow::Error::from),
            other => Err(anyhow!("Unsupported file extension {}", other.unwrap_or(""))),
        }?;
        Ok(value)
"""))
r("u-dtmean-then", (SOL, cut(SOL, "        if !self.history.is_empty() {", "    }\n}\n"), """        let steps = &self.history.dt;
        let n = steps.len();
        (n > 0).then(|| steps.iter().sum::<f64>() / n as f64)
"""))
r("u-almost-eq", (UT, cut(UT, "    let epsilon", "}"), """    let tol = match epsilon {
        Some(e) => e,
        None => 1e-8,
    };
    let gap = val2 - val1;
    if gap.abs() < tol {
        return true;
    }
    (gap / (val1 + val2)).abs() < tol
"""))
r("u-comp-delegates", (CO, "impl HasState for ThermalReservoir {", """impl ThermalMassState {
    fn shifted(self, by: f64) -> Self {
        Self { dtemp: self.dtemp + by, ..self }
    }
}

impl HasState for ThermalReservoir {"""), (CO, """    fn step_deriv(&mut self, val: f64) {
        self.state.dtemp += val;
    }
    fn storage(&self) -> f64 {
        self.c
    }""", """    fn step_deriv(&mut self, val: f64) {
        self.state = self.state.shifted(val);
    }
    fn storage(&self) -> f64 {
        self.c
    }"""))
r("u-connect-two-phase", (TM, """            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());""", """            {
                let flow = $sys.$c.flow();
                for (component, signed) in [(&mut $sys.$s0 as &mut dyn HasState, -flow), (&mut $sys.$s1 as &mut dyn HasState, flow)] {
                    let rate = signed / component.storage();
                    component.step_deriv(rate);
                }
            }"""))
r("u-connect-fn", (TM, "            $sys.$c.set_flow(&$sys.$s0, &$sys.$s1);", "            {\n                let (source, sink): (&dyn HasState, &dyn HasState) = (&$sys.$s0, &$sys.$s1);\n                $sys.$c.set_flow(source, sink);\n            }"))
r("u-setflow-states", (CO, "        self.state.q = self.h * (p0.state() - p1.state());", "        let (hot, cold) = (p0.state(), p1.state());\n        let gradient = hot - cold;\n        self.state = ConductanceState { q: gradient * self.h };"))
OWN = False
