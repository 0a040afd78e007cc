# behaviour-preserving refactorings, second batch (checks must stay quiet)
import os
SOL = "dess/src/solver.rs"
TM = "dess/src/traits_and_macros.rs"
ATTR = "dess/dess-proc-macros/src/solver_attr.rs"
HM = "dess/dess-proc-macros/src/history_methods.rs"
HV = "dess/dess-proc-macros/src/history_vec.rs"
BC = "dess/dess-proc-macros/src/bare_clone.rs"
API = "dess/dess-proc-macros/src/pyo3_api.rs"
CO = "dess-examples/src/components.rs"
T3 = "dess-examples/src/three_thermal_mass_sys.rs"
MAIN = "dess-examples/src/main.rs"


def region(f, a, b, nth=0):
    s = open("/repo/" + f).read()
    i = -1
    for _ in range(nth + 1):
        i = s.index(a, i + 1)
    j = s.index(b, i)
    return s[i:j]


def fnbody(f, sig, nth=0):
    """whole function text starting at sig"""
    s = open("/repo/" + f).read()
    i = -1
    for _ in range(nth + 1):
        i = s.index(sig, i + 1)
    d = 0
    j = s.index("{", i)
    while True:
        if s[j] == "{":
            d += 1
        if s[j] == "}":
            d -= 1
            if d == 0:
                return s[i:j + 1]
        j += 1


CK = fnbody(SOL, "fn rk45_cash_karp_step(&mut self")
BS = fnbody(SOL, "fn rk23_bogacki_shampine_step(&mut self")
CKL = fnbody(SOL, "fn rk45_cash_karp(&mut self")
BSL = fnbody(SOL, "fn rk23_bogacki_shampine(&mut self")
RK4 = fnbody(SOL, "fn rk4fixed(&mut self")
RAL = fnbody(SOL, "fn ralston(&mut self")
HEU = fnbody(SOL, "fn heun(&mut self")
MID = fnbody(SOL, "fn midpoint(&mut self")

WSUM = '''
/// linear combination of stage derivatives times `dt`
fn combine(weights: &[f64], stages: &[&Vec<f64>], dt: f64) -> Vec<f64> {
    let n = stages[0].len();
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        let mut acc = 0.0;
        for (w, k) in weights.iter().zip(stages) {
            acc += w * k[i];
        }
        out.push(acc * dt);
    }
    out
}

pub trait SolverVariantMethods: SolverBase {'''
CK_STAGE = '''fn rk45_cash_karp_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.update_derivs();
        let k1 = self.derivs();
        let k2 = self.stage_derivs(dt / 5., combine(&[1. / 5.], &[&k1], dt));
        let k3 = self.stage_derivs(dt * 3. / 10., combine(&[3. / 40., 9. / 40.], &[&k1, &k2], dt));
        let k4 = self.stage_derivs(
            dt * 3. / 5.,
            combine(&[3. / 10., -9. / 10., 6. / 5.], &[&k1, &k2, &k3], dt),
        );
        let k5 = self.stage_derivs(
            dt,
            combine(&[-11. / 54., 5. / 2., -70. / 27., 35. / 27.], &[&k1, &k2, &k3, &k4], dt),
        );
        let k6 = self.stage_derivs(
            dt * 7. / 8.,
            combine(
                &[1_631. / 55_296., 175. / 512., 575. / 13_824., 44_275. / 110_592., 253. / 4096.],
                &[&k1, &k2, &k3, &k4, &k5],
                dt,
            ),
        );
        let delta5 = combine(&[37. / 378., 250. / 621., 125. / 594., 512. / 1_771.], &[&k1, &k3, &k4, &k6], dt);
        let delta4 = combine(
            &[2825. / 27_648., 18_575. / 48_384., 13_525. / 55_296., 277. / 14_336., 1. / 4.],
            &[&k1, &k3, &k4, &k5, &k6],
            dt,
        );
        (delta4, delta5)
    }

    /// derivatives of a copy of the system advanced by `offset` in time and `delta` in states
    fn stage_derivs(&self, offset: f64, delta: Vec<f64>) -> Vec<f64> {
        let mut trial = self.bare_clone();
        trial.step_time(&offset);
        trial.step_states(delta);
        trial.update_derivs();
        trial.derivs()
    }'''
CK_ITER = CK_STAGE
WSUM_ITER = '''
/// linear combination of stage derivatives times `dt`
fn combine(weights: &[f64], stages: &[&Vec<f64>], dt: f64) -> Vec<f64> {
    (0..stages[0].len())
        .map(|i| weights.iter().zip(stages).map(|(w, k)| w * k[i]).sum::<f64>() * dt)
        .collect()
}

pub trait SolverVariantMethods: SolverBase {'''
WSUM_AXPY = '''
/// linear combination of stage derivatives times `dt`
fn combine(weights: &[f64], stages: &[&Vec<f64>], dt: f64) -> Vec<f64> {
    let mut out = vec![0.0; stages[0].len()];
    for (w, k) in weights.iter().zip(stages) {
        for (o, x) in out.iter_mut().zip(k.iter()) {
            *o += w * x * dt;
        }
    }
    out
}

pub trait SolverVariantMethods: SolverBase {'''
TRAIT = "\npub trait SolverVariantMethods: SolverBase {"
TAB = '''
const CK_A: [[f64; 5]; 5] = [
    [1. / 5., 0., 0., 0., 0.],
    [3. / 40., 9. / 40., 0., 0., 0.],
    [3. / 10., -9. / 10., 6. / 5., 0., 0.],
    [-11. / 54., 5. / 2., -70. / 27., 35. / 27., 0.],
    [1_631. / 55_296., 175. / 512., 575. / 13_824., 44_275. / 110_592., 253. / 4096.],
];
const CK_C: [f64; 5] = [1. / 5., 3. / 10., 3. / 5., 1., 7. / 8.];
const CK_B5: [f64; 6] = [37. / 378., 0., 250. / 621., 125. / 594., 0., 512. / 1_771.];
const CK_B4: [f64; 6] = [2825. / 27_648., 0., 18_575. / 48_384., 13_525. / 55_296., 277. / 14_336., 1. / 4.];
'''
CK_TAB = '''fn rk45_cash_karp_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.update_derivs();
        let mut ks: Vec<Vec<f64>> = vec![self.derivs()];
        for (row, c) in CK_A.iter().zip(CK_C) {
            let mut trial = self.bare_clone();
            trial.step_time(&(dt * c));
            let n = ks[0].len();
            let delta: Vec<f64> = (0..n)
                .map(|i| ks.iter().zip(row).map(|(k, a)| a * k[i]).sum::<f64>() * dt)
                .collect();
            trial.step_states(delta);
            trial.update_derivs();
            ks.push(trial.derivs());
        }
        let weigh = |b: &[f64; 6]| -> Vec<f64> {
            (0..ks[0].len())
                .map(|i| ks.iter().zip(b).map(|(k, w)| w * k[i]).sum::<f64>() * dt)
                .collect()
        };
        (weigh(&CK_B4), weigh(&CK_B5))
    }'''

# shared tail of the adaptive loops as methods of the configuration
TAIL_FROM = "            // conditions for breaking loop"
TAIL_TO = "        // increment forward with"
CFG_IMPL = '''impl AdaptiveSolverConfig {
    /// is the relative tolerance (or, without one, the absolute tolerance) met
    fn tol_met(&self) -> bool {
        match (self.state.norm_err_rel, self.state.norm_err) {
            (Some(rel), _) => rel <= self.rtol,
            (None, Some(err)) => err <= self.atol,
            (None, None) => unreachable!(),
        }
    }

    /// factor for the next step size
    fn dt_coeff(&self) -> f64 {
        let norm_err = match self.state.norm_err {
            Some(e) => e,
            None => return 1.,
        };
        if let Some(rel) = self.state.norm_err_rel {
            if rel <= self.rtol {
                return (self.rtol / rel).powf(0.2);
            }
            if norm_err <= self.atol {
                return (self.atol / norm_err).powf(0.2);
            }
            return 0.25;
        }
        let exponent = if norm_err > self.atol { 0.25 } else { 0.2 };
        (self.atol / norm_err).powf(exponent)
    }

    /// records the trial if it is accepted; returns the step size used then
    fn finish_trial(&mut self) -> Option<f64> {
        let accepted = self.tol_met()
            || self.state.norm_err.unwrap() < self.atol
            || self.state.n_iter >= self.max_iter;
        let coeff = self.dt_coeff();
        if !accepted {
            self.state.dt *= coeff;
            return None;
        }
        if self.save {
            self.history.push(self.state.clone());
        }
        let used = self.state.dt;
        self.state.dt = (used * coeff).min(self.dt_max);
        Some(used)
    }
'''


def tail(which, name):
    i = which.index(TAIL_FROM)
    j = which.index(TAIL_TO)
    return which[i:j], '''            if let Some(dt_used) = sc_mut.finish_trial() {
                break (%s, dt_used);
            }
        };

''' % name


def looped(fn, var, step):
    """the trial loop as `while` with a flag"""
    s = fn.replace("let (%s, dt_used) = loop {" % var, "let mut accepted: Option<(Vec<f64>, f64)> = None;\n        while accepted.is_none() {")
    s = s.replace("break (%s, dt_used);\n            };" % var, "accepted = Some((%s, dt_used));\n            } else {" % var)
    s = s.replace("            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;\n        };", "            // adapt for next iteration in current time step\n            sc_mut.state.dt *= dt_coeff;\n            }\n        }\n        let (%s, dt_used) = accepted.unwrap();" % var)
    return s


NORM4 = region(SOL, "            sc_mut.state.norm_err = Some(\n                delta2", "            //making sure that rtol", 0)
M = [
 dict(name="q-ck-combine", edits=[(SOL, TRAIT, WSUM), (SOL, CK, CK_STAGE)]),
 dict(name="q-ck-combine-iter", edits=[(SOL, TRAIT, WSUM_ITER), (SOL, CK, CK_STAGE)]),
 dict(name="q-ck-combine-axpy", edits=[(SOL, TRAIT, WSUM_AXPY), (SOL, CK, CK_STAGE)]),
 dict(name="q-ck-tableau", edits=[(SOL, TRAIT, TAB + TRAIT), (SOL, CK, CK_TAB)]),
 dict(name="q-tail-methods", edits=[(SOL, "impl AdaptiveSolverConfig {\n", CFG_IMPL), (SOL, *tail(CKL, "delta5")), ]),
 dict(name="q-tail-methods-bs", edits=[(SOL, "impl AdaptiveSolverConfig {\n", CFG_IMPL), (SOL, BSL, BSL.replace(*tail(BSL, "delta3"))), ]),
 dict(name="q-while-none-ck", edits=[(SOL, CKL, looped(CKL, "delta5", None))]),
 dict(name="q-while-none-bs", edits=[(SOL, BSL, looped(BSL, "delta3", None))]),
 dict(name="q-count-local", edits=[(SOL, BSL, BSL.replace("        let (delta3, dt_used) = loop {", "        let mut n_trials: u8 = 0;\n        let (delta3, dt_used) = loop {").replace("sc_mut.state.n_iter += 1;", "n_trials += 1;\n            sc_mut.state.n_iter = n_trials;"))]),
 dict(name="q-dt-local", edits=[(SOL, CKL, CKL.replace("                let dt_used = sc_mut.state.dt;\n", "").replace("break (delta5, dt_used);", "break (delta5, dt);"))]),
 dict(name="q-step-free-fn", edits=[(SOL, BS, BS.replace("let k2s = sys1.derivs();", "let k2s = derivs_of(&mut sys1);").replace("sys1.update_derivs();", "").replace("let k3s = sys2.derivs();", "let k3s = derivs_of(&mut sys2);").replace("sys2.update_derivs();", "")), (SOL, TRAIT, "\nfn derivs_of<S: SolverBase>(sys: &mut S) -> Vec<f64> {\n    sys.update_derivs();\n    sys.derivs()\n}\n" + TRAIT)]),
 dict(name="q-rk4-one-copy", edits=[(SOL, RK4, '''fn rk4fixed(&mut self, dt: &f64) {
        self.update_derivs();
        let base = self.bare_clone();
        let k1s = base.derivs();
        let mut ks: Vec<Vec<f64>> = vec![k1s];
        for frac in [0.5, 0.5, 1.0] {
            let mut sys = base.bare_clone();
            sys.set_derivs(ks.last().unwrap());
            sys.step_states_by_dt(&(dt * frac));
            sys.update_derivs();
            ks.push(sys.derivs());
        }
        let delta = (0..ks[0].len())
            .map(|i| (ks[0][i] + 2. * ks[1][i] + 2. * ks[2][i] + ks[3][i]) / 6. * dt)
            .collect();
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }''')]),
 dict(name="q-heun-average", edits=[(SOL, HEU, '''fn heun(&mut self, dt: &f64) {
        self.update_derivs();
        let k1 = self.derivs();
        let mut predictor = self.bare_clone();
        predictor.step_states_by_dt(dt);
        predictor.update_derivs();
        let k2 = predictor.derivs();
        let mut slope = k1;
        for (a, b) in slope.iter_mut().zip(k2) {
            *a = 0.5 * (*a + b);
        }
        self.set_derivs(&slope);
        self.step_states_by_dt(dt);
        self.update_derivs();
    }''')]),
 dict(name="q-ralston-delta", edits=[(SOL, RAL, '''fn ralston(&mut self, dt: &f64) {
        self.update_derivs();
        let k1 = self.derivs();
        let mut probe = self.bare_clone();
        probe.step_states_by_dt(&(dt * 2.0 / 3.0));
        probe.update_derivs();
        let k2 = probe.derivs();
        let delta: Vec<f64> = k1.iter().zip(k2.iter()).map(|(a, b)| dt * (0.25 * a + 0.75 * b)).collect();
        self.step_states(delta);
        self.step_time(dt);
        self.update_derivs();
    }''')]),
 dict(name="q-norm-generic", edits=[(SOL, CKL, CKL.replace(region(SOL, "            sc_mut.state.norm_err = Some(\n                delta4", "            sc_mut.state.norm_err_rel = if"), "            sc_mut.state.norm_err = Some(l2(delta4.iter().zip(&delta5).map(|(d4, d5)| d4 - d5)));\n            let norm_d5 = l2(delta5.iter().copied());\n")), (SOL, TRAIT, "\nfn l2(it: impl Iterator<Item = f64>) -> f64 {\n    it.map(|x| x * x).sum::<f64>().sqrt()\n}\n" + TRAIT)]),
 dict(name="q-norm-hypot", edits=[(SOL, CKL, CKL.replace(region(SOL, "            sc_mut.state.norm_err = Some(\n                delta4", "            sc_mut.state.norm_err_rel = if"), "            let (mut sq_err, mut sq) = (0.0, 0.0);\n            for i in 0..delta5.len() {\n                let e = delta5[i] - delta4[i];\n                sq_err += e * e;\n                sq += delta5[i] * delta5[i];\n            }\n            sc_mut.state.norm_err = Some(f64::sqrt(sq_err));\n            let norm_d5 = f64::sqrt(sq);\n"))]),
 dict(name="q-rel-then", edits=[(SOL, CKL, CKL.replace("if norm_d5 != 0. {", "if norm_d5 > 0. {"))]),
 dict(name="q-states-helper", edits=[(SOL, BSL, BSL.replace(region(SOL, "            let states = if sc.save {", "            let t_curr"), "            let mut states = Vec::new();\n            if sc.save {\n                states = self.states();\n                states.iter_mut().zip(&delta3).for_each(|(s, d)| *s += d);\n            }\n\n"))]),
 dict(name="q-match-guard", edits=[(SOL, CKL, CKL.replace("Some(norm_err_rel) => norm_err_rel <= sc_mut.rtol,", "Some(norm_err_rel) if norm_err_rel <= sc_mut.rtol => true,\n                Some(_) => false,"))]),
 dict(name="q-solve-loop", edits=[(ATTR, "                while self.state.time < self.t_report[self.state.i] {\n                    let dt = self.t_report[self.state.i] - self.state.time;\n", "                loop {\n                    let target = self.t_report[self.state.i];\n                    let dt = target - self.state.time;\n                    if self.state.time >= target {\n                        return;\n                    }\n")]),
 dict(name="q-solve-target", edits=[(ATTR, "                while self.state.time < self.t_report[self.state.i] {\n                    let dt = self.t_report[self.state.i] - self.state.time;\n", "                let target = self.t_report[self.state.i];\n                while self.state.time < target {\n                    let dt = target - self.state.time;\n")]),
 dict(name="q-walk-tend", edits=[(ATTR, "                while &self.state.time < self.t_report.last().unwrap() {", "                let t_end = *self.t_report.last().unwrap();\n                while self.state.time < t_end {")]),
 dict(name="q-walk-loop", edits=[(ATTR, "                while &self.state.time < self.t_report.last().unwrap() {\n                    self.solve_step();\n                    self.state.i += 1;\n                    self.save_state();\n                }", "                loop {\n                    if self.state.time >= self.t_report[self.t_report.len() - 1] {\n                        break;\n                    }\n                    self.advance_one();\n                }\n            }\n            fn advance_one(&mut self) {\n                self.solve_step();\n                self.state.i += 1;\n                self.save_state();")]),
 dict(name="q-dispatch-deref", edits=[(ATTR, "let dt = dt.min(dt_fixed.clone());", "let dt = f64::min(*dt_fixed, dt);")], nth={ATTR: "all"}),
 dict(name="q-dispatch-fnptr", edits=[(ATTR, region(ATTR, "                    match &self.solver_type {\n                        SolverTypes::EulerFixed", "                }\n            }\n        }\n    });"), '''                    let fixed: Option<(fn(&mut Self, &f64), f64)> = match &self.solver_type {
                        SolverTypes::EulerFixed{dt} => Some((Self::euler, *dt)),
                        SolverTypes::HeunsMethod{dt} => Some((Self::heun, *dt)),
                        SolverTypes::MidpointMethod{dt} => Some((Self::midpoint, *dt)),
                        SolverTypes::RalstonsMethod{dt} => Some((Self::ralston, *dt)),
                        SolverTypes::RK4Fixed{dt} => Some((Self::rk4fixed, *dt)),
                        _ => None,
                    };
                    if let Some((step, dt_fixed)) = fixed {
                        step(self, &dt.min(dt_fixed));
                    } else if let SolverTypes::RK45CashKarp(_) = self.solver_type {
                        self.rk45_cash_karp(&dt);
                    } else {
                        self.rk23_bogacki_shampine(&dt);
                    }
''')]),
 dict(name="q-sc-orpat", edits=[(ATTR, "                    SolverTypes::RK45CashKarp(sc) => Some(sc),\n                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),\n", "                    SolverTypes::RK45CashKarp(sc) | SolverTypes::RK23BogackiShampine(sc) => Some(sc),\n")], nth={ATTR: "all"}),
 dict(name="q-sc-iflet", nth={ATTR: 0}, edits=[(ATTR, "                match &self.solver_type {\n                    SolverTypes::RK45CashKarp(sc) => Some(sc),\n                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),\n                    _ => None,\n                }", "                if let SolverTypes::RK45CashKarp(sc) = &self.solver_type {\n                    return Some(sc.as_ref());\n                }\n                if let SolverTypes::RK23BogackiShampine(sc) = &self.solver_type {\n                    return Some(&**sc);\n                }\n                None")]),
 dict(name="q-setstates-dyn", edits=[(ATTR, "                let mut iter = val.iter();\n                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*", "                let mut parts: Vec<&mut dyn HasState> = vec![#(&mut self.#fields_with_state),*];\n                for (i, part) in parts.iter_mut().enumerate() {\n                    part.set_state(val[i]);\n                }")]),
 dict(name="q-derivs-array", edits=[(ATTR, "                let mut derivs: Vec<f64> = Vec::new();\n                #(derivs.push(self.#fields_with_state.deriv());)*\n                derivs", "                [#(self.#fields_with_state.deriv()),*].to_vec()")]),
 dict(name="q-stepby-order", edits=[(ATTR, "                #(self.#fields_with_state.step_state_by_dt(dt);)*\n                self.step_time(dt);", "                self.step_time(dt);\n                #(self.#fields_with_state.step_state_by_dt(dt);)*")]),
 dict(name="q-reset-viaset", edits=[(ATTR, "                #(self.#fields_with_state.set_deriv(0.0);)*", "                let zeros = vec![0.0; self.states().len()];\n                self.set_derivs(&zeros);")]),
 dict(name="q-steptime-assign", edits=[(ATTR, "self.state.time += dt;", "let t = self.state.time;\n                self.state.time = dt + t;")]),
 dict(name="q-pop-question", edits=[(HV, region(HV, "                if self.is_empty() {\n", "            }\n\n            /// Returns len"), "                Some(#original_name{#(#field_names: self.#field_names.pop()?),*})\n")]),
 dict(name="q-push-destructure", edits=[(HV, "                #(self.#field_names.push(value.#field_names);)*", "                let #original_name { #(#field_names),* } = value;\n                #(self.#field_names.push(#field_names);)*")]),
 dict(name="q-new-default", edits=[(HV, "#ident: Vec::new(),", "#ident: Default::default(),")]),
 dict(name="q-clear-new", edits=[(HV, "#(self.#field_names.clear();)*", "*self = Self::new();")]),
 dict(name="q-bc-literal", edits=[(BC, "                let mut new = Self::default();\n                #(new.#fields_to_bare_clone = self.#fields_to_bare_clone.bare_clone();)*\n                #(new.#fields_to_clone = self.#fields_to_clone.clone();)*\n                new\n", "                Self {\n                    #(#fields_to_clone: self.#fields_to_clone.clone(),)*\n                    #(#fields_to_bare_clone: self.#fields_to_bare_clone.bare_clone(),)*\n                    ..Default::default()\n                }\n")]),
 dict(name="q-hm-clone", edits=[(HM, "quote! {self.history.push(self.state)}", "quote! {let record = self.state.clone(); self.history.push(record)}")]),
 dict(name="q-hm-order", edits=[(HM, "                    #self_state_push;\n                    #(self.#fields_with_state.save_state();)*\n", "                    #(self.#fields_with_state.save_state();)*\n                    #self_state_push;\n")]),
 dict(name="q-attr-helper", edits=[(HM, "                .any(|attr| attr.path.is_ident(\"use_state\") || attr.path.is_ident(\"save_state\"))", "                .any(|attr| [\"use_state\", \"save_state\"].iter().any(|n| attr.path.is_ident(n)))")]),
 dict(name="q-connect-fn", edits=[(TM, "            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());\n            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());\n", "            $crate::traits_and_macros::exchange($sys.$c.flow(), &mut $sys.$s0, &mut $sys.$s1);\n"), (TM, "pub trait Flow {", "/// moves `q` from `source` to `sink`\npub fn exchange(q: f64, source: &mut dyn HasState, sink: &mut dyn HasState) {\n    let out_rate = q / source.storage();\n    source.step_deriv(-out_rate);\n    let in_rate = q / sink.storage();\n    sink.step_deriv(in_rate);\n}\n\npub trait Flow {")]),
 dict(name="q-connect-generic", edits=[(TM, "            $sys.$c.set_flow(&$sys.$s0, &$sys.$s1);\n", "            {\n                let (source, sink) = (&$sys.$s0, &$sys.$s1);\n                $sys.$c.set_flow(source, sink);\n            }\n")]),
 dict(name="q-tofile-enum", edits=[(TM, region(TM, "        let file = PathBuf::from(filename);", "    }\n\n    /// Read from file"), '''        match Format::of(filename)? {
            Format::Json => {
                let out = File::create(filename)?;
                serde_json::to_writer(out, self)?;
            }
            Format::Yaml => {
                let out = File::create(filename)?;
                serde_yaml::to_writer(out, self)?;
            }
        }
        Ok(())
'''), (TM, "pub trait SerdeAPI:", '''enum Format {
    Json,
    Yaml,
}

impl Format {
    fn of(filename: &str) -> Result<Self, anyhow::Error> {
        let extension = Path::new(filename).extension().and_then(OsStr::to_str).unwrap_or("");
        if extension == "json" {
            Ok(Self::Json)
        } else if extension == "yaml" {
            Ok(Self::Yaml)
        } else {
            Err(anyhow!("Unsupported file extension {}", extension))
        }
    }
}

pub trait SerdeAPI:''')]),
 dict(name="q-fromfile-bufread", edits=[(TM, "        let file = File::open(filename)?;\n", "        let file = std::io::BufReader::new(File::open(filename)?);\n")]),
 dict(name="q-fromfile-string", edits=[(TM, "            \"json\" => Ok(serde_json::from_reader(file)?),", "            \"json\" => serde_json::from_reader(file).map_err(|e| anyhow!(e)),")]),
 dict(name="q-tojson-expect", edits=[(TM, "serde_json::to_string(&self).unwrap()", "serde_json::to_string(self).expect(\"plain data serializes\")")]),
 dict(name="q-linspace-early", edits=[(TM, region(TM, "        // a single point has no step", "    }\n}\n\nimpl Linspace"), '''        match n_elements {
            0 => Vec::new(),
            1 => vec![start],
            _ => {
                let step_size = (stop - start) / (n_elements - 1) as f64;
                (0..n_elements).map(|k| start + k as f64 * step_size).collect()
            }
        }
''')]),
 dict(name="q-diff-skip", edits=[(TM, region(TM, "        self.windows(2)", "    }\n}\n\npub trait SerdeAPI"), "        self.iter().skip(1).zip(self.iter()).map(|(next, this)| next - this).collect()\n")]),
 dict(name="q-diff-loop", edits=[(TM, region(TM, "        self.windows(2)", "    }\n}\n\npub trait SerdeAPI"), "        let mut out = Vec::new();\n        for k in 1..self.len() {\n            out.push(self[k] - self[k - 1]);\n        }\n        out\n")]),
 dict(name="q-dtmean-match", edits=[(SOL, region(SOL, "        if !self.history.is_empty() {\n", "    }\n}\n\nimpl AsMut"), "        match self.history.len() {\n            0 => None,\n            n => {\n                let total: f64 = self.history.dt.iter().sum();\n                Some(total / n as f64)\n            }\n        }\n")]),
 dict(name="q-dtmean-loop", edits=[(SOL, region(SOL, "        if !self.history.is_empty() {\n", "    }\n}\n\nimpl AsMut"), "        let steps = &self.history.dt;\n        if steps.is_empty() {\n            return None;\n        }\n        let mut total = 0.;\n        for dt in steps {\n            total += dt;\n        }\n        Some(total / steps.len() as f64)\n")]),
 dict(name="q-comp-macro", edits=[(CO, "        self.state.q = self.h * (p0.state() - p1.state());", "        let (hot, cold) = (p0.state(), p1.state());\n        let drop = hot - cold;\n        self.state = ConductanceState { q: drop * self.h };")]),
 dict(name="q-comp-stepderiv", nth={CO: 0}, edits=[(CO, "        self.state.dtemp += val;", "        self.state = ThermalMassState { dtemp: self.state.dtemp + val, ..self.state };")]),
 dict(name="q-sys-split", edits=[(T3, "        self.reset_derivs();\n        connect_states!(self, (m1, m2, h12), (m2, m3, h23));", "        connect_states!(self, (m2, m3, h23), (m1, m2, h12));\n        self.reset_derivs();")]),
 dict(name="q-main-fn", edits=[(MAIN, "fn main() {\n", "fn overwrite_requested() -> bool {\n    std::env::args().nth(1).map_or(false, |a| a == \"true\")\n}\n\nfn main() {\n"), (MAIN, region(MAIN, "    let mut overwrite_benchmarks = false;", "    three_thermal_mass_sys::run_three"), "    let overwrite_benchmarks = overwrite_requested();\n"), (MAIN, "    let args: Vec<String> = std::env::args().collect();\n", ""), (MAIN, region(MAIN, "    let mut overwrite_baseline = false;", "    baseline_three_tm_sys"), "    let overwrite_baseline = overwrite_requested();\n")]),
 dict(name="q-main-get", edits=[(MAIN, region(MAIN, "    let mut overwrite_benchmarks = false;", "    three_thermal_mass_sys::run_three"), "    let overwrite_benchmarks = args.get(1).map(String::as_str) == Some(\"true\");\n"), (MAIN, region(MAIN, "    let mut overwrite_baseline = false;", "    baseline_three_tm_sys"), "    let overwrite_baseline = overwrite_benchmarks;\n")]),
 dict(name="q-ctor-cfg", edits=[(T3, region(T3, "        Self{\n            solver_type: SolverTypes::RK45CashKarp(Box::new(sol)),", "    }\n\n    #[classmethod]\n    #[allow(clippy::too_many_arguments)]\n    fn new_rk23"), "        let solver_type = SolverTypes::RK45CashKarp(Box::new(sol));\n        let state = Default::default();\n        let history = Default::default();\n        Self { solver_type, m1, m2, h12, m3, h23, t_report, state, history }\n")]),
 dict(name="q-get-conf-sc", nth={T3: 0}, edits=[(T3, "            SolverTypes::RK45CashKarp(sc) => Some(*sc.clone()),\n            SolverTypes::RK23BogackiShampine(sc) => Some(*sc.clone()),\n            _ => None,", "            SolverTypes::RK45CashKarp(sc) | SolverTypes::RK23BogackiShampine(sc) => Some((**sc).clone()),\n            _ => None,")]),
 dict(name="q-ctor-question", nth={T3: 0}, edits=[(T3, "        Ok(Self{\n            solver_type: SolverTypes::from_json(&solver_type)?, ", "        let solver_type = match SolverTypes::from_json(&solver_type) {\n            Ok(parsed) => parsed,\n            Err(e) => return Err(e.into()),\n        };\n        Ok(Self{\n            solver_type, ")]),
 dict(name="q-getter-quote", edits=[(API, "            let fn_get_fname: TokenStream2 =\n                format!(\"fn get_{}(&mut self)\", &fname).parse().unwrap();", "            let get_name = quote::format_ident!(\"get_{}\", fname);"), (API, "            let fn_body: TokenStream2 = format!(\"self.{}.clone()\", &fname).parse().unwrap();\n", ""), (API, "                #fn_get_fname -> #field_type {\n                    #fn_body\n", "                fn #get_name(&self) -> #field_type {\n                    self.#fname.clone()\n")]),
 dict(name="q-noop", nth={SOL: 0}, edits=[(SOL, "        let sc_mut = self.sc_mut().unwrap();\n        // reset iteration counter", "        let _ = dt_max;\n        let sc_mut = self.sc_mut().unwrap();\n        // reset iteration counter"), (ATTR, "                while &self.state.time", "                let _n = self.t_report.len();\n                while &self.state.time")]),
 dict(name="q-trace-debugassert", edits=[(SOL, RAL, RAL.replace("        self.update_derivs();\n", "        debug_assert!(true);\n        self.update_derivs();\n", 1))]),
]
