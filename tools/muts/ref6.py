"""behaviour-keeping edits, sixth collection: other idioms for the same arithmetic, further helpers"""
exec(open("/verif/tools/muts/ref3.py").read().split("M = []")[0])
M = []
def r(name, *edits, **kw):
    M.append(dict(name=name, prop=None, edits=list(edits), **kw))
NORM = """            let norm_d3 = delta3
                .iter()
                .map(|d3| d3.powi(2))
                .collect::<Vec<f64>>()
                .iter()
                .sum::<f64>()
                .sqrt();
"""
r("x-norm-hypot", (SOL, NORM, "            let norm_d3 = delta3.iter().fold(0.0_f64, |acc, d3| acc.hypot(*d3));\n"))
r("x-norm-square", (SOL, NORM, "            let norm_d3 = delta3.iter().map(|d3| d3 * d3).sum::<f64>().powf(0.5);\n"))
r("x-norm-fn", (SOL, NORM, "            let norm_d3 = euclid(&delta3);\n"), (SOL, "pub trait SolverVariantMethods: SolverBase {", "/// euclidean norm\nfn euclid(v: &[f64]) -> f64 {\n    let mut s = 0.0;\n    for x in v {\n        s += x.powi(2);\n    }\n    s.sqrt()\n}\n\npub trait SolverVariantMethods: SolverBase {"))
r("x-err-fn", (SOL, """            sc_mut.state.norm_err = Some(
                delta2
                    .iter()
                    .zip(&delta3)
                    .map(|(d2, d3)| (d2 - d3).powi(2))
                    .collect::<Vec<f64>>()
                    .iter()
                    .sum::<f64>()
                    .sqrt(),
            );
""", "            sc_mut.state.norm_err = Some(distance(&delta2, &delta3));\n"), (SOL, "pub trait SolverVariantMethods: SolverBase {", "/// euclidean distance\nfn distance<'a, I: IntoIterator<Item = &'a f64>>(a: I, b: I) -> f64 {\n    a.into_iter()\n        .zip(b)\n        .map(|(x, y)| (x - y).powi(2))\n        .sum::<f64>()\n        .sqrt()\n}\n\npub trait SolverVariantMethods: SolverBase {"))
r("x-rel-filter", (SOL, """            sc_mut.state.norm_err_rel = if norm_d3 != 0. {
                // `unwrap` is ok here because `norm_err` will always be some by this point
                Some(sc_mut.state.norm_err.unwrap() / norm_d3)
            } else {
                // avoid dividing by 0
                None
            };
""", "            sc_mut.state.norm_err_rel = Some(norm_d3)\n                .filter(|n| *n != 0.)\n                .and_then(|n| sc_mut.state.norm_err.map(|e| e / n));\n"))
r("x-rel-match", (SOL, """            sc_mut.state.norm_err_rel = if norm_d3 != 0. {
                // `unwrap` is ok here because `norm_err` will always be some by this point
                Some(sc_mut.state.norm_err.unwrap() / norm_d3)
            } else {
                // avoid dividing by 0
                None
            };
""", "            sc_mut.state.norm_err_rel = match (sc_mut.state.norm_err, norm_d3 == 0.) {\n                (Some(e), false) => Some(e / norm_d3),\n                _ => None,\n            };\n"))
HEADR = """        let sc_mut = self.sc_mut().unwrap();
        // reset iteration counter
        sc_mut.state.n_iter = 0;
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);
"""
r("x-prepare-method", (SOL, HEADR, "        self.sc_mut().unwrap().prepare(*dt_max);\n"), (SOL, "impl AdaptiveSolverConfig {\n    pub fn dt_mean", "impl AdaptiveSolverConfig {\n    /// start of a step that may not be longer than `limit`\n    fn prepare(&mut self, limit: f64) {\n        let cap = if limit < self.dt_max { limit } else { self.dt_max };\n        if self.state.dt > cap {\n            self.state.dt = cap;\n        }\n        self.state.n_iter = 0;\n    }\n    pub fn dt_mean"), nth={SOL: None})
M[-1]["edits"] = [M[-1]["edits"][1], M[-1]["edits"][0]]
M[-1]["nth"] = {SOL: 0}
r("x-dtlimit-fold", (SOL, "sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);", "sc_mut.state.dt = [*dt_max, sc_mut.dt_max].iter().fold(sc_mut.state.dt, |m, x| m.min(*x));"), nth={SOL: 0})
r("x-finish-helper", (SOL, "        self.step_states(delta3);\n        self.step_time(&dt_used);\n        self.update_derivs();\n", "        self.finish(delta3, dt_used);\n"), (SOL, "    /// Steps forward by `dt`\n    fn euler", "    /// moves states and time, then brings the derivatives up to date\n    fn finish(&mut self, delta: Vec<f64>, dt: f64) {\n        self.step_time(&dt);\n        self.step_states(delta);\n        self.update_derivs();\n    }\n    /// Steps forward by `dt`\n    fn euler"))
r("x-stage-helper-rk4", (SOL, """        let mut sys2 = self.bare_clone();
        sys2.set_derivs(&k2s);
        sys2.step_states_by_dt(&(dt / 2.));
        sys2.update_derivs();
        let k3s = sys2.derivs();

        // k4 = f(x_i + h, y_i + k3 * h)
        let mut sys3 = self.bare_clone();
        sys3.set_derivs(&k3s);
        sys3.step_states_by_dt(dt);
        sys3.update_derivs();
        let k4s = sys3.derivs();
""", """        let stage = |slope: &[f64], h: f64| -> Vec<f64> {
            let mut sys = self.bare_clone();
            sys.set_derivs(slope);
            sys.step_states_by_dt(&h);
            sys.update_derivs();
            sys.derivs()
        };
        let k3s = stage(&k2s, 0.5 * dt);
        let k4s = stage(&k3s, *dt);
"""))
r("x-rk4-recursive", (SOL, """        let mut delta: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta.push(1. / 6. * (k1 + 2. * k2 + 2. * k3 + k4) * dt);
        }
""", """        let weights = [1., 2., 2., 1.];
        let mut delta: Vec<f64> = vec![0.; k1s.len()];
        for (w, ks) in weights.iter().zip([&k1s, &k2s, &k3s, &k4s]) {
            for (d, k) in delta.iter_mut().zip(ks) {
                *d += w * k * dt / 6.;
            }
        }
"""))
r("x-bs-weights", (SOL, """        let mut delta2: Vec<f64> = vec![];
        let zipped = zip!(k1s, k2s, k3s, k4s);
        for (k1, (k2, (k3, k4))) in zipped {
            delta2.push((7. / 24. * k1 + 1. / 4. * k2 + 1. / 3. * k3 + 1. / 8. * k4) * dt);
        }
""", """        const B: [f64; 4] = [7. / 24., 0.25, 1. / 3., 0.125];
        let delta2: Vec<f64> = (0..k1s.len())
            .map(|i| {
                [&k1s, &k2s, &k3s, &k4s]
                    .iter()
                    .zip(B.iter())
                    .map(|(k, b)| k[i] * b)
                    .sum::<f64>()
                    * dt
            })
            .collect();
"""))
r("x-heun-states", (SOL, """        //steps states using the average derivative
        updated_self.step_states_by_dt(dt);
        //saving updated state
        let new_state = updated_self.states();
        //setting state to be the updated state
        self.set_states(new_state);
""", """        let new_state: Vec<f64> = updated_self
            .states()
            .iter()
            .zip(&deriv_mean)
            .map(|(x, d)| x + d * dt)
            .collect();
        self.set_states(new_state);
"""))
r("x-mean-iter", (SOL, """        if !self.history.is_empty() {
            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)
        } else {
            None
        }
""", """        match self.history.dt.as_slice() {
            [] => None,
            steps => Some(steps.iter().copied().sum::<f64>() / steps.len() as f64),
        }
"""))
r("x-mean-early", (SOL, """        if !self.history.is_empty() {
            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)
        } else {
            None
        }
""", """        let n = self.history.len();
        if n == 0 {
            return None;
        }
        let mut total = 0.;
        for i in 0..n {
            total += self.history.dt[i];
        }
        Some(total / n as f64)
"""))
r("x-accept-take", (SOL, """                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }
                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
""", """                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                let record = sc_mut.save.then(|| sc_mut.state.clone());
                if let Some(rec) = record {
                    sc_mut.history.push(rec);
                }
"""), nth={SOL: 0})
r("x-adapt-clamp", (SOL, "                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);\n", "                sc_mut.state.dt = f64::min(dt_coeff * dt_used, sc_mut.dt_max);\n"), nth={SOL: 0})
r("x-sc-matches", (A, """                match &self.solver_type {
                    SolverTypes::RK45CashKarp(sc) => Some(sc),
                    SolverTypes::RK23BogackiShampine(sc) => Some(sc),
                    _ => None,
                }""", """                match self.solver_type {
                    SolverTypes::RK45CashKarp(ref sc) | SolverTypes::RK23BogackiShampine(ref sc) => Some(sc.as_ref()),
                    SolverTypes::EulerFixed { .. }
                    | SolverTypes::HeunsMethod { .. }
                    | SolverTypes::MidpointMethod { .. }
                    | SolverTypes::RalstonsMethod { .. }
                    | SolverTypes::RK4Fixed { .. } => None,
                }"""))
r("x-setstates-zip", (A, """                let mut iter = val.iter();
                #(self.#fields_with_state.set_state(iter.next().unwrap().clone());)*""", """                let mut k = 0usize;
                #(
                    self.#fields_with_state.set_state(val[k]);
                    k += 1;
                )*"""))
r("x-states-vec-macro", (A, """                let mut states: Vec<f64> = Vec::new();
                #(states.push(self.#fields_with_state.state());)*
                states""", """                [#(self.#fields_with_state.state()),*].to_vec()"""))
r("x-derivs-chain", (A, """                let mut derivs: Vec<f64> = Vec::new();
                #(derivs.push(self.#fields_with_state.deriv());)*
                derivs""", """                std::iter::empty()
                    #(.chain(std::iter::once(self.#fields_with_state.deriv())))*
                    .collect()"""))
r("x-walk-end", (A, """                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""", """                let t_end = self.t_report[self.t_report.len() - 1];
                loop {
                    if !(self.state.time < t_end) {
                        break;
                    }
                    self.solve_step();
                    self.state.i = self.state.i + 1;
                    self.save_state();
                }"""))
r("x-diff-zipskip", (TM, """        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()""", """        self.iter().skip(1).zip(self.iter()).map(|(b, a)| *b - *a).collect()"""))
r("x-diff-loop", (TM, """        self.windows(2)
            .map(|vs| {
                let [x, y] = vs else {unreachable!()};
                y - x
            })
            .collect()""", """        let mut out = Vec::with_capacity(self.len().saturating_sub(1));
        for i in 1..self.len() {
            out.push(self[i] - self[i - 1]);
        }
        out"""))
r("x-flow-macro-bind", (TM, """            $sys.$s0.step_deriv(-$sys.$c.flow() / $sys.$s0.storage());
            $sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());""", """            let into = $sys.$c.flow() / $sys.$s1.storage();
            let out = $sys.$c.flow() / $sys.$s0.storage();
            $sys.$s1.step_deriv(into);
            $sys.$s0.step_deriv(-out);"""))
r("x-flow-neg-storage", (TM, "-$sys.$c.flow() / $sys.$s0.storage()", "$sys.$c.flow() / -$sys.$s0.storage()"))
