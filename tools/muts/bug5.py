exec(open("/verif/tools/muts/ref3.py").read().split("M = []")[0])
OWN = True
M = [
 dict(name="d40-skip-get-c", prop="P40", edits=[(CO, "    /// thermal capacitance \\[J/K\\]\n    pub c: f64,\n    pub state: ThermalMassState,\n    pub history: ThermalMassStateHistoryVec,", "    /// thermal capacitance \\[J/K\\]\n    #[skip_get]\n    pub c: f64,\n    pub state: ThermalMassState,\n    pub history: ThermalMassStateHistoryVec,")]),
 dict(name="d40-rename-variant", prop="P40", edits=[(SOL, "    MidpointMethod { dt: f64 },", "    #[serde(rename = \"Midpoint\")]\n    MidpointMethod { dt: f64 },")]),
 dict(name="d40-rename-setting", prop="P40", edits=[(SOL, "    HeunsMethod { dt: f64 },", "    HeunsMethod {\n        #[serde(rename = \"step\")]\n        dt: f64,\n    },")]),
 dict(name="d40-snake-case", prop="P40", edits=[(SOL, "pub enum SolverTypes {", "#[serde(rename_all = \"snake_case\")]\npub enum SolverTypes {")]),
 dict(name="d40-bc-ctor-order", prop="P40", edits=[(S2, "        m2: ThermalMass,\n        h12: Conductance,\n        m3: ThermalMass,\n", "        m2: ThermalMass,\n        m3: ThermalMass,\n        h12: Conductance,\n")], nth={S2: 0}),
 dict(name="d40-arg-renamed", prop="P40", edits=[(SOL, "        save_states: Option<bool>,\n    ) -> Self {", "        keep_states: Option<bool>,\n    ) -> Self {"), (SOL, "            save_states: save_states.unwrap_or(false),", "            save_states: keep_states.unwrap_or(false),")]),
 dict(name="d40-kwonly", prop="P40", edits=[(CO, "    #[new]\n    /// New thermal mass", "    #[new]\n    #[pyo3(signature = (c, *, temp0))]\n    /// New thermal mass")]),
 dict(name="d40-maxiter-required-save", prop="P40", edits=[(SOL, "        save: Option<bool>,\n", "        save: bool,\n"), (SOL, "            save: save.unwrap_or(false),", "            save,")]),
 dict(name="d40-not-added", prop="P40", edits=[(PY, "    m.add_class::<ThermalReservoir>()?;\n", "")]),
 dict(name="d40-static-ctor", prop="P40", edits=[(S1, "    fn new_rk23_bogacki_shampine(", "    #[pyo3(name = \"rk23_bogacki_shampine\")]\n    fn new_rk23_bogacki_shampine(")]),
]
