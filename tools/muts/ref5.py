"""behaviour-keeping edits, fifth collection: items moved to other modules (re-exported where they were)"""
exec(open("/verif/tools/muts/ref4.py").read().split("BS = cut")[0])
def wrap(name, f, a, b, mod, uses="use crate::imports::*;\nuse super::*;", n=0, pub="pub mod", reexport="pub use %s::*;"):
    t = cut(f, a, b, n)
    r(name, (f, t, "%s %s {\n    %s\n%s}\n%s\n" % (pub, mod, uses, t, reexport % mod)))
wrap("w-move-config", SOL, "#[pyo3_api(\n    #[new]", "pub trait SolverBase", "config")
wrap("w-move-config-private-mod", SOL, "#[pyo3_api(\n    #[new]", "pub trait SolverBase", "config", pub="mod")
wrap("w-move-solverbase", SOL, "pub trait SolverBase", "pub trait SolverVariantMethods", "base", uses="use super::*;")
s_ = src(SOL); k_ = s_.index("pub trait SolverVariantMethods"); t_ = s_[k_:]
r("w-move-variant-methods", (SOL, t_, "mod methods {\n    use super::*;\n" + t_ + "}\npub use methods::*;\n"))
r("w-move-solvertypes", (SOL, cut(SOL, "#[common_derives]\npub enum SolverTypes", "#[pyo3_api("), "mod types {\n    use super::*;\n" + cut(SOL, "#[common_derives]\npub enum SolverTypes", "#[pyo3_api(") + "}\npub use types::*;\n"))
wrap("w-move-hasstate", TM, "pub trait HasState {", "pub trait Flow", "state", uses="use super::*;")
wrap("w-move-diff-flow", TM, "pub trait Flow", "pub trait SerdeAPI", "flow", uses="#[allow(unused)]\n    use super::*;")
wrap("w-move-serdeapi", TM, "pub trait SerdeAPI", "pub trait Linspace", "files", uses="use super::*;")
s_ = src(TM); k_ = s_.index("pub trait Linspace"); t_ = s_[k_:]
r("w-move-linspace", (TM, t_, "pub mod grids {\n" + t_ + "}\npub use grids::*;\n"))
s_ = src(UT)
r("w-move-almost-eq", (UT, s_, "pub mod compare {\n" + s_ + "}\npub use compare::*;\n"))
wrap_t = cut(LIB, "#[derive(Copy, HistoryVec, Default)]", "    pub time: f64,\n}\n") + "    pub time: f64,\n}\n"
r("w-move-systemstate", (LIB, wrap_t, "pub mod clock {\n    use super::*;\n" + wrap_t + "}\npub use clock::*;\n"))
s_ = src(CO); k_ = s_.index("/// ThermalMass component"); t_ = s_[k_:]
r("w-move-components", (CO, t_, "pub mod thermal {\n    use super::*;\n" + t_ + "}\npub use thermal::*;\n"))
wrap("w-move-reservoir", CO, "/// ThermalReservoir component", "/// State for tracking temperature", "reservoir", uses="use super::*;")
wrap("w-move-3tm", S1, "/// System of connected components", "#[cfg(test)]", "system", uses="use super::*;")
wrap("w-move-bc", S2, "/// System of connected components", "#[cfg(test)]", "system", uses="use super::*;") if "#[cfg(test)]" in src(S2) else None
wrap("w-move-mocks", S1, "pub fn mock_euler_sys", "#[cfg(test)]", "mocks", uses="use super::*;")
OWN = False
