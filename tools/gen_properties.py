#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements, anchors)."""
import json, os
S="dess/src/solver.rs"; T="dess/src/traits_and_macros.rs"; M="dess/dess-proc-macros/src/"
E="dess-examples/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
FIX="Fixtures replay one three-mass system with one set of step sizes; the accuracy tests only print, they assert nothing, and the adaptive 2/3 fixture test is not stable."
p("P01","Every method applies its published Runge-Kutta scheme",
 "For each of the seven methods (Euler, Heun, midpoint, Ralston, classic RK4, Bogacki-Shampine 2/3, Cash-Karp 4/5), one step from any state with any step size changes the states by exactly that method's published weighted combination of stage derivatives, each stage derivative being taken at the published combination of the earlier ones. The adaptive methods advance with their higher-order result and estimate their error as the Euclidean norm of the difference between their published higher- and lower-order results.",
 ["inputs","programs"],"every system of equations, every number of states, every starting state and step size",FIX,
 [S],[("seven step methods",S),("embedded-pair stage evaluators",S)],observe=["states of a system after one step"])
p("P02","Every stage is evaluated at its own time",
 "In every method, each stage derivative is evaluated at step start time plus that stage's published fraction of the step (0, 1/2, 2/3, 3/4, 1, or for Cash-Karp 0, 1/5, 3/10, 3/5, 1, 7/8), so systems whose equations depend explicitly on time are integrated correctly.",
 ["inputs","programs"],"every time-dependent system, every method and stage","All asserting tests use an autonomous system, for which a wrong stage time has no effect at all.",
 [S,M+"solver_attr.rs"],[("stage evaluation on a trial copy whose clock is moved",S)],[("time","simulation clock","dess/src/lib.rs")],observe=["time seen by the user's derivative function"])
p("P03","A step advances the clock exactly once, by the step used",
 "After one step of any method the simulation clock has advanced by exactly the step size that was used to advance the states: the requested step for fixed-step methods, and the accepted step, which is also the value returned, for adaptive methods.",
 ["inputs","programs"],"every method, step size, retry count and system","Fixtures cover one run per method; a clock moved by a rejected or adapted step only shows after particular retry sequences.",
 [S,M+"solver_attr.rs"],[("clock stepping in the step methods",S),("generated step_time / step_states_by_dt",M+"solver_attr.rs")],observe=["state.time before and after a step","return value of the adaptive step methods"])
p("P04","Derivatives left by a step belong to the state and time it left",
 "When a step of any method returns, and in every record a run saves, the derivatives and flows held by the system are those its equations give for exactly the state values and time it then holds.",
 ["inputs","programs","histories"],"every method, system and run","Tests compare stored derivative columns for one autonomous system only.",
 [S,M+"solver_attr.rs"],[("final derivative update after the last state/clock change",S),("walk",M+"solver_attr.rs")],observe=["deriv columns of history","derivs() after a step"])
p("P05","Trial evaluations leave no trace",
 "Evaluating intermediate stages and rejecting trial steps never changes the real system's states, clock, report index, saved histories or settings; only the final accepted update does, and an adaptive step changes nothing in the solver settings other than its own step record.",
 ["inputs","histories"],"every method, every number of rejected trials","Needs a rejected trial or a non-default configuration to manifest; the tests have next to none of those.",
 [S,M+"bare_clone.rs"],[("stages run on history-free copies",S)],observe=["all fields of the system before/after a step"])
p("P06","No step passes the next report time or the configured step limit",
 "Every step taken while advancing is at most the time left to the next report time, and at most the configured step (fixed methods) or the configured maximum step (adaptive methods); a retry never uses a larger step than the trial it replaces.",
 ["inputs","configurations","histories"],"every report schedule, configured step, maximum step and tolerance","Fixtures use one regular schedule and never reach the maximum step.",
 [S,M+"solver_attr.rs"],[("solve_step clamping",M+"solver_attr.rs"),("adaptive clamping at step start",S)],observe=["step sizes used, from the clock and the step record"])
p("P07","The configured method, with its own step size, is the one that runs",
 "Advancing a system runs the step method selected by its solver setting with that setting's own parameters, for every setting, and the adaptive configuration is reachable (for reading and writing) exactly when the setting is one of the two adaptive methods, and is that setting's own configuration.",
 ["configurations"],"every solver setting and every system built with the solver macro","Exact fixtures exist for the example system only, and none that passes for the 2/3 method.",
 [M+"solver_attr.rs"],[("solve_step match",M+"solver_attr.rs"),("sc / sc_mut",M+"solver_attr.rs")],observe=["which method advances the system"])
p("P08","A run visits the report times in order and saves once at each",
 "A run keeps going exactly while the clock is before the last report time; for each report time in turn it steps until the clock has reached it, then moves the report index on by one, then saves exactly one record, so a run stopped early or given more report times continues where it was.",
 ["inputs","histories"],"every report schedule, initial clock and index, and resumed run","Tests run one fresh system over a regular schedule starting at zero.",
 [M+"solver_attr.rs"],[("walk and solve_step loops",M+"solver_attr.rs")],[("i","index of the next report time","dess/src/lib.rs")],observe=["history.time, history.i"])
p("P09","Saving a record covers the system and every marked component",
 "Saving appends the current values, exactly once each, to the history of the system itself and to the history of every component marked as holding state or as to-be-saved, whatever their number, order and names, and changes nothing else.",
 ["programs","inputs"],"every struct the macro can be applied to","Only one struct shape is exercised, and one test looks at three of its histories.",
 [M+"history_methods.rs"],[("derived save_state",M+"history_methods.rs")],observe=["len and last entries of every history"])
p("P10","History containers keep all columns aligned",
 "A history container holds one column per field of its record type; pushing appends each field's value to its own column, popping removes and returns the last record (or nothing when empty), clearing empties every column, a new container is empty, and length and emptiness report the number of records.",
 ["inputs","histories","programs"],"every sequence of operations on every record type","No test pops, clears, or checks all columns.",
 [M+"history_vec.rs"],[("derived HistoryVec",M+"history_vec.rs")],observe=["columns of every history container"])
p("P11","A bare copy is the system without its histories",
 "The bare copy of a system or component equals the original in every field, at every depth of marked components, except that the histories of the system and of its marked components are empty; the original is unchanged.",
 ["programs","inputs"],"every struct the macro can be applied to, every value","The one test checks only that three histories are empty on a default system.",
 [M+"bare_clone.rs"],[("derived bare_clone",M+"bare_clone.rs")],observe=["fields of the copy"])
p("P12","Vector views of the state agree on components and order",
 "Reading, setting or incrementing states or derivatives as vectors, reading storages, and resetting derivatives act on exactly the components marked as holding state, in declaration order, element k always meaning the same component; each operation affects only the quantity it names, and stepping states by a time step adds derivative times step to each state and advances the clock by the step.",
 ["programs","inputs"],"every struct the solver macro can be applied to, any number of components","One struct with three like components is exercised; several of the operations are never called.",
 [M+"solver_attr.rs",T],[("generated state-vector operations",M+"solver_attr.rs"),("default per-component operations",T)],observe=["states(), derivs(), storages()"])
p("P13","An adaptive trial is accepted exactly by the documented rule",
 "An adaptive step accepts a trial exactly when its absolute error norm is below the absolute tolerance, or its relative error norm (error divided by the norm of the update) is within the relative tolerance, or the update norm is zero and the error is within the absolute tolerance, or the trial limit is reached; what it then applies is that same trial's result.",
 ["inputs","configurations"],"every finite error estimate, update norm, tolerance pair and trial limit","The default tolerances exercise a few branches; rejection and the absolute branch are barely reached.",
 [S],[("break condition of both adaptive step methods",S)],[("norm_err","absolute error norm",S),("norm_err_rel","relative error norm, absent for a zero update",S)],observe=["accepted steps and their recorded norms"])
p("P14","Adaptive retries are bounded by the configured trial limit",
 "Each adaptive step starts counting trials from zero, counts every trial once, and ends after at most the configured maximum number of trials (at least one), whatever the errors and tolerances are.",
 ["inputs","configurations"],"every tolerance pair (including unreachable ones) and every trial limit","Needs tolerances that can never be met.",
 [S],[("n_iter reset, increment and bound",S)],[("n_iter","trials in the current step",S)],observe=["n_iter after a step"])
p("P15","The next step size follows the documented adaptation",
 "After a trial the working step is multiplied by (rtol / relative error)^0.2 if the relative tolerance is met, otherwise by (atol / error)^0.2 if the absolute tolerance is met, otherwise by 0.25, using (atol / error) with exponent 0.2 when met and 0.25 when not if the update norm is zero; the step carried to the next step is never larger than the configured maximum and is a usable finite number even when the error estimate is exactly zero.",
 ["inputs","configurations"],"every finite error estimate and tolerance pair","A zero error (system at rest) never occurs in the tests.",
 [S],[("dt_coeff and its application",S)],[("dt","working step size",S)],observe=["solver state dt after a step"])
p("P16","The adaptive step record is exact and complete",
 "When recording is on, each adaptive step appends exactly one record holding the step start time, the step size actually used, the number of trials, and the error norms of the accepted trial, with the states reached by the step if state recording is on as well; when recording is off nothing is appended.",
 ["inputs","configurations","histories"],"both recording flags, every retry sequence","No test turns recording on.",
 [S],[("history push before adapting dt",S)],observe=["solver history columns"])
p("P17","Connections move conserved quantity between exactly two components",
 "For every connection listed, the flow is computed from its two components in the listed order (source to sink positive), and the derivative update takes flow divided by storage from the first and adds flow divided by storage to the second; contributions of several connections to a component add up, starting from zero at every derivative update of the example systems.",
 ["programs","inputs"],"every list of connections, every component state, storage and flow","Exact fixtures pin one connection layout for one instance.",
 [T,E+"components.rs",E+"three_thermal_mass_sys.rs",E+"three_thrml_mass_w_bc_sys.rs"],[("connect_states! and update_derivs! macros",T)],observe=["derivs after an update"])
p("P18","Components obey their laws",
 "A thermal mass and a reservoir report and store temperature as the state and its rate as the derivative; incrementing adds to the current value; a reservoir has infinite storage and setting its derivative always leaves it zero; a conductance's flow is conductance times (source state minus sink state).",
 ["inputs"],"every component value and every sequence of operations","The reservoir and the increment operations have no asserting test.",
 [E+"components.rs",T],[("HasState and Flow implementations",E+"components.rs")],observe=["component getters"])
p("P19","Serialized form covers every field, and the reader expects the same fields",
 "For every serializable type of the library and the examples, writing emits every field, unconditionally and under its own name in declaration order, and reading back restores every field from the entry of the same name, rejecting input in which a non-optional field is missing (an optional field without an entry reads as empty), so that no setting, state or history is lost or invented by a save/load cycle in JSON, YAML or bincode.",
 ["inputs","programs"],"every value of every serializable type","Only fixture YAML for one system is ever read; nothing is written and JSON and bincode are never used.",
 ["dess/src/lib.rs",S,M+"history_vec.rs",M+"lib.rs",E+"components.rs"],[("common_derives and HistoryVec derives",M+"lib.rs"),("type definitions",S)],observe=["to_* / from_*"])
p("P20","File saving and loading select the format by the file suffix",
 "Saving writes the value itself to the named file as JSON for suffix json and as YAML for suffix yaml, loading reads the named file with the same table, any other or missing suffix is an error, and saving to an unsupported suffix creates or truncates nothing; in-memory conversions use the format they are named after in both directions.",
 ["inputs","fault_sequences"],"every file name and value","Only loading of .yaml is exercised.",
 [T],[("SerdeAPI",T)],observe=["file contents, returned errors"])
p("P21","Malformed or unreadable input is reported as an error, never a crash",
 "Loading from a file, JSON, YAML or bincode, and constructing an example system from Python with a textual solver setting, report unreadable, malformed or mismatching input, and saving reports I/O failures, through the returned error (a Python exception of an ordinary kind); none of them panics or silently substitutes a value.",
 ["inputs","fault_sequences"],"every byte string, file state and I/O failure","Tests only load well-formed fixtures.",
 [T,M+"pyo3_api.rs",E+"three_thermal_mass_sys.rs",E+"three_thrml_mass_w_bc_sys.rs"],[("? propagation in SerdeAPI and the generated Python methods",T)],observe=["Result / Python exception"])
p("P22","Python attributes read the field they are named after",
 "Every attribute that a Python-exposed type offers returns a copy of the field of that name, every field not explicitly opted out has such an attribute, reading changes nothing, and the two example systems' solver_conf and solver_type attributes give the active adaptive configuration (or none) and the JSON text of the solver setting.",
 ["programs","inputs"],"every field of every exposed type","The tests are built without the Python feature.",
 [M+"pyo3_api.rs",E+"three_thermal_mass_sys.rs"],[("generated getters",M+"pyo3_api.rs")],observe=["Python attributes"])
p("P23","Python methods do what their core counterparts do",
 "Each Python-exposed method (walk, default, len, dt_mean, clone, copy and deep-copy protocols, and the save/load family) is available under its documented name with a signature Python can call, and performs exactly the like-named core operation on the same object with the given arguments.",
 ["programs","inputs"],"every exposed type and method","The tests are built without the Python feature.",
 [M+"pyo3_api.rs",M+"history_vec.rs",S,E+"three_thermal_mass_sys.rs"],[("generated Python methods",M+"pyo3_api.rs")],observe=["Python method calls"])
p("P24","Python constructors store each argument in its own field",
 "Every Python constructor puts each argument into the field of the same meaning (initial step into the working step, initial temperature into the state, a solver text parsed into the solver setting, an adaptive configuration under the method the constructor is named after) and leaves all remaining fields at their defaults.",
 ["inputs"],"every argument combination","The tests are built without the Python feature.",
 [S,E+"components.rs",E+"three_thermal_mass_sys.rs",E+"three_thrml_mass_w_bc_sys.rs"],[("#[new] and classmethod constructors",S)],observe=["fields of constructed objects"])
p("P25","The Python module exports every type its users can get hold of",
 "Every class needed to construct, or obtainable by attribute access or method call from, a class that the Python module exports is itself exported by the module, and the example systems, components and adaptive configuration are exported.",
 ["programs"],"closure over all exposed attributes, constructors and methods","The module crate has no tests.",
 ["dess-examples-pyo3/src/lib.rs"],[("module initialiser",  "dess-examples-pyo3/src/lib.rs")],observe=["names in the Python module"])
p("P26","Stepping a system is deterministic and free of outside effects",
 "Running a system depends on nothing but the system's own fields and affects nothing but them: no clock, random source, environment, file, console, thread or global mutable state is reachable from any step method, run, copy, save-record or state operation.",
 ["programs","inputs"],"every path from the stepping interface","Two equal runs in one process cannot show absence of hidden inputs.",
 [S,T,M+"solver_attr.rs",E+"components.rs"],[("call graph of the stepping interface",S)],observe=["call graph"])
p("P27","Copies are independent of their original",
 "No system, component, record, history or solver configuration type shares mutable data between copies or threads: none of them contains shared-ownership, interior-mutable, raw-pointer or borrowed data at any depth, no mutable global exists, and the library contains no unsafe code of its own.",
 ["programs","histories"],"every type reachable from the public types","A sharing bug shows only when a copy is stepped and the original inspected afterwards.",
 ["dess/src/lib.rs",S,E+"components.rs"],[("type definitions","dess/src/lib.rs")],observe=["type graph"])
p("P28","Report-time grids and differences are exact",
 "A linear grid of n points from start to stop has n entries, entry k being start + k*(stop-start)/(n-1) (just start when n is one, nothing when n is zero); the difference of a sequence has one entry less, entry k being the next value minus the present one, and is empty for sequences shorter than two.",
 ["inputs"],"every start, stop, count and sequence","Only a few fixed grids are used; difference is never called.",
 [T],[("Linspace, Diff",T)],observe=["returned vectors"])
p("P29","Approximate equality is symmetric and honours its tolerance",
 "Two finite numbers are approximately equal exactly when the magnitude of their difference, or of their difference relative to their sum, is below the tolerance, which is the given one or 1e-8 when none is given; exchanging the two numbers never changes the answer.",
 ["inputs"],"every pair of finite numbers and tolerance","The function has no test.",
 ["dess/src/utilities.rs"],[("almost_eq","dess/src/utilities.rs")],observe=["returned bool"])
p("P30","The mean step size is the mean of the recorded step sizes",
 "The mean step of an adaptive configuration is the arithmetic mean over all recorded step sizes, and absent when nothing was recorded.",
 ["inputs","histories"],"every record history","The function has no test.",
 [S],[("dt_mean",S)],observe=["dt_mean()"])
p("P31","Misuse of the macros is rejected at compile time, documented use compiles",
 "A solver system without a derivative-update function, or with any other function in that place, a record-saving derive on a type with neither a state nor a marked component, non-function items or a reserved function name in a Python method list, and a marked component lacking the component interface do not compile; the documented helper attributes do.",
 ["programs"],"every program using the macros","Tests contain only programs that compile.",
 [M+"utilities.rs",M+"solver_attr.rs",M+"history_methods.rs",M+"pyo3_api.rs",M+"lib.rs"],[("parse_ts_as_fn_defs and abort!/emit_error!",M+"utilities.rs")],observe=["compiler verdict"])
p("P32","Running the example program rewrites reference data only on request",
 "The example program accepts every argument list without crashing on it, and writes a reference file only if its first argument is the word true, and each benchmark file is written only with the finished run of the method the file is named after; apart from the explicit save operation, no library code creates, writes or deletes files.",
 ["inputs","programs"],"every argument list","The tests never run the program.",
 [E+"main.rs",E+"three_thermal_mass_sys.rs",T],[("overwrite flags",E+"main.rs")],observe=["files written"])
p("P33","Stepping never panics on a well-formed system",
 "For a system whose state holds every marked component and whose report schedule is non-empty, no step method, record saving, copy or state operation contains a reachable panic: adaptive methods are only entered with an adaptive setting, every unwrapped value is always present there, the trial counter cannot overflow, and the report index stays inside the schedule during a run.",
 ["inputs","configurations"],"every configuration and state, including trial limits 0 and 255 and zero updates","Panics on rare branches need particular configurations to fire.",
 [S,M+"solver_attr.rs"],[("unwrap / index / unreachable sites",S)],observe=["panic sites"])
p("P34","Every method has its stated order of accuracy",
 "Euler is accurate to order 1, Heun, midpoint and Ralston to order 2, RK4 to order 4, Bogacki-Shampine to order 3 and Cash-Karp to order 5 in its accepted update: the update one step makes satisfies every Runge-Kutta order condition up to that order, and each stage's clock offset equals its state offset, so for every smooth problem, autonomous or not, the error of a step shrinks as the step to the power of the order plus one.",
 ["inputs","programs"],"every smooth system of equations, every number of states","Accuracy tests print instead of asserting, for two time-independent problems.",
 [S],[("step methods",S)],observe=["states after a step as the step size is halved"])
p("P35","Runs make progress and land on their report times",
 "Rounding aside: with a positive step, every pass of a fixed-step run moves the clock by exactly the smaller of the step and the time left to the next report time, so it advances, never passes a report time, and stops stepping exactly on it; each pass of the run loop moves on to the next report time and the run ends at the last one. An adaptive step starts with at most the time left, moves the clock by exactly the step it accepts, and tries at most the configured number of times.",
 ["inputs"],"every positive step size, increasing schedule and system","One schedule with equal spacing is exercised.",
 [M+"solver_attr.rs",S],[("walk and solve_step loops",M+"solver_attr.rs"),("step methods",S)],observe=["clock and report index after each step and record"])
p("P36","Text save/load restores floating-point values bit for bit",
 "A finite floating-point value written to JSON or YAML text and read back is the same value, to the last bit.",
 ["inputs"],"every finite double","Only fixture YAML is read.",
 [T],[("SerdeAPI",T)])
p("P37","The stored quantity of a closed system is conserved",
 "In a system whose components are joined by connections, the sum over the state components of storage times rate of change is zero after every derivative update (with a boundary of unlimited storage: it equals the flow out of the boundary), and one step of any method changes every state by the same combination of derivative evaluations. Rounding aside, the storage-weighted sum of the states of a closed system is therefore the same at every record of a run.",
 ["inputs","histories"],"every closed connected system, its states, storages and conductances, and run length","No test sums the stored quantity.",
 [T,S,E+"components.rs",E+"three_thermal_mass_sys.rs",E+"three_thrml_mass_w_bc_sys.rs"],[("update_derivs!",T),("step methods",S)],observe=["storage-weighted sum of states"])
p("P38","Equality, ordering and copies take every field into account",
 "For every record, component, history, configuration and system type: two values are equal exactly when all their fields are (and, for a solver setting, it is the same method), and unequal exactly otherwise; ordering compares the fields in declaration order with the first difference deciding; cloning gives a value equal to the original in every field and leaves the original unchanged.",
 ["inputs","programs"],"every pair of values (finite numbers), including histories of any length","Only one comparison of whole histories is asserted, always between equal values.",
 [M+"lib.rs",M+"history_vec.rs",S,"dess/src/lib.rs",E+"components.rs"],[("common_derives",M+"lib.rs"),("generated history containers",M+"history_vec.rs")],observe=["==, partial_cmp, clone"])
p("P39","Defaults and ready-made systems can be run as they are",
 "A default value is fit for a run: histories are empty, clock, report index and trial count are zero, error figures absent; default step sizes, tolerances and step limits are above zero, the working step is within the limit and at least one trial is allowed. The example systems' defaults and the ready-made systems also have storages and conductances above zero and a non-empty, strictly increasing schedule starting at or after zero, and each ready-made system carries the method its name says.",
 ["programs","configurations"],"every type with a default and every ready-made system","Defaults are used as fixtures, but nothing asserts what they are.",
 [S,"dess/src/lib.rs",E+"three_thermal_mass_sys.rs",E+"three_thrml_mass_w_bc_sys.rs"],[("Default implementations",S),("mock_*_sys",E+"three_thermal_mass_sys.rs")],observe=["default values"])
p("P40","The shipped Python scripts use only what the module offers",
 "Every class the Python demo scripts import exists in the module, every constructor and method call passes a number of arguments it accepts, every attribute they read or set is exposed as readable or settable, and every solver configuration they hand over as text names an existing method with exactly its settings.",
 ["programs"],"every statement of every shipped script, including branches not taken by default","No test runs the Python scripts.",
 ["python",M+"pyo3_api.rs",S,E+"three_thermal_mass_sys.rs",E+"three_thrml_mass_w_bc_sys.rs",E+"components.rs"],[("generated Python classes",M+"pyo3_api.rs")],observe=["AttributeError / TypeError / ValueError from the scripts"])
p("P41","The helper macros do what they say",
 "`time_it!` evaluates its expression exactly once and gives the time from just before to just after that evaluation; `zip!` of any number of collections yields their elements position by position, in argument order.",
 ["inputs","programs"],"every timed expression, collections of every length","No test uses the result of time_it!; zip! is only used with three-element vectors.",
 [T],[("time_it!",T),("zip!",T)],observe=["duration, effects of the timed expression, zipped tuples"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
