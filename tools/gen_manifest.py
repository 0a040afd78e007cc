#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Decided statically from the compiler's MIR of the current tree (no execution). Trusted: the transfer functions for std operations, real-number arithmetic "
        "(rounding ignored), the compiler's own name/type resolution. Obligations that the analysis cannot decide are listed as undecided in the evidence and give no verdict. ")
CHECKS = {
    "P01": ("abstract interpretation of MIR (gated polynomial value numbering) against published tableaux", "Each step method's symbolic state update equals its tableau's."),
    "P02": ("abstract interpretation of MIR: time argument of every derivative evaluation", "Stage abscissae per tableau; derivative evaluation is an uninterpreted function of (states, time)."),
    "P03": ("abstract interpretation of MIR: clock effect of every step method", "Clock advance equals the applied step, generic and per system."),
    "P04": ("abstract interpretation plus must-dataflow (derivative freshness typestate)", "One known finding: see known-findings.txt."),
    "P05": ("abstract interpretation of MIR: frame (modified-fields) analysis of the step methods", "Everything but the documented results is syntactically the entry value."),
    "P06": ("abstract interpretation of MIR: step-size clamp and retry monotonicity", "Bounds on the step given to each method and used by each trial."),
    "P07": ("abstract interpretation of generated MIR: per-variant dispatch summary", "All variants, all example and probe systems."),
    "P08": ("loop summaries of the generated run loops (abstract interpretation)", "Loop conditions and one-pass effects; termination is not claimed."),
    "P09": ("abstract interpretation of generated MIR: append effects on history columns", "Example and probe systems; the generated code is analysed after macro expansion, so the macro is decided per shape of system, not for all token streams."),
    "P10": ("abstract interpretation of generated MIR: column effects of the history containers", "All history types of the library, examples and probe crate."),
    "P11": ("abstract interpretation of generated MIR: field-wise comparison of the copy with its original", "Example and probe types."),
    "P12": ("abstract interpretation of generated MIR: element-wise effect of the vector operations", "Example and probe systems."),
    "P13": ("gated value numbering of the acceptance condition", "Exit condition of the trial loop compared as a decision diagram with the documented rule."),
    "P14": ("scalar-evolution of the trial counter at the loop header", "Counter starts at zero, +1 per trial, bound in the exit condition."),
    "P15": ("gated value numbering of the step-size update", "Every branch of the adaptation rule compared with the documented one."),
    "P16": ("abstract interpretation: effect on the solver history columns", "Exactly one entry per column when recording, none otherwise."),
    "P17": ("abstract interpretation of MIR: symbolic effect of the connection macros against the connection table", "Connection tables of the example and probe systems are restated in the check."),
    "P18": ("abstract interpretation of MIR: symbolic effect of every component operation against its law", "Example components."),
    "P19": ("abstract interpretation of the serde-derived (and hand-written) serialize/deserialize bodies against an entry model", "Serde's data model is the oracle: which entries are written and read; number formatting is P36 (not claimed)."),
    "P20": ("abstract interpretation of the file operations: format table and effect trace per suffix", "std::fs and the serde format crates are modelled by their documented contracts."),
    "P21": ("abstract interpretation: reachable panics and error outcomes of loading, saving and parsing", "Every modelled failure of the file system and the parsers is followed to the returned value."),
    "P22": ("registration table of the Python classes from generated code, each getter interpreted", "pyo3's own trampolines are trusted."),
    "P23": ("registration table of the Python classes; each method's effect compared with its core counterpart's", "pyo3's own trampolines are trusted."),
    "P24": ("abstract interpretation of every Python constructor: argument-to-field flow", "pyo3's own trampolines are trusted."),
    "P25": ("reachability over exposed types against the module's registration calls", "Types obtainable through getters, methods and constructor arguments."),
    "P26": ("interprocedural effect analysis over the resolved call graph", "Trait-object and generic calls are resolved to every implementation; Python-facing wrappers are not roots."),
    "P27": ("sharing analysis over the type graph, plus inventory of mutable statics and unsafe code", "Types at every depth, including those of dependencies."),
    "P28": ("abstract interpretation of MIR with loop summaries, closed-form comparison", "Symbolic number of points/entries plus sizes 0, 1, 2, 4, 5."),
    "P29": ("gated value numbering: decision diagram of almost_eq against the documented one", "Finite arguments, real arithmetic."),
    "P30": ("abstract interpretation of MIR: closed form of the mean over symbolic columns", "Symbolic number of records plus 0, 1, 3."),
    "P31": ("compile-fail and compile-pass witnesses: the compiler's verdict on misuse programs and their compiling twins", "Each misuse class is represented by its witnesses; the verdict for other programs of the class is by the shared branch of the macro."),
    "P32": ("interprocedural effect analysis (file writes) plus abstract interpretation of the example program", "std::env and std::fs are modelled by their documented contracts."),
    "P34": ("gated polynomial value numbering of MIR, method coefficients read off and judged by the rooted-tree order conditions", "Independent of the published tableaux used by P01/P02; smoothness of the problem is assumed."),
    "P35": ("loop summaries of the generated run loops with the step methods' real bodies; loop-exit and progress facts", "Real arithmetic: steps below the clock's resolution are outside the property."),
    "P37": ("abstract interpretation of MIR: conservation as a polynomial identity, uniformity of the step's linear combination", "Connection tables of the example and probe systems are restated in the check."),
    "P38": ("abstract interpretation of the (derived or written) comparison and clone bodies on two symbolic values", "Types are treated one level at a time: the comparison of a nested user type is one opaque outcome, itself an obligation."),
    "P39": ("abstract interpretation of every Default body and ready-made constructor, predicate over the computed value", "Example systems and library types; the default of a user's system is the user's."),
    "P40": ("type-state flow of module objects through the scripts' syntax trees against the compiled registration tables and compiled serde readers", "Objects are followed through names, attributes, calls and branches; objects passed through containers built at run time or third-party calls carry no obligations."),
    "P41": ("abstract interpretation of macro expansions with a ghost clock", "Expansions in the probe crate."),
    "P33": ("abstract interpretation of MIR: reachability condition of every panic site, loop invariants for counter and index", "Well-formedness as stated; example and probe systems for generated code, every number of states for the step methods."),
}
NA = {
    "P36": "bit-exact text round trip is a property of serde_json/serde_yaml's number formatting (dependencies), not of this repository's source",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
for i in ids:
    if i not in CHECKS and i not in NA:
        NA[i] = "check under construction"
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i, "technique": CHECKS[i][0],
                 "level": "other", "level_note": BASE + CHECKS[i][1]} for i in ids if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "All checks are static analyses; ./check setup builds the compiler driver and dumps the program once. No hooks in /repo."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
