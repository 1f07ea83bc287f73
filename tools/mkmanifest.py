#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = dict(
 C01="property-based testing: generated expressions against a reference evaluator", C02="property-based testing: generated string expressions against a reference evaluator",
 C03="property-based testing: one numeral through every conversion route, against a reference and each other", C04="property-based testing: generated IF lines against a reference interpreter",
 C05="model-based testing: generated loop histories against a reference FOR stack", C06="property-based testing: generated control-flow graphs against a reference interpreter",
 C07="model-based testing: array operation histories against a map", C08="model-based testing: generated (also colliding) names against a map",
 C09="property-based testing: generated DATA layouts against a reference interpreter", C10="model-based testing: INPUT dialogues against a reference interpreter",
 C11="property-based testing: print lists against a reference column model", C12="model-based testing: DEF histories against a reference interpreter",
 C13="fuzzing: structure-aware mutation and coverage-guided fuzzing under ASan/UBSan", C14="fuzzing: generated sessions and coverage-guided fuzzing under ASan/UBSan, with liveness probes",
 C15="stateful model-based testing: edit histories against a sorted map", C16="property-based testing: SAVE/LOAD round trip and malformed files, with injected write failures",
 C17="metamorphic testing: program before and after RENUM, and a reference renumbering", C18="schedule exploration: breaks injected at generated instants, output compared with the uninterrupted run",
 C19="stateful differential testing: sessions with and without failing statements", C20="stateful model-based testing: sessions against a reference monitor",
 C21="metamorphic testing: blanks removed around keywords", C22="metamorphic testing: layout and case rewritings",
 C23="differential testing: mutated programs against a reference recogniser, four ways of checking syntax", C24="fault injection into generated programs against a reference interpreter",
 C25="metamorphic testing: option combinations, reference trace, allocation balance", C26="property-based and metamorphic testing of RND sequences",
 C27="metamorphic testing: one program run in several ways after generated histories", C28="property-based testing: listings against the generator's own lines and names",
 C29="stateful model-based testing: sessions against a reference monitor, with system() replaced by a recorder", C30="metamorphic and property-based testing of generated command lines",
 C31="fault injection: a generated allocation failure in generated programs and sessions, compared with the undisturbed run",
 C32="property-based testing: complete programs on generated data against answers computed independently; metamorphic renaming, renumbering, layout and way of running",
 C33="schedule exploration: a break injected at a generated instant, the outcome compared with every instant of the reference interpreter's execution")
NOTE = "No counterexample among the generated cases (counts, non-trivial rule and samples are in the evidence file); not a proof. Trusts the reference model in lb/lang.py, lb/parse.py and lb/session.py (written from the manual), the C library's strtod/printf/libm, and the fork server in harness/."
EX = dict(C13=" The oracle is the sanitizers, the exit status and a CPU limit.", C14=" The oracle is the sanitizers, the exit status, and a probe statement that must still work at the end of each session.",
 C18=" Break instants are enumerated as counts of function entries in the interpreter while breaks are trapped.")
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -m lb.build",
 checks=[dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i, technique=T[i], level="exploration", level_note=NOTE + EX.get(i, "")) for i in ids],
 not_applicable=[], notes="No hooks in /repo: the harness compiles the unchanged sources with its own main (harness/). fix: commits are listed in KNOWN_FINDINGS.")
json.dump(m, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
