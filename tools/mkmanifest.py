#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = " Monitoring shows the absence of violations on the executions run, not on all; it trusts the Go toolchain and the reference model in harness/model (written from the property text and draft-04, not from the code)."
T = {
 "C01": ("runtime verdict monitor against a reference model, directed boundary workload", "Every judged call is an execution of the real constraint compared with an independent evaluator; all rule subsets and orders, values at and beside every bound."),
 "C02": ("runtime verdict monitor against a reference model, directed boundary workload", "Strings at each length bound in several scripts, pattern and enum members and near misses, all Go string types and pointers."),
 "C03": ("runtime verdict monitor against hand-written format recognisers", "Grammar-generated well-formed values and single-fault malformed ones; values on which authorities disagree are left open by the recognisers."),
 "C04": ("runtime verdict monitor against a reference model plus recording probe constraints", "Probes record which elements each rule was given, so that reach is observed and not inferred."),
 "C05": ("runtime verdict monitor against a reference model plus recording probe constraints", "Probes record which properties each rule was given."),
 "C06": ("runtime verdict monitor against a reference model", "Triggers and targets in all roles (declared, pattern, additional), present and absent."),
 "C07": ("runtime verdict monitor against boolean semantics with scripted children", "All truth assignments of up to 4-5 children per combinator are enumerated, deeper nestings sampled."),
 "C08": ("runtime verdict monitor with recording resolvers, history checker for constraint maps", "Histories of failed lookups, registration and use; recursive data; maps compared with a plain map."),
 "C09": ("before/after state monitor against a reference fill-in model", "The whole input is compared before and after each validation, accepted or rejected, for maps, nested values and structs."),
 "C10": ("differential runtime monitor: struct against the map it represents", "Struct types are made at run time with random tags, Maybe fields and embeddings."),
 "C11": ("online state-machine monitor over operation histories", "The full observable state is compared with the model after each operation."),
 "C12": ("runtime verdict monitor against a draft-04 reference evaluator", "Random typed schemas with all keywords in random key order; schema snapshots before and after building."),
 "C13": ("runtime verdict monitor against a reference evaluator that resolves references itself", "Documents full of references, chains, recursion; bad references and loops must give errors."),
 "C14": ("runtime verdict monitor against a reference evaluator of implied kinds", "All single keywords and pairs, then random sets, judged on values of every kind."),
 "C15": ("differential execution of compiled generated code and its origin", "Every program is compiled and run beside the original on directed inputs; typed dumps of the inputs afterwards are compared."),
 "C16": ("output monitor across repetitions and processes, fault-injecting writers", "Bytes compared between repetitions, rebuilt validators, histories and processes; a failure is injected at every write and at sampled byte positions."),
 "C17": ("panic, stack-exhaustion and hang monitor under hostile workloads", "A hang is a call that needs over 150 s where microseconds are normal. Stack exhaustion and fatal errors are taken from the process's end."),
 "C18": ("history monitor: verdict and state compared with a fresh validator's", "Histories of 20-60 operations over up to 4 validators; validators compared through their generated source."),
 "C19": ("Go race detector, deadlock and verdict monitors over stress sections with injected delays", "Race detection is per execution; schedules are those the Go scheduler and injected delays produce, counted as distinct interleavings in the evidence."),
 "C20": ("Go race detector, real-time-order trace checker, porcupine linearizability checker", "Offline checker over recorded events; clocks with and without synchronisation; porcupine on constraint map histories."),
 "C21": ("Go race detector, differential answer monitor over concurrent and faulty HTTP clients", "Each answer compared with the library's own result; clients that break off are injected."),
 "C22": ("differential monitor of the built command with output faults", "Exit status, message and bytes are observed from outside the process."),
 "C23": ("regenerated sources run under the monitors of C11, C10, C09 and a compiled differential", "The generators are executed and their output is compiled in the library's place through an overlay."),
 "C24": ("the monitors of C01-C18 rebuilt and run with the debug tag, tracing on and off", "Differential to the ordinary build: what fails in both is the other property's business."),
 "C25": ("runtime message monitor over values with exactly one planted fault", "The path of the fault is known by construction; one validator judges its faulty and good values in random order and concurrently."),
 "C26": ("runtime state-model monitor: the accessors are read after every step of random configuration histories on several objects", "A model keeps what each object was told; reads are compared with it after every configuring call, validation and generation."),
}
checks = []
for i in sorted(T):
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech,
        "level": "translation_validation" if i == "C15" else "exploration", "level_note": note + COMMON})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
  "notes": "No hooks: the monitors observe the public API, the built commands and the generated sources. See DESIGN.md and known_findings.txt."},
  open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
