#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json
T = {
 "C01": "property-based testing: random patterns and strings against a reference regular-language automaton",
 "C02": "property-based testing: random pattern lists against a reference longest-match tokenizer",
 "C03": "property-based testing: partition invariant over random pattern lists, inputs and item types",
 "C04": "property-based testing: recording sources, read-ahead bound from a reference automaton",
 "C05": "property-based testing: warnings against pairwise intersection in a reference automaton",
 "C06": "property-based testing: random valid, unsupported and damaged patterns against the regex syntax tree",
 "C07": "property-based testing, differential: generated tokenizer! programs compiled and compared with the builder",
 "C08": "property-based testing: structural invariants and partition refinement over random tokenizers' tables",
 "C09": "stateful property-based testing: random histories of builds, runs and interleavings",
 "C10": "property-based testing: random LR(1) grammars and inputs against an Earley recogniser",
 "C11": "property-based testing: reducer-call log checked as a derivation tree",
 "C12": "property-based testing, differential: warnings against an independent canonical LR(1) construction",
 "C13": "property-based testing, differential: conflicting grammars against a reference LR(1) automaton",
 "C14": "property-based testing with injected faults: the k-th reducer call fails",
 "C15": "property-based testing: first impossible token from an Earley recogniser, reads counted",
 "C16": "property-based testing, metamorphic: grammar with and without error alternatives",
 "C17": "property-based testing: damaged sentences against a reference model of error recovery",
 "C18": "property-based testing and fuzzing: random grammars and inputs under time, memory and call budgets",
 "C19": "property-based testing, metamorphic: construction routes, payloads, renumbering and reuse",
 "C20": "property-based testing, differential: generated parser! programs compiled and compared with the builder",
 "C21": "property-based testing: generated invocations with one mistake, compiled with and without it",
 "C22": "property-based testing: random sessions of the example program against a reference evaluator",
 "C23": "property-based testing, differential: public tables walked in step with an independent canonical LR(1) automaton",
 "C24": "property-based testing with injected faults under AddressSanitizer, live bytes and objects counted",
 "C25": "property-based testing: laws of equality, order and hashing over rules written in random ways",
 "C26": "property-based testing: tokenizer and parser chained, against reference tokenizer and reference parser",
 "C27": "property-based testing: laws of equality, order, hashing and borrowing over random keys, lookups in real tables",
 "C28": "property-based testing, differential: warnings printed while generated invocations compile, against the run-time builder's",
}
N = {
 "C07": "Samples invocations: about 1,500 compiled per quick run, automata of at most 900 transitions; trusts rustc.",
 "C20": "Samples invocations: 800 compiled per quick run, at most 90 LR states; names denote distinct kinds; trusts rustc.",
 "C21": "Samples invocations and 18 kinds of mistakes; trusts rustc's error locations.",
 "C22": "Samples sessions; the oracle is an independent lexer and recursive-descent evaluator using the same f64 operations.",
 "C24": "Samples tokenizers and parsers (at most 600 states, 3,000 LR(1) items); AddressSanitizer does not see violations of aliasing rules; shrinking runs every candidate in a process of its own.",
 "C25": "Samples rules of at most 46 symbols; the order itself is free, only its laws are checked.",
 "C26": "Samples grammars, patterns and texts (at most 400 characters); no pattern matches the empty string; trusts the reference automata.",
 "C27": "Samples ranges, symbols and tables of pattern lists; hashes under the standard library's hasher only.",
 "C28": "Samples invocations, 1,000 compiled per quick run; that the builder's own warnings are right is decided by C05 and C12.",
}
tok = "Samples patterns (syntax trees of bounded size, automata of at most 260 states) and inputs; trusts regex-syntax's parser and the reference automaton; empty sub-expressions are left out (known finding)."
par = "Samples grammars (at most 9,000 LR(1) items) and inputs; trusts the reference Earley and LR(1) implementations; inputs whose recovery re-parses for more than 40,000 steps are left out."
checks = []
for p, t in T.items():
    note = N.get(p) or (tok if p < "C10" else par)
    checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s --thorough" % p, "technique": t, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": []}, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
