#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
 "C01": ("property-based testing: random typed values, encode/decode round trip", "Random values of every type of a schema pool covering all declarable types, plus the Parquet types. Trusts the expected Debug rendering (derived in the library) and the reference value model."),
 "C02": ("property-based testing: differential against a reference encoder", "Byte-for-byte comparison with an independent encoder written from the protocol specification."),
 "C03": ("property-based testing: metamorphic re-encoding with random legal spellings", "Every spelling freedom of the protocol is drawn independently at every place of a random message; values of the canonical and the alternative spelling are compared."),
 "C04": ("property-based testing: metamorphic insertion of unknown fields; exact skip lengths against generated encodings", "Unknown content of any type and shape up to depth 6 at random places; skip lengths known by construction."),
 "C05": ("fuzzing: random, structured-damaged and hostile inputs in guarded memory, checked and optimised builds", "Random search with crash, panic, hang and out-of-bounds read detection (the input ends or begins at an inaccessible page). No sanitizer in the quick tier; the thorough tier runs larger counts."),
 "C06": ("property-based testing: differential, slice input against arbitrarily split streams", "Same inputs through both implementations, valid, damaged and random; splits are generated."),
 "C07": ("property-based testing: truncation at every byte of random messages", "All cut points of each generated message (sampled above 160 bytes)."),
 "C08": ("property-based testing: random single schema violations with a predicted error", "One violation of a chosen class is planted at a random place of a random valid message; the exact error is predicted."),
 "C09": ("property-based testing: boundary-directed lengths with allocation tracking", "Lengths drawn around the limits and over the whole varint range on all paths; peak allocation is measured by a counting allocator."),
 "C10": ("property-based testing: I/O fault injection at every byte of random messages", "Every fault position of each generated message, all error kinds, interrupted calls and short transfers on reader and writer."),
 "C11": ("property-based testing: differential against parquet.thrift reference model", "All Parquet types against a model parsed from a transcription of parquet.thrift kept in /verif; constants compared one by one."),
 "C12": ("property-based testing: model-based (set of small integers)", "Random lists and operation results against an explicit set."),
 "C13": ("property-based testing: random files, positions, splits and damages", "Random files around the footer, all footer damages, seek and read faults."),
 "C14": ("property-based testing: model-based range computation, random files", "Random metadata with extreme numbers against a wide-integer model; chunk bytes compared with the file, which is finite and in memory."),
 "C15": ("property-based testing: random page index layouts against a model, random damages", "Entries laid out at random positions; every damage class must be refused without panic."),
 "C16": ("property-based testing: random pairs of messages against a merge model", "Second fill over an existing value is compared with a reference merge; clones taken before must not change."),
 "C17": ("property-based testing: stateful operation sequences against a reference model", "Random sequences of up to some dozens of primitive operations on both inputs."),
 "C18": ("property-based testing: black-box runs on random files against an expected rendering", "The schema binary is run on random valid, malformed and hostile files; expected output is rendered by an independent model."),
 "C19": ("fuzzing: generated deep nesting on 2 MiB thread stacks, unoptimised and optimised", "Random mixtures of containers to great depth; a stack overflow ends the process and is reported."),
 "C20": ("property-based testing: random program generation through the macros", "Random schemas are compiled with the real macros and their types run through codec checks against the reference model."),
 "C22": ("fuzzing: valid, tree-damaged, byte-damaged and random inputs, differential against a reference decoder", "Acceptance, value and consumed length are compared with an independent decoder of protocol and schema; inputs on which the specification is silent carry no expectation."),
 "C24": ("property-based testing: pointer identity and allocation measurement on random messages", "Borrowed parts are compared with the input by address; allocations are measured by the harness's allocator."),
 "C23": ("property-based testing: memory balance of random operations under damage and I/O faults", "A counting allocator compares blocks and bytes before and after each generated operation."),
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
import sys
skip = set(sys.argv[1:])
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS and i not in skip:
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
na = [{"property": "C21", "reason": "The generator is Kotlin + ANTLR built by Maven; no Kotlin compiler and no ANTLR tool is installed and nothing can be fetched, so the generator cannot be executed and no generated-input search over it is possible."}]
na += [{"property": s, "reason": "check under construction"} for s in sorted(skip)]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: everything is decided through public interfaces. Fixes are plain commits listed in known-findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
