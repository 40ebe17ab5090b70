#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing: generated inputs and histories against a reference model, with shrinking"
T = {
    "C01": (PBT, "model-based: every single-step move enumerated on sparse boards, generated histories over all move surfaces, each step compared in full with an independent rules model"),
    "C02": (PBT, "refused moves of every kind in generated positions: full observation, ==, order and hash unchanged; metamorphic removal of refused moves"),
    "C03": (PBT, "generated edit/move histories; redundant views compared with one another and with the model"),
    "C04": (PBT, "king-centred generated edit/move histories; king locations compared with the board"),
    "C05": (PBT, "generated long histories; moves() replayed from initial_position() and compared with inner() and with the model"),
    "C06": (PBT, "conservation totals counted through the code's own views over generated games"),
    "C07": ("property-based testing: round trip and differential against an independent formatter and parser", "generated positions, all plies and hand counts; all text interfaces compared"),
    "C08": ("property-based testing with guard pages and canaries", "length-maximising generated positions; exact bytes, sizes and bounds"),
    "C09": ("property-based testing: complete enumeration against an independent formatter and decoder", "all squares, pieces, moves; hands enumerated in pairs and sampled"),
    "C10": ("property-based testing with injected sink faults", "every failing byte offset and call index for generated values of every text-writing type"),
    "C11": (PBT, "all moves enumerated; generated histories in both forms in lock-step"),
    "C12": (PBT, "structured random sets and all small sets against a [bool; 81] model"),
    "C13": (PBT, "pop/iterator histories against a queue model"),
    "C14": (PBT, "structured random sets, every delta and file, against a coordinate model"),
    "C15": (PBT, "structured random sets; relation to the ordinary representation"),
    "C16": ("property-based testing: complete enumeration against coordinate arithmetic", "complete over the finite domain, boundary arguments included"),
    "C17": ("property-based testing: complete enumeration against the definitions", "complete over the finite domain"),
    "C18": (PBT, "hand histories against a multiset model, boundaries enumerated"),
    "C19": ("property-based testing: relational laws over generated pairs and triples", "laws of Eq, Ord, Hash per type; equality against the model; constructions on different paths"),
    "C20": ("differential property-based testing: generated call scripts from C through the shipped header", "C shim compiled against the shipped header runs scripts on the built library; transcripts compared with the Rust interface"),
    "C21": ("differential property-based testing: generated call scripts and memory-routine cases on the no_std library", "as C20 on the no_std build; memory routines with guard pages; allocator disjointness from threads"),
    "C22": ("fuzzing under internal checks, sanitizers and Miri", "generated call scripts over the whole safe interface with debug assertions and overflow checks, with the address and memory sanitizers, and under Miri"),
    "C23": (PBT, "generated checker behaviours; recorded calls and results against the documented combination"),
    "C24": (PBT, "generated resolve/unresolve histories against a last-value model"),
    "C25": ("property-based testing: metamorphic relation (mirrored runs)", "generated histories run side by side with their mirror image"),
    "C26": ("property-based testing: complete enumeration of the representations", "complete over wrappers with small domains, generated otherwise"),
    "C27": ("differential property-based testing across builds", "the same generated scripts on builds with different features, profiles and compilers; transcripts equal"),
    "C28": (PBT, "generated edit histories and every argument of the scalar edits; each edit observed in full, repeated, undone and reordered"),
    "C29": ("property-based testing: metamorphic relation (one visible state, two ways to it, a common continuation)", "generated histories and independent reconstructions of their visible state, compared at once and after every further step"),
    "C30": ("property-based testing of schedules: generated call scripts in threads, alone as the oracle, and under the race detectors of Miri and the thread sanitizer", "native interleavings by barrier-started threads, repeated; races under Miri and the thread sanitizer; C programs in threads"),
    "C31": ("property-based testing: round trip of whole games through an independent reader", "generated games written and read back, from the start and from the middle"),
}
import sys
sys.path.insert(0, V)
import check  # noqa: E402
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup"}
if os.path.exists(os.path.join(V, "hooks.json")):
    m["hooks"] = json.load(open(os.path.join(V, "hooks.json")))
m["checks"] = [{"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in check.NEEDS]
m["not_applicable"] = [{"property": i, "reason": "the check is under construction"} for i in ids if i not in check.NEEDS]
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
