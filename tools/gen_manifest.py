#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
MODEL = "runtime monitoring: online comparison of every operation with a flat reference model, over random histories"
TECH = {
    "C02": "runtime monitoring: every stored summary recomputed from the elements after every operation",
    "C03": "runtime monitoring: structural invariant monitor walking the whole live tree after every operation",
    "C04": "runtime monitoring: step counters in the user callbacks and height observation against logarithmic bounds",
    "C05": "runtime monitoring: every search compared with a linear scan of the observed elements",
    "C06": "runtime monitoring: handle ledger (every handle ever issued looked up after every operation)",
    "C13": "runtime monitoring: iteration and navigation results compared with the element list observed through searches",
    "C14": "runtime monitoring: cursor comparisons compared with the observed element order",
    "C15": "runtime monitoring: visited summaries compared with the observed prefix of elements",
    "C16": "runtime monitoring: filtered traversals compared with a reference traversal of the observed structure",
    "C17": "runtime monitoring: clone and original observed alternately against separate models; cleared trees against new ones",
    "C18": "runtime monitoring: live-instance accounting in the element, key and value types after every operation",
    "C20": "runtime monitoring: ordered map and set driven alongside the standard library's sorted map",
    "C21": "runtime monitoring: rope driven alongside a plain string, editing-locality workloads",
    "C22": "runtime monitoring: rope driven alongside a plain string and, once emptied, a new rope, with hostile bounds",
    "C23": "runtime monitoring: slicing helpers compared with list slicing for all kinds of bounds",
    "C25": "runtime monitoring: step counters in the user callbacks of range operations against bounds linear in the elements touched",
    "C26": "runtime monitoring: counting allocator read after every operation of churn histories against bounds in the most elements held",
    "C27": "runtime monitoring: answers of threads that share, hand over or work side by side compared with one thread alone, random delays injected in the callbacks; ThreadSanitizer (thorough: Miri too)",
    "C24": "sanitizers: Miri interpreter, address sanitizer and allocation accounting over the same histories",
}
NOTE = "Held on every history of the run, in a build with debug assertions and overflow checks and in an optimised one; says nothing about histories not driven. Trusts the reference model and the element types of the harness (which obey the trait contracts). Every history replays from (seed, index)."
NOTES = {
    "C24": "Held on the histories of the run: allocation accounting and address sanitizer over thousands of full-size histories, Miri over a few hundred short ones (about ten thousand tree operations). The crate itself forbids unsafe code, so this guards its dependencies' use and leaks.",
    "C04": NOTE + " The bounds on steps and height are constants times the number of levels, generous (several times what is observed), so a constant-factor slowdown is not reported.",
}
NOTES["C25"] = NOTES["C04"]
NOTES["C26"] = NOTE + " The bounds allow for arrays that grow by doubling and a quarter of slack for a tree (half for ropes and maps), so a smaller waste is not reported."
NOTES["C27"] = "Held on the meetings of threads observed (thousands of distinct interleavings of the callbacks), natively and under ThreadSanitizer with an instrumented standard library; other interleavings are not claimed."
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, MODEL),
        "level": "exploration",
        "level_note": NOTES.get(i, NOTE),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "none", "enable": "no hooks: the structure is observed through the public search interface", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "Exit 2 means the check could not decide (build failure, nothing observed). Repaired defects are listed in known_findings.txt.",
}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
