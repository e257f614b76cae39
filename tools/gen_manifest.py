#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFLEX = "runtime monitor: executable reference tokenizer compared online with the tokens of the instrumented crate"
REFTREE = "runtime monitor: executable reference parser compared online with the trees of the instrumented crate"
T = {
 "P01": "runtime monitoring: panic hook, crash and processor-time watchdog, overflow checks over exhaustive-small, hostile, truncated and bulk texts",
 **{p: REFLEX for p in ("P02", "P03", "P04", "P05", "P08", "P09", "P10")},
 "P06": "runtime monitor: span, order and slice assertions plus reference tokenizer on every observed token",
 "P07": "runtime monitor: source reconstruction from tokens and trivia plus reference tokenizer",
 **{p: REFTREE for p in ("P11", "P12", "P13", "P14", "P16", "P26")},
 "P15": "runtime monitor: reference derivability verdict and token conservation over damaged programs and all short token sequences",
 "P17": "runtime monitor: conservation checker (tokens of the tree against tokens of the text)",
 "P18": "runtime monitor: span invariants checked on every node of every observed tree",
 "P19": "runtime monitor: metamorphic comparison of the trees of two layouts",
 "P20": "runtime monitoring of interleaved instances: controlled thread schedules at allocation points, step interleavings, free threads, cross-process order comparison",
 "P21": "runtime monitor: metamorphic comparison of parts and whole",
 "P22": "runtime monitor: per-try handler oracle over nested handler sequences, reference parser",
 "P23": "runtime monitoring of cost: counting allocator and callgrind instruction counts on scaled texts",
 "P24": "sanitizers: AddressSanitizer, LeakSanitizer and Miri builds, and a balance-checking allocator",
 "P25": "runtime monitor: protocol checker on calls after end of file and after errors",
 "P27": "runtime monitor: model of a character cursor compared call by call",
}
T["P28"] = "runtime monitor: positions in observed errors against the reference parser's failing token and unfinished constructs; metamorphic comparison of errors with another front or tail"
T["P29"] = "runtime monitor: every rule called on a token of a text, alone and in sequences, against the reference parser's rule; position of the parser afterwards"
NOTE = {
 "": "Held on the executions the evidence file counts (exhaustive for the short-word streams, sampled beyond them). Trusts the reference in /verif/harness (reflex.rs, refparse.rs), written from the Python language reference; texts outside GRAMMAR.md get no verdict.",
 "P01": "Held on the executions counted; sizes up to 65537 repetitions in quick runs. A case that needs more than 25 s of processor time counts as a hang. Depth is bounded by 300 levels (1 GB stack); deeper nesting is a known finding.",
 "P20": "Held on the schedules counted: the controlled scheduler switches threads at allocations only. Hidden state that needs a longer history than the ones driven would be missed.",
 "P23": "Measured growth between two sizes; a superlinear term too small to show at the larger size is not seen.",
 "P24": "Clean on the executions counted; the crate has no unsafe code, so this mainly guards against new unsafe code, leaks and reference cycles.",
 "P27": "Held on the call sequences counted, compared with a vector of characters and an index.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "python3 check.py --setup",
 "hooks": {"guard": "pcr_verif",
           "enable": "RUSTFLAGS='--cfg pcr_verif' with PCR_VERIF_DIR=/verif/harness and PCR_VERIF_GEN=<dir of the generated adapter.rs>, cargo build --target-dir /verif/.build/... (check.py does this)",
           "source_commits": ["48bd1379"]},
 "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}", "evidence_file": f"evidence/{p}.json",
             "technique": T[p], "level": "exploration", "level_note": NOTE.get(p, NOTE[""])} for p in ids],
 "not_applicable": [],
 "notes": "known_findings.json lists open findings and repairs; GRAMMAR.md the grammar the oracles hold the code to; DESIGN.md the rest.",
}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(['git', '-C', '/repo', 'rev-parse', '48bd137'], capture_output=True, text=True).stdout.strip()]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
