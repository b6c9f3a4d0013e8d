#!/usr/bin/env python3
"""Writes MANIFEST.json. A property is claimed once it is listed here."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "explicit-state exploration of vector operations against a list of bits",
 "C02": "exhaustive enumeration of out-of-range accesses, monitored storage",
 "C03": "exhaustive enumeration of windows and nested windows against the reference window",
 "C04": "exhaustive enumeration of range bounds against unbounded arithmetic",
 "C05": "exhaustive enumeration of splits and write interleavings through both halves",
 "C06": "exhaustive enumeration of iterator step programs",
 "C07": "exhaustive enumeration of pairs of slices",
 "C08": "exhaustive enumeration of values, bits and operations",
 "C09": "explicit-state exploration of push/set/get histories of integer vectors against a list of numbers, all widths",
 "C10": "exhaustive enumeration of rejected constructions, values and indices, and of histories that mix them with accepted ones",
 "C11": "exhaustive enumeration of integer iterator step programs",
 "C12": "exhaustive enumeration of lengths, widths and writes against a layout computed bit by bit",
 "C13": "exhaustive enumeration of contents, block shapes and lengths against counting",
 "C14": "exhaustive enumeration of contents, block shapes and lengths against searching",
 "C15": "exhaustive enumeration of block entries and ranks, every strategy against the definition",
 "C16": "exhaustive enumeration of query histories on several structures, rejected queries included",
 "C17": "exhaustive enumeration of lengths with a counting allocator",
 "C18": "exhaustive enumeration of bounded programs over the API, each executed under Miri with an undefined-behaviour oracle, and of longer ones compiled under AddressSanitizer",
 "C19": "exhaustive enumeration of thread schedules at machine-instruction granularity, bounded preemptions; all pairs of queries in two threads under Miri with a data-race oracle",
 "C20": "exhaustive enumeration of thread schedules at machine-instruction granularity, bounded preemptions; all pairs of uses of the halves in two threads under Miri with a data-race oracle",
 "C21": "exploration of operation sequences on several objects and of thread schedules, bounded preemptions; all pairs of programs in two threads under Miri with a data-race oracle",
 "C22": "exhaustive enumeration of contents, format options and writer failures against the reference text",
 "C23": "exhaustive enumeration of tasks, arguments, failing steps and file trees, with recording stand-ins for the programs it calls",
 "C24": "exhaustive enumeration of lengths, contents, positions and queries within bounds, with every machine instruction counted by single-stepping",
 "C26": "exhaustive enumeration of bounded programs against a plain model, executed natively and interpreted for a big-endian machine",
 "C25": "exhaustive enumeration of lengths, widths, capacities and operations with a counting allocator",
}
NOTE = "Complete within the bounds in DESIGN.md and the evidence, on the real code in an asserting and in a release build; nothing is claimed beyond the bounds. Trusts the reference model, the compiler and the CPU."
checks = [dict(property=p, quick_cmd=f"./run.py {p} --tier quick", thorough_cmd=f"./run.py {p} --tier thorough",
               evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=NOTE) for p, t in sorted(T.items())]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none: every check uses the public API only", enable="nothing to enable", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason="check not finished yet") for i in ids if i not in T],
         notes="Known findings: known_findings.txt. Method, bounds and results: DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
