#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand after changes)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
T = {
 "fidelity": "online comparison of real parses of generated texts against an independent reference elaborator",
}
N = "Judges real executions on generated and mutated inputs: sampled, no exhaustiveness claimed."
tech = {
 "P01": T["fidelity"], "P02": T["fidelity"], "P03": T["fidelity"], "P04": T["fidelity"], "P05": T["fidelity"],
 "P06": T["fidelity"], "P07": T["fidelity"], "P08": T["fidelity"], "P09": T["fidelity"],
 "P10": "reference comparison with keyword-like, boundary-length and near-equal identifiers in every position",
 "P11": "reference comparison with exact big-integer rounding oracle; conversions watched for panics and non-finite values",
 "P12": "metamorphic monitor: same tokens under different layouts must give equal results",
 "P13": "three-valued reference judge over systematically corrupted texts; incomplete consumption required",
 "P14": "monitor of remainders (offset, line, fragment identity), agreement of entry points, continued parsing",
 "P15": "crash/panic monitor over hostile texts, AddressSanitizer build, undefined-behaviour interpreter (Miri), process-isolated deep-nesting probes",
 "P16": "effort monitor: counting allocator and CPU clock over scaled families of valid and broken texts",
 "P17": "monitor of every location in errors against the text and the known corruption spot",
 "P18": "monitor of equality, hash, order of creation and storage sharing of names over random creation histories",
 "P19": "concurrent stress with injected panics and delays, checked against sequential results; ThreadSanitizer; Miri under many schedules",
 "P20": "law monitor over dense special values (ordering, equality, hash, conversions)",
 "P21": "monitor of equality/inequality/clone/clone_from on pairs of texts differing in one spot or only in layout",
 "P22": "exhaustive and sampled requirement sets against an independent implication table",
 "P23": "exhaustive vocabulary round trips against a table taken from the PDDL grammar",
 "P24": "values rebuilt through the public constructors and builders in random step orders compared with parsed values",
 "P25": "monitor of length, emptiness, iteration, slices and extraction on collections of parsed values",
 "P26": "differential execution of the real crate built in all feature combinations over one recorded workload",
 "P27": "replay monitor: fingerprints of results across histories, live/dropped values, threads and processes",
}
ready = os.popen("target/release/pddlmon list").read().split()
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash run.sh list",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface only", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in ready:
        m["checks"].append({"property": i, "quick_cmd": f"bash run.sh check {i} quick", "thorough_cmd": f"bash run.sh check {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": tech[i], "level": "exploration", "level_note": N})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
