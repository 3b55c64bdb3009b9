#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
oracle = {
 "C01": ("model-based histories", "reference model of the graph compared on every query after every accepted addition"),
 "C02": ("model-based histories with refusals", "reference model says which call is refused and how; snapshot before and after; twin given only accepted calls"),
 "C03": ("generated and enumerated rows", "validity and result specified directly on the rows"),
 "C04": ("generated and enumerated edge lists", "validity and result specified directly on the list"),
 "C05": ("generated near-miss pairs", "comparison of node and edge sets read through queries"),
 "C06": ("generated graphs and probe ids", "membership in the node set"),
 "C07": ("generated rooted graphs", "edge set of the root's component, by union-find"),
 "C08": ("generated rooted graphs", "replay of the steps against a path of entered nodes"),
 "C09": ("generated rooted graphs", "edge set of the root's component, by union-find"),
 "C10": ("generated rooted graphs", "replay of the steps against a queue, and distances"),
 "C11": ("generated rooted graphs and interleavings", "neighbor order; equality of repeated and interleaved runs"),
 "C12": ("metamorphic variations", "steps equal under renaming, reordering, embedding and another Graph implementation"),
 "C13": ("generated rooted graphs", "table and graph equal what the steps say"),
 "C14": ("generated graphs with components", "partition and order by the node list"),
 "C15": ("generated graphs with components", "connectivity and induced edges by union-find; consistency of all queries"),
 "C16": ("model-based histories", "reference model of the pairing on every query after every call"),
 "C17": ("model-based histories with paths", "reference model of augmentation"),
 "C18": ("generated graphs", "edges of the graph, nodes used once"),
 "C19": ("generated graphs", "no edge with both ends free; half of the maximum by a reference algorithm"),
 "C20": ("generated graphs and starting matchings", "matching of the graph, queries of the pairing in agreement"),
 "C21": ("generated graphs, differential", "reference maximum matching with a Tutte-Berge certificate checked per case, and subset enumeration up to 8 nodes"),
 "C22": ("generated graphs and starting matchings, differential", "reference maximum matching with certificate; paired nodes stay paired; idempotent"),
 "C23": ("metamorphic variations", "same size under renaming, reordering, another Graph implementation; additive over disjoint unions"),
 "C24": ("generated large graphs on small stacks", "the oracles of the other properties; a stack overflow ends the process and is traced to its case"),
 "C25": ("metamorphic relations between repeated, renamed, re-implemented and extended runs", "the results of the other run, element for element"),
 "C26": ("round trips between representations of generated graphs", "the original graph, compared through ==, and through its reports"),
 "C27": ("instrumented Graph implementation under generated prefixes", "which nodes the steps or components taken so far reach, and a fixed number of questions per node"),
 "C28": ("generated concurrent readers on real threads", "the answers of a twin read by one thread; Send and Sync decided at compile time"),
 "C29": ("generated ways of advancing each iterator", "the items that next yields one by one"),
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)["id"]
    how, what = oracle[p]
    checks.append({
        "property": p,
        "quick_cmd": f"bash check.sh {p} quick",
        "thorough_cmd": f"bash check.sh {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": f"property-based testing: {how}",
        "level": "exploration",
        "level_note": f"Search over generated inputs, in most checks after exhaustive enumeration of a small scope and a few large cases. Oracle: {what}. Holds for what was explored; trusts the harness in /verif/harness and the Rust toolchain.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: every property is observed through the public API of the crate. VERIF_SEED selects the random choices. known_findings.txt lists the defects repaired in /repo; none is open. 'target/release/harness replay FILE' replays a reported case.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
