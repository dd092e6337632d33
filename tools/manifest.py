#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC decides, for every execution recorded from the code in this run, whether it is what the TLA+ specification of the same call says; "
        "the quick tier enumerates small worlds completely and samples larger ones with the seed. ")
MODELS = {
 "C06": "TLC also explores the optimizer of the specification over all small grammars and texts (same meaning before and after). ",
}
for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C11", "C12", "C17"):
    MODELS[p] = "TLC also explores the parser as a step machine over all small grammars and texts (invariants, agreement with the declarative meaning, termination). "
TOLD = "What the model does is replayed against the code (%s). "
MORE = {
 "C09": "A model of grammar texts (MCMeta): all small rules written down and read again. " + TOLD % "every text",
 "C10": "A model of grammar texts (MCMeta) read by the shipped descriptions. " + TOLD % "every text",
 "C11": "A declarative account of columns and depths against the parser's meaning, over all small layouts (MCBlocks). " + TOLD % "every layout",
 "C12": "A declarative account of which breaks end an item, over all small documents (MCLines). " + TOLD % "every document",
 "C13": "A writer and a reader of JSON as step machines over all small trees (MCJson): what is written is read back. " + TOLD % "every tree",
 "C14": "Reports over all small texts and places (MCReport): the line, its number and the marker name the place. " + TOLD % "every report",
 "C15": "A search cursor as a state machine over all small sequences (MCSearch). " + TOLD % "every walk",
 "C16": "A conversion cursor as a state machine over all small sequences (MCCursor). " + TOLD % "every walk",
 "C17": "Literals decoded step by step against a declarative account of their values (MCLiterals). " + TOLD % "every text",
 "C18": "A model of threads, once-only preparation and a shared collection over all interleavings, with liveness (MCShared). " + TOLD % "every history, in fresh processes",
}
for p, x in MORE.items(): MODELS[p] = MODELS.get(p, "") + x
for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C11", "C12", "C17"): MODELS[p] += "Every call of the step machine's runs is made on the code as well. "
TRUST = "Trusted: TLC, the specification as the reading of the documentation, the harness that records. Not decided: inputs outside the explored ones."
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "TLA+ specification checked with TLC; conformance of recorded executions to it",
                   "level": "model_checking", "level_note": NOTE + MODELS.get(i, "") + TRUST})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo are needed: the public interface shows everything that the specification speaks about. Defects that were repaired and findings that remain: known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
