#!/usr/bin/env python3
import json
notes = {
 "P01": "any panic of the library during a run", "P02": "number of items of every walk against the room in the region, and calls after the end",
 "P03": "the sequence of entries against a reference walk of the captured bytes", "P04": "the sequence of entries against a reference walk of the captured bytes",
 "P05": "outcome and every reported value of captures cut at seeded places", "P06": "decodings of captures that differ outside an entry, of relocated entries, and of lists with undecodable entries",
 "P07": "seeded histories of interleaved handle operations against a list-plus-position model", "P08": "every header field against its register",
 "P09": "reported windows against a reference decoding of the registers", "P10": "every standard capability field against its register",
 "P11": "every extended capability field against its register", "P12": "every table element against its register, counts against declaration and capture",
 "P13": "reverse conversions against captured registers, and write back / capture again cycles", "P14": "equality of structures from pairs of captures against the values they report",
 "P15": "structures decoded through their own conversions, from slices of seeded lengths, with the reference outcome and with the lists", "P16": "repeated decodings after other histories, at other alignments and surroundings and on other threads with the first one",
}
checks = [{
  "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "evidence_file": f"evidence/{p}.json",
  "technique": "deterministic simulation with fault injection (seeded search, reference model)",
  "level": "exploration",
  "level_note": f"Seeded simulated runs of devices, collectors, capture storage and readers around the real library; decides by comparing {n}. Finds violations the seeds reach, does not prove absence; trusts the register layouts written in sim/src.",
} for p, n in notes.items()]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
 "notes": "No hooks in /repo: everything is reached through the public interface. ./replay.sh FILE re-executes a replay file. Known findings and fixed defects: known-findings.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
