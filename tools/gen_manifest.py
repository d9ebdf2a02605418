#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "model_checking"; FE = "fault_enumeration"
T = {
 "C01": (MC, "bounded exhaustive enumeration of databases (all trees, all placements, all values of every field and all pairs of them) executed on the real exporter and importer, compared with a value model"),
 "C02": (MC, "bounded exhaustive enumeration of databases and group trees executed on the real exporter and importer, compared with a value model"),
 "C03": (MC, "bounded exhaustive enumeration of databases and encoder choices; independent reference codec model replayed against the real importer and exporter"),
 "C04": (MC, "bounded exhaustive enumeration of databases and encoder choices; independent reference codec model replayed against the real importer and exporter"),
 "C05": (MC, "exhaustive enumeration of all ordered key pairs over an alphabet, executed on the real code, with an equality model as oracle"),
 "C06": (FE, "exhaustive single-fault and bounded pair-fault enumeration over real KDBX files"),
 "C07": (FE, "exhaustive single-fault and bounded pair-fault enumeration over real KDB files"),
 "C08": (FE, "exhaustive fault enumeration at every layer of authenticated files, executed on the sanitized real code"),
 "C09": (MC, "exhaustive enumeration of sizes, write partitions and stream faults on the real stream classes against a reference model"),
 "C10": (MC, "exhaustive enumeration of sizes, encoder settings, write partitions and stream faults on the real stream classes against zlib"),
 "C11": (MC, "exhaustive enumeration of lengths and padding states on the real code against a reference model"),
 "C12": (MC, "exhaustive enumeration of one- and two-bit key, block and vector patterns and of keystream partitions on the real code against reference implementations"),
 "C13": (MC, "exhaustive enumeration of inputs and texts up to a bound on the real code against a reference acceptor"),
 "C14": (MC, "explicit-state enumeration of all key operation histories up to a depth and of all key file mutations, replayed on the real Key class"),
 "C15": (MC, "explicit-state enumeration of all operation sequences on reused objects up to a depth, compared with fresh objects"),
 "C16": (MC, "bounded exhaustive enumeration of trees and reference assignments, executed on the real importer, with identity checks"),
 "C17": (MC, "exhaustive enumeration of all pairs and triples of variants of entries and groups, with structural equality of the model as oracle"),
 "C18": (FE, "exhaustive enumeration of the byte offset at which the storage fails and of refusals, executed on the real exporters"),
 "C19": (MC, "stateless exploration of thread interleavings of the real code under a controlled scheduler with happens-before race detection"),
 "C20": (MC, "bounded exhaustive enumeration of contents, executed on the real printer, with an independent strict JSON parser as oracle"),
 "C21": (MC, "bounded exhaustive enumeration of databases and conversion chains executed on the real importers and exporters, compared with a value model"),
 "C22": (MC, "exhaustive enumeration of days, seconds and time zone transitions executed on the real importers and exporters against independent calendar arithmetic"),
 "C24": (MC, "explicit-state exploration of all operation histories up to a depth on pairs of real objects, compared with a value model after every history"),
 "C25": (MC, "exhaustive enumeration of states of the process (locales, errno, masks, descriptors, paths) and their products under every operation of a set, executed on the real code"),
 "C26": (MC, "bounded exhaustive enumeration of causes of failure executed on the real code, exception classes compared with the cause"),
 "C28": (MC, "exhaustive fault enumeration: read faults at every byte, in pairs, and all read sizes, injected under the real importers and key loader"),
 "C29": (FE, "exhaustive enumeration of crash points and torn writes: the file operations of real exports are recorded, every state a crash can leave is made and imported by the real code"),
 "C27": (MC, "exhaustive fault enumeration: every allocation of every operation fails (alone, in pairs, from then on) in the real code, results judged by the reference codec"),
 "C23": (MC, "exhaustive enumeration of creation and export histories under a controlled entropy source"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".cc")):
        checks.append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                       "technique": "model checking: " + T[i][1], "level": T[i][0],
                       "level_note": "Exhaustive within the bounds stated in DESIGN.md and in the evidence file; nothing is sampled. Every execution is one of the real code built from /repo's working tree.",
                       "evidence_file": "evidence/%s.json" % i})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "hooks": {"guard": "none", "enable": "no hooks are needed: the checks compile the unmodified sources"}, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
