#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = "explicit-state model checking of the real contract: exhaustive breadth-first exploration of all transaction histories up to a depth"
ENUM = "explicit-state model checking of the real code: exhaustive enumeration of a bounded input product"
BOTH = EXPL + ", plus exhaustive enumeration of a bounded input product"
T = "Decides the property for every history/input inside the stated bounds, executed on the real entry points compiled from /repo (no separate model of the contract). Trusts the modelled wasmd/ibc-go environment (mc/src/world.rs) and the locked dependencies. "
notes = {
 "C01": (EXPL, "Bounds: history depth, fixed sender and request alphabets tried in every state."),
 "C02": (EXPL, "Bounds: history depth, three heirs, three kinds of expiry around the current block."),
 "C03": (EXPL, "Bounds: history depth; alphabet of foreign handshake messages; also explored with the environment free to deliver or not deliver authorised starts (over-approximation)."),
 "C04": (EXPL, "Bounds: history depth, up to 3 channels; also explored with free delivery of authorised closes."),
 "C05": (EXPL, "Bounds: history depth, up to 4 concurrent handshakes."),
 "C06": (EXPL, "Bounds: history depth, up to 3 channels, 2 packets in flight."),
 "C07": (BOTH, "Bounds: option alphabet (connections, ports, orderings), history depth."),
 "C08": (BOTH, "Bounds: single and paired deviations of metadata fields from a boundary alphabet, 4 life-cycle situations. Fee-middleware wrapped versions are out of the model."),
 "C09": (EXPL, "Bounds: history depth (16 for pure reopening)."),
 "C10": (BOTH, "Bounds: memo and timeout alphabets (boundaries of u64 nanoseconds), history depth."),
 "C11": (BOTH, "Bounds: boundary product of the fields of every message kind, sequences up to length 3 (4) over all kinds, history depth. The oracle is an independent protobuf encoder."),
 "C12": (BOTH, "Bounds: boundary product of the fields of every query kind, sequences up to length 3 (4), history depth. The oracle is an independent protobuf encoder."),
 "C13": (EXPL, "Bounds: 3 packets in flight, 3 channels, chosen colliding identifiers, history depth. Sequence jumps stand for settled packets (justified by C14)."),
 "C14": (EXPL, "Bounds: 3 packets, 2 channels in flight, history depth; oracle: raw storage of a twin that never sent a packet."),
 "C15": (BOTH, "Bounds: boundary alphabet of responses per query kind, sequences up to length 3, every truncation of each response. The oracle is an independent protobuf encoder."),
 "C16": (BOTH, "Bounds: history depth, packet/acknowledgement/relayer alphabets."),
 "C17": (EXPL, "Fault enumeration inside the exploration: the callback contract fails at every possible point. Bounds: history depth."),
 "C18": (BOTH, "Bounds: history depth, acknowledgement alphabet including every truncation of valid ones."),
 "C19": (BOTH, "Bounds: stored versions around the current one, pre-releases, build metadata, unparseable; every state of short histories. Order among equal versions differing in build metadata is not prescribed."),
 "C20": (ENUM, "Bounds: request, address, label, admin, code id, salt and checksum alphabets. The predicted address is recomputed independently with SHA-256."),
 "C21": (BOTH, ""),
 "C22": (EXPL, "Bounds: history depth, address alphabet."),
 "C23": (EXPL, ""),
 "C24": (ENUM, "Bounds: the message, query, option, memo, timeout and acknowledgement alphabets, in four separately compiled library builds (query x staking). A library build that no longer compiles is reported as a violation."),
 "C25": (EXPL, "Bounds: up to 9 packets in flight, 3 channels, chosen acknowledgement contents, history depth."),
 "C26": (EXPL, "Bounds: history depth, request, funds and sender alphabets."),
 "C27": (BOTH, "Self-composition of two runs of the contract in ten pairs of environments. Bounds: history depth, chosen environments."),
}
import sys
sys.path.insert(0, here + "/tools")
extra = here + "/lite/notes.json"
if os.path.exists(extra):
    for k, v in json.load(open(extra)).items():
        notes[k] = (notes[k][0], v)
claimed = [p for p in notes if notes[p][1]]
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [{
   "property": p,
   "quick_cmd": f"bash check.sh {p} quick",
   "thorough_cmd": f"bash check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": notes[p][0],
   "level": "model_checking",
   "level_note": T + notes[p][1],
 } for p in claimed],
 "not_applicable": [{"property": p, "reason": "check not built yet"} for p in notes if p not in claimed],
 "notes": "No hooks: the harness uses only the public interface of the crates. KNOWN_FINDINGS.md lists the defects found (all repaired).",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
