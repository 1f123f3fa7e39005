#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "wire": "runtime monitoring: generated messages and bytes, judged by an independent encoder/decoder and field-by-field oracle",
 "auth": "runtime monitoring: handshakes with honest and hostile peers, judged by an online trace monitor and independent crypto oracles",
 "fresh": "runtime monitoring with the race detector and schedule noise: concurrent generation and helper processes, judged by freshness and distribution monitors",
 "model": "runtime monitoring: random histories, judged online by a shadow model fed with the acknowledgements",
 "lockstep": "runtime monitoring: differential lockstep of two instances, one of which gets rejected requests in between",
 "meta": "runtime monitoring: metamorphic; two executions that differ in what must not matter, their outcomes translated and compared step by step",
 "heap": "runtime monitoring: heap-growth monitor over endless cycles of use",
 "conc": "race detector with schedule noise; concurrent histories judged by invariants and a linearizability checker (porcupine)",
 "e2e": "runtime monitoring: simulated network of clients and router over serialized bytes, judged by end-to-end trace monitors",
}
K = {}
for i in "M01 M02 M03 M04 M05 M06 M07 M09 T01 T02 U01 U02".split(): K[i] = "wire"
for i in "A01 A02 A03 A04 A05 A06 A07 A09".split(): K[i] = "auth"
for i in "A08 I01 I02".split(): K[i] = "fresh"
for i in "B01 B02 B03 B04 B05 B06 D01 D02 D03 D04 D05 D06 D07 D08 D09 D10 S01 S02 S03".split(): K[i] = "model"
for i in "B07 D11".split(): K[i] = "lockstep"
for i in "B08 D12 S05 M08".split(): K[i] = "heap"
for i in "B09 D13 S04 C01 E04".split(): K[i] = "conc"
for i in "X01 X02 X03 X04 X05".split(): K[i] = "meta"
for i in "E01 E02 E03".split(): K[i] = "e2e"
NOTE = {
 "wire": "No violation in the generated inputs; trusts the harness's own JSON/CBOR/MessagePack codecs and value comparison.",
 "auth": "No violation in the generated handshakes; trusts the harness's oracle and Go's crypto packages.",
 "fresh": "No violation in the ids and challenges observed; statistical limits are set so that a sound generator never exceeds them.",
 "model": "No violation in the generated histories; trusts the shadow model.",
 "lockstep": "No difference in the generated histories; trusts the comparison of outcomes.",
 "meta": "No difference in the pairs of executions tried; trusts the translation of outcomes.",
 "heap": "No growth of the live heap over the cycles of use tried, above a few bytes per cycle.",
 "conc": "No race, deadlock or non-linearizable history in the executions observed; schedules are sampled, not enumerated.",
 "e2e": "No violation in the simulated networks; the network keeps each connection in order and decides the interleaving at random.",
}
done = set(subprocess.run(["grep", "-rhoE", 'ID: "[A-Z][0-9]{2}"', os.path.join(root, "harness/vmon")], capture_output=True, text=True).stdout.replace('ID: "', "").replace('"', "").split())
done |= set(l.strip() for l in open(os.path.join(root, "tools/registered.txt"))) if os.path.exists(os.path.join(root, "tools/registered.txt")) else set()
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in done:
        na.append({"property": i, "reason": "monitor not built yet"})
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": T[K[i]], "level": "exploration", "level_note": NOTE[K[i]]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe the public interfaces, and the schedule noise comes in through a build overlay. "
              "VERIF_SEED seeds every random choice; './check.sh ID quick --replay FILE' runs one recorded case again."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not built")
