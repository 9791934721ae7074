#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (developer tool; no check runs it)."""
import json
NOTE = ("Judged on the executions observed (counts in the evidence file), in a release build, a build with overflow and debug assertions, "
        "and where named an AddressSanitizer build. Trusts the independent reference models in harness/src/ref*.rs, which setup self-tests "
        "against the published vectors, and the sampling of the workload generators.")
T = {
 "H01": "round-trip monitor over encoder/decoder connection histories (sent log vs received log) with end-of-history index sweep",
 "H02": "differential monitor: RFC 7541 reference sender/decoder vs the real decoder on every valid block",
 "H03": "online trace checker parsing each encoder call's output with an independent RFC 7541 parser and table mirror",
 "H04": "state monitor of the dynamic table against a reference table after every operation",
 "H05": "fault-injection monitor: one planted fault per block, documented error kind and prefix delivery checked",
 "H06": "information-flow monitor: table probes around unindexed headers and secret look-ups on both sides",
 "H07": "fragmentation and failure-atomicity monitor with table probes before and after each failed call",
 "H08": "hostile-input monitor with allocation meter, CPU-time watchdog, panic guard and AddressSanitizer",
 "H09": "state monitor of limit and size-update histories on both sides",
 "H10": "twin-run monitor: bounded decoding vs whole decoding with octet accounting",
 "H11": "twin-encoder monitor: histories with and without rejected calls compared octet by octet",
 "H12": "state monitor: lookup, iteration and search compared with one reference list",
 "U01": "differential monitor against an independent Appendix B encoder (all 1- and 2-byte strings enumerated)",
 "U02": "round-trip monitor at all five speeds with output-prefix guard",
 "U03": "differential monitor at all five speeds against an independent Appendix B decoder (short strings enumerated)",
 "U04": "hostile-input monitor with output and allocation bounds, CPU-time watchdog and AddressSanitizer",
 "U05": "cell-by-cell monitor of generated and shipped matrices walked beside a plain binary code tree",
 "U06": "differential monitor of the table parser on generated and published tables",
 "P01": "round-trip monitor (sent log vs received log) over all kinds, bit-compared",
 "P02": "online trace checker: every encode call's bytes and count against an independent proto3 writer",
 "P03": "differential monitor against an independent proto3 reader and value converter",
 "P04": "chunking monitor: delivery and byte accounting checked online after every chunk",
 "P05": "fault-injection monitor: one malformed element per message, error, delivery and remainder checked",
 "P06": "hostile-input monitor with allocation meter, accounting, CPU-time watchdog and AddressSanitizer",
 "P07": "fault-injecting writers failing, short-writing or interrupting at every byte of every encoding",
 "X01": "interleaving and parallel-thread monitor comparing event logs with solo runs (ThreadSanitizer in the thorough tier)",
}
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[],
         notes="No hooks in /repo: the public API exposes everything the monitors observe. check.py builds /repo's working tree into a content-addressed directory under .build/.")
for i in ids:
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py check %s" % i,
        thorough_cmd="VERIF_TIER=thorough python3 check.py check %s" % i,
        evidence_file="evidence/%s.json" % i, technique="runtime monitoring: " + T[i],
        level="fault_enumeration" if i == "P07" else "exploration", level_note=NOTE))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
