#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "Reads of files the simulator encoded itself from known pixels, split and failed at drawn bytes; the result is compared with those pixels.",
 "C02": "Reads of files damaged by drawn storage faults, half of them under AddressSanitizer, with a step bound standing for bounded work.",
 "C03": "Documents written by the tool, the C++ interface and the library to destinations that fail at drawn bytes, flushes or closes; destination bytes compared with the undisturbed document.",
 "C04": "Traces cancelled at drawn polls, once or for good, three rounds in one process; callbacks, results, later work and the allocation ledger are judged.",
 "C05": "Recorded callback histories judged as sequences; results compared with callback-free executions; callbacks that stall or start other operations.",
 "C06": "Drawn allocations fail, singly or from a point on, in every stage; outcomes compared with the undisturbed ones; memory checked by AddressSanitizer.",
 "C07": "Histories of several sessions with faults; every later result compared with its result in a fresh process.",
 "C08": "One plan executed under two drawn environments (heap and stack residue, placement, clock, zone, locale, variables); outcomes compared.",
 "C09": "Sessions as threads that pass one baton at drawn basic blocks and stream operations; every result compared with the session run alone.",
 "C10": "Three rounds of the same operations with faults; blocks and files still held after a round are judged by the simulator's ledger.",
 "C11": "Faults, damage, cancellation and unsupported combinations; any end of the process or missing report inside a library call is judged.",
 "C12": "Bytes of every caller-owned object compared before, during and after operations that succeed, fail or are cancelled.",
 "C13": "The tool as a simulated process with faults and kills; status, messages, directory contents and reruns are judged.",
 "C14": "Conversions through the C++ interface with faults; result, file, ledger, option objects and repetition are judged.",
 "C15": "The same drawing written to destinations that differ in kind, buffering, position and how they take bytes; bytes compared.",
 "C16": "Sequences of conversions and fetches through the buffer interface with faults on its stored input and output; results, buffers, files and ledgers are judged.",
 "C17": "Drawn histories of initialisation, registration, lookup, listing and use with allocation failures; every answer compared with a model of the registry.",
}
PURE = "Pure function of image and options: no schedule, clock, fault, crash point or history enters it, so simulation could only generate inputs; this technique family does not decide it."
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 sim/build.py a z p t",
     "checks": [{"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "evidence_file": "evidence/%s.json" % i,
                 "technique": "deterministic simulation with fault injection (seeded search over plans)", "level": "exploration",
                 "level_note": NOTE[i] + " Seeded search: what no drawn plan reaches is not covered. Trusts the simulator's seams, its reference executions and the instrumented gcc build."}
                for i in ids if i in NOTE],
     "not_applicable": [{"property": i, "reason": PURE} for i in ids if i not in NOTE],
     "notes": "No hooks in /repo: all seams are at the C library boundary (linker --wrap) and the public API. Replay a reported violation with: python3 check.py --replay FILE"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
