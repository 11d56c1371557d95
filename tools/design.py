#!/usr/bin/env python3
"""Writes the per-property and seed tables of DESIGN.md from props.py,
known-findings.jsonl and seeded/*/meta.json (run by hand, output committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
out = []
w = out.append
ORACLE = {
    "P01": "ghost copy of all fields: a setter changes its field (masked to the width the header documents) and no other; DLC table of ISO 11898-1 written in the contract",
    "P02": "the record is read through the *declared channels* (byte offset, bit offset, bit count, data type) by an independent reader in the contract (`busutil.h`)",
    "P03": "the message given to the writer; record and payload delivered as the reader delivers them",
    "P04": "bit-exact integer and IEEE-754 values written in the contract; half floats against the IEEE definition",
    "P05": "the byte sequence stored; zero-terminated text",
    "P06": "memory safety obligations of the engine (every load and store inside a live object) under arbitrary channel descriptions",
    "P07": "as P02, for the eight kinds of LIN event", "P08": "as P02, for Ethernet", "P09": "as P02, for FlexRay", "P10": "as P02, for MOST",
    "P11": "the formulas of the MDF standard, evaluated in the contract in the same order of operations; `log` and `exp` uninterpreted",
    "P12": "first/last/nearest entry rules of the MDF standard, as a loop over the symbolic table",
    "P13": "the value set before writing is the value got after reading, for each member of each block",
    "P14": "ghost list of samples, times and validity handed to the writer; values read through observers",
    "P15": "ghost list per group; start, stop, pre-trigger window and append decide which samples belong to the file",
    "P16": "ghost list of byte strings; for large data a pattern with symbolic ends",
    "P17": "the byte stream before it was cut into DT/SD/DZ/DL blocks by the contract, cuts at symbolic positions",
    "P18": "as P14 and P15 for MDF 3", "P19": "as P13 and P17 for MDF 3",
    "P20": "ghost list of messages per group; read through the CAN observer and channel observers",
}
for p in PROPS:
    w(f"### {p['id']} {p['title']}\n")
    w(f"* Contracts: " + ", ".join(f"`{c['entry']}` ({c['file']}.cpp)" for c in p["contracts"]) + ".")
    w(f"* Quantified over: {p['forall']}.")
    w(f"* Oracle: {ORACLE[p['id']]}.")
    w("* Strength: " + ("proved for the shapes named, bounded in: " + "; ".join(p["bounds"]) + " (level *other*)." if p.get("bounded")
                        else "every obligation discharged for all inputs; loops of the code have input-independent bounds and are executed completely (level *proof*)."))
    w(f"* Why tests do not reach it: {p['why']}\n")
w("### Not claimed\n")
for p in NOT_APPLICABLE:
    w(f"* **{p['id']} {p['title']}**: {p['reason']}")
tables = "\n".join(out)
out = []
w = out.append
w("| change | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    w(f"| {d} | {m['property']} | {m['needs']} | {m['property']} check, failed obligation replayed natively |")
seeds = "\n".join(out)
fixed = "\n".join(f"* {e['property']} `{e['commit']}` {e['what']}" for e in map(json.loads, open(f"{V}/known-findings.jsonl")))
t = open(f"{V}/tools/DESIGN.in.md").read()
open(f"{V}/DESIGN.md", "w").write(t.replace("@PROPERTIES@", tables).replace("@SEEDS@", seeds).replace("@FIXED@", fixed))
