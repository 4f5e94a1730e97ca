#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "seeded deterministic simulation of the real simulator with injected faults; "
CHECKS = {
    "C01": ("build histories over a source file on a faulty disk, judged by a reference reader and assembler",
            "seeded files, edits, layouts and damaged saves; sampled"),
    "C02": ("build histories over a source file on a faulty disk, judged by a reference of the rules",
            "seeded rule-breaking edits at the edges and damaged saves; sampled"),
    "C03": ("source files rewritten by tools in any layout and saved to a faulty disk, judged by a reference reader",
            "seeded layouts and damage; texts the reference is unsure of are not judged; sampled"),
    "C04": ("crash search over source texts damaged by storage faults and slips",
            "a panic or a span outside the text is the violation; sampled"),
    "C05": ("source files with numbers at field edges on a faulty disk, judged by a reference reader",
            "seeded values, notations and fields; sampled"),
    "C15": ("replicas of one history of word operations under different entropy for uninitialised bits",
            "seeded histories, two to four replicas; sampled"),
    "C23": ("label queries on tables before and after crashes and reloads, under seeded hash order",
            "seeded files, spellings and stores; sampled"),
    "C24": ("line queries on tables before and after crashes and reloads",
            "seeded files and stores; sampled"),
    "C25": ("position queries on texts read from a faulty disk, alone, stored and linked",
            "seeded texts and positions; sampled"),
    "C26": ("spans of the errors of failing builds and links in seeded orders with crashes",
            "seeded conflicts, damaged objects and texts; sampled"),
    "C36": ("source files rewritten by the crate's printer between saves to a faulty disk",
            "seeded statements; strings of other characters are not judged; sampled"),
    "C08": ("lockstep against an independent executable LC-3 model",
            "every step of seeded random machines and programs under scheduled interrupts, keys and device faults is compared with the model; sampled, not exhaustive"),
    "C09": ("per-step audit of every user-mode step's attempt and effects, independent of the model",
            "seeded user-mode runs with device faults and interrupts; sampled"),
    "C10": ("interrupted versus uninterrupted twin runs, plus per-boundary gating audit",
            "seeded interrupt schedules at every kind of instruction boundary; sampled"),
    "C11": ("contract checks over the recorded I/O history of each OS trap",
            "seeded arguments, input arrival, lock contention and interrupts; sampled"),
    "C12": ("twin runs under real and virtual traps, plus a reference for endings",
            "seeded user programs ending in HALT or each exception; sampled"),
    "C13": ("run commands against a single-stepped twin under the same schedule",
            "seeded command sequences, breakpoints, pauses, MCR clears and host pokes; sampled"),
    "C14": ("lockstep of a strict machine with a non-strict twin",
            "seeded machines whose words become uninitialised at scheduled moments; sampled"),
    "C16": ("crash search: arbitrary machine state, devices and host acts under a seeded scheduler",
            "a panic of the code under test anywhere in a run is the violation; sampled"),
    "C17": ("build histories with crashes: every object survives storage in binary form",
            "seeded files, link orders and crash points; sampled"),
    "C18": ("build histories with crashes: every object survives storage in text form",
            "seeded files, link orders and crash points; sampled"),
    "C19": ("storage fault injection: torn, lost, duplicated, swapped, flipped and forged object files",
            "seeded damage to binary and text files, then reserialised, linked and loaded; sampled"),
    "C20": ("link schedules with crashes against a reference model of linking",
            "seeded sets of 2-4 files, conflicts and link orders; sampled"),
    "C21": ("build and load histories against a reference model of externals",
            "seeded declarations, debug settings and link orders; sampled"),
    "C22": ("link schedules with crashes against the source text of each file",
            "seeded sets of 2-4 files with debug symbols and link orders; sampled"),
    "C27": ("lockstep against a reference call-stack model",
            "seeded programs and interrupt schedules; sampled"),
    "C28": ("lockstep against the model's memory-access log",
            "seeded programs and interrupt schedules, single steps and run segments; sampled"),
    "C29": ("loads at seeded points of a machine's history, full-memory differential",
            "seeded files, initialisation strategies and host actions between loads; sampled"),
    "C30": ("seeded histories of execution and host faults, then reset, then a differential against a new machine",
            "all state and dispatch compared, then both machines run on; sampled"),
    "C31": ("two runs of one plan under different operating-system entropy",
            "every step's history compared; sampled"),
    "C32": ("seeded device and mapping histories against a reference port table",
            "reads, writes, polls and resets routed through recording devices; sampled"),
    "C33": ("lock contention injected between any two instructions, history check for exactly-once delivery",
            "seeded byte-exchanging programs, hold patterns and poisoned locks; sampled"),
    "C34": ("timer poll histories against the configured interval",
            "seeded ranges, seeds, enables and resets, polled directly and by a machine; sampled"),
}
PURE = "a pure function of its input: no schedule, time, I/O, fault or second party for a simulation to decide; "
NA = {
    "C06": PURE + "decoding and encoding one word",
    "C07": PURE + "disassembling one word",
    "C35": PURE + "constructing one bounded offset",
}
TODO = {}
allids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
for i in allids:
    if i not in CHECKS and i not in NA:
        TODO[i] = "check not built yet"
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": [
        {"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
         "technique": BASE + t, "level": "exploration", "level_note": n}
        for i, (t, n) in sorted(CHECKS.items())
    ],
    "not_applicable": [{"property": i, "reason": r} for i, r in sorted({**NA, **TODO}.items()) if i not in CHECKS],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
