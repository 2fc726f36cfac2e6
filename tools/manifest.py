#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ (TLC): recorded runs of the real program validated as behaviours of spec/FlatJsonl"
NOTE = ("Every generated run of the program built from /repo is accepted by the specification, which TLC evaluates over it; "
        "trusts the case generator, the independent output decoders (CSV, RAW, sqlite3, COPY blocks) and the bounds in DESIGN.md. ")
N = {
    "C01": "Schedules: exhaustive in the pipeline model, sampled on the code (normal and yield-injected builds).",
    "C02": "Histories of differently shaped lines on 1..16 workers, normal and yield-injected builds.",
    "C03": "Small JSON documents are enumerated, larger ones sampled.",
    "C04": "Damaged lines are made by mutation and truncation; the values of a damaged line are bounded, not determined.",
    "C05": "Join laws are exhaustive in the model; orders, splits and schedules of the code are sampled.",
    "C06": "Small include/exclude configurations are enumerated, larger ones sampled.",
    "C07": "Every subset of small key sets, sampled subsets of larger ones.",
    "C08": "Key sets, maps and patterns are sampled.",
    "C09": "Presence patterns of up to three keys are enumerated, larger ones sampled.",
    "C10": "Small transposed documents are enumerated, larger ones sampled, all output formats.",
    "C11": "Children counts around the limit, orders and schedules are sampled.",
    "C12": "Documents and listed containers are sampled; cells are compared as JSON values.",
    "C13": "All small offsets, maxima and file sizes are enumerated.",
    "C14": "Every character class of cells and names is enumerated, tables are sampled.",
    "C15": "All column counts and limits within the bounds are enumerated, larger ones sampled.",
    "C16": "Dumps are parsed strictly; row counts around the block size are enumerated.",
    "C17": "Plain, gzip, zstd and split variants of sampled inputs against one model result.",
    "C18": "Faults: file size limits at byte positions, full device, missing, truncated and corrupt inputs, long lines; the exit status and outputs are judged by spec/Session.",
    "C19": "All small combinations of value kinds are enumerated, larger ones sampled; one known finding.",
    "C20": "Small histories of zero values are enumerated, larger ones sampled.",
    "C21": "Nested JSON and URL strings are sampled.",
    "C22": "Case variants are sampled, in both modes.",
    "C23": "Prefix texts and patterns are sampled; patterns are matched by the regular expression semantics in spec/Regex.",
    "C24": "Times, layouts and zones are sampled; instants are computed by the calendar arithmetic in spec/TimeFmt.",
    "C25": "Small limits and strings are enumerated, larger ones sampled.",
    "C26": "Sampled inputs and one of more than 100000 lines.",
    "C27": "Reports of sampled documents.",
    "C28": "Termination is checked within a time limit; memory limits are set low enough to be always exceeded.",
    "C29": "All pairs of small tables are enumerated and judged by spec/CsvEq, larger pairs sampled.",
    "C30": "Configurations are sampled and given in every form; unreadable ones must be rejected.",
    "C32": "Damages are sampled over all positions; the named lines are an exact set but for numbers nobody looks at.",
    "C31": "Limits around the multiples of small inputs are enumerated, larger inputs sampled; reads of any length are exhaustive in the model spec/Loop.",
}
TECH = {"C18": "TLA+ (TLC): fault outcomes of the real program validated against spec/Session; bounded model of the session",
        "C29": "TLA+ (TLC): outcomes of the real tool validated against spec/CsvEq; all small table pairs enumerated"}
LEVEL = {"C18": "fault_enumeration"}


def main():
    checks = []
    for p in sorted(N):
        checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check %s thorough" % p,
                       "technique": TECH.get(p, TR), "level": LEVEL.get(p, "model_checking"), "level_note": NOTE + N[p]})
    m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": []}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
