#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks below and the reasons in gen_properties.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_properties import P, NA

T = "deterministic simulation of the real {what}: seeded search over {over}, judged by {oracle}"
WEB = "web server binary"
CLI = "command line binary"
PAGES = "page scripts and server-rendered pages in a simulated browser"
CLAIMS = {
 "C01": (WEB, "thread schedules, request timings and pushes", "an executable reference model of the comparison over the recorded history"),
 "C02": (WEB, "failing, killed and torn git steps", "the reference model plus the record of injected failures"),
 "C03": (WEB, "crash points, torn checkouts, left-over locks and files", "the reference model"),
 "C04": (WEB, "thread schedules and git durations", "mutual exclusion over the recorded git steps and file reads"),
 "C05": (WEB, "schedules, slow or failing git steps, aborting and slow clients", "bounded-progress (liveness) checks over the history"),
 "C06": (WEB, "request histories around the ten-minute limit, clock jumps, pushes and failures", "a cache reference model"),
 "C07": (WEB, "request histories, schedules and simulated time", "a cache reference model and the record of git steps"),
 "C08": (WEB, "histories of pushes to the remote and requests", "the recorded ref history of the remote and of the clone"),
 "C09": (WEB, "histories of pushes, garbled, failing and killed git steps", "the recorded ref history of the remote"),
 "C10": (WEB, "open, read and directory errors at any file and offset", "the reference model with the lost files removed"),
 "C11": (WEB+" and the command line binary", "pairs of runs that differ in schedules, read sizes, interruptions, directory orders, hash seeds, clocks and preceding requests", "comparison of the answers byte by byte and the reference model"),
 "C12": (WEB, "histories of hostile revisions, patterns, repository names and links in repositories", "the recorded file opens, directory listings and processes, and the state of everything around the exposed checkouts"),
 "C13": (WEB, "configurations and failing, killed, garbled and slow git steps of the start-up", "the start-up conditions computed from the configuration, against exit status, listening socket and first pages"),
 "C15": (CLI, "failing, killed and torn git steps, crash points and pushes over sequences of runs", "the reference model over the parsed output and exit status"),
 "C16": (CLI, "short, interrupted and failing writes at any offset", "byte comparison with the output of an undisturbed run"),
 "C17": (CLI, "open and read errors at any file and offset, short reads, interruptions and unparsable files", "the reference model over the parsed output and exit status"),
 "C18": (CLI, "hash seeds (visiting orders) and generated weight functions", "an executable reference model that evaluates all corners"),
 "C19": (PAGES, "sequences of user actions, answer orders, delays, losses and failures, navigations and returns", "checks of the selectors, displays and started comparisons against the answers received, at every moment of rest"),
 "C20": (PAGES, "sequences of user actions, answer orders, delays, losses and failures, navigations and returns", "checks of the overlay at every moment of rest"),
 "C21": (PAGES, "lists of merge requests, sequences of double-clicks, answer orders, delays, losses and failures", "checks of every started comparison and of the listed rows against the answers received"),
 "C22": (PAGES, "sequences of changed controls, addresses and anchors, slow, replaced and stopped navigations, returns and reloads", "checks of the controls against the page's address and of every started comparison against the changed control, at every moment of rest"),
 "C14": (WEB, "generated hostile repository content in concurrent histories", "liveness checks and the reference model"),
}
PN = "Seeded search, not exhaustive. The unmodified page scripts run on pages that the built server renders, in a simulated browser (document model, events, timers, storage, navigation) with a simulated user, clock, server and GitHub; select2, DataTables and bootstrap are stand-ins. Every failure replays exactly from a minimised plan file. See DESIGN.md for the bounds."
NOTES = {"C19": PN, "C20": PN, "C21": PN, "C22": PN}
def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks = []
    for p in P:
        i = p["id"]
        if i not in CLAIMS: continue
        w, o, j = CLAIMS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": T.format(what=w, over=o, oracle=j),
            "level": "exploration",
            "level_note": NOTES.get(i, "Seeded search, not exhaustive. The unmodified binaries run under a preloaded scheduler that owns threads, clocks, randomness, sockets, processes and file faults; every failure replays exactly from a minimised plan file. See DESIGN.md for the bounds."),
        })
    na = [{"property": i, "reason": w} for i, w in NA]
    na += [{"property": p["id"], "reason": "check under construction"} for p in P if p["id"] not in CLAIMS and p["id"] not in dict(NA)]
    m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
