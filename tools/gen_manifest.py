#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, re
built = re.findall(r'Prop \{ id: "(C\d\d)"', open('/verif/sim/src/props.rs').read())
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE = {
 "C01": "generated projects against an independent reference assembler, under short/interrupted/failing calls, full disks, descriptor and memory exhaustion",
 "C02": "generated source errors and input-side faults; output path compared before and after",
 "C03": "output-side faults (disk full after any byte, short writes, closed pipes, write/sync/close errors) against a healthy reference run",
 "C04": "pairs of runs with different random numbers, hash seeds, clocks, environments, directories, path spellings and old outputs",
 "C05": "macro-heavy projects against the reference assembler under good, failing and fragmented random sources",
 "C06": "atomic replacement of source files at chosen system calls; the image is searched for among the images of all version choices",
 "C07": "planted errors; place and quoted text compared with the version of the file that was read in the run",
 "C08": "simulated clocks and generated time-zone files; stamp compared with the clock readings of the run in an independent zone model",
 "C09": "VMI bytes against an independent encoder, under faults on the input side",
 "C10": "whole simulated file system compared before and after, also for killed runs",
 "C11": "histories of runs, kills, power losses and edits; the last run compared with a run in a fresh directory",
 "C12": "several assemblies one after another and on simulated threads under a seeded scheduler, against runs alone",
 "C13": "persistent faults; bound on the number of system calls after which a run must have ended",
 "C14": "decoys and failing look-ups; the file used and the warning compared with the inclusion rule",
 "C15": "failing standard error against a working one",
 "C16": "image files delivered in pieces, cut, torn, unreadable; emitted data compared with the complete image",
 "C17": "expand, save, assemble against the reference assembler, under output faults",
 "C18": "listing decoded by an independent reader and compared with the input bytes, under faults and different hash seeds",
 "C19": "listing compared with an independent reachability analysis of every version of the file the run may have read",
 "C20": "two or three processes on one simulated file system under a seeded scheduler that switches at system calls, against each alone",
 "C21": "good inputs, also with very many or deeply nested files, under limits on descriptors, memory, disk, environment and standard input",
 "C22": "the same run with either, both or no stream a terminal, under several terminal types, NO_COLOR and cut writes",
 "C23": "1 to 12 errors in one project; the same command repeated with other random streams, hash seeds, clocks, environments, terminals, standard inputs, old outputs and split calls",
 "C24": "output paths that are new, existing with rights, second names, links, chains of links, dangling links, through linked directories, devices, not writable; with faults; the whole tree compared",
 "C25": "2 to 12 command lines in one process, in sequence (edits, changes of directory, few descriptors) or on 2 to 4 threads under a seeded scheduler",
 "C26": "any subset of the inputs a pipe that can be read once, without size or position, also cut and with errors; compared with regular files",
}
NA = {
 "N01": "a pure function of its input: encoding and decoding read no clock, file, random number or schedule, so a simulator has nothing to vary; the encodings are still compared with an independent encoder wherever C01 and C18 run",
 "N02": "a pure function of the source text; nothing nondeterministic takes part (C01's reference assembler evaluates the same expressions independently as a by-product)",
 "N03": "a pure function of the source text; nothing nondeterministic takes part",
 "N04": "a pure function of the input bytes; nothing nondeterministic takes part",
 "N05": "termination and absence of panics for every text is a property of a pure function; the simulator injects faults and schedules, not grammar-level adversarial text",
 "N06": "a pure function of the source text; the generator writes the same program in many notations as a by-product of C01, but no schedule, fault or clock is involved",
 "N07": "the C interface crate does not build offline here against the pinned lock file, and passing values through is a pure function without I/O of its own",
}
m = {"version": 1, "setup_cmd": "cd sim && cargo build --release --offline -q", "checks": [], "not_applicable": [],
     "notes": "Everything is interposed at the level of libc and system calls inside the harness process, so /repo carries no hooks; its commits are repairs only (see known-findings.txt)."}
for p in props:
    i = p["id"]
    if i in built:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "evidence_file": f"evidence/{i}.json",
          "technique": "deterministic simulation with fault injection: seeded search over faults, schedules, clocks and inputs", "level": "exploration", "level_note": NOTE[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1, ensure_ascii=False); open('/verif/MANIFEST.json', 'a').write("\n")
