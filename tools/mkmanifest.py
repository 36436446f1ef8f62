#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = {
 "C01": "Every write the client issues is compared byte for byte with the torrent's content, at every write of every run.",
 "C02": "When the download reports success the file tree is compared with the torrent at that instant; cancel, stop and disk faults fall on every step.",
 "C03": "After the last transient fault the download has to return within a bound computed from the scenario (announce intervals, retry pauses, transfer times).",
 "C04": "Cancel, stop and signals at sampled events; return within ten seconds of simulated time, then no open connection, goroutine, write or traffic.",
 "C05": "Hostile byte streams mixed with an honest swarm: no panic, no spin, no large allocation, and the honest download completes within its bound.",
 "C06": "Hostile tracker answers mixed with healthy trackers: no panic, hang, spin or large allocation, announces go on, the download completes.",
 "C07": "All requests of all connections in the order they are sent: no piece on two connections, none after it was written, each byte once in calm runs.",
 "C08": "Peers that misbehave forever together with honest ones and a free slot: the download completes within a bound.",
 "C09": "A monitor on every connection parses both directions and checks each message against the state of the conversation.",
 "C10": "Every announce and progress line is compared with the bytes of whole pieces on the simulated disk between its creation and its arrival.",
 "C11": "Arrival times of all announces over up to hours of simulated time are compared with intervals, retry limits and pauses.",
 "C12": "Every datagram is parsed and compared; loss, duplication, delay, reordering, truncation and forgery; returned peers and interval compared with the answer.",
 "C13": "Every request is parsed and compared; answers cut, delayed, broken or failing; returned peers and interval compared with the answer.",
 "C14": "Connections and attempts are counted at every dial, per address and in total, with a millisecond of tolerance for one being closed.",
 "C15": "Every file system call is resolved and compared with the output directory; escaping calls are recorded and not executed. Inputs are sampled, with disk faults and leftovers.",
 "C16": "The real connection type reads a scripted stream with every kind of segmentation, pause, timeout and end; compared with the messages sent.",
 "C17": "The process dies before a sampled file system effect, unsynced effects are lost, reordered or torn, and it is started again on what is left.",
 "C18": "The largest pause between two sends on every healthy connection over minutes to hours of simulated time.",
 "C20": "The simulation is built with the race detector: happens-before analysis of every memory access of the client under seeded schedules and faults of all other properties' workloads.",
 "C21": "Every progress line is compared with the connections, trackers, written bytes and clock of the simulation at that instant, and the time between lines is bounded.",
 "C22": "Goroutines, tracker sockets and open files are counted at several instants of long downloads with failing peers and trackers and compared with a bound from the numbers of trackers, addresses and files.",
}
trust = " Assurance: seeded sampling of schedules, timings and faults on the real client code, one seed is one exactly repeatable run; not exhaustive. Trusts the simulated network, disk, clock and scheduler (sim/) and the oracles in sim/cmd/simrun."
na = [
 ("C19", "A pure function of its input: no schedule, clock, I/O or fault in it, so simulation decides nothing that input generation alone would not."),
]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {
  "guard": "none in /repo: the simulator is linked in by go build -overlay, with the build tag faketime",
  "enable": "check.sh builds /repo's packages from the working tree with an overlay of the runtime and standard library, and of the client's files with preemption points added, generated at check time by sim/cmd/simgen",
  "source_commits": [],
 },
 "checks": [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
   technique="deterministic simulation with fault injection: seeded search over schedules and faults, replayable and minimised",
   level="exploration", level_note=n + trust) for i, n in ids.items()],
 "not_applicable": [dict(property=i, reason=r) for i, r in na],
 "notes": "Known findings: known-findings.txt. Design: DESIGN.md. Replay: ./check.sh replay evidence/replay/<file>.json",
}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
