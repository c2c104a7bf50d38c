#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks the simulator implements."""
import json, subprocess, sys
root = "/verif"
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {
 "C23": "A pure function of its input: building and parsing a command involves no schedule, clock, fault or interleaving, so simulation would be input generation under another name. (Commands the simulated clients build are parsed by the real server in C05-C13 and C22, which is not claimed as deciding this.)",
 "C24": "A pure function of its input: a reply line is built and parsed in one call without schedule, clock, fault or interleaving. (What of it reaches the wire under back-pressure is C11.)",
 "C25": "A pure function of its input: address parsing has no schedule, clock, fault or interleaving. (That no address can crash or derail a session is C12.)",
}
SEAM = {
 "data": "Real DataSink/DataStream/Prependable on a simulated connection and scheduler.",
 "sess": "Real smtp_server::interact with everything below it; simulated connection, client, policy and scheduler; replies, callbacks and outcomes are compared with an executable reference model of the session.",
 "flow": "Real DataStream/Prependable, bare and below the real smtp_server::interact, on a simulated connection whose sender waits for what it sent to be handed on.",
 "prep": "Real Prependable on a simulated stream; reads are compared with a reference queue.",
 "queue": "Real smtp_queue::run, tokio spawn and tokio timer on a simulated durable store, transport, clock and scheduler with process crashes.",
 "e2e": "Real queue, codecs, framing and server joined over a simulated network between two hosts that crash and restart; only the client's control flow, the store and the mailbox are simulated.",
}
KIND = {**{c: "data" for c in ("C01", "C02", "C04")}, "C14": "prep", "C22": "e2e", "C26": "flow",
        **{c: "queue" for c in ("C15", "C16", "C17", "C18", "C19", "C20", "C21")}}
have = set(sys.argv[1:]) or {p["id"] for p in props} - set(NA)
checks = []
na = []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    if i not in have:
        na.append({"property": i, "reason": "Not built yet."})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"./check.sh {i} --thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and faults, with minimised replayable tapes",
        "level": "exploration",
        "level_note": SEAM[KIND.get(i, "sess")] + " Samples executions (hundreds of thousands in quick, tens of millions in thorough) and does not enumerate them; trusts the simulator, its oracles and the assumptions listed in the evidence file.",
    })
hooks = [c for c in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if c.split(" ", 1)[1].startswith("hook:")]
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "hooks": {"guard": "cfg yuubind_sim", "enable": "RUSTFLAGS=\"--cfg yuubind_sim\" (set by check.sh)", "source_commits": [c.split()[0] for c in hooks]},
    "checks": checks,
    "not_applicable": na,
    "notes": "Replay a violation with: target/release/yuusim replay replays/<file>.json. Violations found and repaired, and known findings, are in known-findings.txt.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
