#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (run by hand, result committed)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
T = "deterministic simulation with fault injection: seeded search over schedules, inputs and fault sequences"
checks = {
"C01": ("simulated network of SM2 key exchange parties; oracle: independent GM/T 0003 reference", "Seeded search, not exhaustive. Trusts the reference SM2/SM3 model in ref/ (checked against standard vectors), which shares no code with gm."),
"C02": ("simulated network with hostile peer data; oracle: reference acceptance rules, crash and step-bound monitors", "Seeded search, not exhaustive. Crash = panic escaping the API, hang = step budget exceeded."),
"C03": ("simulated streams with read faults and interleaved hash objects; oracle: reference SM3", "Seeded search; the >2 GiB histories run on the uninstrumented build."),
"C04": ("fault-injecting randomness source; oracle: reference SM2 and outcome rules", "Seeded search over failure points, short reads, stalls and hostile values."),
"C05": ("recorded randomness draws against recovered scalars, concurrent histories, statistical range tests", "Seeded search; uniformity is decided by bounded statistical and boundary-steering tests with a false-alarm probability below 1e-9."),
"C06": ("simulated storage/transport faults between signer and verifier; oracle: reference SM2 verification", "Seeded search; agreement with an independent implementation in both directions."),
"C07": ("simulated storage/transport faults between encryptor and decryptor; oracle: reference SM2 decryption", "Seeded search; agreement with an independent implementation in both directions."),
"C08": ("simulated faulty storage and threads sharing a cipher; oracle: reference SM4 and damage-containment rule", "Seeded search."),
"C09": ("seeded preemptive schedules of mixed calls on shared objects; oracle: results valid alone", "Seeded search; preemption at every statement of gm, sequentially consistent memory."),
"C10": ("call histories with retries over guarded arguments; oracle: before/after comparison and replay of the same call", "Seeded search."),
"C11": ("simulated requester, transit damage and authority; oracle: template model and reference signature check", "Seeded search."),
"C12": ("simulated issuance jobs, external signers, clocks and storage damage; oracle: template model, reference signature, crypto/x509 differential", "Seeded search."),
"C13": ("operation sequences with space exhaustion and aborted callbacks; oracle: reference encoder", "Seeded search."),
"C14": ("fragmented, truncated and damaged messages; oracle: reference DER reader", "Seeded search."),
"C20": ("simulated foreign issuers, transit damage and authorities; oracle: content model of the encoder and reference signature check", "Seeded search."),
"C21": ("simulated deployment of parties with disk, network, crash and restart; oracle: delivery model (exactly once, unaltered, bounded time after faults stop)", "Seeded search; the parties' protocol, disk and network are the simulator's, the cryptography, encodings and certificates are gm's."),
}
have = [l.strip() for l in open("tools/claimed").read().split()]
na = {
"C15": "A pure function of one input: no concurrency, time, I/O or multi-party behaviour for the simulator to vary. (C03 compares every streamed digest of its runs with the same reference.)",
"C16": "A pure function of a key and a block: nothing for a scheduler or fault injector to decide. (C08 compares every block of its runs with the reference.)",
"C17": "A pure round trip on one value: no schedule, fault or history. (C06 and C07 check the encodings met in their runs against the reference.)",
"C18": "A pure round trip on one input. (C08 and C10 check the padding calls of their runs.)",
"C19": "Needs observation of real execution time or cache state, which deterministic simulation removes by design; the code uses math/big and table lookups and does not claim it.",
}
m = {"version": 1, "setup_cmd": "./build.sh",
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
   "evidence_file": f"evidence/{p}.json", "technique": T + "; " + checks[p][0], "level": "exploration", "level_note": checks[p][1]} for p in have],
 "not_applicable": [{"property": p, "reason": r} for p, r in na.items()] +
   [{"property": p, "reason": "check under construction"} for p in checks if p not in have],
 "notes": "No hooks in /repo: the scheduler's yield points are inserted into a build-time overlay of the current working tree (cmd/instr), and randomness is seamed through crypto/rand.Reader. Replay a violation with ./replay.sh FILE."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
