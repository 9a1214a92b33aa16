#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED maps property id -> (technique, level note)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    "C01": ("stateful model-based PBT of a real cosigner with restarts, against a reference watermark model",
            "Random request/announcement/restart histories; assumes nothing beyond the harness' own parsing of messages."),
    "C02": ("stateful PBT of rings of real cosigners with simultaneous leaders and injected peer faults; invariant over all released signatures",
            "Explores histories of up to 24 steps and concurrent rounds on rings of 2..5 cosigners."),
    "C03": ("stateful PBT of a leader validator over a ring with arbitrary peer replies; every released signature verified against the group key and an independent threshold check",
            "Peers' replies are drawn (correct, corrupted, swapped, replayed, partial); signatures judged with the standard library."),
    "C04": ("stateful PBT of request histories on one leader against a reference table of what was signed",
            "Histories of new, repeated, timestamp-varied, conflicting and stale requests."),
    "C05": ("stateful PBT of signing histories with the state files read at each release, plus SIGKILL fault injection into a signing child process and unwritable directories",
            "Kill moments are drawn delays; file content is judged by the harness' own JSON reading."),
    "C06": ("round-trip PBT of sign-state files and mutation of valid files, against a reference comparison of positions",
            "int64 extremes, all damage kinds of the generator, files of both origins."),
    "C07": ("stateful PBT of a real cosigner against a hostile peer that chooses parts, order and repeats; nonce-reuse detector over all answers",
            "The detector recovers nonces algebraically from answered shares."),
    "C08": ("PBT and field-wise mutation of nonce parts, opened with every key and interpolated over drawn subsets; refused tampering must leave no trace",
            "Mutations of every field of a part, forgeries and replays on rings of 2..7."),
    "C09": ("PBT of key splitting through library and CLI with reconstruction from every or sampled subsets",
            "Subsets are enumerated up to a bound and sampled beyond."),
    "C10": ("round-trip PBT and structured/byte-level mutation fuzzing of key share files",
            "Mutants judged by an independent reading of the JSON."),
    "C11": ("round-trip and differential PBT plus byte-level fuzzing of sign-byte parsing against tendermint's own encoder",
            "Explores generated canonical messages and mutations of their encodings."),
    "C12": ("fault-injection PBT: drawn up/erroring/hanging/slow peers per request, liveness and bounded-time oracle",
            "Time bounds are generous (several times the documented timeouts)."),
    "C14": ("stateful PBT of real clusters of 2..5 horcrux processes with sentries, transfers, kills and restarts; safety invariant over the whole history and liveness oracle while a leader is established",
            "Histories of up to 9 steps; liveness is judged only while members agree on a leader."),
    "C15": ("stateful PBT and protocol fuzzing of sentry connections (valid, invalid, malformed, pipelined, cut) against a recording validator and a real ring",
            "Frames drawn from a grammar of valid and broken messages."),
    "C16": ("stateful model-based PBT of config command sequences through the real binary, against a reference configuration model and file snapshots",
            "Sequences over drawn addresses, IDs, thresholds and damaged starting configurations."),
    "C17": ("stateful model-based PBT of state/chain-id/init commands through the real binary, with full file snapshots as oracle",
            "Sequences over several chains and drawn watermarks, including unwritable targets."),
    "C18": ("stateful model-based PBT of the single-signer process with kills and restarts, against a watermark model",
            "Kill moments are drawn delays; states imported in both documented formats."),
    "C19": ("PBT of concurrent call schedules under the race detector, with a linearizability search against watermark and register models",
            "Schedules are those the Go scheduler produces under drawn call lists and delays."),
    "C20": ("PBT of drawn good and defective configurations started through the real binary; oracle from the documented rules",
            "One defect kind per configuration, drawn over shapes and values."),
    "C21": ("differential PBT: remote cosigner calls against the same calls made directly, with fault-injecting and echoing servers",
            "Arguments drawn over full ranges; both directions judged field by field."),
    "C22": ("PBT of the address command through the real binary; outputs decoded by an independent bech32 reader",
            "Drawn keys and lower-case prefixes."),
    "C23": ("PBT of commands, sign histories and real processes with everything they put out recorded, searched for encodings of pieces of all secrets",
            "Finds verbatim encodings (raw, hex, base64, decimal), not derived values."),
    "C24": ("metamorphic PBT over long histories: the same drawn work repeated many times must leave as many entries, goroutines, descriptors and files as a few repetitions",
            "Growth below one entry per six repetitions would be missed; raft's own log is not counted."),
    "C25": ("stateful PBT of the documented migration procedure carried out with the real binary, then requests, restarts and additions, against the old validator's record",
            "2 to 4 members, short histories; deeper histories are C14's."),
    "C26": ("stateful PBT of real signer processes with drawn signals at drawn moments of drawn histories; exit status, output, files and behaviour after the restart judged",
            "Moments within a request are drawn times, not enumerated program points."),
    "C27": ("structured and mutational fuzzing of a real member's network service (typed calls, damaged encodings, raw connections), with honest calls interleaved; survival, answers, state files and signatures judged",
            "The raft methods on the same port are the library's and are not fuzzed."),
    "C13": ("stateful model-based PBT of a real cosigner process with raft log, kills, snapshots and restarts, against a reference store and watermark",
            "One-member raft log; clusters of several members are explored by C14."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 run.py --warm",
     "checks": [], "not_applicable": [],
     "notes": "Harness: harness/ is compiled into /repo's module through a go build overlay; no hooks in /repo. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": CLAIMED[i][0], "level": "exploration", "level_note": CLAIMED[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "Not claimed yet: its generator is still being built."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
