#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={
'C21':'A pure function of its argument: no stream, schedule, clock, failure or history takes part, so there is nothing for a simulator to control; deciding it would be plain input generation against a second Hilbert implementation. (The order the index builder really uses is still checked where it reaches a stream: C02 and C07 check that the leaves of a written index describe the features as they lie in the file.)',
'C22':'A pure arithmetic function: no nondeterminism, I/O or history is involved. (Its results are checked indirectly where they govern I/O: C05 and C17 compare the bytes really written and read with an independent size computation.)',
'C23':'Pure functions from a value to a string: no nondeterminism, I/O or history is involved. (That the summaries do not panic on damaged values, race, or change when interleaved is part of C11, C15 and C16.)',
}
fam='deterministic simulation with fault injection: seeded search, '
T={
'C01':'writer to reader over simulated streams (split, empty, data-with-EOF transfers), compared with an independent model of the format',
'C02':'write histories with rejected calls and failed-and-retried writes; the bytes the simulated stream accepted are compared with an independent encoder',
'C03':'search, read and rewind histories over simulated streams, compared with brute force',
'C04':'streaming searches over simulated seekable streams, compared with brute force, final position checked',
'C05':'index serialization to and from simulated streams with write failures, cuts and read failures',
'C06':'random reader call histories against a cursor model',
'C07':'random writer call histories with invalid calls against a prefix-of-a-valid-file model',
'C08':'write failures at any operation or byte (torn, after-all, device full, transient, permanent) with retries',
'C09':'read and seek failures at any operation or byte, in reader, streaming search and deserialization histories',
'C10':'files cut at any byte, read back over simulated streams',
'C11':'damaged files, indexes and property blocks; panic, hang (operation budget and CPU watchdog) and memory bound monitored on every call',
'C12':'close at any point of reader and writer histories, with close failures and earlier stream failures',
'C13':'property values over simulated streams, compared with an independent encoding',
'C14':'property streams failing or ending at any byte, write failures at any byte',
'C15':'token scheduler interleaving tasks at every search step and stream operation, under the race detector, compared with lone runs',
'C16':'token scheduler interleaving independent tasks at every stream operation, under the race detector; outcome of each compared with its run alone',
'C17':'every stream request and position checked against the item in progress; files back to back',
'C18':'producer and consumer on a slow link in virtual time; each item must be returned without a later byte, progress bounded in operations',
'C19':'returned values kept and compared after later calls; results, lists and arguments overwritten by the simulated caller',
'C20':'valid, invalid, cut and failing preambles over simulated streams against an acceptance predicate',
}
N={
'C13':' Known finding: PropReader.ReadInt (pinned by an existing test) is listed in known-findings.txt; any other wrong value is still reported.',
'C11':' The memory bound checked is 48 MiB plus 400 bytes per input byte for one call.',
'C15':' Data races are seen by the Go race detector on the schedules executed; yield points are the guarded hook in the index search loop and all stream operations. Races inside code without a yield point are still seen by the detector because the scheduler adds no synchronisation between tasks.',
'C16':' Data races are seen by the Go race detector on the schedules executed; the scheduler adds no synchronisation between tasks.',
}
checks=[]
for p in P:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","evidence_file":f"evidence/{i}.json",
      "technique":fam+T[i],"level":"exploration",
      "level_note":"No violation in the seeded runs executed (counts in the evidence file); sampling, not a proof. Real code: packages flatgeobuf, flatgeobuf/flat, packedrtree and the FlatBuffers runtime. Simulated: the caller's streams"+(", the goroutine schedule" if i in('C15','C16','C18') else "")+". Trusts the reference model and encoder in /verif/sim."+N.get(i,"")})
m={"version":1,"setup_cmd":"./check.sh setup",
 "hooks":{"guard":"build tag verif","enable":"go build -tags verif (done by check.sh)","source_commits":["1074499836dd9ad2080ba6377f4cd0139c5f13c0"]},
 "checks":checks,
 "not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"Every violation prints its seed, a minimised decision trace is written to replays/, and './check.sh replay FILE' reproduces it. VERIF_RUNS, VERIF_LIMIT and VERIF_WORKERS override run count, time limit and processes."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
