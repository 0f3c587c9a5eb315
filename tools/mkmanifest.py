#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
note={
"ledger":"Seeded search over whole-system runs (real coordinator, server and client code under a simulated scheduler, clock, network, terminal and entropy); the oracle is an independent ledger/table model opened with ground-truth secrets. Exploration: no claim beyond the seeds run. Trusts the simulator's shims, the reference group arithmetic and the recorded wire history.",
"adv":"Seeded search over whole-system runs with byzantine peers and tampering on the wire; verdicts come from construction (a forged item must be refused, an honest one accepted) and reference verifiers written from the protocol. Exploration: bounded by the adversary strategies implemented. Trusts the simulator's shims and the reference model.",
"sched":"Seeded search over schedules (preemption between statements, slow nodes and links, chunked delivery) and faults (crash, reset, refused connection, malformed bytes) with safety and bounded-progress checks on the recorded history. Exploration: no exhaustive claim. Trusts the simulator's scheduler and shims.",
}
kind={"C01":"ledger","C02":"ledger","C03":"ledger","C04":"ledger","C05":"adv","C06":"adv","C07":"adv","C08":"adv","C09":"adv","C10":"adv","C11":"sched","C12":"sched","C13":"sched","C14":"sched","C15":"sched","C16":"adv","C17":"adv","C18":"adv","C19":"adv"}
checks=[]
for p in props:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough bash check.sh "+i,
      "evidence_file":"evidence/%s.json"%i,
      "technique":"deterministic simulation with fault injection: seeded search over schedules, faults and adversaries, judged against a reference model",
      "level":"exploration","level_note":note[kind.get(i,"adv")]})
json.dump({"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the instrumented sources are generated at build time from /repo's working tree and compiled through a go build overlay."},open(V+'/MANIFEST.json','w'),indent=1)
