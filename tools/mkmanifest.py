import json
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
todo={}  # property -> reason, for what is not claimed
T="deterministic simulation with fault injection: seeded search over schedules, clocks, backend/network faults and crashes"
N={
"C13":"deterministic simulation of real threads: seeded search over interleavings at every atomic operation and lock",
"C14":"deterministic simulation of real threads: seeded search over interleavings at every atomic operation and lock, linearizability check",
"C15":"deterministic simulation: real Redis client against a simulated server and network, seeded search over operations and network faults",
}
note="Sampled, not exhaustive: tens of thousands of simulated runs of the real engine per quick check, each one seed and exactly repeatable. Trusts the simulated runtime (actix-rt replacement), the interposed clocks, the mini Redis server and the oracle; interleavings are explored at task-poll granularity."
note_t="Sampled, not exhaustive: real code compiled with ThreadSanitizer instrumentation whose callbacks are the simulator's scheduling points; sequentially consistent memory is assumed."
note_r="Sampled, not exhaustive: real aj Redis backend and redis client crate; trusts the mini Redis server, the interposed socket calls and the reference model of lists and hashes."
import sys
todo=dict(a.split('=',1) for a in sys.argv[1:])
checks=[]
for p in props:
    if p in todo: continue
    checks.append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json","technique":N.get(p,T),"level":"exploration",
      "level_note":note_t if p in("C13","C14") else note_r if p=="C15" else note})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[{"property":p,"reason":r} for p,r in todo.items()],
 "notes":"No hooks in /repo were needed: actix-rt is replaced by cargo's [patch], clocks, random numbers and sockets are interposed at the libc boundary, the backend is aj's own trait. Known findings and repaired defects: KNOWN_FINDINGS.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
