#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
gen="deterministic simulation of the whole compiler with fault injection: %s"
notes={
"C01":("seeded storage faults at chosen operations of simulated builds, output compared with an undisturbed build",""),
"C02":("seeded command lines, faulty sources and storage faults, exit status compared with what was written",""),
"C03":("pairs of simulated builds under different map orders, directory orders, clocks, hosts and earlier outputs",""),
"C04":("seeded kills and power losses at chosen operations, followed by a second run",""),
"C05":("seeded faulty sources and read errors, output directory compared before and after",""),
"C06":("seeded placements, package names, faults and kills, every file system operation monitored",""),
"C07":("seeded corruption of source files, termination within a step bound and absence of panics for all targets",""),
"C08":("seeded schedules of concurrent builds in one process, compared with builds alone, with the race detector on the simulated schedule",""),
"C09":("seeded schedules of concurrent parsers on one position set against a reference model, with the race detector on the simulated schedule",""),
}
svc={
"C10":"seeded histories of generated database operations with injected database errors against a model of the table",
"C11":"seeded values and histories written and read through generated database code against a model",
"C12":"seeded interleavings of clients with lost acknowledgements and crashes, linearizability of the recorded history",
"C13":"seeded transactions with rollback, failed commit, connection loss and crashes, checked against a model of visibility",
"C14":"seeded histories of several nodes over one simulated cache with faults and crashes, reads checked against the table's history",
"C15":"seeded interleavings on a simulated clock, every read checked against the table's states within the expiry",
"C16":"seeded reads of many queries and tables with a shared cache against reads without it",
"C17":"seeded cache failures at chosen commands, reads and invalidations checked",
"C18":"seeded crashes and cache failures followed by a fault-free period, locks and cache use checked within a bound",
"C19":"seeded concurrent calls over a simulated network with delay, reordering, duplication and loss, requests and replies matched",
"C20":"seeded failures of methods, nodes and messages, reported results matched with recorded executions",
"C23":"seeded calls between generated Go and generated TypeScript clients and servers in one process (Go as WebAssembly) over a simulated network and clock with message faults and crashes, every request and response compared across the languages",
"C26":"seeded calls between generated TypeScript clients and servers over a simulated network and clock with message faults and crashes, executions and replies matched with their calls",
"C21":"seeded registration, crash and disappearance of services around lookups and bound calls",
}
done=set(json.load(open('/verif/tools/done.json')))
na_reason={
"C22":"Whether generated text compiles is a pure function of the schema: no schedule, clock, fault or interleaving is involved, so it is not a simulation target (the service simulator compiles the Go output of its schemas only as a precondition).",
"C24":"Validation is a pure function of the value checked; no nondeterminism or fault is involved.",
"C25":"The position in a diagnostic is a pure function of the source text; no nondeterminism or fault is involved.",
}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in done:
        t=notes[i][0] if i in notes else svc[i]
        checks.append({"property":i,"quick_cmd":"./run.sh check %s quick"%i,"thorough_cmd":"./run.sh check %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,
          "technique":"deterministic simulation with fault injection: "+t,
          "level":"exploration",
          "level_note":("Seeded search over inputs, schedules and fault sequences of real code under a simulator; a clean run is evidence for what it sampled, not a proof. Trusts the simulated operating system, the source instrumentation and the oracle." if i in notes else
            "Seeded search over histories, schedules and fault sequences of code that the present generator produced, run under a simulator; a clean run is evidence for what it sampled, not a proof. Trusts the simulated database, cache server and network, the schema description and the oracle."+(" The runtime library that generated TypeScript code imports is a stand-in." if i in ("C23","C26") else ""))})
    else:
        na.append({"property":i,"reason":na_reason.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./run.sh setup","checks":checks,"not_applicable":na,
 "notes":"No hooks in the repository: the generator's seams are put in by instrumenting a scratch copy of /repo's present tree, generated code is run through the seams its runtime library has. Findings repaired or left: known_findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write("\n")
