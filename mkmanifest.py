#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl (run by hand after edits)."""
import json,os
d=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(d+'/properties.jsonl') if l.strip()]
na={"P17":"a pure function of its input: Encoder::encode has no stream, schedule, clock, fault or shared state, so there is nothing to simulate",
"P18":"a pure function of one line of text: no stream, schedule, clock, fault or shared state is involved in what the line parsers accept",
"P19":"a pure function of its input: StringTable is an in-memory value without stream, schedule, clock, fault or shared state"}
lib="the libraries run in-process on simulated readers and writers; every answer (short, interrupted, failing, damaged) comes from the seed"
cli="the real executable runs on a scratch directory with every file system call answered by the simulator (short, interrupted, failing, killed) and, with several processes, ordered by it"
note={"P01":lib,"P03":lib,"P04":lib,"P09":lib+"; real threads pass one baton at stream calls",
"P10":lib,"P11":lib,"P12":lib,"P13":lib,"P21":lib+"; memory is simulated too: an allocator that refuses what the data met so far do not justify","P02":lib+"; one run in four is the real executable","P14":lib+"; one run in four is the real executable",
"P05":cli,"P06":cli,"P07":cli,"P08":cli,"P15":cli,"P16":cli,"P22":cli,"P20":cli+"; clock, entropy, process id, environment and heap layout come from the seed too"}
checks=[]
for p in props:
    i=p['id']
    if i in na: continue
    checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i,
      "technique":"deterministic simulation with fault injection (seeded search, reference model as oracle)",
      "level":"exploration",
      "level_note":note[i]+". Sampled, not exhaustive; trusts the reference models in sim/src/model.rs and sim/src/rec.rs"+("; a crash is a process crash, not a power loss" if note[i].startswith(cli) else "")+"."})
m={"version":1,"setup_cmd":"./build.sh","checks":checks,
"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"No hooks: the code's own seams suffice (Read/Write arguments of the libraries; libc calls of the executable, intercepted by a preloaded library)."}
json.dump(m,open(d+'/MANIFEST.json','w'),indent=1); open(d+'/MANIFEST.json','a').write('\n')
