#!/usr/bin/env python3
# Regenerates MANIFEST.json from the registered properties.
import json,sys,os,subprocess,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=sorted(set(re.findall(r'ID:\s+"(C\d+)"',"".join(open(os.path.join(V,'harness',f)).read() for f in os.listdir(os.path.join(V,'harness'))))))
props=[json.loads(l) for l in open(os.path.join(V,'properties.jsonl'))]
SCHED={'C08','C09','C11','C12','C13','C14','C15','C16','C17','C18','C19','C20','C24','C26','C27','C28','C29'}
FAULT={'C10','C25'}
def tech(i):
    if i=='C24': return 'stateless model checking of the real code with a happens-before race detector on every explored schedule'
    if i in FAULT: return 'stateless model checking of the real code: exhaustive fault-point and schedule enumeration'
    if i in SCHED: return 'stateless model checking of the real code: exhaustive delay-bounded schedule exploration'
    return 'stateless model checking of the real code: exhaustive bounded enumeration of inputs and operation sequences'
m={"version":1,"setup_cmd":"./check setup","checks":[],"not_applicable":[],
"notes":"The library's sources are rewritten on the fly (instr) so that every goroutine, channel, lock, atomic, timer, clock, pool and fmt call goes through the controlled runtime in mc; the harness drives the real code through its exported API only. No hooks are committed in /repo. 'check replay FILE' re-runs a recorded violation."}
for p in props:
    i=p['id']
    if i in ids:
        m['checks'].append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":tech(i),"level":"model_checking",
        "level_note":"Every execution of the listed closed scenarios up to the stated bound (schedule deviations, input choices, fault points) is run on the real, mechanically rewritten code and judged by an independent oracle; nothing is sampled. Assumes the rewriting to vh/mc preserves Go semantics, sequential consistency between synchronisation points, and that bugs show within the scenarios' sizes and bounds."})
    else:
        m['not_applicable'].append({"property":i,"reason":"No check has been built for it."})
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
print(len(m['checks']),'checks')
