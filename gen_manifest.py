#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the list of built checks and the notes below."""
import json, os, re, subprocess
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
mod=open(here+"/mc/src/checks/mod.rs").read()
built=set(re.findall(r'check!\("(\w+)"',mod))
T={
 "input":"stateless model checking of the real code: exhaustive enumeration of bounded inputs against a reference model",
 "hist":"stateless model checking of the real code: exhaustive enumeration of operation histories against a reference model",
 "fault":"stateless model checking of the real code: exhaustive enumeration of faults/crash points at every intercepted system call",
 "sched":"stateless model checking of the real code: exhaustive enumeration of thread schedules (preemption bounded) under a controlled scheduler",
}
M={"S01":"hist","S02":"fault","S03":"sched","R05":"hist","R06":"hist","R07":"sched","R10":"fault"}
N={
 "S02":"Crash states are built from the intercepted system calls of the real store (prefixes, torn writes, unsynced data lost); the crash model assumes rename and create are atomic and ordered after an fsync of the data.",
 "S03":"All interleavings of intercepted system calls and lock operations up to the preemption bound; code between two such points runs atomically (sequentially consistent).",
 "R07":"All interleavings of intercepted system calls, contended std locks and dashmap lock operations up to the preemption bound; code between two such points runs atomically (sequentially consistent).",
 "R06":"The concurrent process acts at intercepted system calls of the read only; its own steps are those of git repack/gc order.",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in built:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":T[M.get(i,"input")],"level":"model_checking",
          "level_note":"Every execution within the bounds listed in the evidence file is run on the real library and judged. "+N.get(i,"Trusts the harness's reference model, which is validated against the git command where it is installed.")})
    else:
        na.append({"property":i,"reason":"check not built yet"})
commits=[l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%H %s"],capture_output=True,text=True).stdout.splitlines() if "hook (cfg" in l]
json.dump({"version":1,"setup_cmd":"./check.sh build",
 "hooks":{"guard":"rusty_git_mc","enable":"RUSTFLAGS=\"--cfg rusty_git_mc\"","source_commits":commits},
 "checks":checks,"not_applicable":na},open(here+"/MANIFEST.json","w"),indent=1)
