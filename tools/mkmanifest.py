"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]

STATELESS = "stateless model checking: deviation-bounded exhaustive exploration of the implementation against an executable reference model"
HIST = "stateless model checking: exhaustive exploration of operation histories on the real code (fork tree), with a reference model or a fresh process as oracle"
FAULT = "exhaustive fault enumeration: a crash or error at every file-system operation of the real process, with recovery checked after each"
SCHED = "stateless model checking of processes under a controlled scheduler: every interleaving of their file-system operations up to a preemption bound"
TECH = dict(V03=HIST, V11=HIST, N02=HIST, N04=HIST, C01=HIST, C03=FAULT, C04=FAULT, C02=HIST, C06=SCHED)
NOTE = {}
exec(open(os.path.join(here, "tools", "notes.py")).read()) if os.path.exists(os.path.join(here, "tools", "notes.py")) else None
DEFAULT = ("Every execution within the stated bound is run on the code in /repo and compared with a model written from the property; nothing is said beyond the bounds in DESIGN.md. "
           "Trusts h5py/HDF5, lxml and the reference model (which reads the NXDL files itself).")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i, technique=TECH.get(i, STATELESS),
                           level="fault_enumeration" if i in ("C03", "C04") else "model_checking", level_note=NOTE.get(i, DEFAULT)))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup", hooks=dict(guard="PUNX_MC", enable="no hooks are used: the checks import /repo as it is", source_commits=[]), checks=checks, not_applicable=na,
         notes="All checks run the unmodified implementation; see DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
