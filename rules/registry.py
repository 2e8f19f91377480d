"""properties, analysed translation units and rule tasks"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

PROPS = {}
for _l in open(os.path.join(VERIF, "properties.jsonl")):
    if _l.strip():
        _d = json.loads(_l)
        PROPS[_d["id"]] = _d["title"]

SOURCES = {"main": "src/nlcglib.cpp", "la": "witness/la_ops.cpp", "comm": "witness/comm.cpp"}

SOLVER = ["P01", "P02", "P03", "P04", "P05", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P15", "P18", "P19", "P20", "P21", "P23", "P24", "P25"]

TASKS = []
for _i, _n in enumerate(["FERMI_DIRAC", "GAUSSIAN_SPLINE", "GAUSS", "METHFESSEL_PAXTON", "COLD"]):
    TASKS.append({"name": "optimiser/" + _n, "fn": ("solver", "task"), "arg": _i, "src": ["main"], "props": SOLVER, "cost": 20})

TASKS.append({"name": "smearing functions", "fn": ("smearing", "task"), "arg": None, "src": ["main"], "props": ["P06"], "cost": 3})

TASKS.append({"name": "entry points", "fn": ("entries", "task"), "arg": None, "src": ["main"], "props": ["P04", "P20"], "cost": 2})

TASKS.append({"name": "dense operations", "fn": ("dense", "task"), "arg": None, "src": ["la"], "props": ["P12"], "cost": 2})
TASKS.append({"name": "communication wrappers", "fn": ("comm", "task"), "arg": None, "src": ["comm"], "props": ["P10", "P16", "P24"], "cost": 3})
for _i, _n in enumerate(["FERMI_DIRAC", "GAUSSIAN_SPLINE", "GAUSS", "METHFESSEL_PAXTON", "COLD"]):
    TASKS.append({"name": "logging/" + _n, "fn": ("logs", "task"), "arg": _i, "src": ["main"], "props": ["P17", "P22"], "cost": 15})

_GVF = "gated value-flow analysis (merging abstract interpretation, loop phis, BDD guards) with value equality by random interpretation"
_NOTE = ("Covers every path of the analysed translation unit (no path enumeration, no bounds on k-points or iterations); loop-carried "
         "equalities are inferred inductively. Value equality is probabilistic (random worlds), external libraries and the host are modelled.")
TECH = {p: (_GVF, _NOTE) for p in PROPS}
NA = {p: "check under construction" for p in PROPS if not any(p in t["props"] for t in TASKS)}
