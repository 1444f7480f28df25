"""Writes MANIFEST.json from the check modules present (python3-vt tools/mkmanifest.py)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C20": "pure functions of a few numbers: no scheduling, time, I/O, failure or history for a simulator to vary; only sampling of inputs would remain, which is a different technique",
    "C21": "closed-form pure functions of dimensions and density: no schedule, fault or history influences them",
    "C22": "a pure function of one array and a tolerance: no schedule, fault or history influences it (its use inside sessions is exercised by C10, C12 and C17)",
}
TECH = "deterministic simulation with fault injection: seeded search over "
WHAT = {
    "C01": ("legal I/O schedules (short, split, interrupted transfers, simulated clock) for write + read histories", "every write+read history explored round-trips and the file satisfies an independent strict parser"),
    "C02": ("placements of open, write, close and disk-full failures on the write path, library and command line", "every failure that fired was reported by an exception or a nonzero exit status"),
    "C03": ("kill points after and during the writes of library calls and simulated command-line processes", "every acknowledged output was complete on the simulated disk after the kill"),
    "C04": ("truncation points and read failures for every readable format", "no damaged or failing input was accepted as a mesh that differs from the complete file"),
    "C05": ("damaged files, capped, short, interrupted and failing reads with step and operation budgets", "every load ended within steps linear in the file size"),
    "C06": ("read, write, open, close and disk-full failures, torn files and array layouts", "arguments, other files and descriptors were unchanged after success and failure"),
    "C07": ("failures and kills of simulated command-line processes at every phase", "input and earlier output kept their contents"),
    "C08": ("option combinations, failing options and system-call failures of simulated command-line processes, against a reference pipeline on plain lists", "exit status 0 was only seen with the reference result in the output file"),
    "C09": ("clocks, hash seeds, environments, directories, I/O schedules and process histories", "outputs were byte-identical apart from the date stamp"),
    "C10": ("operation and query histories of a mesh, refinement against a newly built mesh", "every query agreed with the cache-free reference at each step"),
    "C11": ("interrupt points (bytecode boundaries) and allocation failures inside mesh operations", "the mesh was coherent and usable after every injected interruption"),
    "C12": ("operation histories with interleaved queries, refinement against elementary definitions on plain lists", "every history ended in the reference geometry"),
    "C13": ("operation histories over several meshes, copies, results and source arrays", "no operation changed a bystander"),
    "C14": ("thread interleavings at bytecode level of queries on a shared mesh", "every query returned the sequential answer"),
    "C15": ("thread interleavings and interleaved sessions of independent work", "every session's history equalled its solo run"),
    "C16": ("interleavings of the file operations of several simulated command-line processes, with kills and I/O errors", "every process gave its solo output and exit status"),
    "C17": ("setter and query histories of clippers with interrupts and allocation failures", "every result equalled that of a new clipper and satisfied area conservation"),
    "C18": ("hydrostatics call histories with interrupts and allocation failures, against an independent integrator", "answers were repeatable, right, and inputs unchanged"),
    "C19": ("reduction-point histories, reads and aliasing of a rigid body inertia", "every history gave the direct transport's values"),
    "C23": ("change and question histories of planes with interrupts and shared arrays", "every answer was that of the normal and position reached"),
    "C24": ("option sets and I/O failures (standard output and report included) of simulated command-line processes, against an independent integrator", "exit status 0 was only seen with the right numbers, completely written"),
    "C25": ("layouts of files of other programs under short and interrupted reads, library and command line", "every sound file was read as the mesh it describes and every unsupported one was refused"),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "sim", "checks", pid.lower() + ".py")
    if os.path.exists(path) and pid in WHAT:
        consts = {}
        for n in ast.parse(open(path).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "LEVEL":
                consts["LEVEL"] = ast.literal_eval(n.value)
        tech, note = WHAT[pid]
        checks.append({"property": pid, "quick_cmd": "./check " + pid, "thorough_cmd": "./check %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH + tech, "level": consts["LEVEL"],
                       "level_note": "Seeded search, not exhaustive: " + note + " on the runs explored; each failure replays from its file. Trusts the simulator seams listed in DESIGN.md."})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B sim/shim.py && ./check --help >/dev/null", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam (system calls, clock, malloc, interrupts, thread switches) is reached from outside through an LD_PRELOAD "
              "library and Python tracing, so the shipped code runs unmodified. Findings and fixes: KNOWN_FINDINGS.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
