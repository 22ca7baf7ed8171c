# Writes MANIFEST.json: python3 tools/manifest.py C01 C02 ... (the claimed properties)
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
claimed = sys.argv[1:]
SIM = "deterministic simulation with fault injection: "
TECH = {
 "C01": "seeded schedules of parse tasks on shared grammars, each operation against itself alone and a reference interpreter",
 "C02": "seeded schedules under the race detector, the simulator itself creating no ordering between tasks",
 "C03": "seeded histories with aborted, failed and nested parses, each parse against a fresh grammar",
 "C04": "panics and goroutine exits injected at seeded calls, in seeded schedules and histories",
 "C05": "seeded sets of rejected calls, against a reference interpreter",
 "C06": "seeded rejections on grammars sharing labelled prefixes, values against a reference interpreter and against their snapshots",
 "C07": "seeded rejections, evaluations counted per rule and position by zero-width probes",
 "C08": "seeded memoization settings and rejections, differential and against a reference interpreter",
 "C09": "seeded pathological grammars and texts with faults in several tasks, step budget and internal panics as violations",
 "C10": "seeded trace options and stdout faults, differential against the muted run",
 "C11": "seeded schedules of traced and untraced parses and environment changes, bytes written against the operation alone",
 "C12": "seeded schedules of compilations (shared lines, shared lazy compiler) and parses, against compiled alone and a reference interpreter",
 "C13": "failed compilations injected in seeded schedules and histories, against the same without them",
 "C14": "seeded schedules of tokenizations and parses, against go/scanner",
 "C15": "seeded position moves by parse functions, against a reference interpreter",
 "C16": "seeded rejections on left recursive grammars, against a reference interpreter",
 "C17": "nested parses injected at seeded calls, against the run without them",
 "C18": "destruction of the compiler grammar injected in seeded schedules, against the run without it",
 "C19": "seeded chunking, pauses and errors of stdin, against the session read at once and line by line",
 "C20": "seeded modifications of returned values in schedules and histories, values dumped again at the end",
 "C21": "seeded histories of rewound token streams with aborted parses, against fresh streams and a reference interpreter",
 "C22": "seeded schedules of reads and settings with failing computations, linearizability against a sequential specification",
 "C23": "seeded map iteration orders and histories, differential against the sorted order",
}
NOTE = "Sampling, not proof: what is decided is the seeded scenarios that were executed (evidence file). Every run executes the real sources of /repo, with scheduling points added before each statement by a build overlay; trusted: the simulator, the reference interpreter where one is used, the Go compiler."
NA = {
 "C24": "a pure function of the rule strings: no schedule, fault, clock or history takes part in it (what does, concurrent or failed compilations and either compiler grammar, is in C12, C13 and C18)",
 "C25": "a pure function of the text and the grammar, without any schedule or fault",
 "C26": "pure conversions of values, without any schedule or fault",
 "C27": "evaluation of expressions is a pure function of the program; the input of the REPL, which is not, is in C19",
}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none: nothing is added to /repo; the scheduling points and seams are put in copies of its sources by a build overlay (go build -overlay)",
           "enable": "bash build.sh OUTDIR (instruments the current /repo sources into OUTDIR and builds the simulator with -overlay)", "source_commits": []},
 "checks": [], "not_applicable": [],
 "notes": "replay a violation with: bash replay.sh replays/FILE.json"}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
          "technique": SIM + TECH[i], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
