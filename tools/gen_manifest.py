#!/usr/bin/env python3
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
out = subprocess.run([os.path.join(root, "harness/target/debug/verif"), "list"], capture_output=True, text=True).stdout
have = {l.split()[0] for l in out.splitlines()}
NOTE = "Generated-input search ({n} cases in the quick tier) with an explicit oracle: no case explored breaks the property; absence is not proved. Trusts the harness's model and probe services, tokio's paused clock and semaphores/channels; schedules are at poll granularity on one thread{x}."
TH = " (plus generated preemptions across threads in the threads sub-check)"
checks, na = [], []
counts = json.load(open(os.path.join(root, "tools/counts.json"))) if os.path.exists(os.path.join(root, "tools/counts.json")) else {}
for p in props:
    i = p["id"]
    if i in have:
        tech = {"C01": "property-based testing: random middleware stacks and client histories over protocol-checking services",
                "C03": "property-based testing: random stacks and schedules with a lost-wakeup oracle (fresh waker per poll)",
                }.get(i, "property-based testing (proptest, model-based histories with shrinking) against a reference oracle")
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
            "technique": tech, "level": "exploration",
            "level_note": NOTE.format(n=counts.get(i, "fixed number of"), x={"C14": " (plus a multi-threaded stress)", "C06": TH, "C10": TH, "C11": TH}.get(i, ""))})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hook is used: the harness uses public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One binary (harness/), rebuilt by check.sh against /repo on every run. known-findings.txt lists repaired defects."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
