#!/usr/bin/env python3
"""campaign.py NAME SRC CHECK...: builds the harness against the source tree SRC
(a scratch copy of /repo) and runs the given checks until one raises a violation.
Used for experiments only: no registered check runs it."""
import os, subprocess, sys, shutil, pathlib
V = pathlib.Path(__file__).resolve().parent.parent

def run(name, src, checks, all_=False, seed="1"):
    d = pathlib.Path(f"/tmp/camp/{name}")
    shutil.rmtree(d, ignore_errors=True)
    (d / ".build").mkdir(parents=True)
    (d / "evidence").mkdir()
    mod = (V / "harness/go.mod").read_text().replace("=> /repo", f"=> {src}")
    (d / "go.mod").write_text(mod)
    shutil.copy(V / "harness/go.sum", d / "go.sum")
    if (V / "regress").exists(): shutil.copytree(V / "regress", d / "regress")
    for f in V.glob("known_findings*"): shutil.copy(f, d)
    env = f". {V}/harness/env.sh; export GOCACHE=/tmp/campcache; cd {V}/harness"
    for r in ("", "-race"):
        p = subprocess.run(["bash", "-c", f"{env}; go build {r} -overlay {V}/.build/ov/overlay.json -modfile {d}/go.mod -o {d}/.build/h{r} ."], capture_output=True, text=True)
        if p.returncode:
            return "BUILD " + p.stderr[-600:]
    out = []
    for c in checks:
        e = dict(os.environ, VERIF_SEED=seed, VERIF_TIER="quick")
        p = subprocess.run([f"{d}/.build/h", "check", c, str(d)], capture_output=True, text=True, env=e)
        if p.returncode == 1:
            l = [x for x in p.stdout.splitlines() if x.strip()]
            key = next((x for x in l if x.startswith(c + ": ") and "cases" not in x), "")
            out.append(f"{c} caught [{key}]")
            if not all_: break
        elif p.returncode != 0:
            out.append(f"{c} rc={p.returncode} {p.stdout[-300:]}{p.stderr[-300:]}")
    shutil.rmtree(d, ignore_errors=True)
    return "; ".join(out) or "MISSED by " + " ".join(checks)

if __name__ == "__main__":
    print(sys.argv[1], "->", run(sys.argv[1], sys.argv[2], sys.argv[3:]), flush=True)
