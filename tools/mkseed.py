#!/usr/bin/env python3
"""mkseed.py SPEC...: (re)creates /verif/seeded/<id>/ from tools/seeds/<id>.py and
confirms it in a scratch copy: applies, builds, passes the stable tests, and the
demonstration passes without and fails with the change.
A spec defines: PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Go test bodies), IMPORTS, RACE."""
import os, re, sys, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELPER = open(V + "/tools/demo_helper.go.txt").read()
SH = '''#!/bin/bash
# run in the root of the repository: exit 0 if the property holds
d="$(cd "$(dirname "$0")" && pwd)"
o="$(mktemp /tmp/demoXXXXXX)"
printf '{"Replace":{"%s/zz_helper_test.go":"%s/helper_test.go","%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" "$PWD" "$d" > "$o"
go test -overlay "$o" -vet=off -count=1 -timeout 120s {RACE}-run '^TestDemo' .
r=$?
unlink "$o"
exit $r
'''
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def stable(): return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def passed(cwd):
    r = sh("go test -json -vet=off -count=1 -timeout 10m ./...", cwd)
    out = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): out.add((e["Package"], e["Test"]))
    return out
ok = True
for spec in sys.argv[1:]:
    id = os.path.basename(spec)[:-3] if spec.endswith(".py") else spec
    ns = {}
    exec(open(f"{V}/tools/seeds/{id}.py").read(), ns)
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh(f"git clone -q --no-hardlinks /repo {t}/r", "/")
        r = t + "/r"
        base = passed(r)
        std = ["bufio", "bytes", "context", "encoding/binary", "encoding/json", "errors", "fmt", "io", "net", "net/http", "net/http/httptest", "os", "runtime", "strings", "sync", "sync/atomic", "testing", "time"]
        imports = "".join(f'\t"{i}"\n' for i in std if re.search(r"\b" + i.split("/")[-1] + r"\.[A-Z]", ns["DEMO"]))
        open(d + "/demo_test.go", "w").write("package snapws\n\nimport (\n" + imports + ")\n" + ns["DEMO"].rstrip() + "\n")
        sh(f"gofmt -w {d}/demo_test.go", "/")
        open(d + "/helper_test.go", "w").write(HELPER)
        open(d + "/demo.sh", "w").write(SH.replace("{RACE}", "-race " if ns.get("RACE") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        bad = []
        a = sh(d + "/demo.sh", r)
        if a.returncode != 0: bad.append("demo fails on the unchanged tree:\n" + a.stdout + a.stderr)
        for f, old, new in ns["EDITS"]:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1: bad.append(f"{f}: {s.count(old)} matches of {old!r}"); continue
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        if g := sh("gofmt -l *.go", r).stdout.strip(): bad.append("gofmt: " + g)
        diff = sh("git diff", r).stdout
        open(d + "/patch.diff", "w").write(diff)
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"): cur = l[6:]; blame = sh(f"git blame -s HEAD -- {cur}", r).stdout.splitlines()
            elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if not blame[n-1].startswith("^"): print(id, "note: changes a line of ours:", l)
                n += 1
            elif l.startswith(" "): n += 1
        b = sh("go build ./...", r)
        if b.returncode: bad.append("build: " + b.stderr)
        else:
            lost = base - passed(r)
            if lost: bad.append(f"tests lost: {lost}")
            a = sh(d + "/demo.sh", r)
            if a.returncode == 0: bad.append("demo passes with the change")
            elif "-v" in os.environ.get("SEED", ""): print(a.stdout)
            else: print(id, "demo:", next((l.strip() for l in a.stdout.splitlines() if "_test.go:" in l or "panic" in l or "DATA RACE" in l), a.stdout[-300:]))
        print(id, "OK" if not bad else "BAD " + "\n".join(bad))
        ok = ok and not bad
    finally:
        shutil.rmtree(t)
sys.exit(0 if ok else 1)
