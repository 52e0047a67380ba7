#!/usr/bin/env python3
"""seedgen.py SPECFILE [ID...]: make /verif/seeded/<id>/ from python specs and verify them in /repo (undone afterwards).
A spec is a dict: id, property, file (relative to /repo/src/PROPOSAL), edits [(old,new)], needs, breaks, demo (C++)."""
import os, sys, subprocess, json, shutil, runpy
SRC="/repo"
DEMO='''#!/bin/bash
# run in the repository after the build; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap '/bin/rm -r "$t"' EXIT
g++ -std=c++14 -O1 -Isrc/PROPOSAL -I_build -I_build/src -w "$d/demo.cpp" _build/libPROPOSAL.a -lspdlog -lfmt -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 200 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    sh("bash /opt/vp/test.sh /tmp/seedtest.json"); r = json.load(open("/tmp/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base if isinstance(base, list) else base.get("tests") or base.get("passed") or base.get("stable")
    names = [x if isinstance(x, str) else x.get("id") or x.get("name") for x in stable]
    return [n for n in names if n not in r["passed"]]
def main():
    args = sys.argv[1:]; checks = "--check" in args; args = [a for a in args if a != "--check"]
    specs = runpy.run_path(args[0])["SEEDS"]; want = args[1:]
    assert not sh(f"git -C {SRC} status --short").stdout.strip()
    sh("bash /opt/vp/build.sh")
    for s in specs:
        if want and s["id"] not in want: continue
        d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        bad = []
        try:
            open(d+"/demo.cpp","w").write(s["demo"]); open(d+"/demo.sh","w").write(s.get("sh", DEMO)); os.chmod(d+"/demo.sh",0o755)
            for n, t in s.get("extra", {}).items(): open(f"{d}/{n}","w").write(t)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d+"/meta.json","w"), indent=1)
            a = sh(f"cd {SRC} && bash {d}/demo.sh")
            if a.returncode: bad.append("demo fails on the clean tree: " + a.stdout[-400:])
            for e in s["edits"]:
                f, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
                p = f"{SRC}/src/PROPOSAL/{f}"; t = open(p).read()
                if t.count(old) != 1: bad.append(f"edit matches {t.count(old)} times: {old[:60]}"); continue
                open(p, "w").write(t.replace(old, new))
            df = sh(f"git -C {SRC} diff").stdout; open(d+"/patch.diff","w").write(df)
            for l in df.splitlines():
                if l.startswith("-") and not l.startswith("---"):
                    f = s["edits"][0][0] if len(s["edits"][0]) == 3 else s["file"]
                    o = sh(f"git -C {SRC} show 5318c98:src/PROPOSAL/{f}").stdout.splitlines()
                    if l[1:].strip() and l[1:] not in o: bad.append("changes a line that is not original: " + l)
            if not bad:
                t = tests()
                if t: bad.append(f"{len(t)} stable tests fail: {t[:4]}")
                c = sh(f"cd {SRC} && bash {d}/demo.sh")
                if not c.returncode: bad.append("demo passes with the patch: " + c.stdout[-200:])
                caught = ""
                if checks:
                    k = sh(f"cd /verif && timeout 900 python3 vk/check.py {s['property']}"); caught = "CAUGHT" if k.returncode == 1 and "VIOLATION" in k.stdout else "MISSED " + k.stdout[-200:]
                print(s["id"], s["property"], "demo:", c.returncode, c.stdout.strip()[-120:], "|", caught, flush=True)
        finally:
            sh(f"git -C {SRC} checkout -- .")
        if bad:
            print(s["id"], "BAD", bad, flush=True); shutil.rmtree(d)
    sh("bash /opt/vp/build.sh")
main()
