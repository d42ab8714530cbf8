#!/usr/bin/env python3
"""Author's tool (not used by any check): builds seeded/<id>/ from a spec
(dict: id, prop, needs, breaks, edits [(file, old, new)], demo C++ text), and
confirms it: builds, passes the stable tests, demo 0 without / nonzero with."""
import json, os, subprocess, sys, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SH = '''#!/bin/bash
# cwd: /repo, after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
R=$PWD
g++ -std=c++17 -O1 %s -fno-rtti -w -march=x86-64-v2 -maes -mpclmul -DENABLE_MEMORY_LOCK -include cstdint -include stdexcept -include array \\
  -I"$R/src/include" -I"$R/src" -I"$R/src/include/sse/crypto" "$here/demo.cpp" -o "$tmp/demo" \\
  -L"$R/_build" -lsse_crypto -lsodium -lcrypto -lgmp -lpthread %s -Wl,-rpath,"$R/_build" || exit 2
cd "$tmp" && timeout 250 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(d): return sh("bash %s/demo.sh" % d, cwd=REPO)
def main(spec_file, only):
    specs = runpy.run_path(spec_file)["SPECS"]
    for s in specs:
        if only and s["id"] not in only: continue
        d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        assert sh("git -C /repo status --porcelain").stdout == "", "dirty"
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f); t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            open(d + "/demo.cpp", "w").write(s["demo"])
            open(d + "/demo.sh", "w").write(s.get("sh") or SH % (s.get("cflags", ""), s.get("ldflags", "")))
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
            b = sh("bash /opt/vp/build.sh"); 
            if b.returncode: print(s["id"], "BUILD FAILS", b.stdout[-1500:]); continue
            t = sh("bash /opt/vp/test.sh /tmp/plant_t.json").stdout.strip().split("\n")[-1]
            w = demo(d)
            ck = ""
            if "--check" in sys.argv:
                c = sh("python3 check.py " + s["prop"], cwd=ROOT)
                ck = " check=%d %s" % (c.returncode, [l for l in c.stdout.split("\n") if "VIOLATION" in l][:1])
        finally:
            sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        o = demo(d)
        print(s["id"], "| tests:", t, "| demo with:", w.returncode, w.stdout.strip()[-150:], "| without:", o.returncode, o.stdout.strip()[-150:], ck, flush=True)
main(sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")])
