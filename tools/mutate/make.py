#!/usr/bin/env python3
"""make.py REPO OUT: copy REPO to OUT with all mutants that compile switched in; OUT.list names them."""
import json, os, re, subprocess, sys, shutil
repo, out = sys.argv[1:3]
tool = os.environ.get("MUTATE", "/tmp/mutate-target/release/mutate")
shutil.rmtree(out, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", repo, out])
env = dict(os.environ, CARGO_TARGET_DIR="/tmp/mut-target", CARGO_NET_OFFLINE="true")
ex = set()
for rnd in range(60):
    subprocess.check_call([tool, repo + "/src", out + "/src", out + ".list"] + [str(x) for x in sorted(ex)])
    bad = set()
    for args in (["--all-features"], ["--no-default-features", "--features", "trace-log,checker,enable-serde"]):
        r = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "regalloc2", "--message-format=json"] + args, cwd=out, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        n = 0
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            m = m.get("message")
            if not m or m.get("level") != "error": continue
            n += 1
            for s in m["spans"]:
                if not s["is_primary"] and not m["code"]: continue
                f = os.path.join(out, s["file_name"])
                if not os.path.exists(f): continue
                t = open(f, "rb").read()
                ks = list(re.finditer(rb"mutant::on\((\d+)u32\)", t[: s["byte_end"] + 60]))
                pre = [k for k in ks if k.start() < s["byte_end"]]
                if s["is_primary"]:
                    if pre: bad.add(int(pre[-1].group(1)))
                    inner = [k for k in ks if s["byte_start"] <= k.start() < s["byte_end"]]
                    if inner: bad.add(int(inner[0].group(1)))
        if r.returncode and not n: print(r.stderr[-3000:]); sys.exit(1)
        if n: break
    print("round", rnd, "new exclusions", len(bad - ex), flush=True)
    if not n: break
    if not bad - ex:
        print(r.stdout[:0]); 
        for l in r.stdout.splitlines()[:400]:
            m = json.loads(l).get("message")
            if m and m["level"] == "error": print(m["rendered"]); break
        sys.exit(1)
    ex |= bad
