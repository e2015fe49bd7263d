"""development aid: plant.py ID [--tests] [--checks C01,C02]: apply seeded/ID/patch.diff to a scratch copy of /repo, build, run demo on both trees,
optionally the stable tests, and the property's check (symbolic part on the scratch copy)."""
import json, os, shutil, subprocess, sys
ID = sys.argv[1]
d = f"/verif/seeded/{ID}"
meta = json.load(open(d + "/meta.json"))
S = f"/tmp/plant_{ID}"
shutil.rmtree(S, ignore_errors=True)
os.makedirs(S)
R = S + "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
try:
    sh(f"cp -a /repo {R}")
    r = sh(f"git -C {R} apply {d}/patch.diff")
    if r.returncode:
        print("APPLY", r.stderr); sys.exit(1)
    for n in ("build", "test"):
        t = open(f"/opt/vp/{n}.sh").read().replace("/opt/vp/reports", "@OUT@").replace("/repo", R).replace("@OUT@", S + "/junit").replace("/opt/vp/build.sh", S + "/build.sh").replace("/opt/ccache", "/tmp/plant_cc")
        open(f"{S}/{n}.sh", "w").write(t)
    if not meta.get("python_only"):
        r = sh(f"bash {S}/build.sh")
        print("BUILD", r.returncode, r.stderr[-500:] if r.returncode else "")
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo", env=dict(e, PYTHONPATH="/repo"))
    r1 = sh(f"bash {d}/demo.sh", cwd=R, env=dict(e, PYTHONPATH=R))
    print("DEMO clean", r0.returncode, "patched", r1.returncode, r0.stdout[-300:] + r0.stderr[-300:] if r0.returncode else "", r1.stdout[-200:] + r1.stderr[-200:])
    checks = next((sys.argv[i + 1].split(",") for i, a in enumerate(sys.argv) if a == "--checks"), [meta["property"]])
    for c in checks:
        r = sh(f"/opt/venv/bin/python /verif/run.py {c}", env=dict(e, PT3D_REPO=R), cwd="/verif")
        print("CHECK", c, r.returncode, "\n   ".join([l[:300] for l in r.stdout.splitlines()][-4:]))
        v = [l for l in r.stdout.splitlines() if l.startswith("  case")]
        print("   ", *v[:3], sep="\n    ")
    if "--tests" in sys.argv:
        r = sh(f"bash {S}/test.sh {S}/out.json")
        o = json.load(open(f"{S}/out.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        st = b.get("stable", b.get("tests", b))
        ok = o.get("passed", o)
        names = st if isinstance(st, list) else list(st)
        bad = [n for n in names if n not in ok] if isinstance(ok, list) else [n for n in names if ok.get(n) not in ("passed", True)]
        print("TESTS", len(names), "bad", bad[:5], len(bad))
finally:
    shutil.rmtree(S, ignore_errors=True)
