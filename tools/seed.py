#!/usr/bin/env python3
"""seed.py ID... - development helper: confirms planted bugs (build, stable tests, demo) and runs the check of their property against each."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build():
    r = sh(["bash", "/opt/vp/build.sh"]); return r.returncode == 0, r.stdout[-1500:]
def demo(d): return sh(["bash", os.path.join(d, "demo.sh")], cwd=R, timeout=300)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]; fast = "-f" in sys.argv; nocheck = "-n" in sys.argv
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in args or sorted(os.listdir(os.path.join(V, "seeded"))):
        d = os.path.join(V, "seeded", i); meta = json.load(open(os.path.join(d, "meta.json"))); res = {}
        if sh(["git", "-C", R, "status", "--porcelain"]).stdout.strip(): print("repo not clean"); return
        try:
            r = sh(["git", "-C", R, "apply", os.path.join(d, "patch.diff")])
            if r.returncode: print(i, "patch does not apply", r.stdout); continue
            if not fast:
                ok, out = build(); res["build"] = ok
                if not ok: print(out)
                sh(["bash", "/opt/vp/test.sh", "/tmp/seed.json"]); o = json.load(open("/tmp/seed.json")); res["tests"] = not (stable - set(o["passed"]))
                r = demo(d); res["demo_fails"] = r.returncode != 0; dm = r.stdout.strip().split("\n")[-1]
                res["demo_says"] = dm[:200]
            if not nocheck:
                t = time.time(); r = sh(["python3", "tools/check.py", meta["property"]], cwd=V, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
                res["caught"] = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout; res["check_s"] = round(time.time() - t)
                res["check_says"] = [l for l in r.stdout.split("\n") if l.strip()][-4:]
        finally: sh(["git", "-C", R, "checkout", "--", "."])
        if not fast:
            build(); r = demo(d); res["demo_clean"] = r.returncode == 0
            if r.returncode: res["demo_clean_says"] = r.stdout[-800:]
        good = fast or (res.get("build") and res.get("tests") and res.get("demo_fails") and res.get("demo_clean"))
        print(i, meta["property"], "VALID" if good else "INVALID", "CAUGHT" if res.get("caught") else "MISSED", json.dumps(res)); sys.stdout.flush()
main()
