"""Validate a planted bug: python3 tools/plant.py ID [--tests] [--check]

Works in a scratch copy of /repo; the copy is removed afterwards."""
import argparse, json, os, shutil, subprocess, sys

ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--tests", action="store_true")
ap.add_argument("--check", action="store_true")
ns = ap.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


for i in ns.ids:
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    copy = f"/tmp/w/plant/{i}"
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(copy)
    subprocess.check_call(f"cp -a /repo/hermespy /repo/tests /repo/docssource /repo/_examples /repo/README.md /repo/.git /repo/pyproject.toml {copy}/", shell=True)
    # Import hermespy from the copy instead of the editable installation
    open(f"{copy}/sitecustomize.py", "w").write(
        "import sys\nsys.meta_path[:] = [f for f in sys.meta_path if 'editable' not in type(f).__module__ and 'ScikitBuild' not in type(f).__name__]\n"
        "sys.path[:] = [p for p in sys.path if p not in ('/repo', '/repo/hermespy')]\n"
    )
    out = [i, meta["property"]]
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        clean = run(["bash", f"{d}/demo.sh"], cwd="/repo", env=env)
        out.append(f"clean={clean.returncode}")
        if clean.returncode:
            print(clean.stdout[-1500:])
        a = run(["git", "apply", f"{d}/patch.diff"], cwd=copy)
        if a.returncode:
            print(a.stdout)
            out.append("PATCH FAILS")
            continue
        env["PYTHONPATH"] = copy
        bad = run(["bash", f"{d}/demo.sh"], cwd=copy, env=env)
        out.append(f"patched={bad.returncode} ({bad.stdout.strip().splitlines()[-1][:150] if bad.stdout.strip() else ''})")
        if ns.check:
            e = dict(env, HERMES_REPO=copy)
            c = run([f"{V}/check.sh", meta["property"], "--tier", "quick"], env=e)
            out.append(f"check={c.returncode} facets=" + ",".join(sorted({l.split()[1] for l in c.stdout.splitlines() if l.startswith("  facet")})))
            if c.returncode not in (0, 1):
                print(c.stdout[-2000:])
        if ns.tests:
            s = open("/opt/vp/test.sh").read().replace("/repo", copy).replace("bash /opt/vp/build.sh --install-only", "true")
            s = s.replace(f"PYTHONPATH={copy}/tests", f"PYTHONPATH={copy}/tests:{copy}")
            open(f"{copy}/t.sh", "w").write(s)
            t = run(["bash", f"{copy}/t.sh", f"/tmp/w/plant/{i}.json"])
            m = run(["python3", f"{V}/lib/cmp_tests.py", f"/tmp/w/plant/{i}.json"])
            out.append("tests: " + m.stdout.strip().replace("\n", " ")[:400])
    finally:
        print(" ".join(out), flush=True)
        shutil.rmtree(copy, ignore_errors=True)
