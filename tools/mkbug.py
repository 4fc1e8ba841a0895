"""Write /verif/seeded/<id>/ from a replacement in /repo's files (nothing in /repo is altered)."""
import json, os, subprocess, tempfile, textwrap

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, edits, needs, breaks, demo):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    diff = ""
    with tempfile.TemporaryDirectory() as t:
        by_file = {}
        for f, old, new in edits:
            s = by_file.get(f) or open(f"/repo/{f}").read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            by_file[f] = s.replace(old, new)
        for f, s in by_file.items():
            for side, text in (("a", open(f"/repo/{f}").read()), ("b", s)):
                p = f"{t}/{side}/{f}"
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, capture_output=True, text=True).stdout
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(textwrap.dedent(demo).lstrip())
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo: exit 0 if the property holds for the demonstrated input\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg NUMBA_CACHE_DIR=$(mktemp -d)\ntrap \'rm -rf "$NUMBA_CACHE_DIR"\' EXIT\n/opt/venv/bin/python "$D/demo.py"\n')
    json.dump(dict(property=prop, needs=" ".join(needs.split()), what_it_breaks=" ".join(breaks.split())), open(f"{d}/meta.json", "w"), indent=1)
