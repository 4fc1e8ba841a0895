"""Rewrite the 'fixed:' lines of known_findings.jsonl from the fix commits of /repo and this table."""
import subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = {l.split("\t")[1].strip(): l.split("\t")[0] for l in open(os.path.join(root, "tools", "fixed.tsv")) if "\t" in l}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
lines = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix:"):
        what = s[4:].strip()
        if what not in TABLE:
            print("unassigned", h, what)
            continue
        lines.append(f"fixed: property={TABLE[what]} {h} {what}")
p = os.path.join(root, "known_findings.jsonl")
keep = [l.rstrip("\n") for l in open(p) if l.startswith("{")] if os.path.exists(p) else []
open(p, "w").write("\n".join(keep + lines) + "\n")
print(len(keep), "open", len(lines), "fixed")
