"""seedlines.py [ID...]: for each planted bug, whether the lines it changes are of the original repository."""
import os, re, subprocess, sys
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
for i in ids:
    p = f"/verif/seeded/{i}/patch.diff"
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True).returncode:
        print(i, "DOES NOT APPLY"); continue
    f, n, own, orig = None, 0, 0, 0
    blame = {}
    for line in open(p):
        m = re.match(r"--- a/(.*)", line)
        if m:
            f = m[1].strip(); continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m[1]); continue
        if line.startswith("+++") or line.startswith("diff") or line.startswith("index"):
            continue
        if line.startswith("-"):
            if f not in blame:
                o = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.splitlines()
                blame[f] = [b.startswith("^") or b[:7] == BASE[:7] for b in o]
            if blame[f][n - 1]:
                orig += 1
            else:
                own += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    print(i, "removed original", orig, "removed own", own)
