"""mkseed(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source): writes seeded/<id>/"""
import json, os, subprocess, tempfile, shutil
def mkseed(id, prop, needs, breaks, edits, demo):
    S = f"/verif/seeded/{id}"; os.makedirs(S, exist_ok=True)
    d = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
    subprocess.run(f"git -C /repo archive HEAD src | tar -x -C {d} && cd {d} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm x", shell=True, check=True)
    for f, old, new in edits:
        p = f"{d}/src/rxn_network/{f}"; s = open(p).read()
        if s.count(old) != 1: print("EDIT", id, f, s.count(old)); shutil.rmtree(d); shutil.rmtree(S); return
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
    open(S + "/patch.diff", "w").write(diff)
    open(S + "/demo.py", "w").write(demo)
    open(S + "/demo.sh", "w").write("#!/bin/bash\n# run with cwd at the repository root\nexport PYTHONPATH=\"$PWD/src\" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg RAY_USAGE_STATS_ENABLED=0\nunset MP_API_KEY\nwork=$(mktemp -d /tmp/dm.XXXX); export RAY_TMPDIR=$work TMPDIR=$work\ntrap 'rm -rf \"$work\"' EXIT\n/opt/venv/bin/python \"$(cd \"$(dirname \"$0\")\" && pwd)/demo.py\"\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
