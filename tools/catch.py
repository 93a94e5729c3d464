"""Run every planted bug against the check of its property (or the checks named)
in a scratch clone of /repo; prints a Markdown table.  usage: catch.py [--all-of R] [ids...]"""
import json, os, subprocess, sys, shutil, tempfile, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
tmp = tempfile.mkdtemp(prefix="vsimcatch_", dir="/tmp")
try:
    for i in ids:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        repo = os.path.join(tmp, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), meta["property"]],
                           env=dict(os.environ, VSIM_REPO=repo), capture_output=True, text=True)
        rule = [l for l in p.stdout.splitlines() if re.match(r"^[A-Z]\d\d\.", l)]
        run = re.search(r"run(\d+)\.json", p.stdout)
        print("| %s | %s | %s | %s |" % (i, meta["what_it_breaks"].replace("|", "/").split(". ")[0][:150],
              "`%s`" % rule[0].split(":")[0] if p.returncode == 1 and rule else "**missed** (rc %d)" % p.returncode,
              run.group(1) if run else "-"), flush=True)
        shutil.rmtree(repo)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
