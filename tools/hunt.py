"""Run checks against the planted bugs, each in a scratch copy of /repo and /verif. hunt.py [-a] [-t] [-j N] [ID ...]
Default: the check of the property the bug was planted for; -a: all checks; -t: thorough tier."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    bug, prop, tier = job
    d = tempfile.mkdtemp(prefix="hunt-")
    t0 = time.time()
    try:
        repo, ver = os.path.join(d, "repo"), os.path.join(d, "verif")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        os.makedirs(os.path.join(ver, "evidence"))
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
        if bug:
            subprocess.run(["git", "-C", repo, "apply", os.path.join(VERIF, "seeded", bug, "patch.diff")], check=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER=tier)
        r = subprocess.run(["/opt/venv/bin/python", "mc/run.py", prop, "--tier", tier], cwd=ver, env=env,
                           capture_output=True, text=True)
        out = r.stdout + r.stderr
        v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
        word = "caught" if r.returncode == 1 and any(f"property={prop} " in x for x in v) else \
            "MISSED" if r.returncode == 0 else f"BROKEN rc={r.returncode}"
        tail = out.strip().splitlines()[-12:] if "BROKEN" in word else []
        return bug, prop, word, time.time() - t0, (v[0] if v else ""), tail
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    allc, tier, n = "-a" in a, "thorough" if "-t" in a else "quick", 3
    if "-j" in a:
        n = int(a[a.index("-j") + 1])
        del a[a.index("-j"):a.index("-j") + 2]
    ids = [x for x in a if not x.startswith("-")] or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    props = [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    jobs = []
    for i in ids:
        own = json.load(open(os.path.join(VERIF, "seeded", i, "meta.json")))["property"]
        jobs += [(i, p, tier) for p in (props if allc else [own])]
    with ThreadPoolExecutor(n) as ex:
        for bug, prop, word, t, v, tail in ex.map(one, jobs):
            print(f"{bug:40s} {prop} {word} {t:.0f}s {v[:140]}", *tail, sep="\n   " if tail else "", flush=True)
