"""Run checks on rewritten copies of /repo whose behaviour is unchanged; every check must stay quiet. quiet.py SPEC [-j N] [group ...] [-- ID ...]
SPEC is a Python file with G = {group: [(file, old text, new text), ...]}."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare(edits):
    d = tempfile.mkdtemp(prefix="quiet-")
    repo = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for f, a, b in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(a) < 1:
            raise SystemExit(f"not found in {f}:\n{a}")
        open(p, "w").write(s.replace(a, b))
    return d, repo


def one(job):
    group, prop, repo = job
    d = tempfile.mkdtemp(prefix="quiet-")
    t0 = time.time()
    try:
        ver = os.path.join(d, "verif")
        shutil.copytree(VERIF, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        os.makedirs(os.path.join(ver, "evidence"))
        r = subprocess.run(["/opt/venv/bin/python", "mc/run.py", prop, "--tier", "quick"], cwd=ver, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
        out = (r.stdout + r.stderr).strip().splitlines()
        return group, prop, r.returncode, time.time() - t0, [x for x in out if "VIOLATION" in x][:2] + out[-6:] if r.returncode else []
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    n = 2
    if "-j" in a:
        n = int(a[a.index("-j") + 1])
        del a[a.index("-j"):a.index("-j") + 2]
    ids = a[a.index("--") + 1:] if "--" in a else [c["property"] for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
    a = a[:a.index("--")] if "--" in a else a
    ns = {}
    exec(open(a[0]).read(), ns)
    for g in a[1:] or ns["G"]:
        d, repo = prepare(ns["G"][g])
        try:
            with ThreadPoolExecutor(n) as ex:
                for group, prop, rc, t, tail in ex.map(one, [(g, p, repo) for p in ids]):
                    print(f"{group:14s} {prop} {'quiet' if rc == 0 else f'ALARM rc={rc}'} {t:.0f}s", *tail, sep="\n   " if tail else "", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
