"""Plant one bug: make a scratch copy of /repo, apply the replacements of a spec, confirm that the stable tests still
pass there and that the demonstration tells the two trees apart; then write seeded/<id>/. Run: plant.py SPEC.py [...]

A spec defines ID, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, BREAKS, DEMO (python source), JIT (default False)."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds, nonzero when it is broken
D="$(cd "$(dirname "$0")" && pwd)"
S="$(mktemp -d)"
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/numba" "$S/mpl" "$S/work"
export NUMBA_CACHE_DIR="$S/numba" MPLCONFIGDIR="$S/mpl" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export SCRATCH="$S/work" PYTHONPATH="$PWD"
%s
timeout 280 /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(copy):
    env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               MPLCONFIGDIR="/opt/vp/mplconfig", NUMBA_DISABLE_JIT="1")
    env.pop("PYTHONPATH", None)
    out = os.path.join(copy, ".junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300", f"--junitxml={out}",
                    "-o", "junit_family=xunit2", "pySailingVLM/tests"], cwd=copy, env=env, stdout=subprocess.PIPE,
                   stderr=subprocess.STDOUT)
    import xml.etree.ElementTree as ET
    bad, ok = [], set()
    for c in ET.parse(out).getroot().iter("testcase"):
        name = f"{c.get('classname')}::{c.get('name')}"
        if any(k.tag in ("failure", "error") for k in c):
            bad.append(name)
        elif not any(k.tag == "skipped" for k in c):
            ok.add(name)
    shutil.rmtree(os.path.join(copy, "dummy_file"), ignore_errors=True)
    return stable() - ok


def plant(path, keep=True):
    s = {}
    exec(compile(open(path).read(), path, "exec"), s)
    d = tempfile.mkdtemp(prefix="plant-")
    try:
        copy = os.path.join(d, "repo")
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        demo = os.path.join(d, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.py"), "w").write(s["DEMO"].lstrip())
        sh = os.path.join(demo, "demo.sh")
        open(sh, "w").write(SH % ("unset NUMBA_DISABLE_JIT" if s.get("JIT") else "export NUMBA_DISABLE_JIT=1"))
        os.chmod(sh, 0o755)
        r = subprocess.run(["bash", sh], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            return f"{s['ID']}: demo FAILS ON CLEAN TREE\n{(r.stdout + r.stderr)[-1500:]}"
        for f, old, new in s["EDITS"]:
            p = os.path.join(copy, f)
            t = open(p, newline="").read()
            if t.count(old) != 1:
                return f"{s['ID']}: {t.count(old)} matches in {f}: {old!r}"
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
        # no line of our own fixes may be touched
        r = subprocess.run(["bash", sh], cwd=copy, capture_output=True, text=True)
        if r.returncode == 0:
            return f"{s['ID']}: demo does not see the change"
        msg = (r.stdout + r.stderr).strip()[-200:]
        missing = tests(copy)
        if missing:
            return f"{s['ID']}: tests see it: {sorted(missing)[:3]}"
        o = os.path.join(VERIF, "seeded", s["ID"])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, "patch.diff"), "w").write(diff)
        for f in ("demo.py", "demo.sh"):
            shutil.copy(os.path.join(demo, f), o)
        json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
                  open(os.path.join(o, "meta.json"), "w"), indent=1)
        return f"{s['ID']}: planted ({msg.splitlines()[-1] if msg else ''})"
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    sys.path.insert(0, os.getcwd())
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get("PLANT_JOBS", "2"))) as ex:
        for m in ex.map(plant, sys.argv[1:]):
            print(m, flush=True)
