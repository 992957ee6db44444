"""Exploration engine: runs a check function on every item of an enumerated space in forked workers, collects
violations, known findings and evidence."""
import concurrent.futures as cf
import hashlib, json, multiprocessing as mp, os, signal, sys, time, traceback
import boot
import numpy as np

WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
ITEM_SECONDS = 120


class Bad(Exception):
    """A violated property in the current item."""
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key, self.msg = key, msg


class Result:
    def __init__(self):
        self.viol, self.skip, self.evals, self.outcome, self.sample = [], None, 1, None, None
        self.edges = 0                     # transitions examined by this item itself

    def rel(self, key, got, want, tol=1e-9, scale=None, what=""):
        """As same(), for a relation between two executions (a transition of the explored graph)."""
        self.edges += 1
        self.same(key, got, want, tol, scale, what)

    def bad(self, key, msg):
        self.viol.append((key, msg))

    def same(self, key, got, want, tol=1e-9, scale=None, what=""):
        """got == want to tol relative to scale (default: size of want)."""
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.bad(key, f"{what or key}: shape {got.shape}, expected {want.shape}")
        if got.size == 0:
            return
        try:
            got, want = got.astype(float), want.astype(float)
        except (TypeError, ValueError):
            return self.bad(key, f"{what or key}: not numeric")
        s = np.max(np.abs(want)) if scale is None else scale
        d = np.abs(got - want)
        if not np.all(np.isfinite(got)) or not np.all(d <= tol * s + 1e-300):
            i = int(np.argmax(np.where(np.isfinite(d), d, np.inf)))
            ix = np.unravel_index(i, got.shape) if got.shape else ()
            self.bad(key, f"{what or key}: at {tuple(int(k) for k in ix)} got {got[ix]!r}, expected {want[ix]!r} "
                          f"(difference {d[ix]:.3e}, allowed {tol * s:.3e})")

    def true(self, key, cond, msg):
        if not cond:
            self.bad(key, msg)


def digest(*arrs):
    h = hashlib.sha1()
    for a in arrs:
        a = np.asarray(a)
        if a.dtype.kind == "f":
            a = np.round(a.astype(float), 6) + 0.0
        h.update(a.tobytes() if a.dtype.kind in "fiub" else repr(a.tolist()).encode())
    return h.hexdigest()[:12]


_FNS = {}


class _Timeout(Exception):
    pass


def _alarm(*a):
    raise _Timeout()


def _call(fn, item):
    r = Result()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(ITEM_SECONDS)
    devnull = open(os.devnull, "w")
    so = sys.stdout
    sys.stdout = devnull
    try:
        fn(item, r)
    except Bad as e:
        r.bad(e.key, e.msg)
    except _Timeout:
        r.bad("no-answer", f"no answer within {ITEM_SECONDS} s")
    except SystemExit as e:
        r.bad("refused", f"the code under test refused a valid case (exit {e.code!r})")
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if f.filename.startswith(boot.REPO)]
        where = f"{os.path.relpath(inside[-1].filename, boot.REPO)}:{inside[-1].lineno}" if inside else \
            f"{tb[-1].filename}:{tb[-1].lineno}"
        r.bad("raised", f"{type(e).__name__}: {e} ({where})")
        r.trace = traceback.format_exc()
    finally:
        signal.alarm(0)
        sys.stdout = so
        devnull.close()
    return r


def _work(job):
    name, chunk = job
    fn = _FNS[name]
    return [(i, _call(fn, item)) for i, item in chunk]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


def retuple(x):
    return tuple(retuple(v) for v in x) if isinstance(x, list) else x


class Ctx:
    def __init__(self, prop, tier, level="model_checking", replay=None):
        self.prop, self.tier, self.level, self.replay = prop, tier, level, replay
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.executions = self.skipped = 0
        self.outcomes, self.viol, self.samples, self.parts, self.skips = set(), [], [], {}, {}
        self.extra, self.assumptions = {}, []
        self.thorough = tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def map(self, name, fn, items, transitions=0, parallel=True, chunk=None):
        """Check fn(item, Result) on every item. Items must be JSON-able (tuples become lists in replays)."""
        _FNS[name] = fn
        items = list(items)
        if self.replay is not None:
            if self.replay["part"] != name:
                return
            items = [retuple(self.replay["item"])]
            parallel = False
        t = time.time()
        n = len(items)
        results = [None] * n
        order = list(range(n))
        if parallel and n > 3 and WORKERS > 1:
            rng = np.random.default_rng(self.seed)
            rng.shuffle(order)
            chunk = chunk or max(1, min(64, n // (WORKERS * 8) or 1))
            jobs = [(name, [(i, items[i]) for i in order[k:k + chunk]]) for k in range(0, n, chunk)]
            try:
                with cf.ProcessPoolExecutor(WORKERS, mp_context=mp.get_context("fork")) as ex:
                    for out in ex.map(_work, jobs):
                        for i, r in out:
                            results[i] = r
            except cf.process.BrokenProcessPool:
                pass
            left = [i for i in range(n) if results[i] is None]
            for i in left[:40]:                      # a worker died: isolate the item that kills it
                try:
                    with cf.ProcessPoolExecutor(1, mp_context=mp.get_context("fork")) as ex:
                        results[i] = list(ex.map(_work, [(name, [(i, items[i])])]))[0][0][1]
                except cf.process.BrokenProcessPool:
                    r = Result()
                    r.bad("died", "the process running the code under test died")
                    results[i] = r
        else:
            for i in order:
                results[i] = _call(fn, items[i])
        done = ev = 0
        for i, r in enumerate(results):
            if r is None:
                continue
            if r.skip and not r.viol:
                self.skipped += 1
                self.skips[r.skip] = self.skips.get(r.skip, 0) + 1
                continue
            done += 1
            ev += r.evals
            transitions += r.edges
            if r.outcome is not None:
                self.outcomes.add(r.outcome)
            for k, m in r.viol:
                self.viol.append(dict(part=name, index=i, item=jsonable(items[i]), key=k, msg=m,
                                      trace=getattr(r, "trace", None)))
        self.states += done
        self.transitions += transitions
        self.executions += ev
        self.parts[name] = dict(states=done, skipped=sum(1 for r in results if r is not None and r.skip and not r.viol),
                                transitions=transitions, executions=ev, seconds=round(time.time() - t, 1))
        for i in ([0, n // 2, n - 1] if n else []):
            if len(self.samples) < 8:
                s = dict(part=name, item=jsonable(items[i]))
                if results[i] is not None and results[i].sample is not None:
                    s["observed"] = jsonable(results[i].sample)
                self.samples.append(s)

    # ------------------------------------------------------------ finish
    def known(self):
        path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
        out = {}
        if os.path.exists(path):
            for line in open(path):
                if line.startswith("finding: property=" + self.prop + " "):
                    key = line.split(" key=", 1)[1].split()[0]
                    out[key] = line.split(" key=" + key, 1)[1].strip()
        return out

    def finish(self):
        known = self.known()
        listed = [v for v in self.viol if v["key"] in known]
        fresh = [v for v in self.viol if v["key"] not in known]
        for k in sorted({v["key"] for v in listed}):
            print(f"KNOWN-FINDING: property={self.prop} {known[k]}")
        if self.replay is not None:
            for v in self.viol:
                print("reproduced:", v["key"], "-", v["msg"])
            print("replay:", "violation reproduced" if fresh else "no violation")
            return 1 if fresh else 0
        wall = time.time() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.executions, samples=self.samples,
                   distinct_outcomes=len(self.outcomes), skipped_outside_domain=self.skips, parts=self.parts,
                   exhaustive=True)
        if self.level in ("exploration", "fault_enumeration"):
            cov = dict(samples=self.samples, skipped_outside_domain=self.skips, parts=self.parts, exhaustive=True)
            cov.update(evaluations=self.executions, distinct_nontrivial=len(self.outcomes),
                       rule=self.extra.pop("rule", ""))
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=jsonable(cov),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(fresh))
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop} [{self.tier}]: {self.states} states, {self.transitions} transitions, "
              f"{self.executions} executions, {len(self.outcomes)} distinct outcomes, {self.skipped} skipped, "
              f"{wall:.1f} s")
        for n, p in self.parts.items():
            print("  ", n, p)
        if not self.states:
            print("nothing was explored", file=sys.stderr)
            return 2
        if not fresh:
            return 0
        d = os.path.join(boot.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        byk = {}
        for v in fresh:
            byk.setdefault((v["part"], v["key"]), []).append(v)
        for n, ((part, key), vs) in enumerate(byk.items()):
            v = vs[0]                                # enumerated simplest first: fewest deviations
            path = os.path.join(d, f"{self.prop}-{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, part=part, item=v["item"], key=key, msg=v["msg"],
                               trace=v["trace"], how=f"python {boot.VERIF}/mc/run.py {self.prop} --replay {path}"), f, indent=1)
            print(f"  {key}: {len(vs)} state(s), first {json.dumps(v['item'])[:300]}: {v['msg'][:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1
