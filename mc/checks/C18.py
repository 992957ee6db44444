"""Faults while saving: every file-system call of a save, through the library and the command line, fails in every way; one
at a time, for good, torn, in pairs, or as a crash; plus faults the kernel itself produces."""
import ctypes, errno, itertools, os, resource, shutil, subprocess, sys, tempfile, zipfile
import numpy as np
import boot, cases, clirun
from engine import digest

LEVEL = "fault_enumeration"
ONCE, STICKY, SHORT, CRASH, WRITES, TORN = range(6)
MODE = ["once", "from then on", "short", "crash", "every writing call from then on", "torn write, then no writing"]
CASE = {"a": ("cruiser", (("mesh", (2, 1)),)), "b": ("skiff", (("mesh", (1, 2)), ("sails", "jib")))}
UNRELATED = {"notes.txt": b"keep " * 3000, "season.xlsx": b"not a workbook", "my_variables.py": b"x = 1\n", "results_of_may.xlsx": b"may", "results.xlsx.bak": b"backup", "results": b"r",
             "results.csv": b"1;2\n", "variables.py.orig": b"y = 2\n", "variables_2.py": b"z = 3\n", "section_cl_old.png": b"fig", "cp_plot.html.1": b"<p>", "sub/plan.html": b"<html></html>"}
_lib = None
_sol, _book = {}, {}


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.shim_count.restype = ctypes.c_long
        _lib.shim_log.restype = ctypes.c_char_p
    return _lib


def solution(k):
    if k not in _sol:
        c = cases.config(CASE[k])
        _sol[k] = c, cases.results(c)
    return _sol[k]


class scene:
    """A scratch folder with an output folder in some state; go() saves into it."""
    def __init__(self, name):
        self.name = name
        self.kind, self.state, self.case = name.split("-")
        self.d = os.path.realpath(tempfile.mkdtemp(dir=boot.SCRATCH))
        self.tmp = os.path.join(self.d, "tmp")
        os.makedirs(self.tmp)
        self.c, self.case_dir = cases.config(CASE[self.case]), os.path.join(self.d, "case")
        self.out = {"beside": self.case_dir, "deep": os.path.join(self.d, "a", "b", "c")}.get(self.state, os.path.join(self.d, "out"))
        if self.kind in ("cli", "new"):
            clirun.write(self.case_dir, clirun.settings(self.c, self.out))
        self.keep = {}
        if self.state in ("existing", "older", "beside"):
            os.makedirs(self.out, exist_ok=True)
            for f, t in UNRELATED.items():
                p = os.path.join(self.out, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "wb").write(t)
                self.keep[p] = t
        if self.state == "older":
            old = dict(zip("ab", "ba"))[self.case]
            if old in _book:
                shutil.copy(_book[old][1], os.path.join(self.out, "results.xlsx"))
            for f in ("section_cl.png", "section_cd.png", "cp_plot.html") + (("variables.py",) if self.kind != "api" else ()):
                open(os.path.join(self.out, f), "w").write("old " * 500)
        if os.path.exists(self.case_dir):
            self.text = open(os.path.join(self.case_dir, "variables.py")).read()

    def go(self):
        """None if it ended well, else the error."""
        old, tempfile.tempdir = tempfile.tempdir, self.tmp
        try:
            if self.kind == "api":
                from pySailingVLM.results.save_utils import save_results_to_file
                ss, csys, v, R, hull = solution(self.case)[1]
                try:
                    save_results_to_file(v, csys, R, ss, self.out, "results")
                except KeyboardInterrupt:
                    raise
                except SystemExit as e:
                    return f"exit {e.code}" if e.code not in (None, 0) else None
                except Exception as e:
                    return f"{type(e).__name__}: {e}"
                return None
            o = clirun.run(["-dv", self.case_dir], self.d)
            return None if o.status == 0 else o.error or f"exit status {o.status} {o.out[-100:]}"
        finally:
            tempfile.tempdir = old

    def faulty(self, n, mode, err, n2=0):
        """Save with the n-th call failing: (error or None, calls made, faults that struck)."""
        L = lib()
        L.shim_clear()
        for p in {self.out, self.tmp, self.case_dir, os.path.join(self.d, "a")}:
            L.shim_under(p.encode())
        L.shim_arm(n, err, mode, n2)
        try:
            why = self.go()
        finally:
            L.shim_disarm()
        return why, L.shim_count(), L.shim_spent()

    def problem(self, real=False):
        """None if the outputs are complete, else what is wrong."""
        p = os.path.join(self.out, "results.xlsx")
        try:
            got = cells(p)
        except Exception as e:
            return f"workbook not readable: {type(e).__name__}: {e}"
        want = _book[self.case][0]
        if got != want:
            return f"workbook incomplete or different: sheets {[(s, len(x)) for s, x in got]}, expected {[(s, len(x)) for s, x in want]}"
        if self.kind == "api":
            return None
        f = os.path.join(self.out, "variables.py")
        if not os.path.isfile(f) or open(f, errors="replace").read() != self.text:
            return "no complete copy of the case file"
        for f, t in (("cp_plot.html", b"<html>plot</html>"), ("section_cl.png", b"figure"), ("section_cd.png", b"figure")):
            q = os.path.join(self.out, f)
            if not os.path.isfile(q):
                return f"{f} missing"
            data = open(q, "rb").read()
            if real and (len(data) < 2000 or data.startswith(b"old")) or not real and data != t:
                return f"{f} not written completely"
        return None

    def harmed(self):
        return [os.path.relpath(p, self.d) for p, t in self.keep.items() if not os.path.isfile(p) or open(p, "rb").read() != t]

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def cells(path):
    import openpyxl
    with zipfile.ZipFile(path) as z:
        bad = z.testzip()
        if bad:
            raise ValueError("damaged member " + bad)
    b = openpyxl.load_workbook(path, data_only=True)
    out = [(s.title, [r for r in s.iter_rows(values_only=True)]) for s in b.worksheets]
    b.close()
    return out


def judge(r, s, why, what, real=False):
    if why is None:
        p = s.problem(real)
        r.true("reported-as-done", p is None, f"{what}: ended normally, but {p}")
    h = s.harmed()
    r.true("unrelated-harmed", not h, f"{what}: unrelated files changed: {h}")
    if s.kind != "api":
        f = os.path.join(s.case_dir, "variables.py")
        r.true("case-harmed", os.path.isfile(f) and open(f).read() == s.text, f"{what}: the case file was changed")


def check_fault(it, r):
    name, n, mode, err, n2 = it
    s = scene(name)
    try:
        what = f"{name}: call {n}{f' and {n2}' if n2 else ''} of the save fails ({MODE[mode]}, {errno.errorcode.get(err, err)})"
        if mode == CRASH:
            pid = os.fork()
            if pid == 0:
                try:
                    why, _, _ = s.faulty(n, mode, err)
                    os._exit(0 if why is None else 1)
                finally:
                    os._exit(70)
            st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            why, struck = (None if st == 0 else f"status {st}"), st == 137
            what = f"{name}: crash at call {n} of the save"
        else:
            why, count, struck = s.faulty(n, mode, err, n2)
        judge(r, s, why, what)
        if not struck:
            r.true("fails-without-fault", why is None, f"{name}: fails although nothing failed: {why}")
        r.edges += 1
        if mode in (CRASH, STICKY) or not struck:
            why = s.go()                            # afterwards all is well again
            r.edges += 1
            r.evals = 2
            r.true("no-recovery", why is None, f"{what}; saving again afterwards: {why}")
            judge(r, s, why, what + ", then saving again")
        r.outcome = digest([name, str(why)[:60], n])
    finally:
        s.close()


def check_kernel(it, r):
    """Faults of the kernel's own: file size limits, full device, obstacles where files or folders should go."""
    name, kind, arg = it
    s = scene(name)
    try:
        what = f"{name}: {kind} {arg}"
        if kind == "size limit":
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (arg, old[1]))
            try:
                why = s.go()
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
        else:
            p = os.path.join(s.out, arg) if arg else s.out
            if kind != "folder":
                os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.isfile(p) and p not in s.keep:
                os.remove(p)
            if kind == "a folder in place of":
                os.makedirs(p)
            elif kind == "full device behind":
                os.symlink("/dev/full", p)
            elif kind == "dangling link at":
                os.symlink(os.path.join(s.d, "no", "such", "place"), p)
            elif kind == "endless link at":
                os.symlink(p, p)
            elif kind == "a file in place of":
                open(p, "w").write("x")
            elif kind == "folder":
                s.out = {"too long": os.path.join(s.d, "n" * 300), "zero byte": s.d + "/a\0b", "empty": "", "below a file": os.path.join(s.d, "f", "g"),
                         "too deep": os.path.join(s.d, *["m" * 250] * 17)}[arg]
                p = s.d
                if arg == "below a file":
                    open(os.path.join(s.d, "f"), "w").write("x")
                if s.kind == "cli":
                    clirun.write(s.case_dir, clirun.settings(s.c, s.out))
                    s.text = open(os.path.join(s.case_dir, "variables.py")).read()
            cwd = os.getcwd()
            os.chdir(s.d)
            try:
                why = s.go()
            finally:
                os.chdir(cwd)
        try:
            judge(r, s, why, what)
        except ValueError:                          # a zero byte in the path of the expected outputs
            r.true("reported-as-done", why is not None, f"{what}: ended normally")
        r.edges += 1
        r.outcome = digest([str(it), why is None])
    finally:
        s.close()


def check_fresh(it, r):
    """The command line as its own process, everything rendered for real."""
    name, n, mode, err = it
    s = scene(name)
    try:
        log = os.path.join(s.d, "log")
        os.environ.pop("LD_PRELOAD_", None)
        env = dict(LD_PRELOAD=os.environ["LD_PRELOAD"], VERIF_FAULT_AT=str(n), VERIF_FAULT_ERRNO=str(err), VERIF_FAULT_MODE=str(mode),
                   VERIF_FAULT_UNDER=":".join(sorted({s.out, s.tmp, s.case_dir})), VERIF_FAULT_LOG=log, TMPDIR=s.tmp, NUMBA_DISABLE_JIT="1")
        o = clirun.spawn(["-dv", s.case_dir], s.d, env=env)
        struck = mode == CRASH or os.path.exists(log) and int(open(log).read().split()[1]) > 0
        what = f"{name}, own process: call {n} fails ({MODE[mode]}, {errno.errorcode.get(err, err)})"
        judge(r, s, None if o.status == 0 else "failed", what, True)
        if not struck:
            r.true("fails-without-fault", o.status == 0, f"{name}: fails although nothing failed: {o.err[-300:]}")
        r.edges += 1
        r.outcome = digest([name, o.status, n])
    finally:
        s.close()


def prepare():
    import openpyxl, pySailingVLM.runner.cli  # noqa: F401,E401
    import bokeh.plotting, holoviews  # noqa: F401,E401
    from checks import C12
    from engine import Result
    for k in CASE:
        c, (ss, csys, v, R, hull) = solution(k)
        from pySailingVLM.results.save_utils import save_results_to_file
        d = os.path.join(boot.SCRATCH, "good-" + k)
        save_results_to_file(v, csys, R, ss, d, "results")
        p = os.path.join(d, "results.xlsx")
        rr = Result()
        wi, sF, sM = C12.expected_integrals(c, ss, csys, v, R, True)
        C12.check_book(rr, p, C12.expected_components(c, ss, csys, v, R), wi, C12.expected_inlet(c), sF, sM,
                       v.inlet_conditions.winds.to_df_integral(csys), v)
        _book[k] = cells(p), p, rr.viol


def check_fault_free(it, r):
    r.viol += [(k, m) for k, m in _book[it][2]]
    r.outcome = digest(it)


def run(ctx):
    if "libverif-faults" not in os.environ.get("LD_PRELOAD", ""):      # once more, with the fault layer under the process
        so = os.path.join(boot.SCRATCH, "libverif-faults.so")
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", so, os.path.join(boot.VERIF, "mc", "shim", "faults.c"), "-ldl"], check=True)
        sys.exit(subprocess.run([sys.executable, *sys.argv], env=dict(os.environ, LD_PRELOAD=so)).returncode)
    prepare()
    ctx.map("fault-free save", check_fault_free, sorted(_book))
    E = [errno.ENOSPC, errno.EACCES, errno.EIO, errno.ENOENT, errno.EDQUOT, errno.EROFS, errno.EMFILE, errno.EEXIST, errno.ESTALE]
    scenes = ["api-fresh-a", "api-older-a", "cli-fresh-b", "cli-older-a"] + ctx.q([], ["api-existing-b", "api-deep-b", "cli-existing-a", "cli-beside-b", "cli-deep-a"])
    items, calls = [], {}
    for name in scenes:
        s = scene(name)
        why, n, _ = s.faulty(0, ONCE, 0)
        s.close()
        calls[name] = n
        ctx.extra.setdefault("calls_per_save", {})[name] = n
        for k in range(1, n + 2):
            if ctx.thorough:
                items += [(name, k, ONCE, e, 0) for e in E + [errno.EINTR]] + [(name, k, m, errno.ENOSPC, 0) for m in (STICKY, WRITES, TORN, SHORT, CRASH)]
            else:
                items += [(name, k, *x, 0) for x in {"api-fresh-a": [(ONCE, E[k % 3]), (STICKY, E[k % 2])], "cli-fresh-b": [(ONCE, E[(k + 1) % 3])],
                          "api-older-a": [(ONCE, E[(k + 2) % 3]), (WRITES, E[0]), (TORN, E[0]), (CRASH, 0)],
                          "cli-older-a": [(ONCE, E[k % 3]), (WRITES, E[0]), (ONCE, errno.EINTR), (SHORT, 0)]}[name]]
    if ctx.thorough:
        for name in ("api-older-a", "cli-older-a"):
            n = calls[name]
            items += [(name, i, ONCE, errno.EIO, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if name[0] == "a" or j - i < 4]
    ctx.map("one fault per save", check_fault, items)
    size = os.path.getsize(_book["a"][1])
    ker = [(n, "size limit", int(b)) for n in ("api-fresh-a", "cli-older-a") for b in sorted({0, 1, 100, 1000, *np.linspace(0, size + 4096, ctx.q(14, 60)).astype(int)})]
    for n in ("api-fresh-a", "api-older-a", "cli-older-a"):
        ker += [(n, "a folder in place of", f) for f in ("results.xlsx",) + (("cp_plot.html", "section_cl.png", "section_cd.png") if n[0] == "c" else ())]
        ker += [(n, k, "results.xlsx") for k in ("full device behind", "dangling link at", "endless link at")]
        ker += [(n, "folder", f) for f in ("too long", "zero byte", "empty", "below a file", "too deep")]
    ker += [(n, k, "") for n in ("api-fresh-a", "cli-fresh-b") for k in ("a file in place of", "dangling link at", "endless link at")]
    ctx.map("kernel faults", check_kernel, ker)
    name = "new-older-a"
    s = scene(name)
    env = dict(LD_PRELOAD=os.environ["LD_PRELOAD"], VERIF_FAULT_AT="0", VERIF_FAULT_UNDER=":".join(sorted({s.out, s.tmp, s.case_dir})),
               VERIF_FAULT_LOG=os.path.join(s.d, "log"), TMPDIR=s.tmp, NUMBA_DISABLE_JIT="1")
    clirun.spawn(["-dv", s.case_dir], s.d, env=env)
    words = open(os.path.join(s.d, "log")).read().split() if os.path.exists(os.path.join(s.d, "log")) else ["0", "0"]
    s.close()
    n, kinds = int(words[0]), words[2:]
    ctx.extra["calls_of_own_process"] = n
    pts = range(1, n + 2)
    if not ctx.thorough:                            # the first call of each kind, and the first and last writes and closings
        first = {}
        for i, k in enumerate(kinds, 1):
            first.setdefault(k, []).append(i)
        pts = sorted({x for k in ("open-write", "write", "close-written", "sendfile") if k in first for x in (first[k][0], first[k][-1])})[:8]
    ctx.map("own process", check_fresh, [(name, 0, ONCE, 0)] + [(name, k, ONCE, errno.ENOSPC) for k in pts], chunk=1)
    ctx.extra["rule"] = "every file-system call made below the output, case and temporary folders during a save, numbered in a fault-free run, times the listed errors and modes"
    ctx.assumptions += ["a failed closing of a file may have lost what was written to it", "a fault that the save survives (interrupted or short calls, failed probes) is fine when the outputs are complete",
                        "figures are replaced by token files except in the own-process runs"]
