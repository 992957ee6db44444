"""Runs the command-line tool on generated case folders, inside this (forked) process or in a fresh one."""
import contextlib, io, os, subprocess, sys
import numpy as np
import boot

PATCH = """
import os, sys
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import matplotlib.style
_real = matplotlib.style.use
def _use(style):                       # the 'science' style typesets with LaTeX, which is not installed here
    names = [style] if isinstance(style, (str, dict)) else list(style)
    _real([s for s in names if s not in ("science", "ieee", "nature")])
plt.style.use = _use
matplotlib.style.use = _use
"""


def literal(x):
    if isinstance(x, np.ndarray):
        return f"np.array({x.tolist()!r}, dtype={x.dtype.str!r})"
    if isinstance(x, np.generic):
        return repr(x.item())
    return repr(x)


def settings(c, name, file_name="results", case_name="variables.py", case_dir=None):
    """Configuration -> the settings dictionaries of a case file."""
    t = c["tables"]

    def sail(s):
        return dict(girths=t[s]["girths"], chords=t[s]["chords"], centerline_twist_deg=t[s]["twist"], camber=t[s]["camber"],
                    camber_distance_from_luff=t[s]["camdist"])
    return dict(
        output_args=dict(case_name=case_name, case_dir=case_dir, name=name, file_name=file_name),
        solver_args=dict(n_spanwise=c["mesh"][0], n_chordwise=c["mesh"][1], interpolation_type=c["interp"]),
        conditions_args=dict(leeway_deg=c["leeway"], heel_deg=c["heel"], SOG_yacht=c["SOG"], tws_ref=c["tws"], alpha_true_wind_deg=c["alpha"],
                             reference_water_level_for_wind_profile=c["wref"], wind_exp_coeff=c["expc"],
                             wind_reference_measurment_height=c["href"], rho=c["rho"], wind_profile=c["profile"], roughness=c["rough"]),
        rig_args=dict(main_sail_luff=c["mluff"], jib_luff=c["jluff"], foretriangle_height=c["fore_h"], foretriangle_base=c["fore_b"],
                      sheer_above_waterline=c["sheer"], boom_above_sheer=c["boom"], rake_deg=c["rake"], mast_LOA=c["mast_LOA"], sails_def=c["sails"]),
        main_sail_args=sail("m"), jib_sail_args=sail("j"),
        csys_args=dict(reference_level_for_moments=np.array(c["ref"])),
        keel_args=dict(center_of_lateral_resistance_upright=np.array(c["clr"])))


def text(s, tail=""):
    out = ["import os", "import numpy as np", "nan, inf = float('nan'), float('inf')", ""]
    for k, d in s.items():
        if d is None:
            continue
        out.append(f"{k} = {{")
        for n, x in d.items():
            lit = "os.path.dirname(os.path.abspath(__file__))" if n == "case_dir" and x is None else literal(x)
            out.append(f"    {n!r}: {lit},")
        out.append("}")
    return "\n".join(out) + "\n" + tail


def write(folder, s, name="variables.py", tail=""):
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, name), "w") as f:
        f.write(text(s, tail))


class Captured:
    def __init__(self):
        self.sections, self.polygons, self.axes3d = {}, [], []


def scatter_data(fig):
    out = []
    for ax in fig.axes:
        for col in ax.collections:
            out.append((str(col.get_label()), np.asarray(col.get_offsets(), float)))
        for ln in ax.lines:
            if len(ln.get_xdata()):
                out.append((str(ln.get_label()), np.stack([np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)], 1)))
    return out


@contextlib.contextmanager
def stubs(real_files=False):
    """Section plots and the HTML plot: record the data, and (unless real_files) write a token file instead of rendering."""
    import matplotlib.figure, matplotlib.style, matplotlib.pyplot as plt
    import holoviews as hv
    cap = Captured()
    use, use2, fsave, hsave, show = plt.style.use, matplotlib.style.use, matplotlib.figure.Figure.savefig, hv.save, plt.show

    def my_use(style):
        names = [style] if isinstance(style, (str, dict)) else list(style)
        use([s for s in names if s not in ("science", "ieee", "nature")])

    def my_save(self, fname, *a, **k):
        path = str(fname) if os.path.splitext(str(fname))[1] else str(fname) + ".png"
        cap.sections[os.path.abspath(path)] = dict(points=scatter_data(self), xlabel=[ax.get_xlabel() for ax in self.axes],
                                                   ylabel=[ax.get_ylabel() for ax in self.axes],
                                                   legend=[[t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None for ax in self.axes])
        if real_files:
            return fsave(self, fname, *a, **k)
        with open(path, "wb") as f:
            f.write(b"figure")

    def my_hsave(obj, filename, *a, **k):
        cap.polygons.append((str(filename), obj))
        if real_files:
            return hsave(obj, filename, *a, **k)
        with open(filename, "w") as f:
            f.write("<html>plot</html>")

    def my_show(*a, **k):
        for n in plt.get_fignums():
            for ax in plt.figure(n).axes:
                if hasattr(ax, "get_zlim"):
                    cap.axes3d.append(ax)
    plt.style.use = matplotlib.style.use = my_use
    matplotlib.figure.Figure.savefig = my_save
    hv.save, plt.show = my_hsave, my_show
    try:
        yield cap
    finally:
        plt.style.use, matplotlib.style.use, matplotlib.figure.Figure.savefig, hv.save, plt.show = use, use2, fsave, hsave, show
        plt.close("all")


class Outcome:
    pass


def run(args, cwd, path=(), real_files=False):
    """main() in this process. Returns status (0 = success), exception name, output, captured plots."""
    from pySailingVLM.runner import cli
    o = Outcome()
    argv, old, sp = sys.argv, os.getcwd(), list(sys.path)
    o.error = None
    out, err = io.StringIO(), io.StringIO()
    with stubs(real_files) as cap:
        try:
            os.chdir(cwd)
            sys.argv = ["pySailingVLM", *args]
            sys.path[:] = [*path, *sp]
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                rc = cli.main()
            o.status = 0 if rc in (None, 0) else rc
        except SystemExit as e:
            o.status = 0 if e.code in (None, 0) else (e.code if isinstance(e.code, int) else 1)
        except KeyboardInterrupt:
            raise
        except Exception as e:
            o.status, o.error = 1, f"{type(e).__name__}: {e}"
        finally:
            sys.argv = argv
            sys.path[:] = sp
            os.chdir(old)
    o.out, o.err, o.cap = out.getvalue(), err.getvalue(), cap
    return o


def spawn(args, cwd, pythonpath=(), module=True, env=None, timeout=240):
    """python -m pySailingVLM in a fresh process (with the LaTeX style left out)."""
    runner = os.path.join(boot.SCRATCH, "runner.py")
    if not os.path.exists(runner):
        with open(runner + f".{os.getpid()}", "w") as f:
            f.write("import os, sys\nsys.path[:1] = [os.getcwd(), %r]\n" % boot.REPO + PATCH +
                    "import runpy\nsys.argv[0] = 'pySailingVLM'\nrunpy.run_module('pySailingVLM', run_name='__main__', alter_sys=True)\n")
        os.replace(runner + f".{os.getpid()}", runner)
    e = dict(os.environ, MPLBACKEND="Agg", **(env or {}))
    if pythonpath:
        e["PYTHONPATH"] = os.pathsep.join(pythonpath)
    p = subprocess.run([sys.executable, runner, *args], cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    o = Outcome()
    o.status, o.out, o.err = p.returncode, p.stdout, p.stderr
    return o
