import os, sys, types, shutil
import pySailingVLM.runner.cli as cli
S = os.environ["SCRATCH"]
src = os.path.join(os.getcwd(), "pySailingVLM", "variables.py")
text = open(src).read()
text += """
solver_args['n_spanwise'] = 2
solver_args['n_chordwise'] = 1
rig_args['sails_def'] = 'main'
output_args['name'] = %r
""" % os.path.join(S, "out")
open(os.path.join(S, "variables.py"), "w").write(text)
seen = []
cli.plot_section_coeff = lambda x, y, f, name, colors, names=None: seen.append((name, list(names)))
cli.plot_cp = lambda *a, **k: None
cli.display_panels_xyz_and_winds = lambda *a, **k: None
sys.argv = ["pySailingVLM", "-dv", S]
os.chdir(S)
cli.main()
if [n for _, n in seen] != [["main_sail"], ["main_sail"]]:
    print("BROKEN:", seen); sys.exit(1)
