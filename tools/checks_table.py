SL = "stateless exhaustive exploration of the real code (deviation-bounded state space) with a per-state reference oracle"
CHECKS = {
 "C01": ("model_checking", SL, "every configuration within the deviation bound is built and solved by the real code and compared with an independent vortex-lattice solution; bounded alphabet, not a proof over the reals"),
 "C02": ("model_checking", SL, "every configuration within the deviation bound"),
 "C03": ("model_checking", "exhaustive enumeration of points x vortices on a lattice including core states, against closed-form Biot-Savart", "bounded lattice of geometries"),
 "C04": ("model_checking", SL, "every configuration within the deviation bound"),
 "C05": ("model_checking", SL, "every rig configuration with at most two deviations from four roots"),
 "C06": ("model_checking", "exhaustive enumeration of axis x angle x point sequences, against Rodrigues' formula", "bounded lattice of axes, angles, points"),
 "C07": ("model_checking", "exhaustive enumeration of wind settings x heights, and of solved configurations", "bounded alphabet"),
 "C08": ("model_checking", "exhaustive enumeration of tables x laws x section counts, against an independent spline", "bounded alphabet"),
 "C09": ("model_checking", SL, "every configuration within the deviation bound; totals, moments and centre of effort recomputed from the panels"),
 "C10": ("model_checking", SL, "all leeway x heel x vector states and solved configurations; one recorded finding"),
 "C11": ("model_checking", "exhaustive enumeration of configurations x symmetry/similarity transformations: every edge relates two executions of the real code", "bounded alphabet; panels large compared with the fixed vortex core"),
 "C12": ("model_checking", SL + "; every cell of every sheet", "every configuration within the deviation bound"),
 "C13": ("model_checking", "exhaustive exploration of all interleavings of operations of several cases in one process up to a depth", "operation sequences up to the stated depth on a few cases"),
 "C20": ("model_checking", "exhaustive enumeration of the airfoil parameter lattice", "bounded lattice"),
 "C21": ("model_checking", "exhaustive enumeration of hull parameters x attitudes", "bounded lattice"),
 "C23": ("model_checking", "exhaustive enumeration of mesh shapes and panel geometries", "bounded lattice"),
}
CHECKS.update({
 "C14": ("model_checking", "exhaustive enumeration of kernel arguments and configurations, each executed compiled and interpreted", "bounded lattice; every state executed in both modes"),
 "C17": ("model_checking", SL + "; plus made-up fields of every shape up to a bound", "every configuration within the deviation bound"),
 "C19": ("model_checking", "exhaustive enumeration of wings within a deviation bound, against an independent vortex-lattice solution and relations between runs", "bounded alphabet"),
})
CHECKS.update({
 "C15": ("model_checking", "exhaustive exploration of case-file placements, output-folder states, broken cases and sequences of runs of the real command line", "bounded alphabet of placements and cases; rendering of figures replaced by recording their data, a few runs in fresh processes render nothing away"),
 "C16": ("model_checking", "exhaustive enumeration of single and paired omissions and substitutions of settings, through the library and the command line", "every slot, every unknown name in the alphabet, every wind profile and sail set"),
})
CHECKS.update({
 "C18": ("fault_enumeration", "exhaustive enumeration of fault points: every file-system call of a save fails in every mode (preloaded fault layer), plus crashes and kernel-made faults, with recovery after each", "every call of the explored saves x listed errors and modes; bounded set of scenes"),
 "C22": ("model_checking", SL + "; every artist of the drawn figures", "every configuration within the deviation bound; artists, not pixels, are compared"),
})
CHECKS.update({
 "C24": ("model_checking", "exhaustive enumeration of degenerate settings, of degenerate panels at every position and of disturbed linear solutions at every entry, each run through the real solver, with and without assertions", "bounded alphabet of degenerate values and grids"),
})
