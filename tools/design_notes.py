NOTES = {
"C01": "Chain law by lazy/grid uniforms in C++; the plain extension is run with real seeds along recorded traces. `generate_sample` of the model object and the one-call helper are enumerated too.",
"C02": "Energy tables are arbitrary (not only Ising), so a bug that assumes anything about the energy function shows. The reported energies and the history are compared with the table after each update.",
"C04": "`generate_cond_sample` documents no use of the initial sample; parallel conditional sampling of the Python implementation raises NotImplementedError and is not claimed.",
"C05": "Seeds enter through the real generators here (no stand-in), so equality is bitwise; only the schedule is a choice.",
"C09": "Orders above those documented are not claimed.",
"C13": "One recorded finding (see below): `define_ternary_helper_functions` reads out-of-range columns and its intended observables are undocumented.",
"C14": "Sparse solvers order the selection by `np.unique`; `SparseEnumerate` returns only the selected parameters. The scipy back end may fail to converge (Krylov): a returned failure is not judged, a reported success is. Solver classes in general never copy an array given as `constraints`.",
"C17": "ACE keeps clusters strictly above the threshold; ties up to rounding are not judged.",
"C18": "MCH tolerances are strict; histories are scripted samplers, so every learning trajectory within the bound is visited.",
"C19": "A model keeps a reference to the vector given to `set_multipliers` (documented nowhere as a copy): later changes by the owner are excluded. `Triplet` documents vector input but raises; `n_cpus` of models is unused.",
"C21": "`Ising.resort_couplings` in `ising/utils.py` is an empty stub.",
"C22": "Systematic iteration rounds up to whole sweeps (as documented in the loop).",
"C24": "Compiled helper functions of `define_*` with fixed numba signatures accept only int64 states and writable float64 parameters; other types raise TypeError, which is not a wrong result.",
"C26": "The homogeneous formulas need J>0. Legacy thermodynamic helpers are excluded (see Known limits).",
"C27": "`min_size` is documented but ignored; `solve()` replaces the generator of the model. Neither is claimed.",
}
