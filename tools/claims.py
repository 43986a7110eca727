CLAIMS = {
    "C01": "The round trips are ghost client functions verified against the contracts of the two conversions.",
    "C02": "",
    "C03": "Convergence of the iteration is not proved; it is only checked on executed inputs with mild distortion. Proved: a settled iteration is an exact inverse, the affine part is exact, the origin is fixed.",
    "C04": "",
    "C05": "For rays that reach the glass and are not totally reflected; memory safety is proved for all inputs.",
    "C06": "The radial shift is characterised as a settled point of the iteration (stopping tolerance 0.001) or 1; convergence itself is checked only on executed inputs.",
    "C07": "Numbers of raster lines are assumed to fit an int; the table node value is the value multimed_r_nlay returns for that node.",
    "C08": "FX/FY (PX/PY) name the projection proved in the first two postconditions so that callers can refer to it.",
    "C09": "The undistorted sensor corners and the ray / projection values enter as the values the called functions return (C03, C05, C08).",
    "C10": "The permutation relation is kept abstract: reflexivity, one exchange and transitivity, proved for finitely supported bijections in lemmas/perm.lean. Termination of the repeated passes of track.c:sort is not proved.",
    "C11": "The helpers are proved for every number of cameras; the composite correspondences() is proved for 1-3 cameras, and for 4 cameras only run on generated inputs (bounded stand-in, not counted as proved). Allocation is assumed to succeed; a non-negative band width and two different X_lay values are preconditions.",
    "C12": "The Gauss-Jordan recursion is the spec; a ghost client shows the result solves every linear system, i.e. is the inverse.",
    "C13": "Ray directions and start points enter point_position as the values ray_tracing returns (C05).",
    "C14": "",
    "C18": "The projection of a reference point enters as the value img_coord and metric_to_pixel return (C08, C01). The code does not keep a detection from serving two reference points; the property does not claim it.",
    "C19": "",
    "C22": "Projections enter as the values img_coord and metric_to_pixel return (C08, C01). The target list is sorted by y (C10). Ranking across cameras (sort_candidates_by_freq) is not under contract.",
}
NA = {
    "C15": "num_deriv_exterior could be put under contract, but orient and raw_orient decide their residuals through an iteration whose convergence no contract here can express; no sound check was finished",
    "C16": "per-pixel contracts over flat image buffers with offset pointers were not finished; no check is claimed rather than one on part of the filters",
    "C17": "the connected-region search works on an explicit work list whose invariants (reachability) were not finished",
    "C20": "the ring is rotated through pointer-to-pointer arrays of frames, which the memory model of this verifier (no aliasing through stored pointers) cannot express",
    "C21": "the guarantees are about the behaviour of stdio (fopen, fscanf, printf rounding), which would have to be assumed by contract to the point of assuming the property",
    "C23": "mutual links are an invariant across frames reached through stored pointers and function pointers of the frame buffer, outside this verifier's memory model",
    "C24": "ownership through malloc, realloc and stored pointers is outside this verifier's memory model; accesses inside the functions under contract are checked for bounds in their own properties",
    "C25": "the bindings are Cython sources whose guarantees live in CPython reference counting; no deductive verifier for Cython/CPython is within reach here",
}
