#!/usr/bin/env python3
"""Regenerates known_findings.json (committed; never written by a check)."""
import json
import os

KNOWN = [
    {"property": "C06", "id": "C06-slow-after-convergence", "status": "known", "keys": ["C06:slow-converged"],
     "what": "with a regulariser the run can end with the slow-progress warning (flag 2) instead of success although the objective is "
             "already within 1e-4 of the minimum and the documented slow-progress rule really holds (20n iterations below 1e-4); "
             "fails for corpus/C06/slow-after-convergence.json (any rhoend far below the accuracy of the smoothed subproblem solver)"},
    {"property": "C15", "id": "C15-loose-tolerance", "status": "known", "keys": ["C15:slow-geometry"],
     "what": "with a loose tolerance (1e-6 and above in practice) and sets meeting at a shallow angle the stopping rule is met more than 1e-3 away "
             "from the true projection, exactly as textbook Dykstra with this tolerance does; fails for corpus/C15/slow-geometry.json "
             "(two half-planes, tol=1e-6)"},
]
FIXED = [
    ("2d34f6c", ["C01"], "evaluation points and soln.x overshot the bounds by rounding (base point arithmetic, unscaling)"),
    ("a14b02a", ["C03"], "soft_restart passed sample count and evaluation number to save_point in the wrong order"),
    ("9e2436d", ["C03", "C10"], "x0 of the first run was numbered 0 and of every hard restart 1"),
    ("edebec8", ["C03", "C17"], "h was evaluated at a point that is not the evaluated one (base-relative coordinates)"),
    ("ea69a90", ["C06"], "regularised subproblems used bounds relative to the base point as absolute bounds"),
    ("7851bf5", ["C06"], "S-FISTA raised TypeError for non-empty argsprox"),
    ("c2fadc0", ["C04", "C03"], "parallel initialisation lost or misnumbered evaluated points"),
    ("32d6d25", ["C04"], "trial point was dropped on trust-region-increase and other early exits"),
    ("fa56a67", ["C04", "C08", "C17"], "NaN objective displaced a finite incumbent or saved point"),
    ("8bb0561", ["C17"], "swap_points did not swap the sample counts"),
    ("e6eaed4", ["C07"], "every input error raised TypeError; two documented exit codes missing from the result"),
    ("4bffbc9", ["C01", "C07", "C08"], "growing beyond n+1 points divided by the norm of a zero vector"),
    ("c4409c5", ["C18", "C10"], "reduce_rho ignored the rescaled rhoend after a restart"),
    ("5d79bf2", ["C10"], "exit flags and messages that did not describe how the run ended"),
    ("9e22ce7", ["C08", "C18"], "subproblem solvers called with non-finite data; delta scaled by non-finite values"),
    ("ab66744", ["C11", "C07"], "a Jacobian of zeros returned when no model was ever built; log of non-positive objective"),
    ("9ebff1d", ["C13", "C08"], "division by negligible curvature / overflow inside the subproblem solvers"),
    ("bcadff7", ["C07", "C19"], "initialisation with npt > 2n+1, and with projections and npt != n+1 or a reduced initial set, raised"),
    ("58195f9", ["C07"], "unusable bounds, radii and parameter values raised instead of giving an input error"),
    ("86c7430", ["C09"], "user Dykstra settings ignored in places; x0 not always projected"),
    ("7da9912", ["C14"], "random directions longer than requested; more directions than asked for"),
    ("f25fd66", ["C07", "C08"], "coincident interpolation points produced NaN instead of a singular system"),
    ("d848631", ["C20"], "diagnostic tables and non-finite values did not survive a strict JSON round trip"),
    ("9fe4e31", ["C18"], "distances used for geometry used points before the bounds were applied"),
    ("b2fb8b4", ["C04", "C17"], "adding a point while still growing left an unused row in between"),
    ("c778c8f", ["C08"], "soft restart while still growing raised IndexError"),
    ("e99f886", ["C18"], "restarts.max_npt was not respected by restarts made while growing"),
    ("226abef", ["C18", "C04"], "an increase was treated as very successful when the predicted reduction was a negative zero"),
    ("a93d57f", ["C04"], "actual reduction used the regulariser at another point than the evaluated one"),
    ("f612041", ["C16"], "resampling moved the incumbent but the factorisation centred at the old one was reused (Lagrange functions wrong)"),
    ("a532ac4", ["C16"], "full-rank completion changed the model value at the interpolation points unless the base was at the incumbent"),
    ("0d21f9c", ["C10"], "after a hard restart rel_tol was measured against the restart point, so success was claimed above max(abs_tol, rel_tol*f(x0)) when f(x0) was not finite or noisy"),
    ("dea527f", ["C03"], "with projections whose Dykstra runs do not converge, soln.x was a re-projection of the evaluated point, not the point itself"),
    ("b2f0aa3", ["C19"], "projections with npt > n+1 (no random option enabled): extra points came from growing with global random numbers; assertion if npt was large"),
    ("2b46eb8", ["C08"], "regulariser and residual values around 1e90..1e150: S-FISTA iteration bound raised OverflowError"),
    ("870d9c7", ["C05"], "at the end of a linear problem with many active bounds a far point with a Lagrange value of zero (rounding only) was replaced: singular system, flag -3 instead of success"),
    ("2e81fbf", ["C07"], "soft restart with restarts.increase_npt=True and increase_npt_amt=0 raised AssertionError"),
]
out = {"findings": list(KNOWN)}
for commit, props, what in FIXED:
    for p in props:
        out["findings"].append({"property": p, "id": "%s-%s" % (p, commit), "status": "fixed", "keys": [], "commit": commit, "what": what,
                                "text": "fixed: property=%s %s %s" % (p, commit, what)})
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
