"""The properties and their checks in one place.

`python3 tools/catalog.py` rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = "kerrgeopy/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": [K + f for f in files],
                           "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"observe_at": observe} if observe else {}),
                           **({"state": state} if state else {}),
                           "hook_needed": None},
                  technique=technique, note=note))


ENUM = ("explicit-state model checking: exhaustive enumeration of a bounded, layered state space on the real code, every state "
        "compared with an independent reference model")

prop("C01", "Constants of motion belong to the orbit with the requested shape",
     "For every bound orbit given by spin, semi-latus rectum, eccentricity and inclination, the energy, angular momentum and Carter "
     "constant returned by any entry point are those of the geodesic that turns around exactly at p/(1-e), p/(1+e) and the requested "
     "maximum inclination, including circular, equatorial, polar, Schwarzschild, retrograde and marginally bound limits. All entry "
     "points and all combinations of optional already-known values agree.",
     ["inputs", "configurations"], "all (a, p, e, x) inside the separatrix-bounded domain, every subset of optional arguments",
     "the tests compare a fixed file of random generic parameters with Mathematica; the shortcut branches (a=0, e=0, x=0, |x|=1, e=1), "
     "their neighbourhoods, negative spins and optional arguments are hardly touched",
     ["constants.py", "orbit.py"],
     [("quadratic for E with branch by sign of x", "constants.py energy"), ("special cases for x=0, a=0, e=1", "constants.py energy, angular_momentum, carter_constant"),
      ("flip of negative spins", "constants.py _standardize_params")],
     ENUM, "Exact for every enumerated cell within tolerances derived from the conditioning; nothing is said between lattice points. Trusts numpy extended precision.")
prop("C02", "The separatrix is exactly the boundary of stable bound orbits",
     "The value reported for the separatrix is the smallest semi-latus rectum beyond which an orbit of that eccentricity and inclination "
     "can exist, for all spins, eccentricities and inclinations including the equatorial, polar and non-spinning limits, and the "
     "stability test answers according to it. The interpolated separatrix agrees with the exact one to interpolation accuracy, and the "
     "separatrix decreases as the orbit becomes more prograde.",
     ["inputs"], "all 0<=a<1, 0<=e<=1, |x|<=1 and all p on both sides",
     "the tests sample random generic inclinations; the bracketing only fails in the limits (nearly polar, nearly equatorial, slow spin)",
     ["constants.py", "spacetime.py"],
     [("bracketed root of the separatrix polynomial", "constants.py separatrix, _S, _S_polar, _S_equatorial, _bracketed_root"),
      ("spline over a grid", "constants.py fast_separatrix"), ("comparison with p", "constants.py is_stable; spacetime.py KerrSpacetime.is_stable")],
     ENUM, "The reference separatrix comes from the definition of stability (merging radial roots), not from a polynomial. p is classified only when at least 1e-5 away from the boundary.")
prop("C03", "Parameters outside the supported domain are refused, inside are answered",
     "Spins, eccentricities, inclinations or semi-latus recta outside the documented domain, not-a-number, extremal spins, polar and "
     "marginally bound orbits where unsupported, and orbits inside the separatrix raise ValueError from every function and class that "
     "takes orbital parameters, alone or in combination and with or without optional arguments. Every parameter set inside the domain "
     "is answered with finite real numbers.",
     ["inputs", "configurations"], "all parameter tuples, all entry points, all subsets of optional arguments",
     "the tests try a few invalid values on a few functions; the guards are repeated in every function and can be lost in one of them",
     ["constants.py", "frequencies.py", "stable.py", "plunge.py"],
     [("validity guards repeated at each entry", "constants.py energy, angular_momentum, carter_constant, separatrix, valid_params; frequencies.py r_frequency, theta_frequency, phi_frequency, gamma")],
     "explicit-state model checking: the product of entry points and all single and paired invalid coordinates is enumerated completely on the real code",
     "Complete over the alphabet of invalid values; refusal means ValueError.")
prop("C04", "Orbital parameters and constants of motion are inverse to each other",
     "Converting the shape of an orbit to its constants of motion and back returns the same spin, semi-latus rectum, eccentricity and "
     "inclination, and constants of a bound orbit survive the opposite round trip. An orbit built from constants of motion is the orbit "
     "built from the corresponding shape.",
     ["inputs"], "all bound orbits with non-negative spin",
     "the tests have no round trip over limits; nearly circular, nearly equatorial and small-spin orbits are where it loses digits or picks the wrong root",
     ["constants.py", "stable.py"], [("roots of the radial and polar polynomial", "constants.py apex_from_constants, _polar_roots_from_constants, _merge_double_root"),
      ("alternative constructor", "stable.py StableOrbit.from_constants")],
     ENUM, "Tolerances follow the conditioning of the inverse problem (1/e, 1/d).")
prop("C05", "Radial and polar roots are the roots, in the documented order",
     "The radial and polar roots reported for any stable or plunging orbit are all the roots of the radial and polar equations, ordered "
     "as documented: motion between the first two, the others decreasing, complex pairs last.",
     ["inputs"], "all stable orbits and all bound plunging constants, with two or four real roots, motion in the outer or inner region",
     "tests use generic plunges of one kind; the ordering depends on where horizons lie between roots",
     ["constants.py"], [("roots from Vieta relations", "constants.py stable_radial_roots, stable_polar_roots"), ("ordering by horizons", "constants.py plunging_radial_roots")],
     ENUM, "Constants within 1e-3 of a double root (kind of motion undefined) are left out for plunges.")
prop("C06", "Mino-time frequencies are the averages of the geodesic equations",
     "The radial, polar and azimuthal Mino-time frequencies and the time dilation factor of every stable orbit equal the averages of the "
     "separated geodesic equations over the orbit, including circular, equatorial, non-spinning and retrograde limits; the "
     "Boyer-Lindquist frequencies are their ratios.",
     ["inputs"], "all supported stable orbits", "tests compare tabulated random generic orbits only",
     ["frequencies.py"], [("elliptic integral formulas", "frequencies.py r_frequency, theta_frequency, phi_frequency, gamma, mino_frequencies, fundamental_frequencies")],
     ENUM, "Reference by quadrature without elliptic functions, converged to 1e-14.")
prop("C07", "Every way of asking for a frequency gives the same correct value",
     "Passing already known constants or frequencies never changes a frequency, and functions, orbit attributes and orbit methods report "
     "the same values for the same orbit.",
     ["inputs", "configurations"], "all stable orbits times all subsets of optional arguments times all entry points",
     "optional arguments are never passed in the tests", ["frequencies.py", "stable.py", "orbit.py"],
     [("optional arguments", "frequencies.py r_frequency, theta_frequency, phi_frequency, gamma"), ("duplicate implementation from constants", "frequencies.py _mino_frequencies_from_constants"),
      ("attributes and methods", "stable.py StableOrbit")], ENUM, "As C06.")
prop("C08", "Stable trajectories solve the geodesic equations from the documented start",
     "For every stable orbit, choice of initial phases and Mino time of either sign, time, radius, polar and azimuthal angle are those of "
     "the geodesic that starts at the documented point given by the phases. This holds at turning points, equator crossings and far away, "
     "through the function and through orbit objects.",
     ["inputs", "histories"], "all stable orbits, phases and Mino times",
     "tests compare short forward stretches of random generic orbits with tabulated data from zero phases",
     ["stable.py", "frequencies.py"], [("Fujita-Hikida solutions", "stable.py radial_solutions, polar_solutions, stable_trajectory"),
      ("period counting of incomplete integrals", "frequencies.py _ellipeinc, _ellippiinc")],
     ENUM, "Reference by quadrature and Newton inversion without elliptic functions.")
prop("C09", "Initial phases are positions on the orbit",
     "Restarting an orbit from the phases reached after any sequence of Mino-time steps continues exactly the same motion; adding whole "
     "turns to a phase changes nothing; time and azimuthal phases are pure offsets.",
     ["histories", "inputs"], "all sequences of steps of bounded length, all windings, all stable and plunging orbits",
     "a statement about sequences of restarts; no test restarts an orbit", ["stable.py", "plunge.py", "orbit.py"],
     [("normalisation constants at the start", "stable.py stable_trajectory; plunge.py _complex_plunge_trajectory, _real_plunge_trajectory")],
     "explicit-state model checking: all sequences of restart moves up to a depth are executed on the real code and compared with the reference state",
     "Depth 3 (quick) / 4 (thorough).")
prop("C10", "Plunging trajectories and frequencies solve the geodesic equations",
     "For every supported plunging orbit, choice of initial phases and Mino time of either sign, the frequencies and all four coordinates "
     "are those of the geodesic, from the documented start, through turning points and both horizons, whether the radial equation has two "
     "or four real roots.",
     ["inputs", "histories"], "all bound plunging constants, phases and Mino times",
     "tests check a few tabulated plunges on a short stretch from zero phases; several branches (signs, horizons, small spins, equatorial) are not reached",
     ["plunge.py", "stable.py", "frequencies.py"], [("Dyson-van de Meent solutions", "plunge.py plunging_radial_integrals, plunging_radial_solutions_complex, plunging_polar_solutions, plunging_trajectory"),
      ("plunges with four real roots", "plunge.py _real_plunge_trajectory"), ("frequencies", "frequencies.py plunging_mino_frequencies")],
     ENUM, "Reference by (principal value) quadrature; |a| >= 1e-5; constants within 1e-3 of a double root are left out.")
prop("C11", "The four-velocity is the unit tangent of the orbit's own trajectory",
     "At every Mino time the analytic four-velocity of every orbit has norm -1, equals the derivative of the trajectory divided by the "
     "geodesic's scale factor, and has the right signs on every branch of the motion; the numerical four-velocity and the reported "
     "initial position and velocity agree with it, also with overridden phases.",
     ["inputs", "histories"], "all orbits, phases and Mino times", "tests check the norm (blind to signs) and a few points of generic orbits",
     ["spacetime.py", "orbit.py", "stable.py", "plunge.py"], [("geodesic equations with signs from phases", "spacetime.py KerrSpacetime.four_velocity"),
      ("finite differences", "orbit.py Orbit.numerical_four_velocity"), ("initial values", "stable.py StableOrbit; plunge.py PlungingOrbit")],
     ENUM, "Reference velocity from reference turning points.")
prop("C12", "An orbit rebuilt from any event and velocity on it is the same orbit",
     "Taking any event of any bound geodesic with its four-velocity as initial conditions gives an orbit with the same constants, kind, "
     "shape, frequencies and motion, wherever on the orbit the event lies. Rebuilding repeatedly along the orbit stays on it, and "
     "optional arguments that supply known quantities change nothing.",
     ["inputs", "histories", "configurations"], "all stable and plunging geodesics, all positions on their phase torus, all chains of re-anchoring up to a depth, all subsets of optional arguments",
     "tests use a few tabulated initial conditions; quadrants of the torus, turning points and special orbits are not covered",
     ["initial_conditions.py", "orbit.py", "constants.py"], [("constants from a linear system", "initial_conditions.py constants_from_initial_conditions"),
      ("kind of orbit from roots", "initial_conditions.py is_stable"), ("inverse elliptic integrals with quadrant choice", "initial_conditions.py stable_orbit_initial_phases, plunging_orbit_initial_phases")],
     "explicit-state model checking: all points of a lattice on the phase torus and all re-anchoring chains up to a depth are executed on the real code against the reference geodesic",
     "Events within the documented turning-point tolerance but not on it are left out. One known finding: orbits around negative spins wind the wrong way.")
prop("C13", "Initial data that is not a supported bound orbit is refused",
     "Initial conditions are accepted exactly when the four-velocity is a unit timelike vector at that point within the documented "
     "tolerance and the motion is bound around a non-extremal black hole; everything else raises ValueError rather than giving numbers, "
     "through every way of creating an orbit. Accepted data never gives a not-a-number trajectory.",
     ["inputs"], "all velocities in a lattice around every event, all unsupported constants and spins",
     "no test creates invalid initial velocities for more than one case", ["orbit.py", "plunge.py", "initial_conditions.py"],
     [("norm test", "orbit.py Orbit"), ("domain guards", "orbit.py Orbit; plunge.py PlungingOrbit")],
     "explicit-state model checking: all single and paired perturbations of the velocity components at lattice events are enumerated on the real code against an independent norm",
     "A decade either side of the documented tolerance is left open.")
prop("C14", "Trajectory deltas split every trajectory into its periodic parts",
     "For every orbit and choice of phases the four trajectory deltas, added to the secular growth, rebuild the orbit's own time and "
     "azimuthal angle at every Mino time, depend only on their own phase, are periodic where the motion stays between turning points, "
     "and agree with the separated geodesic equations.",
     ["inputs", "histories"], "all orbits of all three classes, phases and Mino times", "the deltas are tested on generic stable orbits only",
     ["orbit.py", "stable.py", "plunge.py"], [("deltas in three classes", "orbit.py Orbit.trajectory_deltas; stable.py StableOrbit.trajectory_deltas; plunge.py PlungingOrbit.trajectory_deltas")],
     ENUM, "For plunges a term proportional to Mino time may sit in either delta.")


def extra():
    path = os.path.join(HERE, "tools", "catalog2.py")
    if os.path.exists(path):
        exec(compile(open(path).read(), path, "exec"), globals())


def main():
    extra()
    have = {f[:-3] for f in os.listdir(os.path.join(HERE, "mc", "props")) if re.fullmatch(r"[A-Z]\d+\.py", f)}
    keys = ["id", "title", "statement", "quantifier", "why_tests_cant", "anchors"]
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        assert q["statement"].count(". ") <= 2, (q["id"], q["statement"].count(". "))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for q in P:
            if q["id"] in have:
                fh.write(json.dumps({k: q[k] for k in keys}) + "\n")
    man = {"version": 1, "setup_cmd": "true",
           "checks": [{"property": q["id"], "quick_cmd": "./run.sh %s quick" % q["id"], "thorough_cmd": "./run.sh %s thorough" % q["id"],
                       "evidence_file": "evidence/%s.json" % q["id"], "technique": q["technique"], "level": "model_checking",
                       "level_note": q["note"]} for q in P if q["id"] in have],
           "not_applicable": [],
           "notes": "No hooks: every check drives the public API of /repo's working tree. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
