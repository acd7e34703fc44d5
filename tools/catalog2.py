prop("C15", "Physical units are the geometrized values scaled by the right powers",
     "Every conversion function multiplies by the dimensionally correct combination of G, c and the masses, for scalars and arrays, and "
     "converting there and back is the identity; every class and function that offers units returns in each unit exactly the converted "
     "value of its own natural-unit result, for trajectories, constants and frequencies, whatever the combination of units; asking for "
     "physical units without the masses raises ValueError, and asking for a unit that does not exist raises an error.",
     ["inputs", "configurations"], "all masses, values, classes, and pairs of distance and time units",
     "tests convert one orbit with one mass; powers of the mass and of the constants cancel there or are not exercised",
     ["units.py", "orbit.py", "stable.py", "plunge.py", "constants.py"],
     [("conversion functions", "units.py"), ("unit dispatch repeated in each method", "orbit.py Orbit.trajectory; stable.py StableOrbit.trajectory, constants_of_motion, mino_frequencies, fundamental_frequencies; plunge.py PlungingOrbit.trajectory")],
     "explicit-state model checking: the complete product of conversion functions, masses, values, classes and units is enumerated on the real code against an independent dimensional formula",
     "Absolute SI values to 2e-4 (rounded constants in the library), ratios exact.")
prop("C16", "The spacetime is the Kerr black hole in Boyer-Lindquist coordinates",
     "For every spin the metric components are those of the Kerr solution at every point, inside, between and outside the horizons; the "
     "norm of any vector is the quadratic form of that metric; horizon radii, separatrix and stability delegate to the right values. The "
     "four-velocity it attaches to any geodesic with given constants has norm -1 and the signs of that motion.",
     ["inputs"], "all spins, points and vectors",
     "tests check a handful of metric values and the norm only along generic stable orbits",
     ["spacetime.py"], [("metric and norm", "spacetime.py KerrSpacetime.metric, norm"), ("horizons", "spacetime.py KerrSpacetime"),
      ("geodesic equations", "spacetime.py KerrSpacetime.four_velocity")],
     ENUM, "The quadratic form is determined completely by the enumerated basis of vectors.")
prop("C17", "Functions of time act elementwise on arrays of any shape and type",
     "Every function of Mino time or of phase handed out by the library, evaluated on a scalar or an array of any shape, memory layout "
     "and number type, returns at each position the value it has for that element alone, in the same shape, and leaves its argument "
     "untouched. Orbital parameters may be Python integers and floats or numpy integers (32 or 64 bit) and doubles without changing any result.",
     ["inputs", "configurations"], "all containers, all combinations of critical points in one array, all number types",
     "tests pass one-dimensional float arrays; mixtures of special points in one array, other shapes and integers are not covered",
     ["stable.py", "plunge.py", "orbit.py", "spacetime.py", "frequencies.py"],
     [("branches by numpy.where and sign of the phase", "spacetime.py KerrSpacetime.four_velocity; plunge.py plunging_radial_integrals; frequencies.py _ellipeinc, _ellippiinc"),
      ("scalar shortcut", "frequencies.py _ellippiinc, _ellipeinc")],
     "explicit-state model checking: all containers and all subsets of the critical points are enumerated on the real code against elementwise evaluation",
     "Values at exact quarter periods agree to 1e-6 only (half the digits are lost in the elliptic functions).")
prop("C18", "No operation changes the answer of a later one",
     "Results depend only on the arguments and the orbit's parameters, never on which other operations were carried out before, on this "
     "orbit, on another one or on the module. Operations leave their arguments, the orbit's documented attributes and global settings "
     "unchanged, and functions handed out earlier keep their meaning, even when the caller overwrites arrays it received.",
     ["histories"], "all sequences of operations up to a depth on every kind of orbit, on pairs of similar orbits, and on module functions",
     "a statement about histories: tests construct an orbit and ask one thing",
     ["orbit.py", "stable.py", "plunge.py", "constants.py", "frequencies.py", "initial_conditions.py", "spacetime.py", "units.py"],
     [("attributes used as defaults of methods", "orbit.py Orbit.trajectory, four_velocity, trajectory_deltas, plot, animate"),
      ("closures over phases and constants", "stable.py stable_trajectory; plunge.py plunging_trajectory")],
     "explicit-state model checking: all operation sequences up to a depth are executed on the real code in a tree of forked processes and compared with the same operation executed first",
     "Depth 3 (quick), 4 (thorough).",
     state=[dict(name="attributes of orbits", meaning="parameters, constants, phases, initial data", where="StableOrbit, PlungingOrbit, Orbit, KerrSpacetime"),
            dict(name="module globals", meaning="physical constants, anything cached", where="kerrgeopy modules"),
            dict(name="global settings", meaning="numpy error state, matplotlib parameters", where="numpy, matplotlib")])
prop("C19", "Two threads may use the library at the same time",
     "Results obtained by two threads that work concurrently on one orbit, on functions it handed out, on similar orbits or on the "
     "module functions are those each thread would obtain alone, and so are all results afterwards.",
     ["schedules"], "all interleavings of two operations at the granularity of library lines up to a preemption bound",
     "no test uses threads, and a race shows only under particular schedules",
     ["orbit.py", "stable.py", "plunge.py", "constants.py", "frequencies.py", "initial_conditions.py", "spacetime.py"],
     [("shared orbit attributes", "orbit.py Orbit; stable.py StableOrbit; plunge.py PlungingOrbit"), ("module state", "constants.py; frequencies.py; units.py")],
     "stateless model checking: all schedules of two real threads up to a preemption bound under a controlled scheduler, with partial-order reduction over lines that touch only thread-local data",
     "Preemption between lines of the library, one per schedule (quick) or one of each thread (thorough).",
     state=[dict(name="attributes of a shared orbit", meaning="parameters, constants, phases", where="StableOrbit, PlungingOrbit, Orbit"),
            dict(name="module globals", meaning="physical constants, anything cached", where="kerrgeopy modules")])
prop("C20", "Plots show the orbit, and only what the black hole does not hide",
     "A point counts as visible exactly when it is outside the horizon sphere and not behind its disc as seen from the viewing "
     "direction, independently of the other points asked about. Static plots draw the orbit over exactly the requested interval with the requested options, phases and axes, "
     "the horizon at its radius, and hide exactly the hidden points.",
     ["inputs", "configurations"], "all points, spins and viewing angles; all plotting options",
     "tests compare no plot content; visibility is tested at a few points one at a time",
     ["orbit.py"], [("occlusion test", "orbit.py Orbit.is_visible"), ("plot assembly", "orbit.py Orbit.plot")],
     "explicit-state model checking: all lattice points, pairs and triples of points, and layered combinations of options are enumerated on the real code, artists read back and compared with an independent geometric model",
     "What matplotlib draws is taken to be what its artists say.")
prop("C21", "Every frame of an animation shows the orbit at its own time",
     "In every frame that animate writes, the body is at the orbit's position at that frame's Mino time, the tail is the preceding piece "
     "of the orbit of the requested length with its hidden parts hidden, and camera, limits, component plots and time stamps are those "
     "of that frame. The number of frames, their rate and the file are the requested ones.",
     ["inputs", "configurations", "histories"], "all frames of animations over all option combinations up to a bound",
     "no test looks at a frame; off-by-one errors in the tail, interpolation of camera paths and options in combination are invisible to them",
     ["orbit.py"], [("frame drawing", "orbit.py Orbit.animate draw_frame"), ("tail and opacity", "orbit.py Orbit.animate"), ("camera paths", "orbit.py Orbit.animate")],
     "explicit-state model checking: all frames of a layered enumeration of option combinations are produced by the real code and compared with an independent model of the frame",
     "The encoder is replaced by a stand-in that swallows the frames.")
prop("C22", "Orbits respect the symmetries of the spacetime and have no jumps",
     "Flipping the signs of spin and inclination together gives the same orbit; shifting the polar phase by half a turn reflects it in the "
     "equatorial plane; negating phases and Mino time reverses it; restarting from a later point continues it; and for plunges flipping "
     "the signs of spin and angular momentum mirrors the azimuth. Constants, roots, frequencies and trajectories tend to their "
     "special-case values as spin, eccentricity or inclination approach one.",
     ["inputs", "histories"], "all stable and plunging orbits, phases and times; all approaches to the special cases down to 1e-100",
     "relations between outputs at different inputs; tests compare single outputs with tables",
     ["constants.py", "frequencies.py", "stable.py", "plunge.py", "orbit.py", "spacetime.py"],
     [("sign conventions", "constants.py _standardize_params; stable.py stable_trajectory, StableOrbit"), ("special-case branches", "constants.py energy, angular_momentum, carter_constant; frequencies.py theta_frequency, phi_frequency, gamma")],
     "explicit-state model checking: exhaustive enumeration of a bounded, layered state space on the real code, outputs related to each other, no reference model",
     "Complementary to the reference comparisons: catches nothing that is wrong symmetrically.")
