#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ONE = "The only stable test is one sample call of the orbital-element conversion; "

p("P01", "A resumed simulation is bit-identical to one that was never interrupted",
  "For every system, integrator and combination of effects, stopping a simulation at any recovery snapshot and resuming it from that snapshot yields exactly the same later states and exactly the same history bytes as the run that was never interrupted, however many times it is interrupted. A snapshot in the binary format restores every value bit for bit; a JSON snapshot restores the same simulation to floating-point text precision. Writing or not writing recovery snapshots never alters the simulated trajectory.",
  ["crash_points", "histories", "configurations"], "every interruption point and every set of interruption points of a run, for every integrator/coordinate system, tidal model and subset of effects",
  ONE + "no test ever writes, restores and continues a snapshot, let alone at every step.",
  ["src/integrator/output.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/particles/universe.rs"],
  [("snapshot write/restore", "src/integrator/output.rs write_recovery_snapshot, restore_snapshot"), ("whole integrator state is serialised", "struct WHFast, Ias15, LeapFrog, Universe")],
  [("integrator state", "time, step, predictor coefficients, compensated sums, last output times", "src/integrator/*.rs")], ["restored integrator vs. live integrator, history file bytes"])

p("P02", "A crash at any instant leaves a snapshot from which the run can be completed",
  "If the process dies at any point while it is writing its outputs, including half-way through a single write, then once a first recovery snapshot has been completed there is always at least one complete recovery snapshot on disk (the current one or the previous one it replaced), and the history on disk always holds everything that any complete snapshot on disk vouches for. Resuming from any snapshot the program accepts after such a crash completes the simulation with a history file byte-identical to that of the run that never crashed, even if the resumed run crashes again. When the files cannot be written (write errors, disk full), the run never ends as if it had succeeded.",
  ["crash_points", "fault_sequences", "histories"], "every file-system operation of the run as a crash point, with every torn-write length class, and crash pairs",
  ONE + "no test kills the program.",
  ["src/main.rs", "src/integrator/output.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
  [("previous snapshot kept aside before a new one is written", "src/integrator/output.rs write_recovery_snapshot"), ("history flushed before the snapshot that counts it", "write_recovery_snapshot of each integrator"), ("history truncated to the length the snapshot vouches for", "src/integrator/output.rs get_universe_history_writer")],
  None, ["files left by the real binary after an injected crash; final history bytes after resuming"])

p("P03", "A damaged snapshot is refused instead of silently simulated",
  "A recovery snapshot that has been cut short, emptied, extended or whose text no longer parses is never accepted as a simulation: the program reports failure and leaves the history file untouched. In particular, a partial snapshot of one integrator is never mistaken for a complete snapshot of another integrator.",
  ["fault_sequences", "inputs"], "every truncation length and trailing-garbage variant of snapshots of every integrator, in both formats",
  ONE + "no test restores a damaged file.",
  ["src/integrator/output.rs", "src/main.rs"],
  [("typed deserialisation attempts", "src/integrator/output.rs deserialize_bin_snapshot, deserialize_json_snapshot")], None, ["result of restoring each damaged file; exit status of the binary; history bytes"])

p("P04", "Existing results are never overwritten and history always matches its snapshot",
  "Starting a simulation never touches files that already exist under the given snapshot or history names, whatever combination of them exists: it fails and leaves every byte as it was. Resuming with a history file shorter than what the snapshot vouches for fails without modifying the history, and resuming with a longer one keeps exactly the vouched prefix and appends from there. A failed start or resume leaves the recovery snapshot unchanged (a resume without any history file may leave an empty one). The same file is never taken both as snapshot and as history.",
  ["histories", "configurations"], "every combination of pre-existing/missing/short/long files and every start/resume sequence up to a bounded length",
  ONE + "no test runs the program on pre-existing files.",
  ["src/main.rs", "src/integrator/output.rs"],
  [("existence checks before start", "src/main.rs"), ("length validation and truncation", "src/integrator/output.rs get_universe_history_writer")], None, ["bytes of all files before and after each command"])

p("P05", "Run control: limits, periods and resume options act exactly as requested",
  "A run advances, by at least one step, until the next step would pass the simulation time limit and then reports completion; a resumed run honours a new time limit, new historic period and new recovery period given on the command line, keeps the stored values for options not given, and refuses a new time limit already in the past or outside the evolutionary tables. An execution-time limit stops the run with a snapshot from which it can be continued, and does not stop periodic recovery snapshots from being written. Silent mode changes only the console output.",
  ["histories", "configurations", "inputs"], "every sequence of start/resume commands and options up to a bounded depth, compared state by state with a reference model of run control",
  ONE + "no test runs the command line program.",
  ["src/main.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
  [("option parsing and main loop", "src/main.rs"), ("limit/period setters and completion test", "set_time_limit, set_snapshot_periods, iterate in each integrator")], None, ["exit status, history file, snapshot file after each command"])

p("P06", "The history file records the true state of every body at the configured cadence",
  "The history starts with one entry at time zero and then has one entry for every elapsed historic period (integrators with a constant step keep the cadence of whole multiples of the period; the adaptive one writes an entry whenever a full period has elapsed since the previous entry); each entry holds, for every body in order, the simulation time, the step, the body identity and its current position, velocity, spin, mass, radius, gyration, Love number, dissipation, lag angle, latest evaluated tidal energy rate and migration timescale, in the documented fixed-size layout. The number of entries equals the count kept in the snapshot. Recording history, at any period, never alters the simulated trajectory.",
  ["histories", "configurations"], "every step of runs over all integrators, periods (shorter than, equal to and longer than the step, commensurate or not) and subsets of effects",
  ONE + "no test inspects the history layout or cadence.",
  ["src/integrator/output.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
  [("cadence triggers", "iterate in each integrator"), ("record layout", "src/integrator/output.rs write_historic_snapshot")], None, ["history bytes vs. live state at every step"])

p("P07", "Gravity is the exact sum of pairwise Newtonian attractions of all bodies",
  "For any number of bodies up to the supported maximum, in any order, every body's gravitational acceleration is the sum over all other bodies of the Newtonian attraction towards them, and nothing else. When an integrator asks for terms it handles analytically to be left out, exactly those terms (the pair formed by the most massive body and the first other body, or all pairs involving the most massive body) are missing and no others. Positions and velocities handed in are re-expressed in the centre-of-mass frame, and the frame relative to the most massive body always agrees with it.",
  ["configurations", "inputs"], "every body count 1..10, every position of the most massive body, every term-selection mode, geometric layouts",
  ONE + "gravity is never compared with a reference.",
  ["src/particles/universe.rs"],
  [("pairwise gravity loop", "src/particles/universe.rs gravity_calculate_acceleration"), ("frame changes", "src/particles/universe.rs inertial_to_heliocentric, calculate_center_of_mass")], None, ["accelerations, positions and velocities after each call"])

p("P08", "Collisions, Roche-limit encounters and ejections stop the run for every pair",
  "Whenever two bodies overlap, a body comes within the Roche radius of another (given by their current masses and radii), or a body is farther than the ejection distance from the most massive body, the simulation stops with an error, whichever bodies they are, in whatever order they are listed and at whatever time it happens (the conditions are looked at wherever forces are evaluated, at least once per step). When no such condition holds for any pair, the simulation does not stop.",
  ["configurations", "inputs"], "every body count, every ordered pair, every position of the most massive body, separations on both sides of every threshold",
  ONE + "no test provokes an encounter.",
  ["src/particles/universe.rs", "src/constants.rs"],
  [("encounter checks in the gravity loop", "src/particles/universe.rs gravity_calculate_acceleration"), ("Roche radii", "src/particles/universe.rs calculate_roche_radiuses")], None, ["whether the call stops"])

p("P09", "Forces between bodies obey action and reaction: linear momentum is conserved",
  "For every effect that acts between bodies (gravity, tides, rotational flattening, disk interaction) and every combination of them, the mass-weighted sum of the accelerations of all bodies is zero up to rounding, whichever bodies take part, whichever body is the host and wherever it is listed. During integration the total linear momentum and the centre of mass stay constant up to rounding for these effects.",
  ["configurations", "histories"], "every subset of effects, host position, participation mask and tidal model; every step of bounded runs",
  ONE + "conservation is never checked.",
  ["src/effects/tides/common.rs", "src/effects/rotational_flattening/common.rs", "src/effects/disk.rs", "src/effects/general_relativity.rs", "src/particles/universe.rs"],
  [("reaction on the host", "calculate_tidal_acceleration, calculate_acceleration_induced_by_rotational_flattering, calculate_disk_interaction_acceleration")], None, ["sum of mass times acceleration; centre of mass over time"])

p("P10", "Tides and flattening only exchange angular momentum between spins and orbits",
  "Tidal and rotational-flattening forces and torques are consistent: the rate of change of all spins plus the rate of change of the orbital angular momentum caused by these forces is zero up to rounding, for any orientation of spins and orbits and any set of participating bodies, whichever body is the host (for the Kaula model, whose torque is an orbit average, averaged over the orbit). Over an integration with these effects only, total angular momentum (orbits plus spins) is conserved to the accuracy of the integrator.",
  ["configurations", "inputs", "histories"], "every spin/orbit orientation on a grid, host position, participation mask, and steps of bounded runs with each integrator",
  ONE + "conservation is never checked.",
  ["src/effects/tides/constant_time_lag.rs", "src/effects/tides/common.rs", "src/effects/rotational_flattening/oblate_spheroid.rs", "src/effects/rotational_flattening/common.rs"],
  [("torques derived from the same forces", "calculate_torque_due_to_tides, calculate_torque_induced_by_rotational_flattening")], None, ["sum of spin torques and orbital torques"])

p("P11", "Disabled effects and non-participating bodies contribute exactly nothing",
  "An effect that is switched off for the simulation, or has no host, changes no acceleration, torque, spin, radius or trajectory, whatever parameters the bodies carry; a body that does not take part in an effect neither feels it nor modifies how others feel it (in the full N-body relativity equations it still counts as a source of gravity). Enabling several effects together gives the sum of their separate contributions.",
  ["configurations"], "every subset of the six effects crossed with every participation mask of the bodies",
  ONE + "effects are never combined or disabled in a test.",
  ["src/particles/universe.rs", "src/effects/tides/common.rs", "src/effects/rotational_flattening/common.rs", "src/effects/general_relativity.rs", "src/effects/disk.rs", "src/effects/wind.rs"],
  [("effect switches", "src/particles/universe.rs calculate_additional_effects, disable_unnecessary_effects"), ("participation matches", "effects/*")], None, ["accelerations and torques with and without each effect/body"])

p("P12", "The physics does not depend on the order in which bodies are listed",
  "Listing the same bodies in a different order gives the same accelerations, torques, evolving quantities and trajectories for each body, up to rounding, for every effect and every integrator whose method treats bodies symmetrically; in particular the host need not be listed first. (Jacobi coordinates, in the integrator and in the Anderson formulation of relativity, follow the listing order of the planets by definition; there only the place of the host is free.)",
  ["configurations"], "every permutation of up to five bodies for every subset of effects",
  ONE + "no test permutes bodies.",
  ["src/particles/universe.rs", "src/integrator/whfast.rs", "src/effects/general_relativity.rs"],
  [("host lookup by index", "src/particles/universe.rs find_indices"), ("left/right splitting of the body list around the host", "src/particles/universe.rs, effects/*")], None, ["per-body accelerations, torques, trajectories after un-permuting"])

p("P13", "The physics does not depend on the orientation, origin or motion of the frame",
  "Rotating all input positions, velocities and spins rotates all accelerations, torques and trajectories by the same rotation; shifting all positions or boosting all velocities by a constant changes nothing, since the simulation works in the centre-of-mass frame. Models that single out the reference plane by definition (disk, coplanar creep, Kaula) obey this for rotations within that plane.",
  ["configurations", "inputs"], "all 24 axis-permuting rotations (exact in floating point up to order of sums), grid of shifts and boosts, every effect and integrator",
  ONE + "no test rotates or shifts a system.",
  ["src/particles/universe.rs", "src/effects/tides/constant_time_lag.rs", "src/effects/rotational_flattening/oblate_spheroid.rs", "src/effects/general_relativity.rs", "src/integrator/whfast.rs"],
  [("component-wise vector formulas", "effects/*, integrator/*")], None, ["accelerations, torques and trajectories"])

p("P14", "Constant-time-lag tides follow the published force, torque and heating laws",
  "For every host/planet pair, the tidal acceleration, the torque on each spin and the tidal energy dissipation rate equal the published constant-time-lag expressions evaluated at the instantaneous relative position, velocity and spins with the bodies' current radii, Love numbers and scaled dissipation factors. When dynamical tides apply (evolving bodies with frequency-dependent dissipation), the dissipation used for a pair is the dynamical one exactly while the excitation frequency is in the dynamical regime and the equilibrium one otherwise. Bodies without tides are not affected.",
  ["inputs", "configurations"], "grid of orbits, spins, radii and dissipations; host position; evolution models; regime transitions in both directions",
  ONE + "tidal forces are never compared with a reference.",
  ["src/effects/tides/constant_time_lag.rs", "src/effects/tides/common.rs"],
  [("force components", "src/effects/tides/constant_time_lag.rs"), ("pair-dependent dissipation", "src/effects/tides/constant_time_lag.rs calculate_*_dependent_scaled_dissipation_factors")], None, ["tidal outputs of each body"])

p("P15", "Rotational flattening follows the published force and torque laws",
  "For every host/planet pair, the acceleration and spin torques caused by rotational flattening equal those of the quadrupole of each body spinning at its current rate, with its own Love number and radius, including bodies that do not rotate (which contribute nothing) and arbitrary spin orientations.",
  ["inputs", "configurations"], "grid of orbits, spin orientations and rates (including zero), radii and Love numbers, host position",
  ONE + "flattening forces are never compared with a reference.",
  ["src/effects/rotational_flattening/oblate_spheroid.rs", "src/effects/rotational_flattening/common.rs"],
  [("force components", "src/effects/rotational_flattening/oblate_spheroid.rs")], None, ["flattening outputs of each body"])

p("P16", "General-relativity corrections match the selected published formulation",
  "With general relativity enabled, the extra acceleration of every participating body equals the post-Newtonian expression of the selected formulation (host-planet first-order terms, or the full N-body first-order equations), independently of which Newtonian terms the integrator handles itself, of the order of the bodies and of other bodies that do not take part. The leading correction is proportional to the inverse square of the speed of light (the second-order one to its inverse fourth power) and makes an isolated eccentric orbit precess at the general-relativistic rate.",
  ["inputs", "configurations"], "grid of orbits and masses, body counts, host position, participation masks, term-selection modes, three formulations",
  ONE + "relativistic accelerations are never compared with a reference.",
  ["src/effects/general_relativity.rs", "src/particles/universe.rs", "src/integrator/whfast.rs"],
  [("formulations", "src/effects/general_relativity.rs")], None, ["relativistic acceleration of each body"])

p("P17", "Stellar wind and disk interaction follow their published laws in every regime",
  "A body with a wind loses spin angular momentum at the published rate in both the saturated and unsaturated regimes, whichever integrator runs and whether or not other effects are enabled. A body interacting with a disk feels the published migration, eccentricity-damping and inclination-damping accelerations computed from the disk's surface density, viscosity and age at its current location, and none inside the inner edge of the disk.",
  ["inputs", "configurations"], "grid of spins around saturation, positions around disk edges, masses, disk parameters and ages, all integrators",
  ONE + "neither effect is exercised.",
  ["src/effects/wind.rs", "src/effects/disk.rs", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
  [("wind law", "src/effects/wind.rs calculate_wind_factor"), ("disk law", "src/effects/disk.rs calculate_disk_interaction_acceleration")], None, ["torque and acceleration outputs; spin after integration"])

p("P18", "Evolving bodies follow the interpolated tables whatever was queried before",
  "At any time, an evolving body's radius, gyration, Love number and dissipation are the linear interpolation of its evolutionary table at the current age (held constant outside the table), and its spin follows from conserving angular momentum with the new moment of inertia. The values depend only on the time asked for, not on earlier queries, their order, or whether the simulation was interrupted.",
  ["histories", "inputs", "configurations"], "every sequence of query times up to a bounded length over a grid including every table node, interval and out-of-range time, for every evolution model",
  ONE + "no evolution table is available to tests.",
  ["src/effects/evolution.rs", "src/tools.rs", "src/particles/universe.rs"],
  [("table loading and interpolation cache", "src/effects/evolution.rs"), ("interpolation", "src/tools.rs interpolate_b_spline/linear")], None, ["radius, gyration, Love number, lag angle, spin after each query"])

p("P19", "Forces are a function of the current state only",
  "The accelerations, torques and dissipation computed for a system depend only on the current time, positions, velocities, spin angular momenta and physical parameters: evaluating forces earlier, for other states or times, or repeatedly, never changes what is computed now.",
  ["histories"], "every sequence up to a bounded length of evaluations over a small set of states, times and evaluation modes, compared with a fresh evaluation",
  ONE + "no test evaluates forces twice.",
  ["src/particles/universe.rs", "src/effects/tides/common.rs", "src/effects/tides/constant_time_lag.rs", "src/effects/general_relativity.rs", "src/effects/disk.rs"],
  [("re-initialisation before each evaluation", "src/particles/universe.rs initialize, calculate_additional_effects")], None, ["outputs of the last evaluation of each sequence"])

p("P20", "Every integrator propagates a two-body orbit to its theoretical accuracy",
  "For an isolated pair of bodies with any eccentricity, inclination, phase and mass ratio, listed in either order, the Wisdom-Holman integrator in Jacobi and WHDS coordinates reproduces the exact Keplerian motion to rounding for any step, in democratic heliocentric coordinates up to an error that is second order in the step and proportional to the planet's mass, the high-order adaptive integrator to its tolerance, and the leapfrog integrator with error shrinking as the square of the step. Energy and angular momentum do not drift beyond those errors.",
  ["inputs", "configurations"], "grid of elements, phases, mass ratios, steps, body orders, integrators and coordinate systems",
  ONE + "no integrator step is checked against the analytic solution.",
  ["src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs"],
  [("universal-variable Kepler solver and coordinate transforms", "src/integrator/whfast.rs"), ("Gauss-Radau predictor-corrector", "src/integrator/ias15.rs"), ("drift-kick-drift", "src/integrator/leapfrog.rs")], None, ["positions and velocities after each step"])

p("P21", "All integrators converge to the same motion and spins for every system",
  "For any multi-body system and any set of effects, integrating to the same time with each integrator and each coordinate system gives the same positions, velocities and spins up to errors that vanish at each method's order as the step shrinks (first order for evolving bodies, whose evolution is applied once per step). The simulated time advances by exactly the accepted step, and no effect enabled in the simulation is dropped by an integrator.",
  ["configurations", "inputs"], "every subset of effects, every integrator and coordinate system, every host position, against an independent high-order reference integration",
  ONE + "integrators are never compared.",
  ["src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/particles/universe.rs"],
  [("kick/drift/corrector sequence", "src/integrator/whfast.rs iterate"), ("spin integration", "integrate_spin of each integrator")], None, ["state after a fixed time"])

p("P22", "Orbital elements and Cartesian states convert back and forth without loss",
  "For every elliptic, parabolic or hyperbolic orbit, converting elements to position and velocity and back returns the same orbit: same size, shape, orientation, phase and period, with angles defined modulo a full turn, including circular, planar, polar and retrograde orbits (parabolic phases from perihelion onwards), in the simulator and in the Python tools. The Kepler equation solver satisfies the equation for every eccentricity and anomaly, and the perihelion and eccentricity helper agrees with the full conversion.",
  ["inputs"], "grid covering all combinations of boundary and generic values of every element",
  "The only stable test evaluates this conversion at a single state.",
  ["src/tools.rs"],
  [("conversions", "src/tools.rs calculate_keplerian_orbital_elements, calculate_cartesian_coordinates, kepler_solution_*")], None, ["round-trip of each state"])

p("P23", "Invalid set-ups are refused and valid ones select the right hosts",
  "Setting up a simulation fails loudly for every invalid configuration: more than the supported number of bodies, more than one host for an effect, a relativity host that is not the most massive body, different hosts for tides and flattening, mixed or inconsistent creep models, and evolution tables that do not cover the simulated interval, even if the effect concerned is switched off. Every other combination is accepted, and an effect requested without any host is switched off rather than failing.",
  ["configurations"], "every assignment of roles (none, host, orbiting) to up to four bodies for every effect, with every position of the most massive body",
  ONE + "no invalid configuration is tried.",
  ["src/particles/universe.rs", "src/particles/particle.rs", "src/effects/evolution.rs"],
  [("validation", "src/particles/universe.rs disable_unnecessary_effects, find_indices; src/particles/particle.rs check_uniform_viscosity_coefficient")], None, ["whether construction succeeds, and which effects act"])

p("P24", "Case files written by the Python tools start the very same simulation in Rust",
  "Every case that can be described with the Python interface (any integrator, body, effect and evolution combination) produces a case file the simulator accepts and reads back as the same masses, positions, velocities, spins, effect parameters, hosts, steps and periods, with the same physical constants and unit conversions on both sides. History files written by the simulator are read back by the Python tools with the same values, and classified by body relative to any reference body. A description that is not a valid case (a second host, differing hosts, too many bodies, a mass or time span without table) is refused on both sides.",
  ["configurations", "inputs"], "every integrator and coordinate system, every effect and evolution choice, and subsets of effects",
  ONE + "the Python package cannot even be imported by the stable tests.",
  ["posidonius/particles/universe.py", "posidonius/particles/particle.py", "posidonius/integrator", "posidonius/effects", "posidonius/constants.py", "posidonius/analysis/history.py", "src/integrator/output.rs"],
  [("mirrored data model", "posidonius/* get() vs. serde structures in src/*")], None, ["universe restored from the Python case vs. the Rust API construction"])

p("P25", "Creep and Kaula tides follow their published response for every state",
  "The coplanar creep model's equilibrium shape, force and torque, and the Kaula model's force and torque built from the given frequency-dependent Love number table, equal the published expressions for every bound, coplanar, prograde orbit, on the planet and on the host, including table look-ups at, between and beyond the tabulated frequencies.",
  ["inputs", "configurations"], "grid of orbits, spins, viscosities, Love number tables and frequencies, both roles",
  ONE + "neither model is compared with a reference.",
  ["src/effects/tides/creep_coplanar.rs", "src/effects/rotational_flattening/creep_coplanar.rs", "src/effects/tides/kaula.rs"],
  [("creep shape", "src/effects/tides/creep_coplanar.rs calculate_creep_coplanar_shape"), ("Kaula expansion", "src/effects/tides/kaula.rs")], None, ["tidal outputs of each body"])

p("P26", "Analysis tools derive elements, resonances and tidal heat correctly",
  "For every history, the Python analysis tools give each planet's semi-major axis, eccentricity, argument of perihelion, longitude of the node, mean anomaly, perihelion and aphelion distances around the star at every entry; list, sorted and once each, the commensurabilities within the documented limits of numerator and denominator that are nearest to some sampled period ratio of the requested range; report a resonance exactly when one of its resonant angles has a dispersion below the threshold; and compute the tidal heat as the orbit average of the constant-time-lag dissipation.",
  ["inputs", "configurations"], "every orbit of the grid, every period ratio p/q in and beyond the limits, every resonance up to fourth order with every librating angle, every spin state of the grid",
  ONE + "the analysis tools have no tests at all.",
  ["posidonius/analysis/resonances.py", "posidonius/analysis/computation.py", "posidonius/tools.py"],
  [("elements of every entry", "posidonius/analysis/resonances.py calculate_resonance_data"), ("candidates and detection", "posidonius/analysis/resonances.py get_possible_resonances, is_resonance"), ("tidal heat", "posidonius/analysis/computation.py energydot")], None, ["values returned by the tools"])

p("P27", "Reports written from a history hold the right values for every planet",
  "For every history and its case file, the report of the exploration script has one line per planet and entry with the time, size, eccentricity and inclination of its orbit, corotation radius, obliquities of planet and star with respect to the orbit, rotation periods, pseudo-synchronous period, direction of the projected spin axis, instantaneous and mean tidal power and flux (the flux scaled with the planet's own dissipation scale, all zero without tides) and the relative change of the total angular momentum since the first entry, whichever body is the star. The raw export holds every recorded number of every body unchanged.",
  ["inputs", "configurations"], "every orbit and spin orientation of the grid for one to three planets, every place of the star, every set of planets with tides",
  ONE + "the scripts have no tests at all.",
  ["scripts/explore_history.py", "scripts/raw_history.py", "posidonius/analysis/history.py"],
  [("derived columns", "scripts/explore_history.py"), ("raw export", "scripts/raw_history.py"), ("reading and classifying", "posidonius/analysis/history.py read, classify")], None, ["text files written by the scripts"])

p("P28", "Resonance figures show every resonance while it is held, and only then",
  "For a history of any length (two entries or more), the figure of resonances in time shows, for each pair of neighbouring planets, one box with the right name, rank and pair over the entries during which a resonance is held (up to the window of the test and the sampling step) and no box while none is held, together with the true size, pericentre, apocentre, eccentricity and order of every orbit, also when planets change places. The figure of a single resonance shows the period ratio, the difference of the longitudes of pericentre and every resonant angle of the two requested planets at every entry, and impossible requests are refused.",
  ["inputs", "histories"], "every history length around each change of the sampling, every order of up to three planets, every resonance and librating angle of the list, every schedule of held and not held",
  ONE + "the scripts have no tests at all.",
  ["scripts/explore_timed_resonances.py", "scripts/explore_single_resonance.py", "posidonius/analysis/resonances.py", "posidonius/analysis/history.py"],
  [("resonances in time", "scripts/explore_timed_resonances.py"), ("single resonance", "scripts/explore_single_resonance.py"), ("detection", "posidonius/analysis/resonances.py")], None, ["figures drawn by the scripts (recorded drawing calls)"])

p("P29", "Every shipped example case starts, runs, resumes and converges",
  "Each example case shipped with the project (papers, example systems with disks, binaries and a circumbinary planet) writes a case file with its Python script that the simulator accepts and runs, with the barycentre at rest and every quantity finite; stopping the run after any step and resuming it later gives the same history; every integrator and coordinate system converges to the same motion and spins from the same file; and the forces do not depend on the order of the bodies in it.",
  ["inputs", "configurations", "histories"], "every shipped case x every integrator and coordinate system x every order of the bodies x every chosen step to stop at",
  ONE + "nothing ever runs the shipped scripts or their case files.",
  ["cases", "posidonius/particles/universe.py", "posidonius/tools.py", "posidonius/effects/evolution.py", "src/particles/universe.rs", "src/integrator/output.rs", "src/main.rs"],
  [("example cases", "cases/*.py, cases/*/*.py"), ("case writer", "posidonius/particles/universe.py write"), ("start and resume", "src/main.rs, src/integrator/output.rs")], None, ["case files, history bytes of the program, states of the restored simulation"])

p("P30", "Orbits and spins drift at the rates of secular theory",
  "Over many orbits, and with every integrator, coordinate system, listing order, host and deformed body, tides and rotational flattening make the semi-major axis, the eccentricity, the pericentre, the orbital plane and the spin vectors of a pair drift at the published secular rates (precession by the quadrupole of a spinning body and by the tidal bulge, turning of the spin axis by its reaction, and tidal evolution after Hut with obliquity, equally for the Kaula model with a table that stands for a constant time lag and for creep in its fluid limit), the constant-time-lag heat reported being what orbit and spin lose, whether or not distant bodies that take no part are present.",
  ["configurations", "inputs", "histories"], "every model x deformed body x eccentricity x spin orientation and rate x mass ratio x integrator x listing order x bystander, run over many orbits",
  ONE + "no test runs an orbit long enough to see a drift, and errors of a force, of the frame in which it acts and of the integrator can hide each other.",
  ["src/effects/tides", "src/effects/rotational_flattening", "src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/particles/universe.rs"],
  [("tidal forces and torques", "src/effects/tides/constant_time_lag.rs, kaula.rs, common.rs"), ("flattening", "src/effects/rotational_flattening/oblate_spheroid.rs"), ("integration of spins and velocities", "src/integrator/*.rs")], None, ["state after every step"])

p("P31", "Forces that conserve energy neither create nor lose it over whole runs",
  "In a run of any number of bodies, with every integrator and coordinate system and wherever the host is listed, Newtonian gravity, tidal bulges without lag, rotational flattening and the relativistic corrections of Newhall conserve the total energy including their own potentials, the total angular momentum including the spins, the motion of the centre of mass and the rate of every spin, up to errors that shrink as the step does and that do not wander over the run.",
  ["configurations", "histories"], "every integrator and coordinate system x number of bodies x conservative effect x place of the host x step size, looked at after every step",
  ONE + "no test looks at a conserved quantity, and an error in a force, in its reaction or in the coupling to an integrator that leaves every single formula plausible shows up as energy made from nothing.",
  ["src/integrator/whfast.rs", "src/integrator/ias15.rs", "src/integrator/leapfrog.rs", "src/effects/tides/common.rs", "src/effects/rotational_flattening", "src/effects/general_relativity.rs", "src/particles/universe.rs"],
  [("gravity", "src/particles/universe.rs"), ("tides and flattening", "src/effects/tides, src/effects/rotational_flattening"), ("Newhall", "src/effects/general_relativity.rs"), ("integrators", "src/integrator/*.rs")], None, ["state after every step"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert x["statement"].count(". ") <= 3
        f.write(json.dumps(x) + "\n")
print(len(P))
