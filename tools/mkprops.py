#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
BEM, CC, AF, CS, CO = "ccblade/src/bem.f90", "ccblade/ccblade.py", "ccblade/airfoilprep.py", "ccblade/csystem.py", "ccblade/ccblade_component.py"
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe),
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))

prop("C01", "Returned induction factors and flow angle satisfy the BEM equations",
 "For every rotating section, the returned axial and tangential induction factors are the ones the blade element momentum equations give at the flow angle implied by the returned angle of attack, twist and pitch: momentum theory up to the Glauert limit, the Buhl/Glauert correction above it, Prandtl tip and hub losses (with the sine of the signed flow angle, so that with losses no solution is looked for in the propeller-brake region), local solidity, and the airfoil's coefficients at the returned angle of attack. Each model switch (tip loss, hub loss, wake rotation, drag in induction) removes exactly its own term and nothing else. The blade element residual vanishes at that flow angle.",
 ["inputs","configurations"], "every station, geometry with rhub<r<rtip, operating point with non-zero axial and rotational velocity, each of the 16 combinations of the four model switches, one or two Reynolds-number iterations, table and user-supplied airfoils",
 "tests sample one rotor (NREL 5 MW) with all switches at default and compare against stored integrated values; heavily loaded, singular-window and switch combinations are never reached",
 [BEM, CC], [("inductionFactors: k, kp, Glauert branch, F, residual", BEM), ("__runBEM / __loads", CC)],
 ["CCBlade.distributedAeroLoads: a, ap, alpha, Cl, Cd, W, Re"])
prop("C02", "The inflow-angle solver converges to a root in the preferred region",
 "For every rotating section where the residual changes sign on the standard interval (0, 90 deg], the returned flow angle is a root of the residual in that interval; otherwise it is a root in the propeller-brake interval (-45 deg, 0) when that one brackets a root, and otherwise in (90, 180 deg) when the residual changes sign there. The root is converged: the residual changes sign within 1e-9 rad of the returned flow angle. A section whose residual changes sign in none of the intervals reports no flow angle outside them and never raises.",
 ["inputs","configurations"], "all operating points including reversed tangential or axial flow, high loading, near-hub/near-tip stations and each switch combination",
 "tests only reach the (0, 90 deg] region on a conventional rotor; the fallback regions and their order are not exercised",
 [CC, BEM], [("bracket selection and brentq", CC)], ["CCBlade.distributedAeroLoads: alpha, theta, pitch"],
 [("phi_lower/phi_upper", "current bracket", CC)])
prop("C03", "Section loads follow from the returned coefficients and velocity",
 "For every section the returned normal and tangential force coefficients are the rotation of lift and drag by the flow angle, always including drag whatever the induction options, and the returned loads per unit length equal coefficient times dynamic pressure of the returned relative velocity times chord. Relative velocity is the resultant of axial velocity times (1-a) and tangential velocity times (1+a'), the Reynolds number is density times that velocity times chord over viscosity, lift and drag are the airfoil's at the returned angle of attack, and all are reported in the documented units (alpha in degrees).",
 ["inputs","configurations"], "every station and operating point, rotating or parked, every switch combination, density and viscosity",
 "the tests compare only loads of a single reference blade; coefficients, W and Re are not asserted and the drag-off option is not combined with load checks",
 [CC, BEM], [("__loads", CC), ("relativeWind", BEM)], ["CCBlade.distributedAeroLoads outputs"])
prop("C04", "Section inflow follows shear, yaw, tilt, azimuth, cone and rotation kinematics",
 "The axial and tangential wind each section sees is the sheared hub-height wind (power law at the section's true height) rotated through yaw, tilt, azimuth and the local cone angle given by precone plus precurve slope, plus the velocity due to rotation at the section's position including precurve and presweep. It is the same velocity obtained by carrying the wind vector and the rotation cross position vector through the package's own coordinate-system transformations.",
 ["inputs","configurations"], "all precone, tilt, yaw, azimuth, precurve, presweep, hub heights above the lowest blade point, shear exponents, wind and rotor speeds",
 "one tilted configuration is sampled; yaw, presweep and precurve combinations, and the relation between the two independent implementations, are unchecked",
 [BEM, CS, CC], [("windComponents, defineCurvature", BEM), ("DirectionVector chains", CS)], ["distributedAeroLoads W, alpha (parked and rotating)"])
prop("C05", "Rotor forces and moments are the integral of the section loads",
 "Thrust, side force, vertical force, torque, rotor y- and z-moments are the number of blades times the mean over equally spaced azimuth sectors of the path-length (including precurve and presweep) trapezoidal integral of the section loads resolved through the local cone angle, with loads going to zero at hub and tip; the blade root flap moment is the same average for one blade. Side/vertical forces and y/z moments are resolved from blade to rotor axes by the azimuth angle.",
 ["inputs","configurations"], "every rotor, number of blades, sector count and operating condition, including batches of conditions",
 "tests compare only thrust, torque and power of a reference rotor; side force, vertical force and moments are pinned on one case or not at all",
 [CC, BEM], [("evaluate azimuth loop", CC), ("thrustTorque", BEM)], ["CCBlade.evaluate outputs T,Y,Z,Q,My,Mz,Mb"])
prop("C06", "Power and coefficients are consistent with torque, speed and rotor size",
 "Power equals torque times rotor speed in rad/s for every condition, and each coefficient is its dimensional quantity divided by dynamic pressure times rotor area (times rotor radius for torque and moments, times wind speed for power), with the radius projected for precone and tip precurve. Requesting coefficients never changes the dimensional outputs, and every element of a batch uses its own wind speed.",
 ["inputs","configurations"], "all batches of operating conditions, precone, precurve at the tip, density",
 "coefficients are asserted for one condition with no tip precurve and cone combination",
 [CC], [("evaluate normalisation; rotorR", CC)], ["CCBlade.evaluate(coefficients=True)"])
prop("C07", "Azimuthal sectors: one if axisymmetric inflow, otherwise at least four",
 "When tilt, yaw and shear are all zero the rotor is evaluated at a single azimuth and the result is the same as with any number of sectors; in every other case at least four equally spaced sectors starting at zero azimuth are used, and the requested number when it is larger. In axisymmetric inflow the section loads do not depend on the azimuth angle and the side and vertical forces and the y- and z-moments, being means over a revolution, vanish.",
 ["inputs","configurations"], "all combinations of tilt/yaw/shear zero or not and requested sector counts",
 "tests use one sector count; the boundary (exactly one of the three being non-zero, requests below four) is not explored",
 [CC], [("nSector selection", CC), ("azimuth_angles", CC)], ["number and azimuths of airfoil/section evaluations, CCBlade.evaluate"])
prop("C08", "Analyses are pure: no call changes a later or another result",
 "Every analysis depends only on how the rotor was constructed and the arguments of that call: repeating or reordering calls, evaluating conditions in a batch or one by one, or using several rotor objects that share airfoils and input arrays gives the same results. Analyses never modify the arrays the user passed in, and outputs of one call are not changed by later calls.",
 ["histories","inputs"], "all interleavings of section and rotor analyses with different pitch, speed, azimuth on one or more rotor objects",
 "unit tests build a fresh object per test and make one call each; no history is explored",
 [CC], [("self.pitch and per-call buffers", CC)], ["CCBlade.distributedAeroLoads, evaluate"], [("pitch", "last used pitch", CC)])
prop("C09", "Section-load Jacobians equal the true derivatives of the section loads",
 "With derivatives enabled, every returned entry of the Jacobians of normal and tangential section load, with respect to radial position, chord, twist, hub and tip radius, precurve, presweep, precone, tilt, hub height, yaw, shear, azimuth, wind speed, rotor speed and pitch, in the documented units and shapes, equals the derivative of the loads returned for perturbed inputs, off-diagonal entries included. They are finite wherever the loads are smooth.",
 ["inputs","configurations"], "every parameter, every pair of stations, curved and swept blades, yaw/tilt/shear, each switch combination, rotating or parked",
 "gradient tests check one rotor at one or few conditions, most with uncurved blades where neighbour coupling vanishes, and with loose tolerances",
 [CC, BEM], [("__residualDerivatives, __loads, implicit differentiation", CC), ("*_dv routines", BEM)], ["distributedAeroLoads derivs"])
prop("C10", "Rotor-level Jacobians equal the true derivatives of rotor outputs",
 "With derivatives enabled, every returned Jacobian entry of power, thrust, side force, vertical force, torque, moments and blade root moment, and of each corresponding coefficient, equals the derivative of that output with respect to the named input in its documented unit and shape, for every condition of a batch; each condition depends only on its own wind speed, rotor speed and pitch. Jacobian entries are finite, also where an output itself is zero.",
 ["inputs","configurations"], "all outputs, inputs, curved/swept/coned rotors, batches, coefficients on or off",
 "finite-difference tests cover P, T, Q of a straight or one precurved blade; Y, Z, My, Mz, Mb and zero-valued outputs are largely unchecked",
 [CC, BEM], [("__thrustTorqueDeriv, dictionary packing, coefficient chain rule", CC), ("thrustTorque_bv", BEM)], ["evaluate derivs"])
prop("C11", "Asking for derivatives never changes results, and unsupported cases are refused",
 "Enabling derivatives leaves every returned load, force, moment, power and coefficient exactly as without it, and with derivatives disabled no Jacobians are returned. A configuration whose derivatives are not implemented (more than one Reynolds-number iteration) is refused with an error instead of returning Jacobians of a different model.",
 ["configurations","inputs"], "all model switch and Reynolds-iteration configurations, parked and rotating, section and rotor analyses",
 "no test compares the two modes or asks for derivatives with more than one Reynolds iteration",
 [CC], [("derivatives flag; iterRe guard", CC)], ["distributedAeroLoads, evaluate return values"])
prop("C12", "A parked rotor is loaded by the undisturbed wind",
 "At zero rotor speed no induction is applied: the inflow angle is 90 degrees, induction factors are zero, and section loads follow from the airfoil at an angle of attack of 90 degrees minus twist and pitch with the undisturbed wind at the section. Power is zero while thrust and moments are integrated as usual, and loads are the same limit whether or not the wind has a tangential component.",
 ["inputs","configurations"], "all parked pitch and azimuth angles, tilt/yaw including exactly zero, shear, precone, curvature",
 "the parked case is tested for one tilted rotor only; exactly aligned inflow is never parked",
 [CC], [("non-rotating branch", CC)], ["distributedAeroLoads(Omega=0), evaluate(Omega=0)"])
prop("C13", "Inverse design returns the twist that realises the requested airfoil point",
 "In inverse mode with requested angle of attack, lift and drag at each station, the returned induction satisfies the momentum equations for the requested coefficients and the computed twist equals flow angle minus requested angle of attack minus pitch. A direct analysis with that twist, whose airfoils give the requested coefficients at that angle of attack, reproduces the same angle of attack, loads and induction.",
 ["inputs","histories"], "all requested operating points with a solution in the standard region, pitch settings, followed by a direct analysis",
 "one stored inverse case is compared; the round trip is not",
 [CC], [("inverse_analysis branches", CC)], ["CCBlade.inverse_analysis, alpha/cl/cd, theta after distributedAeroLoads"])
prop("C14", "Airfoil tables are interpolated smoothly within the documented smoothing",
 "An airfoil built from tables of lift, drag and optionally moment returns at every tabulated point a value whose total squared deviation from the table is at most the small documented smoothing, continuous and with continuous first derivative between points, for any number of at least two angles and any number of Reynolds numbers. With a single Reynolds number the result does not depend on Reynolds number. Returned angle and Reynolds derivatives are the derivatives of the returned lift and drag; fewer than two angles is refused, and moments are returned exactly when asked for and supplied.",
 ["inputs","configurations"], "all table sizes (2, 3, 4, more angles; 0, 1, 2, 3, many Reynolds numbers), with and without moment data, angles within table",
 "one NREL airfoil file is interpolated at a few points",
 [CC], [("CCAirfoil spline construction", CC), ("derivatives", CC)], ["CCAirfoil.evaluate, derivatives"])
prop("C15", "Airfoil design points are optimal over the searched range",
 "The maximum-efficiency point of an airfoil is a point of the -20 to +40 degree search grid at which no other grid point has a higher lift-to-drag ratio at that Reynolds number, and the stall-margin point lies exactly the requested margin below the grid angle of maximum lift; lift, drag and efficiency returned with them are the airfoil's own values there. Airfoils without data resolving that range (cylinders: one tabulated angle nearest to both ends) report zero angle of attack.",
 ["inputs"], "all airfoil tables, Reynolds numbers and margins", "neither operation is tested on more than one polar",
 [CC], [("max_eff, awayfromstall", CC)], ["CCAirfoil.max_eff, awayfromstall"])
prop("C16", "Blending polars and airfoils interpolates linearly on the common range",
 "Blending two polars with weight w gives on the union of their angles restricted to the common range (1-w) times the first plus w times the second for lift, drag and moment and for Reynolds number, so weights 0 and 1 reproduce the originals there. An airfoil blend has one polar for each Reynolds number of either airfoil, the blend of the polars that both airfoils return for it. Inputs are not modified.",
 ["inputs"], "all pairs of polars with overlapping ranges, weights in [0,1], differing grids and differing numbers of Reynolds numbers",
 "one weight of one pair of polars is tested", [AF], [("Polar.blend, Airfoil.blend", AF)], ["Polar/Airfoil public attributes"])
prop("C17", "Airfoil polars are ordered, selected and gridded by Reynolds number",
 "An airfoil keeps its polars in ascending Reynolds order whatever the order given; requesting a polar below or above the range returns the nearest, at a tabulated value that polar, and in between the linear blend of the two neighbours. Gridding and common-angle interpolation place every polar on the union (or given set) of angles with each polar's own interpolated values in the column of its Reynolds number. Returned airfoils do not share modifications with the original, and a polar keeps its own copy of the arrays it was built from.",
 ["inputs","histories"], "all sets of polars, orderings, Reynolds requests at, between and outside tabulated values",
 "single-polar files dominate the tests", [AF], [("Airfoil.__init__, getPolar, interpToCommonAlpha, createDataGrid", AF)], ["Airfoil public methods"])
prop("C18", "3-D stall correction applies the Du-Selig formulas",
 "The rotational correction moves lift towards the line fitted over the linear range by the Du-Selig factor of radius ratio, chord ratio and tip-speed ratio, in full up to the given maximum angle and fading quadratically to none at 90 degrees, and changes drag in proportion to its excess over the zero-angle drag by the corresponding drag factor. Angles, moments and Reynolds number are kept, an airfoil is corrected polar by polar, and the originals are not modified.",
 ["inputs"], "all polars with a linear range, radius ratios, chord ratios, tip-speed ratios and parameter settings",
 "one polar and one parameter set is compared with stored output", [AF], [("Polar.correction3D", AF)], ["Polar.correction3D result"])
prop("C19", "Extrapolation to +/-180 degrees is complete, ordered and keeps the data",
 "Extrapolated polars cover exactly -180 to 180 degrees with strictly increasing angles, contain the original data unchanged at the original angles, follow the Viterna model from the matching points with reflected branches scaled by the adjustment coefficient, with moments from the documented moment model at every ten degrees (zero throughout when none were given; the data hold the zero-lift angle), and never have drag below the stated minimum in the extrapolated part. Lift, drag and moment are finite with lift zero at +/-180 degrees.",
 ["inputs"], "all polars including asymmetric ranges and angle grids that coincide with the fill-in grid, maximum drag given or from aspect ratio, minimum drag",
 "one polar with one symmetric-enough range is compared with stored values", [AF], [("Polar.extrapolate, __Viterna, __CMCoeff", AF)], ["Polar.extrapolate result"])
prop("C20", "AeroDyn airfoil files round-trip",
 "An airfoil written to an AeroDyn-format file and read back by the package has the same Reynolds numbers and the same angles, lift, drag and moment up to the printed precision, for any number of Reynolds tables. Reading a well-formed file yields every table it contains and leaves the file unchanged; a file that ends early or lacks columns is refused.",
 ["inputs","histories"], "all airfoils with at least one polar, with or without moment data",
 "writing is never tested", [AF], [("Airfoil.writeToAerodynFile, initFromAerodynFile", AF)], ["file on disk, Airfoil contents"])
prop("C21", "Unsteady aerodynamic parameters follow from the polar",
 "The unsteady parameters of a polar are consistent with it: normal-force slope and zero-normal-force angle (deg) are those of the least-squares line over the linear range, the stall angles are where the polar departs from that line by the stall threshold and stall normal forces are the line there, and the minimum drag and its angle (deg) are those of the polar. The table-level unsteady analysis reports the zero-lift angle, drag and moment of the polar it was given and returns the polar itself unchanged; its normal forces, slope and separation angle are read at the moment and drag breakpoints nearest stall, and are zero without moment data.",
 ["inputs"], "all polars with a monotonic linear range", "two stored cases of one polar", [AF, CC], [("Polar.unsteadyparam", AF), ("CCAirfoil.eval_unsteady", CC)], ["returned tuple / unsteady dict"])
prop("C22", "Coordinate transformations are rotations and mutual inverses",
 "Each transformation between inertial, wind, yaw, hub, azimuth, blade, airfoil and profile coordinates is the documented rotation (or axis reversal), and going forth and back returns the original vector for all angles. Rotations preserve lengths, dot products and (for rotations) handedness, and composed chains equal the composition of the documented rotations; scalars and arrays behave alike.",
 ["inputs","histories"], "all vectors, all angles, all chains of transformations", "transformations are only exercised through one or two sampled vectors",
 [CS], [("DirectionVector.*To*", CS)], ["DirectionVector public methods"])
prop("C23", "Vector arithmetic and propagated vector derivatives are exact",
 "Sums, differences, products, quotients, negation and cross products of direction vectors are component-wise or vector algebra as documented; only in-place forms change a vector, and then only that vector, whatever vectors it was derived from. Derivative information carried through transformations and cross products equals the derivative of the resulting components with respect to the original components and each rotation angle.",
 ["inputs","histories"], "all chains of up to several operations with distinct angle names", "chains of derivatives are not covered by the tests",
 [CS], [("DirectionVector operators, derivative dictionaries", CS)], ["DirectionVector.x,y,z,dx,dy,dz"])
prop("C24", "Geometry and section-load components agree with the rotor analysis",
 "The geometry component reports hub-height radius and diameter consistent with tip radius, precone and tip precurve; the section-load component returns, for its inputs, exactly the section loads of the rotor analysis with the same inputs, its Jacobians with respect to geometry, attitude and operating condition (those it computes: not density, viscosity or airfoil tables) equal the derivatives of its outputs; loss, wake and drag switches left alone are on; repeated runs with changed inputs never reuse stale results.",
 ["inputs","histories"], "all sequences of set-inputs, run and differentiate on the components, all parameter values", "one run per component with one stored data set",
 [CO], [("CCBladeGeometry, CCBladeLoads", CO)], ["OpenMDAO outputs and partials"])
prop("C25", "The rotor-evaluation component agrees with the rotor analysis",
 "The rotor evaluation component returns, for every operating condition, the power, forces, moments and coefficients of the rotor analysis for the same rotor, each in the unit of its quantity, and its Jacobians with respect to geometry, attitude and operating condition (those it computes: not density, viscosity or airfoil tables) equal the derivatives of those outputs. Repeated runs with changed inputs never reuse stale results.",
 ["inputs","histories"], "all sequences of set-inputs, run and differentiate, all parameter values", "one run with one stored data set",
 [CO], [("CCBladeEvaluate", CO)], ["OpenMDAO outputs and partials"])
prop("C26", "The blade-twist component realises the requested airfoil schedule",
 "The twist component computes the inverse-design twist for the requested angle of attack along the blade at the airfoils' own coefficients, capped at 20 degrees toward the root, or takes the given twist when not in inverse mode. It reports the loads, lift and drag forces, induction, angles, power and coefficients of exactly the rotor with that twist, each in the unit of its quantity, and repeated runs never reuse stale results.",
 ["inputs","histories"], "all requested schedules, tip-speed ratios and repeated runs", "one stored case",
 [CO], [("CCBladeTwist", CO)], ["OpenMDAO outputs"])
prop("C27", "Flap-coordinate runs are isolated, repeatable and clean up after themselves",
 "Computing flapped coordinates writes only its own working files, hands the external panel code a script with the requested airfoil, hinge, deflection and node count, returns exactly the coordinates that run produced (never leftovers of an earlier run), and removes its temporary files. With multi-run naming, any interleaving of concurrent processes on different airfoils gives each process its own result.",
 ["schedules","histories"], "all interleavings of two concurrent runs, pre-existing stale files of the same names, repeated runs", "needs an external program; not tested at all",
 [CC], [("af_flap_coords file naming and cleanup", CC)], ["working directory before/after, script seen by the external program"], [("working files", "per-run temporary files", CC)])
prop("C28", "The command-line preprocessor performs the requested operation on the file",
 "Each command of the airfoil preprocessor command line (3-D correction, extrapolation, blending) reads the given AeroDyn files, applies the same operation as the library with the given options and writes a readable file with that result to the requested or default name, leaving inputs unchanged; the common-angle option puts all tables on one set of angles, and the plot option shows the original and resulting curves of every polar without changing what is written.",
 ["inputs","configurations"], "all commands, options and output-name choices", "the command line is not tested", [AF], [("main block", AF)], ["output files"])
prop("C29", "Stations at the hub or tip radius are nudged inward, everything else is kept",
 "A first station exactly at the hub radius or a last station exactly at the tip radius is analysed slightly inside (by at most one percent of the blade span, never past its neighbour) so that loss factors stay finite, as are the tip values of precurve and presweep when they equal the end values; every other station and the user's arrays are unchanged. Station grids strictly inside hub and tip are analysed as given, and results are finite wherever the section has a solution.",
 ["inputs","configurations"], "grids touching hub, tip, both or neither, non-uniform spacing, with and without curvature and sweep", "tests use grids that either always or never touch",
 [CC], [("Enforce unique points at tip and hub", CC)], ["CCBlade.r, precurve, presweep, results"])
prop("C30", "Results scale by dynamic similarity",
 "Scaling density leaves all coefficients and induction unchanged when viscosity scales with it, while loads scale linearly; scaling all lengths with rotor speed inversely and viscosity accordingly, or scaling wind and rotor speed together with viscosity, leaves induction, angles and coefficients unchanged and scales loads, forces, moments and power by the corresponding powers.",
 ["inputs","histories"], "all rotors, operating points and scale factors", "no test compares two related analyses",
 [CC, BEM], [("whole analysis chain", CC)], ["evaluate and distributedAeroLoads of two related rotors"])
prop("C31", "Plots show exactly the polar data",
 "Plotting a polar opens one figure each for lift, drag and moment over angle of attack, holding exactly that polar's points. Plotting an airfoil opens, by default, one figure per coefficient with one curve per Reynolds number in ascending order, and otherwise these three figures for every polar in turn. The figures opened are returned in that order, figures that were already open are not drawn on, the polars are unchanged, axes name their quantity and each curve its Reynolds number in millions.",
 ["inputs","histories"], "all airfoils and all sequences of plots, with other figures open", "plotting is not tested",
 [AF], [("Polar.plot, Airfoil.plot", AF)], ["figures and curves drawn through matplotlib.pyplot"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
