"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "one or a few sample points"
# id, title, statement, quantifier text, files, mechanism [(name, where)], why, technique
P = [
("C01", "Moduli, velocities and stiffness matrices convert consistently",
 "Converting bulk modulus, shear modulus and density to P and S velocities, Poisson's ratio and Lame parameters, and velocities back to moduli, gives the values isotropic elasticity defines, and converting there and back returns the start. The isotropic, VTI, HTI and orthorhombic stiffness and compliance builders return symmetric 6x6 matrices with every entry in its Voigt place and the dependent entries that the symmetry dictates. Crack porosity and the five-velocity VTI inversion return what crack density with aspect ratio, and the phase velocities at 0, 45 and 90 degrees, imply.",
 "all admissible moduli, densities, velocities and stiffness constants, as scalars or arrays",
 ["rockphypy/utils.py"], [("conversions", "utils.V, poi, lame, M_from_V"), ("matrix builders", "utils.write_*"), ("VTI inversion", "utils.v_to_c_VTI, crack_por")],
 "tests check one rock per function; a slip in one matrix entry or branch shows only for other symmetry classes", "reference model, round trips, Christoffel inversion"),
("C02", "Rotating a stiffness matrix is the tensor rotation about the axis",
 "Rotating any symmetric 6x6 stiffness about axis 1 or axis 3 by any angle gives the Voigt form of the fourth-order tensor rotated by that angle. Consequently the result is symmetric, zero and full turns change nothing, rotations about an axis add up, and an isotropic medium is unchanged.",
 "all symmetric stiffnesses, axes and angles", ["rockphypy/Anisotropy.py"], [("Bond transformation", "Anisotropy.Bond_trans")],
 "tests rotate one matrix by one angle; sign and factor errors cancel for special angles and media", "differential against full-tensor rotation, group laws"),
("C03", "Anisotropic velocities and parameters follow the Christoffel equation",
 "The three velocities returned for propagation at any angle in VTI and HTI media are the Christoffel phase velocities of that direction with the modes in the documented order. The weak-anisotropy VTI velocities and parameters are Thomsen's and the orthorhombic ones are Tsvankin's definitions; for a VTI medium the orthorhombic parameters reduce to the VTI ones.",
 "all stable TI/orthorhombic stiffnesses, densities and angles, scalar or array", ["rockphypy/Anisotropy.py"],
 [("phase velocities", "Anisotropy.vel_azi_HTI, vel_azi_VTI"), ("parameters", "Anisotropy.Thomsen, Thomsen_Tsvankin")],
 "tests use a single medium and few angles", "reference model, Christoffel eigenvalues, reduction to special symmetry"),
("C04", "Layer averaging gives the long-wavelength effective medium",
 "The effective constants of a stack of isotropic layers equal Backus' volume averages, whatever the number of layers: they do not depend on the order of the layers, nor on splitting a layer into thinner ones, and identical layers give the layer itself. Averaging logs weights each sample by its depth interval and also returns the thickness-weighted mean density.",
 "all stacks of any number of layers with any admissible moduli and thickness fractions", ["rockphypy/Anisotropy.py"], [("Backus average", "Anisotropy.Backus, Backus_log")],
 "tests use one two-layer stack", "reference model, metamorphic (permute, split, repeat layers)"),
("C05", "Mixing bounds hold and are attained",
 "Voigt, Reuss and Hill averages, the Hashin-Shtrikman bounds, the modified Voigt and Reuss critical-porosity averages and the Mori-Tanaka average give the textbook values for any fractions. Lower bounds never exceed upper bounds, Hashin-Shtrikman lies between Reuss and Voigt, end-member fractions return the end member, equal phases return that phase, and exchanging the phases together with the fraction changes nothing.",
 "all fractions in [0,1] and phase moduli including fluid phases, scalar or array", ["rockphypy/EM.py"],
 [("bounds and averages", "EM.VRH, HS, cripor, cripor_reuss, MT_average")], "tests use one composition", "reference model, ordering and limit invariants"),
("C06", "Ellipsoidal-inclusion models agree with Eshelby's solution",
 "The strain-concentration factors for a spheroidal inclusion of any aspect ratio are those of Eshelby's solution (oblate, spherical and prolate), for one inclusion or a list. Self-consistent moduli of a composite satisfy the self-consistency equations, and differential-effective-medium moduli start at the host, follow the differential equation in the inclusion fraction, stay between the phases and are unchanged when the inclusion equals the host.",
 "all host and inclusion moduli, aspect ratios, numbers of phases and fractions", ["rockphypy/EM.py"],
 [("shape factors", "EM.PQ, PQ_vectorize"), ("self-consistent", "EM.Berryman_sc"), ("DEM", "EM.Berryman_DEM")], "tests use single compositions with one aspect ratio", "differential against numerical Eshelby tensor, residual and ODE oracle"),
("C07", "Porous and cracked solids soften as the dilute and SC theories say",
 "Dilute and self-consistent moduli of solids with spherical pores, dry cracks or fluid-filled cracks equal the published equations, and iterated schemes return the state that the stated number of iterations or the self-consistency equation defines. Zero porosity, zero crack density or an inclusion equal to the host return the host, cracks and pores only soften it, and at small concentrations the theories agree with each other.",
 "all host moduli, porosities, crack densities, aspect ratios, fluids and iteration counts", ["rockphypy/EM.py"],
 [("dilute and SC models", "EM.Swiss_cheese, SC, Dilute_crack, OConnell_Budiansky, OConnell_Budiansky_fl, SC_dilute, SC_flex")], "tests use one rock and one porosity or crack density", "reference model, fixed-point residuals, limits"),
("C08", "Crack-induced anisotropy follows Hudson's and Eshelby-Cheng's theories",
 "Stiffnesses for aligned cracks (first and second order, normals along axis 1 or axis 3), three orthogonal sets, cone-distributed and randomly oriented cracks equal Hudson's theory for every fill from dry to solid; those for aligned ellipsoidal cracks equal Cheng's. Without cracks the result is the isotropic host, the axis only relabels the matrix, and each set's symmetry is respected.",
 "all host moduli, fills, aspect ratios, crack densities, cone angles, axes and orders", ["rockphypy/EM.py"],
 [("Hudson", "EM.hudson, hudson_ortho, hudson_cone, hudson_rand"), ("Cheng", "EM.Eshelby_Cheng")], "tests compare one matrix each", "reference model from tensor form, axis relabelling, limits"),
("C09", "Isotropic fluid substitution obeys Gassmann",
 "Saturating a dry rock, substituting one fluid for another in moduli or in velocities and densities, and the approximate P-modulus form all follow Gassmann's relations, with the shear modulus untouched and density changed only by the pore fluid. Substituting there and back, substituting a fluid for itself and going through an intermediate fluid are consistent, and the Brie mix runs from gas to water with saturation.",
 "all dry rocks, minerals, fluids, porosities and saturations, scalar or array", ["rockphypy/Fluid.py"],
 [("Gassmann", "Fluid.Gassmann, Gassmann_sub, Gassmann_approx, Gassmann_vels, vels"), ("fluid mix", "Fluid.Brie")], "tests use one sandstone", "reference model, round trip and composition laws"),
("C10", "Anisotropic fluid substitution obeys Brown and Korringa",
 "Saturating an anisotropic dry compliance, drying a saturated one and substituting fluids in a stiffness follow the Brown-Korringa relations for every symmetric matrix. Saturating and drying are inverse to each other, substitution equals drying then saturating, shear entries do not change for orthorhombic media, and isotropic rocks reduce to Gassmann.",
 "all symmetric positive definite matrices, minerals, fluids and porosities", ["rockphypy/Fluid.py"], [("Brown-Korringa", "Fluid.Brown_Korringa_dry2sat, _sat2dry, _sub")],
 "tests check one VTI matrix", "reference model on full tensors, round trips, isotropic reduction"),
("C11", "Poroelastic dispersion and attenuation follow Biot",
 "Fast and slow P velocities, S velocity and inverse quality factors equal Biot's theory at every frequency, and the high-frequency limits and Geertsma-Smit approximations equal their published forms. The low-frequency limit is Gassmann, the high-frequency limit is the closed form, the fast wave is never slower than the slow one, and results stay finite for scalar and array frequencies.",
 "all rocks, fluids, permeabilities and frequencies", ["rockphypy/Fluid.py"], [("Biot", "Fluid.Biot, Biot_HF, Geertsma_Smit_HF, Geertsma_Smit_LF")], "tests use one rock", "reference model with Bessel/Kelvin functions, limit relations"),
("C12", "Squirt and patchy-saturation dispersion follow their theories",
 "High-frequency unrelaxed moduli and velocities from dry and high-pressure velocities follow Mavko-Jizba, and the anisotropic squirt compliances follow Mukerji-Mavko, reducing to the isotropic result. The patchy-saturation velocity and attenuation follow White-Dutta-Ode at every frequency, tend to Gassmann with mixed fluid at low frequency and stay finite at high frequency.",
 "all rocks, fluids, gas saturations, patch sizes and frequencies", ["rockphypy/Fluid.py"], [("squirt and patchy", "Fluid.Mavko_Jizba, Squirt_anisotropic, White_Dutta_Ode")], "tests use one rock", "reference model, limits"),
("C13", "Gas, oil and CO2 properties follow Batzle and Wang",
 "Pseudo-critical variables, the compressibility derivative, and density and bulk modulus of hydrocarbon gas, CO2, dead oil and gas-saturated oil equal the published Batzle-Wang and modified correlations at every pressure, temperature, gravity and gas-oil ratio. The omitted gas-oil ratio means maximum solution gas, and the derivative, gravity and pressure dependence are consistent across the functions.",
 "all pressures, temperatures, gravities and gas-oil ratios in range, scalar or array", ["rockphypy/BW.py"], [("correlations", "BW.dz_dp, pseudo_p_t, rho_K_gas, rho_K_co2, rho_K_oil, rho_K_go")], "tests use one state point", "reference model, derivative check"),
("C14", "Water, brine and CO2-brine properties follow Batzle and Wang",
 "Density, velocity and bulk modulus of pure water and brine equal the published polynomials at every temperature, pressure and salinity, with zero salinity returning water. CO2-brine mixtures use linear density mixing and Reuss or Brie modulus mixing of the two fluids, and a warning is issued exactly when some pressure exceeds the calibrated 100 MPa.",
 "all temperatures, pressures, salinities and CO2 saturations in range, scalar or array", ["rockphypy/BW.py"], [("correlations", "BW.v_water, rho_K_water, v_brine, rho_K_brine, co2_brine")], "tests use one state point and do not cover the mixture", "reference model, limits, warning oracle"),
("C15", "Grain-pack moduli follow contact theory",
 "Dry moduli of random sphere packs under pressure equal Hertz-Mindlin, Walton and Digby, including partial slip, bonded contacts and arrays of stresses, and the stiffnesses and stresses of a uniaxially compacted pack equal the Norris-Johnson theory on each loading path. Moduli grow with stress with the power one third where the theory has it, and slip changes only the shear modulus.",
 "all grain moduli, porosities, coordination numbers, stresses and slip fractions", ["rockphypy/GM.py"], [("contact models", "GM.hertzmindlin, Walton, Digby, johnson")], "tests use one pack", "reference model, scaling laws"),
("C16", "Sand and shale models interpolate their end members",
 "Contact-cement, soft-, stiff- and constant-cement sand, modified upper bound, silty shale, shaly sand and sand-shale mixing equal their published equations for either cementation scheme. At critical, well-sorted or zero porosity and at zero or full clay content each model returns the end member it interpolates from and soft sand is never stiffer than stiff sand.",
 "all mineral moduli, porosities, coordination numbers, stresses, clay contents and cementation schemes", ["rockphypy/GM.py"],
 [("sand models", "GM.contactcement, softsand, stiffsand, constantcement, MUHS"), ("shaly models", "GM.silty_shale, shaly_sand, ThomasStieber")], "tests use one sand; several models have no test", "reference model, end-member and ordering invariants"),
("C17", "Patchy cementation mixes cemented and loose rock as the model says",
 "Patchy-cement moduli with stiff or soft mixing equal the Hashin-Shtrikman mixing of cemented and uncemented packs at every porosity and cement fraction, and the varying version moves linearly from the stiff to the soft mixture with the diluting parameter. That parameter falls with stress from its full value to zero at the reference stress with the given curvature.",
 "all cement and connectivity fractions, stresses, porosities, minerals, modes and schemes", ["rockphypy/GM.py"], [("patchy cement", "GM.pcm, vpcm, diluting")], "tests check one case of one mode; two functions have no test", "reference model, end-member invariants"),
("C18", "Isotropic reflectivity and elastic impedance obey plane-wave theory",
 "P reflectivity from the exact equations, the Aki-Richards approximation with its intercept and gradient, the AVO attributes and the elastic impedance equal their definitions at every angle and contrast. No contrast reflects nothing, normal incidence gives the impedance contrast, exact and approximate forms agree for weak contrasts, and impedance works for scalars, logs and many angles with or without normalisation.",
 "all two-layer models and logs, angles and options", ["rockphypy/AVO.py"], [("AVO", "AVO.zoeppritz, Aki_Richards, AVO_abe, EI_ref")], "tests use one interface and partly assert nothing", "reference model, Zoeppritz linear system, limits"),
("C19", "Azimuthal reflectivity of HTI and orthorhombic interfaces is consistent",
 "P reflectivity between HTI half-spaces equals the weak-contrast Ruger/Chen formula in the media's own Thomsen parameters at every angle and azimuth, and the orthorhombic form equals Tsvankin's in both symmetry planes. It is even and 180-degree periodic in azimuth, azimuth-free for isotropic media, and equals the isotropic approximation there.",
 "all stiffness pairs, densities, angles and azimuths", ["rockphypy/AVO.py"], [("AVOZ", "AVO.AVO_HTI, AVO_ortho")], "tests use one interface and do not assert values", "reference model, symmetry and reduction relations"),
("C20", "Empirical trends equal their published relations for every depth",
 "Velocity, porosity and compaction trends (Krief, Greenberg-Castagna, Han, Ehrenberg, Ramm, Yu, Scherbaum, Sclater, Storvoll, Hillis, Japsen, Hjelstuen, St. Peter sandstone, coordination number) return the published value for every input. Piecewise trends use the right segment on either side of each break and keep the order and number of the inputs, scalar or array, sorted or not.",
 "all depths, porosities, velocities, clay contents, pressures and samples", ["rockphypy/Emp.py"], [("trends", "Empirical.*")], "tests touch one or two depths per trend", "reference model"),
("C21", "Permeability models equal their published relations",
 "Kozeny-Carman with and without percolation threshold, Owolabi, log-based Tixier/Timur/Coates variants, Panda-Lake, Revil, Fredrich, Bloch and Bernabe permeabilities equal their published formulas in the stated units. Permeability scales with grain size squared where the theory has it, vanishes at the percolation threshold, and related models reduce to each other.",
 "all porosities, grain sizes, saturations, sorting and crack parameters, scalar or array", ["rockphypy/Perm.py"], [("permeability", "Permeability.*")], "tests use one porosity", "reference model, scaling relations"),
("C22", "Quantitative-interpretation curves combine the rock models correctly",
 "Matrix modulus and density of shale, grain and cement fractions and the screening and constant-cement velocity curves equal the composition of the mineral mixing, dry-rock, Gassmann and density steps they are defined by. The curves share one porosity axis, are blank exactly outside the porosities where their model applies, and end at the mineral, for either cementation scheme.",
 "all minerals, brines, shale volumes, porosities, stresses and schemes", ["rockphypy/QI.py"], [("curves", "QI.matrix_modulus, den_matrix, screening, cst_vels, cal_v_const")], "there are no tests of this module", "reference model composed independently, curve invariants"),
("C23", "Cement estimates and diagnostic plots show the data they are given",
 "The cement volume estimated for each log sample is the one whose constant-cement line brackets it, interpolated between the lines in velocity, zero below the first line, capped at the last, independent of the other samples, and exact for rocks lying on a line. Screening, cement-diagnosis, density and rock-physics-template plots draw exactly the given samples and model curves, coloured by the given attribute.",
 "all logs, cement seeds and model parameters", ["rockphypy/QI.py"], [("estimate", "QI.estimate_cem"), ("plots", "QI.screening_plot, cst_plot, cement_diag_plot, kde_plot, normalize, plot_rpt")], "there are no tests of this module", "model-based synthesis and inversion, inspection of drawn data"),
("C24", "Array results equal element-by-element scalar results",
 "Wherever a function accepts arrays, element i of the result is what the function returns for element i of the arguments alone, in the arguments' shape, for lists of numbers in any order and for any mix of arrays and scalars. Reordering, splitting, reshaping or repeating the elements therefore reorders, splits, reshapes or repeats the result and nothing else.",
 "all array-accepting functions, array lengths, layouts (strided, read-only, 2-D, integer, pandas, broadcast) and element values", ["rockphypy/*.py"], [("vectorised functions of all modules", "rockphypy/*.py")], "tests mostly pass scalars or compare one fixed array", "metamorphic: scalar-versus-array, permutation, split"),
("C25", "Calls are pure: no argument, shared state or history effects",
 "No function changes the arguments it is given, or process-wide state (the random generator, floating-point error handling, warning filters, print and plotting defaults). The same call gives the same result whatever was called before it, whatever the caller did to earlier results, and in a fresh process.",
 "all functions and all call histories", ["rockphypy/*.py"], [("no module state; copies before writes", "rockphypy/*.py")], "tests call each function once, in isolation, and never look at the arguments afterwards", "stateful histories replayed in other orders and in fresh processes"),
("C26", "Physics does not depend on the system of units",
 "Every formula that is not calibrated in fixed units gives the same physics in any consistent set of units: when moduli and stresses, densities, lengths, velocities, times, viscosities and permeabilities are all converted, the results are converted the same way and dimensionless results are unchanged. So GPa, MPa, Pa or psi, and g/cm3 or kg/m3, can be used interchangeably.",
 "all functions that are not unit-bound correlations, all admissible inputs and unit conversions", ["rockphypy/*.py"], [("elastic, fluid-substitution, grain, reflectivity and permeability formulas", "rockphypy/*.py")], "tests use one set of units per function; an absolute threshold or tolerance, or a wrong power of one quantity, shows only in another", "metamorphic: dimensional scaling of all inputs"),
("C27", "Models that share a limit agree in it",
 "Anisotropic models without their cause (identical layers, no cracks, zero Thomsen parameters) give the isotropic results, and at small concentration every theory of spherical pores, of spheroidal inclusions and of cracks (dilute, self-consistent, differential, Mori-Tanaka, Hashin-Shtrikman, Hudson, Eshelby-Cheng, O'Connell-Budiansky) has the same initial slope. Suspensions, the Hashin-Shtrikman bound and dilute pores obey Gassmann's relation when filled; the Biot, Geertsma-Smit, White and Mavko-Jizba models reduce to Gassmann and to each other in their limits; and fluid mixing laws reduce to the Reuss and Voigt averages and to the single fluids (brine without salt is water). Grain-pack, cement and sand models and the curves drawn from them meet at their common end members, exact and linearised reflectivities agree for weak contrasts and at normal incidence, and permeability models coincide where their assumptions do.",
 "all pairs of models with a common limit, all admissible inputs in that limit", ["rockphypy/*.py"], [("effective-medium, crack, fluid-substitution, granular, reflectivity and permeability models", "rockphypy/*.py")], "tests never compare one model with another; a shared limit must be met for every material and direction, by every implementation", "differential: independent models of the same code against each other in common limits"),
("C28", "Results stay within rigorous bounds and respond in the physical direction",
 "Effective moduli of mixtures lie between the Reuss, Hashin-Shtrikman(-Walpole) and Voigt bounds; layered and cracked media are positive definite, between the tensor bounds of their constituents, and never stiffer with more pores or cracks or with a softer fill. Saturated moduli lie between the dry frame and the mineral and rise with fluid and frame stiffness; unrelaxed moduli and high-frequency velocities do not lie below the relaxed ones, and waves are not amplified. Grain packs, sands and patchy cements stiffen with stress, contacts and cement and soften with porosity, between their end members; fluid density and modulus rise with pressure; normal reflections have the sign of the impedance contrast and at most unit size; permeability rises with porosity and grain size; velocity trends rise and porosity trends fall with depth.",
 "all admissible inputs, and every step along a swept input, in array or point-by-point calls", ["rockphypy/*.py"], [("effective-medium, crack, layering, fluid, granular, reflectivity, permeability and trend models", "rockphypy/*.py")], "tests compare a few values; bounds and monotone response concern whole curves and every composition", "invariants: bounds, positive definiteness and monotone response along generated sweeps"),
("C29", "Results change continuously with every continuous input",
 "Inside its domain every model is a continuous function of its numerical inputs: an ever smaller change of one input, or of all of them together, changes every output by an ever smaller amount, so no curve a user draws has a jump or an isolated point. Special values (no pores or cracks, spheres, pure phases, end-member saturations, fractions and porosities, zero stress, normal incidence, symmetry directions) are the limits of their neighbourhood. The only jumps are the published ones: depth trends given in segments that do not meet, and the fast and slow waves of a porous medium changing places.",
 "all inputs in the domain and every path between two admissible input sets", ["rockphypy/*.py"], [("all models with continuous inputs", "rockphypy/*.py")], "tests evaluate isolated points; a jump lies between two of them, at a place no test names", "adaptive search: sampling along generated paths, bisection onto the largest discontinuity, persistence of the gap as verdict"),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for pid, title, st, q, files, mech, why, tech in P:
            assert len(title) <= 80, (pid, len(title))
            over = ["inputs", "histories"] if pid == "C25" else ["inputs"]
            if files == ["rockphypy/*.py"]:
                files = ["rockphypy/%s.py" % m for m in ("Anisotropy", "AVO", "BW", "EM", "Emp", "Fluid", "GM", "Perm", "QI", "utils")]
            fh.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
                                 "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": None}}) + "\n")
    checks = []
    for pid, *_, tech in P:
        checks.append({"property": pid, "quick_cmd": "/opt/venv/bin/python check.py %s" % pid,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % pid,
                       "technique": "property-based testing (Hypothesis): " + tech, "level": "exploration",
                       "level_note": "Searched, not proved: holds on every generated case within the documented physical domains; trusts the independent reference models in pbt/ and their tolerances. Recorded defects (known_findings.txt) are accepted only in the exact wrong form recorded."})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); from pbt import boot; boot.classes()'",
                   "checks": checks, "not_applicable": [],
                   "notes": "No hooks in /repo are needed: the checks import the working tree. Quick runs are scaled to VERIF_SEED; replay a failure with check.py <id> --replay <file>."}, fh, indent=1)
        fh.write("\n")


main()
