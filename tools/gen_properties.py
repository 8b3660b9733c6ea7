#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": ["src/tad_dftd4/" + f for f in files],
         "mechanism": [{"name": n, "where": "src/tad_dftd4/" + w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Two-body energy is the damped multipole pair sum",
 "For every molecule, dispersion coefficients, damping function and parameter set, the two-body energy of an atom is minus one half of the sum over all other real atoms inside the pair cutoff of s6*C6*t6 + s8*C8*t8 (+ s10*C10*t10 when s10 is given), with C8 = 3*C6*rA*rB and C10 = 49/40*C8^2/C6 built from the r4/r2 expectation values, and t_n the damped inverse n-th power of the distance. "
 "With the default rational damping t_n = 1/(R^n + (a1*sqrt(3*rA*rB)+a2)^n); the matrix form returns minus the same pair terms without the one half.",
 ["inputs", "configurations"], "all geometries, elements, C6 matrices, r4r2/rvdw values, damping parameters (with and without s10), damping functions, batched and single, vector and matrix result",
 "Tests compare a few molecules with tabulated energies; s10 != 0, the matrix form, zero/mzero/optimised-power values and unusual parameters are never compared with anything.",
 ["dispersion/twobody.py", "damping/functions.py"],
 [("dispersion2", "dispersion/twobody.py:dispersion2"), ("two-body term", "dispersion/twobody.py:TwoBodyTerm.calculate"), ("damping functions", "damping/functions.py")],
 ["return value of dispersion2 / TwoBodyTerm.calculate"])

prop("C02", "Three-body energy is the damped Axilrod-Teller-Muto triple sum",
 "For every molecule, the three-body energy of an atom is s9/6 times the sum over all ordered pairs of other distinct real atoms, with all three distances inside the triple cutoff, of C9*(3*cos*cos*cos+1)/(Rij*Rik*Rjk)^3 times 1/(1+6*(r0ij*r0ik*r0jk/(Rij*Rik*Rjk))^(alp/3)). "
 "The approximate C9 is sqrt(|C6ij*C6ik*C6jk|), the exact C9 the Casimir-Polder integral of the three weighted polarizabilities; the critical radii are a1*sqrt(3*rA*rB)+a2 (D4) or rs9*rvdw (D3).",
 ["inputs", "configurations"], "all geometries including collinear and large ones, all C9/radii/cutoffs/s9/alp, approximate and exact C9, D4 and D3 radii, batched and single",
 "Tests compare the ATM energy of a handful of small molecules whose distances lie inside every cutoff and only with default alp; exact C9 is only checked for shape.",
 ["dispersion/threebody.py", "utils.py", "damping/functions.py"],
 [("ATM energy", "dispersion/threebody.py:get_atm_dispersion"), ("C9 mixins", "dispersion/threebody.py:C9ApproxMixin, C9ExactMixin"), ("radii mixins", "dispersion/threebody.py:RadiiBJMixin, RadiiVDWMixin"), ("integration", "utils.py:trapzd_atm")],
 ["return value of get_atm_dispersion / ATM.calculate"])

prop("C03", "C6 and polarizabilities follow the D4/D4S reference interpolation",
 "For every element combination, coordination numbers and charges, C6 coefficients and polarizabilities are the reference values (Casimir-Polder quadrature of the scaled reference polarizabilities) weighted by the charge scaling function times the normalised Gaussian coordination-number weights, as defined for D4 (one Gaussian exponent) and D4S (pair-specific exponents). "
 "Missing coordination numbers or charges mean zero; both reference-charge sets use the same formulas with their own tables.",
 ["inputs", "configurations"], "all atomic numbers with reference data, all coordination numbers and charges, models d4/d4s, reference charges eeq/gfn2, ga/gc/wf settings",
 "Tests compare weights and C6 for a few molecules with EEQ references; most elements, the gfn2 tables, non-default ga/gc/wf and charged atoms are never evaluated.",
 ["model/base.py", "model/d4.py", "model/d4s.py", "utils.py"],
 [("charge scaling", "model/base.py:BaseModel._zeta"), ("reference polarizabilities", "model/base.py:BaseModel._get_alpha"), ("Gaussian weights", "model/d4.py, model/d4s.py:weight_references"), ("C6 contraction", "get_atomic_c6"), ("quadrature", "utils.py:trapzd")],
 ["weight_references", "get_atomic_c6", "get_polarizabilities", "get_weighted_pols", "get_properties"])

prop("C04", "Energies and properties are invariant under rotation and translation",
 "Translating, rotating or reflecting a molecule as a whole never changes its atom-resolved energies, coordination-number-weighted C6 coefficients, charges or polarizabilities: coordinates influence results only through interatomic distances.",
 ["inputs", "configurations"], "all geometries and all rigid motions, all models, dampings and options",
 "Tests evaluate each molecule in exactly one orientation and position.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py"],
 [("distance matrices", "dispersion/twobody.py:dispersion2, dispersion/threebody.py:get_atm_dispersion"), ("coordination numbers and charges", "dispersion/base.py:Disp.calculate")])

prop("C05", "Relabelling atoms only permutes the results",
 "Reordering the atoms of a molecule reorders the atom-resolved energies, charges, C6 matrix and polarizabilities accordingly and changes nothing else; no result depends on the position of an atom in the input arrays.",
 ["inputs"], "all molecules and all permutations of their atoms",
 "Tests use one fixed atom order per molecule.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "utils.py"],
 [("vectorised atom axes", "dispersion/, model/, utils.py")])

prop("C06", "Batch entries are independent and padding atoms are inert",
 "Every entry of a batch gets exactly the values it would get when calculated alone, whatever the other entries are and however much zero padding is appended. Padding atoms (atomic number 0) get exactly zero energy and contribute nothing to any real atom.",
 ["inputs", "configurations"], "all batches of molecules of different sizes, all padding lengths, models d4/d4s, approximate and exact C9, all damping functions",
 "Tests compare two-molecule batches for the default configuration only; other padding amounts, the exact ATM term, D4S polarizabilities and the other damping functions are not compared.",
 ["dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "utils.py"],
 [("pair/triple masks", "dispersion/twobody.py:dispersion2, dispersion/threebody.py:get_atm_dispersion"), ("reference masks", "model/d4.py, model/d4s.py:weight_references"), ("atom count normalisation", "model/d4s.py:get_weighted_pols")])

prop("C07", "Pair and triple interactions are symmetric in their atoms",
 "C6 coefficients satisfy C6(A,B) = C6(B,A), the matrix of pair energies is symmetric, and every three-body contribution, including its cutoff decision and damping, is unchanged by any reordering of its three atoms; so each interaction is shared equally by its atoms.",
 ["inputs", "configurations"], "all molecules, all pairs and triples, models d4/d4s, approximate and exact C9, all damping functions, all cutoffs",
 "Tests never inspect single pair or triple contributions and never place a triple across the cutoff.",
 ["dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py", "model/d4s.py", "utils.py"],
 [("pair energy", "dispersion/twobody.py:dispersion2"), ("triple energy", "dispersion/threebody.py:get_atm_dispersion"), ("C6", "model/d4.py, model/d4s.py:get_atomic_c6"), ("C9", "dispersion/threebody.py:C9ApproxMixin, C9ExactMixin")])

prop("C08", "Each real-space cutoff governs exactly its own interaction",
 "A pair contributes to the two-body energy exactly when its distance does not exceed the two-body cutoff, a triple contributes to the three-body energy exactly when all three distances do not exceed the three-body cutoff, and the charge model receives the EEQ coordination-number cutoff. "
 "A cutoff object passed by the caller is used as given; without one the documented defaults (60, 40, 30 and 25 Bohr) apply.",
 ["inputs", "configurations"], "all geometries and all cutoff values, with and without a caller-supplied cutoff object, all entry points",
 "All test molecules are smaller than every cutoff, so no cutoff ever decides anything in the tests.",
 ["cutoff.py", "defaults.py", "disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py"],
 [("cutoff object", "cutoff.py:Cutoff"), ("pair cutoff", "dispersion/twobody.py:dispersion2"), ("triple cutoff", "dispersion/threebody.py:get_atm_dispersion"), ("EEQ cutoff", "dispersion/base.py:Disp.calculate, disp.py:get_properties")])

prop("C09", "Results keep the precision of the coordinates",
 "Energies and properties have the floating-point type of the input positions whatever the global default type is, and in double precision no intermediate value, constant, parameter or total charge is rounded to a narrower type on the way (method and model objects being created for that type).",
 ["inputs", "configurations"], "float32 and float64 positions combined with either global default dtype, parameters given as numbers or tensors or omitted, all models and dampings",
 "Tests run with one default dtype and tolerances looser than single precision rounding.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "utils.py", "cutoff.py", "data/r4r2.py", "data/wfpair.py"],
 [("dtype propagation", "every tensor creation in dispersion/, model/, damping/, utils.py")])

prop("C10", "Calculations stay on the device of the inputs",
 "When the inputs live on some device other than the default one, every tensor the calculation creates or looks up is placed on that device, no operation mixes devices, and the results are returned on it (method and model objects being created for that device).",
 ["configurations"], "any non-default device for all inputs, all models, dampings, options and entry points",
 "The test machine has only a CPU, so a tensor created on the default device is never noticed.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "utils.py", "cutoff.py", "data/r4r2.py", "data/wfpair.py"],
 [("device propagation", "every tensor creation and table lookup in dispersion/, model/, damping/, data/, utils.py")])

prop("C11", "Energies stay differentiable in every continuous input",
 "The result is connected to positions, total charge, partial charges, damping parameters, r4/r2 values, van der Waals radii, coordination numbers and model factors by differentiable operations only: wherever one of them influences the energy value, automatic differentiation sees the full dependence.",
 ["inputs", "configurations"], "all differentiable inputs, all models, dampings, options and entry points, every dataflow path from input to result",
 "Gradient tests cover positions and four parameters in the default configuration; a detached sub-expression that is constant or small for the samples stays unnoticed.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "damping/functions.py", "utils.py"],
 [("autograd graph", "all value computations between public inputs and results")])

prop("C12", "No NaN or infinity arises from masked pairs, triples or padding",
 "Masked elements never spoil energies or their derivatives with respect to any continuous input (positions, charges, parameters, radii, r4/r2 values): no division, root, logarithm or power is evaluated at a singular point for diagonal pairs, repeated atoms in triples, padding atoms or unused reference slots, not even in branches that are masked out afterwards.",
 ["inputs", "configurations"], "all batches with padding, all diagonal pairs and degenerate triples, all reference slots of all elements, all damping functions, both precisions",
 "Tests check a few NaN cases for position gradients in the default configuration; parameter and radius gradients in padded batches are not evaluated.",
 ["dispersion/twobody.py", "dispersion/threebody.py", "damping/functions.py", "model/base.py", "model/d4.py", "model/d4s.py"],
 [("filler values", "dispersion/twobody.py:dispersion2, dispersion/threebody.py:get_atm_dispersion"), ("damping singularities", "damping/functions.py"), ("weight normalisation", "model/d4.py, model/d4s.py:weight_references")])

prop("C13", "Calculations never modify the caller's data or shared tables",
 "No public call changes the contents of its arguments (tensors, parameter dictionary, cutoff object, model or damping object as far as results depend on them), of the shipped reference tables, of cached parameter files, of default argument objects or of class-level settings.",
 ["inputs", "histories"], "every public entry point with every combination of optional arguments, any sequence of calls",
 "Tests never compare arguments or module tables before and after a call.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py", "damping/functions.py", "damping/parameters/loader.py", "cutoff.py"],
 [("in-place operations", "dispersion/twobody.py:dispersion2"), ("cached parameter files", "damping/parameters/loader.py:get_params"), ("shared default objects", "damping/functions.py:Damping.__call__, dispersion/d4.py:DispD4.TERMS")])

prop("C14", "Results depend only on the arguments, not on earlier calls",
 "A call returns the same result whatever was calculated before in the same process: nothing that an earlier call stored (caches, attributes, globals, mutable defaults) can influence a later result unless it is determined completely by that later call's own arguments.",
 ["histories"], "all sequences of public calls with arbitrary arguments in one process, including repeated use of one dispersion, model or damping object",
 "Tests call each function in isolation; sequences that would hit a stale cache are not exercised.",
 ["disp.py", "dispersion/base.py", "model/base.py", "damping/functions.py", "damping/parameters/loader.py", "utils.py"],
 [("parameter file cache", "damping/parameters/loader.py:_load"), ("instance state", "dispersion/base.py:Disp, model/base.py:BaseModel, damping/functions.py:Damping")])

prop("C15", "Optional inputs replace exactly the quantity they name",
 "A caller-supplied model, partial charges, r4/r2 values, van der Waals radii, cutoff, counting function, coordination-number function or damping function is used in place of its default and nothing else changes: given charges make the result independent of the total charge, and the three-body term never depends on charges by default. "
 "Omitted options fall back to the documented default.",
 ["configurations", "inputs"], "all combinations of given and omitted options of the energy functions and classes",
 "Tests pass few overrides and almost never check that an override changes the result the way it should.",
 ["disp.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py", "dispersion/d3.py", "dispersion/d4.py"],
 [("option plumbing", "disp.py:dftd4, dispersion/base.py:Disp.calculate"), ("charge dependence flags", "dispersion/twobody.py, dispersion/threebody.py, dispersion/d4.py")])

prop("C16", "Scaling parameters enter linearly and omitted ones take their defaults",
 "The energy is an exactly linear combination of the scaling parameters: s6, s8 and s10 scale their own two-body order, s9 scales the whole three-body energy, and none of them enters anywhere else (so zero switches the order off exactly). "
 "An omitted s6 or s9 acts as 1, an omitted s8 as 1 where the order is present (rs8 given) and as 0 otherwise, an omitted s10 as 0, an omitted a1, a2 of the three-body radii as 0.4, 5.0 and an omitted alp as 16.",
 ["inputs", "configurations"], "all real values of the scaling parameters including zero and negative ones, all subsets of supplied parameters, parameters given as numbers or tensors",
 "Tests use published parameter sets, always with the same keys present.",
 ["dispersion/twobody.py", "dispersion/threebody.py", "damping/functions.py", "defaults.py"],
 [("scaling", "dispersion/twobody.py:dispersion2, dispersion/threebody.py:get_atm_dispersion"), ("defaults", "defaults.py, damping/functions.py:Damping.__call__")])

prop("C17", "Damping functions have the correct long- and short-range limits",
 "For every damping function, order and admissible parameters the damped inverse power t_n approaches exactly R^-n as the distance grows, stays finite as the distance goes to zero (for modified zero damping with beta = 0), and is positive in between. The pure damping factor of the three-body term goes to one at long and to zero at short range.",
 ["inputs", "configurations"], "all distances, radii, orders 6/8/9/10 where supported, and positive damping parameters, for rational, zero, modified zero and optimised-power damping",
 "Tests only check that the functions can be called; no limit is ever evaluated.",
 ["damping/functions.py", "dispersion/threebody.py"],
 [("damping functions", "damping/functions.py:RationalDamping, ZeroDamping, MZeroDamping, OptimisedPowerDamping")])

prop("C18", "Coefficients are non-negative and two-body dispersion is attractive",
 "C6 and C9 coefficients, reference and weighted polarizabilities and quadrature weights are never negative, and with non-negative scaling parameters and positive damping radii no atom's two-body energy is ever positive.",
 ["inputs", "configurations"], "all elements, coordination numbers, charges, geometries, models d4/d4s, both reference charge sets, all damping functions",
 "Tests see the sign only for the sampled molecules.",
 ["model/base.py", "model/d4.py", "model/d4s.py", "utils.py", "dispersion/twobody.py", "dispersion/threebody.py"],
 [("polarizability clamp", "model/base.py:BaseModel._get_alpha"), ("quadrature weights", "utils.py"), ("energy sign", "dispersion/twobody.py:dispersion2")])

prop("C19", "Inconsistent inputs are rejected with a specific error",
 "In every energy calculation (functional interface and method classes) positions, partial charges, covalent radii, r4/r2 values or van der Waals radii whose shape does not fit the atomic numbers raise a ValueError, also when the shapes could be broadcast; charges passed to a method without charge-dependent terms raise a RuntimeError; unknown model names, reference-charge sets and radius types raise a ValueError; a damping parameter required by a damping function but missing raises a TypeError.",
 ["inputs", "configurations"], "all shapes of all optional tensors relative to the atomic numbers, batched or not, all entry points, all unknown names",
 "Tests try one wrong shape per argument for a single two-atom molecule; broadcastable, transposed and missing-batch shapes are not tried.",
 ["dispersion/base.py", "dispersion/twobody.py", "model/base.py", "model/d4.py", "model/d4s.py", "damping/functions.py"],
 [("shape checks", "dispersion/base.py:Disp.calculate"), ("name checks", "dispersion/base.py:Disp.__init__, model/*.py"), ("required parameters", "damping/functions.py:Damping.__init_subclass__")])

prop("C20", "Parameter lookup returns the requested block or a KeyError",
 "For every functional of a parameter file the lookup finds the block of exactly that method, functional (in any letter case) and variant, uses the file's first default variant when none is given, drops only the DOI unless asked to keep it, and returns a fresh dictionary. "
 "Anything not in the file raises a KeyError and never yields parameters of another functional, variant or method.",
 ["inputs", "configurations"], "all methods, functional names in all spellings, variants, with and without DOI",
 "Tests look up a handful of names in lower case only.",
 ["damping/parameters/loader.py"],
 [("lookup", "damping/parameters/loader.py:get_params"), ("file cache", "damping/parameters/loader.py:_load")])

prop("C21", "Shipped damping parameters are complete, unaltered and usable",
 "Every shipped parameter block has the published values, contains only keywords the damping functions accept and all keywords its damping variant requires, has finite values, and is reachable through the lookup.",
 ["configurations", "inputs"], "every functional, method and variant in the shipped parameter files",
 "Tests read the parameters of two or three functionals out of more than two hundred blocks.",
 ["damping/parameters/d3.toml", "damping/parameters/d4.toml", "damping/parameters/base.py", "damping/functions.py"],
 [("parameter files", "damping/parameters/d4.toml, damping/parameters/d3.toml"), ("accepted keywords", "damping/functions.py:Damping.__call__")])

prop("C22", "Shipped reference tables are the published ones and fit together",
 "The element tables used by the model (reference coordination numbers, charges, polarizabilities, scaling factors, reference counts and systems, secondary references, r4/r2 values, pair exponents) hold the published values for every element, have consistent shapes and reference counts, are neutral for the dummy element 0, and reach the model under the right name for each reference-charge set.",
 ["inputs", "configurations"], "every element, reference slot, frequency and table",
 "Tests touch a few of the 103 elements with numerical tolerances.",
 ["reference/d4/params.py", "reference/d4/charge_eeq.py", "reference/d4/charge_gfn2.py", "data/r4r2.py", "data/wfpair.py", "utils.py"],
 [("reference data", "reference/d4/params.py"), ("reference charges", "reference/d4/charge_eeq.py, reference/d4/charge_gfn2.py"), ("element data", "data/r4r2.py, data/wfpair.py")])

prop("C23", "All entry points evaluate the same model",
 "For equal settings the functional interface, the ready-made method classes and manually assembled dispersion objects return the same energy, whatever the order in which terms are registered; the property function returns exactly the coordination numbers, charges, C6 coefficients and polarizabilities that the default energy calculation uses.",
 ["configurations", "inputs"], "all settings expressible through more than one entry point, all term orders",
 "Tests compare entry points for one molecule and one setting.",
 ["disp.py", "dispersion/base.py", "dispersion/d4.py", "dispersion/d3.py"],
 [("functional interface", "disp.py:dftd4, disp.py:get_properties"), ("method classes", "dispersion/d4.py:DispD4, DispD4Exact"), ("term registry", "dispersion/base.py:Disp.register, Disp.calculate")])

prop("C24", "Changing dtype or device of an object keeps all its settings",
 "Converting a cutoff, model, dispersion or term object to another dtype or device yields an object with every setting of the original, including those set by the caller at construction; nothing is lost, reset to a default or left on the old device.",
 ["configurations", "histories"], "all convertible classes, all constructor settings, all conversions",
 "Tests convert a default cutoff object and look at one or two attributes.",
 ["cutoff.py", "model/base.py", "model/d4.py", "model/d4s.py", "dispersion/base.py", "dispersion/twobody.py", "dispersion/threebody.py"],
 [("slots", "cutoff.py:Cutoff.__slots__, model/base.py:BaseModel.__slots__, dispersion/base.py:Disp.__slots__, DispTerm.__slots__"), ("constructors", "the __init__ of the same classes")])

prop("C25", "Analytical weight derivatives match the weights they belong to",
 "Whenever the model is asked for derivatives together with the reference weights, the weights are the same as without derivatives, the charge derivative equals the derivative of the returned weights with respect to the partial charges, and the coordination-number derivative equals the derivative with respect to the coordination numbers up to the sign convention of the reference implementation, in the documented order.",
 ["inputs", "configurations"], "all elements, coordination numbers, charges, reference charge sets and flag combinations",
 "Tests compare with autograd for three molecules; most elements, reference multiplicities and the gfn2 set are not compared.",
 ["model/base.py", "model/d4.py", "model/d4s.py"],
 [("charge scaling derivative", "model/base.py:BaseModel._dzeta"), ("weight derivatives", "model/d4.py, model/d4s.py:weight_references")])

prop("C26", "Energies agree with the reference implementation to numerical accuracy",
 "For every molecule the computed energies agree with the published Fortran implementation of D4 within rounding accuracy.",
 ["inputs"], "all molecules and functionals", "Tests compare a few molecules; agreement of floating-point values for all inputs is a statement about accumulated rounding and about another program.",
 ["disp.py"], [("energy", "disp.py:dftd4")])
prop("C27", "Single- and double-precision energies agree within rounding",
 "For every molecule the single-precision energy differs from the double-precision energy by no more than the accumulated rounding error of the summation.",
 ["inputs"], "all molecules of all sizes", "Tests use fixed tolerances for a few molecules.",
 ["dispersion/twobody.py", "dispersion/threebody.py", "model/d4.py"], [("summation", "dispersion/twobody.py:dispersion2")])
prop("C28", "Charges and coordination numbers are physically correct",
 "The partial charges used by default sum to the total charge of each molecule and the coordination numbers equal the published counting function.",
 ["inputs"], "all molecules and total charges", "Computed by external packages; tests sample a few molecules.",
 ["dispersion/base.py", "disp.py"], [("charge model call", "dispersion/base.py:Disp.calculate")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
