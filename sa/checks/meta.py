"""technique and assurance notes per property (used for MANIFEST.json)"""

BASE = ("Decided for all inputs of symbolic size by abstract interpretation of the sources; trusts the contracts of torch, "
        "tad_mctc and tad_multicharge in sa/torchlib.py and sa/extlib.py and the analyser itself. Obligations the "
        "analyser cannot lower or normalise are reported as undecided in the evidence and raise no alarm. ")

VN = "abstract interpretation to a value graph, value numbering by canonical forms"

META = {
    "C01": (VN + " against the published pair formula",
            BASE + "Equality is exact real-arithmetic equality; rounding is not covered."),
    "C02": (VN + " against the published triple formula", BASE + "Equality is exact real-arithmetic equality."),
    "C03": (VN + " against the published reference interpolation, tables as uninterpreted functions of the atomic number",
            BASE + "Exact real arithmetic; the published exception (zero weights when all Gaussians underflow) is part of the "
            "specification. Table contents are C22."),
    "C04": ("dependence analysis on the value graph: coordinates reach results only through distances (modulo the "
            "orthogonality rule for dot products of differences)", BASE + "Trusts that the coordination numbers and charges of "
            "the dependencies are functions of distances."),
    "C05": ("equivariance analysis: value numbering of the graph against itself with the atom axis permuted", BASE),
    "C06": ("value numbering of batched against unbatched graphs, padded against unpadded graphs, and zero analysis for "
            "padding atoms", BASE),
    "C07": ("value numbering of each pair and triple term against itself with its atoms exchanged", BASE),
    "C08": ("value numbering of mask conditions plus provenance of the arguments handed to the dependencies", BASE +
            "Known findings: the CN cutoff is never used by the three D4 entry points."),
    "C15": ("dependence analysis and value numbering under substitution of each optional input", BASE),
    "C23": (VN + " of every pair of entry points against each other", BASE),
    "C25": ("symbolic differentiation of the value graph and value numbering against the returned derivatives", BASE +
            "Sign convention of the coordination-number derivative as in the reference implementation."),
    "C16": (VN + " over all subsets of scaling parameters", BASE + "Exact real arithmetic."),
    "C09": ("dtype inference over the value graph with rounding markers", BASE + "Exactly representable integers may pass a "
            "narrower type. Method and model objects are created for the type of the coordinates."),
    "C10": ("device inference over the value graph with a symbolic non-default device", BASE + "Method and model objects are "
            "created for the device of the coordinates."),
    "C11": ("differentiability analysis: no detaching or step operation on a value edge from a continuous input", BASE),
    "C13": ("effect analysis: writes of the abstract interpreter to objects that existed before the call", BASE),
    "C14": ("history analysis: value graph of a call after another call against the graph of the call made first", BASE +
            "Histories are pairs of calls; longer ones follow when the second call leaves the state of the pair."),
    "C24": ("value numbering of results of converted objects against natively constructed ones, with type and device "
            "inference", BASE),
    "C19": ("abstract interpretation of every public call with symbolic ill-fitting shapes and names; exception types on all "
            "paths", BASE + "Differently named axes are taken to have different lengths."),
    "C20": ("abstract interpretation of the lookup with symbolic names (keys followed in the file) plus constant propagation "
            "over every name in the shipped files", BASE),
    "C21": ("constant propagation of the shipped blocks through the lookup and into the damping functions' signatures",
            BASE + "Published values are the recorded ones of the pinned commit. Known findings: 86 D3 zero-damping blocks "
            "without rs8."),
    "C22": ("constant propagation of the shipped tables, table digests and cross-table consistency, tables reaching each "
            "model's value graph", BASE + "Published values are the recorded ones of the pinned commit."),
    "C12": ("sign analysis of every singular operation's operand on the value graph (mask facts count only inside the "
            "operand), case analysis over index coincidences, padding and empty slots otherwise",
            BASE + "Distinct real atoms are assumed to have distinct positions; overflow is judged for ordinary geometries."),
    "C17": ("leading-term (asymptotic exponent) analysis and sign analysis of the lowered damping functions",
            BASE + "For admissible parameters: radii, a1, a2, rs6, rs8, rs9 positive, alp above 6, bet not negative."),
    "C18": ("sign analysis (subsets of {-,0,+}) of the value graphs with branch conditions as facts",
            BASE + "Coordination numbers and scaling parameters not negative, damping parameters positive."),
}

NOT_APPLICABLE = {
    "C26": "Agreement with a separate Fortran program to numerical accuracy is a statement about two programs' floating-"
           "point results; the other program is not in the sandbox and no static argument over this source can bound "
           "the accumulated rounding. The formula itself is decided by C01-C03, the data by C21 and C22.",
    "C27": "The difference between single and double precision is an accumulated rounding error that depends on the "
           "number and magnitude of the summands at run time; no sound static bound that is useful is in reach.",
    "C28": "Charges and coordination numbers are computed by the dependencies tad_multicharge and tad_mctc, whose code "
           "is not in this repository; the analysis trusts them by contract (that the right ones are called with the "
           "right arguments is decided by C08, C15 and C23).",
}
