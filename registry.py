"""What is checked, property by property: texts, bounds, harnesses.

properties.jsonl and MANIFEST.json are generated from this file (gen.py).
"""

S = "src/diffpy/"
R = "src/diffpy/srreal/"


def q(over, text):
    return dict(over=over.split(), text=text)


def A(files, mech, state=(), observe=()):
    d = dict(files=[R + f if not f.startswith("/") else S + f[1:] for f in files],
             mechanism=[dict(name=n, where=(R + w if not w.startswith("/") else S + w[1:])) for n, w in mech])
    if state:
        d["state"] = [dict(name=n, meaning=m, where=R + w) for n, m, w in state]
    if observe:
        d["observe_at"] = list(observe)
    return d


def H(name, src, defs=(), reach=(), tier="quick", **kw):
    return dict(name=name, src=src, defs=list(defs), reach=list(reach), tier=tier, **kw)


PROPS = {}
NA = {}

PROPS["P01"] = dict(
    title="Fast updates equal a from-scratch evaluation after any structure history",
    statement="A pair quantity that is evaluated with the optimized evaluator returns, after any sequence of structure changes "
    "(sites moved, reweighted, added, removed, reordered, in place or in a new object), configuration changes and evaluations, exactly what a fresh "
    "basic evaluation of the current structure with the current configuration returns. The shortcut may only ever save work.",
    quantifier=q("histories inputs", "every history of structure/configuration changes and evaluations, every position and weight of the sites"),
    why_tests_cant="The tests compare the two evaluators for a handful of fixed structures and single changes; they never vary order, overlap of old and new sites or in-place changes combined with configuration changes.",
    anchors=A(["PQEvaluator.cpp", "PairQuantity.cpp", "StructureDifference.cpp", "AtomicStructureAdapter.cpp"],
              [("stash/restore of the partial value and replay of the changed sites only", "PQEvaluator.cpp: PQEvaluatorOptimized::updateValue"),
               ("difference of old and new structure", "AtomicStructureAdapter.cpp: diff"),
               ("value ticker comparison", "PQEvaluator.cpp")],
              [("mvalue_ticker", "time of last evaluation", "PQEvaluator.hpp"), ("mlast_structure", "structure of the last evaluation", "PQEvaluator.hpp")],
              ["PairQuantity::value"]),
    bounds="generic pair sum over 3-5 atoms with one symbolic change (weights 0..2, coordinate -1..6, all sites), two changes of different sites at once among 7 atoms (weight symbolic, move, removal, insertion, reordering, with and without a pair mask; thorough three among 11), thorough also two successive changes over 2 and 3 atoms; "
    "full-sum and fixed-site flags, clones and in-place changes, Rmax change; all values symbolic reals",
    harnesses=[H("fast3x1", "fastupdate.cpp", ["VP_NATOMS=3", "VP_STEPS=1"], ["fast path", "slow path", "compared"]),
               H("fast5x1", "fastupdate.cpp", ["VP_NATOMS=5", "VP_STEPS=1"], ["fast path", "slow path", "compared"]),
               H("multi7x2", "fastmulti.cpp", ["VP_NATOMS=7", "VP_CHANGES=2"], ["fast path", "slow path", "compared"]),
               H("multi11x3", "fastmulti.cpp", ["VP_NATOMS=11", "VP_CHANGES=3"], ["fast path", "slow path", "compared"], tier="thorough"),
               H("fast2x2", "fastupdate.cpp", ["VP_NATOMS=2", "VP_STEPS=2"], ["fast path", "slow path", "compared"], tier="thorough")])

PROPS["P05"] = dict(
    title="The last pair-mask operation that concerns a pair decides it",
    statement="After any sequence of pair-mask operations (single pairs, one site with all, all with all, inversion), whether issued before or after the structure is known and with evaluations in between, "
    "a pair is included exactly if the last operation that concerns it included it. The mask query and the evaluated quantity both agree with that, for either evaluator.",
    quantifier=q("histories inputs", "every sequence of mask operations and evaluations within the bound, any site weights"),
    why_tests_cant="The tests run a few fixed mask sequences on one structure, mostly with the query and not with evaluations in between.",
    anchors=A(["PairQuantity.cpp", "PairQuantity.hpp", "PQEvaluator.cpp"],
              [("site/all mask bookkeeping", "PairQuantity.cpp: setPairMask, invertMask, maskAllPairs"),
               ("mask expansion on structure assignment", "PairQuantity.cpp: updateMaskData"),
               ("configuration ticker", "PairQuantity.cpp: setPairMaskValue")],
              [("minvertpairmask", "masked-out set", "PairQuantity.hpp"), ("msiteallmask", "operations with all", "PairQuantity.hpp")],
              ["PairQuantity::getPairMask", "PairQuantity::value"]),
    bounds="structures of 3 atoms with symbolic weights, all sequences of 2 (thorough: 3) operations over all site/all arguments, masks issued before the structure, with it, or with evaluations between; both evaluators",
    harnesses=[H("m3x2", "pairmask.cpp", ["VP_NATOMS=3", "VP_OPS=2"], ["optimized", "done"]),
               H("m3x3", "pairmask.cpp", ["VP_NATOMS=3", "VP_OPS=3"], ["optimized", "done"], tier="thorough")])

PROPS["P06"] = dict(
    title="Type masks follow the last operation and exclude index masks",
    statement="A pair of atom types is included exactly if the last type-mask operation that concerns it (in either order, 'all' or 'ALL' standing for any type) included it; inversion flips every pair. "
    "Type masks apply to every later structure according to its atom types. Switching between type masks and index masks discards the operations of the other kind. Query and evaluated quantity agree, for either evaluator.",
    quantifier=q("histories inputs", "every sequence of type-mask, index-mask and inversion operations with evaluations in between within the bound, any site weights"),
    why_tests_cant="The tests run a few fixed sequences without overlapping wildcards and without evaluations in between.",
    anchors=A(["PairQuantity.cpp", "PairQuantity.hpp"],
              [("type mask bookkeeping", "PairQuantity.cpp: setTypeMask, getTypeMask, setPairMaskValue"),
               ("expansion for the structure at hand", "PairQuantity.cpp: updateMaskData"),
               ("inversion", "PairQuantity.cpp: invertMask")],
              [("mtypemask", "type mask operations", "PairQuantity.hpp"), ("mtypemaskops", "order of operations", "PairQuantity.hpp")],
              ["PairQuantity::getTypeMask", "PairQuantity::getPairMask", "PairQuantity::value"]),
    bounds="two structures of 3 atoms with 3 types and symbolic weights 0..2; all sequences of 2 operations over all type arguments including both wildcards, index masks and inversion; masks before, with or after the structure and with evaluations between; both evaluators",
    harnesses=[H("t2", "typemask.cpp", ["VP_OPS=2", "VP_KINDS=3"], ["optimized", "done", "index mask"]),
               H("t3", "typemask.cpp", ["VP_OPS=3", "VP_KINDS=3", "VP_FEW=1"], ["optimized", "done"], tier="thorough")])

PROPS["P07"] = dict(
    title="Structure comparison is a sound equivalence and difference",
    statement="The difference of two structures names site indices such that removing the popped sites from the old structure and the added sites from the new one leaves equal multisets of atoms, for arbitrary edits; "
    "a fast update is offered only if environment (lattice, symmetry, type) agrees. Structures compare equal exactly if type and content are equal, and atom comparison is a strict weak order consistent with equality.",
    quantifier=q("inputs histories", "every pair of structures within the bound, every atom field"),
    why_tests_cant="Tests compare a few structures that differ in one atom; interleavings of moved, swapped, duplicated and removed atoms are unexplored.",
    anchors=A(["AtomicStructureAdapter.cpp", "PeriodicStructureAdapter.cpp", "CrystalStructureAdapter.cpp", "StructureDifference.cpp", "StructureAdapter.cpp", "Atom.hpp"],
              [("matching of equal atoms side by side and by sorting", "AtomicStructureAdapter.cpp: diff"),
               ("lattice comparison before atoms", "PeriodicStructureAdapter.cpp: diff, operator=="),
               ("atom ordering", "AtomicStructureAdapter.cpp: operator<, operator==")],
              observe=["StructureAdapter::diff", "operator==(AtomicStructureAdapter)"]),
    bounds="structures of up to 3 (thorough 4) atoms drawn from symbolic coordinates; atom order over all fields symbolic; lattices with one symbolic cell length",
    harnesses=[H("diff", "diff.cpp", [], ["sorted", "atomic", "same lattice", "lattices", "side by side", "edited", "equal", "ordering", "transitive"])])

PROPS["P08"] = dict(
    title="Bond generators visit every pair once with correct geometry",
    statement="For isolated, periodic and symmetry-expanded structures, iteration over the bonds of an anchor site visits every atom image whose distance lies within [rmin, rmax] exactly once, none outside and not the anchor itself, "
    "with the correct direction, distance, anchor and neighbour sites, multiplicity, and mean square displacement of the actual pair of images. Restricting the site range restricts the bonds to these sites; resetting limits restarts the iteration.",
    quantifier=q("inputs", "every atom position or every distance limit within the bound, any displacement parameters"),
    why_tests_cant="Tests count bonds for a few crystals and radii.",
    anchors=A(["BaseBondGenerator.cpp", "PeriodicStructureAdapter.cpp", "CrystalStructureAdapter.cpp", "PointsInSphere.cpp", "R3linalg.hpp"],
              [("sphere iteration and distance filter", "BaseBondGenerator.cpp: next, advance, bondOutOfRange"),
               ("periodic images", "PeriodicStructureAdapter.cpp: PeriodicStructureBondGenerator"),
               ("symmetry images and their tensors", "CrystalStructureAdapter.cpp: CrystalStructureBondGenerator"),
               ("mean square displacement along the bond", "R3linalg.hpp: meanSquareDisplacement")],
              observe=["BaseBondGenerator"]),
    bounds="isolated 3 atoms with symbolic coordinate and limits 0..; periodic: cubic, hexagonal and triclinic cells with 2 sites, one symbolic coordinate or symbolic limits up to ~1.5 cells; crystal: 7 symmetry groups with one site in general or special position; four skewed cells, each with another longest diagonal, sites by its ends and a shell with symbolic limits; displacement parameters symbolic",
    harnesses=[H("isolated", "bonds.cpp", ["VP_KIND=0"], ["isolated"]),
               H("periodic", "bonds.cpp", ["VP_KIND=1"], ["periodic"]),
               H("crystal", "bonds.cpp", ["VP_KIND=2"], ["crystal"]),
               H("skewed", "bonds.cpp", ["VP_KIND=3"], ["skewed"])])

PROPS["P11"] = dict(
    title="Symmetry expansion yields the full crystal",
    statement="The symmetry-expanded structure holds, per asymmetric site, exactly the distinct images under the symmetry operations modulo lattice translations, inside the unit cell, each with the displacement tensor rotated by its operation; "
    "positions closer than the symmetry precision are merged, the multiplicity equals the number of distinct images, and the expansion follows every change of operations, precision or number of sites, and any change of sites or lattice once bonds are generated from the structure.",
    quantifier=q("inputs histories", "every position (also at and around special positions and cell faces) and tensor within the bound, for each of a set of symmetry groups"),
    why_tests_cant="Tests expand one face-centred crystal.",
    anchors=A(["CrystalStructureAdapter.cpp", "CrystalStructureAdapter.hpp", "Lattice.cpp"],
              [("expansion and averaging", "CrystalStructureAdapter.cpp: expandLatticeAtom, findEqualPosition"),
               ("cache update", "CrystalStructureAdapter.cpp: updateSymmetryPositions, isSymmetryCached")],
              observe=["CrystalStructureAdapter::getEquivalentAtoms", "siteMultiplicity"]),
    bounds="7 groups (identity, inversion, 2- and 3-fold axes, mirror, fourfold, body centring, mixed axes) in cubic to unequal cells; one coordinate at a time symbolic over -1..2 cells; tensors symbolic in general",
    harnesses=[H("crystal", "crystal.cpp", [], ["expanded", "merged", "tensors", "history"])])

PROPS["P09"] = dict(
    title="Lattice points in a spherical shell are generated completely and once",
    statement="For any lattice and any shell limits the generator of lattice points yields every lattice point whose distance from the origin is between the limits, "
    "each exactly once and none outside, and starts over after a rewind. The reflection generators do the same for reciprocal lattice points between Qmin and Qmax (or dmin and dmax).",
    quantifier=q("inputs", "every pair of limits within the bound, for each of a set of lattices (cubic to triclinic)"),
    why_tests_cant="The tests count points for a few fixed radii of a few lattices; a wrong jump at a boundary that falls between lattice lines goes unseen.",
    anchors=A(["PointsInSphere.cpp", "PointsInSphere.hpp"],
              [("loop limits from the reciprocal metrics", "PointsInSphere.cpp: init, next_m, next_n, next_o"),
               ("exclusion of the inner sphere", "PointsInSphere.cpp: next_o")],
              observe=["PointsInSphere::mno", "ReflectionsInQminQmax::hkl"]),
    bounds="5 lattices (cubic, hexagonal, monoclinic, triclinic, rhombohedral) with concrete cell; both limits symbolic in 0..1.8 (thorough 0..2.6) lattice units and Q in 0..1.5 (1.7); points within 1e-7 of a limit may go either way",
    harnesses=[H("points", "points.cpp", [], ["compared", "reflections"])])

PROPS["P10"] = dict(
    title="Lattice bases, metrics, reciprocal quantities and conversions are consistent",
    statement="However a lattice is defined (cell parameters, base vectors, reciprocal counterparts), its cell parameters, base vectors, metric tensors, reciprocal parameters, rotation and volume describe one and the same lattice. "
    "Fractional/Cartesian conversions of vectors and displacement tensors are mutually inverse and linear, and reduction to the unit cell moves by whole lattice translations into the cell.",
    quantifier=q("inputs", "every cell length, vector, tensor and point within the bound, for a set of cell angles and orientations"),
    why_tests_cant="The tests compare a few numeric lattices; a formula that is wrong only away from those (sign of a term that vanishes for 90 degrees, wrong index) passes them.",
    anchors=A(["Lattice.cpp", "Lattice.hpp", "R3linalg.cpp"],
              [("derivation of bases and metrics", "Lattice.cpp: setLatPar, setLatBase, updateMetrics, updateStandardBase"),
               ("conversions", "Lattice.hpp: cartesian, fractional, ucvFractional; Lattice.cpp: cartesianMatrix, fractionalMatrix")]),
    bounds="cell lengths symbolic 1..20 for 4 (thorough 5) sets of angles, lower triangular base with symbolic entries, scaled and general concrete bases; vectors symbolic in -3..3, tensors in -1..1, points in -2..2 cells; tolerance 1e-7; the reduction of each coordinate also bit-precisely for every double below 2^20 (thorough 2^50) in size",
    harnesses=[H("lattice", "lattice.cpp", [], ["invariants", "conversions", "tensors", "unitcell", "diagonal"]),
               H("unitcell-exact", "ucvexact.cpp", [], ["inside", "outside", "face"], ir=True, sources=["diffpy/srreal/Lattice.cpp"])])

PROPS["P24"] = dict(
    title="Degree trigonometry and tolerance comparisons are accurate for all arguments",
    statement="Sine and cosine in degrees (and their inverses) equal the mathematical functions for every angle and are exact at the special angles; the tolerant comparisons form consistent equal/less/greater verdicts for all pairs of numbers. "
    "The sequence helpers (tolerant equality and lexicographic order of vectors) are consistent with their element comparisons.",
    quantifier=q("inputs", "every angle within the bound and every pair of numbers"),
    why_tests_cant="Tests evaluate a dozen angles and constants.",
    anchors=A(["/mathutils.hpp", "/mathutils.ipp"],
              [("exact special angles", "/mathutils.hpp: cosd, sind"), ("inverse functions", "/mathutils.hpp: acosd, asind"),
               ("tolerances", "/mathutils.hpp: eps_eq, eps_lt, eps_gt")]),
    bounds="angles symbolic in -720..720 degrees, arguments of inverse functions -1..1, numbers -10..10; the comparisons of two numbers also bit-precisely for all doubles below 1e300 in size; sin/cos/acos are uninterpreted functions with sound axioms refined at the models",
    harnesses=[H("mathutils", "mathutils.cpp", [], ["trig", "inverse", "comparisons", "sequences"]),
               H("comparisons-exact", "epsexact.cpp", [], ["order", "one-sided", "exact"], ir=True, sources=[])])

PROPS["P03"] = dict(
    title="Merged parallel results equal the serial evaluation",
    statement="When workers evaluate their shares of a structure and their exported data are merged into a master, the master's results equal those of a serial evaluation: for any number of workers, any evaluator type "
    "and any earlier evaluations of workers and master (other structures, other splits, fast updates). Superfluous, missing-size or foreign shares are rejected and a master can be reused for the next structure.",
    quantifier=q("histories inputs schedules", "every split, every earlier use of workers and master within the bound, every site position and weight, any merge order the interface accepts"),
    why_tests_cant="Tests merge two or three fresh workers for one structure with the default evaluator.",
    anchors=A(["PairQuantity.cpp", "PQEvaluator.cpp", "BondCalculator.cpp", "OverlapCalculator.cpp", "DebyePDFCalculator.cpp", "PDFCalculator.cpp", "BVSCalculator.cpp"],
              [("splitting of the outer loop", "PQEvaluator.cpp: updateValueCompletely"),
               ("merge bookkeeping", "PairQuantity.cpp: setupParallelRun, mergeParallelData"),
               ("bond export and merge", "BondCalculator.cpp: getParallelData, executeParallelMerge")],
              [("mmergedvaluescount", "number of shares merged so far", "PairQuantity.hpp")],
              ["PairQuantity::mergeParallelData", "value and derived results"]),
    bounds="structures of 2-4 sites (isolated or periodic) with symbolic weights and one symbolic coordinate, 1-3 workers, worker and master histories of one earlier evaluation; generic sum, bonds, overlaps, valence sums, PDF; thorough also the Debye sum",
    harnesses=[H("sum", "parallel.cpp", ["VP_WHAT=0"], ["inner", "outer"]),
               H("bonds", "parallel.cpp", ["VP_WHAT=1"], ["inner", "outer"]),
               H("overlap", "parallel.cpp", ["VP_WHAT=2"], ["inner", "outer"]),
               H("valence", "parallel.cpp", ["VP_WHAT=3"], ["inner", "outer"]),
               H("pdf", "parallel.cpp", ["VP_WHAT=4"], ["inner", "outer"]),
               H("debye", "parallel.cpp", ["VP_WHAT=5"], ["inner", "outer"], tier="thorough")])

PROPS["P04"] = dict(
    title="Counting every pair once gives the same as counting it both ways",
    statement="For isolated, periodic and symmetry-expanded structures, summing over unordered site pairs (each counted twice) gives the same pair quantity as summing over all ordered pairs, "
    "for any pair mask: symmetric pair contributions, valence sums, PDF and Debye sums, and the pair count of structures without symmetry.",
    quantifier=q("inputs", "every occupancy of the sites, each of a set of structures, symmetry groups and masks"),
    why_tests_cant="Tests use full-symmetry structures with equal multiplicities, for which a wrong weight of the half sum cancels.",
    anchors=A(["PQEvaluator.cpp", "PairQuantity.cpp", "BVSCalculator.cpp", "PDFCalculator.cpp", "DebyePDFCalculator.cpp", "BaseBondGenerator.cpp"],
              [("summation scale of the half sum", "PQEvaluator.cpp: PQEvaluatorBasic::updateValue"),
               ("per-site weights", "BVSCalculator.cpp: addPairContribution")],
              observe=["PairQuantity::value"]),
    bounds="isolated, triclinic and 7 symmetry groups with 2-3 sites (general and special positions), occupancies symbolic, 3 masks, 5 quantities",
    harnesses=[H("fullsum", "fullsum.cpp", [], ["generic sum", "valence sums", "PDF", "Debye sum", "pair count", "done"])])

PROPS["P13"] = dict(
    title="Overlap results are consistent and its predictions equal re-evaluation",
    statement="Site overlaps, coordination, neighbour sites and gradients follow from the atomic radii and pair distances of the full structure; the predicted overlap for exchanged radii or exchanged site types, its difference and the flipped overlaps "
    "equal what a new evaluation of the changed structure gives.",
    quantifier=q("inputs histories", "every radius and site distance within the bound, any pair of exchanged sites, with and without earlier evaluations"),
    why_tests_cant="Tests use a handful of crystals with numeric expectations.",
    anchors=A(["OverlapCalculator.cpp", "OverlapCalculator.hpp", "AtomRadiiTable.cpp"],
              [("overlap of one bond", "OverlapCalculator.cpp: suboverlap"),
               ("flips without re-evaluation", "OverlapCalculator.cpp: getFlipDiffTotal, getFlipDiffMean, flipDiffMean"),
               ("neighbour cache", "OverlapCalculator.cpp: cacheStructureData, getNeighborIds")],
              [("mneighborids", "bonds of each site, lazily computed", "OverlapCalculator.hpp")],
              ["siteSquareOverlaps", "flipDiffTotal", "gradients", "coordinations"]),
    bounds="2-4 sites, radii or one coordinate symbolic, isolated, periodic and symmetry-expanded structures",
    harnesses=[H("overlap", "overlap.cpp", [], ["exchanged", "isolated", "periodic", "crystal"])])

PROPS["P02"] = dict(
    title="Optimized evaluation of PDF, Debye sum and bonds equals a fresh one",
    statement="PDF, Debye and bond calculators in the optimized (fast-update) mode return, after any history of structure edits and configuration changes (limits, grid, masks, widths, tables, symmetry of the sum, failed evaluations, configurations restored), "
    "what a freshly configured calculator in the basic mode returns for the same structure (up to what the peak profile cuts off by its precision).",
    quantifier=q("histories inputs", "every history of configuration changes and structure edits within the bound, every occupancy"),
    why_tests_cant="Tests cover a few single edits of one structure with the default configuration.",
    anchors=A(["PQEvaluator.cpp", "PairQuantity.cpp", "PDFCalculator.cpp", "BaseDebyeSum.cpp", "DebyePDFCalculator.cpp", "BondCalculator.cpp", "PeakWidthModel.cpp"],
              [("partial subtraction and addition", "PQEvaluator.cpp: PQEvaluatorOptimized::updateValue"),
               ("change detection by tickers", "PairQuantity.cpp, PDFCalculator.cpp, BaseDebyeSum.cpp: ticker"),
               ("partial values kept between evaluations", "PDFCalculator.cpp, BaseDebyeSum.cpp: stashPartialValue, restorePartialValue")],
              [("mlast_structure", "structure of the last evaluation", "PQEvaluator.hpp"), ("mvalue_ticker", "time of the last evaluation", "PQEvaluator.hpp")],
              ["getPDF", "getF", "distances", "value"]),
    bounds="structures of 4 sites (isolated and periodic), occupancies symbolic, histories of an evaluation, a configuration change and an edit (11 edits, 25 configuration changes), also with a failed evaluation in between",
    harnesses=[H("pdf", "realfast.cpp", ["VP_WHAT=0"], ["basic", "optimized", "configured", "edited", "failed evaluation", "attribute"]),
               H("debye", "realfast.cpp", ["VP_WHAT=1"], ["basic", "optimized", "configured", "edited", "failed evaluation", "attribute"]),
               H("bonds", "realfast.cpp", ["VP_WHAT=2"], ["basic", "optimized", "configured", "edited"])])

PROPS["P12"] = dict(
    title="Bond calculator lists exactly the bonds in range that pass its filters",
    statement="The bond calculator reports every bond of the structure with its distance within the limits, once per ordered pair of sites and its multiplicity, with distance, direction, sites and types that belong together, ordered by distance; "
    "direction filters (cones) keep exactly the bonds within the cone angle of any filter axis and pair masks keep exactly the selected pairs.",
    quantifier=q("inputs", "every site coordinate or limit within the bound, a set of cones (incl. parallel, opposite, zero and full angle), each of a set of symmetry groups"),
    why_tests_cant="Tests count the bonds of a few crystals and one or two filters.",
    anchors=A(["BondCalculator.cpp", "BaseBondGenerator.cpp", "PairQuantity.cpp"],
              [("collection of bonds", "BondCalculator.cpp: addPairContribution, finishValue"),
               ("direction filters", "BondCalculator.cpp: checkConeFilters, filterCone")],
              observe=["distances", "directions", "sites0", "sites1", "types0", "types1"]),
    bounds="isolated structures of 3-4 sites and 7 symmetry groups with 2 sites, one coordinate or the limits symbolic; bonds within round-off of a cone surface may go either way, except along the axis",
    harnesses=[H("bondcalc", "bondcalc.cpp", [], ["filtered", "unfiltered", "crystal", "line"])])

PROPS["P14"] = dict(
    title="Bond valence sums equal the defining sum over neighbours",
    statement="The calculated valence of every site is the sum of exp((Ro - d)/b) over all neighbours with bond-valence parameters, weighted by their occupancies and with the sign of the site's valence, up to bonds weaker than the requested precision; valence differences and root-mean-square deviations "
    "(weighted by site multiplicities and occupancies) follow from it. Unparametrized pairs do not contribute.",
    quantifier=q("inputs", "every occupancy, Ro or site coordinate within the bound, each of a set of symmetry groups"),
    why_tests_cant="Tests sum valences of NaCl and one deuterated crystal.",
    anchors=A(["BVSCalculator.cpp", "BVParametersTable.cpp", "BVParam.cpp"],
              [("contribution of a bond", "BVSCalculator.cpp: addPairContribution"),
               ("bond valence and range", "BVParam.cpp: bondvalence, bondvalenceToDistance"),
               ("deviations", "BVSCalculator.cpp: bvdiff, bvmsdiff, bvrmsdiff")],
              observe=["BVSCalculator::value", "bvdiff", "bvmsdiff", "bvrmsdiff"]),
    bounds="isolated structures of 4 sites and 7 symmetry groups with 2 sites, 3 assignments of types, two (thorough three) occupancies, both Ro or one coordinate symbolic",
    harnesses=[H("bvs", "bvs.cpp", [], ["bonded", "parameters", "occupancies", "coordinate", "crystal"])])

PROPS["P15"] = dict(
    title="Bond valence parameters are found for either order of the atoms",
    statement="A lookup of bond-valence parameters gives the same result for both orders of the two atoms; custom parameters take precedence over the standard ones until reset, unspecified pairs yield the none value and unspecified cation valences the entry for any valence; "
    "distance and valence conversions are inverse to each other.",
    quantifier=q("inputs histories", "every parameter value within the bound and short histories of set, reset and lookup"),
    why_tests_cant="Tests look up a handful of pairs in one order.",
    anchors=A(["BVParametersTable.cpp", "BVParam.cpp"],
              [("lookup", "BVParametersTable.cpp: lookup, setCustom, resetCustom, resetAll"),
               ("canonical order of atoms", "BVParam.cpp: BVParam")],
              observe=["BVParametersTable::lookup", "BVParam::bondvalence"]),
    bounds="8 atom types of valence -2..4 in all pairs, histories of 3 operations, Ro and B symbolic",
    harnesses=[H("bvtable", "bvtable.cpp", [], ["custom", "valences", "formula"])])

PROPS["P28"] = dict(
    title="No-meta and no-symmetry wrappers are faithful views of the structure",
    statement="A no-symmetry wrapper presents the same sites and cell without bond images beyond those of the plain (non-periodic or P1) structure it wraps, a no-meta wrapper the same structure without its metadata; all site data are those of the wrapped structure, also after later edits of it, "
    "wrapping twice changes nothing, and a clone or a difference between wrapped structures is that of the wrapped ones.",
    quantifier=q("inputs histories", "every site position, occupancy and displacement within the bound, before and after an edit"),
    why_tests_cant="Tests check one wrapper instance each.",
    anchors=A(["NoMetaStructureAdapter.cpp", "NoSymmetryStructureAdapter.cpp", "StructureAdapter.cpp"],
              [("delegation", "NoMetaStructureAdapter.cpp, NoSymmetryStructureAdapter.cpp"),
               ("suppression of symmetry and metadata", "NoSymmetryStructureAdapter.cpp: createBondGenerator; NoMetaStructureAdapter.cpp: customPQConfig")],
              observe=["StructureAdapter interface"]),
    bounds="isolated, periodic and symmetry-expanded structures with 2-3 sites, symbolic site data, one edit",
    harnesses=[H("wrappers", "wrappers.cpp", [], ["isolated", "empty", "meta", "edited", "crystal", "periodic"])])

PROPS["P17"] = dict(
    title="Peak profiles are normalized peaks, bounded as the precision requires",
    statement="A peak profile is symmetric, non-negative, has its full width at half maximum equal to the width and unit area, vanishes for zero or negative widths, and its bounds enclose exactly the points where it exceeds the precision fraction of its maximum; "
    "the cropped profile is zero beyond the bounds and continuous there. Precision is kept by clones and any change of it is noticed.",
    quantifier=q("inputs", "every width, coordinate and precision within the bound"),
    why_tests_cant="Tests sample a few points of one Gaussian and never a non-positive width of the cropped one.",
    anchors=A(["PeakProfile.cpp", "GaussianProfile.cpp", "CroppedGaussianProfile.cpp"],
              [("profile function and bounds", "GaussianProfile.cpp: operator(), xboundhi; CroppedGaussianProfile.cpp: operator(), setPrecision"),
               ("precision", "PeakProfile.cpp: setPrecision")],
              observe=["PeakProfile::operator()", "xboundlo", "xboundhi"]),
    bounds="width symbolic in -0.5..3, coordinate in -12..12, 7 precisions and a symbolic one in 0.001..0.999; exp and erf are uninterpreted functions with sound axioms",
    harnesses=[H("profiles", "profiles.cpp", [], ["inside", "outside", "no width", "symbolic precision"])])

PROPS["P18"] = dict(
    title="Peak widths follow the displacement model and stay below their maximum",
    statement="A peak width is the constant one, or follows from the mean square displacement along the bond, corrected for correlated motion and resolution as the Jeong formula defines (zero whenever the corrected variance is negative). "
    "No bond of the structure within the limits is wider than the maximum the model reports, and widths are those of the actual bond image.",
    quantifier=q("inputs", "every displacement, distance and model parameter within the bound"),
    why_tests_cant="Tests check a dozen numbers at fixed parameters.",
    anchors=A(["ConstantPeakWidth.cpp", "DebyeWallerPeakWidth.cpp", "JeongPeakWidth.cpp", "PeakWidthModel.cpp", "StructureAdapter.cpp", "BaseBondGenerator.cpp"],
              [("width of a bond", "calculate, calculateFromMSD, msdSharpeningRatio"),
               ("upper bound of widths", "maxWidth; StructureAdapter.cpp: maxUii")],
              observe=["PeakWidthModel::calculate", "maxWidth"]),
    bounds="isolated, periodic and crystal structures of two sites, one displacement or one model parameter symbolic; the maximum is required for delta1 and delta2 of one sign",
    harnesses=[H("widths", "widths.cpp", [], ["constant", "debye-waller", "jeong", "negative correction", "negative displacement", "maximum", "anisotropic maximum"])])

PROPS["P19"] = dict(
    title="PDF envelopes and baselines act as defined and in any combination",
    statement="Each envelope and baseline is the function its parameters define, neutral at the default; the product of any set of used envelopes multiplies the PDF, adding, replacing, popping and cloning envelopes affect exactly the named ones, "
    "and the linear baseline added to the PDF has the slope set by the user or by the structure's number density.",
    quantifier=q("inputs histories", "every parameter value and coordinate within the bound, histories of adding and removing envelopes"),
    why_tests_cant="Tests evaluate single points of each envelope.",
    anchors=A(["PDFEnvelope.cpp", "PDFBaseline.cpp", "LinearBaseline.cpp", "QResolutionEnvelope.cpp", "ScaleEnvelope.cpp", "SphericalShapeEnvelope.cpp", "StepCutEnvelope.cpp", "PDFCalculator.cpp"],
              [("envelope functions", "operator() of each envelope"),
               ("envelope owner", "PDFEnvelope.cpp: applyEnvelopes, addEnvelope, popEnvelope"),
               ("baseline", "PDFCalculator.cpp: applyBaseline")],
              observe=["PDFEnvelope::operator()", "PDFCalculator::applyEnvelopes", "applyBaseline"]),
    bounds="coordinate symbolic in 0..20, one envelope parameter symbolic, histories of 3 owner operations",
    harnesses=[H("envelopes", "envelopes.cpp", [], ["scale", "qresolution", "sphericalshape", "stepcut", "baseline", "owner"])])

PROPS["P16"] = dict(
    title="The PDF is the normalized, broadened pair sum over exactly the r-grid",
    statement="PDF, RDF and RDF/r are given at all multiples of the step within [Rmin, Rmax] and nowhere else. Each equals the sum over all pairs of the weighted peak profile at the pair distance, "
    "normalized by the average scattering factor, with the partial sums of masked pairs, baseline and envelopes applied; contributions from outside of the range are lost only below the peak precision. "
    "Asking for results after limits were changed is safe and refers to the range that was calculated.",
    quantifier=q("inputs histories", "every limit and every site position, occupancy or parameter within the bound, limits changed before and after an evaluation"),
    why_tests_cant="Tests compare curves of a few materials on one grid with loose tolerance and never query after a changed limit.",
    anchors=A(["PDFCalculator.cpp", "PDFUtils.cpp", "PDFUtils.ipp", "PairQuantity.cpp"],
              [("r-grid and its extension", "PDFCalculator.cpp: cacheRlimitsData, getRgrid, cutExtended; PDFUtils.ipp: pdfutils_rminSteps, pdfutils_rmaxSteps"),
               ("peak sum", "PDFCalculator.cpp: addPairContribution"),
               ("normalization", "PDFCalculator.cpp: getExtendedRDF, cacheStructureData")],
              observe=["PDFCalculator::getRgrid", "getPDF", "getRDF", "getRDFperR"]),
    bounds="2 sites (isolated, or in P1, P-1 cells), grids of up to 21 points, 3 steps, one limit symbolic in 0..1.4; or coordinate, occupancy, width, factor symbolic one at a time; exp uninterpreted with sound axioms",
    harnesses=[H("pdf-grid", "pdf.cpp", ["VP_WHAT=0"], ["requery", "grid", "empty grid", "radiation"]),
               H("pdf-values", "pdf.cpp", ["VP_WHAT=1"], ["plain", "cropped", "rmin", "precision", "no extension", "envelopes", "masked"])])

PROPS["P20"] = dict(
    title="F(Q) is the normalized Debye sum at exactly the points of the Q-grid",
    statement="F(Q) of a structure is given at all multiples of Qstep within [Qmin, Qmax], equals the Debye sum over all pairs within the distance limits with their scattering factors, occupancies, multiplicities and displacement damping "
    "divided by the average scattering factors, with pairs cut only where their contribution is below the Debye precision. Asking for results after limits were changed is safe.",
    quantifier=q("inputs histories", "every Q-limit, site position, occupancy, displacement and factor within the bound"),
    why_tests_cant="Tests sample a few curves of fixed structures and compare calculators that share this code.",
    anchors=A(["BaseDebyeSum.cpp", "DebyePDFCalculator.cpp"],
              [("Q-grid", "BaseDebyeSum.cpp: getQgrid, resetValue, totalQPoints; PDFUtils.cpp: pdfutils_qminSteps, pdfutils_qmaxSteps"),
               ("Debye sum", "BaseDebyeSum.cpp: addPairContribution, getF, cacheStructureData")],
              observe=["BaseDebyeSum::getF", "getQgrid"]),
    bounds="2 sites (isolated, periodic, P-1), up to 12 Q-points, 3 steps, one limit or one parameter symbolic; sin and exp uninterpreted with sound axioms",
    harnesses=[H("debye-grid", "debye.cpp", ["VP_WHAT=0"], ["grid", "pair in range", "pair out of range"]),
               H("debye-values", "debye.cpp", ["VP_WHAT=1"], ["plain", "precision", "range", "xray", "electron", "masked", "width"])])

PROPS["P29"] = dict(
    title="F(Q) and G(r) are sine transforms of each other, also under Q-limits",
    statement="The transformation of a PDF to F(Q) and back reproduces it, each is the sine transform by definition on a power-of-two grid; Q-limits remove exactly the Fourier components outside of [Qmin, Qmax] and "
    "the Debye PDF is the transform of F(Q) interpolated to the requested r-grid, for every grid including its last interval.",
    quantifier=q("inputs", "every sampled function and limit within the bound"),
    why_tests_cant="Tests check a round trip of one function.",
    anchors=A(["PDFUtils.cpp", "PDFCalculator.cpp", "DebyePDFCalculator.cpp"],
              [("transformations", "PDFUtils.cpp: fftftog, fftgtof"),
               ("band filter", "PDFCalculator.cpp: applyBandPassFilter, getExtendedF, getExtendedPDF"),
               ("interpolation of the Debye PDF", "DebyePDFCalculator.cpp: getPDFAtQmin, updateQstep")],
              observe=["fftftog", "fftgtof", "PDFCalculator::getPDF", "DebyePDFCalculator::getPDF"]),
    bounds="grids of up to 8 (16 thorough) points for the pair of transformations, short PDF ranges for the calculators, one value or limit symbolic; the GSL complex FFT is replaced by its definition",
    harnesses=[H("fourier-pair", "fourier.cpp", ["VP_WHAT=0"], ["pair"]),
               H("fourier-pdf", "fourier.cpp", ["VP_WHAT=1"], ["no limits", "qmax", "qmin", "qmin and qmax", "nothing", "first point"]),
               H("fourier-debye", "fourier.cpp", ["VP_WHAT=2"], ["debye", "last interval"])],
    assumptions=["gsl_fft_complex_radix2_inverse computes the unnormalized-by-definition inverse discrete Fourier transform (binary library)"])

PROPS["P21"] = dict(
    title="Scattering factor and radii lookups resolve symbols and custom values",
    statement="A table gives for every symbol (bare, with isotope or valence) the standard value of its source, or the scaled custom value if one is set; unknown symbols and malformed entries are refused without a trace, resets restore the standard value, "
    "each change is noticed by the owner, and the derived formulas (electron factor by Mott-Bethe, electron count, constant neutron length) hold for every Q.",
    quantifier=q("inputs histories", "every Q and custom value within the bound, histories of custom operations and queries"),
    why_tests_cant="Tests look up a handful of values in one order.",
    anchors=A(["ScatteringFactorTable.cpp", "SFTXray.cpp", "SFTElectron.cpp", "SFTElectronNumber.cpp", "SFTNeutron.cpp", "AtomRadiiTable.cpp", "ConstantRadiiTable.cpp", "scatteringfactordata.cpp", "AtomUtils.cpp"],
              [("lookup with custom values", "ScatteringFactorTable.cpp: lookup, setCustomAs, resetCustom, getCustomSymbols"),
               ("sources", "SFT*.cpp: standardLookup, scatteringfactordata.cpp"),
               ("radii", "AtomRadiiTable.cpp: lookup, setCustom, fromString, toString")],
              observe=["ScatteringFactorTable::lookup", "AtomRadiiTable::lookup"]),
    bounds="4 tables, 30 symbol variants, histories of up to 3 operations, Q and custom values symbolic (one at a time)",
    harnesses=[H("sftable", "sftable.cpp", [], ["formulas", "symbols", "custom", "radii", "refused"])])

PROPS["P22"] = dict(
    title="Event order is total, clicks are newest, and restores keep the order",
    statement="Tickers are totally ordered by their events: a new ticker has seen none, a click is newer than every earlier event of any ticker and changes no other ticker, updateFrom gives the newer of the two, "
    "and tickers saved together and restored, in the same process or in one that has counted less far, are still in the saved order and older than every later click. No operation overflows or touches memory out of place.",
    quantifier=q("inputs histories", "every value of the process-wide counter and of three tickers up to it, integers of 64 bits"),
    why_tests_cant="Tests click a few tickers from a counter that starts at zero; carries between the counter words, negative parts and younger processes do not occur in them.",
    anchors=A(["/EventTicker.cpp", "/EventTicker.hpp"],
              [("clicks", "/EventTicker.cpp: click, updateFrom"),
               ("order", "/EventTicker.cpp: operator<, operator==, /EventTicker.hpp"),
               ("archive", "/EventTicker.hpp: serialize")],
              observe=["EventTicker comparison", "EventTicker::value"]),
    bounds="bit-precise: three tickers with arbitrary 64-bit states not newer than the process-wide counter, counter words below 2^32 (quick) or 2^60 (thorough), up to 3 operations, one save and restore with any counter of the restoring process",
    assumptions=["integers are 64-bit vectors; the archive is a stub that keeps the numbers as they are"],
    harnesses=[H("ticker", "ticker.cpp", [], ["order", "click", "update", "same or older process", "younger process"], ir=True, sources=["diffpy/EventTicker.cpp"])])

PROPS["P23"] = dict(
    title="Atom labels give the element symbol and valence they spell",
    statement="For every label the bare symbol is the label without leading isotope number and trailing charge and blanks, loses no letter, is its own symbol and has no valence; the valence is the sign at the end times the one digit before it, "
    "and a label put together from isotope, symbol and charge gives them back. Labels without any letter do no harm.",
    quantifier=q("inputs", "every byte string up to the length bound"),
    why_tests_cant="Tests know a dozen well-formed labels.",
    anchors=A(["AtomUtils.cpp", "AtomUtils.hpp"],
              [("symbol", "AtomUtils.cpp: atomBareSymbol"), ("valence", "AtomUtils.cpp: atomValence")],
              observe=["atomBareSymbol", "atomValence"]),
    bounds="bit-precise: all byte strings of up to 7 (quick) or 11 (thorough) bytes, labels composed of up to 2 (3) isotope characters, 3 (4) letters, charge with a digit 1-8 and a blank",
    assumptions=["C locale", "a trailing 9 is part of the symbol, as the library defines valences 1-8 only"],
    harnesses=[H("label-any", "atomutils.cpp", ["VP_PART=0"], ["symbol", "plain symbol", "no symbol"], ir=True, sources=["diffpy/srreal/AtomUtils.cpp"]),
               H("label-valence", "atomutils.cpp", ["VP_PART=1"], ["charged", "neutral"], ir=True, sources=["diffpy/srreal/AtomUtils.cpp"]),
               H("label-composed", "atomutils.cpp", ["VP_PART=2"], ["composed"], ir=True, sources=["diffpy/srreal/AtomUtils.cpp"])])

PROPS["P26"] = dict(
    title="Invalid settings are refused and leave no trace",
    statement="Every setter that refuses a value (negative limits, non-positive steps and precisions, degenerate lattice vectors, null or unknown components, indices out of range, unsupported evaluators) raises an exception "
    "and leaves all settings, results and change tickers as they were; every valid value is accepted and kept.",
    quantifier=q("inputs", "every value within the bound of each setter"),
    why_tests_cant="Tests check that a few invalid values throw and not what is left behind, nor every valid one.",
    anchors=A(["PDFCalculator.cpp", "DebyePDFCalculator.cpp", "BaseDebyeSum.cpp", "BVSCalculator.cpp", "BondCalculator.cpp", "OverlapCalculator.cpp", "Lattice.cpp", "PairQuantity.cpp", "/validators.hpp"],
              [("refusal", "/validators.hpp: ensureNonNegative, ensureEpsilonPositive, ensureNonNull"),
               ("setters", "PDFCalculator.cpp, DebyePDFCalculator.cpp, BaseDebyeSum.cpp, Lattice.cpp: setLatBase")],
              observe=["setters", "getters", "ticker"]),
    bounds="17 number setters with a value symbolic in -3..0.05 (steps also near zero), 9 groups of object setters, lattice vectors with a symbolic determinant of either sign and degenerate ones",
    harnesses=[H("validators", "validators.cpp", [], ["refused", "accepted", "objects", "refused lattice", "accepted lattice"])])

PROPS["P25"] = dict(
    title="Components are found by type and attributes by name, each independently",
    statement="A registered type and every alias of it create a new independent instance in default state, duplicates and unknown names are refused without any effect, and deregistration removes all names of the type. "
    "Every attribute of a calculator or component reads and writes exactly the parameter it names, no other parameter changes unless derived from it, and read-only, unknown or ambiguous names are refused.",
    quantifier=q("inputs histories", "every attribute value within the bound, histories of registry operations"),
    why_tests_cant="Tests check a few attributes of selected classes and a single deregistration.",
    anchors=A(["/HasClassRegistry.ipp", "/Attributes.cpp", "/Attributes.ipp", "PDFCalculator.cpp", "DebyePDFCalculator.cpp", "ScatteringFactorTable.cpp"],
              [("registry", "/HasClassRegistry.ipp: registerThisType, aliasType, deregisterType, createByType"),
               ("attributes", "/Attributes.cpp: getDoubleAttr, setDoubleAttr, checkAttributeName; accept of each owner")],
              observe=["Attributes", "HasClassRegistry"]),
    bounds="all writable attributes of 5 calculators and 11 components in 12 PDF configurations with a symbolic value; 6 registries with histories of 2 (3 thorough) operations",
    harnesses=[H("attributes", "attributes.cpp", [], ["set", "read-only", "ambiguous", "pdf", "debye", "copies", "alias", "alias refused", "register", "register refused", "deregister all names", "instances"])])

PROPS["P27"] = dict(
    title="A saved and restored object is and stays equal to the original",
    statement="Restoring a serialized structure, component, table or calculator gives the same settings, data and results as the original, whatever state the target of the restore was in and whatever evaluator is used, "
    "and both behave identically afterwards in queries, further evaluations and edits, while being independent of each other.",
    quantifier=q("inputs histories", "every coordinate, occupancy and parameter within the bound, histories before and after the restore"),
    why_tests_cant="Tests restore default-like objects into new ones and compare some members, and never evaluate again.",
    anchors=A(["PairQuantity.hpp", "PQEvaluator.hpp", "PQEvaluator.cpp", "PDFCalculator.hpp", "DebyePDFCalculator.hpp", "BaseDebyeSum.hpp", "BVSCalculator.hpp", "BondCalculator.hpp", "OverlapCalculator.hpp",
               "AtomicStructureAdapter.hpp", "CrystalStructureAdapter.hpp", "Lattice.hpp", "PeakWidthModel.hpp", "PDFEnvelope.hpp", "BVParametersTable.hpp", "ScatteringFactorTable.hpp", "/serialization.ipp", "/EventTicker.hpp"],
              [("serialize methods", "serialize of each class"),
               ("restore of caches and change times", "OverlapCalculator.hpp: serialize; /EventTicker.hpp: load")],
              observe=["serialization_tostring", "serialization_fromstring"]),
    bounds="4 structure kinds with 3 wrappings, 27 component states, 5 calculators with 8-12 configurations, 3 evaluators, 3 kinds of target, histories of up to 2 evaluations before and 1 after; one coordinate or parameter symbolic",
    harnesses=[H("serialize-objects", "serialize.cpp", ["VP_WHAT=0"], ["component", "structure", "table", "wrapped or empty structure"]),
               H("serialize-calculators", "serialize.cpp", ["VP_WHAT=1"], ["restored settings", "restored results", "overlap", "bvs", "bond"]),
               H("serialize-pdf", "serialize.cpp", ["VP_WHAT=2"], ["restored settings", "restored results", "pdf"]),
               H("serialize-debye", "serialize.cpp", ["VP_WHAT=3"], ["restored settings", "restored results", "debye"])])

PROPS["P30"] = dict(
    title="The CHECK evaluator reports every inconsistent fast update and no other",
    statement="An evaluation with the CHECK evaluator fails if and only if the fast update differs from the from-scratch result by more than the round-off allowance for the magnitude of the values, for every supported quantity including bonds; "
    "otherwise the result is that of the from-scratch evaluation.",
    quantifier=q("inputs histories", "every error of the fast update and every site coordinate within the bound"),
    why_tests_cant="Tests check one quantity that is wrong by a large amount and one that is right.",
    anchors=A(["PQEvaluator.cpp"],
              [("comparison of the two evaluations", "PQEvaluator.cpp: PQEvaluatorCheck::updateValue, pqresults, pqresults_bondcalculator")],
              observe=["PairQuantity::eval"]),
    bounds="a faulty quantity with a symbolic error in one of two values at 5 magnitudes; bond, PDF and plain sums over 2-4 sites, 5 x 5 structure changes, 3 masks, one coordinate or factor symbolic",
    harnesses=[H("checkeval", "checkeval.cpp", [], ["checked", "not checked", "accepted", "reported", "basic", "lost value"])])
