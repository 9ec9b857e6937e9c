"""Which translation units decide which property."""

def T(src, name=None, **kw):
    d = {"name": name or src.removesuffix(".cc"), "src": src}
    d.update(kw)
    return d

def groups(src, ids, prefix, **kw):
    return [T(src, f"{prefix}_g{i}", flags=[f"-DSPACE_GROUP={i}"], **kw) for i in ids]

SURF = ["-DMOCK_EXTRA=1"]   # curved surfaces: dimensionworld = dimension+1
def surf(src, name, *flags, **kw): return T(src, name, flags=list(flags) + SURF, **kw)

ALBERTA = ["-DALBERTA_DIM=2", "-DHAVE_ALBERTA=1", "-DHAVE_STDBOOL_H"]
ALBERTA3 = ["-DALBERTA_DIM=3", "-DHAVE_ALBERTA=1", "-DHAVE_STDBOOL_H"]
ALBERTA3_LIBS = ["/opt/dune/venv/lib/libdunealbertagrid3d.a", "-lalberta_3d", "-lalberta_utilities"]
ALBERTA_LIBS = ["/opt/dune/venv/lib/libdunealbertagrid2d.a", "-lalberta_2d", "-lalberta_utilities"]
# workloads of other properties run only for what the sanitizers report
def foreign(specs, prefix, **kw):
    out = []
    for src, name, flags in specs:
        fl = [f for f in flags]; libs = []
        if "ALBERTA" in fl:
            fl.remove("ALBERTA"); fl += ALBERTA; libs = ALBERTA_LIBS
        out.append(T(src, prefix + name, flags=fl, libs=libs, crash_only=True, **kw))
    return out

FOREIGN_SAN = [("p17_containers.cc", "containers", []), ("p20_bspline.cc", "bspline", []), ("p09_erasure.cc", "erasure", []), ("p23_analytic.cc", "analytic", [])] \
    + [("p10_containers.cc", f"cont{i}", [f"-DPART={i}"]) for i in (2, 3)] + [("p16_subdomain.cc", f"sd{i}", [f"-DPART={i}"]) for i in (1, 2)] \
    + [("p15_periodic.cc", "per1", ["-DPART=1"]), ("p19_composition.cc", "comp1", ["-DPART=1"]), ("p19_composition.cc", "comp2", ["-DPART=2"]), ("p18_levels.cc", "lev1", ["-DPART=1", "ALBERTA"]),
       ("p12_subspace.cc", "sub1", ["-DPART=1"]), ("p13_mask.cc", "mask1", ["-DPART=1"]), ("p14_boundary.cc", "bnd_g7", ["-DSPACE_GROUP=7"]), ("p05_interpolate.cc", "interp5", ["-DPART=5"]),
       ("p06_dgbf.cc", "dgbf2", ["-DPART=2"]), ("p08_history.cc", "hist3", ["-DPART=3"]), ("p07_functions.cc", "functions", [])]
FOREIGN_MC = [x for x in FOREIGN_SAN if x[1] in ("containers", "bspline", "erasure", "analytic", "sd1", "per1", "comp1", "lev1", "sub1", "mask1", "interp5")]

RULE = "one distinct state per "

PROPERTIES = {
 "P01": {"tus": groups("p01_index.cc", range(1, 12), "index") + [surf("p01_index.cc", "index_g12", "-DSPACE_GROUP=12")] + [T("p04_lagrange.cc", "lagnodes")]
                + [T("p11_merging.cc", f"tree{i}", flags=[f"-DPART={i}", "-DINDEX_TREE"]) for i in range(1, 6)],
         "rule": "random meshes (mixed element types, random entity numberings, ids, local vertex orders, sizes) x function spaces; a state is one (space, complete multiset of global indices) observation, distinct by hash; trivial (empty) index sets fail the run"},
 "P02": {"tus": groups("p02_localview.cc", range(1, 12), "lv") + [surf("p02_localview.cc", "lv_g12", "-DSPACE_GROUP=12")]
                + [T("p03_inplace.cc", "lvinpl", flags=["-DPART=1"] + ALBERTA, libs=ALBERTA_LIBS)],
         "rule": "random histories of bind/rebind/unbind/copy/move/assign/destroy over a pool of local views; a state is one (operation, trace prefix) at which a view was compared with the model"},
 "P03": {"tus": groups("p03_update.cc", range(1, 11), "upd") + [surf("p03_update.cc", "upd_g12", "-DSPACE_GROUP=12")]
                + [T("p03_inplace.cc", f"inpl{i}", flags=[f"-DPART={i}"] + ALBERTA, libs=ALBERTA_LIBS) for i in range(1, 3)]
                + [T("p03_inplace.cc", "inpl3", flags=["-DPART=3"] + ALBERTA3, libs=ALBERTA3_LIBS)],
         "rule": "chains of update/copy/move/assign between random meshes; a state is the full per-element signature of the basis at a comparison point"},
 "P04": {"tus": [T("p04_conformity.cc", f"conf{i}", flags=[f"-DPART={i}"]) for i in range(1, 7)]
                + [T("p04_conformity.cc", "conf_cube", flags=["-DPART=7", "-DMOCK_FIXED_CUBE"]), T("p04_conformity.cc", "conf_simplex", flags=["-DPART=7", "-DMOCK_FIXED_SIMPLEX"]), T("p04_lagrange.cc", "lagnodes"), surf("p04_lagrange.cc", "lagnodes_surf")],
         "rule": "random meshes with random local vertex orders, numberings, ids and distortion; every interior facet is visited from both sides, a state is one observed (relative facet configuration, pattern of matched local functions)"},
 "P05": {"tus": [T("p05_interpolate.cc", f"interp{i}", flags=[f"-DPART={i}"]) for i in range(1, 7)] + [surf("p05_interpolate.cc", "interp_surf", "-DPART=7")],
         "rule": "random meshes x spaces x random polynomials of the space and random coefficient vectors; a state is one distinct (value of exact function, point) comparison"},
 "P06": {"tus": [T("p06_dgbf.cc", f"dgbf{i}", flags=[f"-DPART={i}"]) for i in range(1, 4)] + [surf("p06_dgbf.cc", "dgbf_surf", "-DPART=4")],
         "rule": "random meshes x bases x random coefficients in several container kinds, evaluated through local, global, copied, owned, shared and type-erased functions; a state is one distinct (function kind, reference value) comparison"},
 "P07": {"tus": groups("p07_shape.cc", (1, 2, 3, 6, 7, 8, 9, 11), "shape") + [T("p07_shape.cc", f"shape_g{i}", flags=[f"-DSPACE_GROUP={i}", "-DSPACES_AFFINE"]) for i in (4, 5, 10)] + [T("p07_functions.cc", "functions"), surf("p07_functions.cc", "functions_surf"), surf("p07_shape.cc", "shape_g12", "-DSPACE_GROUP=12")],
         "rule": "difference quotients exact for polynomials up to degree 6 are compared with every offered derivative at random points of random elements; a state is one distinct vector of difference quotients"},
 "P25": {"tus": [T("p25_rejects.cc", f"rejects{i}", flags=[f"-DPART={i}"]) for i in range(2)],
         "rule": "random meshes with and without unsupported element types, orders, containers and derivative orders; a refusal is required exactly for the unsupported ones and the refusing objects are compared with their state before; a state is one (mesh, request) pair"},
 "P26": {"tus": [T("py/python_bindings.py", "python", mode="python", env={"VF_PYSET": "spaces"})],
         "technique": "monitors in Python on the bindings, whose generated modules are compiled from the working tree with AddressSanitizer",
         "rule": "random grids x trees of spaces described in Python: every size, node and index of every element compared with the merging rules applied to the leaf spaces, functions with explicit sums of shape functions, interpolation with polynomials of the space, boundary and subspace sets with brute force; a state is one observed (space, mesh, index) or (space, mesh, operation)"},
 "P27": {"tus": [T("py/python_bindings.py", "python", mode="python", env={"VF_PYSET": "ownership"})],
         "technique": "AddressSanitizer-instrumented Python modules driven by random object histories with dropped references, reference counting monitors and hostile arguments",
         "rule": "pools of objects obtained from each other (basis, local view, tree, child, finite element, element, grid view, function, local function, array), whose members are dropped at random while the rest is used and compared with the expected values; reference counts before and after; arguments of every wrong kind; a state is one distinct trace prefix or scenario"},
 "P24": {"tus": groups("p24_lfe.cc", range(1, 11), "lfe"),
         "rule": "every bound local finite element of random meshes: all functionals applied to all shape functions, local keys, descriptors; a state is one (space, map from global index to grid entity) observation"},
 "P17": {"tus": [T("p17_containers.cc", "containers")],
         "rule": "random operation histories on each container compared after every operation with std::deque / plain nested indexing, inside guard words; a state is one distinct (operation, content) observation"},
 "P08": {"tus": [T("p08_history.cc", f"hist{i}", flags=[f"-DPART={i}"]) for i in range(1, 5)],
         "rule": "random histories over pools of local functions and their derivatives; after every operation all live objects are compared with the model; a state is one distinct trace prefix (operations and bound elements)"},
 "P09": {"tus": [T("p09_erasure.cc", "erasure")],
         "rule": "random histories of construction, copy, move, assignment, swap, injected copy failures over pools of type-erased objects holding payloads of different size/alignment; a registry of live payload addresses detects double and missing destruction; a state is one distinct trace prefix"},
 "P11": {"tus": [T("p11_merging.cc", f"merge{i}", flags=[f"-DPART={i}"]) for i in range(1, 6)],
         "rule": "random meshes x nestings of static/dynamic power and composite bases with all merging strategies; every global index of every leaf on every element is compared with a model built from the children's stand-alone indices; a state is one complete observed index assignment"},
 "P10": {"tus": [T("p10_containers.cc", f"cont{i}", flags=[f"-DPART={i}"]) for i in range(1, 6)],
         "rule": "random meshes x bases x container types, vectors reused across bases of growing and shrinking size; sizes at every prefix, the address of every entry, write/read-back of every entry and all assignments are compared with plain nested indexing; a state is one (container type, complete index set) observation"},
 "P12": {"tus": [T("p12_subspace.cc", f"sub{i}", flags=[f"-DPART={i}"]) for i in range(1, 3)],
         "rule": "random meshes x product bases x tree paths (static, dynamic, nested): local views compared with the model of the root's indices after every operation of random histories; coefficient accesses of interpolation are logged and compared with the subtree's index set, foreign coefficients hold NaN during evaluation; a state is one distinct prefix of the observed index sequence"},
 "P13": {"tus": [T("p13_mask.cc", f"mask{i}", flags=[f"-DPART={i}"]) for i in range(1, 3)],
         "rule": "random meshes x bases and subspaces x random masks (empty, full, sparse, dense, patterned) in several mask containers; all write accesses to the coefficient vector are logged and compared with the marked set, unmarked entries bitwise; a state is one distinct (basis, mask) pair"},
 "P14": {"tus": groups("p14_boundary.cc", range(1, 11), "bnd") + [surf("p14_boundary.cc", "bnd_g12", "-DSPACE_GROUP=12")],
         "rule": "random meshes x spaces and subspaces: every subentity and intersection of every element; the yielded range is compared with the degrees of freedom whose subentity's vertices lie in the given subentity and, for continuous nodal spaces, with the functions of non-vanishing trace; a state is one distinct prefix of the yielded ranges"},
 "P15": {"tus": [T("p15_periodic.cc", f"per{i}", flags=[f"-DPART={i}"]) for i in range(1, 3)],
         "rule": "random meshes x flat bases x random identification sets (stars, chains, duplicates, reversed, tori) handed over as factory, pre-basis or basis, compared with connected components found by search; user transformations compared with the transformed raw indices; a state is one complete (raw index, index) assignment"},
 "P16": {"tus": [T("p16_subdomain.cc", f"sd{i}", flags=[f"-DPART={i}"]) for i in range(1, 7)] + [surf("p16_subdomain.cc", "sd_surf", "-DPART=3")],
         "rule": "random meshes x random element selections inserted in random order with repetitions; contains, indices, sizes, types, iteration, interfaces, skeletons of every entity compared with the selection; restricted bases compared view by view with the basis on the subdomain; a state is one distinct observed index sequence"},
 "P18": {"tus": [T("p18_levels.cc", f"lev{i}", flags=[f"-DPART={i}"] + ALBERTA, libs=ALBERTA_LIBS) for i in range(1, 4)]
                + [T("p18_levels.cc", "lev4", flags=["-DPART=4"] + ALBERTA3, libs=ALBERTA3_LIBS)],
         "rule": "random uniform and adaptive hierarchies x (raw view, target view) pairs x raw functions (continuous, discontinuous, vector-valued, analytic, composed), by value, by reference, copies, temporaries, type-erased; every point is located in the raw view by brute force and evaluated there; a state is one complete sequence of observed values"},
 "P19": {"tus": [T("p19_composition.cc", f"comp{i}", flags=[f"-DPART={i}"]) for i in range(1, 4)] + [surf("p19_composition.cc", f"comp_surf{i}", f"-DPART={i}") for i in range(1, 4)],
         "rule": "random meshes x callables of many range types / inner functions that log every bind, unbind and evaluation / all facets and random interior points; values compared with direct evaluation of the callables and with the intersections' normals; a state is one distinct observed value sequence"},
 "P23": {"tus": [T("p23_analytic.cc", "analytic")],
         "rule": "random coefficients in all coefficient containers, all derivative orders past the degree, random and special arguments; explicit long double sums (exact for integer coefficients) as oracle; a state is one distinct (function, derivative, value) observation"},
 "P20": {"tus": [T("p20_bspline.cc", "bspline")],
         "rule": "random uniform and user-given knot vectors (very unequal spans included), open or not, orders 0..6, 1-3d; every shape function, first and second derivative on every element compared with a long double Cox-de Boor recursion through its global index; discrete functions and power bases; a state is one complete sequence of observed values"},
 "P22": {"tus": groups("p22_spaces.cc", range(1, 12), "thr", mode="tsan") + [T("p22_functions.cc", "thrfun", mode="tsan")],
         "technique": "ThreadSanitizer plus a bitwise sequential-equivalence oracle on concurrent workloads with injected delays",
         "rule": "2-7 threads share a const basis / function that was never used before, each with own local objects, traversing the elements in private random order with injected yields and sleeps; every result is compared bitwise with a sequential run on an untouched twin; a state is one distinct observed interleaving (relaxed ticket order)"},
 "P21": {"tus": [T("p21_lifetime.cc", f"life{i}", flags=[f"-DPART={i}"]) for i in range(1, 6)] + [T("p21_fecopy.cc", "fecopy")] + [T("p21_lifetime.cc", f"mc_life{i}", flags=[f"-DPART={i}"], mode="memcheck", thorough_only=True) for i in range(1, 6)] + groups("p21_spaces.cc", range(1, 12), "mc", mode="memcheck") + foreign(FOREIGN_SAN, "san_") + foreign(FOREIGN_MC, "mcf_", mode="memcheck"),
         "technique": "AddressSanitizer/UBSan and valgrind memcheck with an allocation-balance monitor and injected exceptions",
         "rule": "bases, functions, backends and views built from temporaries and used after all their sources were destroyed, results compared with objects whose sources live; allocated bytes before and after each scenario have to be equal; exceptions injected at every callback index; every observable number of every space is branched on under memcheck; a state is one scenario with one random history"},
}
