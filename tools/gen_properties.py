#!/usr/bin/env python3
"""Writes properties.jsonl (single source of the property texts)."""
import json, os
B = "dune/functions/functionspacebases/"
G = "dune/functions/gridfunctions/"
C = "dune/functions/common/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          "observe_at": observe, "hook_needed": None}})

prop("P01", "Global basis indices form a complete, consecutive index tree",
 "For every global basis on every grid view, the multi-indices handed out for the local degrees of freedom of all elements form a complete tree without gaps: below every prefix exactly the digits 0..size(prefix)-1 occur, a complete index has size 0 and is never a strict prefix of another one, and dimension() is the number of distinct indices. On each element the tree of local views enumerates every local index exactly once, different local indices get different global indices, and the local size never exceeds maxSize().",
 ["configurations", "inputs"], "all function spaces, orders, nestings and index-merging strategies, on all conforming grids with any mix of element types, entity numberings and local vertex orderings",
 "tests check a few spaces on one structured grid each; 18 basis tests are not even built here for lack of UGGrid, so mixed grids, 3d simplices, RT/BDM/Nedelec/Hermite/Argyris/Morley/Taylor-Hood variants are not reached",
 [B+"defaultglobalbasis.hh", B+"leafprebasismappermixin.hh", B+"lagrangebasis.hh", B+"compositebasis.hh", B+"dynamicpowerbasis.hh", B+"taylorhoodbasis.hh", B+"brezzidouglasmarinibasis.hh"],
 [("DOF layout and mapper based numbering", B+"leafprebasismappermixin.hh"), ("index merging", B+"compositebasis.hh, "+B+"dynamicpowerbasis.hh")],
 ["Basis::size(prefix), Basis::dimension(), LocalView::index(i), LocalView::size()/maxSize()"])

prop("P02", "Local views are independent values that always describe their own element",
 "After any history of binding, rebinding, unbinding, copying, moving, assigning and destroying local views, every bound view reports exactly what a freshly created view bound to the same element reports: element, sizes, global indices and shape functions. No operation on one view, including its destruction, changes what another view reports or makes it access dead memory.",
 ["histories", "configurations"], "all finite histories of operations on any number of local views of any basis",
 "tests bind one view in a single loop; copies are checked only once on the first element and assignment and moves are never exercised",
 [B+"defaultlocalview.hh", B+"nodes.hh", B+"transformedfiniteelementmixin.hh", B+"subspacelocalview.hh"],
 [("deep copy and rebinding of the node tree", B+"defaultlocalview.hh")], ["LocalView bind/unbind/copy/assign, tree(), index()"])

prop("P03", "An updated or copied basis equals a freshly constructed one",
 "After update(gridView) a basis is indistinguishable from a basis newly constructed on that grid view: same grid view, dimension, sizes, indices and shape functions. Copies, moved-to and assigned bases equal their source, and later updates or destruction of one never affect the other.",
 ["histories", "configurations"], "all sequences of update, copy, move and assignment over arbitrary grid views, including in-place grid refinement",
 "tests that call update do so for few spaces on a single refinement, most of them are not built here; copies of bases are never compared",
 [B+"defaultglobalbasis.hh", B+"lagrangebasis.hh", B+"morleybasis.hh", B+"argyrisbasis.hh", B+"cubichermitebasis.hh", B+"raviartthomasbasis.hh", B+"nedelecbasis.hh", B+"bsplinebasis.hh", B+"taylorhoodbasis.hh"],
 [("PreBasis::update", B+"*basis.hh")], ["Basis::update(), copy construction and assignment"])

prop("P04", "Shared indices glue element functions with the promised continuity",
 "Across every interior facet the basis functions identified by equal global indices have the continuity of their space: Lagrange, refined and hierarchical Lagrange and cubic Hermite functions are continuous, Raviart-Thomas and BDM functions have continuous normal component, Nedelec functions continuous tangential component, Argyris functions are C1, Hermite gradients agree at vertices, Morley functions agree at vertices and in edge normal derivatives at midpoints, and Rannacher-Turek/Crouzeix-Raviart functions agree at facet midpoints. A function whose index does not occur on the neighbour has vanishing trace of that kind there.",
 ["inputs", "configurations"], "all conforming meshes with any local vertex order, any entity numbering and ids, all element types and polynomial orders supported by the space",
 "the existing continuity checks run on a few fixed structured grids where facets nearly always have the same relative orientation; most of them are not built here",
 [B+"lagrangebasis.hh", B+"raviartthomasbasis.hh", B+"brezzidouglasmarinibasis.hh", B+"nedelecbasis.hh", B+"cubichermitebasis.hh", B+"argyrisbasis.hh", B+"morleybasis.hh", B+"rannacherturekbasis.hh", B+"refinedlagrangebasis.hh", B+"hierarchicallagrangebasis.hh", B+"globalvaluedlocalfiniteelement.hh"],
 [("face/edge orientation handling and DOF permutation", B+"lagrangebasis.hh: LagrangeFaceDOFPermutation"), ("orientation variants", B+"raviartthomasbasis.hh, nedelecbasis.hh"), ("Piola transforms", B+"globalvaluedlocalfiniteelement.hh")],
 ["shape function values from both sides of each intersection"])

prop("P05", "Interpolation is a projection that reproduces every function of the space",
 "Interpolating a discrete function of the space returns its coefficient vector, and interpolating any polynomial contained in the space gives a discrete function equal to it everywhere, for scalar, vector-valued and tree-valued functions and for any supported coefficient container. Interpolating twice gives the same result as interpolating once and entries are written for every index reached.",
 ["inputs", "configurations"], "all spaces with an interpolation operator, all coefficient vectors and contained polynomials, all meshes",
 "interpolatetest uses one function on one grid for a few spaces; the element-specific interpolation of RT/BDM/Nedelec/Hermite/Argyris/Morley is not tested by any built test",
 [B+"interpolate.hh", B+"globalvaluedlocalfiniteelement.hh", B+"cubichermitebasis.hh", B+"argyrisbasis.hh", B+"morleybasis.hh", B+"bsplinebasis.hh", B+"hierarchicnodetorangemap.hh"],
 [("local interpolation of each leaf and scattering into the container", B+"interpolate.hh")], ["interpolate(basis, coeff, f) followed by evaluation"])

prop("P06", "A discrete function evaluates to the coefficient-weighted sum of shapes",
 "A discrete global basis function evaluated in an element equals, for every leaf of the (sub)tree it represents and the given node-to-range assignment, the sum of coefficient times shape function, using the coefficients addressed by the element's global indices. Evaluation through local functions, through global coordinates and through copies agrees, and later changes of a referenced coefficient vector are seen while an owned copy stays unaffected.",
 ["inputs", "configurations", "histories"], "all bases, subtrees, coefficient containers and range types, all evaluation points",
 "tests compare one or two interpolated functions at quadrature points of a structured grid",
 [G+"discreteglobalbasisfunction.hh", B+"hierarchicnodetorangemap.hh", B+"flatvectorview.hh"],
 [("coefficient lookup and accumulation per leaf", G+"discreteglobalbasisfunction.hh")], ["makeDiscreteGlobalBasisFunction, localFunction, operator()"])

prop("P07", "Derivatives are the derivatives of what is evaluated",
 "Every Jacobian, partial derivative, Hessian and derivative function offered for shape functions, discrete functions and differentiable functions equals the limit of difference quotients of the corresponding value evaluation, in the coordinates the interface promises: global coordinates for grid functions, reference coordinates for shape functions. For vector-valued Piola-mapped elements this is promised on affine elements only, as documented. All ways of obtaining the same derivative agree.",
 ["inputs", "configurations"], "all spaces, elements (affine or not), local points, derivative orders that the interface offers",
 "only few derivative tests exist, on axis-parallel grids, where transposes and inverse Jacobians are indistinguishable",
 [B+"globalvaluedlocalfiniteelement.hh", B+"transformedfiniteelementmixin.hh", B+"cubichermitebasis.hh", B+"argyrisbasis.hh", B+"morleybasis.hh", B+"bsplinebasis.hh", G+"discreteglobalbasisfunction.hh"],
 [("chain rule / Piola transforms", B+"globalvaluedlocalfiniteelement.hh"), ("derivative of discrete functions", G+"discreteglobalbasisfunction.hh")], ["evaluateJacobian, partial, evaluateHessian, derivative(f)"])

prop("P08", "Local functions are values bound to their own element",
 "A local function of any grid function reports bound() exactly after bind, its localContext() is the element it was bound to, and evaluating it gives the grid function's value at that element's point, for every history of bind, rebind, unbind, copy, assignment, move and derivative-taking over several local functions. Derivatives of a bound local function are bound to the same element, and no operation on one object disturbs another.",
 ["histories", "configurations"], "all histories over all grid-function kinds (discrete, analytic, composed, coarse/fine, normal, type-erased)",
 "tests bind each local function once per element in a loop",
 [G+"discreteglobalbasisfunction.hh", G+"analyticgridviewfunction.hh", G+"composedgridfunction.hh", G+"gridviewfunction.hh", G+"facenormalgridfunction.hh", C+"localfunction.hh"],
 [("bind/unbind/bound/localContext protocol", C+"localfunction.hh and the LocalFunction classes")], ["localFunction(f), bind, unbind, bound, localContext, operator(), derivative"])

prop("P09", "Type-erased functions behave like independent copies of what they hold",
 "A type-erased differentiable function, local function, grid function or grid-view function gives the same results as the object it was constructed from, is independent of that object and of its own copies, and releases exactly what it acquired. This holds for any stored object size, empty (default-constructed) wrappers, self-copy-assignment, moves, reassignment between different stored types and stored objects whose copy operations throw (a failed assignment leaves the target empty or with its old value).",
 ["histories", "fault_sequences"], "all operation histories over wrappers holding objects of any size and any throwing behaviour",
 "tests construct a wrapper and call it; copies of empty wrappers, reassignment, moves and throwing copies are not covered",
 [C+"polymorphicsmallobject.hh", C+"typeerasure.hh", C+"differentiablefunction.hh", C+"localfunction.hh", G+"gridfunction.hh", G+"gridviewfunction.hh"],
 [("small-buffer ownership", C+"polymorphicsmallobject.hh"), ("virtual dispatch", C+"typeerasure.hh")], ["wrapper construction, copy, move, assignment, call, destruction"])

prop("P10", "Coefficient containers match the basis and address every degree of freedom",
 "A container created for or resized to a basis (vector backends, container factories, container descriptors) has exactly the hierarchical sizes size(prefix) reports, every multi-index of the basis addresses its own distinct entry, and reading back what was written through an index gives that value with all other entries unchanged. Whole-vector assignments through a backend affect the wrapped vector, entry by entry.",
 ["configurations", "inputs"], "all bases and index-merging strategies x container kinds (flat, blocked, nested, hybrid), any previous container content or size",
 "tests use a handful of hand-picked combinations",
 ["dune/functions/backends/istlvectorbackend.hh", "dune/functions/backends/istlvectorfactory.hh", "dune/functions/backends/containerfactory.hh", B+"containerdescriptors.hh", C+"indexaccess.hh"],
 [("recursive resize and multi-index access", "dune/functions/backends/istlvectorbackend.hh"), ("descriptor construction for merged bases", B+"containerdescriptors.hh")], ["istlVectorBackend(v).resize(basis), v[multiIndex], makeISTLVector, makeContainer, containerDescriptor(preBasis)"])

prop("P11", "Index-merging strategies produce the documented numbering",
 "For power bases with a compile-time or run-time number of components and for composite bases, each strategy numbers degrees of freedom as documented from the children's indices: blocked-lexicographic prepends the component, flat-lexicographic adds the sizes of preceding components to the first digit, blocked-interleaved appends the component, flat-interleaved turns the first digit i into i*k+component. size(prefix) and dimension are those of the resulting index tree, for any nesting.",
 ["configurations"], "all nestings of strategies over child bases with any index-tree shape, any number of components",
 "tests check consistency but hardly ever compare with the documented numbering, and only for shallow nestings",
 [B+"compositebasis.hh", B+"powerbasis.hh", B+"dynamicpowerbasis.hh", B+"basistags.hh", B+"concepts.hh"],
 [("strategy-specific index rewriting", B+"dynamicpowerbasis.hh, "+B+"compositebasis.hh")], ["LocalView::index vs index of child basis"])

prop("P12", "A subspace basis is exactly the addressed subtree of its root basis",
 "The local view of a subspace basis exposes exactly the addressed subtree of the root basis' local view with the root's indices and sizes, for any tree path and for subspaces of subspaces. Interpolating into or evaluating through a subspace basis touches exactly the coefficients of that subtree and leaves all others unchanged.",
 ["configurations", "inputs"], "all tree paths (static and dynamic) in all bases, all coefficient vectors",
 "subspacebasistest is not built here; other tests use one fixed path",
 [B+"subspacebasis.hh", B+"subspacelocalview.hh", B+"interpolate.hh", G+"discreteglobalbasisfunction.hh"],
 [("prefix path handling", B+"subspacebasis.hh")], ["subspaceBasis(basis, path), localView, interpolate, makeDiscreteGlobalBasisFunction"])

prop("P13", "Masked interpolation writes exactly the marked entries",
 "Interpolation restricted by a bit vector changes exactly the coefficients marked true and leaves every other entry bitwise unchanged, and the entries written are those of the unmasked interpolation. This holds for any mask container that mirrors the coefficient hierarchy and for subtrees.",
 ["inputs", "configurations"], "all masks, previous contents, bases and containers",
 "tests use one mask on one grid", [B+"interpolate.hh"],
 [("bit vector lookup during scattering", B+"interpolate.hh")], ["interpolate(basis, coeff, f, bitVector)"])

prop("P14", "Boundary and subentity degrees of freedom are exactly the attached ones",
 "forEachBoundaryDOF visits, and subEntityDOFs yields, exactly the degrees of freedom whose associated subentity is contained in the boundary or in the given facet or subentity: none is missed, none is foreign, and duplicates within one subentity do not occur. Local, local-view and global-index variants name the same degrees of freedom, also for subspaces and product bases.",
 ["inputs", "configurations"], "all meshes, element types, bases, subentities of every codimension, callback signatures",
 "boundarydofstest checks indicators on one cube grid", [B+"boundarydofs.hh", B+"subentitydofs.hh"],
 [("containment test via reference element and local keys", B+"subentitydofs.hh")], ["forEachBoundaryDOF, subEntityDOFs"])

prop("P15", "Periodic and transformed indices glue exactly the requested degrees of freedom",
 "In a periodic basis two degrees of freedom share an index exactly if they are connected by the requested identifications (their transitive closure) and the resulting indices are complete and consecutive with matching size, dimension and container description. A basis with user-supplied index transformation hands out exactly the transformed indices and the supplied sizes.",
 ["inputs", "configurations"], "all sets of identified pairs in any order, all raw bases and transformations, basis updates",
 "one test with one fixed set of pairs each", [B+"periodicbasis.hh", B+"transformedindexbasis.hh"],
 [("pair set to consecutive renumbering", B+"periodicbasis.hh"), ("index transformation", B+"transformedindexbasis.hh")], ["LocalView::index of periodic/transformed basis vs raw basis"])

prop("P16", "Subdomains and restricted bases see exactly the chosen elements",
 "A subdomain contains exactly the inserted elements and their subentities, with consecutive zero-starting indices per geometry type, iterates each contained element once and reports the intersections of the host grid view. The interface of two subdomains visits exactly once each intersection with inside in the first and outside in the second, and the skeleton exactly those with both sides inside. A basis of any space restricted to a subdomain has no degrees of freedom outside and is inside identical to the basis built on the subdomain's grid view.",
 ["inputs", "histories", "configurations"], "all subsets of elements in any insertion order, all meshes and restricted bases, including nesting in product bases",
 "restrictedprebasistest is not built; subdomain tests use one half-plane on one structured grid",
 [C+"subdomain.hh", B+"restrictedbasis.hh"],
 [("subdomain index set", C+"subdomain.hh"), ("empty nodes outside", B+"restrictedbasis.hh")], ["SubDomain::insertElement, gridView(), indexSet, restrict(...) basis local views"])

prop("P17", "Small containers and index access behave like their standard models",
 "Under every operation history the fixed-capacity containers, multi-indices, vector views and index-access helpers behave like the corresponding standard containers or plain nested indexing: same sizes, same elements in the same order, same comparison and iteration results. Operations within the documented capacity never touch memory outside the container.",
 ["histories", "inputs"], "all operation histories within capacity, all nested containers with static/dynamic sizes and any multi-index",
 "tests exercise a few fixed sequences", [C+"overflowarray.hh", C+"reserveddeque.hh", C+"multiindex.hh", C+"indexaccess.hh", B+"flatvectorview.hh", C+"densevectorview.hh", B+"flatmultiindex.hh"],
 [("array-backed storage with overflow", C+"overflowarray.hh"), ("static/dynamic index dispatch", C+"indexaccess.hh")], ["public container interface"])

prop("P18", "Functions moved between refinement levels keep their values",
 "A coarse-grid function used on a finer grid view and a fine-grid function used on a coarser one have, at every point of every element of the new entity set, the value (and derivative) of the original function at the same global point. Geometries of descendants in ancestors map consistently for any number of levels, and all of this holds for copies, moves and temporaries.",
 ["inputs", "configurations", "histories"], "all refinement hierarchies (uniform and adaptive), level/leaf view pairs, elements and points",
 "coarsefinegridfunctiontest is not built here (UGGrid missing)", [G+"coarsefunctiononfinegridview.hh", G+"finefunctiononcoarsegridview.hh", C+"geometryinancestor.hh"],
 [("chain of geometryInFather", C+"geometryinancestor.hh"), ("child search", G+"finefunctiononcoarsegridview.hh")], ["local function values on coarse and fine elements"])

prop("P19", "Analytic, composed and normal grid functions evaluate what they are built from",
 "An analytic grid function equals its callable at the global coordinate of each point, a composed grid function equals the outer callable applied to the values of all inner functions on the same element and point, and the facet normal function returns at every point of a facet the unit outer normal of that facet and inside an affine element that of the facet closest in reference coordinates. Derivatives, entity sets and bind/unbind are forwarded to every constituent.",
 ["inputs", "configurations"], "all callables, range types, numbers of inner functions, grids and points",
 "one sample function per test; facenormalgridfunctiontest is not built here", [G+"analyticgridviewfunction.hh", G+"composedgridfunction.hh", G+"facenormalgridfunction.hh", G+"gridviewentityset.hh", C+"differentiablefunctionfromcallables.hh"],
 [("evaluation in global coordinates", G+"analyticgridviewfunction.hh"), ("component-wise binding", G+"composedgridfunction.hh")], ["operator() of grid and local functions"])

prop("P20", "B-spline bases equal the Cox-de Boor splines of their knot vectors",
 "On every structured grid the B-spline shape functions with their global indices are exactly the tensor products of the Cox-de Boor B-splines of the given knot vector and order: values, first and second derivatives, local support, sizes and partition of unity. This holds for uniform and user-given knot vectors, open or not, any order per direction.",
 ["inputs", "configurations"], "all knot vectors, orders, dimensions, grid sizes and evaluation points",
 "bsplinebasistest uses uniform open knots and a few orders, and compares derivatives with finite differences at few points", [B+"bsplinebasis.hh"],
 [("recursive evaluation and tensor-product combination", B+"bsplinebasis.hh")], ["evaluateFunction/Jacobian/partial, LocalView::index, size()"])

prop("P21", "No use of dead, foreign or uninitialised memory in supported usage",
 "Factories, bases, local views, grid functions, backends and views may be created from temporaries, copied, moved, stored in containers and outlive the objects the interface does not require to be kept: no supported usage reads freed, out-of-scope, out-of-bounds or uninitialised memory or performs undefined arithmetic. Objects that are destroyed release everything they own exactly once.",
 ["programs", "histories"], "all programs using the public interface within documented lifetimes",
 "the test suite is not run with sanitizers and keeps everything alive in main()",
 [B+"bsplinebasis.hh", G+"discreteglobalbasisfunction.hh", G+"coarsefunctiononfinegridview.hh", C+"geometryinancestor.hh", C+"polymorphicsmallobject.hh", B+"flatvectorview.hh"],
 [("ownership by value or shared pointer", "throughout")], ["sanitizer reports, allocation balance"])

prop("P22", "Const bases and functions can be shared by threads with own local objects",
 "Threads that share a const basis, const coefficient vector or const grid function, each using local views and local functions of its own, produce exactly the results of a sequential run and never perform conflicting unsynchronised accesses.",
 ["schedules"], "all interleavings of any number of threads traversing elements",
 "no test uses threads", [B+"defaultglobalbasis.hh", B+"defaultlocalview.hh", G+"discreteglobalbasisfunction.hh", B+"transformedfiniteelementmixin.hh", B+"bsplinebasis.hh"],
 [("no mutable shared state below const interfaces", "throughout")], ["concurrent traversal"])

prop("P23", "Built-in analytic functions and their derivatives are exact",
 "Polynomials with any coefficient container, trigonometric functions and monomial sets evaluate to their mathematical definition, and the derivative objects they return, to any order, are the exact derivatives of those functions. Monomial sets contain each monomial up to the maximal order exactly once in the documented order.",
 ["inputs", "configurations"], "all coefficients, degrees, dimensions, derivative orders and arguments",
 "tests sample a few polynomials at a few points", ["dune/functions/analyticfunctions/polynomial.hh", "dune/functions/analyticfunctions/monomialset.hh", "dune/functions/analyticfunctions/trigonometricfunction.hh"],
 [("coefficient recurrences", "dune/functions/analyticfunctions/")], ["operator(), derivative()"])

prop("P24", "Local finite elements are unisolvent and dual to their degrees of freedom",
 "On every element, the degrees of freedom of each bound local finite element applied to its own shape functions give the identity matrix, the shape functions span the full polynomial space the element promises and are linearly independent, and each degree of freedom is attached to exactly one subentity by a unique local key, the same number on each shared subentity from either side. Where functional descriptors are offered they describe the functional that is actually evaluated.",
 ["inputs", "configurations"], "all elements of all meshes (any shape, orientation), all spaces",
 "the local finite element checks of the test suite run for few spaces, most of these tests are not built here", [B+"globalvaluedlocalfiniteelement.hh", B+"cubichermitebasis.hh", B+"argyrisbasis.hh", B+"morleybasis.hh", B+"functionaldescriptor.hh", B+"lfeprebasismixin.hh"],
 [("localInterpolation, localCoefficients, localBasis of each node", B+"*basis.hh")], ["finiteElement() of leaf nodes"])
prop("P25", "Unsupported requests are refused by an exception, never silently mis-handled",
 "Constructing a basis on a mesh containing element types its space is not implemented for (Lagrange of order above 2 on prisms or pyramids and of an order above the supported maximum in 3D, a compile-time order combined with a run-time order, Raviart-Thomas of order above 0 and Brezzi-Douglas-Marini on meshes with several element types, Nedelec and Rannacher-Turek on prisms or pyramids, hierarchical, bubble and refined Lagrange and Argyris on non-simplices), updating a basis to a mesh with such element types, asking for derivatives that do not exist (partial derivatives beyond the implemented order, derivatives of derivatives of discrete functions, of composed, normal or plain functions, third B-spline derivatives, more derivatives than callables were supplied, also through type erasure), interpolating B-splines, resizing coefficient vectors whose static shape does not fit the basis and building containers from unknown descriptors all throw a Dune exception; the corresponding supported requests never do. A leaf or power basis (Argyris excepted) whose update was refused, and any function or local finite element that refused a request, behaves afterwards exactly as before, and can still be used and updated.",
 ["inputs", "histories", "configurations"], "all meshes with any mix of element types, all orders, sequences of accepted and refused updates, nestings of bases, container shapes and derivative orders",
 "the existing tests only make supported requests; none triggers a refusal or looks at the state afterwards",
 [B+"lagrangebasis.hh", B+"raviartthomasbasis.hh", B+"brezzidouglasmarinibasis.hh", B+"nedelecbasis.hh", B+"rannacherturekbasis.hh", B+"hierarchicallagrangebasis.hh", B+"refinedlagrangebasis.hh", B+"argyrisbasis.hh", B+"cubichermitebasis.hh", B+"morleybasis.hh", B+"bsplinebasis.hh", C+"differentiablefunctionfromcallables.hh", C+"differentiablefunction_imp.hh", G+"discreteglobalbasisfunction.hh", "dune/functions/backends/istlvectorbackend.hh", "dune/functions/backends/containerfactory.hh"],
 [("type and order checks in the constructors and in update()", B+"*basis.hh"), ("derivative of missing derivatives", C+"differentiablefunction_imp.hh")],
 ["makeBasis, Basis::update, derivative(), partial(), ISTLVectorBackend::resize"])

prop("P26", "Bases created from Python are the spaces their description says",
 "For every description of a space in Python (Lagrange, Raviart-Thomas, Nedelec, and powers and composites of them nested in any way, blocked or flat, lexicographic or interleaved) and every grid, defaultGlobalBasis returns a basis whose dimension, size, prefix sizes, local sizes, tree of nodes, local indices and global indices are those of the C++ basis with that description, i.e. the documented index merging of the indices of its leaf spaces. Assigning gridView gives the basis of the new grid view. Discrete functions made by asFunction evaluate to the sum of coefficients times shape functions for any coefficient array (strided, reversed, changed later), interpolation reproduces the functions of the space and writes exactly the coefficients of the basis (of the subtree for a subspaceBasis), forEachBoundaryDOF reports exactly the degrees of freedom on the boundary, and exceptions of user callables arrive unchanged. Descriptions the library does not support are refused.",
 ["inputs", "configurations"], "all trees of spaces, grids, coefficient arrays, points and functions",
 "the Python tests create a few bases on one grid and mostly look at sizes only",
 ["dune/python/functions/globalbasis.hh", "dune/python/functions/tree.hh", "dune/python/functions/interpolate.hh", "dune/python/functions/discretefunction.hh", "dune/python/functions/hierarchicvectorwrapper.hh", "dune/python/functions/subspacebasis.hh", "python/dune/functions/globalbasis.py", "python/dune/functions/tree.py", "python/dune/functions/subspacebasis.py", "python/dune/functions/boundarydofs.py"],
 [("registerBasisType", "dune/python/functions/globalbasis.hh"), ("preBasisTypeName", "python/dune/functions/globalbasis.py")],
 ["defaultGlobalBasis, subspaceBasis, forEachBoundaryDOF, Basis.interpolate, Basis.asFunction"])
prop("P27", "Python objects stay valid while referenced, and bad arguments are refused",
 "Every object obtained from another one through the Python bindings (local view from a basis, tree and children and finite elements and element from a local view, grid view and functions from a basis, local function, basis and grid from a function, nested subspace bases) can be used as long as it is referenced, no matter in which order the objects and arrays it came from are dropped; nodes obtained earlier refer to the current binding of their local view and local views are independent of each other. Nothing is kept alive longer than needed: unbinding or dropping a local view releases its element, dropping functions and bases releases arrays, callables and bases. Coefficient arrays of the wrong size, shape or element type, read-only arrays and objects that are no arrays, callables with unusable results and arguments of the wrong type raise an exception, without reading or writing out of bounds, and never make an operation silently write its result elsewhere; afterwards the objects work as before.",
 ["histories", "inputs"], "all orders of creating, using, rebinding and dropping objects; all argument types and array layouts",
 "no test of the bindings drops an object others depend on, runs with memory checking, or passes an invalid argument",
 ["dune/python/functions/globalbasis.hh", "dune/python/functions/tree.hh", "dune/python/functions/interpolate.hh", "dune/python/functions/discretefunction.hh", "dune/python/functions/hierarchicvectorwrapper.hh", "dune/python/functions/subspacebasis.hh"],
 [("keep_alive policies and ownership in LocalViewWrapper", "dune/python/functions/globalbasis.hh"), ("tree nodes", "dune/python/functions/tree.hh")],
 ["Basis.localView, LocalView.bind/unbind/tree/element, Tree.child/finiteElement, Basis.asFunction, Basis.interpolate, Basis.gridView"])


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
