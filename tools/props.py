import json
G='dune/geometry/'
P=[]
def add(id,title,st,over,qt,why,files,mech,obs,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs; a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

add("T01","Geometry type labels: equality, order, ids and predicates agree",
"Two geometry type labels are equal exactly when they denote the same dimension and the same shape (the two codes of a line or point denote one shape; two shapeless labels are equal exactly when their dimensions are), and the strict order, inequality, printed text and the id round trip are all consistent with that equality. Every predicate on a label of a shape (vertex, line, triangle, quadrilateral, tetrahedron, pyramid, prism, hexahedron, simplex, cube, conical, prismatic, none) is true exactly for the shapes obtained by the corresponding sequence of cone/prism extensions. The named constructors and the cone and prism extensions produce the label their name says, in every dimension.",
["inputs"],"all labels of dimension 0..8 and generated ones up to dimension 20 (every topology code, and the shapeless label), in pairs and triples, reached through constructors, extensions and id round trips",
"Unit tests look at the hand-named shapes of dimension <= 3/4 one at a time; they never compare arbitrary pairs, so order/equality disagreements and high-dimensional predicate errors are invisible.",
[G+"type.hh"],[("topology id bit arithmetic, comparison operators",G+"type.hh GeometryType"),("named constructors",G+"type.hh namespace GeometryTypes"),("output operator",G+"type.hh operator<<")],
["GeometryType public members","std::set / std::map behaviour","operator<< text"])

add("T02","Geometry type indices are gap-free bijections",
"Within a dimension the local index numbers all geometry types, the shapeless one included, consecutively from zero without collision, and the global index does the same across all dimensions up to a given one, lower dimensions first. Converting an index back to a type returns the type it came from, sizes equal the number of distinct types, and equal types always have equal indices. All of this also holds when evaluated as compile-time constants.",
["inputs"],"all types of dimensions 0..12 and all indices within the reported sizes",
"The existing test walks a few dimensions checking only that index(type(i)) == i; it says nothing about completeness, collisions, order between dimensions, or types written with the alternative code.",
[G+"typeindex.hh"],[("regular/irregular size and offset formulas",G+"typeindex.hh LocalGeometryTypeIndex, GlobalGeometryTypeIndex")],
["LocalGeometryTypeIndex::index/type/size","GlobalGeometryTypeIndex::index/size/offset"])

add("T03","Dimension and vertex count identify the shape",
"For every dimension up to three, the shape deduced from a vertex count is the unique shape of that dimension having that many corners. In two and three dimensions a count matching no shape, and in higher dimensions any count, is rejected with an exception and never yields a label.",
["inputs"],"dimensions 0..3 with every count 0..40 and huge counts; dimensions above three",
"The test enumerates the nine valid pairs and a single invalid one.",
[G+"utility/typefromvertexcount.hh"],[("table of vertex counts",G+"utility/typefromvertexcount.hh geometryTypeFromVertexCount")],
["returned label or exception"])

add("T04","Factories over type labels build and keep the right objects",
"A factory over type labels builds, for a label and a key, an object made for exactly that label's shape and that key, whether the label is given at run time or at compile time, and hands out a new object on every request that lives until it is released. Its storing variant builds one object per label (written with the same code) and key, returns that same object on every later request by either way of asking, never gives one object to two different labels or keys, and keeps it alive when it is released. No order of requests changes this.",
["inputs","histories"],"every label of dimension 0..5 in both codes; programs of up to 24 requests and releases by run-time and compile-time label on both factories; two key types, 1, 3 or 8 keys",
"No test includes the factories at all.",
[G+"topologyfactory.hh",G+"typeindex.hh"],
[("run-time to compile-time dispatch",G+"typeindex.hh toGeometryTypeIdConstant"),("storage of built objects",G+"topologyfactory.hh TopologySingletonFactory")],
["objects returned by create","number of objects alive"],state=[("storage_","one array of owned objects per key, indexed by topology code",G+"topologyfactory.hh TopologySingletonFactory")])

add("R01","Sub-entity numbering follows the documented recursive construction",
"For every topology the number of sub-entities of each codimension, their types and the numbers of the sub-sub-entities inside the element are the ones obtained from the documented recursion (extruded sub-entities of the base first, then bottom, then top; for cones bottom first, then cones over the base's sub-entities). Looking up a sub-sub-entity through any intermediate sub-entity gives the same set of corners, and the range of sub-entity numbers and its membership test agree with the single-number queries. Sizes and numberings are the same for every coordinate number type.",
["inputs","configurations"],"every topology of dimension 0..6, all pairs (codim, sub-entity), all deeper codimensions; float, double, long double",
"Tests compare a few dozen hand-written numbers of 3d elements; the full incidence structure (thousands of entries, 4d and above) is never compared with an independent model.",
[G+"referenceelementimplementation.hh",G+"referenceelementimplementation.cc",G+"referenceelement.hh"],
[("recursive size/subTopologyNumbering",G+"referenceelementimplementation.cc"),("SubEntityInfo numbering table and membership bitset",G+"referenceelementimplementation.hh SubEntityInfo"),("SubEntityRange",G+"referenceelementimplementation.hh SubEntityRangeIterator")],
["ReferenceElement::size/subEntity/subEntities/type"],state=[("numbering_/offset_","flattened table of sub-sub-entity numbers per codimension",G+"referenceelementimplementation.hh SubEntityInfo"),("containsSubentity_","bitset answering membership in constant time",G+"referenceelementimplementation.hh SubEntityInfo")])

add("R02","Reference element positions, volumes and embeddings are geometrically right",
"In every reference element the corners are those of the documented recursion, the position of each sub-entity is the mean of its corners and lies inside the element, and the volume is the volume of the convex hull of the corners. The embedding of each sub-entity maps the sub-entity's own reference corners, in their own numbering, onto the element's corners with the numbers reported for that sub-entity, and is affine or multilinear in between. Embeddings obtained with a static or dynamic codimension agree.",
["inputs"],"every topology of dimension 0..7 (to 7 in double precision), every sub-entity of every codimension, generated local points in the sub-entity; float, double, long double",
"Tests check position/embedding only for dimension <= 3 codim consistency and a handful of volumes, and never evaluate embeddings at arbitrary points against an independent map.",
[G+"referenceelementimplementation.hh",G+"referenceelementimplementation.cc"],
[("referenceCorners, referenceVolume, referenceEmbeddings",G+"referenceelementimplementation.cc"),("barycenter accumulation, geometry table",G+"referenceelementimplementation.hh ReferenceElementImplementation::initialize, CreateGeometries")],
["ReferenceElement::position/volume/geometry<codim>"])

add("R03","Facet normals point outward and satisfy the divergence theorem",
"For every reference element and facet the integration outer normal is perpendicular to that facet, points away from the element, and has length equal to the facet's volume divided by the volume of the facet's own reference element. Hence, for every polynomial vector field, summing facet integrals of the field against these normals equals the volume integral of the divergence.",
["inputs"],"every topology of dimension 1..6 (integrals to 5), generated polynomial vector fields; float, double, long double",
"The existing test checks that the normals sum to zero, which is blind to swapped opposite normals, wrong facet association and compensating length errors.",
[G+"referenceelementimplementation.cc",G+"referenceelementimplementation.hh"],
[("referenceIntegrationOuterNormals from face origins",G+"referenceelementimplementation.cc")],
["ReferenceElement::integrationOuterNormal"])

add("R04","Inside tests of reference elements decide convex hull membership",
"A point is reported inside a reference element exactly when it lies in the convex hull of its corners, except within a rounding-size band around the boundary; all corners, sub-entity positions and convex combinations of corners are inside, and points clearly beyond any facet are outside. This holds for every topology, number type and for points arbitrarily far away.",
["inputs"],"every topology of dimension 0..6; points generated as convex combinations, points near facets/edges/corners on both sides at distances from 1e-3 of the rounding unit upward, and far away points",
"Tests probe the single barycentre/corner positions; outside points and points close to lower dimensional faces are not tried.",
[G+"referenceelementimplementation.hh"],[("recursive checkInside with tolerance and scaling factor",G+"referenceelementimplementation.hh checkInside")],
["ReferenceElement::checkInside"])

add("R05","All ways of obtaining a reference element yield the same object",
"For a given number type, dimension and type label (written with the same code), asking for its reference element through the general lookup, the simplex/cube shortcuts, the free function with a type, a dimension tag or a geometry, or by iterating over all of them gives values that compare equal and hash equal, and reference elements of different shapes compare unequal. The element returned reports the type asked for, and sub-entity types looked up again give an element with matching sizes. Copies and default-constructed/assigned values behave like values.",
["histories","inputs"],"generated sequences of look-ups, copies, assignments and comparisons over all shapes of dimension 0..6; several number types",
"The tests ask for each shape once and in one way.",
[G+"referenceelements.hh",G+"referenceelement.hh"],[("static container of implementations, transitional lookup free functions",G+"referenceelements.hh ReferenceElementContainer, referenceElement()")],
["ReferenceElements::general/simplex/cube/begin/end","referenceElement(...)","operator==, hash"],state=[("values_","one implementation object per topology id",G+"referenceelements.hh ReferenceElementContainer")])

add("G01","Multilinear geometries interpolate their corners",
"For every shape, world dimension and corner placement, the corner-based geometry maps each local point to the value of the shape's (multi)linear interpolant of the given corners: reference corners go to the given corners in order, and the map is linear along extrusion directions and towards cone tips; where this map is a polynomial, its values outside of the element are reported as well. Number of corners, each corner, type and centre (image of the reference barycentre) agree with that map. The result is the same whether corners are handed over as a vector, an array or referenced storage.",
["inputs"],"all shapes of dimension 0..5, world dimension up to dim+2, corners generated from random, degenerate-free, nearly flat, sheared and translated families, local points inside, on the boundary and (where the map is polynomial) outside; float, double, long double",
"Tests use affine images of reference elements (plus one fixed perturbed element), so terms that vanish for affine corner sets, higher dimensions and most shapes are never exercised.",
[G+"multilineargeometry.hh"],[("recursive global()",G+"multilineargeometry.hh MultiLinearGeometry::global")],
["MultiLinearGeometry::global/corner/corners/center/type"])

add("G02","Jacobians, their inverses and integration elements match the map",
"For every geometry built from corners the reported Jacobian is the derivative of the reported global map, the transposed and inverse versions are its transpose and its (left pseudo-) inverse, and the integration element is the square root of the determinant of the Gram matrix. These identities hold at every local point at which the map is differentiable and of full rank, for all shapes, dimensions and number types.",
["inputs"],"all shapes of dimension 1..5, world dimension up to dim+2, generated corner sets with bounded conditioning, generated interior points",
"The generic geometry checker tests only the mutual consistency of the reported matrices at quadrature points of affine elements, not that they are the derivative of the map.",
[G+"multilineargeometry.hh",G+"affinegeometry.hh"],[("recursive jacobianTransposed, pyramid special case near the tip",G+"multilineargeometry.hh"),("FieldMatrixHelper rightInvA/sqrtDetAAT",G+"affinegeometry.hh")],
["jacobian, jacobianTransposed, jacobianInverse, jacobianInverseTransposed, integrationElement"])

add("G03","Local coordinates invert the global map",
"For every valid (non-degenerate) corner-based geometry and every local point of the reference element, mapping to the world and back returns the point; for world points off a lower dimensional geometry's image the result is the local minimiser of the distance, in particular the orthogonal projection for affine maps. The mean of local barycentre and centre agree in both directions and no such query fails to return.",
["inputs"],"all shapes of dimension 0..5, world dimension up to dim+2, moderately distorted corner sets with positive integration element, points inside and on the boundary, normal offsets",
"Tests try the centre and the corners of nearly affine elements.",
[G+"multilineargeometry.hh",G+"affinegeometry.hh"],[("Newton iteration started at the barycentre",G+"multilineargeometry.hh MultiLinearGeometry::local"),("pseudo-inverse",G+"affinegeometry.hh")],
["local(global(x))"])

add("G04","Caching and copying never change what a geometry answers",
"A geometry that caches Jacobians answers every query like the uncached one (up to rounding) built from the same corners, in any order and number of queries, before and after being copied, assigned or moved, and a geometry never answers from another geometry's cached data. A geometry reports itself affine exactly when its map is affine (up to rounding), in which case Jacobian and integration element are constant.",
["histories","inputs"],"generated sequences of queries, copies, assignments and moves over a pool of cached and uncached geometries of all shapes of dimension 1..4 with affine, nearly affine and non-affine corners",
"State that depends on the order of previous calls (lazily computed inverse, integration element, affine flag) can only be reached by histories; tests call each method in one fixed order on fresh objects.",
[G+"multilineargeometry.hh"],[("lazy cache flags",G+"multilineargeometry.hh CachedMultiLinearGeometry"),("affine detection",G+"multilineargeometry.hh MultiLinearGeometry::affine")],
["all query methods of cached/uncached geometries, affine()"],state=[("affine_, jacobianInverseTransposedComputed_, integrationElementComputed_","validity flags of lazily cached data",G+"multilineargeometry.hh CachedMultiLinearGeometry")])

add("G05","Affine geometries represent x -> b + A x consistently",
"An affine geometry built from an origin and Jacobian, or from corners, has the stated affine map: corners are the images of the reference corners, the Jacobian is constant and equal to the given one, volume is the reference volume times the integration element, the centre is the image of the barycentre, and the local coordinate is the least-squares inverse. Both ways of construction and every way of naming the shape agree with each other and with the corner-based multilinear geometry of the same corners.",
["inputs"],"all shapes (Jacobian construction) and simplices (corner construction) of dimension 0..5, world dimension up to dim+2, generated well-conditioned matrices and origins of varied scale; float, double, long double",
"Tests instantiate the unit reference element maps and a few fixed matrices.",
[G+"affinegeometry.hh"],[("constructor computing pseudo-inverse and integration element together",G+"affinegeometry.hh AffineGeometry"),("matrix helper",G+"affinegeometry.hh FieldMatrixHelper")],
["AffineGeometry public interface"])

add("G06","Axis-aligned cube geometries equal the general cube geometry",
"An axis-aligned cube, given by two opposite corners or a corner pair with a set of active axes, a single point, answers every query (corners and their order, global, local, centre, volume, integration element, Jacobians and inverses, affinity) like the general cube geometry with the same corners. Copies and assignments preserve the answers. Lower-dimensional boxes in higher-dimensional space span exactly the active axes.",
["inputs","histories"],"dimension 0..4 in world dimension up to 4, every subset of active axes, generated coordinates",
"Tests build a handful of unit-like boxes with one active-axes pattern per dimension.",
[G+"axisalignedcubegeometry.hh"],[("bit-walk over active axes",G+"axisalignedcubegeometry.hh AxisAlignedCubeGeometry")],
["AxisAlignedCubeGeometry public interface"])

add("G07","Mapped geometries compose a map with a base geometry",
"A geometry obtained by composing a differentiable map with another geometry reports the composed global map, the chain-rule Jacobian and its inverses and integration element, corners that are images of the base corners, and a centre that is the image of the base centre. Mapping a local point to the world and back returns it, the barycentre included, whenever the composed map is injective and does not vary wildly, also if it is much flatter in the middle of the element than elsewhere. Copies keep the answers.",
["inputs"],"generated polynomial and smooth injective maps over reference elements, affine, multilinear and nested mapped base geometries, dimension 1..3, world dimension up to dim+1",
"Tests use a few hard-coded maps and points.",
[G+"mappedgeometry.hh",G+"utility/algorithms.hh"],[("chain rule",G+"mappedgeometry.hh MappedGeometry"),("Gauss-Newton inversion",G+"utility/algorithms.hh gaussNewton")],
["MappedGeometry public interface"])

add("G08","Finite-element geometries follow their basis and coefficients",
"A geometry parametrised by a local finite element reports the global map sum of coefficient times shape function, its exact Jacobian, inverses and integration element, corners equal to the map at reference corners, the order of the basis, and affinity exactly when the basis is at most of first order and the map is affine. Constructing it from a parametrisation function interpolates that function at the element's nodes. Local coordinates invert the global map on non-degenerate elements, also on ones much flatter in the middle than elsewhere, and for bases of (multi)linear functions all answers equal those of the corner-based multilinear geometry.",
["inputs"],"Lagrange-type bases of order 0..3 on simplices and cubes of dimension 1..3, world dimension up to dim+1, generated coefficients perturbed from a non-degenerate element",
"Tests use P1/Q1/P2-like elements with reference-element coefficients.",
[G+"localfiniteelementgeometry.hh",G+"utility/algorithms.hh"],[("basis evaluation and Jacobian contraction",G+"localfiniteelementgeometry.hh LocalFiniteElementGeometry"),("Gauss-Newton inversion",G+"utility/algorithms.hh")],
["LocalFiniteElementGeometry public interface"])

add("G09","Curved element volumes converge to the integral of the integration element",
"The volume reported by a curved geometry (mapped or finite-element based) equals the integral of its integration element over the reference element to the documented tolerance, whenever the integration element is a polynomial of moderate degree, for elements of any size and whatever tolerance is asked for, and it never depends on quadrature rules beyond those available. Requesting the volume with an explicit quadrature rule returns exactly that rule's weighted sum. For affine maps it equals integration element times reference volume.",
["inputs"],"generated polynomial maps of degree up to 12 with known exact volume over lines, triangles, quadrilaterals, tetrahedra, prisms, pyramids and hexahedra; explicit rules of every order",
"Tests accept whatever the convergence loop returns on the identity or nearly affine maps, where any rule is exact.",
[G+"mappedgeometry.hh",G+"localfiniteelementgeometry.hh",G+"utility/convergence.hh"],[("successive-order convergence loop",G+"mappedgeometry.hh volume(ConvergenceOptions), "+G+"localfiniteelementgeometry.hh")],
["volume()"])

add("G10","Small dense matrix helper identities hold",
"The matrix helper offered to geometries returns correct products, determinants and inverses: square-root Gram determinants equal the true ones, right/left (pseudo-)inverses multiply to the identity and solve least-squares problems, and the linear solves agree with the inverses, for every row/column combination up to five and every number type. Results for a square matrix and for the same matrix seen as a rectangular one agree.",
["inputs"],"generated matrices up to 5x5 and all rectangular shapes, conditioning up to 1e4, scale 1e-4..1e4, permuted/diagonal/triangular/sparse patterns",
"Tests only pass such matrices indirectly through near-identity Jacobians; specialised 2x2/3x3/4x4 branches and rectangular cases with zeros are not covered.",
[G+"utility/defaultmatrixhelper.hh"],[("Cholesky-based helpers and closed forms",G+"utility/defaultmatrixhelper.hh FieldMatrixHelper")],
["matrix helper exported through geometry traits"])

add("G11","All geometry classes agree where they describe the same map",
"Whenever two geometry classes (affine, axis-aligned, multilinear, cached multilinear, mapped identity, finite-element with matching nodes, reference-element embedding) describe the same map, every query of the common geometry interface gives the same answer up to rounding, and integrating any polynomial over the element with a sufficiently exact rule gives the same value. Integrals are also unchanged when the element's corners are renumbered by a symmetry of its shape.",
["inputs","configurations"],"generated affine boxes, parallelepipeds and general elements of dimension 1..4 represented by every applicable class, generated polynomials and shape symmetries",
"Every class has its own test program; none of them is ever compared with another class on the same input.",
[G+"multilineargeometry.hh",G+"affinegeometry.hh",G+"axisalignedcubegeometry.hh",G+"mappedgeometry.hh",G+"localfiniteelementgeometry.hh"],[("shared geometry interface","geometry headers")],
["common geometry interface"])

add("G12","Local coordinates of curved geometries are right or refused",
"Whatever world point is asked for - in the image, beyond it or off it - and however curved, folded or flat the element is, a curved geometry (mapped or finite-element based) answers a request for local coordinates with a point whose image is the requested one within the requested tolerance or which is a closest point, or refuses with an exception. It never returns anything else as an answer, also not when few or no iterations are allowed, and it always returns. On regular affine elements a single iteration suffices and points of the element are never refused.",
["inputs","configurations"],"generated maps and coefficient vectors of dimension 1..3 in up to one more dimension (affine, strongly curved, folded, flat, constant), world points inside, outside and off the image, generated iteration limits, tolerances and line-search factors; three number types",
"Tests invert only images of quadrature points of well-behaved elements with the default options, so the error path is never taken.",
[G+"mappedgeometry.hh",G+"localfiniteelementgeometry.hh",G+"utility/algorithms.hh"],[("Gauss-Newton iteration and its result code",G+"utility/algorithms.hh gaussNewton")],
["local(y), local(y, options), global"])

add("Q01","Quadrature rules integrate every polynomial up to their order exactly",
"For every shape, number type, rule family and order it offers, the rule returned for a requested order integrates every polynomial of total degree up to that order over the reference element exactly up to rounding (weighted families: on lines and cubes, against the product of their weight function in each coordinate). The order reported by the rule is at least the requested one, and the polynomial exactness holds for the reported order as well. On tensor-product shapes built with one-dimensional rules the exactness extends to each coordinate separately.",
["inputs","configurations"],"all shapes of dimension 0..5, all families, every order up to the family's maximum (cost-capped in dimension >= 3), float, double, long double and, where the rules are stored that accurately, quadruple precision; sampled multivariate monomials and random polynomials",
"Tests integrate single-variable powers with a tolerance growing like 2^p, up to order 45 in at most three dimensions; mixed monomials are never integrated, so a wrong symmetric point orbit passes.",
[G+"quadraturerules.hh",G+"quadraturerules/simplexquadrature.hh",G+"quadraturerules/tensorproductquadrature.hh",G+"quadraturerules/prismquadrature.hh",G+"quadraturerules/jacobiNquadrature.hh",G+"quadraturerules/gaussquadrature.hh",G+"quadraturerules/gausslobattoquadrature.hh",G+"quadraturerules/gaussradauleftquadrature.hh",G+"quadraturerules/gaussradaurightquadrature.hh",G+"quadraturerules/jacobi1quadrature.hh",G+"quadraturerules/jacobi2quadrature.hh"],
[("tabulated points/weights","quadraturerules/*.hh"),("tensor/conical product order raising",G+"quadraturerules/tensorproductquadrature.hh"),("Golub-Welsch",G+"quadraturerules/jacobiNquadrature.hh")],
["QuadratureRules::rule(type, order, family)","QuadratureRule::order"])

add("Q02","Quadrature points lie where the rule family promises",
"All points of every rule lie inside the closed reference element, the points of a one-dimensional rule are pairwise distinct, the weights sum to the element's volume (or the integral of the family's weight), and weights of one-dimensional rules are positive. Gauss-type families have no endpoint among their points, Lobatto rules contain both endpoints, left/right Radau rules contain exactly the respective endpoint and are mirror images of each other, and every one-dimensional rule uses the minimal number of points its family needs for the order it reports. Results for different floating-point types are roundings of the same rule.",
["inputs","configurations"],"all families and orders in one dimension, all shapes of dimension 0..5 for containment; float, double, long double",
"Tests check only sums and pure powers; the location of points, optimality and mirror symmetry are unchecked.",
[G+"quadraturerules.hh",G+"quadraturerules/"],[("tables and generators",G+"quadraturerules/*.hh")],
["quadrature points and weights"])

add("Q03","Rule look-ups are stable and out-of-range requests are refused",
"For the shapes built by cone and prism extension, repeated requests for the same shape, order and family return one and the same rule object whose contents never change, whatever other requests are made in between, and the returned rule carries the requested shape and at least the requested order. Requests naming the shape by basic type give the same rule as those naming the full type, and a basic type that names no shape of the dimension is refused. Every order up to the advertised maximum is served, that maximum for a prism is no smaller than those of its base and of the line allow, and a negative order or one above the maximum raises the documented exception without disturbing later requests.",
["histories","inputs"],"generated sequences of requests over shapes, orders (valid, boundary, out of range), families and dimensions 0..5, with fingerprints of all rules re-checked after the history",
"Tests request each rule once in ascending order and never ask for an order out of range.",
[G+"quadraturerules.hh"],[("once-initialised cache per family/type/order",G+"quadraturerules.hh QuadratureRules::_rule"),("maxOrder",G+"quadraturerules.hh QuadratureRuleFactory")],
["QuadratureRules::rule/maxOrder"],state=[("quadratureCache","lazily filled table of rules",G+"quadraturerules.hh")])

add("Q04","Composite rules are the base rule repeated on each sub-element",
"A composite rule built from a base rule on a simplex and a number of refinement intervals consists of the base rule mapped to every sub-element of the refinement: its weights sum to the element's volume, all points are inside, it has (number of sub-elements) times (base size) points, it is exact to the base order, and restricted to any sub-element it integrates polynomials of that order exactly. It reports the shape and the base rule's order.",
["inputs"],"simplices of dimension 1..4 (the shapes the component supports), base orders 0..8 of every family, refinement by levels and by arbitrary interval counts, generated polynomials",
"Tests use one base order and two refinement levels and check only the weight sum and pure powers.",
[G+"quadraturerules/compositequadraturerule.hh",G+"refinement/"],[("loop over sub-elements",G+"quadraturerules/compositequadraturerule.hh CompositeQuadratureRule")],
["composite rule points, weights, type, order"])

add("F01","Refinement iteration visits consistent vertices and elements",
"For every supported element/sub-element shape pair and number of intervals, iterating over the refinement visits exactly the advertised number of vertices and elements, with indices consecutive from zero in visiting order. The vertex indices reported by an element are valid, pairwise distinct and their vertices' coordinates are exactly the corners of the element's geometry; each vertex coordinate lies in the reference element; the coordinates reported for an element are its centre. The geometries reported for vertices and elements agree with these coordinates, and in one and two dimensions the vertex indices of every sub-element run in the orientation of the reference element.",
["inputs","configurations"],"all static refinements of dimension 1..3 (cubes/simplices to 4), interval counts 1..12 (1..40 in one dimension, fewer in higher ones) and powers of two; counts giving more than 65536 vertices or sub-elements",
"Tests print or count, and check that element corners are inside; no test connects indices with coordinates.",
[G+"refinement.hh",G+"refinement/"],[("index arithmetic and Kuhn simplices",G+"refinement/simplex.cc"),("tensor indices",G+"refinement/hcube.cc"),("triangulations",G+"refinement/hcubetriangulation.cc, prismtriangulation.cc, pyramidtriangulation.cc")],
["vBegin/vEnd/eBegin/eEnd iterators, nVertices, nElements, index, coords, vertexIndices, geometry"])

add("F02","Refinements partition the element conformingly",
"The sub-elements of a refinement cover the reference element without overlap: all have positive volume, volumes add up to the element's volume, and every generic point lies in exactly one sub-element. Any two sub-elements meet in a common face or not at all, so every facet of a sub-element is either on the boundary or shared by exactly one other sub-element with the same corners. All cells of a simplex or cube refinement with n intervals have the volume of the whole divided by their number.",
["inputs","configurations"],"all shape pairs of dimension 1..3 (4 for cubes and simplices), interval counts 1..8, generated points",
"A partition is a statement about all points and all pairs of sub-elements; tests look at sub-elements one at a time.",
[G+"refinement/"],[("Kuhn permutation mapping and transformations",G+"refinement/simplex.cc, hcubetriangulation.cc, prismtriangulation.cc, pyramidtriangulation.cc")],
["sub-element geometries"])

add("F03","Run-time and compile-time refinements are identical",
"For every element and sub-element shape, choosing the refinement at run time gives the same vertices, elements, indices, coordinates and counts as choosing it at compile time, whatever equivalent label names the shape. Unsupported combinations are refused with an exception. Interval counts, level counts and their helper constructors describe the same refinement when they denote the same number of intervals.",
["inputs","configurations"],"all pairs of shapes of dimension 1..3, interval counts 1..6, levels 0..3",
"Tests run both variants but never compare them, nor try unsupported pairs.",
[G+"virtualrefinement.hh",G+"virtualrefinement.cc",G+"refinement/base.cc"],[("run-time dispatch and type-erased iterators",G+"virtualrefinement.cc buildRefinement, VirtualRefinementImp"),("RefinementIntervals helpers",G+"refinement/base.cc")],
["buildRefinement(...), StaticRefinement"])

add("F04","Refinement iterators are proper values",
"Copies of run-time refinement iterators are independent: advancing, assigning (including to itself) or destroying one never changes another, equal positions compare equal and unequal positions unequal, and the answers at a position do not depend on how the iterator got there. Several traversals of the same refinement with different interval counts can be interleaved. No sequence of such operations touches freed memory.",
["histories"],"generated programs of copy, assign, self-assign, advance, compare, destroy and query over pools of vertex and element iterators of several refinements",
"Tests run one iterator from begin to end.",
[G+"virtualrefinement.hh",G+"virtualrefinement.cc"],[("backend cloning",G+"virtualrefinement.cc VirtualRefinement::SubEntityIterator")],
["VirtualRefinement iterators"],state=[("backend","owned polymorphic iterator",G+"virtualrefinement.hh SubEntityIterator")])

add("V01","Vertex orders are reduced to order-isomorphic ranks",
"Reducing a list of vertex ids replaces each id by the number of strictly smaller ids in the list, so reduced ids compare exactly like the original ones and depend only on their relative order. For every sub-entity of every shape, iterating the vertex order (in either direction or by random access) yields the element's reduced ids of exactly that sub-entity's vertices in its own numbering, and the reduced order of the sub-entity is the reduction of those ids.",
["inputs"],"all shapes of dimension 0..4, every sub-entity, generated distinct and repeated ids of several integer types including extremes, random iterator arithmetic",
"There is no test for this component at all.",
[G+"generalvertexorder.hh"],[("counting smaller ids",G+"generalvertexorder.hh reduceOrder"),("sub-entity iterator",G+"generalvertexorder.hh GeneralVertexOrder::iterator")],
["reduceOrder, GeneralVertexOrder begin/end/getReduced"])

add("P01","The Python view of types and reference elements equals the C++ one",
"From Python, every geometry type's predicates, dimension, equality, hash and text agree with C++, text and name parsing round-trips for every type, and unknown names are refused with an exception. Reference elements seen from Python report the same sizes, numberings, positions, corners, types, volumes and normals as in C++, and refuse indices that do not exist. Asking twice for the same type returns equal answers.",
["inputs","configurations"],"all shapes of dimension 0..3 (types to 6), all codimensions and sub-entities, valid and invalid indices, generated malformed names",
"Python tests print values or check three shapes.",
["dune/python/geometry/type.hh","dune/python/geometry/referenceelements.hh","python/dune/geometry/__init__.py","python/dune/geometry/_referenceelements.py","python/dune/geometry/_geometry.cc"],
[("pybind registration","dune/python/geometry/*.hh"),("string parser","dune/python/geometry/type.hh")],
["Python objects compared with C++ answers"])

add("P02","Quadrature and integration from Python equal the C++ ones",
"Rules obtained from Python have the same points, weights, order and shape as in C++, whether read point by point or as arrays, and integrating a function from Python (scalar or vector valued, over one or several elements) equals the weighted sum in C++. Rule collections deliver, for each shape, a rule of the requested order, and cached look-ups return the rule of the shape asked for.",
["inputs","histories"],"all shapes of dimension 1..3, orders 0..12, generated polynomials as Python callables of several signatures",
"The single Python quadrature test checks one constant and one polynomial.",
["dune/python/geometry/quadraturerules.hh","python/dune/geometry/__init__.py","python/dune/geometry/quadpy.py"],
[("pybind registration of rules","dune/python/geometry/quadraturerules.hh"),("integrate helpers","python/dune/geometry/__init__.py")],
["Python rules and integrate"])

add("P03","Geometries bound to Python answer like their C++ counterparts",
"A corner-based geometry created from Python exposes its full interface and answers every query (corners, centre, volume, global, local, Jacobians, integration element, affinity) like the C++ geometry with the same corners. Corner lists whose entries are not points are refused with an exception.",
["inputs"],"shapes of dimension 0..3, world dimension up to 3, generated corners and points, malformed inputs",
"No Python test creates such a geometry.",
["dune/python/geometry/multilineargeometry.hh","python/dune/geometry/__init__.py"],
[("pybind registration","dune/python/geometry/multilineargeometry.hh")],
["Python MultiLinearGeometry objects"])

add("C01","Concurrent first use gives the same answers as sequential use",
"Quadrature rules, reference elements and run-time refinements may be requested by several threads at once, including the very first request of a rule: every thread sees fully built, identical results equal to those of a single-threaded run, without data races. The same holds for threads evaluating their own geometries at the same time.",
["schedules","histories"],"generated per-thread request lists over shapes, families and orders with overlapping keys, fresh processes so that first use is concurrent, 2..8 threads, random start skews; happens-before race detection",
"Tests request rules from threads in one fixed pattern and do not compare contents nor look for races.",
[G+"quadraturerules.hh",G+"referenceelements.hh",G+"virtualrefinement.cc",G+"refinement/"],[("std::call_once cache initialisation",G+"quadraturerules.hh QuadratureRules::_rule"),("function-local statics",G+"referenceelements.hh, virtualrefinement.cc")],
["QuadratureRules::rule, referenceElement, buildRefinement from threads"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,p['id']
print(len(P))
