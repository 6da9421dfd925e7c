#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]
    if observe: d["anchors"]["observe_at"] = [observe]
    P.append(d)

p("C01", "Cell quadrature reproduces the volume and moments of body-in-cell",
  "For every closed, consistently oriented body and every background grid, the integration points of each active cell integrate every tensor-product monomial up to the requested polynomial order over the part of the body inside that cell, up to the moment-fitting tolerance. No cell whose body fraction clearly exceeds the minimum volume ratio is dropped, and no cell without material is active.",
  ["inputs", "configurations"], "all closed bodies (convex, curved, holed, several components, rotated, touching or crossing grid planes), grids, orders and quadrature settings",
  "The tests integrate a handful of fixed STL files at fixed grids; the failure modes (special positions of the surface relative to a cell, unusual aspect ratios, particular orders) are input-dependent.",
  ["queso/quadrature/trimmed_element.hpp", "queso/embedding/trimmed_domain.cpp", "queso/embedding/brep_operator.cpp", "queso/embedded_model.cpp", "queso/quadrature/single_element.hpp"],
  [("moment fitting", "QuadratureTrimmedElement::AssembleIPs"), ("closing of the clipped surface", "TrimmedDomain / TrimmedDomainOnPlane"), ("element construction", "TrimmedElementBuilder::Build")],
  "integration points and weights of the active elements of a finished model")
p("C02", "Integration points are admissible: positive weight, in own cell and body",
  "Every integration point of an active cell has a finite, strictly positive weight, lies in its own cell (in both coordinate systems), and the global weight is the parametric weight times the constant Jacobian of the cell. Points of untrimmed cells, and the candidate points trimmed rules are selected from, lie in the body.",
  ["inputs", "configurations"], "all bodies, grids, orders, integration rules and both grid types",
  "Tests count points and sum weights for fixed geometries; a single stray or negative point in an unusual cell changes neither.",
  ["queso/quadrature/trimmed_element.hpp", "queso/quadrature/single_element.hpp", "queso/embedding/octree.cpp", "queso/solvers/nnls.cpp", "queso/containers/element_view.hpp"],
  [("candidate points", "Octree::GetIntegrationPoints, QuadratureTrimmedElement::DistributeIntegrationPoints"), ("non-negative fit", "nnls"), ("global view of points", "ElementView::GetIntegrationPoints")],
  "integration points of the active elements of a finished model")
p("C03", "Cell classification agrees with the geometry",
  "For every closed body and grid each cell is classified inside exactly if it lies completely in the body, outside if it is completely out of it, and trimmed if the surface passes through its interior. The per-cell query and the whole-grid classification agree.",
  ["inputs", "configurations"], "all closed bodies including cavities, several components and components smaller than a cell; all grids including single-cell rows and layers; any number of threads",
  "The tests classify few STL models at few grids and compare with stored counts; region merging across thread partitions depends on grid shape, thread number and on where pockets of inside/outside cells lie.",
  ["queso/embedding/flood_fill.cpp", "queso/embedding/brep_operator.cpp", "queso/embedding/geometry_query.cpp"],
  [("region growing per partition and merging of groups", "FloodFill::PartitionedFill, MergeGroups"), ("single-cell decision", "BRepOperator::GetIntersectionState")],
  "classification vector of the grid; active cells of a finished model")
p("C04", "Reported model information is true of the model",
  "The model information (geometry volume, closedness, numbers of active, trimmed, full and inactive cells, point counts, represented volume, surface areas and percentages per condition) equals what is recomputed from the input mesh and the finished elements and conditions, for every volume and every sequence of conditions. Times are non-negative and the total never decreases.",
  ["inputs", "histories", "configurations"], "all bodies, grids, rules, and any order and number of created conditions",
  "The tests assert a few entries for one model each.",
  ["queso/embedded_model.cpp", "queso/utilities/mesh_utilities.cpp"],
  [("filling of the model information", "EmbeddedModel::ComputeVolume, ComputeCondition"), ("parallel sums", "MeshUtilities::VolumeOMP, AreaOMP")],
  "model information dictionary vs elements and conditions")
p("C05", "Results do not depend on the number of threads or the schedule",
  "For a given input the set of active cells, their integration points and weights, the condition segments and the model information (times excepted) are the same whatever the number of threads and however loop iterations are scheduled, up to floating-point summation order.",
  ["schedules", "inputs", "configurations"], "all thread counts and all assignments and orders of parallel loop iterations",
  "The tests run with the default team only and cannot choose schedules.",
  ["queso/embedded_model.cpp", "queso/containers/background_grid.hpp", "queso/embedding/flood_fill.cpp", "queso/utilities/mesh_utilities.cpp"],
  [("parallel element loop", "EmbeddedModel::ComputeVolume"), ("parallel condition loop", "EmbeddedModel::ComputeCondition"), ("partitioned classification", "FloodFill")],
  "complete digest of a finished model")
p("C06", "Parallel model construction and concurrent queries are free of data races",
  "No two threads access the same memory without synchronisation, one of them writing, while a model is built, or while several threads use one finished geometric operator, mesh view or model for queries.",
  ["schedules", "inputs"], "all interleavings of the worker threads of parallel regions and of concurrent const queries",
  "A race shows up as a wrong result only for rare interleavings; the tests have no race detector and cannot have one with an uninstrumented OpenMP runtime.",
  ["queso/embedded_model.cpp", "queso/containers/background_grid.hpp", "queso/embedding/flood_fill.cpp", "queso/embedding/element_builders.hpp", "queso/embedding/aabb_tree.cpp"],
  [("critical section of element insertion", "BackgroundGrid::MakeElement"), ("critical section of segment insertion", "EmbeddedModel::ComputeCondition"), ("atomic timers", "TrimmedElementBuilder")],
  "ThreadSanitizer reports under an instrumented OpenMP runtime")
p("C07", "No memory error or undefined behaviour on any valid use",
  "Building models, quadrature, conditions, geometric queries and output on any valid input never reads or writes outside live objects, never uses uninitialised values, and executes no undefined operation.",
  ["inputs", "configurations", "histories"], "all valid meshes (including empty, tiny, degenerate and flawed ones that are accepted), settings and call orders",
  "Most such errors leave the observed results of the tests unchanged.",
  ["queso/embedding/*.cpp", "queso/quadrature/*.hpp", "queso/utilities/*.cpp", "queso/solvers/nnls.cpp", "external_libraries/aabb_tree/AABB_base.cc"],
  [("index arithmetic and containers", "whole library")],
  "AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, valgrind memcheck")
p("C08", "One-dimensional Gauss rules have their documented exactness",
  "Every one-dimensional Gauss rule that is handed out has points inside the unit interval, symmetric and strictly increasing, positive weights that sum to one, and integrates polynomials up to the degree that belongs to its order and reduction. A request outside the tabulated orders is refused with an exception.",
  ["inputs", "configurations"], "all tabulated orders and rules and any requested order",
  "The tests look at some of the tabulated digits or at low orders; there are hundreds of digits per table.",
  ["queso/quadrature/integration_points_1d/gauss_legendre_integration_points.cpp", "queso/quadrature/integration_points_1d/integration_points_factory_1d.h", "queso/quadrature/single_element.hpp"],
  [("tables", "IntegrationPointFactory1D::GetGauss")], "points and weights handed out")
p("C09", "Generalised Gauss rules are exact for splines over any run of elements",
  "For every polynomial order, reduction and number of elements, the generalised Gauss rule has non-negative weights, one set of points per element with every point in its element, and integrates all spline functions of the corresponding degree and continuity over the run exactly, on any interval. A rule for n elements uses fewer points than Gauss for long runs.",
  ["inputs", "configurations"], "orders 2 to 4, optimal and both reduced rules, any number of elements, any interval",
  "The tables have many thousand digits; tests integrate few functions with few element numbers, and the assembly for lengths that are not tabulated is combinatorial.",
  ["queso/quadrature/integration_points_1d/integration_points_factory_1d.cpp", "queso/quadrature/integration_points_1d/precomputed_ggq_rules_*.cpp"],
  [("assembly of rules from base/edge/interior tables", "IntegrationPointFactory1D::GetGGQ")], "points and weights handed out")
p("C10", "Multi-element rules integrate splines exactly over any set of full cells",
  "With a generalised Gauss rule, the points of all full cells together integrate every tensor-product spline of matching degree and continuity over the union of the full cells exactly, whatever the arrangement of full cells, and every full cell is served exactly once. Bundling never joins cells that are not neighbours.",
  ["inputs", "configurations"], "all subsets of full cells of all grids, orders, reductions",
  "The tests use one or two geometries; the greedy tensor bundling depends on the arrangement of the full cells (L-shapes, holes, rows that end at the border).",
  ["queso/quadrature/multiple_elements.hpp", "queso/containers/background_grid.hpp"],
  [("neighbour counting and bundling of cells", "QuadratureMultipleElements::AssembleIPs")], "points of all full cells")
p("C11", "Grid numbering is a bijection and the cells tile the grid box",
  "Cell numbers and index triples map to each other one-to-one, the boxes of all cells tile the bounding box without gap or overlap in both coordinate systems, and stepping along any axis visits every cell of a partition exactly once, reports row ends and the global end exactly where they are, and stepping back undoes it.",
  ["inputs", "configurations"], "all grid sizes (including one cell in a direction), bounds, partitions and directions",
  "Tests enumerate one grid size.",
  ["queso/containers/grid_indexer.hpp"], [("index arithmetic", "GridIndexer")], "returned indices and boxes")
p("C12", "Element container: lookup, traversal and insertion are consistent",
  "After any history of insertions in any order, looking up a cell by number, walking along any direction, and iterating over all, trimmed or untrimmed elements agree with the set of inserted elements: nothing is lost, duplicated or returned under another number or kind. A duplicate number is refused without changing the container.",
  ["histories", "inputs"], "all insertion histories, grids and directions",
  "Tests insert a fixed list of cells.",
  ["queso/containers/background_grid.hpp", "queso/containers/element_base.hpp"], [("id map and two element stores", "BackgroundGrid")], "return values of the container")
p("C13", "Point-in-body decisions agree with the winding number",
  "For every closed, consistently oriented triangle mesh and every point not on the surface, the inside test agrees with the winding number of the surface around the point; the test of a point against the part of a body in a cell agrees with it as well.",
  ["inputs"], "all closed meshes and points, including points in line with vertices and edges, thin parts, cavities",
  "The tests probe fixed points of few models; ray hits on edges and vertices are special positions.",
  ["queso/embedding/brep_operator.cpp", "queso/embedding/geometry_query.cpp", "queso/embedding/ray_aabb_primitive.cpp", "queso/embedding/trimmed_domain.cpp"],
  [("ray casting", "GeometryQuery::IsInside, BRepOperator::IsInside"), ("local test", "TrimmedDomain::IsInside")], "returned decisions")
p("C14", "Box and ray queries find every triangle they should",
  "Triangles reported for a box include every triangle that really passes through its interior and none that is clearly apart from it, an intersection is reported exactly if there is such a triangle, and ray hits equal those of an exhaustive search.",
  ["inputs"], "all meshes (any size and distribution), boxes and rays",
  "Tests compare few boxes; a wrong bound in the search tree loses triangles only for particular positions.",
  ["queso/embedding/aabb_tree.cpp", "queso/embedding/aabb_primitive.cpp", "queso/embedding/geometry_query.cpp", "external_libraries/aabb_tree/AABB_base.cc"],
  [("tree query", "AABB_tree::Query"), ("separating axis test", "AABB_primitive::intersect")], "returned triangle sets")
p("C15", "Clipping a surface at boxes conserves it",
  "Clipping a triangle mesh at a cell yields triangles that lie in the cell and in the plane of a parent triangle with its orientation, and cover exactly the part of the surface in the cell. Over all cells of a grid that covers the surface, the unique clipping assigns every piece of surface to exactly one cell.",
  ["inputs"], "all meshes, boxes and grids, including triangles in or touching grid planes, vertices on cell corners, and slivers",
  "Tests clip few triangles and compare areas of few models; boundary coincidence is combinatorial.",
  ["queso/embedding/clipper.cpp", "queso/embedding/polygon.cpp", "queso/embedding/brep_operator.cpp"],
  [("Sutherland-Hodgman clipping", "Clipper::ClipTriangle"), ("unique assignment", "BRepOperator::ClipTriangleMeshUnique")], "clipped meshes")
p("C16", "The boundary of a trimmed cell is closed, outward and encloses body-in-cell",
  "The boundary mesh built for a trimmed cell is closed, oriented outward, stays in the cell, encloses exactly the volume and first moments of the body inside the cell, and has at least the requested number of triangles. Its bounding box and its point tests are consistent with it.",
  ["inputs", "configurations"], "all closed bodies and cells that are cut by their surface",
  "Tests compare volumes for few models and grids; the triangulation of the cut faces depends on edge patterns per face.",
  ["queso/embedding/trimmed_domain_on_plane.cpp", "queso/embedding/trimmed_domain.cpp", "queso/embedding/brep_operator.cpp"],
  [("closing of the cut faces", "TrimmedDomainOnPlane"), ("retry with perturbation", "BRepOperator::pGetTrimmedDomain")], "boundary mesh of the trimmed domain")
p("C17", "Condition segments partition the condition surface, each with its own cell",
  "The segments of a condition cover the given surface inside the grid exactly once, each segment lies in one cell, and it refers to the element of exactly that cell if and only if that cell is active. This holds for every number and order of conditions created after the volume, and settings are kept per condition.",
  ["inputs", "histories", "schedules"], "all surfaces (open or closed, partly outside the grid, in grid planes), bodies and grids",
  "Tests sum areas for few fixed surfaces.",
  ["queso/embedded_model.cpp", "queso/embedding/brep_operator.cpp", "queso/containers/condition_segment.hpp"],
  [("condition creation", "EmbeddedModel::ComputeCondition")], "segments of the conditions of a finished model")
p("C18", "STL files are read and written faithfully",
  "Writing a mesh to STL and reading it back gives the same triangles, orientation and order up to single precision (the precision of the format in both encodings), and a well-formed binary or ASCII file of any producer (arbitrary header, solid names and attribute bytes, indentation and white space, upper or lower case, line endings, one statement per line as usual) gives exactly its triangles with shared vertices. Degenerate triangles are the only ones that may be dropped.",
  ["inputs"], "all meshes and all well-formed STL files",
  "Tests read and write few files.",
  ["queso/io/io_utilities.cpp", "queso/io/io_utilities.h", "queso/io/binary_buffer_writer.hpp"],
  [("reader/writer", "IO::ReadMeshFromSTL, IO::WriteMeshToSTL")], "file contents and meshes")
p("C19", "Malformed STL input is refused, never misread",
  "Reading a missing, truncated, garbled or wrong-format STL file ends with an exception or with the triangles that are really in the file; it never crashes, reads outside buffers, loops forever, or produces coordinates that are not in the file.",
  ["inputs", "fault_sequences"], "all byte strings as file content, all truncation points",
  "Tests try one missing file.",
  ["queso/io/io_utilities.cpp"], [("parsing of both encodings", "IO::ReadMeshFromSTL_Ascii, ReadMeshFromSTL_Binary")], "outcome of reading mutated files under sanitizers")
p("C20", "Written VTK, STL and JSON files describe the model that was written",
  "The files written for elements, integration points, meshes, conditions and dictionaries parse according to their formats, and contain exactly the cells, points, weights, triangles and values of the model, in both encodings. ASCII and binary output of the same object agree. (Conditions of one model have different condition_ids: the names of their files contain them.)",
  ["inputs", "configurations"], "all models, meshes, dictionaries",
  "Tests check that files appear, or compare one file.",
  ["queso/io/io_utilities.h", "queso/io/io_utilities.cpp", "queso/io/binary_buffer_writer.hpp", "queso/containers/dictionary.hpp"],
  [("writers", "IO::WriteElementsToVTK, WritePointsToVTK, WriteMeshToVTK, WriteConditionToSTL, WriteDictionaryToJSON")], "files")
p("C21", "A failed write is reported and never looks like success",
  "If a file cannot be created or its contents cannot be written completely, the call ends with an exception and the process stays alive; a call that returns normally has written the complete file.",
  ["fault_sequences", "inputs"], "all writers, encodings, sizes, and failure points (missing directory, full device, size limit at any byte)",
  "Tests never inject faults.",
  ["queso/io/io_utilities.cpp", "queso/io/io_utilities.h", "queso/io/binary_buffer_writer.hpp"],
  [("final stream check", "IO::Write*"), ("buffered writer", "BinaryBufferWriter")], "outcome of calls with injected write errors")
p("C22", "Settings dictionaries keep values typed, complete and unchanged",
  "A value set under a key is returned unchanged with exactly its type; reading a value that is not set, an unknown key, a wrong type or a missing required value always raises an error and never changes the dictionary. Default values apply exactly as long as nothing is set, in the native and in the scripting interface alike.",
  ["histories", "inputs"], "all sequences of set/get/try/is-set/append operations on all dictionaries, by native key and by string",
  "Tests exercise few keys in few orders.",
  ["queso/containers/dictionary.hpp", "queso/containers/data_set.hpp", "queso/includes/register_keys.hpp", "queso/includes/dictionary_factory.hpp"],
  [("variant storage and key types", "DataSet, Dictionary")], "returned values and exceptions vs a model dictionary")
p("C23", "Settings files round-trip and are validated",
  "Settings written to a file and read again are equal to the original (numbers to the ten digits that are written), for every accepted content including empty lists and arbitrary text values (except non-finite numbers, which JSON cannot hold, and the placeholder text \"Not Set.\" itself); a settings file with an unknown key, wrong type or unknown option is refused. A model is created only from settings that are complete and consistent with the chosen grid and integration rule.",
  ["inputs", "configurations"], "all settings contents",
  "Tests read few files.",
  ["queso/python/scripts/json_io.py", "queso/io/io_utilities.cpp", "queso/utilities/check_dictionary_utilities.hpp", "queso/containers/data_set.hpp"],
  [("JSON reader", "JsonIO"), ("JSON writer", "IO::WriteDictionaryToJSON"), ("validation", "CheckDictionaryUtilities::CheckSettings")], "dictionaries and files")
p("C24", "The non-negative least-squares solver returns an optimal solution",
  "For every matrix and right-hand side the solver returns a non-negative vector that satisfies the optimality conditions of the non-negative least-squares problem up to rounding, and the returned residual is the true one.",
  ["inputs"], "all matrices including rank-deficient, over- and under-determined and badly scaled ones",
  "Tests solve few systems; pivoting depends on the data.",
  ["queso/solvers/nnls.cpp", "queso/solvers/nnls.h"], [("active set method", "nnls")], "returned solution and residual")
p("C25", "Parametric and global coordinates map one-to-one",
  "Mapping between global and parametric coordinates of a cell is a bijection, carries cell corners to cell corners, and the Jacobian and the transformed weights, surface weights and normals are consistent with it; the scripting helpers give the same mapping. The global quadrature of a body does not depend on the parametric bounds or the grid type.",
  ["inputs", "configurations"], "all bounds, points, grid types",
  "Tests map few points for a fixed box.",
  ["queso/utilities/mapping_utilities.hpp", "queso/containers/element_view.hpp", "queso/containers/boundary_integration_point.hpp", "queso/python/scripts/helper.py"],
  [("mapping", "mapping::ToGlobal, ToParametric, DetJ")], "mapped points, weights")
p("C26", "Mesh operations conserve the geometry",
  "Refining a mesh reaches the requested number of triangles and keeps the surface, its area, volume, orientation and normals; appending keeps both meshes; area, volume (in every direction, serial and parallel), closedness measure, aspect ratios and bounding box have their mathematical values for every mesh.",
  ["inputs"], "all triangle meshes, including empty ones, degenerate triangles and large meshes",
  "Tests use few models.",
  ["queso/utilities/mesh_utilities.cpp", "queso/utilities/triangle_utilities.hpp", "queso/containers/triangle_mesh.hpp"],
  [("mesh operators", "MeshUtilities")], "returned meshes and numbers")
p("C27", "Legendre basis: values, antiderivatives and orthogonality",
  "The one-dimensional basis used for moment fitting equals the Legendre polynomials shifted to the given interval, its integral function is the exact antiderivative, and distinct members are orthogonal, on every interval.",
  ["inputs"], "all orders, intervals and points",
  "Tests check few values.",
  ["queso/utilities/polynomial_utilities.hpp"], [("closed forms", "Polynomial::f_x, f_x_int")], "returned values")
p("C28", "The B-spline volume of a model represents the grid box exactly",
  "The B-spline volume built from the settings maps parameters linearly onto the grid box, its interior knots are exactly the cell boundaries, its number of control points matches order and elements, and control points in list and matrix form agree, for open and non-open knot vectors.",
  ["configurations", "inputs"], "all orders, element numbers, bounds, knot vector types",
  "Tests check few settings.",
  ["queso/python/scripts/b_spline_volume.py"], [("knot insertion", "BSplineVolume")], "spline evaluated through an independent implementation")
p("C29", "Results stay valid after their inputs are gone",
  "Elements, conditions, meshes and dictionaries that an API hands out stay usable and unchanged as long as the object they were obtained from is alive, also after the input mesh and intermediate objects are destroyed and the model is moved; in the scripting interface, every handed-out object stays usable as long as it is referenced. (Containers are not modified while an object or iterator taken from them is in use, and settings passed by reference to CreateCondition in C++ are kept by the caller.)",
  ["histories"], "all orders of creating, dropping and using objects",
  "A dangling reference usually still reads the old bytes, so tests pass.",
  ["queso/embedded_model.cpp", "queso/embedding/trimmed_domain.cpp", "queso/python/bindings/add_containers_to_python.cpp", "queso/python/bindings/add_dictionary_to_python.cpp"],
  [("stored references", "TrimmedDomain, ConditionSegment, ElementView"), ("keep-alive policies", "Python bindings")], "AddressSanitizer and content digests after destruction")
p("C30", "Equivalent descriptions of a body give equivalent models",
  "Permuting triangles, rotating vertex order within triangles, duplicating vertices, subdividing flat triangles, passing the mesh through a foreign mesh interface, and shifting or scaling body and grid together do not change the model: same active cells and same moments per cell.",
  ["inputs", "configurations"], "all bodies and all such transformations",
  "Tests use each model in a single representation.",
  ["queso/containers/triangle_mesh_view.hpp", "queso/embedding/*.cpp", "queso/embedded_model.cpp"],
  [("mesh adapter", "TriangleMeshView")], "pairs of finished models")
p("C31", "The scripting interface delivers the same model as the files and settings say",
  "Running a model from a settings file through the scripting interface gives elements, integration points, conditions and model information that agree with the files the same run writes and with the settings, and all documented accessors work on every model.",
  ["inputs", "configurations"], "all settings files and bodies",
  "Tests use few accessors on few models.",
  ["queso/python/PyQuESo.py", "queso/python/bindings/add_containers_to_python.cpp", "queso/python/bindings/add_io_to_python.cpp"],
  [("bindings", "AddContainersToPython"), ("driver class", "PyQuESo")], "Python objects vs written files")

p("C32", "The Kratos adapter hands over exactly the elements, loads, supports and meshes of the model",
  "The model part that the Kratos adapter fills has one element per active element with points of positive weight, holding exactly these points; the loads of a surface-load condition sum up to modulus times unit direction times the area of its surface inside the grid, those of a pressure condition to minus modulus times the integral of the normal, both with the right first moments; support conditions cover exactly their surface inside the grid, with the prescribed value and penalty factor of their condition; degrees of freedom and the NURBS volume follow the settings. Triangle meshes and model parts convert into each other without loss. Bounding-box conditions fix exactly the nodes strictly inside their box, or share the given force equally among them. Numbers given to Kratos entities are unique. A condition of unknown type, without required values or with zero direction is refused before any condition is created.",
  ["inputs", "configurations"], "all models, conditions, parametric descriptions and meshes",
  "The tests of the adapter need Kratos, use four fixed models and compare one total each.",
  ["kratos_interface/model_part_utilities.py", "kratos_interface/weak_bcs.py", "kratos_interface/bounding_box_bcs.py", "kratos_interface/custom_analysis_stage.py", "kratos_interface/kratos_analysis.py", "queso/python/PyQuESo.py", "queso/python/scripts/helper.py"],
  [("element and condition transfer", "ModelPartUtilities"), ("weak conditions", "PenaltySupport, LagrangeSupport, SurfaceLoad, PressureLoad"), ("box conditions", "DirichletCondition, NeumannCondition")], "calls that reach Kratos (recorded by a stand-in)")

p("C33", "Discarded objects and failed calls leave nothing behind",
  "After a model, mesh, query structure or dictionary has been destroyed, and after a call that was refused or failed (invalid settings, damaged or missing files, impossible output targets), all memory, files and threads that were acquired for it are released: any use can be repeated any number of times without growth, and with the same outcome.",
  ["histories", "inputs", "configurations"], "all uses, successful or refused, repeated",
  "A test process ends before a leak matters.",
  ["queso/embedded_model.cpp", "queso/embedding/trimmed_domain.cpp", "queso/containers/background_grid.hpp", "queso/containers/dictionary.hpp", "queso/io/io_utilities.cpp", "queso/python/bindings/add_containers_to_python.cpp", "queso/python/bindings/add_dictionary_to_python.cpp"],
  [("ownership", "Unique<T> members of models, grids, elements, dictionaries; python holders")], "live allocations, open files, threads")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
