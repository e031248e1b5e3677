"""Source of properties.jsonl and MANIFEST.json; run tools/gen.py to rewrite both."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, technique="", note=""):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None),
        technique=technique, note=note))


U = "ristra/utils/"
M = "ristra/math/"
G = "ristra/geometry/"

prop("U01", "A fixed-capacity vector behaves like std::vector within its capacity",
     "On every history of construction, assignment, insertion, erasure, push, pop, resize, clear, swap and "
     "comparison that stays within its capacity, a fixed-capacity vector holds the same elements (those added "
     "by growing without giving a value are left open), returns the same positions, compares equal and iterates "
     "forward and backward the same as a std::vector given that history. It never reads or writes outside its own storage, including when the inserted value "
     "lies inside the vector itself.",
     ["histories", "inputs"],
     "every operation sequence over two vectors, for capacities 1-300 and int, string and owning element types",
     "The tests run one scripted history on one small vector; errors in shifting, self-insertion, empty ranges "
     "or comparison need particular positions, counts and lengths.",
     [U + "fixed_vector.h"],
     [("element shifting of insert and erase", U + "fixed_vector.h: insert, erase"),
      ("length bookkeeping", U + "fixed_vector.h: resize, assign, push_back, pop_back, swap")],
     technique="stateful property-based testing against std::vector (rapidcheck, ASan/UBSan)",
     note="std::vector is the oracle after every step of generated histories; capacities and element types are "
          "a fixed list; exceeding the capacity is a precondition and not exercised.")
prop("U02", "Lockstep iteration reaches every element once, in order, by reference",
     "Zipping containers of equal size, applying an elementwise task, visiting or zipping tuples and static "
     "loops call the user's code exactly once per index, in index order, with references to the elements of "
     "that index, so that writes reach the original containers. Zipping containers of different sizes is "
     "refused with an error whichever container has the odd size.",
     ["inputs"],
     "every set of 1-4 containers of any lengths and contents, every tuple value",
     "The tests zip a few equal containers of one length; mismatches in one position, empty containers, "
     "iterator arithmetic and writes through references are not sampled.",
     [U + "zip.h", U + "zip_impl.h", U + "tasks.h", U + "tuple_visit.h", U + "tuple_zip.h",
      U + "tuple_for_each.h", U + "static_for.h"],
     [("size check of zipped containers", U + "zip_impl.h"), ("iterator stepping", U + "zip_impl.h"),
      ("tuple recursion", U + "tuple_visit_impl.h, tuple_zip_impl.h, tuple_for_each_impl.h")],
     technique="property-based testing against index-loop references (rapidcheck, ASan/UBSan)")
prop("U03", "String, path and number helpers return exactly what their texts say",
     "Replacing all occurrences, splitting at a set of delimiter characters, taking a path's base name, "
     "directory, extension or stem, zero padding a number and converting to and from characters give, for "
     "every byte string, the result of the plain character-by-character definition, terminate, and touch no "
     "memory outside their arguments. Concurrent calls on different strings do not affect each other.",
     ["inputs", "schedules"],
     "every byte string, pattern, delimiter set, path and number; concurrent callers",
     "The tests use a handful of ASCII literals: empty patterns, adjacent delimiters, bytes above 127, dots in "
     "directory names, negative numbers and concurrent use are outside them.",
     [U + "string_utils.h"],
     [("replace_all, split", U + "string_utils.h"), ("path helpers", U + "string_utils.h: basename, dirname, "
      "remove_extension, split_extension, file_extension"), ("zero_padded, to_char, as_const_char_array", U + "string_utils.h")],
     technique="property-based testing against character-level references, plus generated thread schedules for split")
prop("U04", "Array references and bounded strings describe exactly the data given to them",
     "A non-owning array or string reference built from a pointer and length, an array, a vector or a string "
     "(embedded NULs included) reads exactly those elements, and taking slices, sub-references, dropped "
     "ends, copies to a vector or string, forward and reverse iteration and bounds-checked access agree with the "
     "underlying data; access past the end through checked access throws. A string stored in a bounded or "
     "compile-time string is the original, cut to what fits and terminated.",
     ["inputs", "histories"],
     "every buffer, sequence of view operations, string and capacity",
     "The tests build one view of one array and one short string per type; longer strings than the capacity, "
     "empty views and chains of slices are not sampled.",
     [U + "array_ref.h", U + "trivial_string.h", U + "const_string.h"],
     [("view arithmetic", U + "array_ref.h"), ("truncation", U + "trivial_string.h: to_trivial_string"),
      ("compile-time string access", U + "const_string.h: operator[]")],
     technique="model-based property testing of view operation sequences (rapidcheck, exactly sized heap buffers, ASan)")
prop("U05", "Multi-dimensional array views address exactly the elements they describe",
     "For every rank, extents (zero included) and strides, a multi-dimensional view's indexing, slices, "
     "sections and iteration over its index space name exactly the row-major (or strided) elements of the "
     "underlying data, visit each index once in lexicographic order, and access outside the extents through "
     "checked access throws instead of touching memory. Index and bounds arithmetic, sizes, emptiness, "
     "containment, random-access iterator jumps and equality agree with componentwise integer arithmetic.",
     ["inputs"],
     "every extents/strides/origin/iterator jump for ranks 1-3, dynamic and static views",
     "The tests fix one or two shapes; empty extents, strided comparison, jumps past row ends and the static "
     "variants are not sampled.",
     [U + "array_view.h", U + "array_view_impl.h"],
     [("offset computation", U + "array_view.h: array_view, strided_array_view operator[]"),
      ("bounds iteration", U + "array_view.h: bounds_iterator"), ("section and slice", U + "array_view.h")],
     technique="property-based testing against explicit offset arithmetic over exactly sized heap buffers (ASan)")
prop("U06", "Set helpers return the mathematical intersection and the distinct elements",
     "Intersecting two unsorted sequences yields exactly the values common to both, with the multiplicity of a "
     "sorted multiset intersection, whatever their order and leaving both as they were, and removing duplicates "
     "collapses every run of equal neighbouring values to one, so that a sorted sequence keeps each distinct value once.",
     ["inputs"], "every pair of sequences of integers or strings, with repeats, in any order",
     "The tests intersect one or two literal pairs; repeats on either side, empty operands and orderings are not sampled.",
     [U + "algorithm.h"],
     [("sort then intersect", U + "algorithm.h: unsorted_set_intersection"), ("unique, erase", U + "algorithm.h: remove_duplicates")],
     technique="property-based testing against multiset references (rapidcheck)")

prop("U07", "Filtering yields exactly the matches; packs and times convert faithfully",
     "Iterating a range through a filtering iterator, from any starting point and over any kind of iterator, yields "
     "references to exactly the elements that satisfy the predicate, once each and in order, before it compares equal "
     "to the end. Turning tuples or value packs into arrays, products or tuples of references keeps every value in "
     "its place, and splitting a number of seconds into days, hours, minutes and seconds loses nothing and keeps each part in its range.",
     ["inputs"], "every range and predicate (none, all, first or last passing), every starting point, every 64-bit number of seconds",
     "None of these headers has a test: the filtering iterator has to be right for every arrangement of matching and other elements.",
     [U + "filter_iterator.h", U + "tuple_to_array.h", U + "template_helpers.h", U + "functional.h", U + "time_utils.h"],
     [("skip to the next match", U + "filter_iterator.h: filter_iterator"), ("elements of a tuple", U + "tuple_to_array.h: to_array"),
      ("remainders", U + "time_utils.h: daysHoursMinutesSeconds")],
     technique="property-based testing against copy_if and plain arithmetic (rapidcheck, ASan)")
prop("U08", "Type queries answer according to what the type can do",
     "For every type, cv or reference qualified or not, the type queries answer from the type alone: callable, callable with "
     "given argument types, subscriptable by a given index type, iterator, container (full or minimal), writable to a "
     "stream, all of one type after decay, all integral, arithmetic, function or same type are answered yes exactly when the "
     "type offers that, inherited members included, and never fail to compile. Decay keeps wrapped references as "
     "references, and the name of a type is its readable one.",
     ["inputs"], "every built-in, library and user-defined class type with any set of members, under any pointers, "
     "references, arrays and const",
     "The tests ask about a handful of fixed types; a query is a function over the open set of all types.",
     [U + "type_traits.h", U + "type_traits_impl.h", "ristra/compatibility/type_traits.h"],
     [("detection by overload resolution", U + "type_traits.h: is_iterator, is_container; " + U + "type_traits_impl.h: is_callable"),
      ("packs", U + "type_traits.h: are_type_t, are_integral"), ("names", U + "type_traits.h: type_as_string")],
     technique="property-based testing over generated types (compiled in batches) against a model of the type; failing types are shrunk")
prop("M01", "Small arrays and multi-dimensional arrays compute element by element",
     "Every arithmetic operator, compound assignment (also with itself as operand), fill, construction and "
     "access of the fixed-size array and the multi-dimensional array gives in each position the result of the "
     "same operation on the corresponding elements or the scalar, for all element types including mixed ones, "
     "and leaves the operands unchanged. Multi-index access of a multi-dimensional array is row-major and "
     "bounds-checked access refuses exactly the indices outside the extents.",
     ["inputs"], "every array content and scalar, for element types int, long, float, double and several shapes",
     "The tests add and multiply one or two literal arrays of doubles; integral division, mixed types, "
     "self-assignment and most index positions are not sampled.",
     [M + "array.h", M + "multi_array.h"],
     [("elementwise operators", M + "array.h, multi_array.h"), ("index linearisation", M + "multi_array.h")],
     technique="property-based testing against scalar loops (rapidcheck)")
prop("M02", "Vector mathematics agrees with its textbook definitions",
     "Averages, elementwise and overall minima and maxima, absolute values, dot, outer, cross and triple "
     "products, magnitudes, normals, unit vectors, squares, signs and delta functions of small vectors equal "
     "their mathematical definitions on every input, exactly for integers and to rounding for reals, and do "
     "not modify their operands.",
     ["inputs"], "every vector of dimension 1-6 and every list of values, integer and real",
     "The tests check a few literal vectors of one dimension; negative integers, ties, reversed order and other "
     "dimensions are not sampled.",
     [M + "general.h", M + "general_impl.h", M + "vector.h", M + "array.h"],
     [("averages and extrema", M + "general.h"), ("products, magnitude, unit", M + "vector.h, array.h")],
     technique="property-based testing against long double / exact integer references (rapidcheck)")
prop("M03", "Matrix algebra obeys its laws",
     "For every matrix, products with matrices and vectors, accumulate-style matrix-vector products with "
     "arbitrary scale factors, transposes, traces, determinants, inverses, row and column access, rotations and "
     "exponentials equal their mathematical definitions: a non-singular matrix times its inverse is the "
     "identity, a rotation is orthogonal and turns about its axis by its angle, and the exponential satisfies "
     "its power series.",
     ["inputs"], "every matrix up to 5x5 with integer or dyadic entries, every angle and axis",
     "The tests invert one or two literal matrices; pivoting order, off-diagonal entries, non-square shapes and "
     "scale factors other than one are not sampled.",
     [M + "matrix.h", M + "general.h"],
     [("closed-form and elimination inverse", M + "matrix.h"), ("matrix_vector, ax_plus_y, axis products", M + "matrix.h"),
      ("matrix exponential", M + "matrix.h")],
     technique="property-based testing against exact integer and extended-precision references (rapidcheck)")
prop("M04", "Tuple arithmetic works component by component",
     "Arithmetic and compound assignment between heterogeneous tuples, or a tuple and a scalar, gives in each "
     "component the result of that operation on the components alone and leaves other operands unchanged, also "
     "when components are themselves arrays.",
     ["inputs"], "every pair of tuple values of one to five components and every scalar",
     "The tests add one pair of literal tuples.",
     [M + "tuple.h"], [("static loop over components", M + "tuple.h")],
     technique="property-based testing against per-component arithmetic (rapidcheck)")

prop("G01", "Points and space vectors form the expected vector space",
     "Points and space vectors of every dimension obey vector-space arithmetic with each other and with "
     "scalars, componentwise equality, dot, cross, norm, distance, midpoint and normal definitions, on every "
     "component value, also when an operand is the object itself. No operation changes an operand it does not "
     "assign to.",
     ["inputs"], "every point/vector of dimensions 1-5 with integer, float or double components",
     "The tests use a few literal points per function; aliasing, odd dimensions and component-specific slips are not sampled.",
     [G + "point.h", G + "space_vector.h", G + "normal.h", U + "dimensioned_array.h"],
     [("componentwise operators", U + "dimensioned_array.h"), ("distance and midpoint", G + "point.h"),
      ("norms, dot, cross", G + "space_vector.h")],
     technique="property-based testing against componentwise references (rapidcheck)")
prop("G02", "Planar shapes report the area, centroid and normal of the polygon described",
     "Triangles, quadrilaterals and general polygons, in two and three dimensions, report the area, centroid, "
     "vertex midpoint and normal of the region their ordered vertices describe, independently of the starting "
     "vertex, of where the shape lies and (up to the sign of the normal) of orientation. The specialised and "
     "the general polygon forms agree with each other.",
     ["inputs"], "every ordered list of 3-9 vertices, planar or warped, with any offset and orientation",
     "The tests compute one or two literal squares and triangles near the origin; offsets, concave or warped "
     "shapes, rotations of the vertex list and orientation are not sampled.",
     [G + "area.h", G + "area_impl.h", G + "centroid.h", G + "centroid_impl.h", G + "shapes/triangle.h",
      G + "shapes/quadrilateral.h", G + "shapes/polygon.h"],
     [("signed-area accumulation", G + "area_impl.h, centroid_impl.h"), ("triangulation about the midpoint", G + "shapes/*.h")],
     technique="property-based testing against exact/long double references plus metamorphic rotations and shifts")
prop("G03", "Solids report the volume, centroid and midpoint of the body described",
     "Tetrahedra, hexahedra and general polyhedra report the volume, centroid and midpoint (the mean of the vertices, "
     "for a polyhedron of the midpoints of its faces) of the body their vertices or faces describe, unaffected by translation and by the order in which faces (or "
     "equivalent vertex numberings) are given. A hexahedron and the polyhedron over its faces agree, and a body "
     "cut into pieces has the sum of their volumes.",
     ["inputs"], "every tetrahedron, distorted affine hexahedron and skewed prism, with any offset",
     "The tests use unit cubes and one tetrahedron; distorted, mirrored, shifted bodies are not sampled.",
     [G + "shapes/tetrahedron.h", G + "shapes/hexahedron.h", G + "shapes/polyhedron.h"],
     [("determinant formulas", G + "shapes/hexahedron.h, tetrahedron.h"), ("face accumulation", G + "shapes/polyhedron.h")],
     technique="property-based testing against divergence-theorem references plus metamorphic relations")

E = "ristra/elements/"
prop("E01", "Finite-element shape functions interpolate at every point of the element",
     "For every element type and every reference point, the shape functions and their partial derivatives are "
     "those of the nodal polynomial space of that element: each is one at its own node and zero at the others, "
     "they sum to one, their partials sum to zero and agree with the derivative of the functions, and the "
     "physical position they give is the interpolation of the vertices. For the arbitrary-order elements this "
     "holds for every order and every choice of one-dimensional nodes.",
     ["inputs"], "every reference point, vertex placement, order and set of 1D nodes, for all 2D, 3D and 4D elements",
     "The tests evaluate each element at its own vertices or at one point; a wrong coefficient of one function in "
     "one direction shows at other points or in other partials only.",
     [E + "elements.cc", E + "elements.h"],
     [("nodal basis and partials per element", E + "elements.cc: Quad_4_2D, Quad_8_2D, Quad_12_2D, QuadN, Hex8, Hex20, Hex32, HexN, Tess16"),
      ("Lagrange basis", E + "elements.cc: QuadN::lagrange_1D, HexN::lagrange_1D, basis_partials")],
     technique="property-based testing against Vandermonde and Lagrange references solved independently (rapidcheck)")
prop("E02", "Quadrature rules integrate every polynomial up to their degree exactly",
     "The one-dimensional Gauss-Lobatto and Gauss-Legendre points and weights and the rules built from them in two, "
     "three and four dimensions lie in the reference cell, have weights summing to its measure, and integrate "
     "every polynomial of the rule's exactness degree in each direction to rounding, for every order on offer. "
     "Labels, ordering and storage of the tensor-product rules agree with the one-dimensional rule.",
     ["inputs"], "every rule and order, every polynomial of the exactness degree",
     "The tests look at one or two orders; a mistyped digit or swapped entry of another order is invisible to them.",
     [E + "elements.cc"],
     [("tabulated points and weights", E + "elements.cc: LineGaussRuleInfo, LineLobattoRuleInfo"),
      ("tensor products", E + "elements.cc: Gauss2D-4D, Lobatto2D-4D")],
     technique="property-based testing against exact integrals of generated polynomials (rapidcheck)")
prop("E03", "Jacobians, their determinants and inverses are those of the element mapping",
     "For every set of nodes and partials the jacobian matrix, its determinant and its inverse, in two, three and "
     "four dimensions, are the matrix of derivatives of the mapping, its determinant and the matrix whose product "
     "with it is the identity; on an element they agree with finite differences of the physical position.",
     ["inputs"], "every node placement and partials, every well-conditioned matrix",
     "The tests use axis-aligned cells, whose jacobians are diagonal: off-diagonal terms are never exercised.",
     [E + "elements.cc"],
     [("jacobian sums", E + "elements.cc: jacobian, jacobian4D"),
      ("cofactor inverses", E + "elements.cc: jacobian_inverse_2d, jacobian_inverse_3d, jacobian_inverse_4d")],
     technique="property-based testing against extended-precision elimination and difference quotients (rapidcheck)")

A = "ristra/atomics/src/"
prop("A01", "Atomic operations are indivisible under every schedule",
     "Every operation on an atomic variable - arithmetic, bitwise, shift, increment and decrement, minimum and "
     "maximum, in each scheme that promises atomicity and each calling form - takes effect "
     "at one instant: whatever other threads do between its reads and its write, whatever spurious failures "
     "compare-and-swap reports, no update is lost or applied twice, and the value returned is the one that "
     "belongs to that instant. The memory orders asked for are the ones used.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of other updates with an operation's accesses, spurious CAS failure patterns, thread programs",
     "The tests run each operation on one thread, or race a few threads without control of the schedule, so the "
     "window between a read and its write is rarely hit.",
     [A + "atomics.h", A + "atomics-macro-class.h"],
     [("compare-exchange loops", A + "atomics.h: internal::update"), ("lock scheme", A + "atomics.h: apply(ATOMIC&, lock, ...)"),
      ("cpp scheme forwarding", A + "atomics-macro-class.h")],
     technique="generated schedules over an instrumented std::atomic, nested operations, and real-thread histories "
               "checked against sequential specifications",
     note="The schedule of the instrumented cases is owned by the harness; hardware reordering is not explored.")
prop("A02", "An atomic variable behaves like a plain one on a single thread",
     "On every history of operations by one thread - constructors, assignment, load, store, exchange, "
     "compare-exchange, every arithmetic, bitwise, shift, increment, decrement, minimum and maximum operation, "
     "as operator, member or free function, in every scheme and memory order, on volatile or plain objects - an "
     "atomic variable of integer, floating-point or pointer type holds and returns the values a plain variable "
     "would.",
     ["histories", "inputs"],
     "every operation sequence, value type, scheme, form and memory order",
     "The tests apply each operation once to a couple of fixed values; sequences and unusual combinations of form, "
     "scheme and type are not sampled.",
     [A + "atomics.h", A + "atomics-macro-class.h", A + "atomics-macro-function.h", A + "atomics-macro-member.h"],
     [("operation functors", A + "atomics-macro-class.h, atomics.h"), ("scheme dispatch", A + "atomics.h: apply"),
      ("forms", A + "atomics-macro-member.h, atomics-macro-function.h, atomics-macro-operator.h")],
     technique="stateful property-based testing against a plain value (rapidcheck, ASan/UBSan)")

D = "ristra/assertions/"
prop("D01", "A contract assertion reports exactly the broken contracts",
     "In each configuration (throw, notify, do nothing; contracts on or off) a contract macro acts if and only if "
     "its condition is false for the operands given: it throws a logic error, or writes to the chosen stream, or "
     "stays silent, once per failure, naming file, line, function, expression and operand values. Its value is the "
     "condition, its operands are evaluated once, switched-off contracts evaluate nothing, and Insist is never "
     "switched off. The error macros throw the promised exception type after saying where and why.",
     ["inputs", "histories"],
     "every operand value (NaN and infinities included), every sequence of uses, each configuration",
     "The tests try each macro on one passing and one failing pair of integers; boundaries, NaN, other types and "
     "repeated reports are not sampled.",
     [D + "dbc.h", D + "dbc_impl.h", D + "dbc_impl.cc", D + "errors.h", D + "here.h", D + "exceptions.h"],
     [("comparison functions", D + "dbc.h: equal_func ... one_of_func"), ("action dispatch", D + "dbc_impl.cc: assertf; dbc_impl.h: assertf_l"),
      ("error macros", D + "errors.h")],
     technique="property-based testing of macro uses in five build configurations against the plain comparison (rapidcheck)")

L = "ristra/embedded/"
prop("L01", "Values read from Lua are the values the script holds, or are refused",
     "Reading any global or nested table entry of a script through keys and indices, as any supported C++ type "
     "(booleans, integers, reals, strings, sequences, fixed arrays, vectors, matrices), yields exactly the Lua value "
     "when that type can hold it and raises an error otherwise; missing entries are empty, take the default given, or "
     "are refused by the checked accessors. Sizes are Lua's lengths. Reading never disturbs the interpreter's stack, "
     "and a result obtained keeps its value when the script changes, garbage is collected or the interpreter object "
     "goes away, and lets go of it when its last copy is gone.",
     ["inputs", "histories"],
     "every Lua value (nested tables, embedded zero bytes, infinities, integer limits), path and target type",
     "The tests read a dozen fixed entries of one script with the type they have; other types, ranges, lengths, "
     "missing entries, failures and lifetimes are not sampled.",
     [L + "embed_lua.h"],
     [("conversions", L + "embed_lua.h: lua_value<T>::get"), ("lookup", L + "embed_lua.h: lua_result_t::operator[], lua_t::operator[]"),
      ("value lifetime", L + "embed_lua.h: lua_ref_t")],
     technique="property-based testing of generated Lua values and paths against a C++ model of the script (rapidcheck, ASan/UBSan)")
prop("L02", "Calling Lua passes every argument and returns every result, also after errors",
     "On every history of calls, scripts, loaded files and failing calls over several interpreters, a Lua function "
     "called from C++ receives exactly the arguments given (arrays spread into numbers), its results arrive complete, "
     "in order and converted, an error inside Lua, a wrong number of results or a call of something that is no function "
     "raises a C++ exception and leaves the interpreter usable with nothing left on its stack, and functions wrapped as std::function stay callable "
     "after the objects they came from are gone.",
     ["histories", "inputs"],
     "every sequence of calls, arguments, results and errors on two interpreters",
     "The tests call a few functions once each; combinations, errors in between and lifetimes are not sampled.",
     [L + "embed_lua.h"],
     [("call protocol", L + "embed_lua.h: lua_result_t::operator()"), ("argument pushing", L + "embed_lua.h: lua_push, push_args"),
      ("wrapped functions", L + "embed_lua.h: Lua_Func_Wrapper"), ("scripts", L + "embed_lua.h: run_string, loadfile")],
     technique="stateful property-based testing against a model of both interpreters (rapidcheck, ASan/UBSan)")
prop("Y01", "Python calls pass and return exact numbers and report every Python error",
     "On every history of imports, attribute look-ups, tuples, calls and conversions, numbers cross into Python and "
     "back unchanged, functions receive the arguments in order, missing modules and attributes, raised exceptions (other "
     "than SystemExit) and values of the wrong kind become C++ exceptions with no error left pending for the next call, and no reference is "
     "lost or released twice, even where the operation fails.",
     ["histories", "inputs"],
     "every sequence of those operations in one interpreter, over all number values",
     "The test calls one function with fixed numbers; errors, sequences of calls and reference counts are not sampled.",
     [L + "embed_python.h"],
     [("conversions", L + "embed_python.h: as_python, python_as_long, python_as_double"), ("calls", L + "embed_python.h: python_call_function"),
      ("errors and references", L + "embed_python.h: python_import, python_get_attribute, python_add_to_path")],
     technique="stateful property-based testing against a model, with reference counts observed (rapidcheck, ASan/UBSan)")

I = "ristra/initialization/"
prop("I01", "Every registered input resolves to the Lua value, else to its default",
     "On every history of registering targets, providing hard-coded values, switching Lua files, resolving, reading, "
     "writing and clearing, each registered (name, type) target gets the Lua value if the Lua source has one, else the "
     "hard-coded one, else it is reported as unresolved: resolution succeeds exactly when nothing is unresolved. "
     "Inputs of different types under one name do not affect each other, resolving again gives the values the sources "
     "hold then, a Lua value of another type is refused with an exception rather than replaced by the default, values "
     "are shared by all engines and survive the engine, and a missing value raises an exception instead of returning one.",
     ["histories", "inputs"],
     "every such history over six value types including functions, and every Lua file content",
     "The tests resolve two fixed problem set-ups once; re-resolution, mixed sources, missing or mistyped values and "
     "same-name inputs of different types are not sampled.",
     [I + "input_engine.h", I + "input_source.h", I + "inputs_impl.h"],
     [("resolution order", I + "input_engine.h: resolve_inputs_, resolve_input_"), ("typed registries", I + "input_engine.h: input_registry"),
      ("sources", I + "input_source.h: hard_coded_source_t, lua_source_t::value_getter")],
     technique="stateful property-based testing against a model of registries and sources (rapidcheck, ASan/UBSan)")
prop("I02", "A Lua input file is read from exactly the table and key registered for a value",
     "For every tree of tables in an input file and every sequence of registrations of tables and values (with parent "
     "table and a different Lua name), a value, its size and its raw result come from the table and key last "
     "registered for it and nowhere else; absent values count as not found, keys or tables never registered and files "
     "that are unreadable or lack the required tables are refused with an exception. The plain input object reads the "
     "globals of all files loaded into it, the latest definition winning.",
     ["inputs", "histories"],
     "every input file and registration sequence",
     "The tests read one file with the built-in keys; aliases, nested tables, displaced registrations, equal keys in "
     "several tables and failures are not sampled.",
     [I + "input_source.h", I + "input.h"],
     [("table and key maps", I + "input_source.h: lua_source_t::register_value, register_table, load_table"),
      ("look-up", I + "input_source.h: value_getter, get_size, get_lua_result_raw, get_table"), ("input_t", I + "input.h")],
     technique="stateful property-based testing against a model of the file and the registrations (rapidcheck, ASan/UBSan)")
prop("I03", "An initialization value is handed out only when resolved and valid",
     "A declared initialization value registers itself under its namespace and name; on every history of declarations, "
     "defaults, resolutions and reads, get() returns the resolved value (by reference to the shared one, a copy for "
     "functions) exactly when there is one and its validator accepts it and throws otherwise, resolved() and valid() "
     "answer accordingly without throwing, and the status reported after each call says which of these happened.",
     ["histories", "inputs"],
     "every such history over six value types, validators and namespaces",
     "The tests use one value per type, valid or not, once; re-resolution, several declarations of one input, "
     "namespaces and repeated questions are not sampled.",
     [I + "init_value.h", I + "input_engine.h"],
     [("status transitions", I + "init_value.h: get, resolved, valid"), ("registration and naming", I + "init_value.h: register_val, full_name")],
     technique="stateful property-based testing against a model (rapidcheck, ASan/UBSan)")
IO = "ristra/io/catalyst/"
prop("T01", "In-situ helper routines report files, images, logs and times as they are",
     "The script list of an input file is exactly its catalyst-scripts entry, in order, each path relative to the "
     "directory of that file (the current one for a bare file name), empty when there is no such entry, and a file "
     "that is no such list is refused with an exception. Two files compare equal exactly when their bytes are, two images are similar "
     "exactly when they have the same size and channels and at most two percent of their values differ, and comparing "
     "releases all memory. Replacing text changes the first occurrence only. Log files hold exactly the text written, "
     "appended or replaced as asked, and a timer reports the time from its latest start to its stop.",
     ["inputs", "histories"], "every JSON input file and path form, pair of files and images around the threshold, history of log and timer calls",
     "Nothing in ristra/io has a test; path forms, sizes, thresholds and restarts need generated inputs.",
     [IO + "utils/catalystUtils.hpp", IO + "utils/insituLog.hpp", IO + "utils/insituTimer.hpp"],
     [("scripts", IO + "utils/catalystUtils.hpp: getCatalystScripts"), ("comparison", IO + "utils/catalystUtils.hpp: imageCompare, compareFiles"),
      ("timers", IO + "utils/insituTimer.hpp: InsituTimer")],
     technique="property-based testing against byte-level references, with generated files and a settable clock (rapidcheck, ASan)")
prop("T02", "In-situ output receives the mesh, fields and time steps unchanged",
     "For every mesh, the grid handed to ParaView has every vertex at the position of its id (the third coordinate zero "
     "in two dimensions), every owned cell once and in order as a polyhedron with its vertices and faces, each face listed as seen from "
     "that cell, and no ghost cell. Every scalar, vector or tensor field appears under its name on points or cells as asked with all "
     "values and components in order. Files are written under the name, format and pieces asked for. On every history of "
     "steps each script's pipeline is added once, a step is processed with its own grid, time and number exactly when it was requested, "
     "the last step is always forced, and nothing handed to VTK is leaked, released twice or overrun.",
     ["inputs", "histories"], "every polyhedral mesh with shared faces and ghost cells in two and three dimensions, every set of fields, every history of steps",
     "Nothing in ristra/io has a test or is even compiled by the build; orientation, ghosts, ids and lifetimes depend on the mesh.",
     [IO + "adaptor.h", IO + "flecsale_unstructuredGrid.h", IO + "vtk/unstructuredGrid.h"],
     [("mesh", IO + "flecsale_unstructuredGrid.h: createMesh, writeCellsToGrid"), ("fields", IO + "vtk/unstructuredGrid.h: setScalarData, addVectorData"),
      ("steps", IO + "adaptor.h: adaptor_t, processCatalyst")],
     technique="property-based testing over generated meshes and step histories against recording stand-ins for VTK and the mesh (rapidcheck, ASan)")
prop("C01", "Command-line options reach the program exactly as given",
     "For every set of registered options (typed or flags, in groups) and every command line, each option given in any "
     "of the long or short forms has the value given, others read as their default and count zero, unknown options and "
     "plain words are passed over, and a line with a missing, malformed or repeated value is reported through the error "
     "flag instead of an exception. Help and error texts list every option under its group and go nowhere when printing "
     "is off; results stay unchanged by later command lines.",
     ["inputs"],
     "every option set and command line without abbreviated option names",
     "There is no test of command-line handling; combinations of forms, types, groups and errors are unbounded.",
     [I + "arguments.h"],
     [("registration", I + "arguments.h: register_group, register_argument"), ("parsing", I + "arguments.h: process_arguments"),
      ("values", I + "arguments.h: command_line_variables_t")],
     technique="property-based testing of generated option sets and command lines against the generator's own record (rapidcheck, ASan/UBSan)")

NOT_APPLICABLE = []
