"""What each check builds and runs; see DESIGN.md."""
import os
CHECKS = {
    "U01": dict(
        quick=5, thorough=60,
        bins=[dict(src=["U01.cc"])],
        rule="a case is a history of 1-24 operations over two vectors of one element type and "
             "capacity; non-trivial: at least 3 operations, one of them an insert or erase",
    ),
}
CHECKS["U02"] = dict(
    bins=[dict(src=["U02.cc"])],
    rule="a case is a set of equally long (or, for the refusal check, unequal) containers, or a "
         "tuple pair, with generated contents; non-trivial: at least two rows / differing values")
CHECKS["U03"] = dict(
    bins=[dict(src=["U03.cc"])],
    rule="a case is a generated string or number with the helper's other arguments; non-trivial: "
         "the helper has something to do (a match, two tokens, both a dot and a slash, two digits)")
CHECKS["U04"] = dict(
    bins=[dict(src=["U04.cc"])],
    rule="a case is a buffer and a sequence of view operations, or a string and a fixed capacity; "
         "non-trivial: three elements and two operations, or a non-empty string")
CHECKS["M01"] = dict(
    bins=[dict(src=["M01_1.cc", "M01_2.cc", "M01_3.cc"])],
    rule="a case is two or three arrays and scalars of one element type and shape, run through every "
         "operation; non-trivial: more than one element and not all zero (access cases: a non-zero index)")
CHECKS["M02"] = dict(
    bins=[dict(src=["M02.cc"])],
    rule="a case is one or more generated vectors (components exact dyadic rationals or integers); "
         "non-trivial: at least two values / a non-zero vector",
    assumptions=["real results are compared with long double references within a few ulp of the operand scale"])
CHECKS["M03"] = dict(
    bins=[dict(src=["M03_1.cc", "M03_2.cc", "M03_3.cc"])],
    rule="a case is one or more matrices with small integer or dyadic entries; non-trivial: "
         "non-singular and not symmetric (inversion), distinct operands / non-zero (others)",
    assumptions=["exact integer references; inverse within 32 ulp per entry, exponential within "
                 "1e-11*exp(norm)*(1+norm)"])
CHECKS["M04"] = dict(
    bins=[dict(src=["M04.cc"])],
    rule="a case is a pair of heterogeneous tuples and a scalar; non-trivial: the operands differ")
CHECKS["G01"] = dict(
    bins=[dict(src=["G01.cc", "G01_n.cc"])],
    rule="a case is two or three points or space vectors with exact dyadic (or integer) components "
         "and scalars; non-trivial: the operands differ",
    assumptions=["norms are compared with long double references within 8-16 ulp of the operand scale"])
CHECKS["G02"] = dict(
    bins=[dict(src=["G02.cc"])],
    rule="a case is an ordered vertex list of 3-9 vertices (any simple or self-crossing polygon, "
         "planar or warped in 3D) with a common offset; non-trivial: at least 4 vertices",
    assumptions=["real results within a tolerance proportional to n*ulp*scale^k; centroids only where "
                 "the area is well above rounding"])
CHECKS["G03"] = dict(
    bins=[dict(src=["G03.cc"])],
    rule="a case is a solid: 4 vertices, 8 vertices of a distorted affine cube, or a skewed prism over "
         "an n-gon, with a common offset; non-trivial: its volume is well above rounding",
    assumptions=["real results within 1000 ulp*scale^3; centroids only where the volume is well above "
                 "rounding"])
CHECKS["U05"] = dict(
    bins=[dict(src=["U05.cc"])],
    rule="a case is a set of extents (zero included), strides, jumps of an iterator and section "
         "origins over an exactly sized heap buffer; non-trivial: more than one element")
CHECKS["U06"] = dict(
    bins=[dict(src=["U06.cc"])],
    rule="a case is one or two unsorted sequences with repeats; non-trivial: the intersection has two "
         "elements, or there is a repeat to collapse")
CHECKS["U07"] = dict(
    bins=[dict(src=["U07.cc"])],
    rule="a case is a sequence with a predicate and a starting point, a number of seconds, or a pack of values; "
         "non-trivial: some but not all elements pass and at least two do, more than a day, two different values")
CHECKS["T01"] = dict(
    bins=[dict(src=["T01.cc"], libs=["-lz"])],
    rule="a case is a JSON input file, a pair of files or images, a string to replace in, or a history of logging or "
         "timing; non-trivial: two scripts, images of more than 50 values that differ somewhere, several operations",
    assumptions=["the clock is replaced by a settable one", "image files are binary PGM and PPM, TGA, BMP and PNG"])
VTK = ["-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", "vtk"), "-DRISTRA_ENABLE_CATALYST"]
CHECKS["T02"] = dict(
    bins=[dict(src=["T02.cc"], name="T02_%d" % d, flags=VTK + ["-DMESH_DIMS=%d" % d]) for d in (2, 3)],
    rule="a case is a polyhedral mesh with ghost cells and shared faces, a set of fields, a sequence of builder "
         "calls, a way of writing, or a history of co-processing steps; non-trivial: two cells, two fields, two points, two steps",
    assumptions=["VTK, ParaView Catalyst, MPI and the FleCSALE mesh are replaced by stand-ins (lib/vtk) that keep what "
                 "they are given, count references and refuse misuse"])
CHECKS["E01"] = dict(
    quick=40, thorough=600,
    bins=[dict(src=["E01.cc"], repo_src=["ristra/elements/elements.cc"])],
    rule="a case is one to four reference points and a set of vertices for one element type (order, 1D nodes "
         "and physical nodes for arbitrary-order ones); non-trivial: two points and distorted vertices, or order > 1",
    assumptions=["values within 1e-12 of the largest shape function (derivatives 1e-11); Lagrange values within "
                 "16n-64n ulp of the terms summed"])
CHECKS["E02"] = dict(
    quick=40, thorough=600,
    bins=[dict(src=["E02.cc"], repo_src=["ristra/elements/elements.cc"])],
    rule="a case is a rule (kind, dimension, order) and one integer polynomial of full exactness degree per "
         "direction; non-trivial: more than one point per direction",
    assumptions=["integrals within 1e-14 (line) / 4e-14 (tensor) of the polynomial's coefficient norm"])
CHECKS["E03"] = dict(
    quick=40, thorough=600,
    bins=[dict(src=["E03.cc"], repo_src=["ristra/elements/elements.cc"])],
    rule="a case is a set of nodes and partials, a square matrix, or an element with vertices and a point; "
         "non-trivial: enough nodes for a full-rank matrix / well-conditioned and not symmetric",
    assumptions=["rounding tolerance proportional to the permanent of the absolute entries"])
CHECKS["A01"] = dict(
    bins=[dict(src=["A01.cc"], pre=["-include", "tap.h"], flags=["-I@REPO@/ristra/atomics/src"], libs=["-latomic", "-lpthread"])],
    history_proof=True, jobs=2,
    rule="a case is one operation (form, scheme, operand, memory orders) with a plan of interfering changes and "
         "spurious failures at its accesses, an operation with others nested in it, or a program per thread; "
         "non-trivial: something interferes / more than one thread",
    assumptions=["real-thread cases explore the schedules the machine produces; the instrumented std::atomic<> and "
                 "nested cases own theirs", "hardware reordering is not explored: memory orders are checked as "
                 "passed to the underlying atomic"])
CHECKS["A02"] = dict(
    quick=60, thorough=600,
    bins=[dict(src=["A02_%d.cc" % i for i in range(1, 7)], flags=["-I@REPO@/ristra/atomics/src"],
               libs=["-latomic", "-lpthread"])],
    rule="a case is a history of up to 12 operations (operation, form, scheme, operand, memory order) on one atomic "
         "variable of one value type; non-trivial: at least two operations")
CHECKS["D01"] = dict(
    quick=20, thorough=300,
    bins=[dict(src=["D01_%s.cc" % m], repo_src=["ristra/assertions/dbc_impl.cc"], name="D01_" + m)
          for m in ("throw", "notify", "nothing", "off_throw", "off")],
    rule="a case is a sequence of 1-5 uses of the contract macros with generated operands, in one of five "
         "configurations, or one error macro; non-trivial: at least one contract is broken")
LUA = dict(flags=["-I/usr/include/lua5.3"], libs=["-llua5.3"])
CHECKS["L01"] = dict(
    quick=40, thorough=400,
    bins=[dict(src=["L01.cc"], **LUA)],
    rule="a case is one to three generated Lua values (nested tables included) and lookup paths into them, each read "
         "as every supported type; non-trivial: a non-empty table")
CHECKS["L02"] = dict(
    quick=40, thorough=400,
    bins=[dict(src=["L02.cc"], **LUA)],
    rule="a case is a history of 1-8 steps (calls with generated arguments and results, failing calls, scripts, files, "
         "wrapped functions, kept values) on two interpreters; non-trivial: three different kinds of step")
CHECKS["Y01"] = dict(
    quick=40, thorough=400, batches=4,
    bins=[dict(src=["Y01.cc"], flags=["-I/usr/include/python3.12"], libs=["-lpython3.12"])],
    rule="a case is a history of 1-8 steps (calls with generated numbers, imports, tuples, conversions and errors of "
         "each kind) in one interpreter; non-trivial: three different kinds of step")
ENG = dict(flags=LUA["flags"], libs=LUA["libs"], repo_src=["ristra/assertions/dbc_impl.cc"])
CHECKS["I01"] = dict(
    quick=12, thorough=200,
    bins=[dict(src=["I01.cc"], **ENG)],
    rule="a case is a history of up to 14 steps (registering targets of six types, hard-coded values, generated Lua files, "
         "resolving, reading, writing, clearing, a second engine), or a whole start-up; non-trivial: targets, values and a "
         "resolution")
CHECKS["I02"] = dict(
    quick=12, thorough=200,
    bins=[dict(src=["I02.cc"], **ENG)],
    rule="a case is a generated tree of Lua tables and up to 12 registrations and reads, or up to three files loaded into one "
         "input; non-trivial: hydro present and two registrations / two files")
CHECKS["I03"] = dict(
    quick=12, thorough=200,
    bins=[dict(src=["I03.cc"], **ENG)],
    rule="a case is a history of 4-24 steps (declaring init values with validators and namespaces, defaults, resolving, "
         "reading, validity questions, writes) over one or two types; non-trivial: a declared value read twice")
CHECKS["C01"] = dict(
    quick=40, thorough=600,
    bins=[dict(src=["C01.cc"], libs=["-lboost_program_options"])],
    rule="a case is a set of up to six options of five kinds in groups and one to three command lines; non-trivial: a line "
         "gives two registered options")
CHECKS["U08"] = dict(
    types=True, bins=[],
    rule="a case is a generated C++ type (or pack of types) and a type query; the type is built from "
         "built-in types, library templates and generated classes with chosen members, under pointers, "
         "references, arrays and const; non-trivial: anything but plain built-in types is involved",
    assumptions=["the expected answer is computed from how the type was generated; demangled names are "
                 "those of the installed C++ library"])
