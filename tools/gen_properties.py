#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/lsst/sphgeom/"
S = "src/"
Y = "python/lsst/sphgeom/"

# ---------------------------------------------------------------- claimed
prop("C01", "Stored regions survive crashes and restarts unchanged",
 "A region (box, circle, ellipse, convex polygon, union or intersection, nested to any depth) whose encoded bytes were durably stored is read back after any crash or restart as a region of the same type that re-encodes to the same bytes, compares equal, and gives the same answer to every query: containment, relations, bounding shapes, area, text form, operands, pixel envelopes and interiors, chunk overlaps. This includes empty, full, point-like, pole-touching and wrap-around regions. A stored record that was cut short is rejected with a documented error unless what remains is itself a complete encoding.",
 ["inputs", "histories", "crash_points", "fault_sequences"],
 "every region value reachable through constructors and mutators; every sequence of put/overwrite/sync/crash/restart on the store holding the bytes; every tear, loss or short write of unsynced data",
 "tests encode and decode a handful of hand-written regions of each type back to back in one process; they never store them, restart, or compare the full answer set of the decoded region on special values",
 [S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"CompoundRegion.cc", S+"Region.cc", I+"codec.h"],
 [("encode()/decode() pair of every region type", "src/{Box,Circle,Ellipse,ConvexPolygon,CompoundRegion}.cc"),
  ("type-code dispatch", "Region::decode in src/Region.cc"),
  ("redundant fields are stored, not recomputed (circle opening angle and chord, ellipse gamma/tangents)", "src/Circle.cc, src/Ellipse.cc")],
 [("encoded record", "type code byte followed by little-endian doubles / length-prefixed operands", "src/*.cc encode()")],
 ["Region::encode", "Region::decode", "operator==", "all const queries"])

prop("C02", "Damaged region encodings are rejected safely or decode to usable regions",
 "Decoding any byte string through any decode entry point either fails with a documented exception or returns a region of a type the caller asked for; it never reads outside the given bytes, leaks, crashes, hangs, or allocates out of proportion to the input. Truncated, extended, mistyped, spliced or internally inconsistent lengths are reported as errors whenever the fixed sizes and length prefixes of the format make them detectable. A region that is accepted can be cloned, re-encoded, decomposed, tested for points and asked for its bounds without memory errors, and re-encoding and decoding it again reproduces the same bytes.",
 ["inputs", "fault_sequences"],
 "every byte string obtained from valid encodings by bit flips, truncation at any byte, extension, torn sector writes, splices between records, misdirected length prefixes and re-tagging, plus arbitrary bytes, for each of the seven C++ entry points",
 "tests decode valid strings plus a few wrong-length ones; corruption at an arbitrary byte of a nested record is never produced",
 [S+"Region.cc", S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"CompoundRegion.cc"],
 [("size and type-code guards of each decode()", "src/*.cc decode()"),
  ("bounds-checked length prefixes", "consumeDecodeU64 / CompoundRegion::_decode in src/CompoundRegion.cc")],
 None, ["Region::decode", "Box/Circle/Ellipse/ConvexPolygon/CompoundRegion/UnionRegion/IntersectionRegion::decode"])

prop("C03", "All builds read and write one fixed little-endian wire format",
 "Encoded regions have one byte format: the documented type code followed by little-endian IEEE doubles and 64-bit lengths, independent of the build (optimised or portable code paths, SIMD or not) and of the process that wrote them. Any mixture of such builds exchanging and re-encoding regions in any order agrees byte for byte and on every query, and bytes written by earlier versions of the library stay readable with the same meaning.",
 ["configurations", "inputs", "histories", "fault_sequences"],
 "every assignment of the build configurations {optimised, NO_OPTIMIZED_PATHS, NO_SIMD, both, other optimisation levels} to the nodes of a simulated exchange; every delivery order with duplicates, drops and delays; every region",
 "the tests run one build on one machine and only check that this build can read its own output",
 [I+"codec.h", S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"CompoundRegion.cc", I+"UnitVector3d.h", S+"utils.cc"],
 [("portable byte shuffling when OPTIMIZED_LITTLE_ENDIAN is off", "include/lsst/sphgeom/codec.h"),
  ("fixed field order", "src/*.cc encode()")],
 None, ["encode() byte strings", "decode()"])

prop("C04", "A RangeSet is exactly the set of integers its history describes",
 "After any sequence of construction, insertion, erasure, complement, set algebra, scaling, simplification, copying, swapping, moving and clearing - with arguments that may wrap past 2^64, alias the target, or be empty or full, and with some operations failing for lack of memory on the way - a range set equals the mathematical set of 64-bit unsigned integers those completed operations define. Its ranges enumerate that set as disjoint, non-adjacent, ascending half-open ranges (and the complement's ranges the complement) in every iteration style; equality, emptiness, size, cardinality, validity and every containment, intersection and disjointness query agree with the mathematical set.",
 ["histories", "inputs", "fault_sequences"],
 "every finite operation history over several range sets, with end points anywhere in [0, 2^64) including the wrap-around point, self-aliased operands, and allocation failures between completed operations",
 "unit tests apply a few fixed operations to small sets; the representation (bookends, parity, offset flag) is only exercised on histories someone thought of",
 [I+"RangeSet.h", S+"RangeSet.cc"],
 [("bookend representation with offset parity", "RangeSet::_ranges/_offset in include/lsst/sphgeom/RangeSet.h"),
  ("in-place merge of an inserted range", "RangeSet::_insert in src/RangeSet.cc"),
  ("recursive interval intersection", "RangeSet::_intersect* in src/RangeSet.cc")],
 [("range list", "sorted begin/end points between two zero bookends", "RangeSet::_ranges"),
  ("complement flag", "whether the set starts at the first or second stored value", "RangeSet::_offset")],
 ["RangeSet public API", "operator<<"])

prop("C05", "RangeSet changes are all-or-nothing when memory runs out",
 "If memory runs out during any operation on range sets, the operation reports the failure and every set involved (target and arguments) still holds exactly the elements it held before and remains valid and fully usable. Nothing leaks, and repeating the operation once memory is available gives the same result as if the failure had not happened. Erasing, clearing, filling, complementing, scaling and simplifying sets never corrupt them whatever fails.",
 ["fault_sequences", "histories"],
 "every operation history, every allocation made by it chosen as the failing one, one-shot and persistent exhaustion, and every continuation after the failure",
 "no test makes an allocation fail; the documented strong exception guarantee is untested",
 [I+"RangeSet.h", S+"RangeSet.cc"],
 [("reserve before in-place modification", "RangeSet::insert in src/RangeSet.cc"),
  ("complement restored by destructor", "RangeSet::erase in src/RangeSet.cc"),
  ("compute into temporary, then swap", "compound assignment operators in include/lsst/sphgeom/RangeSet.h")],
 None, ["std::bad_alloc", "contents of target and operands", "live allocations"])

prop("C06", "Region operations are all-or-nothing when memory runs out",
 "If memory runs out while a region is being built, copied, encoded, decoded, combined, decomposed, hulled, related, bounded or converted, the call reports the failure by exception; no partially built or wrong result is returned, the process does not terminate, and nothing leaks. All regions and byte strings involved are unchanged and usable, and repeating the call once memory is available gives exactly the fault-free result.",
 ["fault_sequences", "inputs"],
 "every region operation, every region operand (including nested compounds), every allocation in the call chosen as the failing one, one-shot and persistent exhaustion",
 "no test injects allocation failures",
 [S+"ConvexPolygon.cc", S+"CompoundRegion.cc", S+"Region.cc", S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"orientation.cc"],
 [("owning smart pointers for partially built results", "src/CompoundRegion.cc, src/*.cc decode()"),
  ("results built in locals and returned by value", "src/ConvexPolygon.cc computeHull, encode()")],
 None, ["std::bad_alloc", "encode() of every operand", "live allocations"])

prop("C07", "Pixel and chunk queries are all-or-nothing when memory runs out",
 "If memory runs out during a pixelization or chunking query (pixel envelope or interior, pixel geometry, names, universe, chunks or sub-chunks overlapping a region, chunk lists) or while constructing a pixelization or chunker, the call reports the failure and never returns a truncated answer. The pixelization or chunker and the region are unchanged, nothing leaks, and repeating the query once memory is available gives exactly the fault-free answer.",
 ["fault_sequences", "inputs", "configurations"],
 "every query kind on every pixelization (HTM, Q3C, modified Q3C) and level, chunker configuration, region and range limit, with every allocation of the call chosen as the failing one",
 "no test injects allocation failures; a truncated envelope would silently lose sky area",
 [S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"PixelFinder.h", S+"Q3cPixelizationImpl.h", S+"Chunker.cc", S+"RangeSet.cc"],
 [("answers accumulated into a local range set returned by value", "PixelFinder in src/PixelFinder.h"),
  ("result vectors local to the query", "src/Chunker.cc")],
 None, ["std::bad_alloc", "query results", "live allocations"])

prop("C08", "Concurrent read-only use of shared objects is safe and exact",
 "Any number of threads may at the same time query the same regions, range sets, pixelizations and chunkers, encode and decode, and call the free functions, including the very first calls in the process: every call returns (or throws) exactly what it would with no other thread running. No schedule, stall of a thread inside a call, or failure of a call in one thread produces a data race or changes what another thread observes.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of the memory accesses of concurrent read-only calls on shared objects, from a freshly started process, with stalls and allocation failures in individual threads",
 "all tests are single-threaded, and first-use initialisation happens once per process",
 [S+"HtmPixelization.cc", S+"Circle.cc", S+"Vector3d.cc", S+"orientation.cc", S+"UnitVector3d.cc", S+"ConvexPolygonImpl.h", S+"Chunker.cc", S+"PixelFinder.h"],
 [("const query methods without mutable or global state", "include/lsst/sphgeom/*.h"),
  ("function-local static constant tables", "src/HtmPixelization.cc, src/orientation.cc, src/Circle.cc")],
 None, ["results of every call", "memory accesses to shared data"])

prop("C09", "Regions are independent values whatever the order of copy, change, release",
 "Copies, clones, operands, decompositions, encodings and query results are independent of the objects they came from: in any order of creating, copying, assigning, mutating, moving from, passing as their own argument, and destroying regions and range sets, changing or releasing one object never changes, invalidates or leaks another. Compound regions keep their own copies of their operands, decomposing a region returns regions that outlive it, and each in-place modifier leaves its target equal to what the corresponding copying form returns.",
 ["histories", "schedules"],
 "every finite history of create/copy/assign/clone/compose/decompose/mutate/move/destroy steps over a pool of objects, in every destruction order, with freed memory overwritten",
 "tests keep all objects alive to the end of the test and check one call at a time",
 [S+"CompoundRegion.cc", S+"Region.cc", I+"CompoundRegion.h", I+"Box.h", I+"Circle.h", I+"Ellipse.h", I+"ConvexPolygon.h", I+"Region.h", I+"RangeSet.h"],
 [("deep clone of operands", "CompoundRegion constructors in src/CompoundRegion.cc"),
  ("flattening by clone", "Region::getRegions in src/Region.cc"),
  ("copying forms implemented as copy + in-place form", "include/lsst/sphgeom/{Box,Circle,Ellipse,Interval}.h")],
 None, ["encode() of every live object after each step", "live allocations"])

prop("C10", "Printing to a failing stream loses only a tail and changes nothing else",
 "Writing any geometry object, interval, angle, vector or range set to a stream produces a text that depends only on the value and on the caller's formatting settings, whatever was printed before. If the sink fails, fills up, throws or accepts only part of the text at any point, what reached it is a prefix of that text, the stream reports the failure, the caller's formatting settings and the object are unchanged, and printing again to a healthy stream yields the complete text.",
 ["fault_sequences", "crash_points", "inputs"],
 "every printable value, every byte position at which the sink starts to fail, each failure mode (error return, exception, short write, transient), each stream exception mask",
 "tests compare repr strings of a few values written to a healthy sink",
 [S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygon.cc", S+"RangeSet.cc", S+"Angle.cc", S+"AngleInterval.cc", S+"NormalizedAngleInterval.cc", S+"Interval1d.cc", S+"Box3d.cc", S+"LonLat.cc", S+"Vector3d.cc", S+"UnitVector3d.cc", S+"Matrix3d.cc"],
 [("text formatted into local buffers and inserted sequentially", "operator<< in src/*.cc")],
 None, ["bytes reaching the sink", "stream state and flags"])

prop("C11", "Every answer depends only on the arguments, not on history or memory contents",
 "Repeating a call with equal arguments gives bit-identical results whatever was called before it (including calls that failed), wherever the objects live in memory, and whatever unused stack and heap memory contains. No call reads memory that was never written or has already been released.",
 ["histories", "schedules", "configurations"],
 "every call of the public API, every preceding history of calls including failing ones, every content of uninitialised and freed stack and heap memory, every placement of objects",
 "tests run each call once in a fixed order in memory that is mostly zero; a stale read usually returns the right bytes",
 [S+"PixelFinder.h", S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"Chunker.cc", S+"ConvexPolygon.cc", S+"BigInteger.cc", S+"orientation.cc", S+"Ellipse.cc"],
 [("no mutable state outside arguments", "whole library"),
  ("finder objects refer only to data that outlives them", "findPixels in src/PixelFinder.h"),
  ("fixed-capacity digit buffers in caller storage", "src/BigInteger.cc, src/orientation.cc")],
 None, ["results of every call as bit patterns"])

prop("C12", "Python objects survive pickling, YAML and hex transport or fail cleanly",
 "A Python object of any picklable type sent through pickle (any protocol), copy, YAML or encoded bytes, stored and reloaded in another interpreter, compares equal to the original (compound regions: has the same encoding), has the same type and answers identically (YAML: region and pixelization types, through every registered loader); class, sharing and nesting inside containers are preserved. If the stored or transmitted bytes were truncated, torn or altered, loading raises an ordinary Python exception or yields a well-formed object of a library type; the interpreter never crashes or corrupts memory.",
 ["inputs", "crash_points", "fault_sequences", "configurations"],
 "every picklable library value, pickle protocol and YAML loader, container nesting, interpreter hash seed, every read/write chunking, and every truncation, tear or bit flip of the stored bytes",
 "tests round-trip single valid values within one interpreter over in-memory strings",
 [Y+"_yaml.py", Y+"_box.cc", Y+"_circle.cc", Y+"_ellipse.cc", Y+"_convexPolygon.cc", Y+"_compoundRegion.cc", Y+"_rangeSet.cc", Y+"_unitVector3d.cc", Y+"_angle.cc", Y+"_lonLat.cc", Y+"_chunker.cc", Y+"_htmPixelization.cc", "include/lsst/sphgeom/python/utils.h"],
 [("py::pickle over encode/decode", "python/lsst/sphgeom/_*.cc"), ("__reduce__ to constructor arguments", "python/lsst/sphgeom/_*.cc"),
  ("YAML representers and constructors", "python/lsst/sphgeom/_yaml.py")],
 None, ["pickle.loads/dumps", "yaml.load/dump", "Region.decode", "==, repr, encode of the result"])

prop("C13", "Python calls fed by failing iterables raise and leave objects unchanged",
 "When an iterable, sequence or number supplied by Python code to a library call raises an exception, lies about its length, changes size, or yields a bad item at any point, the call raises that exception or an ordinary one (TypeError, ValueError, IndexError) and never crashes; objects that already existed are unchanged and remain valid. Range sets built from Python iterables hold exactly the integers of the items, and repeating the call with a healthy iterable works.",
 ["fault_sequences", "histories", "inputs"],
 "every library call taking iterables, sequences or number-like objects, every position at which user code raises or misbehaves, every following history",
 "tests pass complete lists; no test raises from inside an iterator or a special method",
 [Y+"_rangeSet.cc", Y+"_convexPolygon.cc", Y+"_compoundRegion.cc", Y+"_vector3d.cc", Y+"_unitVector3d.cc", Y+"_matrix3d.cc", Y+"_chunker.cc", "src/Chunker.cc", "include/lsst/sphgeom/python/utils.h", "include/lsst/sphgeom/python/relationship.h"],
 [("makeRangeSet conversion loop", "python/lsst/sphgeom/_rangeSet.cc"), ("index conversion", "include/lsst/sphgeom/python/utils.h"),
  ("pybind11 casters", "python/lsst/sphgeom/_*.cc")],
 None, ["exceptions raised", "state of pre-existing objects"])

prop("C14", "Python values outlive their owners and are isolated from them",
 "In any order of creating, combining, copying, mutating and dropping Python references, with garbage collection at any point, values obtained from an object (vertices, operands, centres, intervals, ranges, pixels, rows, bounding shapes) stay valid and unchanged after the object they came from is mutated or collected, and changing such a value never changes the object it came from. In-place operators keep object identity and equal their copying forms, and nothing is kept alive or lost by library calls.",
 ["histories", "schedules"],
 "every history of Python operations over a pool of objects with reference drops and garbage collections at arbitrary points",
 "tests hold references to everything for the whole test",
 [Y+"_box.cc", Y+"_box3d.cc", Y+"_circle.cc", Y+"_ellipse.cc", Y+"_convexPolygon.cc", Y+"_compoundRegion.cc", Y+"_matrix3d.cc", Y+"_rangeSet.cc", Y+"_region.cc", Y+"_continue_class.py"],
 [("return by value / clone in bindings", "python/lsst/sphgeom/_*.cc"), ("shared_ptr holders", "python/lsst/sphgeom/_*.cc")],
 None, ["repr/encode/pickle of every live object after each step", "reference and instance counts"])

prop("C15", "Big-integer arithmetic stays exact through any history and any exhaustion",
 "After any history of assignments, negations, additions, subtractions, multiplications and shifts of big integers, each equals the mathematical integer those completed operations define, in canonical form (sign of the value, no leading zero digits, zero has no digits), whatever the operands' signs, sizes and cancellations, with operands that are the target itself, in digit arrays of any capacity and with any previous contents. No operation reads or writes outside its digit arrays. An operation whose result may not fit the capacity, or for which memory runs out, raises an error and leaves every integer, including its target, unchanged; operations whose operands leave room for a carry digit never fail. Only the target of an operation ever changes.",
 ["histories", "inputs", "fault_sequences"],
 "every history of operations over several integers of any signs and digit patterns, every aliasing of operands, every capacity at which digit storage runs out, every point at which memory runs out",
 "tests do a few operations on a few integers with ample capacity; carries, borrows and cancellations that depend on leftovers of earlier operations need histories nobody wrote down",
 [I+"BigInteger.h", S+"BigInteger.cc", S+"orientation.cc"],
 [("digit loops for sums, differences and products", "_add, _sub and _mul in src/BigInteger.cc"),
  ("capacity check before any digit is written", "BigInteger::_checkCapacity in include/lsst/sphgeom/BigInteger.h"),
  ("in-place operation when operands alias", "BigInteger::add, subtract, multiply in src/BigInteger.cc")],
 [("digits", "magnitude, least significant digit first, in an array owned by the caller", "BigInteger::_digits"), ("size and sign", "number of digits in use; -1, 0 or 1", "BigInteger::_size, _sign")],
 ["getSign, getSize, getDigits, getCapacity of every integer after every operation"])

# ---------------------------------------------------------------- not applicable to DST
PURE = "tests check a few dozen hand-picked inputs; the claim ranges over a continuum of inputs"
prop("G01", "Spatial relations are never claimed falsely",
 "When one region is reported to contain, lie within or be disjoint from another, then no point of the sphere contradicts it; relations are inverse-symmetric between the two operands and combine correctly for unions and intersections.",
 ["inputs"], "all pairs of regions of all types", PURE,
 [S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygonImpl.h", S+"CompoundRegion.cc", I+"Relationship.h"],
 [("per-pair relate() implementations", "src/*.cc")])
prop("G02", "Bounding shapes contain the whole region",
 "The bounding box, bounding circle and 3-D bounding box of any region contain every point of it, up to documented conservative rounding.",
 ["inputs"], "all regions and points", PURE, [S+"Box.cc", S+"Circle.cc", S+"Ellipse.cc", S+"ConvexPolygonImpl.h"],
 [("getBoundingBox/Box3d/Circle", "src/*.cc")])
prop("G03", "Pixel envelopes miss nothing and interiors include nothing extra",
 "For every pixelization, the envelope of a region includes every pixel that intersects it and the interior includes only pixels entirely inside it, for every range limit.",
 ["inputs", "configurations"], "all regions, levels and limits", PURE,
 [S+"PixelFinder.h", S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc"],
 [("quad-tree pixel finder", "src/PixelFinder.h")])
prop("G04", "Range limits on pixel queries are honoured",
 "A pixel query with a non-zero range limit returns at most that many ranges, still a superset (envelope) or subset (interior) of the exact answer.",
 ["inputs", "configurations"], "all regions, levels and limits", PURE, [S+"PixelFinder.h"],
 [("simplify-and-retry on overflow", "PixelFinder::insert in src/PixelFinder.h")])
prop("G05", "Every point belongs to the pixel its index names",
 "For every pixelization and level, each unit vector is inside the pixel whose index is computed for it, indexes lie in the universe, distinct pixels do not overlap in area, and pixel names are unique.",
 ["inputs", "configurations"], "all points, levels and indexes", PURE,
 [S+"HtmPixelization.cc", S+"Q3cPixelization.cc", S+"Mq3cPixelization.cc", S+"Q3cPixelizationImpl.h"],
 [("index()/pixel()/quad()", "src/*Pixelization.cc")])
prop("G06", "Orientation of three points is exact",
 "The sign reported for the orientation of three unit vectors is the sign of the exact determinant, antisymmetric under swaps and invariant under rotation of the arguments, with zero only for exactly coplanar vectors.",
 ["inputs"], "all triples of unit vectors", PURE, [S+"orientation.cc", S+"BigInteger.cc"],
 [("exact big-integer fallback", "src/orientation.cc")])
prop("G07", "Space-filling curve codes are bijective and order-preserving by level",
 "Morton and Hilbert encodings are exact inverses of their decodings, convert into each other without loss, and keep curve neighbours adjacent.",
 ["inputs"], "all 32-bit coordinate pairs and levels", PURE, [I+"curve.h"],
 [("bit-twiddling and table-driven conversions", "include/lsst/sphgeom/curve.h")])
prop("G08", "Chunks and sub-chunks tile the sky and overlap queries miss none",
 "For every chunker configuration, chunks cover the sphere without gaps, sub-chunks cover their chunk, and the chunks and sub-chunks returned for a region include all that intersect it.",
 ["inputs", "configurations"], "all configurations and regions", PURE, [S+"Chunker.cc"],
 [("stripe tables", "src/Chunker.cc")])
prop("G09", "Interval and box algebra is sound, with wrap-around",
 "Clipping, expansion, dilation, erosion and relations of intervals, angle intervals with wrap-around, boxes and 3-D boxes agree with set semantics: expansion contains both operands and clipping loses no common point.",
 ["inputs"], "all intervals, boxes and arguments", PURE, [I+"Interval.h", S+"NormalizedAngleInterval.cc", I+"Box.h", I+"Box3d.h"],
 [("interval arithmetic", "include/lsst/sphgeom/Interval.h, src/NormalizedAngleInterval.cc")])
prop("G10", "Convex hulls are convex, complete and order independent",
 "The hull polygon of a hemispherical point set is convex with counter-clockwise vertices taken from the input, contains every input point, and does not depend on their order or duplication.",
 ["inputs"], "all point lists", PURE, [S+"ConvexPolygon.cc"], [("computeHull", "src/ConvexPolygon.cc")])
prop("G11", "Angles normalise into range and unit vectors stay unit length",
 "Normalised angles lie in [0, 2*pi], angular separations in [0, pi], longitudes and latitudes convert to unit vectors and back within rounding, and every unit vector has unit norm within rounding.",
 ["inputs"], "all doubles", PURE, [S+"NormalizedAngle.cc", S+"LonLat.cc", S+"UnitVector3d.cc", S+"Vector3d.cc"],
 [("range reduction, robust normalisation", "src/NormalizedAngle.cc, src/Vector3d.cc")])
prop("G12", "Region complements, areas and dilations are consistent",
 "Complementing a circle or ellipse swaps inside and outside, areas of a region and its complement sum to the sphere, and dilation or erosion by a radius moves the boundary by that radius conservatively.",
 ["inputs"], "all circles, ellipses, boxes and radii", PURE, [S+"Circle.cc", S+"Ellipse.cc", S+"Box.cc"],
 [("complement/dilateBy/getArea", "src/Circle.cc, src/Box.cc")])
prop("G13", "HEALPix pixelization agrees with the other pixelizations' contract",
 "The HEALPix pixelization maps points, regions and pixel indexes in agreement with the reference HEALPix package, with conservative envelopes and interiors.",
 ["inputs", "configurations"], "all levels, points and regions", PURE, [Y+"_healpixPixelization.py", Y+"pixelization_abc.py"],
 [("delegation to hpgeom", "python/lsst/sphgeom/_healpixPixelization.py")])
prop("G14", "IVOA POS strings parse to the region they denote",
 "A valid POS string yields the circle, range or polygon it denotes, invalid ones raise ValueError, and regions written as POS strings parse back to the same region within rounding.",
 ["inputs"], "all POS strings", PURE, [Y+"_continue_class.py"], [("from_ivoa_pos/to_ivoa_pos", "python/lsst/sphgeom/_continue_class.py")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P:
    jsonschema.validate(p, sch)
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
print(len(P), "properties")
