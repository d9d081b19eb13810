"""Per property: what the bounded replay does and what is assumed around the proof."""
EXACT = "coordinates in the bounded cases are small integers (scaled and shifted so that every orientation test is exact in the tested coordinate type)"
GEO = "case k of seed s: one third all simple polygons with 3..5 vertices on a 3x3 grid in every listing order, two thirds random valid sets (combs, spirals, zigzags, staircases, nested rings, rows of holes, polygons grown from random insertions with up to 160 vertices and five polygons, now and then one with chains of 66 to 522 vertices) in a random format, vertex type and insertion order"
def P(**k):
    d = dict(ms=35_000, cases=10**9, level="exploration", assumptions=[]); d.update(k); return d
PROPS = {
 "C01": P(rule=GEO + "; non-trivial: a valid set not seen before", debug_ms=15_000, assumptions=[EXACT]),
 "C02": P(rule=GEO + "; non-trivial: triangulated successfully and not seen before", assumptions=[EXACT]),
 "C03": P(rule=GEO + "; a quarter of the cases are arbitrary, mostly invalid, input; non-trivial: triangulated successfully and not seen before", assumptions=[EXACT]),
 "C04": P(rule="arbitrary polygon lists: damaged valid sets, tiny-grid garbage with duplicates and crossings, collinear points, arbitrary bit patterns, NaN and infinities; non-trivial: not seen before"),
 "C05": P(rule="valid and invalid polygons into recording builders and list builders, directly, through the list adapter and through reversal, with an error injected at a chosen call; non-trivial: some builder call happened and not seen before"),
 "C06": P(rule="one polygon set triangulated (same random order) into every built-in format with random earlier contents, and compared fan by fan with a recording builder; non-trivial: at least one triangle and not seen before"),
 "C07": P(rule="polygon sets that fail (invalid, or an error injected through a wrapper at a chosen call, or the delimiter among the indices) into every built-in format with random earlier contents; non-trivial: the call failed and not seen before"),
 "C08": P(rule="random container shapes in all supported container types, and user-defined enumerations with redundant separators; non-trivial: at least one vertex and not seen before"),
 "C09": P(rule="random lists with index types substituted (u8..u64, arrays, tuples, vectors), fitting and not; non-trivial: at least one vertex and not seen before"),
 "C10": P(rule="good, empty and one- or two-vertex polygons in random order, all formats; non-trivial: at least one polygon and not seen before"),
}
"""Per property: what the bounded replay does and what is assumed around the proof."""
EXACT = "coordinates in the bounded cases are small integers (scaled and shifted so that every orientation test is exact in the tested coordinate type)"
GEO = "case k of seed s: one third all simple polygons with 3..5 vertices on a 3x3 grid in every listing order, two thirds random valid sets (combs, spirals, zigzags, staircases, nested rings, rows of holes, polygons grown from random insertions with up to 160 vertices and five polygons, now and then one with chains of 66 to 522 vertices) in a random format, vertex type and insertion order"
def P(**k):
    d = dict(ms=35_000, cases=10**9, level="exploration", assumptions=[]); d.update(k); return d
PROPS = {
 "C01": P(rule=GEO + "; non-trivial: a valid set not seen before", debug_ms=15_000, assumptions=[EXACT]),
 "C02": P(rule=GEO + "; non-trivial: triangulated successfully and not seen before", assumptions=[EXACT]),
 "C03": P(rule=GEO + "; a quarter of the cases are arbitrary, mostly invalid, input; non-trivial: triangulated successfully and not seen before", assumptions=[EXACT]),
 "C04": P(rule="arbitrary polygon lists: damaged valid sets, tiny-grid garbage with duplicates and crossings, collinear points, arbitrary bit patterns, NaN and infinities; non-trivial: not seen before"),
 "C05": P(rule="valid and invalid polygons into recording builders and list builders, directly, through the list adapter and through reversal, with an error injected at a chosen call; non-trivial: some builder call happened and not seen before"),
 "C06": P(rule="one polygon set triangulated (same random order) into every built-in format with random earlier contents, and compared fan by fan with a recording builder; non-trivial: at least one triangle and not seen before"),
 "C07": P(rule="polygon sets that fail (invalid, or an error injected through a wrapper at a chosen call, or the delimiter among the indices) into every built-in format with random earlier contents; non-trivial: the call failed and not seen before"),
 "C08": P(rule="random container shapes in all supported container types, and user-defined enumerations with redundant separators; non-trivial: at least one vertex and not seen before"),
 "C09": P(rule="random lists with index types substituted (u8..u64, arrays, tuples, vectors), fitting and not; non-trivial: at least one vertex and not seen before"),
 "C10": P(rule="good, empty and one- or two-vertex polygons in random order, all formats; non-trivial: at least one polygon and not seen before"),
}
NOTES = {
 "C01": "Proved by Verus for all inputs (every run): the structure holds exactly the vertices and edges; with exact arithmetic the trapezoids are upright, the search finds for every point of the plane a trapezoid containing it, hints stay good, dividers are ordered; every chain is cut up completely into ears whose areas add up. Bounded (generated valid sets, exact integer oracle): that the chains of a valid set partition its even-odd interior and that triangulation succeeds. Assumes: exact coordinate arithmetic, coverage.trusted_base.",
 "C02": "Proved for all inputs: winding of every adapter; every triangle is an ear of its chain listed in the order the builder's winding asks for. Bounded (valid sets, integer oracle): that chains run from top to bottom, hence the sign of every triangle. Assumes exact coordinate arithmetic.",
 "C03": "Proved for all inputs: only indices the enumeration yielded; a chain of k vertices gives exactly k-2 triangles with distinct chain positions. Bounded (valid sets): the count n+2h-2c and that every vertex is used.",
 "C04": "Proved by Verus for all inputs and insertion orders: no panic, overflow, out-of-bounds access (checked or unchecked) and every loop terminates, in every module. Assumes: coordinate arithmetic and user trait implementations do not panic, vectors are shorter than isize::MAX bytes, the contracts of coverage.trusted_base. The bounded run (arbitrary bit patterns) supplies failing inputs.",
 "C05": "Proved by Verus for all inputs, builders and injected errors: protocol state machine, first error returned unchanged and told to fail exactly once, output only if build succeeded, through all adapters. Assumes: user builders meet the trait contracts (framing only), coverage.trusted_base. The bounded run supplies failing inputs.",
 "C06": "Proved for all inputs: every format's collection is its earlier contents followed by the layout of the fans handed over; adapters hand over the same triangles. Bounded: that repeated triangulation of one trapezoidation gives the same sequence (run into all formats and compared).",
 "C07": "Proved by Verus for all inputs and failure points: on every error path of triangulate the lent collection ends as it began (prophecy of the borrow), for every built-in format and adapter. Assumes: coverage.trusted_base. The bounded run supplies failing inputs.",
 "C08": "Proved by Verus for all containers: enumeration, vertex count and look-up agree with the elements; build depends on the enumeration only through its non-empty groups, which redundant separators do not change. Assumes: the reference casts as_polygon_list/to_newtype_ref (unsafe, exercised under -Zub-checks), coverage.trusted_base.",
 "C09": "Proved for all lists and index shapes: component-wise mapping, converted enumeration, count and look-up, no wrong index on a failed conversion. Bounded: that the triangulation of the substituted list is the converted triangulation.",
 "C10": "Proved for all enumerations: not-enough-vertices only with the count of the first short polygon, before any output; no vertex gives no-vertices; empty polygons do not matter. Bounded: that a valid set gives neither error."
}
for _p in PROPS:
    PROPS[_p]['level_note'] = NOTES[_p]
    if _p in ('C04', 'C05', 'C07', 'C08'): PROPS[_p]['level'] = 'proof'
