"""Generate DESIGN.md from the prose below, properties.jsonl, the check modules, evidence/, seeded/ and known_findings.json."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = """# Design

karta is a sequential library for raster grids and vector geometries with a handful of file formats. It has no threads, no
daemon and no durable log, so the executions to enumerate are *histories of operations*, *configurations of objects* and
*inputs*; there are no interleavings. Every property is decided by **bounded model checking of the implementation itself**:

* a finite **alphabet** of operations, shapes, positions, values, documents or definitions is fixed;
* **every** word over the alphabet up to a stated bound is executed on the real code, built from /repo's working tree and
  driven through its public API (no source hooks, no mocks, no solver);
* after every step the whole observable state is compared with a **reference model** that shares nothing with karta (plain
  numpy array, list of records, exact rational arithmetic on lattices, vector algebra on the sphere, GeographicLib, byte-level
  format readers and writers written from the format descriptions).

Nothing is sampled: the list of cases is deterministic, does not depend on VERIF_SEED, and is executed completely or the check
reports that it was cut short. Because the model is evaluated next to the implementation on every word, each trace of the model
is a conformance trace: `traces_validated_against_impl` in the evidence counts words that were replayed on the real objects,
`states` counts distinct canonical states or configurations of the model, `transitions` the operations that were executed.

This reaches what the tests cannot because the defects of such a library sit at coincidences: a slice that ends on a storage chunk
border with a negative step, a ray through two polygon vertices, a segment across the antimeridian in a box query, a hole whose
orientation is repaired in place, a cell size that differs between axes. Small scopes contain all coincidences of a kind, and the
enumeration visits every one (some 130 defects of the pinned commit were found this way; they are listed at the end).

## Machinery

| file | role |
|---|---|
| `mc/check.py` | driver: rebuilds /repo, shares the list of cases between 8 worker processes, watches for crashes, hangs and violations, merges state sets, writes `evidence/<id>.json`, prints VIOLATION / KNOWN-FINDING lines |
| `mc/worker.py` | runs the cases whose index is congruent to its shard number, under karta's own interpreter (PyPy); gives checks `ctx.eq/true/close/raises/state/op/trace` |
| `mc/props/cNN.py` | one property: `cases(tier)` enumerates, `run(case, ctx)` executes and compares |
| `mc/geo.py` | shared exact lattice geometry (rings, segment intersection, point in ring with fractions) |
| `mc/guard.c` | guarding allocator preloaded into the workers of C26 (compiled by the check) |
| `mc/replay.sh FILE` | runs one reported case again (`python3 mc/check.py` writes the case beside the VIOLATION line) |
| `mc/meta.py`, `mc/meta_vector.py` | source of properties.jsonl and MANIFEST.json |
| `tools/seed.py` | makes and confirms planted bugs; `tools/design.py` generates this file |

Controlled nondeterminism: hash seed fixed to 0, one thread for BLAS/OpenMP/blosc, PROJ without network, C locale, fresh heap
memory filled with a visible pattern (`MALLOC_PERTURB_`) so that reading memory nobody wrote shows, a scratch directory of its
own for each worker. A worker that dies, or a case that does not end in 240 s, is a violation with the case as its replay (the code under
test includes C and Cython, where a bug is a crash). File-format checks only write below their scratch directory.

Comparisons judge behaviour only: results are compared as values (order only where the API promises one; cyclic order and direction
of rings not constrained where the format does not; either choice accepted at ties), with tolerances derived from the arithmetic involved,
not from the implementation. Where a statement leaves a configuration unconstrained it is listed under *Assumptions*.

Known findings (`known_findings.json`) are recognised by the specific inputs that fail and additionally by *how* they fail: the check
models the recorded deviation where it can, so another wrong answer on the same inputs is still a violation.

## Why no other technique

No property had to be given up: `not_applicable` is empty. What the bounds leave out is stated per property. In general: values
outside the alphabets (large coordinates are represented by shifts and scalings of the lattices), files larger than a few chunks (represented by
sizes straddling the chunk borders), and the correctness of the third-party libraries (GDAL, PROJ, GeographicLib, numpy, blosc,
coordstring, pyshp, picogeojson), which is trusted.

"""

ORACLE = {
"C01": "Reference: one numpy array per grid receiving the same writes. Bands with chunk sizes 1x1..7x3 make chunk borders fall at every position relative to the written block, including steps and negative steps; the state after every write is read back by every block read. Also checks that handed-out arrays and copies are detached, and that failing writes leave the state alone.",
"C02": "Reference: the affine map x = x0 + dx(j+1/2) + sx(i+1/2) evaluated with fractions. All transforms are dyadic so results are compared exactly; positions on cell borders may belong to either neighbour only where the statement says so.",
"C03": "Reference: nearest/bilinear interpolation with fractions on the stored cells. All pairs of lattice positions are sampled in one call, which catches state carried between samples of a vectorised call, chunk-wise reading and mixed in/out-of-grid requests.",
"C04": "Reference: a dictionary from world position to value made from the inputs. Every result cell is looked up by its own world position, so a shift by one cell, a lost row or a wrong origin of any chunk or mosaic shows.",
"C05": "Reference: a list of cells with a validity flag, replayed through histories of writes, nodata redefinitions, apply and masking. Masks of polygons are compared with exact coverage of the cell centers; gridding with a dictionary of cell -> points.",
"C06": "Reference: direct evaluation of the documented stencil per cell in fractions/doubles, with nodata propagated by neighbourhood. One-hot patterns determine every coefficient of the stencil; pairs and ternary neighbourhoods its nonlinear part.",
"C07": "Reference: exact ray casting with fractions (boundary classified separately) on the plane; on the globe sign tests of triple products of unit vectors.",
"C08": "Reference: shoelace, edge sums and lengths in exact rational arithmetic (lengths by correctly rounded square roots).",
"C09": "Reference: evaluation of the predicate on every point of the set. The index must return exactly those; insertion orders are enumerated because the shape of the quadtree depends on them; positions that differ in the last bit test termination and splitting.",
"C10": "Reference: exact segment/box/ring predicates on every member. The enumeration of insertion sequences drives every split of the R-tree (all 2^13 sequences over pairs of boxes).",
"C11": "Reference: extreme points by exact orientation of all triples; on the globe orientation is the sign of the triple product.",
"C12": "Reference: exact rational segment intersection of all pairs of segments.",
"C13": "Reference: exact squared distances with fractions on the plane; on the globe a dense search along geodesics of GeographicLib refined to 1e-3 m.",
"C14": "Reference: a list of dictionaries. After every operation all tables made so far are read again in all ways, so aliasing between tables shows.",
"C15": "Reference: a record of vertices, data, properties and subs per geometry; after every operation all geometries made so far are re-read (aliasing), in every way of reading.",
"C16": "Reference: the JSON text parsed by the standard parser, compared with the geometry's own coordinates; orientation by exact area; reading back must give an equal geometry.",
"C17": "Reference: a reader of .shp/.shx/.dbf/.prj/.cpg written from the specification (record offsets, lengths, boxes, parts, ring directions, field widths). Histories of writes to one name catch stale side files.",
"C18": "Reference: a TIFF reader and a TIFF writer written from the specification (strips, tiles, planar layouts, geo keys), so neither direction relies on GDAL for the comparison.",
"C19": "Reference: a parser and a composer of ASCII grids written from the format description.",
"C20": "Reference: the standard XML parser on the text; documents composed by hand for the reading direction.",
"C21": "Reference: constants of the ellipsoids, formulas of Mercator and of stereographic projections on the ellipsoid computed here, pyproj for the others; all chains of transformations must be consistent.",
"C22": "Reference: GeographicLib (pyproj.Geod) for ellipsoids, spherical trigonometry in vector form for spheres, on lattices dense near poles, antipodes and the antimeridian.",
"C23": "Reference: extremes of great circles by vector algebra, longitudes unrolled as integers; smallest covering arc by enumeration of all gaps.",
"C24": "Reference: arc-length parametrisation in exact arithmetic where lengths are exact, by GeographicLib on the globe.",
"C26": "The memory of the C indexes is watched by the allocator itself: under `mc/guard.c` (LD_PRELOAD) every block ends at the end of a page that is followed by a forbidden page, released blocks become forbidden and are kept in quarantine, fresh memory is 0xff, and live blocks are counted. A read or write outside a block, after release or twice released ends the worker at that instruction (a violation with the history as its replay); after the last reference is dropped the count must come back to where it was. Allocation faults: the n-th allocation of each operation fails, for every n.",
"C25": "Reference: the tile formulas in the map projection's own coordinates; parents/children by integer arithmetic.",
}

NOTES = """## What was left unconstrained, and why

* coordstring (third party) wraps out-of-range negative indices; out-of-range vertex indices are not enumerated below -n.
* `SphericalEarth` is "+ellps=sphere +datum=WGS84": PROJ and GDAL transform it as WGS84. Positions survive file round trips, the
  ellipsoid does not; geodesics of the system use its sphere.
* pyproj's `Proj` with `+towgs84` includes the datum shift in `project`; checked for consistency only.
* `ProjectedCRS.forward/inverse` take longitude and latitude in degrees of the system's own datum.
* Ellipsoids danish, GSK2011 and PZ90 of PROJ are unknown to karta; `GeographicalCRS("+R=...")` is unsupported by pyproj.Geod.
* The azimuth of `hillshade` is measured from the x axis (pinned by a stable test).
* `mask_by_poly` rounds oblique edges by up to half a cell along the edge (pinned by stable tests).
* Order of fields after `Table.updated`/joins follows a set; GPX reads only version 1.1; property names must be XML names.
* `Multiline`/`Multipolygon` made from one-shot iterators are not supported by karta.
* Latitudes beyond the Web Mercator map have no tile; boxes of geometries that only touch at +-180 are left out.
* `to_geojson` to a file that cannot be opened raises UnboundLocalError rather than OSError (nothing is written; not repaired).
* Private helpers that no public function calls (`_bbox_overlap`, helpers in vector/read.py) have no property.
"""

def consts(path):
    t = ast.parse(open(path).read())
    v = {"doc": ast.get_docstring(t)}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "BOUNDS", "ASSUMPTIONS"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    return v

def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    known = json.load(open(V + "/known_findings.json"))
    out = [HEAD, "## The properties\n\n"]
    seeded = {}
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(m))
        seeded.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
    costs = {}
    try:
        costs = json.load(open(V + "/tools/costs.json"))
    except OSError:
        pass
    for p in props:
        i = p["id"]
        f = V + "/evidence/%s.json" % i
        if os.path.exists(f):
            e = json.load(open(f))
            if e["tier"] == "quick":
                c = e["coverage"]
                costs[i] = dict(wall=round(e["wall_s"]), states=c["states"], transitions=c["transitions"], evaluations=c["evaluations"])
    json.dump(costs, open(V + "/tools/costs.json", "w"), indent=0, sort_keys=True)
    for p in props:
        i = p["id"]
        v = consts(V + "/mc/props/%s.py" % i.lower())
        out.append("### %s. %s\n\n%s\n\n" % (i, p["title"], p["statement"]))
        out.append("*Ranges over:* %s. *Anchored in:* %s.\n\n" % (p["quantifier"]["text"], ", ".join("`%s`" % x for x in p["anchors"]["files"])))
        out.append("*Why the tests cannot settle it:* %s.\n\n" % p["why_tests_cant"].rstrip("."))
        out.append("*How it is decided:* %s. %s\n\n" % (v["RULE"], ORACLE.get(i, "")))
        out.append("*Bounds (quick):* %s.\n\n*Bounds (thorough), additionally:* %s.\n\n" % (v["BOUNDS"]["quick"], v["BOUNDS"]["thorough"]))
        out.append("*Assumptions:* %s.\n\n" % "; ".join(v["ASSUMPTIONS"]))
        if i in costs:
            k = costs[i]
            out.append("*Cost (quick, 8 cores, with the build):* about %s s; %s states, %s transitions, %s comparisons.\n\n"
                       % (k["wall"], format(k["states"], ","), format(k["transitions"], ","), format(k["evaluations"], ",")))
    out.append(NOTES + "\n## Planted bugs and what catches them\n\nEvery bug below builds, passes the 383 stable tests and has a demonstration. "
               "`caught` is the result of the quick check of the bug's property.\n\n| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n")
    for i in sorted(seeded):
        for name, d in seeded[i]:
            out.append("| %s | %s | %s | %s | %s |\n" % (name, i, d["needs"], d["what_it_breaks"], d.get("caught_by", i)))
    try:
        out.append("\n" + open(V + "/tools/mutation.md").read())
    except OSError:
        pass
    out.append("\n## Genuine defects recorded, not repaired\n\n")
    for e in known["findings"]:
        out.append("* **%s** (%s): %s.\n" % (e["id"], e["property"], e["what"].rstrip(".")))
    out.append("\n## Genuine defects repaired (%d commits)\n\nEach is a `fix:` commit in /repo; the check passes on the repaired tree and reports the "
               "violation again if it returns.\n\n" % len(known["fixed"]))
    for s in known["fixed"]:
        out.append("* %s\n" % s.replace("fixed: ", ""))
    open(V + "/DESIGN.md", "w").write("".join(out))

main()
