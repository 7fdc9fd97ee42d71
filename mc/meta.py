"""What properties.jsonl and MANIFEST.json say; run this file to regenerate both."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  state=state, mech=mech, observe=observe, note=note))

prop("C01", "A grid stores exactly what was written to it",
     "After any sequence of writes through indices, slices (any step or sign), band selections, masks and band views, reading any part of "
     "a grid yields exactly the values of an ordinary in-memory array that received the same writes, for every band storage class, "
     "data type and band count. Reads and failed writes change nothing, empty selections select nothing, and copies and arrays handed "
     "out never change the grid.",
     ["histories", "inputs", "configurations"],
     "all sequences of reads, writes, resizes and copies on grids of all small shapes, with storage chunk boundaries crossing the written "
     "regions anywhere",
     "the tests write a handful of slices once; alignment of a slice with storage chunks, negative steps and repeated partial writes of "
     "the same chunk are combinations they do not reach",
     ["karta/raster/band.py", "karta/raster/grid.py"],
     [("band storage", "compressed chunks or one array holding the cell values", "karta/raster/band.py")],
     [("chunked read and write of slices", "karta/raster/band.py"), ("index normalisation and band indexing", "karta/raster/grid.py")],
     ["RegularGrid.__getitem__", "RegularGrid.__setitem__", "RegularGrid.bands"],
     "Every slice pair and every short write history on small grids is executed on the real bands and compared cell by cell with a "
     "plain numpy array; chunk size is reduced so that chunk borders fall everywhere.")
prop("C02", "Grid coordinates, cell indices and extents agree with the transform",
     "For every affine transform, the centre and vertex coordinates, cell positions and indices, extent, bounding box and data extent of a "
     "grid all describe the same placement: the index of a cell's centre is that cell, the extent is exactly the hull of the cells' outlines "
     "or centres, and coordinates reported in another coordinate system are the transformed ones.",
     ["inputs", "configurations"],
     "all transforms (positive, negative and unequal cell sizes, skew, offsets), all grid shapes, all cells and all points between cells",
     "the tests use a few axis-aligned square-celled grids; skewed, flipped and one-row grids and points on cell borders are not sampled",
     ["karta/raster/grid.py", "karta/raster/coordgen.py"],
     [("transform", "origin, cell size and skew of the grid", "karta/raster/grid.py")],
     [("position and index arithmetic", "karta/raster/grid.py"), ("lazy coordinate generator", "karta/raster/coordgen.py")],
     ["RegularGrid.get_positions", "RegularGrid.get_indices", "RegularGrid.get_extent", "RegularGrid.bbox", "RegularGrid.coordinates",
      "RegularGrid.vertex_coords"],
     "Every combination of the stated transforms, shapes and points is evaluated with exact rational arithmetic and compared with the "
     "implementation.")
prop("C03", "Sampling a grid returns the value the method defines at that point",
     "Nearest sampling returns the value of the cell containing the point and bilinear sampling the weighted mean of the four surrounding "
     "cell centres, per band and for every data type, and points outside the grid yield nodata; sampling points one by one, as an array, as "
     "a geometry or in another coordinate system gives the same values. Resampling and profiles agree with sampling at their own coordinates.",
     ["inputs", "configurations"],
     "all sampling points relative to cell centres, edges and corners, all transforms, data types, band counts and nodata arrangements",
     "the tests sample smooth surfaces at a few interior points with loose tolerances",
     ["karta/raster/grid.py", "karta/raster/crfuncs.pyx"],
     [], [("nearest and bilinear samplers", "karta/raster/grid.py, karta/raster/crfuncs.pyx"), ("resample and profile", "karta/raster/grid.py")],
     ["RegularGrid.sample", "RegularGrid.sample_nearest", "RegularGrid.sample_bilinear", "RegularGrid.resample", "RegularGrid.profile"],
     "All lattice and half-lattice sampling points of all stated grids are sampled by the real code and compared with a scalar reference.")
prop("C04", "Cropping, resizing, tiling and merging keep every cell in place",
     "Clipping, resizing, chunking and merging grids keep the value of every cell at its own coordinates: no cell moves, is lost inside the "
     "requested area, or appears from nowhere, and cells with no source are nodata. Merged cells are the mean (or weighted mean) of the "
     "data at that place, and adding or subtracting grids acts cell by cell on equally placed grids only.",
     ["inputs", "configurations"],
     "all boxes relative to all grid shapes, all offsets between merged grids, all chunk sizes, all data types and nodata arrangements",
     "the tests crop and merge a couple of large aligned grids",
     ["karta/raster/grid.py"],
     [], [("clip, resize, aschunks", "karta/raster/grid.py"), ("merge", "karta/raster/grid.py")],
     ["RegularGrid.clip", "RegularGrid.resize", "RegularGrid.aschunks", "merge", "RegularGrid.__add__"],
     "Every box and every offset within the bounds is applied to labelled grids and each resulting cell is compared by coordinate.")
prop("C05", "Nodata cells are never treated as data",
     "Cells equal to the nodata value are excluded from masks, statistics, functions applied to a grid and gridded results, for "
     "every data type and nodata value including NaN; changing the nodata value relabels exactly the missing cells, and masking by a polygon "
     "turns exactly the cells outside it, holes included, into nodata (along oblique edges to within half a cell).",
     ["inputs", "histories", "configurations"],
     "all arrangements of missing cells on small grids, all data types and nodata values, all polygons from a lattice",
     "the tests use a few fixed grids with NaN or a single integer nodata value",
     ["karta/raster/grid.py", "karta/raster/crfuncs.pyx", "karta/raster/misc.py"],
     [("nodata value", "marker for missing cells", "karta/raster/grid.py")],
     [("data mask", "karta/raster/grid.py"), ("polygon rasterisation", "karta/raster/crfuncs.pyx"), ("gridpoints", "karta/raster/grid.py")],
     ["RegularGrid.data_mask", "RegularGrid.max", "RegularGrid.min", "RegularGrid.minmax", "RegularGrid.mean", "RegularGrid.std",
      "RegularGrid.apply", "RegularGrid.mask_by_poly", "RegularGrid.set_nodata_value", "gridpoints"],
     "Every nodata arrangement on the small grids is built and every masked operation compared with a direct per-cell evaluation.")
prop("C06", "Terrain derivatives follow the neighbourhood formula at every cell",
     "Slope, aspect, gradient and divergence of a grid equal the documented 3x3 (or centred difference) formula at every interior cell, "
     "with the signs and units of the cell size in each direction, and are missing wherever a needed neighbour is missing or outside the grid. "
     "The result has the placement and coordinate system of its input.",
     ["inputs", "configurations"],
     "all neighbourhood patterns, cell sizes of both signs, data types, bands and nodata arrangements",
     "the tests compare a couple of smooth surfaces with square cells",
     ["karta/raster/misc.py"],
     [], [("neighbourhood stencils", "karta/raster/misc.py")],
     ["slope", "aspect", "gradient", "divergence", "normed_potential_vectors"],
     "All neighbourhoods over a three-valued alphabet and all single nodata cells are evaluated and compared per cell.")

import importlib, sys
here = os.path.dirname(os.path.abspath(__file__))
exec(open(os.path.join(here, "meta_vector.py")).read())

NA = []

def main():
    root = os.path.dirname(here)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = [{"property": p["id"],
               "quick_cmd": "python3 mc/check.py %s --tier quick" % p["id"],
               "thorough_cmd": "python3 mc/check.py %s --tier thorough" % p["id"],
               "evidence_file": "evidence/%s.json" % p["id"],
               "technique": "bounded model checking: exhaustive enumeration of operations and inputs on the real code against a reference model",
               "level": "model_checking",
               "level_note": p["note"] + " Trusted: the reference model in mc/props/%s.py, PyPy, numpy and the exploration driver." % p["id"].lower()}
              for p in P]
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash mc/setup.sh", "checks": checks, "not_applicable": NA,
                   "notes": "No hooks: every check drives the public API of the code built from /repo's working tree. "
                            "mc/replay.sh FILE re-runs a reported case."}, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
