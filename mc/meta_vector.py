prop("C07", "A polygon contains exactly the points inside it",
     "Polygon.contains is true for every point strictly inside the ring or on its boundary and false for every point outside it or strictly "
     "inside one of its holes, regardless of which vertex the ring starts at, its direction, how the polygon was made, and the coordinate "
     "system of the point; polygons around a pole contain the pole and polygons across the dateline contain the points between their edges.",
     ["inputs", "configurations"],
     "all simple polygons from a lattice, from every starting vertex in both directions, all points in, on, beside and level with their edges and vertices",
     "point-in-polygon goes wrong at points level with a vertex, on an edge or for one starting vertex or direction; the tests ask about a few generic points",
     ["karta/vector/geometry.py", "karta/vector/vectorgeo.pyx"],
     [("ring vertices and holes", "outline and sub-polygons of a polygon", "karta/vector/geometry.py")],
     [("crossing count", "karta/vector/geometry.py"), ("pole and dateline handling", "karta/vector/contains.pyx")],
     ["Polygon.contains", "Polygon.ispolar"],
     "Every simple lattice ring within the bounds is asked about every half-lattice point and compared with exact rational arithmetic.")
prop("C08", "Lengths, areas and centroids equal their mathematical definitions",
     "The area, perimeter, centroid and winding of a polygon, the length and cumulative length of a line and the bounding box and segments of "
     "either equal their mathematical definitions whatever the starting vertex, direction, position or scale, with holes subtracted from "
     "areas; on geographical coordinates lengths and areas are those on the ellipsoid or sphere, including around poles and across the dateline.",
     ["inputs", "configurations"],
     "all simple polygons and polylines from a lattice in every orientation, and at places near the equator, the poles and the dateline",
     "the tests compare a few convex shapes in one orientation and hemisphere",
     ["karta/vector/geometry.py", "karta/geodesy.py"],
     [], [("planar measures", "karta/vector/geometry.py"), ("geodesic area and distance", "karta/geodesy.py")],
     ["Polygon.area", "Polygon.perimeter", "Polygon.centroid", "Polygon.isclockwise", "Line.length", "Line.cumulength", "Geometry.bbox", "segments"],
     "All rings and polylines within the bounds are measured and compared with exact rational arithmetic, and on the globe with PROJ's geodesics.")
prop("C09", "Point set queries return exactly the matching points",
     "Selecting the points of a Multipoint within a box, radius or polygon returns exactly the matching points, in order, with their data and "
     "coordinate system, with or without a spatial index, whatever the insertion order, duplicates or size of the set, and also after points "
     "have been replaced; queries given in another coordinate system select the same points.",
     ["inputs", "histories", "configurations"],
     "all insertion orders and multisets of lattice points, all boxes, radii and polygons, all replacement histories",
     "the tests query one random cloud; points on cell borders of the index, duplicates and stale indices need particular coincidences",
     ["karta/vector/geometry.py", "karta/vector/quadtree.pyx", "karta/vector/quadtree.h"],
     [("quadtree", "nodes and leaves holding vertices", "karta/vector/quadtree.h")],
     [("insertion and splitting", "karta/vector/quadtree.h"), ("box search", "karta/vector/quadtree.h"), ("refinement of candidates", "karta/vector/geometry.py")],
     ["Multipoint.within_bbox", "Multipoint.within_radius", "Multipoint.within_polygon", "QuadTree.search_within", "Multipoint.__setitem__"],
     "Every insertion order within the bounds builds a real tree that is queried with every box and compared with a direct scan.")
prop("C10", "Line and polygon set queries return exactly the matching members",
     "Selecting the members of a Multiline or Multipolygon that lie within or touch a box, a line or a polygon returns exactly the matching "
     "members, in order, with their data and coordinate system, honouring holes; the R-tree behind it never loses an entry however many "
     "boxes are inserted, in whatever order, including degenerate, equal and touching boxes.",
     ["inputs", "histories", "configurations"],
     "all insertion sequences of boxes over an alphabet, all query boxes, all lattice lines and rings as members and as queries",
     "node splits, parent links and strict inequalities of the tree go wrong only for particular insertion orders and touching boxes; tests insert "
     "one random set",
     ["karta/vector/geometry.py", "karta/vector/rtree.pyx", "karta/vector/rtree.h"],
     [("R-tree", "nodes with bounding boxes and the indices of members", "karta/vector/rtree.h")],
     [("insertion and node splitting", "karta/vector/rtree.h"), ("overlap and containment search", "karta/vector/rtree.h"),
      ("refinement of candidates", "karta/vector/geometry.py")],
     ["RTree.search_within", "RTree.search_overlapping", "within_bbox", "touching_bbox", "touching", "within"],
     "Every box sequence within the bounds builds a real tree that is queried with every box; members are judged with exact rational arithmetic.")
prop("C11", "The convex hull is exactly the set of extreme points",
     "The convex hull of a set of points, of a line or of a polygon consists of exactly the extreme points of its vertices in "
     "counter-clockwise order, independent of the order and repetition of the points, for collinear and grid-like arrangements, and on the "
     "globe also around a pole and across the dateline.",
     ["inputs", "configurations"],
     "all orders, repetitions and collinear arrangements of lattice points and of places in several regions of the globe",
     "the tests take the hull of a few random clouds; ties in angle and distance need lattice arrangements",
     ["karta/vector/geometry.py", "karta/vector/convexhull.pyx"],
     [], [("angular sort and scan", "karta/vector/geometry.py"), ("orientation of three vertices", "karta/vector/convexhull.pyx")],
     ["Multipoint.convex_hull", "Line.convex_hull", "Polygon.convex_hull"],
     "Every sequence of points within the bounds is given to the real code and compared with an exact hull.")
prop("C12", "Intersections are found where the geometries meet",
     "Two lines or polygon boundaries are reported to intersect exactly when their segments share a point - crossing, touching, sharing an "
     "end, overlapping, on the closing edge, vertical or across the dateline - and the reported positions lie on both; on the "
     "globe the great circle arcs are meant, and geometries in different coordinate systems are compared as the same places.",
     ["inputs", "configurations"],
     "all pairs of lattice segments, two-segment lines and rings, with every start and direction, shifted and scaled, and all great circle arcs "
     "between a set of places",
     "touching, collinear and vertical arrangements and the pruning of the sweep line are combinations the tests do not reach",
     ["karta/vector/geometry.py", "karta/vector/intersection.pyx"],
     [], [("sweep line", "karta/vector/intersection.pyx"), ("segment tests", "karta/vector/intersection.pyx"), ("intersection positions", "karta/vector/geometry.py")],
     ["Line.intersects", "Polygon.intersects", "Line.intersections", "Polygon.intersections"],
     "All pairs within the bounds are evaluated and compared with exact rational intersection or, on the sphere, sign tests of triple products.")
prop("C13", "Distances and nearest positions are the true ones",
     "The distance between points, the shortest distance from a point to a line or polygon boundary, the position on it that is nearest, and "
     "azimuths and walks between points are the true ones - in the plane exactly, in three dimensions, and along geodesics on the globe - "
     "whatever the starting vertex, direction, scale or repeated vertices of the geometry, and whatever the coordinate systems of the two "
     "arguments.",
     ["inputs", "configurations"],
     "all lattice polylines and rings with all half-lattice points, and all arcs and paths between a set of places",
     "clamping to segment ends, zero-length segments, the closing edge and long arcs are special cases that the tests sample a few times",
     ["karta/vector/geometry.py", "karta/vector/vectorgeo.pyx", "karta/geodesy.py"],
     [], [("nearest position on a segment", "karta/vector/vectorgeo.pyx"), ("nearest position on an arc", "karta/vector/geometry.py")],
     ["Point.distance", "Point.azimuth", "Point.walk", "shortest_distance_to", "nearest_vertex_to", "nearest_on_boundary"],
     "Every pair within the bounds is evaluated and compared with exact rational arithmetic or a dense search along PROJ's geodesics.")
prop("C14", "Attribute tables hold exactly the rows and fields put into them",
     "After any sequence of constructing, setting fields, extending, selecting rows and fields, updating and joining, a table holds exactly the "
     "rows, fields and values that a plain list of records would hold, is read the same through every accessor, never changes when another table "
     "made from it changes, and raises its documented error for anything that does not fit.",
     ["histories", "inputs"],
     "all histories of table operations up to a depth, all joins of small tables, all ways of constructing them",
     "aliasing between tables, joins of unequal fields and negative or mixed indices appear after several operations; tests perform one at a time",
     ["karta/vector/table.py"],
     [("table", "ordered fields and a list of records", "karta/vector/table.py")],
     [("field access and assignment", "karta/vector/table.py"), ("joining of tables", "karta/vector/table.py"), ("JSON encoding of values", "karta/vector/table.py")],
     ["Table.get", "Table.getfield", "Table.setfield", "Table.extend", "Table.updated", "Indexer", "merge", "NumpyAwareJSONEncoder"],
     "Every history within the bounds is executed on real tables and on a list of records; every accessor is compared after every step.")
prop("C15", "Editing and transforming geometries keeps vertices, data and properties in step",
     "After any sequence of slicing, item assignment, appending, shifting, rotating, scaling, affine or coordinate system transformation, "
     "selecting and joining, a geometry holds exactly the vertices, third dimension, properties, per-member data, holes and coordinate system "
     "that follow from the operations; operations that return a new geometry leave the old one unchanged and share no mutable state with it.",
     ["histories", "inputs", "configurations"],
     "all histories of applicable operations up to a depth from geometries of every type, with and without data, holes and height",
     "lost holes, shared properties and stale caches of data need two operations in a certain order; tests apply one",
     ["karta/vector/geometry.py", "karta/vector/table.py"],
     [("geometry", "vertices, properties, data table, holes and coordinate system", "karta/vector/geometry.py")],
     [("slicing and selection", "karta/vector/geometry.py"), ("affine transformation", "karta/vector/geometry.py"), ("joining", "karta/vector/geometry.py"),
      ("reprojection of vertices", "karta/vector/geometry.py")],
     ["Line.__getitem__", "Multipoint.__setitem__", "Line.extend", "shift", "rotate", "apply_transform", "vertices(crs)", "merge", "Line.to_polygon", "Polygon.to_line"],
     "Every history within the bounds is executed on real geometries and on a record of their content; all geometries made so far are compared after every step.")
prop("C16", "GeoJSON says what the geometry holds and reading it back gives the same geometry",
     "A geometry of any type, in any coordinate system, with any properties and data, written as GeoJSON in any combination of the writer's "
     "options gives a valid document with closed rings and exactly its coordinates, properties and data (in WGS84 where asked for), is itself "
     "not changed by writing, and is read back as the same geometry; documents of nested collections give all their geometries in order. The "
     "same holds for the geo interface.",
     ["inputs", "configurations"],
     "all lattice rings, lines and sets with all writer options, property values alone and in pairs, and nested collections",
     "holes, repeated end vertices, null properties and data in sets, and the combination of options, multiply beyond what the tests sample",
     ["karta/vector/_geojson.py", "karta/vector/read.py", "karta/vector/geometry.py"],
     [], [("writing of GeoJSON", "karta/vector/_geojson.py"), ("reading of GeoJSON", "karta/vector/read.py"), ("geo interface", "karta/vector/geometry.py")],
     ["as_geojson", "to_geojson", "read_geojson", "from_shape", "__geo_interface__"],
     "Every document within the bounds is parsed by Python's JSON parser and compared with the geometry, then read, compared, and written again.")
prop("C17", "Shapefiles hold exactly the geometries and attributes and read back the same",
     "Geometries of any type written to a shapefile are completely on disk when the writer returns, with closed and correctly wound rings, "
     "holes, third dimension, and every attribute value that the format can hold, whatever the names and types of the attributes across the "
     "features; reading the file gives the same geometries, attributes and coordinate system in the same order. Writing replaces what the name "
     "held before and leaves the geometries unchanged.",
     ["inputs", "histories", "configurations"],
     "all lattice rings and lines, all columns of values and sets of names from an alphabet, all pairs of coordinate systems, all short histories of writes",
     "field types are inferred across features, names are cut and collide, and the tests only look whether files exist",
     ["karta/vector/_shp.py", "karta/vector/read.py", "karta/vector/geometry.py"],
     [("shapefile", "shapes, index, attribute records and projection on disk", "karta/vector/_shp.py")],
     [("inference of field types and names", "karta/vector/_shp.py"), ("conversion of geometries", "karta/vector/_shp.py"), ("coordinate system of a layer", "karta/vector/read.py")],
     ["write_shapefile", "to_shapefile", "read_shapefile"],
     "Every file within the bounds is decoded byte by byte by a reader written from the format specification, and read back by karta.")
prop("C18", "GeoTIFF files hold exactly the grid and any GeoTIFF reads as the grid it holds",
     "A grid of any shape, number type, number of bands, transform (including skewed and mirrored ones), missing value and coordinate system written "
     "to a GeoTIFF with any compression or tiling is completely on disk when the writer returns, with every value at its position; reading it, in memory or from "
     "disk, all bands or any list of them, gives the same values, type, transform, missing cells and coordinate system, also for files that other "
     "software wrote. Slices of grids on disk equal those in memory, several files combine into one grid exactly when their transforms, "
     "sizes and coordinate systems agree, and writing or reading changes neither grids nor files.",
     ["inputs", "histories", "configurations"],
     "all small shapes, number types, transforms, options, band lists, slices, pairs of files and short histories",
     "the tests write one UTM grid; row order, skew, data types, missing values, closing and the combination of files depend on all of these",
     ["karta/raster/_gdal.py", "karta/raster/read.py", "karta/raster/grid.py", "karta/crs.py"],
     [("GeoTIFF", "samples, georeferencing tags, missing value and coordinate system on disk", "karta/raster/_gdal.py")],
     [("row order and geotransform", "karta/raster/_gdal.py"), ("number types", "karta/raster/_gdal.py"), ("bands on disk", "karta/raster/_gdal.py"), ("header to grid", "karta/raster/read.py")],
     ["to_geotiff", "read_geotiff", "from_geotiffs"],
     "Every file within the bounds is decoded by a TIFF reader written from the specification and read back by karta; files composed by a TIFF writer of the same kind are read by karta.")
prop("C19", "ESRI ASCII grids hold exactly the grid and any such text reads as the grid it holds",
     "A single-band, square-celled grid written as an ESRI ASCII grid, to a name or a stream, has its rows from the top, its position by the corner or "
     "centre asked for, its missing cells as the missing value of the header, and every value exactly; reading gives the same grid. Texts from elsewhere are read "
     "whatever the order and spelling of their header and their line breaks. Grids that the format cannot hold are refused without touching the file.",
     ["inputs", "configurations"],
     "all small grids with every subset of missing cells, all orders of header records, all ways of breaking lines",
     "the tests compare the six header lines and the number of rows written",
     ["karta/raster/grid.py", "karta/raster/_aai.py", "karta/raster/read.py"],
     [("ESRI ASCII grid", "header records and rows of the text", "karta/raster/_aai.py")],
     [("rows and missing values", "karta/raster/grid.py"), ("header", "karta/raster/_aai.py")],
     ["to_aai", "read_aai"],
     "Every text within the bounds is parsed by a reader written from the format description, and read back by karta; texts composed from it are read by karta.")
prop("C20", "GPX documents hold exactly the waypoints, tracks and routes and read back the same",
     "Waypoints, tracks and routes added in any order, from points, lines and multipoints with or without elevations, data, properties and extensions, in "
     "any coordinate system, are written as well-formed GPX with each position in longitude and latitude and every property, extension and point attribute in its place; "
     "reading a document, also one from other software, gives the same content, and adding or writing changes no geometry.",
     ["inputs", "histories"],
     "all short histories of additions, all values of every property, all subsets of data fields, all selections of what is written",
     "the tests add one geometry of each kind without attributes and never write a document",
     ["karta/vector/_gpx.py", "karta/vector/read.py"],
     [("GPX document", "elements and attributes of the text", "karta/vector/_gpx.py")],
     [("points of lines", "karta/vector/_gpx.py"), ("properties and extensions", "karta/vector/_gpx.py"), ("geometries from a document", "karta/vector/read.py")],
     ["GPX", "read_gpx_waypts", "read_gpx_tracks"],
     "Every document within the bounds is parsed by Python's DOM parser and compared with a model of what was added, then read by karta, compared, and written again.")
prop("C21", "Coordinate reference systems have the ellipsoid, projection, transformations and geodesics of their definition",
     "A coordinate system made from a definition, in whatever order and spelling its arguments come, has the ellipsoid defined there, and a definition without an "
     "ellipsoid is refused. Its projection and inverse follow the closed formulas of the projection, positions taken through any chain of systems and back are the "
     "same positions, distances and azimuths are those of its ellipsoid, and numbers, lists and arrays are treated alike. Its WKT and proj.4 texts define the same system, "
     "and equality means the same system.",
     ["inputs", "configurations"],
     "all ellipsoids and datums in all orders of arguments, all predefined systems, all chains of three systems, lattices of the globe",
     "systems are combined pairwise by users, and a wrong constant, axis or argument shows only at some positions and spellings; the tests look at a few strings",
     ["karta/crs.py"],
     [], [("ellipsoid of a definition", "karta/crs.py"), ("projection and transformation", "karta/crs.py"), ("WKT and proj.4 texts", "karta/crs.py"), ("geodesics of a system", "karta/crs.py")],
     ["ProjectedCRS", "GeographicalCRS", "CartesianCRS", "crs_from_wkt", "parse_ellipsoid"],
     "Every system, pair and chain within the bounds is run on the real code and compared with Snyder's formulas, pyproj's ellipsoids and geodesics, and geocentric translations computed by the check.")
prop("C22", "Distances, azimuths, destinations and areas on spheres and ellipsoids are the mathematical ones",
     "For any two positions, near or nearly antipodal, on or across the poles, the equator and the antimeridian, on any ellipsoid, the inverse problem returns the length "
     "of the shortest geodesic and azimuths that lead along it both ways; the forward problem ends where that geodesic ends; the area below a geodesic is the area enclosed. "
     "Great-circle segments intersect exactly when they meet and at a common position, angles are reduced to their range, and bracketed roots are found.",
     ["inputs"],
     "all pairs of latitudes and differences of longitude from lists dense around the singular cases, all pairs of great-circle segments of a lattice, all triples of angles",
     "the iterations fail only in small regions around antipodes, poles and the equator, which random positions of the tests never reach",
     ["karta/geodesy.py"],
     [], [("inverse geodetic problem", "karta/geodesy.py"), ("forward geodetic problem", "karta/geodesy.py"), ("area below a geodesic", "karta/geodesy.py"), ("great circles", "karta/geodesy.py")],
     ["ellipsoidal_inverse", "ellipsoidal_forward", "ellipsoidal_area", "spherical_area", "intersection_spherical", "sphere_distance", "isbetween_circular", "fzero_brent"],
     "Every configuration within the bounds is computed by karta and compared with GeographicLib and vector formulas.")
prop("C23", "Boxes of geographical geometries are exactly the longitudes and latitudes they cover",
     "The box of any line, ring or set in a geographical system contains exactly the longitudes its shortest segments cover, also across the dateline and around a pole, "
     "and the latitudes of its great circles, independent of the direction and of whole turns; sets have the smallest box of all members; "
     "searches by box return exactly the members within or touching it on the globe, also when either crosses the dateline; and the box of a geometry of another "
     "coordinate system is that of its vertices there, closing segment included.",
     ["inputs"],
     "all lines and rings of lattices on the globe, all sets of up to four, all boxes of a lattice",
     "whether a box is right depends on the order of crossings of the dateline, the hemisphere and the position of the top of each segment; the tests have few lines across the dateline",
     ["karta/vector/dateline.pyx", "karta/vector/vectorgeo.pyx", "karta/vector/geometry.py"],
     [], [("box across the dateline", "karta/vector/dateline.pyx"), ("latitudes of great circles", "karta/vector/vectorgeo.pyx"), ("search by box", "karta/vector/geometry.py")],
     ["bbox", "extent", "within_bbox", "touching_bbox", "bndlat_sph"],
     "Every geometry within the bounds has its box computed by karta and compared with great circles by vectors and longitudes unrolled in integers.")
prop("C24", "Equally spaced points along a line are exactly the positions at those distances",
     "The points asked for along a line at a spacing are the positions at distances 0, d, 2d, ... along it and end where the line ends; a number of points is exactly that "
     "many, equally spaced, from the first vertex to the last - whatever the lengths of its segments, repeated vertices, third dimension or coordinate system, in the plane "
     "and along the geodesics of the globe. Grid profiles have their points at the spacing asked for, by default the smallest cell size, and asking changes no line.",
     ["inputs"],
     "all lines of lattices in the plane, in space and on the globe with all spacings and numbers from lists, all signs of the cell sizes",
     "the position in a segment depends on everything left over from earlier segments; the tests have three lines with long segments",
     ["karta/vector/geometry.py", "karta/raster/grid.py"],
     [], [("points along a line", "karta/vector/geometry.py"), ("walks", "karta/vector/geometry.py"), ("profiles of a grid", "karta/raster/grid.py")],
     ["to_points", "to_npoints", "walk", "profile"],
     "Every line within the bounds is divided by karta and compared with a separate parametrisation by arc length.")
prop("C25", "Every position is in exactly the map tile whose box contains it",
     "The tile of a position at any zoom level is the one whose box contains it, at the antimeridian the western one, also for positions in other coordinate systems and with "
     "heights; corners and boxes of tiles follow the map projection, neighbouring tiles share their edges, and the tile of a position at the next level is one of the four children. "
     "Tiles are equal exactly when level, column and row are.",
     ["inputs"],
     "all tiles of the first levels and a lattice of the tiles of deeper levels, each with positions next to all its edges",
     "an error in the rounding or in a hemisphere shows at few positions and levels; the tests look at three",
     ["karta/tile.py"],
     [], [("tile of a position", "karta/tile.py"), ("corners and boxes of tiles", "karta/tile.py")],
     ["tile_from_point", "Tile"],
     "Every tile and position within the bounds is computed by karta and compared with the formulas of the projection.")
prop("C26", "The spatial indexes stay inside their memory and give all of it back",
     "Building, searching and dropping quadtrees and R-trees never reads or writes outside of the memory that the index holds, nor memory that it released or never wrote - for "
     "any positions, boxes, order of insertion and node size, also when an item cannot be indexed. Every search gives back the memory it used, and a dropped index, also one "
     "that could not be completed, gives back everything. Sizes that a node cannot have are refused with an error and do not end the interpreter.",
     ["histories", "inputs"],
     "all histories of building, searching and dropping over sequences of positions and boxes, with faults at every item",
     "writing one entry too far or keeping a block shows in no result of a test; it needs an allocator that watches, and histories in which nodes are full, split and dropped",
     ["karta/vector/rtree.h", "karta/vector/quadtree.h", "karta/vector/pool.h", "karta/vector/rtree.pyx", "karta/vector/quadtree.pyx"],
     [("nodes and pools", "blocks of memory held by an index", "karta/vector/rtree.h")],
     [("insertion and splitting of R-trees", "karta/vector/rtree.h"), ("insertion and splitting of quadtrees", "karta/vector/quadtree.h"), ("pools of results", "karta/vector/pool.h")],
     ["RTree", "QuadTree", "search_within", "search_overlapping"],
     "Every history within the bounds runs on the compiled indexes under an allocator (mc/guard.c) that places each block against a forbidden page, never reuses a block, and counts.")
