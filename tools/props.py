"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "raster_tools/"
P = []
TECH = ("symbolic execution of the real Python/numba kernels and dask graphs from /repo's source, "
        "claims discharged by z3, counterexamples replayed on the real code")


def prop(pid, title, statement, qtext, why, files, mech, over=("inputs",), observe=None, na=None, note=""):
    P.append(dict(pid=pid, title=title, statement=statement, over=list(over), qtext=qtext, why=why,
                  files=[R + f for f in files], mech=mech, observe=observe, na=na, note=note))


SAMPLE = ("Tests evaluate a few fixed rasters per option; the guarantee quantifies over every combination of cell values, "
          "null patterns and chunk layouts, where the failures sit in rare coincidences (a value equal to a null value, a window "
          "of nulls, a window straddling a chunk border). ")

prop("P01", "Arithmetic and comparisons are cellwise and propagate nulls",
     "Applying an arithmetic, comparison, logical, bitwise or rounding operator or numpy ufunc to rasters (with a raster, a scalar, or per-band values on either side) gives, at every cell that is valid in all raster operands, exactly the numpy result of the cell values; every cell that is null in any raster operand is null in the result and no other cell is. The result keeps the grid, CRS and band layout of the raster operand, has the numpy result dtype, and its null cells hold the result's null value.",
     "all cell values and null masks, over operators, dtypes, operand orders and chunk layouts",
     SAMPLE, ["raster.py"], [("ufunc dispatch, mask merging and null burning", R + "raster.py: _apply_ufunc, _RasterBase.__array_ufunc__, BandwiseOperationAdapter"), ("mask merge", R + "utils.py: merge_masks")])
prop("P02", "Results do not depend on how the raster is chunked",
     "For every operation on rasters, the values, null mask, dtype and null value of the result are the same whatever dask chunk layout the inputs have: any layout gives the result of the single-chunk raster.",
     "all cell values and masks; all pairs (single chunk, any composition of rows and columns into chunks) of the stated grids",
     "Tests almost always use one chunk or one fixed layout; an overlap that is one cell short shows only at particular chunk borders.",
     ["focal.py", "general.py", "surface.py", "raster.py", "blocks.py", "distance/proximity.py"],
     [("overlap depth and boundary per kernel", R + "focal.py, general.py, surface.py: map_overlap calls"), ("proximity chunk halo", R + "distance/proximity.py: _proximity_analysis")],
     over=("inputs", "configurations"))
prop("P03", "Operations never modify their inputs",
     "No raster operation changes the values, null mask, null value, dtype, coordinates or CRS of any raster passed to it, nor the contents of any numpy array, list or dict passed as a parameter, no matter whether the result is computed.",
     "all cell values and masks of every input; over operations, dtypes and chunk layouts",
     "Tests check the result and throw the inputs away; aliasing shows only when an input is reused after the result was computed.",
     ["raster.py", "general.py", "focal.py", "surface.py", "zonal.py", "distance/cost_distance.py", "distance/proximity.py"],
     [("copies before in-place kernel writes", R + "raster.py: copy, get_raster; general.py; stat_common.py")])
prop("P04", "Null-mask operations change exactly the cells they name",
     "set_null marks null exactly the cells that were null or are set in the mask; set_null_value and replace_null keep all previously null cells null, additionally null exactly the valid cells equal to the new value, and give null cells the new value; clearing the null value leaves every cell unmasked with its stored value; burn_mask and to_null_mask reproduce the mask exactly. Values of cells that stay valid never change.",
     "all cell values and masks; dtypes, null values (including NaN and dtype-changing ones), one- and multi-band masks, chunk layouts",
     SAMPLE, ["raster.py", "masking.py"], [("mask update and burn", R + "raster.py: set_null, set_null_value, replace_null, burn_mask, to_null_mask")])
prop("P05", "Changing dtype keeps values, nulls and mask consistent",
     "astype keeps exactly the same cells null and gives every valid cell the numpy cast of its value. The result's null value is the requested one (ValueError if the dtype cannot represent it), else the old one when the new dtype represents it exactly (an old null value of NaN, or one the dtype cannot represent, is replaced by the dtype's default), and every null cell holds it. An unmasked raster stays unmasked.",
     "all cell values and masks; all pairs of dtypes and a set of null values per dtype",
     SAMPLE, ["raster.py", "masking.py", "dtypes.py"], [("cast and null reconciliation", R + "raster.py: astype; masking.py: reconcile_nullvalue_with_dtype")])
prop("P06", "Remapping and reclassifying follow the mapping exactly",
     "remap_range gives each valid cell the output of the first listed range containing its value (with the requested inclusivity at each end), and reclassify the output mapped to its value; a cell no mapping covers keeps its value, or becomes null in reclassify when unmapped_to_null is set. Null cells stay null, a mapping to None makes matching cells null, and a result cell is otherwise null only if its value equals the result's null value.",
     "all cell values (including exactly the range ends and the null value) and masks; mappings, inclusivity modes, dtypes",
     SAMPLE, ["general.py"], [("remap kernel", R + "general.py: _remap_values, remap_range"), ("reclassify kernel", R + "general.py: _reclassify_chunk, reclassify")])
prop("P07", "Focal statistics equal the statistic of the window's valid cells",
     "focal gives each valid cell the named statistic of exactly the valid cells of its band under the window (rectangle, circle or annulus) centred on it, ignoring nulls and everything outside the raster, without overflow of the input dtype. Null cells stay null, or, with ignore_null, receive a value whenever the window holds a valid cell; a cell is otherwise null only when the statistic has no valid cell to use.",
     "all cell values and null masks; statistics, window shapes (odd and even), dtypes, chunk layouts",
     SAMPLE, ["focal.py", "stat_common.py"], [("window walk", R + "focal.py: _focal_chunk, _focal, focal, get_focal_window"), ("NaN-aware statistics", R + "stat_common.py")])
prop("P08", "Correlation and convolution compute the weighted window sum",
     "correlate gives each valid cell the sum over the kernel of weight times the underlying cell value, where null cells contribute nothing and cells beyond the raster's edge are supplied by the named boundary mode (reflect, nearest, wrap, or the given constant); convolve does the same with the kernel rotated by 180 degrees. Exactly the null cells of the input are null in the result, and bands do not mix. Integer results that exceed the result dtype are outside.",
     "all cell values, null masks and kernel weights; kernel shapes (odd and even), boundary modes, chunk layouts",
     SAMPLE, ["focal.py"], [("weighted sums", R + "focal.py: _correlate2d_chunk, _correlate, correlate, convolve")])
prop("P09", "where picks each cell's value and validity from the chosen side",
     "Raster.where and the module function where give each cell whose condition is true the cell of the first operand and each cell whose condition is false the cell of the second (raster or scalar), with that cell's validity; cells where the condition itself is null are null, and a None operand makes the cells it supplies null.",
     "all condition, operand values and null masks; dtypes, scalar operands, chunk layouts",
     SAMPLE, ["general.py", "raster.py"], [("selection", R + "general.py: where; raster.py: Raster.where")])
prop("P10", "Local statistics equal the per-cell statistic across bands",
     "local_stats gives each cell the named statistic of exactly the valid band values at that cell (the band index of the smallest or largest for minband and maxband, counting all bands); the cell is null exactly when it is null in every band.",
     "all band values and null masks; statistics, dtypes, chunk layouts",
     SAMPLE, ["general.py", "stat_common.py"], [("band reduction", R + "general.py: _local_chunk, _local, local_stats"), ("NaN-aware statistics", R + "stat_common.py")])
prop("P11", "Aggregation summarises exactly each block's valid cells",
     "aggregate partitions each band into blocks of the requested cell size starting at the top left (dropping incomplete trailing blocks) and gives each block the named statistic of exactly its valid cells; a block is null exactly when all of its cells are null, and the result's coordinates are the block centres.",
     "all cell values and null masks; statistics, block sizes, dtypes, chunk layouts",
     SAMPLE, ["general.py", "stat_common.py"], [("coarsening", R + "general.py: _coarsen_chunk, _coarsen_block_map, aggregate")])
prop("P12", "Dilation and erosion take the window extreme of valid cells",
     "dilate gives each cell the largest valid value of its band within the given window around it, ignoring nulls and the outside of the raster, and is null exactly where the window holds no valid cell. erode gives each cell the smallest value in its window and, for rasters that have a null value, is null exactly where the window holds a null cell or reaches outside the raster. Rasters without a null value stay without one, and their windows are cut off at the raster's edge.",
     "all cell values and masks; window sizes (odd and even), dtypes, chunk layouts",
     SAMPLE, ["general.py"], [("morphology", R + "general.py: _morph_op_chunk, _erosion_or_dilation_filter, dilate, erode")])
prop("P14", "Cost distance is the least accumulated cost to any source",
     "cost distance analysis gives each reachable cell the minimum, over all paths (4- or 8-connected) from any source, of the accumulated step costs (mean of the two cell costs times the step length, including elevation change when given); it is zero at sources and null or unreached exactly where no path through passable cells exists.",
     "all cost surfaces, elevations, null patterns and source placements on small grids; connectivities",
     "Tests compare a few fixed cost surfaces with stored results; optimality is a claim about all paths, and ties, barriers and heap orders come in combinations no stored surface covers.",
     ["distance/cost_distance.py", "distance/_heap.py"], [("Dijkstra core", R + "distance/cost_distance.py: _cost_distance_analysis_core"), ("priority queue", R + "distance/_heap.py")])
prop("P15", "Cost allocation and traceback agree with the cost distance",
     "Following the traceback directions from any reached cell leads to a source in finitely many steps, along a path whose accumulated cost is the reported cost distance, and the allocation is the value of that source; traceback marks sources and unreached cells as documented.",
     "all cost surfaces, null patterns and source placements on small grids",
     "As P14: the three outputs are only compared to stored arrays, never with each other.",
     ["distance/cost_distance.py", "distance/_heap.py"], [("Dijkstra core", R + "distance/cost_distance.py: _cost_distance_analysis_core")])
prop("P16", "Proximity is the distance to the nearest target within range",
     "proximity analysis gives each cell the distance (in the chosen metric, between cell centres) to the nearest target cell of its band when that distance is within the maximum, and null otherwise; target cells are exactly the valid cells with a requested target value, or the valid non-zero cells when none are given.",
     "all placements of target values and null cells, over metrics, maximum distances, grids and chunk layouts",
     "Tests use a few stored rasters; the sweep algorithm propagates candidates in four directional passes and fails only for special target constellations or chunk borders.",
     ["distance/proximity.py"], [("line sweeps", R + "distance/proximity.py: _process_proximity_line, _compute_proximity, _proximity_analysis")])
prop("P17", "Proximity allocation and direction name a nearest target",
     "Proximity allocation gives each cell in range the value of a nearest target cell, and proximity direction the compass bearing to a nearest target (0 at a target); both are null exactly where proximity is null.",
     "all placements of target values and null cells, over metrics, maximum distances and grids",
     "As P16.", ["distance/proximity.py"], [("line sweeps", R + "distance/proximity.py: _process_proximity_line, _compute_proximity, _direction")])
prop("P18", "Surface measures follow their documented 3x3 formulas",
     "slope, aspect, curvature, hillshade, northing and easting give each interior cell whose 3x3 neighbourhood is valid the value of the documented (ESRI) formula of the elevations and the cell size, per band (northing and easting: cosine and sine of the aspect, which is -1 where flat); the result is null exactly on the raster's outermost cells and where a cell the formula uses is null (a hillshade of exactly 255 coincides with its null value). tpi is the cell's value minus the mean of the valid cells in the annulus plus 0.5, truncated to an integer, with null cells null.",
     "all elevations and null masks; cell sizes, azimuths and altitudes, chunk layouts",
     SAMPLE, ["surface.py"], [("surface kernels", R + "surface.py")])
prop("P19", "3D surface area follows Jenness's formula",
     "surface_area_3d gives each interior cell with a fully valid 3x3 neighbourhood the sum of the areas of the eight triangles of the Jenness construction for the nine elevations and the cell size, and is null elsewhere.",
     "all elevations and null masks; cell sizes and chunk layouts",
     SAMPLE, ["surface.py"], [("surface area kernel", R + "surface.py: _surface_area_3d, surface_area_3d")])
prop("P20", "Mosaics merge exactly the valid cells of their sources",
     "mosaic of rasters that share a grid gives each cell of each band the first, last, lowest or highest (as requested) valid value, or the sum of all valid values, among the sources that have the band, converted to the result dtype; a cell is null exactly when no source has a valid value there (or the value equals the result's null value). The grid is that of the sources.",
     "all cell values and masks of the sources; numbers of sources and bands, methods, dtypes and null values",
     SAMPLE, ["_mosaic.py"], [("painting", R + "_mosaic.py: _paint, _paint_recursive, _mosaic")])
prop("P21", "Band selection, concatenation and splitting lose nothing",
     "get_bands, split_bands, band_concat and stack_bands return exactly the selected bands in the order given, numbered from 1, with every cell's validity and every valid value preserved; splitting and concatenating again gives back the raster.",
     "all cell values and masks; band selections with repeats, mixed dtypes and null values, chunk layouts",
     SAMPLE, ["raster.py", "general.py", "_stack.py"], [("band assembly", R + "raster.py: get_bands; general.py: band_concat; _stack.py: stack_bands, split_bands")])
prop("P22", "Cell indices and map coordinates map to each other exactly",
     "xy gives the coordinates of the cell's centre or named corner, and index returns the row and column of the cell that contains a coordinate, so index(xy(row, col)) is (row, col) for every cell; bounds, affine, per-chunk bounding boxes, per-chunk rasters and quadrants all describe that same grid, tile it without gap or overlap and carry the cells at their own coordinates.",
     "all rows, columns, coordinates, origins and resolutions; grid sizes and chunk layouts",
     "Tests check a few cells of a few grids.", ["raster.py"], [("affine arithmetic", R + "raster.py: rowcol_to_xy, xy_to_rowcol, xy, index"), ("chunk geometry", R + "raster.py: get_chunk_bounding_boxes, get_chunk_rasters, to_quadrants")])
prop("P23", "Padding extends the grid and leaves the original cells alone",
     "pad returns the smallest aligned grid that covers the raster and the target, in which every original cell keeps its coordinates, value and validity, and every new cell is null, or holds the given fill value.",
     "all cell values and masks; pad amounts on each side, fill values, dtypes, chunk layouts",
     SAMPLE, ["_padding.py"], [("padding", R + "_padding.py: pad, _resolve_bounds")])
prop("P24", "Clipping to a box keeps exactly the cells of the box",
     "clip_box keeps exactly the rows and columns of cells that overlap the bounds (at least two of each), at their own coordinates, with their values and validity unchanged.",
     "all cell values and masks; bounds on and between cell edges; chunk layouts",
     SAMPLE, ["clipping.py"], [("box clip", R + "clipping.py: clip_box")])
prop("P25", "Raster-wide reductions use exactly the valid cells",
     "The reduction methods of a raster (all, any, max, mean, min, prod, std, sum, var) and the numpy functions of the same names return the reduction over exactly its valid cells in all bands (of rasters with at least one valid cell).",
     "all cell values and masks; dtypes and chunk layouts",
     SAMPLE, ["raster.py"], [("reductions", R + "raster.py: _ReductionsMixin")])
prop("P26", "Zonal statistics summarise exactly each zone's valid cells",
     "zonal_stats with a zone raster returns, for each zone value present and each band, the named statistics over exactly the cells that belong to the zone and are valid in the data raster.",
     "all zone layouts, cell values and null masks; statistics, chunk layouts",
     SAMPLE, ["zonal.py"], [("grouped aggregation", R + "zonal.py: _raster_to_series, _zonal_stats, zonal_stats")],
     na="the grouping and every statistic are computed by pandas and dask.dataframe groupby code (native hash tables and reductions), which cannot be executed on terms; the repository's own part only hands the zone and value columns over, so a model of the grouping would be checking the model")
prop("P27", "Point and vector extraction reports every valid cell once",
     "Converting a raster to points yields exactly one record per valid cell per band, carrying that cell's value, band, row, column and centre coordinates and a unique index, and none for null cells (of rasters with more than one row and column).",
     "all cell values and masks; dtypes and chunk layouts",
     SAMPLE, ["raster.py"], [("point extraction", R + "raster.py: _extract_points, _extract_values, _extract, to_points, _vectorize")])
prop("P28", "Block-mapped functions see and return the right cells",
     "map_blocks and map_overlap hand the function each block of every input raster, with the masked cells of that block when masks are passed (plus the requested depth of neighbouring cells, and the boundary fill outside the raster), and place what it returns at the block's own position in the result; the geo_ variants also describe the block's grid correctly. A cell of the result is null exactly where the returned mask says so (return_mask) or the returned value equals the result's null value.",
     "all cell values and masks; chunk layouts, depths, boundary modes, mask passing options",
     SAMPLE, ["blocks.py"], [("block wrappers", R + "blocks.py: map_blocks, map_overlap")], over=("inputs", "configurations"))
prop("P30", "Template creation matches its template",
     "full_like, zeros_like, ones_like and constant_raster give a raster with the template's grid and CRS, the requested number of bands, the requested dtype and value in every cell, no null cells unless copy_mask is set, and with copy_mask exactly the template's null cells (those of its first band in every band when the numbers of bands differ).",
     "all template values and masks; dtypes, fill values, band counts, chunk layouts",
     SAMPLE, ["creation.py"], [("creation", R + "creation.py: _build_result, full_like, zeros_like, ones_like, constant_raster")])
prop("P31", "Building a raster from an array keeps its cells, nulls and grid",
     "Constructing a Raster from an array or an xarray DataArray (Raster, data_to_raster, data_to_raster_like) keeps every value, its place (rows, columns, bands, coordinates, CRS) and the dtype, with x ascending and y descending. Cells are null exactly where the given mask is set or, without a mask, where the value is the given null value (for Raster() of float data without one: NaN); null cells found by value, or burned, hold the raster's null value.",
     "all cell values and masks; dtypes, 2D and 3D inputs, null values, coordinate orders, chunk layouts",
     SAMPLE, ["raster.py"], [("construction", R + "raster.py: Raster.__init__, data_to_raster, normalize_xarray_data, make_raster_ds")])
prop("P32", "Model prediction applies the model to each cell's band values",
     "model_predict (and general.model_predict_raster, also through ModelPredictAdaptor) gives each cell that is valid in every band the outputs the model's predict returns for the row of that cell's band values, one float64 output band per model output, in order; a cell that is null in any band is null in every output band and no other cell is. The grid is that of the raster. The result does not depend on the chunks.",
     "all finite cell values and null masks; models with one to three outputs, dtypes, chunk layouts",
     SAMPLE, ["general.py", "raster.py"], [("prediction per chunk", R + "general.py: _pred_raster, model_predict_raster, ModelPredictAdaptor")])
prop("P40", "Saving and reading a raster returns the same raster",
     "A raster written to a file and read back has the same values, null mask, dtype, null value, grid and CRS.",
     "all rasters", "Tests write a few rasters.", ["io.py", "raster.py"], [("I/O", R + "io.py; raster.py: save")],
     na="the encoding and decoding of cells happens inside GDAL (native code behind rasterio); the Python layer only passes arrays on, so there is nothing for the solver to execute symbolically")
prop("P41", "Reprojection and grid alignment place cells correctly",
     "Reprojecting a raster places each destination cell's value at the right source location with nulls preserved.",
     "all rasters, CRSs and resolutions", "Tests check metadata of a few warps.", ["warp.py", "_grids.py"], [("warp", R + "warp.py")],
     na="resampling and coordinate transforms are done by GDAL/PROJ and odc-geo native code; no encodable code decides the property")
prop("P42", "Rasterising vector features burns the right cells",
     "Rasterising features marks exactly the cells whose centres (or any part) are covered by the features.",
     "all geometries and grids", "Tests use fixed shapes.", ["rasterize.py", "vector.py"], [("rasterize", R + "rasterize.py")],
     na="decided by GEOS and GDAL native geometry code reached through geopandas and rasterio, which cannot be encoded; several of the paths need the network-less test data missing here")
prop("P43", "Line length statistics measure the lines inside each neighbourhood",
     "Focal line statistics return the length of the lines within the radius of each cell centre.",
     "all line sets and radii", "Tests use fixed lines.", ["line_stats.py"], [("length", R + "line_stats.py")],
     na="geometry intersection and lengths come from GEOS through shapely; the Python code around it is a spatial-index loop")
prop("P44", "Region labelling separates exactly the connected components",
     "regions gives two valid, non-zero cells of a band the same label exactly when a path of equal, valid neighbouring cells (4 or 8 neighbours) joins them; such cells have labels above zero. Zero cells, and cells whose value is not among the given unique values, are labelled zero. Exactly the null cells of the input are null.",
     "all cell values of small value sets and all null masks; neighbourhoods, unique values, dtypes, chunk layouts",
     "Tests use a few fixed rasters; a label shared by two regions needs a particular number and order of regions per value.",
     ["general.py"], [("labels", R + "general.py: _create_labels, regions")],
     note="The labelling of one true/false mask by dask_image/scipy is modelled as exact components (and compared with the real one in the validation runs).")
prop("P45", "Batch scripts run the operations they name",
     "Parsing and running a batch file performs the named operations with the given parameters.",
     "all batch files", "Tests run a few scripts.", ["batch.py"], [("parser", R + "batch.py")],
     na="a string parser dispatching by name to file-reading and -writing operations: its behaviour is I/O and string handling over files, outside what the array encoding reaches")
prop("P46", "Clipping by features keeps exactly the cells they touch",
     "clip and mask keep the value of every valid cell that the features touch and make every other cell null; erase and inverted mask keep exactly the valid cells that they do not touch; envelope keeps every valid cell in the box of the features. clip, erase and envelope return exactly the cells that meet the box of the features or the given bounds, at their original coordinates; mask returns the whole grid. Dtype and CRS are kept, and the null value is the raster's or its dtype's default. A chunk layout changes nothing.",
     "all cell values and null masks on small grids with fixed features; operations, bounds, bands, dtypes, null values, chunk layouts",
     "Tests compare a few clips against rioxarray output on fixed files; null values that are zero or meet data, several bands and odd chunks are not sampled.",
     ["clipping.py"], [("clip by features", R + "clipping.py: _clip, clip, erase, mask, envelope, clip_box")])


def main():
    have = {os.path.basename(f)[:3] for f in glob.glob(os.path.join(HERE, "checks", "P[0-9][0-9]_*.py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["pid"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"].strip(),
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["pid"], "reason": p["na"]})
        elif p["pid"] in have:
            m["checks"].append({
                "property": p["pid"],
                "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % p["pid"],
                "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % p["pid"],
                "technique": TECH,
                "level": "model_checking",
                "level_note": "Holds for all inputs within the bounds in the evidence (small grids, listed dtypes and options); floats are treated as reals outside P01's exact integer cases. Trusted: the encoding of numpy/numba primitives (validated against the real code on every run), dask/xarray executed as they are, z3. " + p["note"],
            })
        else:
            m["not_applicable"].append({"property": p["pid"], "reason": "not built (yet): no check is registered for it"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")


main()
