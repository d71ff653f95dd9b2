G = ' Search over generated inputs, not a proof; trusts numpy, GDAL/PROJ and OpenCV primitives.'
NOTE = {
 'C01': ('reference projection model and rigid-motion relation', 'World points of random cameras compared with an independent numpy model to ~1e-6 px.' + G),
 'C02': ('round trip, reference ray and broadcast differential', 'Tolerance for brown/opencv is 3x the error of a 5 iteration fixed-point undistortion, computed per point.' + G),
 'C03': ('reference RPC00B model, CRS transform and round trip', 'Inverse compared to GDAL accuracy (requested threshold).' + G),
 'C04': ('stateful sequences against freshly constructed cameras', 'Random operation histories; the model is the set of current parameters.' + G),
 'C05': ('self-coordinate-encoding images against reference projections', 'Every undistorted pixel of small images is compared; file given as path, string, dataset or fsspec file, any read dtype.' + G),
 'C06': ('validity predicates on generated cameras and analytic surfaces', 'Boundary points checked to be on the image edge, on their pixel ray and on the surface; first-intersection checked by dense marching; horizon cases include grazing ones.' + G),
 'C07': ('independent interpolation of the source at reference coordinates', 'Every remapped pixel compared, all dtypes, interpolations and NaN grids; OpenCV fixed-point interpolation tolerance.' + G),
 'C08': ('reference projection of every ortho pixel', 'Source bands encode their own pixel coordinates, so displacement is read from the ortho; edge band of a few pixels excluded.' + G),
 'C09': ('differential between processing configurations', 'Pairs of configurations of one scene, with injected thread delays; exact equality when tile layouts agree.' + G),
 'C10': ('metamorphic DEM re-expressions and analytic terrain', 'CRS, unit, datum, extent, band, nodata; error and warning predicates.' + G),
 'C11': ('table of documented output rules', 'Every combination drawn from driver, dtype, compression, mask, creation options, overviews; numpy rounding/clipping reference.' + G),
 'C12': ('write histories with byte comparison', 'API and CLI writers over pre-existing valid, partial, empty and foreign files; input hashes.' + G),
 'C13': ('write/read round trip', 'Exact equality of dictionaries, CRS equivalence, and projection equality of cameras.' + G),
 'C14': ('write/read round trip and embedded tag reading', 'Exact equality for files; GDAL precision for tags.' + G),
 'C15': ('logical rows rendered in random layouts', 'Values compared with direct conversion of the logical rows.' + G),
 'C16': ('OpenSfM projection formula in numpy', 'Random reconstructions, world points compared to ~1e-6 px.' + G),
 'C17': ('encoder for EXIF/XMP bytes written independently', 'Decoded values compared with the encoded ones.' + G),
 'C18': ('geodetic NED construction by finite differences', 'Camera axes compared in local NED.' + G),
 'C19': ('structure-aware mutation fuzzing of parameter files', 'Oracle: error type, well-formedness of results, and mandatory-field mutation always rejected.' + G),
 'C20': ('stateful sequences of factory operations', 'Model: directly constructed cameras.' + G),
 'C21': ('numpy least squares in pixel space', 'Both methods; exact recovery, optimality and order relations.' + G),
 'C22': ('generating pose', 'Six or more well distributed GCPs.' + G),
 'C23': ('closed form Gram-Schmidt in numpy', 'Statistics over all common pixels; GDAL upsampling is a trusted primitive of the reference.' + G),
 'C24': ('geometry and validity predicates', 'Grid alignment, bounds, masks, errors and layout differential.' + G),
 'C25': ('command line against API differential', 'In-process click invocations of all sub-commands; batch order relation; usage errors.' + G),
 'C27': ('fault injection and recovery differential', 'Exceptions in the n-th tile or band, corrupted blocks of each input; the oracle is the raised error and equality with a never failed run. Disk-full errors that rasterio does not report are out of reach.' + G),
 'C28': ('one-at-a-time invalid argument generation with directory snapshots', 'Oracle: an exception of the documented type, and byte equality of the output directory before and after.' + G),
 'C26': ('exhaustive cover check and brute force', 'Set cover of windows; minimal windows; all UTM zones; dtype conversion against an exact nearest/saturation predicate.' + G),
}
