import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
cam='orthority/camera.py'; pio='orthority/param_io.py'; fac='orthority/factory.py'; ort='orthority/ortho.py'; com='orthority/common.py'; ps='orthority/pan_sharp.py'; fit='orthority/fit.py'; ex='orthority/exif.py'; cli='orthority/cli.py'; en='orthority/enums.py'
p('C01','Frame cameras project world points exactly as their documented models',
 'For every valid interior parameter set (image size, single or x/y focal length, sensor size or normalised focal length, principal point offsets, distortion coefficients), position and omega-phi-kappa orientation, a pinhole, brown, opencv or fisheye camera maps each world point in front of it to the pixel given by the documented model: PATB omega-phi-kappa rotation, perspective division, that model\'s lens distortion, then scaling and offset with pixel-centre coordinates. A point on the optical axis maps to the principal point, and NaN world coordinates give NaN pixel coordinates for that point only.',
 ['inputs','configurations'],'all camera types, interior/exterior parameters and world points within the model validity domain',
 'The tests compare against cv2 or round-trip on a handful of fixed fixtures (one landscape image size, one focal length, few orientations); a wrong term that vanishes for those values is invisible.',
 [cam],[('interior parameters to pixel scale/offset','camera.py FrameCamera intrinsic set-up'),('opk rotation','param_io.py opk to rotation'),('distortion polynomials','camera.py Brown/OpenCV/Fisheye camera-to-pixel')],['FrameCamera.world_to_pixel','create_camera'])
p('C02','Frame camera pixel and world projections are mutual inverses',
 'For every frame camera, pixel coordinate and height, projecting the pixel to the world at that height gives a point at exactly that height on the ray through that pixel, so that projecting it back returns the same pixel, with distortion included or excluded. One-to-many and many-to-one broadcasting of pixels and heights gives the same result as separate single calls, NaN affects only its own point, and the caller\'s arrays are left unmodified.',
 ['inputs','configurations'],'all camera types, parameters, pixels in the image and heights below the camera',
 'Tests round-trip a few points of fixture cameras; broadcasting combinations, integer arrays, orientations and parameter values are sampled once.',
 [cam],[('ray scaling to z','camera.py FrameCamera.pixel_to_world_z'),('iterative undistortion','camera.py pixel-to-camera methods')],['FrameCamera.pixel_to_world_z','FrameCamera.world_to_pixel'])
p('C03','RPC cameras evaluate the RPC model and its inverse in any world CRS',
 'For every valid RPC, an RPC camera maps geographic world points to the pixels given by the standard 20-term rational polynomial model with pixel-centre coordinates, and maps pixels and heights back to world points at those heights that re-project to the same pixels. With a world CRS, the results equal those of the geographic camera with coordinates transformed to/from that CRS; a CRS whose heights are not ellipsoidal metres is rejected; broadcasting, NaN isolation and unmodified inputs hold as for frame cameras.',
 ['inputs','configurations'],'all RPC coefficient sets near real ones, points, heights and horizontal CRSs',
 'Tests use one RPC file and one CRS, where cross terms that are nearly zero in that file can be wrong unnoticed.',
 [cam],[('polynomial evaluation','camera.py RpcCamera.world_to_pixel'),('RPCTransformer + CRS warp','camera.py RpcCamera.pixel_to_world_z')],['RpcCamera.world_to_pixel','RpcCamera.pixel_to_world_z'])
p('C04','A camera\'s behaviour depends only on its current parameters, not history',
 'After any sequence of exterior updates, distortion and alpha changes, projections, boundary queries, image reads and remaps, a frame camera gives the same projections, boundaries, undistorted image reads and remaps as a new camera created with the current parameters. Using exterior-dependent methods before exterior parameters are supplied raises the documented initialisation error and leaves the camera usable.',
 ['histories'],'all sequences of public camera operations',
 'Tests set one property at a time on fresh cameras; caching (undistort maps and intrinsics) bugs need particular operation orders.',
 [cam],[('undistort map / intrinsic caches','camera.py alpha setter, undistort maps'),('update','camera.py FrameCamera.update')],['FrameCamera.update','.alpha','.distort','.read','.remap'])
p('C05','Undistorted images and undistorted projections agree',
 'With distortion excluded, the image read through a frame camera shows at each world point\'s (undistorted) projection the content that the source image has at that point\'s full-model projection, and pixels with no source content hold nodata. To within the sampling of the image edge, alpha = 1 keeps every source pixel inside the undistorted image and alpha = 0 makes every undistorted pixel valid, and pinhole cameras are unaffected by distortion and alpha settings.',
 ['inputs','configurations'],'all distorting camera models, coefficients, alphas and image sizes',
 'Tests check the fixture cameras at alpha 0 and 1 only and compare images statistically.',
 [cam],[('new camera matrix','camera.py undistort intrinsic'),('undistort maps','camera.py initUndistortRectifyMap')],['FrameCamera.read','FrameCamera.world_to_pixel'])
p('C06','Image boundaries are on the image edge and on the requested surface',
 'For every camera, the pixel boundary is an ordered polygon along the edge of the image (of its valid area when undistorted) that includes the corners, with a spacing set by the requested number of points. The world boundary at a height is the projection of that polygon to that height (clipped to the camera height by default), and the world boundary on a surface lies on the pixel rays at their first intersection with the surface to within the surface sampling, at the surface minimum where a ray leaves it; a field of view reaching the horizon is rejected.',
 ['inputs','configurations'],'all cameras, point counts, heights and surfaces',
 'Tests use constant or one ramp DEM and default point counts with fixture cameras.',
 [cam],[('rectangle boundary','camera.py Camera.pixel_boundary'),('ray marching','camera.py pixel-to-world surface')],['Camera.pixel_boundary','Camera.world_boundary'])
p('C07','Remapping samples the source image where each world point projects',
 'For every camera, image data type, band count, interpolation method and grid of world coordinates, each remapped pixel is the chosen interpolation of the source band at the pixel coordinate its world point projects to; world points that are NaN or project outside the image, and only those, get nodata. The returned mask is set exactly where all bands equal nodata, nodata defaults to the value documented for the data type, and with undistorted images the mask is only ever dilated around nodata.',
 ['inputs','configurations'],'all cameras, data types, band counts, interpolations, grids incl. NaN and outside areas',
 'Tests remap one fixture with loose statistical comparison.',
 [cam,com],[('cv2.remap with nodata fill','camera.py Camera.remap'),('mask and dilation','camera.py FrameCamera.remap')],['Camera.remap'])
p('C08','Each ortho pixel shows the image content of its ground position',
 'For every source image, camera and DEM, each valid ortho pixel holds the source image value, interpolated with the requested method, at the position where the camera sees the ground point at that pixel\'s centre and the DEM height there, for every band. Pixels whose ground point is inside the image footprint are valid and those outside it are nodata, except within a narrow band along the footprint edge. The ortho has the requested resolution or, by default, square pixels of about the ground sampling distance of the image.',
 ['inputs','configurations'],'all camera types and poses, DEMs (flat, sloped, rough), resolutions and interpolation',
 'Tests compare orthos of a few fixtures with each other or with loose correlation thresholds; sub-pixel or parameter-dependent misregistration passes.',
 [ort,cam],[('DEM reprojection/masking','ortho.py'),('tile grids','ortho.py remap tile')],['Ortho.process'])
p('C09','Ortho content does not depend on how processing is organised',
 'For a given source image, camera, DEM and resolution, the valid area and (losslessly stored) pixel values of the ortho are the same (to within interpolation rounding where tile layouts differ) whether bands are processed together or separately, for any driver, tile or strip layout, lossless compression, nodata or internal mask, overview setting, and input given as path, open dataset or fsspec file. Repeating a process call, in the same or a new object, gives the same result whatever the thread schedule.',
 ['configurations','schedules','histories'],'all output configurations, tilings and repeated runs on the same inputs',
 'Tests exercise each option on its own on small single-tile images; interactions of tiling, per-band, masks and threads are not compared.',
 [ort,com],[('tile loop and locks','ortho.py remap / remap tile'),('block windows','common.py block_windows')],['Ortho.process'])
p('C10','Orthos use the DEM correctly in any CRS, extent, units and datum',
 'Ortho heights come from the requested DEM band, interpolated with the requested method and converted to the ortho CRS horizontally and vertically, including vertical units and datum when both CRSs define them, and DEM nodata gives ortho nodata. Enlarging the DEM beyond the image footprint, re-tiling it, or storing it in a different CRS or height unit does not change the ortho beyond interpolation; an ortho not fully covered raises a warning, one not covered at all an error.',
 ['inputs','configurations'],'all DEM CRSs, vertical units/datums, extents, resolutions, bands and nodata patterns',
 'Tests use a few fixed DEM/CRS pairs with tolerance-based comparison and never compare DEM extents.',
 [ort],[('DEM windowing','ortho.py initial DEM'),('DEM reprojection with vertical shift','ortho.py reproject DEM'),('coverage test','ortho.py mask DEM')],['Ortho','Ortho.process'])
p('C11','Output images have the documented format for every configuration',
 'Every ortho and pan-sharpened image has the requested driver, data type (default: the source type), compression (default: JPEG for uint8, DEFLATE otherwise), band count, colour interpretation, CRS, requested or automatic resolution, nodata value or internal mask, creation options and overviews, as documented. Unsupported combinations of data type and compression raise the documented error and leave no output file, and values converted to integer types are rounded and clipped to the type\'s range.',
 ['configurations'],'all combinations of output options, data types and image shapes',
 'Tests sample each option separately; the combination space is not covered.',
 [com,ort,ps],[('create_profile','common.py create_profile'),('convert_array_dtype','common.py'),('build_overviews','common.py')],['Ortho.process','PanSharpen.process','common.create_profile','common.convert_array_dtype'])
p('C12','Existing files are never overwritten unless asked, inputs never modified',
 'Without the overwrite option, writing an ortho, pan-sharpened image or any parameter file onto an existing file raises a file-exists error and leaves that file byte-for-byte unchanged; with it, the new output replaces the old completely. No operation ever modifies its source images, DEM or parameter files.',
 ['histories','configurations'],'all output kinds, existing contents and sequences of writes through the API and command line',
 'Tests check that an error is raised for some outputs, not that content survives nor that inputs stay intact.',
 [com,fac,pio,cli],[('existence check','common.py Open / OpenRaster')],['Ortho.process','PanSharpen.process','FrameCameras.write_param','RpcCameras.write_param','param_io.write_*'])
p('C13','Frame camera parameters survive export and re-import',
 'Interior and exterior parameters written to Orthority YAML and GeoJSON files and read back are equal to those written, for every camera type, parameter set, file name and world CRS: same cameras, images, camera IDs, sizes, coefficients, positions, orientations and CRS, to floating point precision. Cameras made from the re-imported files project identically to the originals.',
 ['inputs','configurations','histories'],'all interior/exterior parameter dictionaries and CRSs, incl. unusual IDs and names',
 'Tests round-trip fixture dictionaries with one or two cameras and fixed names.',
 [pio,fac],[('writers','param_io.py write_int_param, write_ext_param'),('readers','param_io.py read_oty_int_param, OtyReader')],['param_io.write_int_param','param_io.read_oty_int_param','param_io.write_ext_param','OtyReader','FrameCameras.write_param'])
p('C14','RPC parameters and GCPs survive export and re-import',
 'RPC parameters and ground control points written to Orthority YAML and GeoJSON files and read back are equal to those written, for every set of images, coefficients, GCP identifiers, info strings and coordinates, and RPCs stored in image metadata are read back with the stored values. GCPs stored in images with any CRS are returned as pixel-centre coordinates and WGS84 longitude, latitude and height. Reading tags of images without them raises the documented parameter error.',
 ['inputs','configurations'],'all RPC and GCP dictionaries, file names, and image RPC/GCP tags',
 'Tests round-trip single fixtures.',
 [pio],[('write_rpc_param / read_oty_rpc_param','param_io.py'),('write_gcps / read_oty_gcps / read_im_gcps','param_io.py')],['param_io RPC and GCP functions'])
p('C15','CSV exterior parameters are read correctly in every supported layout',
 'For every supported CSV layout (delimiter, quoting, header or field name argument, column order, extra columns, optional camera column, degrees or radians, position as x-y-z or latitude-longitude-altitude, orientation as omega-phi-kappa or roll-pitch-yaw, world CRS given, in a .prj sidecar or derived, and separate lla CRS) the values read are those in the file, converted to world coordinates and radians. Equivalent layouts of the same data give the same parameters, and file order does not matter.',
 ['inputs','configurations'],'all CSV dialects, formats, column orders, value ranges',
 'Tests read a few hand-written files.',
 [pio],[('CsvReader','param_io.py CsvReader')],['CsvReader.read_ext_param'])
p('C16','OpenSfM cameras and reconstructions convert to equivalent cameras',
 'For every OpenSfM reconstruction (any supported projection type, portrait or landscape image size, distortion and principal point values, reference latitude-longitude-altitude in any lla CRS, shots and poses), the converted camera projects each world point to the same pixel as the OpenSfM model does. Unsupported projection types are rejected.',
 ['inputs'],'all supported OpenSfM camera models, shots and references',
 'Tests compare converted values for a single (landscape, brown) dataset.',
 [pio,cam,en],[('OsfmReader','param_io.py OsfmReader'),('interior conversion','param_io.py OpenSfM interior parse')],['OsfmReader','read_osfm_int_param','FrameCameras'])
p('C17','EXIF/XMP metadata is decoded to the values it encodes',
 'For every image with EXIF/XMP tags, the decoded make, model, image size, focal length, sensor size, orientation, latitude, longitude, altitude and roll-pitch-yaw equal the encoded values for all hemispheres, altitude references, rational encodings, resolution units and supported XMP schemas, and parameters read from a set of images are each attributed to the right image and camera. Images lacking the required tags raise the documented parameter error.',
 ['inputs','schedules'],'all tag values, missing/alternative tags, and image sets',
 'Tests read four images from one drone in one hemisphere.',
 [ex,pio],[('Exif','exif.py'),('ExifReader','param_io.py ExifReader')],['Exif','ExifReader'])
p('C18','Roll-pitch-yaw and lat-lon-alt poses convert to the same physical pose',
 'A pose given as latitude, longitude, altitude, roll, pitch and yaw in any lla CRS, and any optional camera-to-body alignment, converts to a world position and omega-phi-kappa orientation describing the same physical camera: its optical axis, right and down directions in local north-east-down axes at the position are those of the roll-pitch-yaw definition to within the world CRS distortion, regardless of hemisphere and meridian convergence, and the position is the CRS transform of the given one.',
 ['inputs','configurations'],'all positions, orientations, alignments and world CRSs',
 'Tests use fixed samples and round trips of the same code.',
 [pio],[('rpy to opk','param_io.py rpy to opk conversion')],['CsvReader','ExifReader'])
p('C19','Malformed parameter files are rejected with a parameter error',
 'Reading any file that is not a valid interior, exterior, RPC or GCP parameter file (truncated, wrong type, missing or mistyped fields, wrong number of values, or arbitrary text) either raises an Orthority error (parameter or CRS) or returns well-formed parameters, never another exception. A file with any mandatory field removed or given an invalid type is always rejected.',
 ['inputs','fault_sequences'],'all mutations of valid files and arbitrary text contents',
 'Tests try a few broken files per format.',
 [pio,com],[('schema validation','common.py validate_collection'),('parsers','param_io.py readers')],['read_oty_int_param','read_osfm_int_param','OtyReader','CsvReader','OsfmReader','read_oty_rpc_param','read_oty_gcps'])
p('C20','Camera factories return the right camera for each image, in any order',
 'For every set of cameras and images and any sequence of get, refine and write operations, a factory returns for an image (by name with or without extension, path, or dataset) a camera with the interior parameters of that image\'s camera ID and that image\'s own position and orientation or (latest refined) RPC model, equal to a directly constructed camera. Unknown images, unknown camera IDs and ambiguous missing camera IDs raise the documented parameter error; caller-supplied dictionaries are not modified.',
 ['histories','inputs'],'all parameter sets and sequences of factory operations',
 'Tests perform single get calls; cache and lookup interactions need sequences.',
 [fac],[('camera cache','factory.py get'),('refine','factory.py RpcCameras.refine')],['FrameCameras.get','RpcCameras.get','RpcCameras.refine'])
p('C21','RPC refinement is the least squares fit to the GCPs',
 'For every RPC, GCP set and method, the refined RPC equals the original followed by the per-axis pixel shift (shift method) or scale and shift (shift-drift method) that minimises the squared pixel residuals of the GCPs, so exact shifts or shift-drifts are recovered exactly and refined residuals never exceed the originals. The result is independent of GCP order and too few GCPs are rejected; neither the RPC nor the GCPs given are modified.',
 ['inputs'],'all RPCs, GCP sets, noise and methods',
 'Tests refine one RPC with one GCP set.',
 [fit],[('refine_rpc','fit.py')],['fit.refine_rpc','RpcCameras.refine'])
p('C22','Fitted frame exteriors recover the camera pose from exact GCPs',
 'For every frame camera type, interior parameters and pose, fitting exterior parameters to six or more well distributed exact GCPs recovers the position and orientation that generated them, for one or many images, with GCPs in world coordinates or in WGS84 with a world CRS, independent of GCP order. Too few GCPs raise an error.',
 ['inputs'],'all camera types, interior parameters, poses and GCP layouts',
 'Tests fit a few fixture cameras.',
 [fit,pio],[('fit_frame_exterior','fit.py'),('OpenCV to Orthority pose','param_io.py')],['fit.fit_frame_exterior'])
p('C23','Pan-sharpened values are the Gram-Schmidt transform of pan and MS',
 'For every pan and multispectral image pair, band selection and weights, each valid output pixel equals the upsampled multispectral value plus the band\'s covariance-derived gain times the difference of the statistics-matched pan and the weighted multispectral intensity, with statistics over all pixels valid in both images at multispectral resolution. Weights not supplied are the non-negative normalised regression of pan on the multispectral bands; rescaling supplied weights, or the order in which bands are selected, does not change a band\'s values.',
 ['inputs','configurations','schedules'],'all image pairs, masks, band selections, weights and tilings',
 'Tests check a few synthetic images for expected means and correlation.',
 [ps],[('tile statistics aggregation','pan_sharp.py stats'),('Gram-Schmidt coefficients','pan_sharp.py params'),('tile transform','pan_sharp.py process tile')],['PanSharpen.process'])
p('C24','Pan-sharpened images cover the shared area on the pan grid',
 'For every georeferenced, partially overlapping, differently projected or un-georeferenced pan and multispectral pair, the output lies exactly on the pan pixel grid over the intersection of the image bounds and is valid exactly where both images are valid (to within multispectral interpolation). Non-overlapping images, a pan coarser than the multispectral, invalid band indexes and invalid weights are rejected with the documented error, and output layout options do not change the values.',
 ['inputs','configurations'],'all relative placements, resolutions, CRSs, masks and output layouts',
 'Tests use a few fixed extents.',
 [ps,com],[('VRT profiles','pan_sharp.py profiles'),('window expansion','common.py expand_window_to_grid')],['PanSharpen','PanSharpen.process'])
p('C25','Command line gives the same results as the API for every image',
 'For every ortho sub-command and option set, each image in a batch produces the same ortho as processing it alone through the API with the equivalent parameters, whatever the other images are and their order, and export and pan-sharpen commands likewise. Files are named and located as documented, and invalid options or missing inputs give a usage error with a non-zero exit status.',
 ['configurations','histories'],'all sub-commands, option combinations and image batches',
 'Tests run each command with one or two images and compare to fixtures rather than to the API.',
 [cli,fac],[('_ortho loop','cli.py'),('option parsing','cli.py')],['oty frame','oty exif','oty odm','oty rpc','oty sharpen'])
p('C26','Block windows tile an image exactly and window expansion covers',
 'For every image size and block shape, the block windows are disjoint, inside the image and cover each of its pixels exactly once; window expansion returns the smallest integer window (plus the requested margin) containing the given one. The automatic UTM CRS contains the given position in its zone for every latitude and longitude, and array type conversion rounds to nearest and saturates.',
 ['inputs'],'all sizes, shapes, windows, positions, values and data types',
 'Tests use single sizes which divide or do not divide once.',
 [com],[('block_windows','common.py'),('expand_window_to_grid','common.py'),('utm_crs_from_latlon','common.py'),('convert_array_dtype','common.py')],['common.block_windows','common.expand_window_to_grid','common.utm_crs_from_latlon','common.convert_array_dtype'])
p('C27','Processing failures are reported, and a repeat run recovers',
 'If reading any needed part of the source image, DEM, pan or multispectral image, or the tags of any image of a batch, fails, or processing of any tile fails, orthorectification, pan-sharpening and parameter reading raise an error (a non-zero exit status on the command line) rather than report success. A failed run modifies no input, and repeating it with the overwrite option once the cause is removed, with the same or a new object, gives the output of a run that never failed.',
 ['fault_sequences','histories'],'all faults in reads and tiles, at any point, and the runs that follow',
 'Tests never inject read or tile failures.',
 [ort,ps,cli],[('tile futures','ortho.py remap'),('tile futures','pan_sharp.py process and stats')],['Ortho.process','PanSharpen.process','oty'])
p('C28','Invalid arguments are rejected before any output is touched',
 'Orthorectification or pan-sharpening with an invalid argument (unknown interpolation, driver or data type, compression that does not support the data type, non-positive or too large resolution, missing CRS or camera exterior, DEM band out of range, DEM with no valid heights at the image, missing or unreadable input) and parameter reading or export with an invalid CRS or one that is not projected (geographic for latitude-longitude positions) raise an error (the documented Orthority error where there is one), create no output file, and leave an existing output file unchanged even with the overwrite option.',
 ['inputs'],'all invalid arguments, with and without existing outputs',
 'Tests check a few error types, and not what is left on disk.',
 [ort,ps,fac,pio,com],[('argument validation order','ortho.py process'),('CRS check','factory.py FrameCameras.write_param'),('create_profile','common.py')],['Ortho','Ortho.process','PanSharpen.process','FrameCameras.write_param','write_ext_param'])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
