#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the JSON stays readable here)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['orthority/' + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)

p('C01', 'Existing files are never replaced unless overwriting was requested',
  'Through the Python API and the command line alike, an existing ortho, pan-sharpened image or exported parameter file is opened for writing only when the caller explicitly asked to overwrite it; otherwise the call fails with a file-exists error and the file is left as it was. This holds for every kind of path or URI that can be given, overwriting is off by default, and the caller\'s choice reaches the place where the file is opened unchanged.',
  ['inputs', 'configurations'], 'every entry point that writes, every path kind (local, remote file system, open-file object), every combination of options',
  'Tests try a handful of writers with a local path that exists; they do not cover every writer, path kind and option combination, and a new write site is covered by none of them.',
  ['common.py', 'ortho.py', 'pan_sharp.py', 'param_io.py', 'factory.py', 'cli.py'],
  [('existence test before a file is opened for writing', 'common.OpenRaster.__init__, common.Open.__init__'), ('overwrite flag passed down', 'Ortho.process, PanSharpen.process, param_io.write_*, Cameras.write_param, cli._ortho, cli.sharpen')])

p('C02', 'A request refused for its arguments leaves existing outputs untouched',
  'When a request is refused because of its arguments or input parameters (unsupported data type, driver, compression, interpolation, band index, weights, resolution or CRS, or a DEM that does not cover the image), the refusal comes before any output file is created or truncated, even if overwriting was requested. When camera parameters are exported, the parameters and their CRS are validated and converted before the first file is opened for writing.',
  ['inputs', 'configurations'], 'every invalid argument combination, for each operation that writes a file',
  'Tests that pass a bad argument assert the exception, not that an existing file survived; the order of every check relative to the open is not sampled.',
  ['ortho.py', 'pan_sharp.py', 'param_io.py', 'factory.py', 'common.py'],
  [('validation precedes opening of the output', 'Ortho.process, PanSharpen.process, param_io.write_*, FrameCameras.write_param')])

p('C03', 'No failed or skipped tile, band or file goes unnoticed',
  'Every tile and band of an output image, and every input file of a batch read, is processed exactly once and its outcome is waited for; if any of them fails, the call raises instead of returning normally. No failure while reading, processing or writing is caught and dropped.',
  ['fault_sequences', 'schedules', 'inputs'], 'every tile, band and file, and a failure of any of them at any time',
  'A dropped failure shows only when a worker fails; the tests never make an individual tile or file fail.',
  ['ortho.py', 'pan_sharp.py', 'param_io.py', 'common.py', 'cli.py', 'factory.py', 'exif.py', 'camera.py'],
  [('futures collected and every result() taken', 'Ortho._remap, PanSharpen._get_stats, PanSharpen.process, param_io.read_im_rpc_param, read_im_gcps, ExifReader._read_exif'), ('handlers re-raise', 'all except clauses')])

p('C04', 'Parallel workers share image datasets and data safely',
  'While tiles are processed in parallel, all reads and writes of one shared image dataset are made under one and the same lock, whether they are made by a worker or by the coordinating thread. Workers modify no other data that another thread can see, and no dataset they use is closed before they have all finished.',
  ['schedules'], 'every interleaving of the worker threads and the coordinating thread',
  'Data races depend on the schedule; a test run exercises a few lucky ones and GDAL usually survives them.',
  ['ortho.py', 'pan_sharp.py', 'camera.py', 'param_io.py', 'exif.py', 'common.py'],
  [('write lock', 'Ortho._remap_tile'), ('pan, multispectral and output locks', 'PanSharpen._get_stats, PanSharpen._process_tile'), ('executor is entered after, so left before, the datasets', 'Ortho.process, PanSharpen.process, PanSharpen._get_stats')])

p('C05', 'Files opened by the package are closed; files the caller opened stay open',
  'Every file or image that the package opens is closed when the operation ends, whether it ends normally or with an error, so outputs are complete on return and nothing is leaked. A dataset or file object supplied by the caller is never closed by the package.',
  ['fault_sequences', 'inputs'], 'every exit, normal or exceptional, of every operation that opens a file; every kind of file argument',
  'Leaks and early closes show on error paths and with particular argument kinds; tests exercise few of those.',
  ['common.py', 'ortho.py', 'pan_sharp.py', 'param_io.py', 'exif.py', 'camera.py', 'cli.py'],
  [('exit stack owning only what was opened here', 'common.OpenRaster, common.Open'), ('with statements / exit stacks around every open', 'all openers')])

p('C06', 'Operations do not modify their inputs and can be repeated',
  'Constructing and using cameras, orthorectifiers, pan-sharpeners, readers, writers and camera factories never modifies the arrays, lists, dictionaries or option mappings the caller passed in. Running an orthorectification or pan-sharpening does not change the DEM, camera parameters or grids stored in the object, so repeating it with the same options repeats the result.',
  ['inputs', 'histories'], 'every argument value and every sequence of calls on the same objects',
  'Tests seldom call an operation twice on one object or compare arguments before and after.',
  ['ortho.py', 'pan_sharp.py', 'camera.py', 'factory.py', 'param_io.py', 'fit.py', 'common.py'],
  [('copies before in-place changes', 'Ortho._reproject_dem, RpcCamera.world_to_pixel, pixel_to_world_z, param_io._read_osfm_int_param, fit.refine_rpc')])

p('C07', 'Output pixels with no valid source are nodata',
  'An ortho pixel whose position has no valid DEM height, or that projects outside the source image, always holds the nodata value of the output data type and is marked invalid in any mask that is written; a pixel coordinate that is not a number is never sampled from the image. The value used for filling, for building the mask and for declaring nodata in the file is the same one, for every supported data type, camera model and way of remapping.',
  ['inputs', 'configurations'], 'every DEM, camera, data type, interpolation and remapping mode',
  'Tests compare a few synthetic scenes; pixels at the fringe and NaN handling differ per platform and data type.',
  ['camera.py', 'ortho.py', 'common.py'],
  [('prefilled destination and transparent border', 'Camera.remap, FrameCamera._undistort_im, Camera._pixel_to_world_surf'), ('NaN coordinates moved outside the image', 'Camera.remap'), ('nodata table', 'common._nodata_vals')])

p('C08', 'Command line options reach the processing they document',
  'Each option of the orthorectification and pan-sharpening commands reaches the processing, camera, reader or factory argument it documents, with the value the user gave, in every command that offers it; none is dropped, swapped with another or overridden. Leaving an option out gives the same behaviour as leaving out the corresponding Python argument.',
  ['configurations', 'inputs'], 'every command and every combination of its options',
  'Tests check a few options of a few commands; the product of commands and options is not covered.',
  ['cli.py', 'ortho.py', 'pan_sharp.py', 'factory.py', 'common.py'],
  [('option declarations and callbacks', 'cli module level'), ('keyword forwarding', 'cli.frame, exif, odm, rpc, sharpen, _ortho')])

p('C09', 'Exported parameter files read back as the parameters that were written',
  'Interior, exterior and RPC camera parameters and ground control points that are exported to Orthority format files and read again give the same parameters: every camera, image and control point is present under the same name, and every field has the value that was written. This holds for every camera type, number of entries and optional field.',
  ['inputs', 'configurations'], 'every parameter dictionary the package can hold',
  'Round-trip tests use one or two sample dictionaries; a field mix-up that only shows with particular optional fields or several entries passes them.',
  ['param_io.py', 'factory.py', 'enums.py'],
  [('writers', 'param_io.write_int_param, write_ext_param, write_rpc_param, write_gcps'), ('readers', 'param_io.read_oty_int_param, OtyReader, read_oty_rpc_param, read_oty_gcps')])

p('C10', 'Coordinates keep their axis order and CRS through every conversion',
  'Every conversion between geographic and world coordinates takes longitude, latitude and height (or x, y and z) in that order, from the CRS the values are in to the CRS the result is used in; latitude and longitude, x and y, and rows and columns are never exchanged. A CRS derived automatically from positions is derived from their latitude and longitude.',
  ['inputs', 'configurations'], 'every position, CRS pair and parameter file format',
  'Tests use data from one place on earth and mostly one CRS, where some swaps and wrong CRSs cancel out or stay within tolerance.',
  ['param_io.py', 'camera.py', 'ortho.py', 'fit.py', 'common.py', 'exif.py', 'pan_sharp.py'],
  [('CRS transforms', 'param_io.CsvReader._convert, _read_exif_ext_param, _rpy_to_opk, OsfmReader.read_ext_param, write_ext_param, read_im_gcps, RpcCamera, Ortho, fit._gcps_to_cv_coords, PanSharpen._get_vrt_profiles'), ('automatic UTM CRS', 'common.utm_crs_from_latlon and its callers')])

p('C11', 'A camera without a position is refused, never used',
  'Any projection to or from world coordinates with a frame camera whose position or orientation has not been set raises the camera-initialisation error; it never returns coordinates or an image. This holds for every frame camera type and every operation that needs world coordinates.',
  ['histories', 'inputs'], 'every frame camera type, every method that needs world coordinates, every order of construction, update and use',
  'Tests check a few methods of some camera types.',
  ['camera.py'], [('initialisation test before use of position and rotation', 'FrameCamera.world_to_pixel, pixel_to_world_z, world_boundary, remap')])

p('C12', 'Cameras always reflect the current parameters',
  'After a camera\'s position, orientation or undistortion scaling is changed, or camera models are refined with control points, every later result of the camera uses the new parameters: nothing computed from old ones is reused. A camera requested from a factory has the (refined) parameters recorded for the requested image, whatever was requested before, and keeps them.',
  ['histories'], 'every order of construction, parameter change, refinement and use',
  'Stale results need a use before and after a change of the same object; few tests do that.',
  ['camera.py', 'factory.py'],
  [('undistort matrices and maps refreshed with alpha', 'FrameCamera.alpha'), ('camera cache invalidated by refinement', 'RpcCameras.refine'), ('exterior update on every get', 'FrameCameras.get')],
  state=[('undistortion maps', 'cached remap grids for the current undistorted intrinsics', 'FrameCamera._undistort_maps'), ('camera cache', 'cameras created so far', 'FrameCameras._cameras, RpcCameras._cameras')])

p('C13', 'Image and geometry agree on whether lens distortion is included',
  'With distortion included, the source image is used as read and all projections and boundaries use the full distortion model; with distortion excluded, the image is undistorted first and all projections and boundaries use the undistorted model of that same image. The two are never mixed, for any frame camera type.',
  ['configurations', 'inputs'], 'every frame camera type and every projection, boundary and read operation, in both modes',
  'A mix gives a small shift that passes tolerance tests for cameras with little distortion.',
  ['camera.py'], [('distortion switch', 'FrameCamera.world_to_pixel, pixel_to_world_z, pixel_boundary, read')])

p('C14', 'Every camera type and option value is supported consistently everywhere',
  'Every camera type is created with its own model, and every parameter that is accepted for it when reading files is accepted by that model and applied as the same coefficient when projecting, undistorting and fitting. Every interpolation, compression and driver value works wherever it is accepted, whether given by name or as the enumeration value, and maps to the same method in all libraries used.',
  ['configurations', 'inputs'], 'every camera type, distortion coefficient and option value',
  'Tests use a few coefficient sets; a coefficient that is dropped, or swapped with one that is zero in the tests, is not seen.',
  ['camera.py', 'param_io.py', 'fit.py', 'enums.py', 'common.py'],
  [('type to model dispatch', 'camera.create_camera'), ('accepted optional parameters', 'param_io._opt_frame_schema'), ('coefficient order', 'OpenCVCamera, BrownCamera, FisheyeCamera, fit._frame_dist_params'), ('option conversion', 'enums.Interp, Compress, Driver')])

p('C15', 'Images processed in one batch do not influence each other',
  'When several images are processed in one command or read in one call, the result for each image depends only on that image and the common options: no CRS, output directory, camera parameter, DEM or other setting derived from one image is carried over to a later one, and a CRS that is determined once for the whole batch is determined from all of its images. Each image gets its own output name derived from its own name.',
  ['histories', 'inputs'], 'every sequence of source images',
  'Batch tests use images of one project with the same properties, for which a carried-over value is right by luck.',
  ['cli.py', 'factory.py', 'param_io.py'],
  [('per-image values inside the batch loops', 'cli._ortho, cli._simple_ortho, readers of several files')])

p('C16', 'User errors on the command line are reported as usage errors',
  'Every error that the package raises for something wrong with the files and options a user gives to an orthorectification or pan-sharpening command (a missing file, an incomplete parameter file, a missing or unsuitable CRS, an invalid band, too few control points, an option value that cannot be parsed, an existing output, images that do not overlap the DEM) ends as a click usage error message and non-zero status, never a traceback. No error is caught and turned into success.',
  ['inputs', 'fault_sequences'], 'every error the package reports for user input, in every command',
  'Tests cover a selection of errors per command; which of the package\'s errors escape is a whole-program question.',
  ['cli.py', 'errors.py'], [('exception translation', 'cli.frame, exif, odm, rpc, sharpen, _ortho and option callbacks')])

p('C17', 'Reading files never executes their content',
  'Parameter files, image tags, creation options and configuration files are parsed as data only: no input can make the package evaluate code, import modules, construct arbitrary objects or start processes.',
  ['inputs'], 'every byte sequence in every file and option the package reads',
  'No finite set of benign test files shows the absence of a code execution path.',
  ['param_io.py', 'exif.py', 'cli.py', 'common.py'],
  [('safe YAML and JSON loaders', 'param_io.read_*, cli._creation_option_cb, cli._simple_ortho')])

p('C18', 'Band indexes outside the image are refused before any reading or writing',
  'A DEM band, panchromatic band or multispectral band index that is zero, negative or larger than the number of bands is refused with an error that names it, before it is used to read from an image and before any output is written. All other indexes are accepted.',
  ['inputs'], 'every integer index and band count', 'Tests try one or two out-of-range values.',
  ['ortho.py', 'pan_sharp.py', 'cli.py'],
  [('range checks', 'Ortho._get_init_dem, PanSharpen._validate_pan_ms_params, cli._ortho, cli.sharpen')])

p('C19', 'Pan-sharpening uses and writes only pixels valid in all inputs',
  'Statistics, and sharpened values, are computed only from pixels that are valid in the panchromatic band and in all selected multispectral bands; every other output pixel holds the output nodata value and is marked invalid in any mask that is written. Each statistic is accumulated over all tiles and weighted by the number of valid pixels, and tiles without valid pixels contribute nothing.',
  ['inputs'], 'every pair of images and pattern of invalid pixels',
  'Tests use images with few invalid pixels in fixed places.',
  ['pan_sharp.py', 'common.py'],
  [('joint mask', 'PanSharpen._get_stats.get_tile_stats, PanSharpen._process_tile'), ('prefilled output tile', 'PanSharpen._process_tile')])

p('C20', 'Output format settings are resolved consistently',
  'For every combination of driver, data type, compression, mask setting and creation options, the created image either declares the nodata value of its data type or carries a mask, never both or neither; mask writing follows the caller\'s setting, and otherwise is used exactly if the compression used is JPEG. Unset compression becomes JPEG for 8 bit data and DEFLATE otherwise, creation options given by the caller replace all default compression, tiling, photometric and overview options, and unsupported combinations are refused.',
  ['configurations'], 'all combinations of driver, data type, compression, mask setting and presence of creation options',
  'Tests cover some of the combinations and not the agreement between profile and mask writing.',
  ['common.py', 'ortho.py', 'pan_sharp.py'],
  [('profile construction', 'common.create_profile'), ('mask writing', 'Ortho._remap_tile, PanSharpen._process_tile')])

p('C21', 'Angles are converted to radians exactly once',
  'Orientation angles read from files and image tags in degrees are converted to radians exactly once, and angles declared to be in radians are not converted; the rotation of every camera is built from radians. This holds for every file format and both angle conventions, and omega, phi and kappa (or roll, pitch and yaw) keep their order.',
  ['inputs', 'configurations'], 'every reader, angle convention and unit setting',
  'Tests do not run every combination of file format and unit; nadir imagery hides errors in small angles.',
  ['param_io.py', 'exif.py', 'cli.py', 'camera.py'],
  [('unit conversion', 'param_io.CsvReader._convert, _read_exif_ext_param, cli._simple_ortho')])

p('C22', 'Pixel coordinates refer to pixel centres consistently',
  'Integer pixel coordinates are pixel centres, while affine transforms, RPCs and image control points refer to pixel corners; the half pixel between the two is applied exactly once and in the right direction. This holds where output pixels are located in the world, where the source image and its boundary are sampled, where DEM heights are looked up along camera rays, where the DEM is masked to the ortho polygon, and in the RPC and control point camera models.',
  ['inputs', 'configurations'], 'every camera model, transform and resolution',
  'Half pixel shifts are below the tolerance of most accuracy tests.',
  ['ortho.py', 'camera.py'],
  [('half pixel translation', 'Ortho._remap, Ortho._mask_dem, Camera._pixel_to_world_surf'), ('centre offset', 'RpcCamera.pixel_to_world_z, GcpCamera')])

p('C23', 'Malformed parameter files are reported as parameter errors',
  'A parameter file that is not valid for its format (text that cannot be parsed, wrong structure, missing or unknown fields) raises a parameter error; an error of the file parser is turned into a parameter error that names the file, and no refusal of a file raises another kind of exception. Missing and unknown fields are refused and never yield camera parameters. This holds for interior, exterior, RPC and control point files in every supported format.',
  ['inputs'], 'every content of every supported parameter file format',
  'Tests try a handful of malformed files per format.',
  ['param_io.py', 'common.py', 'factory.py'],
  [('load and validation wrapped in parameter errors', 'param_io.read_oty_int_param, read_osfm_int_param, read_oty_rpc_param, read_oty_gcps, CsvReader, OsfmReader, OtyReader')])

p('C24', 'Tiles cover the output image exactly once',
  'The tiles in which an image is processed cover every pixel of the image exactly once and never extend beyond it, for every image size and tile shape; when bands are processed separately, every band is processed exactly once as well.',
  ['inputs', 'configurations'], 'every image width, height, tile shape and band count',
  'Tests use a few sizes, mostly smaller than one tile or a multiple of the tile size.',
  ['common.py', 'ortho.py', 'pan_sharp.py'],
  [('window generator', 'common.block_windows'), ('band index lists', 'Ortho._remap')])

p('C25', 'Conversion to integer data types rounds and saturates',
  'When computed values are written with an integer data type, they are rounded to the nearest integer and limited to the range of the type before they are converted; no value wraps around or is truncated. This holds for every pair of computed and output data type.',
  ['inputs', 'configurations'], 'every pair of source and destination data type and every value',
  'Tests convert sample arrays for some type pairs.',
  ['common.py', 'pan_sharp.py'], [('rounding and clipping', 'common.convert_array_dtype'), ('use before writing', 'PanSharpen._process_tile')])

p('C26', 'Pixel arrays and their georeferencing are cropped and offset together',
  'Whenever an elevation or image array is cropped, windowed or reprojected, the affine transform used with it afterwards is the transform of exactly that array: offsets along columns go with x and offsets along rows with y. The georeferencing written to an output is that of the pixel grid its tiles were computed on, and the tile taken from each array is the tile that is written.',
  ['inputs', 'configurations'], 'every DEM, image extent, resolution and tile',
  'A mismatch shows only when the crop offset is not zero in that direction, or for tiles other than the first.',
  ['ortho.py', 'pan_sharp.py'],
  [('crop and transform', 'Ortho._get_init_dem, Ortho._mask_dem, Ortho._reproject_dem'), ('tile offsets', 'Ortho._remap_tile'), ('grids', 'PanSharpen._get_vrt_profiles, PanSharpen.process')])

p('C27', 'Documented argument forms are all accepted',
  'Every optional argument may be left at its documented default, and every option documented as a name or an enumeration value may be given as either, in all public operations, with the same result. No public operation fails only because an argument took its default value or was given in another documented form.',
  ['inputs', 'configurations'], 'every public function and method, every documented form of every argument',
  'Tests call most operations with explicit enumeration values and without relying on every default.',
  ['camera.py', 'ortho.py', 'pan_sharp.py', 'common.py', 'fit.py', 'factory.py'],
  [('conversion of option arguments before use', 'all users of interpolation, compression, driver, refinement options'), ('default resolution', 'Camera.remap, FrameCamera.read')])

p('C28', 'World to pixel and pixel to world projections follow the documented models',
  'Each camera projects world points to pixels, and pixels to world points, by the model documented for its type: position, rotation, focal length, principal point and distortion (pinhole, Brown, OpenCV, fisheye), or rational polynomial. Focal lengths and principal points are scaled by the sensor and image sizes as documented, the inverse uses the same model and parameters as the forward projection, and turning distortion off gives the model without its distortion terms.',
  ['inputs', 'configurations'], 'every camera model, set of parameters, point, image and sensor size',
  'Tests compare a few points of each camera with OpenCV results for landscape images and small, or equal, parameters, where errors in single terms stay within tolerance.',
  ['camera.py'],
  [('projection models', 'camera.FrameCamera, PinholeCamera, BrownCamera, OpenCVCamera, FisheyeCamera, RpcCamera'), ('intrinsic matrix', 'camera.FrameCamera._get_intrinsic')])
p('C29', 'Refined RPC models give the refined pixel coordinates',
  'The RPC parameters that result from a refinement project every ground point to the fitted shift, or shift and drift, of the pixel that the original parameters project it to. Line and sample corrections stay with their own axis, the scales and offsets used in the fit and in the result agree, and the parameters passed in are otherwise kept.',
  ['inputs', 'configurations'], 'every RPC model, set of control points and refinement method',
  'Tests fit models with small synthetic corrections in which several terms vanish.',
  ['fit.py'], [('RPC refinement', 'fit.refine_rpc')])
p('C30', 'Orientation conversions keep the camera orientation',
  'Roll, pitch and yaw, OpenSfM rotation vectors and fitted rotations are converted to omega, phi and kappa angles that describe the same camera orientation in the world CRS, for every orientation and position. The axes and signs of the body, camera and world frames follow the documented conventions in each file format.',
  ['inputs', 'configurations'], 'every orientation and position, every reader and fit',
  'Tests compare with a data set of near nadir images with one heading, where errors in order, sign or axis are small or cancel.',
  ['param_io.py', 'fit.py'], [('rotation conversions', 'param_io._rpy_to_opk, _rotation_to_opk, OsfmReader.read_ext_param, fit.fit_frame_exterior')])

p('C31', 'Elevations are used in the vertical reference and units of the ortho CRS',
  'Whenever the DEM has another CRS than the ortho, its elevations are converted to the vertical reference and units of the ortho CRS before they are used with a camera: reprojection applies the vertical shift and the scale between the vertical units, and the heights at which image boundaries are projected to the ground are converted from the CRS of the DEM or from metres. A DEM is used without reprojection only if both its CRS and its resolution are those of the ortho.',
  ['inputs', 'configurations'], 'every pair of DEM and ortho CRS, and every resolution',
  'Tests use few pairs of CRSs, and DEMs whose resolution differs from that of the ortho.',
  ['ortho.py'], [('DEM heights', 'Ortho._get_init_dem, Ortho._get_gsd, Ortho._reproject_dem')])
p('C32', 'Cropping never cuts off part of the area to be processed',
  'A window that is rounded to whole pixels contains the window it was made from, and an array that is cropped to a mask contains every pixel of the mask, for all positions and sizes. The portion of the DEM that is kept for an image takes account of both the lowest and the highest elevation.',
  ['inputs'], 'every position and size of windows and masks',
  'A lost row or column changes orthos by an amount that tests tolerate.',
  ['common.py', 'ortho.py', 'pan_sharp.py'], [('cropping', 'common.expand_window_to_grid, Ortho._mask_dem, Ortho._get_init_dem')])

p('C33', 'Pan-sharpening substitutes the panchromatic band as Gram-Schmidt does',
  'Each valid pan-sharpened pixel is the multispectral pixel, resampled to the panchromatic grid, plus the injection gain of its band (the covariance of the band and the simulated panchromatic band over the variance of the latter) times the difference of the panchromatic pixel, normalised to the mean and standard deviation of the simulated band, and the simulated one. The simulated band is the weighted sum of the multispectral bands with weights that sum to one; a negative weight counts as zero. Weights that are not given are the least squares fit of the multispectral bands to the panchromatic band, fitted again on the remaining bands when some are negative.',
  ['inputs', 'configurations'], 'every image pair, band selection and weighting',
  'Tests check some statistics of a few synthetic images.',
  ['pan_sharp.py'], [('statistics to coefficients to pixels', 'PanSharpen._get_params, PanSharpen._process_tile')])

# properties that this family of technique does not decide here
p('C40', 'Projecting a pixel to the ground and back returns the same pixel',
  'For every camera model, projecting a pixel to world coordinates at any height and projecting the result back gives the original pixel to within a small fraction of a pixel.',
  ['inputs'], 'every camera, pixel and height', 'Tests sample some cameras and points.', ['camera.py'],
  [('forward and inverse models', 'FrameCamera, OpenCVCamera, BrownCamera, FisheyeCamera, RpcCamera')])
p('C41', 'Ortho images are geometrically accurate',
  'A ground feature appears in the ortho image at its true world position, to within the accuracy of the DEM and camera parameters.',
  ['inputs'], 'every scene', 'Tests compare a few orthos with each other.', ['ortho.py', 'camera.py'], [('remapping', 'Ortho._remap, Camera.remap')])
p('C42', 'Refinement and fitting with control points reduce the error',
  'Refining RPC models or fitting frame cameras with control points never increases the reprojection error at those points.',
  ['inputs'], 'every model and set of control points', 'Tests use synthetic points.', ['fit.py'], [('least squares', 'fit.refine_rpc, fit._fit_frame, fit.fit_frame_exterior')])
p('C43', 'Pan-sharpening preserves the radiometry of the multispectral image',
  'Averaging the pan-sharpened image down to the multispectral resolution reproduces the multispectral image approximately, and tile statistics combine to the statistics of the whole image.',
  ['inputs'], 'every pair of images', 'Tests use a few synthetic images.', ['pan_sharp.py'], [('Gram-Schmidt method', 'PanSharpen._get_params, _process_tile_array, _get_stats')])
p('C44', 'The stored portion of the DEM contains the ortho bounds',
  'The part of the DEM kept for orthorectification contains the ground footprint of the image for every terrain height in it, so that no covered pixel is left out of the ortho.',
  ['inputs'], 'every camera, DEM and CRS', 'Tests use a few geometries.', ['ortho.py'], [('window at extreme heights', 'Ortho._get_init_dem')])
p('C45', 'Results do not depend on thread scheduling',
  'Processing the same inputs with the same options gives the same pixel values whatever the order in which tiles complete.',
  ['schedules'], 'every completion order', 'Tests observe a few orders.', ['pan_sharp.py', 'ortho.py'], [('aggregation over completed tiles', 'PanSharpen._get_stats')])
p('C46', 'Memory use is bounded by the tile and band settings',
  'Peak memory is bounded by the size of the source bands that are read at once plus a bounded number of tiles, whatever the size of the output.',
  ['inputs', 'configurations'], 'every image size', 'Tests use small images.', ['ortho.py', 'pan_sharp.py'], [('tile by tile processing', 'Ortho._remap, PanSharpen.process')])
pathlib.Path('/verif/properties.jsonl').write_text(''.join(json.dumps(d, ensure_ascii=False) + '\n' for d in P))
for d in P:
    assert len(d['title']) <= 80, (d['id'], len(d['title']))
    n = d['statement'].count('. ') + 1
    assert n <= 3, (d['id'], n)
print(len(P))
