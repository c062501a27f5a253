From 5b1219246926a2a59872bf288c40bc686ce1938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:30 +0000
Subject: [PATCH 01/27] fix: default nodata of camera remap, read and
 undistortion raised KeyError / TypeError

---
 orthority/camera.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index dee13a9..40e66ae 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -363,7 +363,7 @@ class Camera(ABC):
         if not np.issubdtype(z.dtype, np.floating):
             raise ValueError("'z' should have 'float64' or 'float32' data type.")
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
 
         # find (j, i) image pixel coords corresponding to (x, y, z) world coords
         ji = self.world_to_pixel(np.array((x.reshape(-1), y.reshape(-1), z.reshape(-1))))
@@ -923,7 +923,7 @@ class FrameCamera(Camera):
         # does not support 3D images with >4 bands, and is slower on a re-ordered 3D image than
         # in a loop over bands)
         if nodata is None:
-            nodata = common._nodata_vals[im_array.dtype]
+            nodata = common._nodata_vals[str(im_array.dtype)]
         und_array = np.full(im_array.shape, dtype=im_array.dtype, fill_value=nodata)
 
         for bi in range(im_array.shape[0]):
@@ -1052,7 +1052,7 @@ class FrameCamera(Camera):
 
         if not self._distort:
             if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
+                nodata = common._nodata_vals[str(image.dtype)]
             image = self._undistort_im(image, nodata=nodata, interp=interp)
         return image
 
@@ -1097,6 +1097,8 @@ class FrameCamera(Camera):
               bands.  Same data type as ``im_array``.
             - Nodata mask of the remapped image, as a M-by-N 2D boolean array.
         """
+        if nodata is None:
+            nodata = common._nodata_vals[str(image.dtype)]
         remap, mask = super().remap(image, x, y, z, nodata=nodata, interp=interp)
 
         # remove blurring with nodata pixels when necessary
@@ -1108,9 +1110,6 @@ class FrameCamera(Camera):
         ):
             kernel = np.ones(kernel_size[::-1], np.uint8)
             mask = cv2.dilate(mask.view(np.uint8), kernel).view(bool)
-
-            if nodata is None:
-                nodata = common._nodata_vals[image.dtype]
             remap[:, mask] = nodata
 
         return remap, mask
-- 
2.43.0


From 218c516bebd4ba9a80d548b35bfa1cd9d5770fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:30 +0000
Subject: [PATCH 02/27] fix: world_boundary did not accept an interpolation
 method name

---
 orthority/camera.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 40e66ae..067c7c7 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -153,7 +153,13 @@ class Camera(ABC):
             # nan outside its bounds and for already masked / nan pixels)
             zsurf_ji = np.array(inv_transform * ray_xyz[:2]).astype('float32', copy=False)
             zsurf_z = np.full((zsurf_ji.shape[1],), dtype=z.dtype, fill_value=float('nan'))
-            cv2.remap(z, *zsurf_ji, interp.to_cv(), dst=zsurf_z, borderMode=cv2.BORDER_TRANSPARENT)
+            cv2.remap(
+                z,
+                *zsurf_ji,
+                Interp[interp].to_cv(),
+                dst=zsurf_z,
+                borderMode=cv2.BORDER_TRANSPARENT,
+            )
 
             # store the first ray-z intersection point if it exists, otherwise the z_min point
             zsurf_min_xyz = ray_xyz[:, -1]
-- 
2.43.0


From 817e9166dd42678957d37c4237c4224dbad3a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:30 +0000
Subject: [PATCH 03/27] fix: GcpCamera did not accept GCP dictionaries

---
 orthority/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 067c7c7..54fbb48 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -534,7 +534,7 @@ class GcpCamera(Camera):  # pragma: no cover
     ):
         super().__init__()
         self._im_size = im_size
-        self._gcps = [GroundControlPoint(gcp) if isinstance(gcp, dict) else gcp for gcp in gcps]
+        self._gcps = [GroundControlPoint(**gcp) if isinstance(gcp, dict) else gcp for gcp in gcps]
 
     def world_to_pixel(self, xyz: np.ndarray) -> np.ndarray:
         self._validate_world_coords(xyz)
-- 
2.43.0


From ae6f454f4a0bf6289f74635fc7afd64f6a075641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:30 +0000
Subject: [PATCH 04/27] fix: an invalid interpolation was refused after the
 ortho file had been overwritten

---
 orthority/ortho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/ortho.py b/orthority/ortho.py
index e3be0cf..f82443d 100644
--- a/orthority/ortho.py
+++ b/orthority/ortho.py
@@ -587,6 +587,7 @@ class Ortho:
                 )
 
             # get dem array covering ortho extents in world / ortho crs and ortho resolution
+            interp = Interp(interp)
             dem_interp = Interp(dem_interp)
             dem_array, dem_transform = self._reproject_dem(dem_interp, resolution)
             # TODO: Don't mask dem if camera is pinhole or frame with distort=False. Or make dem
@@ -618,7 +619,7 @@ class Ortho:
                 src_im,
                 ortho_im,
                 dem_array,
-                interp=Interp(interp),
+                interp=interp,
                 per_band=per_band,
                 write_mask=write_mask,
                 progress=progress,
-- 
2.43.0


From 2b8c8c82f2834ceeb26d466a24775dcf91332f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:03 +0000
Subject: [PATCH 05/27] fix: interior parameter file was overwritten before a
 missing or unsuitable CRS was refused

---
 orthority/factory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 6eb9fa6..c966a6d 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -234,19 +234,19 @@ class FrameCameras(Cameras):
         return self._cameras[cam_id]
 
     def write_param(self, out_dir: str | PathLike | OpenFile, overwrite: bool = False):
-        # write interior params
-        int_param_file = common.join_ofile(out_dir, 'int_param.yaml', mode='wt')
-        param_io.write_int_param(int_param_file, self._int_param_dict, overwrite=overwrite)
-
         if not self.crs:
             raise CrsMissingError("A world 'crs' is required to write exterior parameters.")
 
-        # write exterior params
+        # write exterior params (first, as the CRS is validated before the file is opened)
         ext_param_file = common.join_ofile(out_dir, 'ext_param.geojson', mode='wt')
         param_io.write_ext_param(
             ext_param_file, self._ext_param_dict, overwrite=overwrite, crs=self.crs
         )
 
+        # write interior params
+        int_param_file = common.join_ofile(out_dir, 'int_param.yaml', mode='wt')
+        param_io.write_int_param(int_param_file, self._int_param_dict, overwrite=overwrite)
+
 
 class RpcCameras(Cameras):
     """
-- 
2.43.0


From 0b552629e2b0353236d2ae1121752418ec4bd054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:03 +0000
Subject: [PATCH 06/27] fix: FrameCameras.from_images modified the io_kwargs
 argument

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index c966a6d..64d784c 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -135,7 +135,7 @@ class FrameCameras(Cameras):
         reader = param_io.ExifReader(files, **io_kwargs)
         int_param_dict = reader.read_int_param()
         ext_param_dict = reader.read_ext_param()
-        io_kwargs.update(crs=reader.crs)
+        io_kwargs = {**io_kwargs, 'crs': reader.crs}
         return cls(int_param_dict, ext_param_dict, io_kwargs=io_kwargs, cam_kwargs=cam_kwargs)
 
     @property
-- 
2.43.0


From 2031b008deb8f7da9c2a7d0c3c83989caa5b1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:03 +0000
Subject: [PATCH 07/27] fix: RpcCameras.refine modified the rpc_param argument
 of the constructor

---
 orthority/factory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 64d784c..3b7b679 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -269,7 +269,8 @@ class RpcCameras(Cameras):
         if not isinstance(rpc_param, dict):
             self._rpc_param_dict = param_io.read_oty_rpc_param(rpc_param)
         else:
-            self._rpc_param_dict = rpc_param
+            # copy so that refinement does not modify the argument
+            self._rpc_param_dict = {k: {**v} for k, v in rpc_param.items()}
 
         self._cam_kwargs = cam_kwargs or {}
         self._cameras = {}
-- 
2.43.0


From 5ccc1fd3c076f3c1b104ad6fc080b9739b3c6183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:46 +0000
Subject: [PATCH 08/27] fix: cameras created before RpcCameras.refine were
 reused when parameters are keyed without file extension

---
 orthority/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/factory.py b/orthority/factory.py
index 3b7b679..7c574f4 100644
--- a/orthority/factory.py
+++ b/orthority/factory.py
@@ -355,7 +355,7 @@ class RpcCameras(Cameras):
             gcps = self._gcp_dict.get(filename.name, self._gcp_dict.get(filename.stem, None))
 
             if gcps:
-                self._cameras.pop(filename.name, None)  # force camera recreation
+                self._cameras.clear()  # force camera recreation
                 rpc_param['rpc'] = refine_rpc(rpc_param['rpc'], gcps, **(fit_kwargs or {}))
             else:
                 warnings.warn(
-- 
2.43.0


From 045fc840f43b26f3ece0490d1ad732e8b6651812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 09/27] fix: the CRS of the first source image was used for the
 later images of a batch

---
 orthority/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 946c327..529c36e 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -353,8 +353,8 @@ def _ortho(
 
             with src_ctx as src_im:
                 # finalise and validate world / ortho crs
-                crs = crs or src_im.crs
-                if not crs:
+                ortho_crs = crs or src_im.crs
+                if not ortho_crs:
                     raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
 
                 # orthorectify
@@ -366,7 +366,7 @@ def _ortho(
                     out_dir, f'{src_file_path.stem}_ORTHO.tif', mode='wb'
                 )
                 try:
-                    ortho = Ortho(src_im, dem_im, camera, crs, dem_band=dem_band)
+                    ortho = Ortho(src_im, dem_im, camera, ortho_crs, dem_band=dem_band)
                     ortho.process(ortho_ofile, overwrite=overwrite, progress=tqdm_kwargs, **kwargs)
                 except (FileExistsError, OrthorityError) as ex:
                     raise click.UsageError(str(ex))
-- 
2.43.0


From d538b6c1983ce2669e67b00d47329a457f3ad3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 10/27] fix: simple-ortho wrote the orthos of later source
 directories into the first one

---
 orthority/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 529c36e..5f1fd85 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1340,8 +1340,8 @@ def _simple_ortho(
                 xyz = np.array((im_pos_ori['x'], im_pos_ori['y'], im_pos_ori['z']))
 
                 # set ortho filename
-                ortho_dir = src_filename.parent if not ortho_dir else ortho_dir
-                ortho_filename = Path(ortho_dir).joinpath(src_filename.stem + '_ORTHO.tif')
+                ortho_parent = src_filename.parent if not ortho_dir else ortho_dir
+                ortho_filename = Path(ortho_parent).joinpath(src_filename.stem + '_ORTHO.tif')
 
                 # Get src size
                 with common.suppress_no_georef(), rio.open(src_filename) as src_im:
-- 
2.43.0


From 260ad3ae8274a6a4b4510835c7584609b16fdf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:22 +0000
Subject: [PATCH 11/27] fix: OpenRaster left a remote file open when it could
 not be opened as an image

---
 orthority/common.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/orthority/common.py b/orthority/common.py
index 069506b..db65352 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -327,7 +327,13 @@ class OpenRaster:
             else:
                 # use fsspec file object
                 file_obj = self._exit_stack.enter_context(ofile)
-                self._dataset = self._exit_stack.enter_context(rio.open(file_obj, mode, **kwargs))
+                try:
+                    self._dataset = self._exit_stack.enter_context(
+                        rio.open(file_obj, mode, **kwargs)
+                    )
+                except Exception:
+                    self._exit_stack.close()
+                    raise
 
             # store the source filename as a dataset attribute
             self._dataset.filename = get_filename(file)
-- 
2.43.0


From 75db227f648548b31f346093bffa376d92dcd71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:52 +0000
Subject: [PATCH 12/27] fix: oty sharpen left the panchromatic image open when
 the multispectral image could not be opened

---
 orthority/cli.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 5f1fd85..042d66c 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -19,6 +19,7 @@ import csv
 import logging
 import re
 import warnings
+from contextlib import ExitStack
 from functools import partial
 from pathlib import Path
 from urllib.parse import urlparse
@@ -1171,18 +1172,18 @@ def sharpen(
 
         oty sharpen -mi 3 -mi 2 -mi 1 -w 0.4 -w 0.5 -w 0.3 --pan pan.tif --multispectral ms.tif --out-file pan_sharp.tif
     """
-    # open pan & ms files
-    try:
-        pan_ctx = common.OpenRaster(pan_file, 'r')
-    except FileNotFoundError as ex:
-        raise click.BadParameter(str(ex), param_hint="'-p' / '--pan'")
+    with ExitStack() as exit_stack:
+        # open pan & ms files
+        try:
+            pan_im = exit_stack.enter_context(common.OpenRaster(pan_file, 'r'))
+        except FileNotFoundError as ex:
+            raise click.BadParameter(str(ex), param_hint="'-p' / '--pan'")
 
-    try:
-        ms_ctx = common.OpenRaster(ms_file, 'r')
-    except FileNotFoundError as ex:
-        raise click.BadParameter(str(ex), param_hint="'-ms' / '--multispectral'")
+        try:
+            ms_im = exit_stack.enter_context(common.OpenRaster(ms_file, 'r'))
+        except FileNotFoundError as ex:
+            raise click.BadParameter(str(ex), param_hint="'-ms' / '--multispectral'")
 
-    with pan_ctx as pan_im, ms_ctx as ms_im:
         # validate indexes
         if pan_index <= 0 or pan_index > pan_im.count:
             pan_name = common.get_filename(pan_im)
-- 
2.43.0


From de3a9ec357fb964e5a963b704c5671e867a08f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:05 +0000
Subject: [PATCH 13/27] fix: malformed Orthority interior parameter files were
 not refused with a ParamError

---
 orthority/param_io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 7c1497a..afda66d 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -251,7 +251,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         return int_param
 
     # warn if in original simple-ortho format
-    if 'camera' in yaml_dict:
+    if isinstance(yaml_dict, dict) and 'camera' in yaml_dict:
         warnings.warn(
             "Support for the 'config.yaml' format is deprecated and will be removed in future. "
             "Please switch to the Orthority interior parameter format.",
@@ -259,14 +259,17 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
         )
         yaml_dict = yaml_dict['camera']
 
+    if not isinstance(yaml_dict, dict) or not yaml_dict:
+        raise ParamError(f"Could not parse '{filename}': no camera parameters found.")
+
     # convert to nested dict if in flat / simple-ortho format
     first_value = next(iter(yaml_dict.values()))
-    if not isinstance(first_value, dict):
-        cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
-        yaml_dict = {cam_id: yaml_dict}
-
-    # validate root dict
     try:
+        if not isinstance(first_value, dict):
+            cam_id = yaml_dict['name'] if 'name' in yaml_dict else 'unknown'
+            yaml_dict = {cam_id: yaml_dict}
+
+        # validate root dict
         common.validate_collection({str: dict}, yaml_dict)
     except (TypeError, KeyError, ValueError) as ex:
         raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
@@ -276,7 +279,7 @@ def read_oty_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str, d
     for cam_id, yaml_param in yaml_dict.items():
         try:
             int_param_dict[cam_id] = parse_yaml_param(yaml_param, cam_id)
-        except ParamError as ex:
+        except (ParamError, TypeError, ValueError, AttributeError) as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{filename}': {ex!s}") from ex
 
-- 
2.43.0


From 90eacee3eac6d43f5c39bf3dc3511944ffd85102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:10 +0000
Subject: [PATCH 14/27] fix: malformed OpenSfM interior parameter files were
 not refused with a ParamError

---
 orthority/param_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index afda66d..2a50305 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -81,7 +81,7 @@ def _read_osfm_int_param(json_dict: dict) -> dict[str, dict[str, Any]]:
                 raise ParamError(f"'{req_key}' is missing for camera '{cam_id}'.")
 
         # set 'cam_type' from 'projection_type'
-        proj_type = json_param.pop('projection_type').lower()
+        proj_type = str(json_param.pop('projection_type')).lower()
         try:
             int_param['cam_type'] = CameraType.from_odm(proj_type)
         except ValueError:
@@ -305,8 +305,8 @@ def read_osfm_int_param(file: str | PathLike | OpenFile | IO[str]) -> dict[str,
             raise ParamError(f"Could not load '{filename}': {ex!s}") from ex
 
     # extract cameras section if file is an OpenSfM reconstruction.json file
-    if isinstance(json_dict, list) and len(json_dict) == 1 and 'cameras' in json_dict[0]:
-        json_dict = json_dict[0]['cameras']
+    if isinstance(json_dict, list) and len(json_dict) == 1 and isinstance(json_dict[0], dict):
+        json_dict = json_dict[0].get('cameras', json_dict)
 
     try:
         int_param_dict = _read_osfm_int_param(json_dict)
-- 
2.43.0


From 5d6e9cae0a5d5b5f78b670efd962981f643fe1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:10 +0000
Subject: [PATCH 15/27] fix: malformed CSV exterior parameter files were not
 refused with a ParamError

---
 orthority/param_io.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 2a50305..da6073a 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -986,13 +986,16 @@ class CsvReader(FrameReader):
         # read file once into a buffer (newline=None works around some delimiter detection problems
         # with newline='')
         with common.Open(self._ofile or file, 'rt', newline=None) as f:
-            self._buffer = StringIO(f.read())
+            try:
+                self._buffer = StringIO(f.read())
+            except UnicodeDecodeError as ex:
+                raise ParamError(f"Could not load '{common.get_filename(file)}': {ex!s}") from ex
 
         try:
             self._fieldnames, self._dialect, self._has_header, self._format = self._parse_file(
                 self._buffer, fieldnames=fieldnames, dialect=dialect
             )
-        except ParamError as ex:
+        except (ParamError, csv.Error) as ex:
             # repackage error with filename
             raise ParamError(f"Could not parse '{common.get_filename(file)}': {ex!s}") from ex
 
@@ -1061,17 +1064,30 @@ class CsvReader(FrameReader):
 
         return fieldnames, dialect, has_header, csv_fmt
 
+    def _read_rows(self) -> list[dict[str, Any]]:
+        """Return a list of type converted row dictionaries."""
+        self._buffer.seek(0)
+        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
+        rows = []
+        try:
+            if self._has_header:  # read header
+                _ = next(iter(reader))
+            for row in reader:
+                rows.append(
+                    {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+                )
+        except (csv.Error, TypeError, ValueError) as ex:
+            raise ParamError(
+                f"Could not parse '{common.get_filename(self._file)}': {ex!s}"
+            ) from ex
+        return rows
+
     def _find_lla_rpy_crs(self) -> CRS:
         """Return a UTM CRS covering the mean of the camera positions in a
         :attr:`~CsvFormat.lla_rpy` format file.
         """
         latlons = []
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-        if self._has_header:
-            _ = next(iter(reader))
-        for row in reader:
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
+        for row in self._read_rows():
             latlon = (row['latitude'], row['longitude'])
             latlons.append(latlon)
 
@@ -1145,15 +1161,8 @@ class CsvReader(FrameReader):
 
     def read_ext_param(self) -> dict[str, dict[str, Any]]:
         ext_param_dict = {}
-        self._buffer.seek(0)
-        reader = DictReader(self._buffer, fieldnames=self._fieldnames, dialect=self._dialect)
-
-        if self._has_header:  # read header
-            _ = next(iter(reader))
-
-        for row in reader:
+        for row in self._read_rows():
             filename = Path(row['filename']).name
-            row = {k: self._type_schema[k](v) for k, v in row.items() if k in self._type_schema}
             xyz, opk = self._convert(row, radians=self._radians)
             ext_param_dict[filename] = dict(xyz=xyz, opk=opk, camera=row.get('camera', None))
 
-- 
2.43.0


From 964de7824e2f538212cce986c6b7cb3230ee924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 16/27] fix: resolve write_mask from the compression set with
 creation options

---
 orthority/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/common.py b/orthority/common.py
index db65352..ff7db18 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -491,10 +491,11 @@ def create_profile(
 
     else:
         profile.update(**creation_options)
+        compress = creation_options.get('compress')
 
     # resolve auto write_mask (=None) to write masks for jpeg compression
     if write_mask is None:
-        write_mask = True if compress == Compress.jpeg else False
+        write_mask = str(getattr(compress, 'value', compress)).lower() == Compress.jpeg.value
 
     # set nodata to None when writing internal masks to force external tools to use mask,
     # otherwise set by dtype
-- 
2.43.0


From e2e6bdf3f5e5abbb1f58da0bd23a1d8870c6f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 17/27] fix: report an unsuitable CRS as a usage error when
 exporting parameters

---
 orthority/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/cli.py b/orthority/cli.py
index 042d66c..764405c 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -319,6 +319,8 @@ def _ortho(
             raise click.UsageError(str(ex))
         except CrsMissingError:
             raise click.MissingParameter(param_hint="'-c' / '--crs'", param_type='option')
+        except CrsError as ex:
+            raise click.UsageError(str(ex))
         return
     elif not dem_file:
         raise click.MissingParameter(param_hint="'-d' / '--dem'", param_type='option')
-- 
2.43.0


From ea81a0b84ec616651b786515d9c3bd87964b005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 18/27] fix: report too few GCPs for RPC refinement as a usage
 error

---
 orthority/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 764405c..15c1a4b 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -1017,7 +1017,7 @@ def rpc(
                 )
             else:
                 cameras.refine(gcp_refine, fit_kwargs=fit_kwargs)
-        except (FileNotFoundError, OrthorityError) as ex:
+        except (FileNotFoundError, ValueError, OrthorityError) as ex:
             raise click.BadParameter(str(ex), param_hint="'-gr / --gcp-refine'")
 
     # orthorectify
-- 
2.43.0


From da22f0ba8cd6ee08f653efeba514fb7bdc72cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 19/27] fix: report creation option values that cannot be
 parsed as usage errors

---
 orthority/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orthority/cli.py b/orthority/cli.py
index 15c1a4b..f29c678 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -253,7 +253,10 @@ def _creation_option_cb(ctx: click.Context, param: click.Option, value):
                 k, v = pair.split('=', 1)
                 k = k.lower().strip()
                 v = v.lower().strip()
-                out[k] = None if v in ['none', 'null', 'nil'] else yaml.safe_load(v)
+                try:
+                    out[k] = None if v in ['none', 'null', 'nil'] else yaml.safe_load(v)
+                except yaml.YAMLError as ex:
+                    raise click.BadParameter(f'Invalid value in {pair}: {ex!s}', param=param)
         return out
 
 
-- 
2.43.0


From fd2a7189801a9c4e2c6919e296be17011500dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:08 +0000
Subject: [PATCH 20/27] fix: refuse a CRS image file that has no CRS

---
 orthority/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orthority/cli.py b/orthority/cli.py
index f29c678..cf727b8 100644
--- a/orthority/cli.py
+++ b/orthority/cli.py
@@ -145,6 +145,8 @@ def _read_crs(crs: str):
     if crs_path.suffix.lower() in ['.tif', '.tiff']:
         # read CRS from geotiff path / URL
         with common.suppress_no_georef(), common.OpenRaster(crs, 'r') as im:
+            if not im.crs:
+                raise CrsMissingError(f"No CRS found in '{crs}'.")
             crs = im.crs
     else:
         if crs_path.exists() or urlparse(crs).scheme in fsspec.available_protocols():
-- 
2.43.0


From 70875a21c4e56646903a7e1beca2dc97f5608f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:01 +0000
Subject: [PATCH 21/27] fix: undistort fisheye pixel coordinates when fitting
 exterior parameters

---
 orthority/fit.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/orthority/fit.py b/orthority/fit.py
index 8596127..c8c1756 100644
--- a/orthority/fit.py
+++ b/orthority/fit.py
@@ -350,6 +350,13 @@ def fit_frame_exterior(
     # convert GCPs to OpenCV compatible lists of arrays
     jis, xyzs, ref_xyz = _gcps_to_cv_coords(gcp_dict, crs=crs)
 
+    # cv2.solvePnP() does not support the fisheye model, so undistort fisheye pixel coordinates
+    if int_param['cam_type'] == CameraType.fisheye:
+        jis = [
+            cv2.fisheye.undistortPoints(ji[None, :], K, dist_param, None, K)[0] for ji in jis
+        ]
+        dist_param = None
+
     # fit exterior parameters (SOLVEPNP_SQPNP is globally optimal so does not need further refining)
     ext_param_dict = {}
     for filename, xyz, ji in zip(gcp_dict.keys(), xyzs, jis):
-- 
2.43.0


From 07f2b8ce9acff3dfe5a8f58ac3ef6abdd06a0b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:44 +0000
Subject: [PATCH 22/27] fix: write exterior parameters that do not have a
 camera ID

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index da6073a..96dda3d 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -636,7 +636,7 @@ def write_ext_param(
         lla = transform(crs, lla_crs, [xyz[0]], [xyz[1]], [xyz[2]])
         lla = [lla[0][0], lla[1][0], lla[2][0]]  # (lon, lat) order for GeoJSON point
         props_dict = dict(
-            filename=src_file, camera=ext_param['camera'], xyz=xyz, opk=ext_param['opk']
+            filename=src_file, camera=ext_param.get('camera'), xyz=xyz, opk=ext_param['opk']
         )
         geom_dict = dict(type='Point', coordinates=list(lla))
         feat_dict = dict(type='Feature', properties=props_dict, geometry=geom_dict)
-- 
2.43.0


From 9048531377f3d8cf1fa9d66d248ad57097dc01d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:44 +0000
Subject: [PATCH 23/27] fix: write interior parameters with the camera type
 given by name

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 96dda3d..8410407 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -592,7 +592,7 @@ def write_int_param(
     for cam_id, int_param in int_param_dict.items():
         yaml_param = {}
         if 'cam_type' in int_param:
-            yaml_param['type'] = int_param['cam_type'].value
+            yaml_param['type'] = str(int_param['cam_type'])
         yaml_param.update(**{k: v for k, v in int_param.items() if k != 'cam_type'})
         yaml_dict[cam_id] = yaml_param
 
-- 
2.43.0


From a619bd531b37b5a30c893fea63dbe5bb99ed7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:32 +0000
Subject: [PATCH 24/27] fix: normalise the focal length by the larger image
 dimension when there is no sensor size

---
 orthority/camera.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 54fbb48..2cf4c3a 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -681,10 +681,10 @@ class FrameCamera(Camera):
         if sensor_size is None:
             warnings.warn(
                 "'sensor_size' not specified, assuming square pixels and 'focal_len' normalised by "
-                "sensor width.",
+                "max(sensor width & height).",
                 category=OrthorityWarning,
             )
-            sigma_xy = (focal_len * im_size[0]) * np.ones(2)
+            sigma_xy = (focal_len * im_size.max()) * np.ones(2)
         else:
             sensor_size = np.array(sensor_size)
             sigma_xy = focal_len * im_size / sensor_size
-- 
2.43.0


From cff19977c41a87593ec22940a78f6022c68eaaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:17 +0000
Subject: [PATCH 25/27] fix: project points on the optical axis of a fisheye
 camera

---
 orthority/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/camera.py b/orthority/camera.py
index 2cf4c3a..f957c5b 100644
--- a/orthority/camera.py
+++ b/orthority/camera.py
@@ -1480,7 +1480,8 @@ class FisheyeCamera(FrameCamera):
         else:
             # opencv 4 parameter version
             theta_d = theta * (1.0 + theta2 * (k1 + theta2 * (k2 + theta2 * (k3 + theta2 * k4))))
-        xyz_[:2] *= theta_d / r
+        # scale by theta_d / r, with its limit of 1 on the optical axis where r == 0
+        xyz_[:2] *= np.divide(theta_d, r, out=np.ones_like(r), where=r != 0)
 
         # transform from distorted camera to pixel coordinates
         ji = self._K.dot(xyz_)[:2]
-- 
2.43.0


From 06fdc27340891395489beb31bbed2c4012f3a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:45 +0000
Subject: [PATCH 26/27] fix: recognise creation options whatever the case of
 their names

---
 orthority/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orthority/common.py b/orthority/common.py
index ff7db18..15adf28 100644
--- a/orthority/common.py
+++ b/orthority/common.py
@@ -436,7 +436,8 @@ def create_profile(
     as ``True`` when JPEG compression is used, and ``False`` otherwise.  If ``creation_options``
     are supplied, no other creation options are set.
     """
-    creation_options = creation_options or {}
+    # option names are case insensitive
+    creation_options = {k.lower(): v for k, v in (creation_options or {}).items()}
 
     # check dtype support
     dtype = str(dtype)
-- 
2.43.0


From 29abe62f5c59298ca8f5df188c7a710f12db5efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:44 +0000
Subject: [PATCH 27/27] fix: report a CSV .prj file that is not text as a
 parameter error

---
 orthority/param_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orthority/param_io.py b/orthority/param_io.py
index 8410407..b1c5512 100644
--- a/orthority/param_io.py
+++ b/orthority/param_io.py
@@ -1114,7 +1114,7 @@ class CsvReader(FrameReader):
                     logger.debug(f"Using '{prj_name}' CRS: '{crs.to_string()}'")
                 except FileNotFoundError as ex:
                     logger.debug(f"Could not open '{prj_name}': {ex!s}")
-                except RioCrsError as ex:
+                except (RioCrsError, UnicodeDecodeError) as ex:
                     raise ParamError(f"Could not interpret CRS in '{prj_name}': {ex!s}")
             else:
                 # a file object was passed to __init__ so the CSV file path / URI is unknown and a
-- 
2.43.0

