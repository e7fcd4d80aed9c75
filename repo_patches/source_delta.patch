From 96847d418cef56ddf9811fa6e645aa04f848a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:35 +0000
Subject: [PATCH 01/33] fix: write multiplier files when git describe has no
 answer

save_multiplier raised CalledProcessError (and left the working directory
changed) in a downloaded copy, a shallow clone or a repository without tags.
---
 utilities/nctools.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..0a0ad30 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -318,10 +318,13 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    cwd = os.getcwd()  # save working directory
-    os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
-    os.chdir(cwd)  # restore working directory from saved value
+    code_dir = os.path.dirname(os.path.realpath(__file__))
+    try:
+        git_info = subprocess.check_output(["git", "describe"], cwd=code_dir)
+    except (OSError, subprocess.CalledProcessError):
+        # no git, not a git checkout (e.g. downloaded), or no tag to describe
+        LOGGER.warning("Cannot determine the git version of the code")
+        git_info = 'unknown'
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From af9b9da1c988aba4bb1f03eadd1fa882337f3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 02/33] fix: import mpi_runner and blrb helpers without extra
 PYTHONPATH entries

The documented 'python all_multipliers.py -c ...' failed at import: the
bare 'from convert', 'from parallel' and 'from meta' imports need the
utilities folder on the path. The package imports are already there.
---
 utilities/blrb.py       | 1 -
 utilities/mpi_runner.py | 2 --
 2 files changed, 3 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..3e5c65d 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -11,7 +11,6 @@ makes some of the code harder to follow.
 import numpy
 import logging
 from utilities.meta import print_call
-from meta import print_call
 import math
 
 LOGGER = logging.getLogger('root.' + __name__)
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..bfede40 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -7,8 +7,6 @@ from osgeo import gdal
 
 from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
-from convert import Converter, create_sub_dirs_for_convert
-from parallel import attempt_parallel
 
 
 def parallelise_convert_on_tiles(data_path, comm):
-- 
2.43.0


From 0bbff02b9eeb3e7228785e8dacad7a6781030549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:42 +0000
Subject: [PATCH 03/33] fix: keep unbuffered tile limits disjoint next to
 narrow edge tiles

get_gridlimit recovered the unbuffered limits from the buffered ones, which
were already clamped to the raster: when the last tile of a row or column is
no wider than the buffer (or the buffer is as wide as a tile), the tile
before it was extended to the edge of the raster and the two overlapped.
---
 all_multipliers.py | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..26db49a 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,13 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
+        # tiles are numbered down the columns of the grid, see tile_grid
+        i, j = divmod(int(k), self.subset_maxrows)
 
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        x1 = i * self.x_step
+        x2 = min(x1 + self.x_step, self.x_dim)
+        y1 = j * self.y_step
+        y2 = min(y1 + self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From 51aeb147689275b47f03c6562a621dca6ff06833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:47 +0000
Subject: [PATCH 04/33] fix: do not carry shielding of one direction into the
 next on coarse grids

With cells larger than 100 m there is no convolution and all directions
shared one array, which combine() changes in place: every direction started
from the result of the one before.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..213e8fa 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From bdf3b684c5f9699352b00001620db7429dc1a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 05/33] fix: do not change the working directory in
 convo_combine

The change to the shielding folder made relative input and output paths
in the configuration invalid for everything that follows.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 213e8fa..8bb5bfc 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From 7a6b1f3d0348847971e6175b81d35f05c46fb8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:13 +0000
Subject: [PATCH 06/33] fix: terrain averaging on tiles with few rows or large
 cells

The size of the tile was taken from its rows for all directions, so on tiles
with few rows the east and west averages were cut short or skipped, the
no-data cells were written as water, and a tile as high as the lag distance
failed with a ZeroDivisionError, as did cells larger than about 354 m.
---
 terrain/terrain_mult.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..887663a 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -115,18 +115,11 @@ def terrain(temp_tile, tile_extents_nobuffer):
             avg_width = int(avg_dist / (gridwidth * 1.414))
             lag_width = int(lag_dist / (gridwidth * 1.414))
 
-        # if the tile is smaller than the lag distance, no convolultion
-        if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
-        else:
-            # if the tile is smaller than the upwind buffer, all the tile is in
-            # buffer
-            if (avg_width + lag_width) > reclassified_array.shape[0]:
-                avg_width = reclassified_array.shape[0] - lag_width
-
-            log.info('convolution average width ' + str(avg_width))
-            outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+        # convo only averages the upwind cells that exist, so the tile may be
+        # smaller than the lag distance or the upwind buffer
+        log.info('convolution average width ' + str(avg_width))
+        outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
@@ -226,7 +219,8 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            # cells may be too large to have an upwind cell to average
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From fb40da8b04c2e7c08e913008be85b5277812a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:05 +0000
Subject: [PATCH 07/33] fix: write all variables and attributes in nc_save_grid

The file was closed inside the loop over the variables, so only the first
one was written and the multiplier files had no 'crs' variable.
---
 utilities/nctools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 0a0ad30..02e964c 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,16 +281,17 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-        ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
+    ncobj.setncatts(gatts)
 
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From 16cab034f2b893c56e1bb1fa1d2c0707d164a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:44 +0000
Subject: [PATCH 08/33] fix: replace missing multiplier files with ones on all
 tiles

The replacement had its axes swapped and did not fit tiles that are not
square, and the geotransform was not known yet when the first file (the
shielding multiplier for east) was the missing one.
---
 utilities/convert.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..558e8ab 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -121,16 +120,12 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From 9bb88853d477755164ada48905e89c46ec53a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:49 +0000
Subject: [PATCH 09/33] fix: write the no-data value where a multiplier has no
 data

The values under the mask were written instead: the product of -9999 and
the other multipliers, which readers take for valid.
---
 utilities/convert.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index 558e8ab..d51e731 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -59,7 +59,7 @@ class Converter:
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
         out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
-        band.WriteArray(maxima.data)
+        band.WriteArray(ma.filled(maxima, self.missing_value))
         band.SetDescription("Maximum of all directions")
         band.ComputeStatistics(False)
         band.SetNoDataValue(-9999)
@@ -128,15 +128,16 @@ class Converter:
 
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
+            # cells without data in any of them have no data in the product
+            multiplied = ma.filled(multiplied, self.missing_value)
 
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
             try:
-                band.WriteArray(multiplied.data[::-1])
-                band.WriteArray(multiplied.data)
+                band.WriteArray(multiplied)
             except ValueError:
                 log.error("Mismatch between output file and data array")
-                log.error(multiplied.data.shape)
+                log.error(multiplied.shape)
             band.SetDescription(direction)
             band.ComputeStatistics(False)
             band.SetNoDataValue(-9999)
-- 
2.43.0


From ec2fb1123833c178d82dd6f7bc78717903df1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 10/33] fix: write a single band to the M3_max files

A second band of zeros was added to the dataset and exported.
---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index d51e731..c5dc208 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(ma.filled(maxima, self.missing_value))
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From 7751c421c308c3e21c83b6c130073fcd49c33775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 11/33] fix: do not fail when there is no tile to convert

Every rank returns a result, so the check for 'no raster file found' never
applied and building a VRT of no files raised an exception.
---
 utilities/mpi_runner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index bfede40..7575213 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -36,12 +36,12 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        tile_files = functools.reduce(lambda total, element:
+                                      total + element[0], results, [])
+        max_tile_files = functools.reduce(lambda total, element:
+                                          total + element[1], results, [])
+        if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            tile_files = functools.reduce(lambda total, element:
-                                          total + element[0], results, [])
-            max_tile_files = functools.reduce(lambda total, element:
-                                              total + element[1], results, [])
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
                           tile_files)
-- 
2.43.0


From 2987e55d002373a73f7aa5cc77ece3fbc5bb4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:23 +0000
Subject: [PATCH 12/33] fix: keep the influence of a ridge off the far end of
 the data line

The first index could be -1, so a hill near the start of a line gave the
last cell of the line a multiplier too.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 79d3c59b7d85d89ef5f8f0b153845e34070ad325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:29 +0000
Subject: [PATCH 13/33] fix: smooth topographic multipliers at the raster edge
 without zeros

Cells outside the raster counted as zero in the moving average, so the
multiplier on flat land was 0.667 along the edge and 0.444 in the corners.
---
 topographic/topo_mult.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..338bbe1 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -134,7 +134,8 @@ def topomult(input_dem, tile_extents_nobuffer):
 
         # smooth
         g = np.ones((3, 3)) / 9.
-        mhsmooth = signal.convolve(mhdata, g, mode='same')
+        mhsmooth = signal.convolve(np.pad(mhdata, 1, mode='edge'), g,
+                                   mode='valid')
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From c34e75d41c5d64fc2905bfa0eff0c406fa5d9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:34 +0000
Subject: [PATCH 14/33] fix: topographic multipliers of integer elevation data

Marking the cells without data as NaN fails on an int32 DEM.
---
 topographic/topo_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 338bbe1..e3d8afe 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -60,7 +60,7 @@ def topomult(input_dem, tile_extents_nobuffer):
     lon, lat = get_lat_lon(tile_extents_nobuffer, pixelwidth, pixelheight)
 
     band = ds.GetRasterBand(1)
-    elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = band.ReadAsArray(0, 0, nc, nr).astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From e21837b1416765fb8629127f61dd122278e391a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:08 +0000
Subject: [PATCH 15/33] fix: split interpolation blocks at whole cells

With Python 3 the division gives a fraction for odd sizes: the blocks then
overlapped with values extrapolated for the wrong cells, and grids with one
or two rows or columns failed or came out as NaN.
---
 utilities/blrb.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index 3e5c65d..3eaa404 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -48,8 +48,8 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
@@ -92,8 +92,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From 1bd830f61ee78e73cf3daf9922b1ff5cd35c11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:12 +0000
Subject: [PATCH 16/33] fix: give each cell its own pixel size

The interpolation calls back with (row, column), which were taken for
(x, y): pixel widths varied along the rows instead of with latitude.
---
 utilities/get_pixel_size_grid.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..ea850d2 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -120,27 +120,27 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(row, col):
         """
         Returns x size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param (row, col): `tuple` the indices of the input point
 
-        :return: `float` the grid x size at the input (x, y) point
+        :return: `float` the grid x size at the input point
         """
 
-        return get_pixel_size(dataset, (x, y))[0]
+        return get_pixel_size(dataset, (col, row))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(row, col):
         """
         Returns y size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param (row, col): `tuple` the indices of the input point
 
-        :return: `float` the grid y size at the input (x, y) point
+        :return: `float` the grid y size at the input point
         """
 
-        return get_pixel_size(dataset, (x, y))[1]
+        return get_pixel_size(dataset, (col, row))[1]
 
     x_size_grid = np.zeros((dataset.RasterYSize,
                             dataset.RasterXSize)).astype(np.float32)
-- 
2.43.0


From 7787334679494d4dda21a8151e3f505fedf17790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:37 +0000
Subject: [PATCH 17/33] fix: distances along the equator in vinc_dist

Rounding can make the sine of the azimuth larger than one there, which
failed with a math domain error.
---
 utilities/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 3f69a31..0aa6145 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -224,7 +224,8 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
 
         Sin_alpha = math.cos(U1) * math.cos(U2) * math.sin(lembda) / \
             math.sin(sigma)
-        alpha = math.asin(Sin_alpha)
+        # rounding may take it beyond 1 for points along the equator
+        alpha = math.asin(max(-1.0, min(1.0, Sin_alpha)))
 
         Cos2sigma_m = math.cos(sigma) - (2 * math.sin(U1) * math.sin(U2) /
                                          pow(math.cos(alpha), 2))
-- 
2.43.0


From be5a2ff4dd2f36fb1efd2d94d3c994827ccf94a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:03 +0000
Subject: [PATCH 18/33] fix: spatial join of land use and settlements with
 shapely 2

Since shapely 2 the tree answers a query with positions instead of
geometries, and looking those up by their id failed with a KeyError.
---
 utilities/shapefiles.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..060ae1e 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -74,8 +74,11 @@ class shp_file:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # shapely 2 answers with positions, shapely 1 with geometries
+            fids = sorted(index_by_id.get(id(hit), hit)
+                          for hit in idx_other.query(poly))
+            fids = [fid for fid in fids
+                    if poly.intersects(other.geom[fid])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From a0a4a421e6c8fe9e5abcf615c328074a78033ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:29 +0000
Subject: [PATCH 19/33] fix: do not take tiles with a zero checksum for empty

The checksum rounds elevations to whole metres and can be 0 for other data
too: low-lying tiles with elevations under 0.5 m were skipped as empty.
---
 all_multipliers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 26db49a..4b16271 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -364,8 +364,7 @@ class Multipliers(object):
         tile_name = tile_info[0]
         tile_extents_nobuffer = tile_info[2]
 
-        # check the checksum value of the terrain map tile, if it is greater
-        # than 0, go ahead
+        # check the values of the DEM tile, if any is not 0, go ahead
         if not os.path.exists(temp_tile_dem):
             log.critical(f'File does not exist: {temp_tile_dem}')
             raise OSError
@@ -375,10 +374,10 @@ class Multipliers(object):
             raise IOError
 
         band = temp_dataset.GetRasterBand(1)
-        checksum = band.Checksum()
-        log.info(f'This DEM tile checksum is {str(checksum)}')
+        has_data = np.any(band.ReadAsArray() != 0)
+        log.info(f'This DEM tile has data: {str(has_data)}')
 
-        if checksum > 0:
+        if has_data:
             # extract the temporary tile from landcover
             terrain_resample = pjoin(output_folder, tile_name + '.img')
 
-- 
2.43.0


From 6a3f38705dc2e6b08c89bcc2723c5a96063e9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 20/33] fix: report a configuration file that does not exist

It was ignored silently: the run went on with the default configuration
and replaced the output folder named there.
---
 utilities/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utilities/config.py b/utilities/config.py
index c6c3eae..c0ecfca 100644
--- a/utilities/config.py
+++ b/utilities/config.py
@@ -49,6 +49,8 @@ class _ConfigParser(RawConfigParser):
         """
         Change configuration file
         """
+        if not os.path.exists(config_file):
+            raise IOError('Config file does not exist: %s' % config_file)
         self.config_file = config_file
         self.readonce = False
         self._read_file()
-- 
2.43.0


From 92b1dfb915611b4843646ba9be58d5d01decf0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:38 +0000
Subject: [PATCH 21/33] fix: keep a Singleton instance that is false

---
 utilities/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/meta.py b/utilities/meta.py
index 5c29cfc..628345a 100644
--- a/utilities/meta.py
+++ b/utilities/meta.py
@@ -25,9 +25,9 @@ class Singleton(type):
         return super(Singleton, cls).__new__(cls, name, bases, dct)
 
     def __call__(cls, *args, **kwargs):
-        if not cls._instance_for_singleton_ssfusousoifusos:
+        if cls._instance_for_singleton_ssfusousoifusos is None:
             with cls._lock_for_singleton_ssfusousoifusos:
-                if not cls._instance_for_singleton_ssfusousoifusos:
+                if cls._instance_for_singleton_ssfusousoifusos is None:
                     cls._instance_for_singleton_ssfusousoifusos = \
                         super(Singleton, cls).__call__(*args, **kwargs)
         return cls._instance_for_singleton_ssfusousoifusos
-- 
2.43.0


From 10ce8e206b9e87d595fab44cab7fa44dcf580663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:57 +0000
Subject: [PATCH 22/33] fix: save cropped shapes that also touch the edge of
 the mask

The intersection is then a collection of polygons and lines or points,
which cannot be written to a polygon shapefile.
---
 utilities/shapefiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 060ae1e..0a61af0 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -59,6 +59,10 @@ class shp_file:
         polybox = Polygon([[p.x, p.y] for p in point_List])
         for idx, poly in enumerate(self.geom):
             result = polybox.intersection(poly)
+            if result.geom_type == 'GeometryCollection':
+                # leave out the lines and points that only touch the box
+                result = unary_union([part for part in result.geoms
+                                      if part.area])
             if result.area:
                 clip_geom.append(result)
                 clip_attribute.append(self.attribute[idx])
-- 
2.43.0


From 590603a2b5e5f58956af289dd3b0fd30bb88651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:43 +0000
Subject: [PATCH 23/33] fix: save a file in the working directory with
 fl_save_file

A file name without a folder failed in os.makedirs('').
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..4f8f886 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -121,7 +121,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0


From 0506941ecfb1bc2bde59ed44d3de6d9a26d2abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:49 +0000
Subject: [PATCH 24/33] fix: exit with an error status when the terrain table
 is missing

---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 887663a..cff0669 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -161,7 +161,7 @@ def get_terrain_table():
         mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
-        sys.exit()
+        sys.exit(1)
     except:
         raise
 
-- 
2.43.0


From 73f4bd633bbbbd55364ae146f7b275252eb18d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 25/33] fix: return lists of great circle points on a sphere

---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 0aa6145..bf0d833 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -103,8 +103,8 @@ class GreatCircle(object):
             z = A * math.sin(lat1) + B * math.sin(lat2)
             lats = np.arctan2(z, np.sqrt(x ** 2 + y ** 2))
             lons = np.arctan2(y, x)
-            lons = map(math.degrees, lons.tolist())
-            lats = map(math.degrees, lats.tolist())
+            lons = list(map(math.degrees, lons.tolist()))
+            lats = list(map(math.degrees, lats.tolist()))
         # use ellipsoid formulas
         else:
             latpt = self.lat1
-- 
2.43.0


From 0d9e0ae790252a628afcccaadd3d23740688eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:26 +0000
Subject: [PATCH 26/33] fix: position at distance zero in vinc_pt

---
 utilities/vincenty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index bf0d833..6985dcf 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -339,7 +339,7 @@ def vinc_pt(f, a, phi1, lembda1, alpha12, s):
     # Iterate the following three equations
     # until there is no significant change in sigma
     # two_sigma_m , delta_sigma
-    while (abs((last_sigma - sigma) / sigma) > 1.0e-9):
+    while (abs(last_sigma - sigma) > 1.0e-9 * abs(sigma)):
         two_sigma_m = 2 * sigma1 + sigma
 
         delta_sigma = B * math.sin(sigma) * \
-- 
2.43.0


From 50702837267e1f4d530a8221ad7d0c371c16a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 27/33] fix: rasterize.py rasterises the attribute it is told
 to

---
 pre_process.py | 7 +++++--
 rasterize.py   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pre_process.py b/pre_process.py
index 7b45e46..2752fc4 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -32,7 +32,7 @@ logger.addHandler(fh)
 logger.addHandler(ch)
 
 
-def rasterize(input, output, input_topo, crop_topo):
+def rasterize(input, output, input_topo, crop_topo, attribute="CAT"):
 
     """
     Function to rasterize a shapefile
@@ -43,6 +43,9 @@ def rasterize(input, output, input_topo, crop_topo):
     :param output: name/path of the tiff file
     :type output: str
 
+    :param attribute: name of the attribute to rasterize
+    :type attribute: str
+
     """
     print("args ", input, output, input_topo, crop_topo)
     source_ds = ogr.Open(input)
@@ -78,7 +81,7 @@ def rasterize(input, output, input_topo, crop_topo):
     band.SetNoDataValue(NoData_value)
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
-                        source_layer, options=["ATTRIBUTE=CAT"])
+                        source_layer, options=["ATTRIBUTE=%s" % attribute])
 
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
diff --git a/rasterize.py b/rasterize.py
index 5426886..024e317 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -43,7 +43,7 @@ if __name__ == "__main__":
         write_topo = None
     else:
         topofile = arg.topography
-    rasterize(arg.input, "test.tiff", topofile, True)
+    rasterize(arg.input, "test.tiff", topofile, True, arg.attribute)
     if arg.crop:
         write_topo = gdal.Warp("test_crop.tiff",
                                "test.tiff",
-- 
2.43.0


From 59d781f52a6a5491b2a06c14ba77b566a4d52a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:19 +0000
Subject: [PATCH 28/33] fix: report errors of writing the rasters and mosaics

A mosaic that could not be written (full disk) was left empty or cut
without an error, because GDAL writes it when the dataset is destroyed, and
errors are not raised there.
---
 all_multipliers.py      |  6 ++++--
 utilities/convert.py    |  2 ++
 utilities/mpi_runner.py | 25 +++++++++++++++++++------
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 4b16271..a548c3d 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -348,7 +348,8 @@ class Multipliers(object):
         # Do the work
         gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj)
 
-        del dst  # Flush
+        dst.FlushCache()  # reports errors of writing
+        del dst
 
         return
 
@@ -648,7 +649,8 @@ def reproject_dataset(src_file, match_filename, dst_filename,
     # Do the work
     gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method)
 
-    del dst  # Flush
+    dst.FlushCache()  # reports errors of writing
+    del dst
     if type(match_filename) == str:
         del match_ds
     if type(src_file) == str:
diff --git a/utilities/convert.py b/utilities/convert.py
index c5dc208..2ff7466 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -75,6 +75,7 @@ class Converter:
                                      "-co COMPRESS=LZW -co TILED=YES")))
         self.max_tile_files.append(filename)
 
+        tif.FlushCache()  # reports errors of writing
         del tif
 
     def process_tile(self, tile):
@@ -156,6 +157,7 @@ class Converter:
                                      "-co COMPRESS=LZW -co TILED=YES")))
         self.tile_files.append(filename)
 
+        tif.FlushCache()  # reports errors of writing
         del tif
 
     def run(self):
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 7575213..5cb373d 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -9,6 +9,19 @@ from utilities.convert import Converter, create_sub_dirs_for_convert
 from utilities.parallel import attempt_parallel
 
 
+def build_mosaic(filename, tile_files):
+    """
+    Write a virtual raster of the given tiles.
+
+    :param filename: `string` the virtual raster to write
+    :param tile_files: `list` of the rasters it consists of
+    """
+
+    vrt = gdal.BuildVRT(filename, tile_files)
+    if vrt is not None:
+        vrt.FlushCache()  # reports errors of writing
+
+
 def parallelise_convert_on_tiles(data_path, comm):
     """
     MPI wrapper to parallelize tile conversion on NCI
@@ -42,12 +55,12 @@ def parallelise_convert_on_tiles(data_path, comm):
                                           total + element[1], results, [])
         if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            gdal.BuildVRT(os.path.join(data_path, 'M3',
-                                       'wind-multipliers.vrt'),
-                          tile_files)
-            gdal.BuildVRT(os.path.join(data_path, 'M3_max',
-                                       'wind-multipliers.vrt'),
-                          max_tile_files)
+            build_mosaic(os.path.join(data_path, 'M3',
+                                      'wind-multipliers.vrt'),
+                         tile_files)
+            build_mosaic(os.path.join(data_path, 'M3_max',
+                                      'wind-multipliers.vrt'),
+                         max_tile_files)
         else:
             log.warning("No raster file found to build virtual raster table")
 
-- 
2.43.0


From d760aa415501ad947dfaff2816b2acdfaa31b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 29/33] fix: fl_module_name returns the name of the module, not
 of the function

As documented, calling it from /foo/bar/baz.py gives baz; it gave the name
of the function that called it.
---
 utilities/files.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utilities/files.py b/utilities/files.py
index 4f8f886..a642475 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -61,8 +61,7 @@ def fl_module_name(level=1):
 
     """
 
-    package = sys._getframe(level).f_code.co_name
-    return package
+    return fl_module_path(level + 1)[1]
 
 
 def fl_program_version(level=None):
-- 
2.43.0


From 3cc53082f8f1287ffd8ed86de54ce863c39bd48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:06 +0000
Subject: [PATCH 30/33] fix: processes that create the log folder together all
 log into it

The process that lost the race to create the folder logged to
multipliers.log in the working directory.
---
 all_multipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index a548c3d..34d28fe 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -715,7 +715,7 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
-- 
2.43.0


From ad828534d55bccc36ff01e9068c5b58e8aa4064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:53 +0000
Subject: [PATCH 31/33] fix: multipliers refer to the coordinate system
 variable of their file

The grid_mapping attribute has to name the variable crs (CF-1.6, 5.6); it
named a variable that does not exist, so that GIS software did not know the
coordinate system.
---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 02e964c..9cd4a05 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -400,7 +400,7 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
                 ' multiplier values for each grid',
                 'actual_range': (np.nanmin(multiplier_values),
                                  np.nanmax(multiplier_values)),
-                'grid_mapping': 'WGS-1984'
+                'grid_mapping': 'crs'
             }
         },
         1: {
-- 
2.43.0


From 512473fe389cda6ce5c0c9cdb15de8955eb79bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:06 +0000
Subject: [PATCH 32/33] fix: nc_create_var accepts arrays as data

The truth value of an array is ambiguous or, for a single zero, False.
---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 9cd4a05..e1f384c 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -114,7 +114,7 @@ def nc_create_var(
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From eebe4afee47b0a1e1d62e38bfb7b8b5848fa4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:54 +0000
Subject: [PATCH 33/33] fix: reject a terrain table with categories that are no
 numbers

One such category made all categories text, which match no land cover, so
that the run skipped every tile without an error.
---
 shielding/shield_mult.py | 3 ++-
 terrain/terrain_mult.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 8bb5bfc..8871427 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -159,7 +159,8 @@ def get_shielding_table():
     log.info('Reading in the terrain table from the config file')
     terrain_table = config.get('inputValues', 'terrain_table')
 
-    ms_init = pd.read_csv(terrain_table, comment='#', index_col=False)
+    ms_init = pd.read_csv(terrain_table, comment='#', index_col=False,
+                          dtype={'CATEGORY': float})
 
     return ms_init
 
diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index cff0669..8fe2d18 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -158,7 +158,8 @@ def get_terrain_table():
     log.info('Reading in the terrain table from the config file')
     terrain_table = config.get('inputValues', 'terrain_table')
     try:
-        mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
+        mz_init = pd.read_csv(terrain_table, comment='#', index_col=False,
+                              dtype={'CATEGORY': float})
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
         sys.exit(1)
-- 
2.43.0

