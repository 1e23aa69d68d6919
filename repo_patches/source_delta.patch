From 83cc5d74dc7cc5f63073768b3cafd9f1c4f094a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 01/82] fix: write the size of the compressed data to
 compressed SUR files

---
 surfalize/file/sur.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..481f787 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -376,6 +376,10 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     comment = comment.encode(encoding)
 
+    # The reader verifies this value, which comprises the directory count, the directory and the compressed stream
+    compressed_data = zlib.compress(data.tobytes()) if compressed else b''
+    compressed_data_size = 12 + len(compressed_data) if compressed else 0
+
     header = {
         'code': MAGIC_CLASSIC if not compressed else MAGIC_COMPRESSED,
         'format': 0,  # PC Format
@@ -422,7 +426,7 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'year': timestamp.year,
         'week_day': timestamp.weekday(),
         'measurement_duration': 0,
-        'compressed_data_size': 0,
+        'compressed_data_size': compressed_data_size,
         'length_comment': len(comment),
         'length_private': 0,
         'client_zone': 'Exported by surfalize',
@@ -442,10 +446,8 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
-        filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
+        filehandle.write(struct.pack('<3I', 1, data.nbytes, len(compressed_data)))
         filehandle.write(compressed_data)
         return
 
-- 
2.43.0


From c267ad5e416ada5d19794d9f386d252aa063f0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 02/82] fix: keep heights of constant surfaces with
 non-measured points when writing SUR files

---
 surfalize/file/sur.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 481f787..515cd26 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -366,7 +366,9 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
     INT_DATA_MAX = INT32_MAX - 1
     data_max = np.nanmax(surface.data)
     data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    # A flat surface is mapped to the lower end of the integer range with a z-spacing of zero
+    data_range = data_max - data_min if data_max > data_min else 1
+    data = ((surface.data - data_min) / data_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 252b07a0059b6751e2b8e416a2149dd06c5f9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 03/82] fix: terminate header lines of ascii SDF files with a
 newline

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..963620e 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From 051475f95271982705fc466c8614bdd0b9966db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 04/82] fix: scale single precision heights in double precision
 when writing SUR files

---
 surfalize/file/sur.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 515cd26..81c3038 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -364,11 +364,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     INT_DATA_MIN = INT32_MIN + 2
     INT_DATA_MAX = INT32_MAX - 1
-    data_max = np.nanmax(surface.data)
-    data_min = np.nanmin(surface.data)
+    # Single precision cannot resolve the 32-bit integer range and would overflow at its upper end
+    data = surface.data.astype('float64')
+    data_max = np.nanmax(data)
+    data_min = np.nanmin(data)
     # A flat surface is mapped to the lower end of the integer range with a z-spacing of zero
     data_range = data_max - data_min if data_max > data_min else 1
-    data = ((surface.data - data_min) / data_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    data = ((data - data_min) / data_range) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 4e32201ddc5b96dddc3b9cbe3db2d51e493b2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 05/82] fix: scale single precision heights in double precision
 when writing SFLZ files

---
 surfalize/file/sflz.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..20cfba4 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -109,7 +109,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
     dtype = np.dtype(dtype)
     data = surface.data
     if dtype.kind in ['i', 'u']:
-        # perform scaling
+        # perform scaling, single precision cannot resolve the full integer range and would overflow at its upper end
+        data = data.astype('float64')
         min_val = data.min()
         max_val = data.max()
         header['scaled'] = True
-- 
2.43.0


From e9c8494c87929ae48a67e5933ae83bdef258f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 06/82] fix: undo the offset of signed integer heights when
 reading SFLZ files

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 20cfba4..bfbfbd0 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From e135a857f0babb03f8611e5cf2953af37f1eda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 07/82] fix: keep non-measured points when writing SFLZ files

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index bfbfbd0..a2078eb 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -108,6 +108,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
 
     dtype = np.dtype(dtype)
     data = surface.data
+    if dtype.kind in ['i', 'u'] and surface.has_missing_points:
+        # Scaled integers have no representation of non-measured points
+        dtype = np.dtype('<f8')
     if dtype.kind in ['i', 'u']:
         # perform scaling, single precision cannot resolve the full integer range and would overflow at its upper end
         data = data.astype('float64')
-- 
2.43.0


From 65cd9b82234b0e485cce24def83a5df229fb2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 08/82] fix: prevent overflow of 64-bit integer heights when
 writing SFLZ files

---
 surfalize/file/sflz.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index a2078eb..76a6c6b 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -123,6 +123,8 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         dtype_max = np.iinfo(dtype).max
         data_norm = (data - min_val) / (max_val - min_val)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
+        # The limits of 64-bit integers are not representable as float and would overflow
+        data = np.clip(data, dtype_min, np.nextafter(dtype_max, 0) if dtype.itemsize == 8 else dtype_max)
     else:
         header['scaled'] = False
         header['min_value'] = 0
-- 
2.43.0


From 6bda991176d29c520362c0feab90a43a8537b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 09/82] fix: store the encoded length of image layer names in
 SFLZ files

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 76a6c6b..76d4093 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -150,7 +150,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From 768a7fff402e1d21564adc57980cb3088e3f5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 10/82] fix: copy read-only height data so that cropped, zoomed
 and loaded topographies are editable and independent

---
 surfalize/profile.py | 4 +++-
 surfalize/surface.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..65f3877 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,7 +84,9 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Read-only arrays (e.g. the data view of another object) are copied, since they can neither be edited nor
+        # guaranteed not to change without the cache being cleared
+        self._data = value if value.flags.writeable else value.copy()
         self.length_um = (value.shape[0] - 1) * self.step
         self.clear_cache()
 
diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..4c9d891 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,7 +139,9 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Read-only arrays (e.g. the data view of another object) are copied, since they can neither be edited nor
+        # guaranteed not to change without the cache being cleared
+        self._data = value if value.flags.writeable else value.copy()
         self.width_um = (value.shape[1] - 1) * self.step_x
         self.height_um = (value.shape[0] - 1) * self.step_y
         self.clear_cache()
-- 
2.43.0


From 82bc3259453df657e007857912de5f5becc1c274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 11/82] fix: do not share height data between a surface and its
 slices

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 4c9d891..ba547da 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -270,7 +270,7 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        return Surface(self.data.__getitem__(item), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
-- 
2.43.0


From 5293857d1aa383f6282169069ce194f39f4c2c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 12/82] fix: keep the step size positive when slicing a surface
 in reverse

---
 surfalize/surface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index ba547da..c33897b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -264,12 +264,12 @@ class Surface(BaseTopography):
         step_x = self.step_x
         if isinstance(item, slice):
             if item.step is not None:
-                step_y = item.step * self.step_y
+                step_y = abs(item.step) * self.step_y
         if isinstance(item, tuple):
             if isinstance(item[0], slice) and item[0].step is not None:
-                step_y = item[0].step * self.step_y
+                step_y = abs(item[0].step) * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
-                step_x = item[1].step * self.step_x
+                step_x = abs(item[1].step) * self.step_x
         return Surface(self.data.__getitem__(item), step_x, step_y)
 
     @classmethod
-- 
2.43.0


From 9adde2fffb523488f932ccf003db27dc7f64498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 13/82] fix: return a new object from fill_nonmeasured if there
 are no non-measured points

---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 65f3877..488d3dc 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -147,7 +147,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data)
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index c33897b..906e0fb 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -509,7 +509,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data)
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From 3cb07ad1206239e4fe6545ac90eb5ec0f65096b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 14/82] fix: do not return the same surface from every call of
 stepheight_level

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 906e0fb..d7a0a02 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -770,7 +770,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From 894ca94373f8f2c664cd9b5c5d1f30aa4655a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 15/82] fix: do not evaluate the step height of a leveled
 surface with the mask of the unleveled surface

---
 surfalize/surface.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index d7a0a02..08a12bb 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -804,12 +804,7 @@ class Surface(BaseTopography):
         if inplace:
             self._set_data(data=leveled_data)
             return self
-        surface = Surface(leveled_data, self.step_x, self.step_y)
-        # This is not an ideal solution, but I can't think of a better one without major refactoring
-        # If the leveling is not done inplace, we need to somehow transfer the computed mask to the new objhect
-        # We are manually creating a cache entry for the new surface object so that we don't have to recompute the mask
-        surface.create_cache_entry(surface._stepheight_get_mask, mask, tuple(), dict())
-        return surface
+        return Surface(leveled_data, self.step_x, self.step_y)
 
     @cache
     def _stepheight_get_upper_lower_median(self):
-- 
2.43.0


From 1d7e63cdda57cbb48f91caadd12e416d8db85c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 16/82] fix: support non-measured points in invert

---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..943609a 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = self.min() + self.max() - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 80a44a478746a3f8a28b70e0bd501e92615a28a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 17/82] fix: extract horizontal and vertical profiles from the
 closest data points

---
 surfalize/surface.py | 42 ++++++++++++++++++------------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 08a12bb..f2a7bc5 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -381,23 +381,20 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
-            raise ValueError("y must not exceed height of surface.")
+        if not 0 <= y <= self.height_um:
+            raise ValueError("y must not be negative or exceed height of surface.")
         
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_y)
+            average_step_px = max(round(average_step / self.step_y), 1)
 
         # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.y if idx_max > self.size.y else idx_max
-        data = self.data[idx_min:idx_max + 1:average_step_px].mean(axis=0)
+        idx = round(y / self.step_y)
+        # indices from which profiles are taken for averaging, omitting those that lie outside the surface
+        indices = idx + (np.arange(average) - average // 2) * average_step_px
+        indices = indices[(indices >= 0) & (indices < self.size.y)]
+        data = self.data[indices].mean(axis=0)
         return Profile(data, self.step_x, self.width_um)
     
     def get_vertical_profile(self, x, average=1, average_step=None):
@@ -421,23 +418,20 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
-            raise ValueError("x must not exceed height of surface.")
+        if not 0 <= x <= self.width_um:
+            raise ValueError("x must not be negative or exceed width of surface.")
         
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_x)
-
-        # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
-        # first index from which a profile is taken for averaging
-        idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
-        # last index from which a profile is taken for averaging
-        idx_max = idx + int(average / 2) * average_step_px
-        idx_max = self.size.x if idx_max > self.size.x else idx_max
-        data = self.data[:, idx_min:idx_max + 1:average_step_px].mean(axis=1)
+            average_step_px = max(round(average_step / self.step_x), 1)
+
+        # horizontal index of profile
+        idx = round(x / self.step_x)
+        # indices from which profiles are taken for averaging, omitting those that lie outside the surface
+        indices = idx + (np.arange(average) - average // 2) * average_step_px
+        indices = indices[(indices >= 0) & (indices < self.size.x)]
+        data = self.data[:, indices].mean(axis=1)
         return Profile(data, self.step_y, self.height_um)
 
     #TODO: implement averaging
-- 
2.43.0


From ad43951a872c354c7d8e1910410e1a0955ef1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 18/82] fix: sample oblique profiles along the line between the
 start and end point

---
 surfalize/surface.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index f2a7bc5..97e7b8d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -459,28 +459,27 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
-
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if (not(0 <= x0 <= self.width_um) or not(0 <= y0 <= self.height_um) or
+            not(0 <= x1 <= self.width_um) or not(0 <= y1 <= self.height_um)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
+        x0px = round(x0 / self.step_x)
+        y0px = round(y0 / self.step_y)
+        x1px = round(x1 / self.step_x)
+        y1px = round(y1 / self.step_y)
+
         dx = x1px - x0px
         dy = y1px - y0px
 
-        size = int(np.hypot(dx, dy))
+        size = max(round(np.hypot(dx, dy)), 1) + 1
 
-        m = dy/dx
         xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        yp = np.linspace(y0px, y1px, size)
 
         data = ndimage.map_coordinates(self.data, [yp, xp])
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From 29bcce7e4832d925ba61bce425874441e67ca69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 19/82] fix: make equal surfaces have equal hashes

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 97e7b8d..1c28b5d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -257,7 +257,8 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        # Equality tolerates small height differences, so the heights cannot be part of the hash
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From da1fd7b6a0a016476c23945c1f55b06ab3b6f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 20/82] fix: raise an error if the step height is evaluated on
 surfaces with non-measured points

---
 surfalize/surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 1c28b5d..094e334 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -764,6 +764,7 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
+    @no_nonmeasured_points
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
@@ -817,6 +818,7 @@ class Surface(BaseTopography):
         return upper_median, lower_median
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     @cache
     def stepheight(self):
         """
@@ -831,6 +833,7 @@ class Surface(BaseTopography):
         return step_height
 
     @batch_method('parameter')
+    @no_nonmeasured_points
     def cavity_volume(self, threshold=0.50):
         """
         Calculates the cavity volume of a flat surface containing an ablation crater with a leveled bottom plane.
-- 
2.43.0


From 3ff296e2ea2323e510a043fa2a9eab71f58a9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 21/82] fix: protect the cached height parameters from being
 modified by the caller

---
 surfalize/surface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 094e334..379f49d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -858,8 +858,6 @@ class Surface(BaseTopography):
    
     # Height parameters ################################################################################################
 
-    @cache
-    @no_nonmeasured_points
     def height_parameters(self):
         """
         Calculates the roughness parameters from the height parameter family.
@@ -869,6 +867,12 @@ class Surface(BaseTopography):
         -------
         dict[str: float]
         """
+        # Return a copy, so that the cached values cannot be modified by the caller
+        return dict(self._height_parameters())
+
+    @cache
+    @no_nonmeasured_points
+    def _height_parameters(self):
         mean = self.data.mean()
         centered_data = self.data - mean
         abs_centered_data = np.abs(centered_data)
-- 
2.43.0


From ab95fb5b473e1e3b13ac0c9801cfe5b705c48fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 22/82] fix: exclude invalid points from rotated surfaces and
 keep their step size

---
 surfalize/surface.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 379f49d..d7be7f0 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -621,33 +621,31 @@ class Surface(BaseTopography):
         surface : surfalize.Surface
             Surface object.
         """
-        rotated = ndimage.rotate(self.data, angle, reshape=True)
+        # Mirroring only ensures that points on the edges, which might fall outside due to rounding, remain valid
+        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='mirror')
 
-        aspect_ratio = self.size.y / self.size.x
-        rotated_aspect_ratio = rotated.shape[0] / rotated.shape[1]
+        sin = np.abs(np.sin(np.deg2rad(angle)))
+        cos = np.abs(np.cos(np.deg2rad(angle)))
 
-        if aspect_ratio < 1:
-            total_height = self.size.y / rotated_aspect_ratio
-        else:
-            total_height = self.size.x
-
-        pre_comp_sin = np.abs(np.sin(np.deg2rad(angle)))
-        pre_comp_cos = np.abs(np.cos(np.deg2rad(angle)))
+        # Extents of the surface and of the bounding box of the rotated surface in pixel intervals
+        height, width = self.size.y - 1, self.size.x - 1
+        height_rotated = width * sin + height * cos
+        width_rotated = width * cos + height * sin
 
-        w = total_height / (aspect_ratio * pre_comp_sin + pre_comp_cos)
-        h = w * aspect_ratio
+        # Extents of the largest rectangle with the same aspect ratio that lies within the rotated surface
+        scale = min(width / width_rotated, height / height_rotated)
+        h, w = scale * height, scale * width
 
         ny, nx = rotated.shape
-        ymin = int((ny - h)/2) + 1
-        ymax = int(ny - (ny - h)/2) - 1
-        xmin = int((nx - w)/2) + 1
-        xmax = int(nx - (nx - w)/2) - 1
-        
+        tolerance = 1e-9
+        ymin = int(np.ceil((ny - 1 - h) / 2 - tolerance))
+        ymax = int(np.floor((ny - 1 + h) / 2 + tolerance))
+        xmin = int(np.ceil((nx - 1 - w) / 2 - tolerance))
+        xmax = int(np.floor((nx - 1 + w) / 2 + tolerance))
+
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
-        width_um = (self.width_um * pre_comp_cos + self.height_um * pre_comp_sin) * w / nx
-        height_um = (self.width_um * pre_comp_sin + self.height_um * pre_comp_cos) * h / ny
-        step_y = height_um / rotated_cropped.shape[0]
-        step_x = width_um / rotated_cropped.shape[1]
+        step_y = (self.width_um * sin + self.height_um * cos) / height_rotated
+        step_x = (self.width_um * cos + self.height_um * sin) / width_rotated
 
         if inplace:
             self._set_data(data=rotated_cropped, step_x=step_x, step_y=step_y)
-- 
2.43.0


From ba5ba65c431b8ca3ad0033ebade79e2459c6f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 23/82] fix: restore the buffer position if reading fails so
 that the format can be detected

---
 surfalize/file/common.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..aca5678 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,10 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            yield file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
@@ -493,13 +495,14 @@ class FileHandler:
                 with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
-                # The probing succeeded, so we emit the mismatch warning outside the suppression context
+            except Exception:
+                continue
+            # The probing succeeded, so we emit the mismatch warning outside the suppression context
+            if self.is_path_like():
                 warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
                               f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
                               f'correct. The file was now loaded as {reader_suffix}.')
-                return result
-            except Exception:
-                pass
+            return result
 
         if exception is not None:
             raise exception
-- 
2.43.0


From 03787994607b1ba2a01be38d1a09f1e78434ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 24/82] fix: respect the specified format when saving to a path

---
 surfalize/file/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index aca5678..45eee36 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -510,12 +510,14 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
+        # If both a suffix and a format are given, the format overrides the suffix
+        if self.format is None and self.is_path_like():
             suffix = self.file.suffix
         else:
             suffix = self.format
         if not suffix:
             raise ValueError('No format for the file specified.') from None
+        suffix = suffix.lower()
         if suffix not in self._writers:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
-- 
2.43.0


From 5279eb884a494c59c442700df0465d5017907d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 25/82] fix: do not warn about a mismatch of suffix and format
 for formats with several suffixes

---
 surfalize/file/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 45eee36..5a4733f 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -481,7 +481,7 @@ class FileHandler:
             with open_file_like(self.file, 'rb') as filehandle:
                 detected_magic = filehandle.read(len(magic))
                 if detected_magic == magic:
-                    if self.is_path_like() and reader._suffix != suffix:
+                    if self.is_path_like() and self._readers_by_suffix.get(suffix) is not reader:
                         warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
                                       f'seems to actually be of type {reader._suffix}. Check if the file extensions is '
                                       f'correct. The file was now loaded as {reader._suffix}.')
-- 
2.43.0


From 43e70e74d28fd45e60971369f6b55d10f5cc8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 26/82] fix: derive the format from the suffix of the output
 file in the convert command

---
 surfalize/cli.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 3b920a6..2621b54 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -60,9 +60,9 @@ def open_pdf(file_path: Path):
         raise NotImplementedError(f'Operating system {system} is not supported.')
 
 
-def convert_file(input_path, output_path, skip_image_layers, **kwargs):
+def convert_file(input_path, output_path, format, skip_image_layers, **kwargs):
     surface = Surface.load(input_path, read_image_layers=not skip_image_layers)
-    surface.save(output_path, **kwargs)
+    surface.save(output_path, format=format, **kwargs)
 
 
 def perform_surface_operations(surface, **kwargs):
@@ -200,8 +200,9 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
     """
     Convert a file or all files in a directory to another format.
     """
-    if output_path.is_file():
+    if input_path.is_file() and output_path.suffix:
         format = output_path.suffix
+    format = format.lower()
 
     if format != '.sur' and compressed:
         raise click.BadParameter(
@@ -220,15 +221,15 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         kwargs['compressed'] = compressed
 
     if input_path.is_file():
-        convert_file(input_path, output_path, skip_image_layers, **kwargs)
+        convert_file(input_path, output_path, format, skip_image_layers, **kwargs)
         click.echo(f"Converted {input_path} → {output_path}")
         return
 
     output_path.mkdir(parents=True, exist_ok=True)
     for input_file in input_path.iterdir():
-        if input_file.is_file() and input_file.suffix in supported_formats_read:
+        if input_file.is_file() and input_file.suffix.lower() in supported_formats_read:
             out = output_path / (input_file.stem + format)
-            convert_file(input_file, out, skip_image_layers, **kwargs)
+            convert_file(input_file, out, format, skip_image_layers, **kwargs)
             click.echo(f"Converted {input_file} → {out}")
 
 
-- 
2.43.0


From 8ef093edddf47135ec54505bedf3e4de456f120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 27/82] fix: read plux files without image layer if image
 layers are requested

---
 surfalize/file/plux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 590bd21..8c65f05 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -14,6 +14,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
     with zipfile.ZipFile(filehandle) as archive:
         contents = archive.namelist()
         data_raw = archive.read(TOPOGRAPHY_FILE_NAME)
+        img_raw = None
         if read_image_layers and IMAGE_FILE_NAME in contents:
             img_raw = archive.read(IMAGE_FILE_NAME)
         xml_metadata = archive.read(XML_METADATA_FILE_NAME)
@@ -44,7 +45,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
 
     data = np.frombuffer(data_raw, dtype=np.float32, count=size).reshape((shape_y, shape_x))
     image_layers = {}
-    if read_image_layers:
+    if img_raw is not None:
         img = np.frombuffer(img_raw, dtype=np.uint8).reshape((shape_y, shape_x, 3))
         if np.all((img[:, :, 0] == img[:, :, 1]) & (img[:, :, 0] == img[:, :, 2])):
             image_layers['Grayscale'] = img[:, :, 0]
-- 
2.43.0


From e2bfaf2d35c478a823f3d13a87d26287e8cc3a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 28/82] fix: read os3d files without image layer if image
 layers are requested

---
 surfalize/file/os3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/os3d.py b/surfalize/file/os3d.py
index 83d2983..d1d1aa7 100644
--- a/surfalize/file/os3d.py
+++ b/surfalize/file/os3d.py
@@ -42,7 +42,7 @@ def read_os3d(filehandle, read_image_layers=False, encoding='utf-8'):
     metadata = header
     metadata['timestamp'] = dateutil.parser.parse(header['chArrayMeasureDateTime'])
 
-    has_image = struct.unpack('b', filehandle.read(1))
+    has_image = struct.unpack('b', filehandle.read(1))[0]
     image_layers = {}
     if has_image and read_image_layers:
         img_data = io.BytesIO(filehandle.read())
-- 
2.43.0


From 2f78ff0eba3fb0eee334f3b86add65f78642f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 29/82] fix: do not skip a block after FITS layers whose size
 is a multiple of the block size

---
 surfalize/file/fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 1159b58..4a62abb 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -92,7 +92,7 @@ def read_fits(filehandle, read_image_layers=False, encoding='utf-8'):
                               count=hdu_header['NAXIS1'] * hdu_header['NAXIS2']).reshape(hdu_header['NAXIS2'],
                                                                                           hdu_header['NAXIS1'])
             # Skip the remaining blocksize
-            filehandle.seek(BLOCKSIZE - (datasize % BLOCKSIZE), 1)
+            filehandle.seek(-datasize % BLOCKSIZE, 1)
             layers[hdu_header['EXTNAME']] = HeaderDataUnit(hdu_header, data)
 
         if filehandle.tell() >= filesize:
-- 
2.43.0


From 0c435b31b3350e5b8b12f362ec070694cf2ae2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 30/82] fix: do not loop infinitely on truncated FITS headers

---
 surfalize/file/fits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 4a62abb..3dbbef6 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -58,6 +58,8 @@ def read_header(filehandle, encoding='auto'):
     header = dict()
     while not has_ended:
         block = filehandle.read(BLOCKSIZE)
+        if len(block) < BLOCKSIZE:
+            raise FileFormatError('Unexpected end of file while reading the header.')
         partial_header, has_ended = parse_header_block(decode(block, encoding))
         header.update(partial_header)
     return header
-- 
2.43.0


From 91af12e38045aa50fcec37835dcab0241440310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 31/82] fix: ignore all errors raised during the calculation of
 parameters in batch processing

---
 surfalize/batch.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..ecaa0c7 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -14,7 +14,7 @@ from tqdm.auto import tqdm
 from .surface import Surface
 from .utils import is_list_like, remove_parameter_from_docstring
 from .file import supported_formats_read
-from .exceptions import BatchError, CalculationError
+from .exceptions import BatchError
 
 class ParsingError(Exception):
     """
@@ -360,7 +360,7 @@ class _Parameter:
         method = getattr(surface, self.identifier)
         try:
             result = method(*self.args, **self.kwargs)
-        except CalculationError as error:
+        except Exception as error:
             if not ignore_errors:
                 raise error
             if hasattr(method, 'return_labels'):
@@ -387,9 +387,11 @@ class _CustomParameter:
     def calculate_from(self, surface, ignore_errors=True):
         try:
             result = self.func(surface)
-        except CalculationError as error:
+        except Exception as error:
             if not ignore_errors:
                 raise error
+            # The names of the parameters are unknown, so the missing values are filled when constructing the DataFrame
+            result = {}
         return result
 
 
-- 
2.43.0


From aeb9ef569b4a695e8973506699a6bec8d8a2e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 32/82] fix: raise BatchError if a custom parameter is
 registered twice

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index ecaa0c7..a4b8311 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -761,7 +761,7 @@ class Batch:
         """
         if isinstance(step, (_Parameter, _CustomParameter)):
             if step.name in {s.name for s in self._steps if isinstance(s, (_Parameter, _CustomParameter))}:
-                raise BatchError(f'The parameter "{step.identifier}" is already registered. Consider giving it an '
+                raise BatchError(f'The parameter "{step.name}" is already registered. Consider giving it an '
                                  f'alternate name using the keyword argument "custom_name".')
         self._steps.append(step)
 
-- 
2.43.0


From 08ace7f081fea386ce681566653036a619bdf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 33/82] fix: compute the step size of xyz files from the number
 of intervals

---
 surfalize/file/xyz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/xyz.py b/surfalize/file/xyz.py
index 51f795f..d20737e 100644
--- a/surfalize/file/xyz.py
+++ b/surfalize/file/xyz.py
@@ -18,8 +18,8 @@ def read_xyz(filehandle, read_image_layers=False, encoding='utf-8'):
     ny = y.size
     if nx * ny != raw_data.shape[0]:
         raise CorruptedFileError('Number of datapoints does not match expected size.')
-    step_x = (x.max() - x.min()) / (nx) * 10**6
-    step_y = (y.max() - y.min()) / (ny) * 10**6
+    step_x = (x.max() - x.min()) / max(nx - 1, 1) * 10**6
+    step_y = (y.max() - y.min()) / max(ny - 1, 1) * 10**6
     data = raw_data[:,2].copy().reshape(ny, nx) * 10**6
 
     return RawSurface(data, step_x, step_y)
\ No newline at end of file
-- 
2.43.0


From 00545d40bdd6ad6eb9c6931aede96dae5e545253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 34/82] fix: keep the step size when rotating single rows or
 columns

---
 surfalize/surface.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index d7be7f0..0754aa8 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -644,8 +644,11 @@ class Surface(BaseTopography):
         xmax = int(np.floor((nx - 1 + w) / 2 + tolerance))
 
         rotated_cropped = rotated[ymin:ymax+1, xmin:xmax+1]
-        step_y = (self.width_um * sin + self.height_um * cos) / height_rotated
-        step_x = (self.width_um * cos + self.height_um * sin) / width_rotated
+        step_y, step_x = self.step_y, self.step_x
+        if height_rotated > 0:
+            step_y = (self.width_um * sin + self.height_um * cos) / height_rotated
+        if width_rotated > 0:
+            step_x = (self.width_um * cos + self.height_um * sin) / width_rotated
 
         if inplace:
             self._set_data(data=rotated_cropped, step_x=step_x, step_y=step_y)
-- 
2.43.0


From 71d15cfec358d39f1c0d3f6273f9f34624ae572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 35/82] fix: level and detrend surfaces that consist of a
 single row or column

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 0754aa8..f8f0973 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -559,8 +559,8 @@ class Surface(BaseTopography):
         y, x = np.mgrid[:rows, :cols]
 
         # Normalize coordinates to [-1, 1] range
-        x = (x - x.mean()) / x.max()
-        y = (y - y.mean()) / y.max()
+        x = (x - x.mean()) / max(x.max(), 1)
+        y = (y - y.mean()) / max(y.max(), 1)
 
         x_flat = x.flatten()
         y_flat = y.flatten()
-- 
2.43.0


From fff25dc51b791523fd6cfc9d8a0c4e87b4693048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 36/82] fix: compute the surface area of surfaces with
 different step sizes in x and y

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index f8f0973..1223b4b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -998,8 +998,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_y * dz_x[:-1, :]
+        cross_y = self.step_x * dz_y[:, :-1]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From f2e9f831072311d1203af494888d1f92f6040864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 37/82] fix: reduced peak height and dale depth are zero
 instead of NaN if no hills or dales protrude from the core

---
 surfalize/abbottfirestone.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 692bd0e..99bb233 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -196,6 +196,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # This way, we are losing or gaining a bit of area. In the future we might use some
         # additional interpolation. For now this is sufficient.
 
+        # Without hills that protrude from the core, there is no area to be converted into a triangle
+        if self.mr1() == 0:
+            return 0.0
         # Area enclosed above yupper between y-axis (at x=0) and abbott-firestone curve
         idx = argclosest(self._yupper, self._height)
         A1 = np.abs(trapezoid(self._material_ratio[:idx], x=self._height[:idx]))
@@ -211,6 +214,9 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
+        # Without dales that protrude from the core, there is no area to be converted into a triangle
+        if self.mr2() == 100:
+            return 0.0
         # Area enclosed below ylower between y-axis (at x=100) and abbott-firestone curve
         idx = argclosest(self._ylower, self._height)
         A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))
-- 
2.43.0


From a38e29de81ec2da2064ffb9e01f42733a4eab1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:19 +0000
Subject: [PATCH 38/82] fix: material ratio at heights next to plateaus of
 equal heights

---
 surfalize/abbottfirestone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 99bb233..552d758 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -116,7 +116,9 @@ class AbbottFirestoneCurve(CachedInstance):
         # Intercept of the equivalence line at 100% ratio
         self._ylower = self._slope * 100 + self._intercept
 
-        self._smr_fit = interp1d(height, material_ratio)
+        # The heights are in descending order. They are reversed rather than sorted, since sorting would not preserve the
+        # order of the material ratios of points with equal heights.
+        self._smr_fit = interp1d(height[::-1], material_ratio[::-1], assume_sorted=True)
         self._height = height
         self._material_ratio = material_ratio
 
-- 
2.43.0


From 0f517cf5e345cac9fc20aa41265d154ca4c89e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 39/82] fix: sampled profiles of depth lie on the surface for
 every size

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 1223b4b..1ee34f4 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1565,11 +1565,11 @@ class Surface(BaseTopography):
             # Calculate the number of intervals per profile
             nintervals = int(self.width_um / periodx)
             period_px = periodx / self.step_x
-            profile_dist_px = int(size.y / (nprofiles-1))
+            profile_dist_px = int((size.y - 1) / (nprofiles-1))
         else:
             nintervals = int(self.height_um / periody)
             period_px = periody / self.step_y
-            profile_dist_px = int(size.x / (nprofiles-1))
+            profile_dist_px = int((size.x - 1) / (nprofiles-1))
 
         # Allocate depth array with twice the length of the number of periods to accommodate both peaks and valleys
         # multiplied by the number of sampled profiles
-- 
2.43.0


From 19cb2a6aede1008d6c3a7fd11912601dc73b183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 40/82] fix: refined orientation of textures with a period of
 less than ten pixels

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 1ee34f4..e88a480 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1387,12 +1387,12 @@ class Surface(BaseTopography):
         if period_y > period_x:
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = int(period_x / self.step_x)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
             period_px = int(period_y / self.step_y)
-            dist_px = int(period_px * SAMPLE_RATE_FACTOR)
+            dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
 
-- 
2.43.0


From 4409858b5c07730666279ee7720f28ce374f62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 41/82] fix: refined orientation of textures without drift is
 defined and refers to the vertical axis

---
 surfalize/surface.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index e88a480..bc6985a 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1411,17 +1411,17 @@ class Surface(BaseTopography):
         # We assume that we have more values that correspond to the correct slope than outliers where the peak
         # jumps back by one period. For this to be true, we need to sample at least a couple points between each
         # periodic interval, which is determined by SAMPLE_RATE_FACTOR
-        diff_norm = np.abs((diff - np.median(diff)))
-        diff_norm = diff_norm / np.abs(diff_norm).max()
-        # Here we remove all values that deviate more than 5% from the median slope
+        deviation = np.abs(diff - np.median(diff))
+        # Here we remove all values that deviate more than 5% from the median slope. The values closest to the median
+        # are always kept, also if there is no outlier that all the others could be distinguished from
         THRESHOLD = 0.05
-        d = diff[diff_norm < THRESHOLD].mean()
+        d = diff[deviation <= max(THRESHOLD * deviation.max(), deviation.min())].mean()
 
         # Compute the angle
         angle = np.rad2deg(np.arctan(d / dist_px))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
-        if period_x > period_y:
-            angle = np.sign(angle) * 90 - angle
+        if period_x >= period_y:
+            angle = (-90 if angle < 0 else 90) - angle
         return angle
 
     @batch_method('parameter')
-- 
2.43.0


From 0cf9c95e579c88ca1ff2ab122b1841d77e1dcf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 42/82] fix: refined orientation of surfaces with different
 step sizes in x and y

---
 surfalize/surface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index bc6985a..4037ab0 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1385,12 +1385,14 @@ class Surface(BaseTopography):
         period_x, period_y = self.period_x_y()
 
         if period_y > period_x:
+            step_ratio = self.step_x / self.step_y
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
             period_px = int(period_x / self.step_x)
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
+            step_ratio = self.step_y / self.step_x
             period_px = int(period_y / self.step_y)
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
@@ -1418,7 +1420,7 @@ class Surface(BaseTopography):
         d = diff[deviation <= max(THRESHOLD * deviation.max(), deviation.min())].mean()
 
         # Compute the angle
-        angle = np.rad2deg(np.arctan(d / dist_px))
+        angle = np.rad2deg(np.arctan(d / dist_px * step_ratio))
         # If the texture is more aligned with the horizontal axis, we need to correct the angle
         if period_x >= period_y:
             angle = (-90 if angle < 0 else 90) - angle
-- 
2.43.0


From 9800485378aec2437289c01480bd9c05afd5220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 43/82] fix: refined orientation starts fitting from the period
 itself instead of its integer part

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 4037ab0..64e453b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1387,13 +1387,13 @@ class Surface(BaseTopography):
         if period_y > period_x:
             step_ratio = self.step_x / self.step_y
             # We sample at 0.25 * period because we need to at least obey the Nyquist theorem
-            period_px = int(period_x / self.step_x)
+            period_px = period_x / self.step_x
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.y / dist_px)
             get_profile = lambda idx: self.data[idx]
         else:
             step_ratio = self.step_y / self.step_x
-            period_px = int(period_y / self.step_y)
+            period_px = period_y / self.step_y
             dist_px = max(int(period_px * SAMPLE_RATE_FACTOR), 1)
             nprofiles = int(self.size.x / dist_px)
             get_profile = lambda idx: self.data[:, idx]
-- 
2.43.0


From c57a430dd62edaf7c442dc8ce2e377f7ef853164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 44/82] fix: period of profiles with small amplitudes

---
 surfalize/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 63aed9f..2babefe 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -197,7 +197,7 @@ def get_period_fft_1d(xdata, ydata):
     """
     fft = np.abs(np.fft.fft(ydata))
     freq = np.fft.fftfreq(len(ydata), d=xdata[1] - xdata[0])
-    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=10)
+    peaks, properties = find_peaks(fft.flatten(), distance=10, prominence=0)
     # Find the prominence of the peaks
     prominences = properties['prominences']
     # Sort in descending order by computing sorting indices
-- 
2.43.0


From a2bf8da38aecb15b65583d1c6fb39b2e3dd0d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 45/82] fix: image layer of NMS files with different numbers of
 rows and columns

---
 surfalize/file/nms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/nms.py b/surfalize/file/nms.py
index 3e5a7ea..a822679 100644
--- a/surfalize/file/nms.py
+++ b/surfalize/file/nms.py
@@ -36,7 +36,7 @@ def read_nms(filehandle, read_image_layers=False, encoding='utf-8'):
     step_y = dy * 1e-3
     image_layers = {}
     if read_image_layers:
-        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, ny)
+        image_layers['Grayscale'] = read_array(filehandle, dtype=DTYPE_IMG, count=nx * ny).reshape(ny, nx)
 
     metadata = dict(date=date)
 
-- 
2.43.0


From ac34b94d944a8a28d5143edff3873571f912aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 46/82] fix: files are read from the current position of a
 buffer

---
 surfalize/file/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 5a4733f..7c26d8c 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -180,7 +180,11 @@ def open_file_like(file_or_path, mode='r'):
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
         try:
-            yield file_or_path
+            if mode == 'rb' and current_pos > 0:
+                # Readers seek to absolute positions, which must refer to the current position of the buffer
+                yield io.BytesIO(file_or_path.read())
+            else:
+                yield file_or_path
         finally:
             file_or_path.seek(current_pos, 0)
     else:
-- 
2.43.0


From 51329cca684fed243baa909e26d9bdd1780733ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 47/82] fix: AL3D files written to a buffer that is not at its
 beginning

---
 surfalize/file/al3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/al3d.py b/surfalize/file/al3d.py
index 7857396..9e1c440 100644
--- a/surfalize/file/al3d.py
+++ b/surfalize/file/al3d.py
@@ -35,10 +35,11 @@ def write_al3d(filehandle, surface, encoding='utf-8'):
     header['Rows'] = surface.size.y
     header['TextureImageOffset'] = 0
 
+    start = filehandle.tell()
     filehandle.write(MAGIC)
     for key, value in header.items():
         write_tag(filehandle, key, value, encoding=encoding)
-    pos = filehandle.tell()
+    pos = filehandle.tell() - start
     n_padding = header['DepthImageOffset'] - pos - 2
     filehandle.write(b'\x00' * n_padding + b'\r\n')
     data = surface.data.astype(DTYPE) * 1e-6
-- 
2.43.0


From 459c3003466da6a7cb3242a08af3f97a2d1b3428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 48/82] fix: X3P files with heights stored as integers

---
 surfalize/file/x3p.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/x3p.py b/surfalize/file/x3p.py
index 4dcb6e0..1809a51 100644
--- a/surfalize/file/x3p.py
+++ b/surfalize/file/x3p.py
@@ -88,7 +88,12 @@ def read_x3p(filehandle, read_image_layers=False, encoding='utf-8'):
             raise CorruptedFileError('Binary file containing topographical data not found.') from None
 
         with archive.open(bin_path, 'r') as data_file:
-            data = read_array(data_file, dtype=dtype).reshape(ny, nx) * CONVERSION_FACTOR
+            data = read_array(data_file, dtype=dtype).reshape(ny, nx)
+        if data.dtype.kind == 'u':
+            # Heights stored as integers are multiples of the increment of the z-axis
+            increment = cz.find('Increment')
+            data = data * (1.0 if increment is None else float(increment.text))
+        data = data * CONVERSION_FACTOR
 
         metadata = {}
         if record2 is not None:
-- 
2.43.0


From c3902f7a2b1ccbd9cd8336abe3b9d7cd9dece5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 49/82] =?UTF-8?q?fix:=20GWY=20channels=20with=20heights=20?=
 =?UTF-8?q?in=20=C2=B5m=20are=20recognised=20as=20height=20channels?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 surfalize/file/gwy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index b68caab..62a0523 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -2,7 +2,7 @@ import re
 import struct
 import numpy as np
 
-from .common import get_unit_conversion, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
+from .common import get_unit_conversion, _sanitize_mu, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
 from ..exceptions import FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
@@ -41,7 +41,7 @@ def _filter_candidates_by_z_unit_presence(tree, candidates):
     for layer_key in candidates:
         if 'si_unit_z' in tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']:
             unit = tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']['si_unit_z']['GwySIUnit']['unitstr']
-            if unit in UNIT_EXPONENT.keys():
+            if _sanitize_mu(unit) in UNIT_EXPONENT.keys():
                 reduced_candidates.append(layer_key)
     return reduced_candidates
 
-- 
2.43.0


From c25737c92f8cd5ebe08ffb90d1d706f26e7ccb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 50/82] fix: GWY files with graphs or selections that belong to
 no channel

---
 surfalize/file/gwy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 62a0523..6267fbf 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -122,7 +122,7 @@ def guess_image_channels(tree, layer_candidates):
 def get_image_related_layer_keys(tree):
     image_related_layers = []
     for key in tree['GwyContainer']:
-        mo = re.search(r'/(\d+)/', key)
+        mo = re.fullmatch(r'/(\d+)/data', key)
         if mo:
             image_related_layers.append(mo.group(1))
     return list(set(image_related_layers))
-- 
2.43.0


From 742abeec11dc8c88efd5e1308bd465194c779aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 51/82] fix: GWY channels without title

---
 surfalize/file/gwy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 6267fbf..4076d51 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -67,7 +67,7 @@ def _filter_candidates_by_name(tree, candidates, guesses=('height', 'topo')):
     """
     reduced_candidates = []
     for layer_key in candidates:
-        title = tree['GwyContainer'][f'/{layer_key}/data/title'].lower()
+        title = tree['GwyContainer'].get(f'/{layer_key}/data/title', '').lower()
         if any([guess in title for guess in guesses]):
             reduced_candidates.append(layer_key)
     if not reduced_candidates:
@@ -254,7 +254,7 @@ def read_gwy(filehandle, read_image_layers=False, encoding='utf-8'):
         image_channel_keys = guess_image_channels(tree, image_related_layers)
         for layer_key in image_channel_keys:
             datafield = tree['GwyContainer'][f'/{layer_key}/data']['GwyDataField']
-            title = tree['GwyContainer'][f'/{layer_key}/data/title']
+            title = tree['GwyContainer'].get(f'/{layer_key}/data/title', f'Channel {layer_key}')
             img_data = datafield['data']
 
             img_unit_xy = datafield['si_unit_xy']['GwySIUnit']['unitstr']
-- 
2.43.0


From 1d1a03ff03379619992a613c935292398111debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 52/82] fix: oblique profiles of surfaces with integer heights
 were rounded

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 64e453b..6758bc5 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -477,7 +477,8 @@ class Surface(BaseTopography):
         xp = np.linspace(x0px, x1px, size)
         yp = np.linspace(y0px, y1px, size)
 
-        data = ndimage.map_coordinates(self.data, [yp, xp])
+        # Heights stored as integers must not be interpolated to integers
+        data = ndimage.map_coordinates(self.data, [yp, xp], output=np.result_type(self.data, np.float32))
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
         step = length_um / (size - 1)
-- 
2.43.0


From c03c88aadcaf2b27be78296f23553a7fb3d10ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 53/82] fix: Gaussian filter truncated the heights of
 topographies with integer heights

---
 surfalize/filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/filter.py b/surfalize/filter.py
index f3243c3..cf732c8 100644
--- a/surfalize/filter.py
+++ b/surfalize/filter.py
@@ -90,7 +90,9 @@ class GaussianFilter:
             sigma_x = self.sigma(self._cutoff / topography.step_x)
             sigma_y = self.sigma(self._cutoff / topography.step_y)
             sigma = (sigma_y, sigma_x)
-        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode)
+        # Heights stored as integers must not be filtered to integers
+        data = ndimage.gaussian_filter(topography.data, sigma, mode=self._endeffect_mode,
+                                       output=np.result_type(topography.data, np.float32))
         if self._filter_type == 'highpass':
             data = topography.data - data
         if inplace:
-- 
2.43.0


From 16d5a18728536d97efe34e7354bda60a26221c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 54/82] fix: rotation rounded the heights of surfaces with
 integer heights

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 6758bc5..bfa4d83 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -623,7 +623,8 @@ class Surface(BaseTopography):
             Surface object.
         """
         # Mirroring only ensures that points on the edges, which might fall outside due to rounding, remain valid
-        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='mirror')
+        rotated = ndimage.rotate(self.data, angle, reshape=True, mode='mirror',
+                                 output=np.result_type(self.data, np.float32))
 
         sin = np.abs(np.sin(np.deg2rad(angle)))
         cos = np.abs(np.cos(np.deg2rad(angle)))
-- 
2.43.0


From b4e01ef68d466725844ce6f75131a2cf5de23a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 55/82] fix: outlier removal and thresholding raised for
 integer heights

---
 surfalize/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index 943609a..64cc1b8 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -283,7 +283,8 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.copy()
+        # Heights stored as integers cannot represent non-measured points
+        data = np.array(self.data, dtype=np.result_type(self.data, np.float32))
         if method == 'mean':
             data[np.abs(data - np.nanmean(data)) > n * np.nanstd(data)] = np.nan
         elif method == 'median':
@@ -328,7 +329,8 @@ class BaseTopography(CachedInstance):
             raise ValueError("Combined threshold is larger than 100%.")
         idx0 = argclosest(threshold_upper / 100, x)
         idx1 = argclosest(1 - threshold_lower / 100, x)
-        data = self.data.copy()
+        # Heights stored as integers cannot represent non-measured points
+        data = np.array(self.data, dtype=np.result_type(self.data, np.float32))
         data[(data > y[idx0]) | (data < y[idx1])] = np.nan
         if inplace:
             self._set_data(data=data)
-- 
2.43.0


From 4fa1e70fbc6289b3e2155843e4fba9343afb0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:44 +0000
Subject: [PATCH 56/82] fix: Otsu threshold assigned the upper half of the
 highest bin of the lower class to the upper class

---
 surfalize/mathutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 2babefe..41e273d 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -142,7 +142,8 @@ def otsu_threshold(values, nbins=256):
     # Between-class variance for a threshold placed between bin i and i+1
     variance12 = weight1[:-1] * weight2[1:] * (mean1[:-1] - mean2[1:]) ** 2
     idx = np.argmax(variance12)
-    return bin_centers[idx]
+    # The classes are separated by the edge between the bins i and i+1, not by the center of the last bin of the lower class
+    return bin_edges[idx + 1]
 
 
 def argmax_all(arr):
-- 
2.43.0


From 4662eb92e07cea0ddd8211bc661a4647cc0c94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 57/82] fix: homogeneity used too small cells for some periods
 that are multiples of the step size

---
 surfalize/surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index bfa4d83..8d97d9c 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1503,8 +1503,9 @@ class Surface(BaseTopography):
         if period is None:
             period = self.period()
 
-        cell_length_x = int(period / self.step_x)
-        cell_length_y = int(period / self.step_y)
+        # The small number prevents periods that are multiples of the step size from being rounded down to a smaller cell
+        cell_length_x = int(period / self.step_x + 1e-9)
+        cell_length_y = int(period / self.step_y + 1e-9)
         ncells_x = int(self.size.x / cell_length_x)
         ncells_y = int(self.size.y / cell_length_y)
         ncells = ncells_x * ncells_y
-- 
2.43.0


From ae98ba9afb0befd463bd86e6c706f07a0db5f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 58/82] fix: crop the plot of the Fourier transform
 symmetrically for odd numbers of points

---
 surfalize/fourier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index b86d2d2..7998bb1 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -268,12 +268,12 @@ class FourierTransform(CachedInstance):
 
         if fxmax is not None:
             ixmax = argclosest(fxmax, freq_x)
-            ixmin = M - ixmax
+            ixmin = argclosest(-freq_x[ixmax], freq_x)
             fft = fft[:, ixmin:ixmax + 1]
 
         if fymax is not None:
             iymax = argclosest(fymax, freq_y)
-            iymin = N - iymax
+            iymin = argclosest(-freq_y[iymax], freq_y)
             fft = fft[iymin:iymax + 1]
 
         vmin = None
-- 
2.43.0


From 507fc1ffbc4625c437231cdaa5807e8e73243c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 59/82] fix: plot of the Fourier transform could not be drawn
 for surfaces without dominant peaks

---
 surfalize/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 7998bb1..1bca5ac 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -281,6 +281,9 @@ class FourierTransform(CachedInstance):
         if adjust_colormap:
             vmin = fft.mean()
             vmax = 0.7 * fft.max()
+            if vmax <= vmin:
+                # Without dominant peaks, 0.7 times the maximum can lie below the mean
+                vmax = fft.max()
 
         ax.set_xlabel('Frequency [µm$^{-1}$]')
         ax.set_ylabel('Frequency [µm$^{-1}$]')
-- 
2.43.0


From a39b25516b68ca84b5bb6ce50a70d2268a0c6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:00 +0000
Subject: [PATCH 60/82] fix: reading a damaged Gwyddion file could loop for
 hours at the end of the file

---
 surfalize/file/gwy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 4076d51..859c163 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -3,7 +3,7 @@ import struct
 import numpy as np
 
 from .common import get_unit_conversion, _sanitize_mu, RawSurface, UNIT_EXPONENT, FileHandler, read_array, decode
-from ..exceptions import FileFormatError, UnsupportedFileFormatError
+from ..exceptions import CorruptedFileError, FileFormatError, UnsupportedFileFormatError
 
 MAGIC = b'GWYP'
 # This is not specified by the file standard but we nonetheless assume that the name will never be longer than that
@@ -29,6 +29,8 @@ def read_null_terminated_string(filehandle, maxsize=STR_MAX_SIZE, encoding='auto
     i = 0
     while i < maxsize:
         char = filehandle.read(1)
+        if char == b'':
+            raise CorruptedFileError('Unexpected end of file while reading a string.')
         if char == b'\x00':
             break
         string += char
-- 
2.43.0


From 73b2f15b479eb0d5422e5c89bdfe60f088453c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 61/82] fix: read text fields of .dat and .tmd files with the
 requested encoding

---
 surfalize/file/dat.py | 4 ++--
 surfalize/file/tmd.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/dat.py b/surfalize/file/dat.py
index 225e25d..83237ca 100644
--- a/surfalize/file/dat.py
+++ b/surfalize/file/dat.py
@@ -257,13 +257,13 @@ def read_dat(filehandle, read_image_layers=False, encoding='utf-8'):
     magic = filehandle.read(LEN_MAGIC)
     if magic not in (MAGIC_1, MAGIC_2, MAGIC_3):
         raise CorruptedFileError('Unrecognized magic detected.')
-    header = LAYOUT_HEADER.read(filehandle)
+    header = LAYOUT_HEADER.read(filehandle, encoding=encoding)
 
     if (magic, header['header_format'], header['header_size']) not in VALID_FORMAT_SPECIFICATIONS:
         raise CorruptedFileError('File is not a valid metropro file!')
 
     if header['header_format'] == 3:
-        header_3 = LAYOUT_HEADER_3.read(filehandle)
+        header_3 = LAYOUT_HEADER_3.read(filehandle, encoding=encoding)
 
     n_points = header['ac_width'] * header['ac_height'] * header['ac_n_buckets']
     if n_points * 2 != header['ac_n_bytes']:
diff --git a/surfalize/file/tmd.py b/surfalize/file/tmd.py
index 731535e..58e6868 100644
--- a/surfalize/file/tmd.py
+++ b/surfalize/file/tmd.py
@@ -24,7 +24,7 @@ def read_tmd(filehandle, read_image_layers=False, encoding='utf-8'):
     if magic != MAGIC:
         raise CorruptedFileError('Incorrect file magic detected.')
     filehandle.seek(0)
-    header = HEADER_LAYOUT.read(filehandle)
+    header = HEADER_LAYOUT.read(filehandle, encoding=encoding)
     data = read_array(filehandle, dtype=DTYPE)
     if data.size != header['height'] * header['width']:
         raise CorruptedFileError('Size of data does not match expectted size.')
-- 
2.43.0


From 3bf37095b827aa864036630d92716fae3fe2c332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 62/82] fix: read strings with slashes and equals signs,
 HISTORY and blank cards of .fits headers

---
 surfalize/file/fits.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/surfalize/file/fits.py b/surfalize/file/fits.py
index 3dbbef6..5058641 100644
--- a/surfalize/file/fits.py
+++ b/surfalize/file/fits.py
@@ -37,16 +37,19 @@ def parse_header_block(block):
     header = dict()
     block_ended = False
     for line in lines:
-        if not line or line.startswith('COMMENT'):
-            continue
         if line == 'END':
             block_ended = True
             break
-        if '/' in line:
-            line = line.split('/')[0]
-        left, right = line.split('=')
+        if line[:8].strip() in ('', 'COMMENT', 'HISTORY'):
+            continue
+        left, right = line.split('=', 1)
         left = left.strip()
         right = right.strip()
+        if right.startswith("'"):
+            # Slashes inside of a string do not start a comment
+            right = right[:right.find("'", 1) + 1] or right
+        else:
+            right = right.split('/')[0].strip()
         if left.startswith('HIERARCH'):
             left = left.replace('HIERARCH ', '')
         header[left] = convert_dtype(right)
-- 
2.43.0


From e0c8257c2dc372dedb7b99d31bda65a2616aa97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 63/82] fix: read header values with an equals sign of ASCII
 .sdf files

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index 963620e..07ef0db 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -66,7 +66,7 @@ def read_ascii_sdf(filehandle, encoding="utf-8"):
 
     header = dict()
     for line in header_section.lstrip().splitlines():
-        name, value = line.split('=')
+        name, value = line.split('=', 1)
         name, value = name.strip(), value.strip()
         if name not in ASCII_HEADER_TYPES:
             raise CorruptedFileError(f'Unknown header field "{name}" detected.')
-- 
2.43.0


From ffd8fcc3c01e9992317f3dd4963522ac3e3a9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 64/82] fix: read the trailer of ASCII .sdf files from the
 trailer section

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index 07ef0db..798defd 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -91,7 +91,7 @@ def read_ascii_sdf(filehandle, encoding="utf-8"):
     # If we want to parse this as xml, we need to clean it up first with a regex anyway, so we may as well use it
     # to parse it, even though it is an evil thing to do
     pattern = r'< ?\b(\w+)\b ?>(.*)< ?/ ?\b\1\b ?>'
-    metadata.update({k: v.strip() for k, v in re.findall(pattern, data_section)})
+    metadata.update({k: v.strip() for k, v in re.findall(pattern, trailer_section)})
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=None)
 
-- 
2.43.0


From 6215fb2dd5e48444eb6c768e1852c0d1896483d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 65/82] fix: decode the title and lens name of .vk files as
 UTF-16

---
 surfalize/file/vk.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/surfalize/file/vk.py b/surfalize/file/vk.py
index b8464dd..838fdf7 100644
--- a/surfalize/file/vk.py
+++ b/surfalize/file/vk.py
@@ -147,12 +147,10 @@ def read_string_data(filehandle, offset, encoding='auto'):
     filehandle.seek(offset, 0)
     str_data = dict()
     size_title = struct.unpack('I', filehandle.read(4))[0] * 2
-    # Every character is followed by a null byte. Therefore, we read twice the since of the expected string length and slice to
-    # remove every second character
-    str_data['title'] = decode(filehandle.read(size_title), encoding)[::2]
+    # The strings are encoded with two bytes per character. Therefore, we read twice the size of the expected string length
+    str_data['title'] = decode(filehandle.read(size_title), 'utf-16-le')
     size_lens_name = struct.unpack('I', filehandle.read(4))[0] * 2
-    # Same here
-    str_data['lens_name'] = decode(filehandle.read(size_lens_name), encoding)[::2]
+    str_data['lens_name'] = decode(filehandle.read(size_lens_name), 'utf-16-le')
     return str_data
 
 @FileHandler.register_reader(suffix='.vk4', magic=b'VK4_')
-- 
2.43.0


From eeaeb5bb2c0662059cf0850f3fddbcf15a32b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 66/82] fix: read .plux files with empty values in the info
 section

---
 surfalize/file/plux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/plux.py b/surfalize/file/plux.py
index 8c65f05..bb7c1d0 100644
--- a/surfalize/file/plux.py
+++ b/surfalize/file/plux.py
@@ -35,7 +35,7 @@ def read_plux(filehandle, read_image_layers=False, encoding='utf-8'):
                 # Extract NAME and VALUE from each ITEM
                 name = item.find('NAME').text.strip()
                 if name in tags:
-                    metadata[name.lower()] = item.find('VALUE').text.strip()
+                    metadata[name.lower()] = item.findtext('VALUE', default='').strip()
 
     shape_x = int(root.find('GENERAL/IMAGE_SIZE_X').text)
     shape_y = int(root.find('GENERAL/IMAGE_SIZE_Y').text)
-- 
2.43.0


From 3f2bfa5fbacf0d5dafbb1c421115654402bf3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 67/82] fix: return image layers of .sur files as 8-bit images

---
 surfalize/file/sur.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index 81c3038..d81d0dc 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -323,6 +323,12 @@ def get_surface(sur_obj):
     # timestamp = datetime.datetime(year=header['year'], month=header['month'], day=header['day'])
     return (data, step_x, step_y)
 
+def get_image(sur_obj):
+    # Image files hold 8-bit intensities as bytes, irrespective of the number of bits per point in the sur file
+    if sur_obj.data.min() >= 0 and sur_obj.data.max() <= 255:
+        return sur_obj.data.astype('uint8')
+    return sur_obj.data
+
 @FileHandler.register_reader(suffix='.sur', magic=(MAGIC_CLASSIC.encode(), MAGIC_COMPRESSED.encode()))
 def read_sur(filehandle, read_image_layers=False, encoding='utf-8'):
     top_level_sur_obj = read_sur_object(filehandle, encoding=encoding)
@@ -339,7 +345,7 @@ def read_sur(filehandle, read_image_layers=False, encoding='utf-8'):
             # read rgb layers
             rgb_layers = []
             for i in range(3):
-                rgb_layers.append(read_sur_object(filehandle, encoding=encoding).data)
+                rgb_layers.append(get_image(read_sur_object(filehandle, encoding=encoding)))
             # image is grayscale
             if np.all(rgb_layers[0] == rgb_layers[1]) and np.all(rgb_layers[0] == rgb_layers[2]):
                 image_layers['Grayscale'] = rgb_layers[0]
@@ -348,7 +354,7 @@ def read_sur(filehandle, read_image_layers=False, encoding='utf-8'):
                 image_layers['RGB'] = np.stack(rgb_layers, axis=-1)
 
             # read intensity layer
-            image_layers['Intensity'] = read_sur_object(filehandle, encoding=encoding).data
+            image_layers['Intensity'] = get_image(read_sur_object(filehandle, encoding=encoding))
     else:
         raise UnsupportedFileFormatError(
             f'Studiables of type {top_level_sur_obj.header["studiable_type"].name} are not supported.'
-- 
2.43.0


From e955792341d2c1816b093820d91b5d50f6fa35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 68/82] fix: report an error if the heights cannot be written
 completely

---
 surfalize/file/common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 7c26d8c..0596d34 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -371,10 +371,8 @@ def read_array(fileobject, dtype, count=-1, offset=0):
     return result
 
 def write_array(data, fileobject):
-    try:
-        data.tofile(fileobject)
-    except io.UnsupportedOperation:
-        fileobject.write(data.tobytes())
+    # ndarray.tofile does not report if the last block cannot be written, e.g. because the disk is full
+    fileobject.write(data.tobytes())
 
 class RawSurface:
 
-- 
2.43.0


From 63d167c6571e7de0c42dd0708172bdef63fdd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 69/82] fix: convert integer heights to floating point numbers

---
 surfalize/profile.py | 3 +++
 surfalize/surface.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 488d3dc..f7ea2fb 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,6 +84,9 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
+        if value.dtype.kind in 'biu':
+            # Integers wrap around, truncate the results of operations and cannot represent non-measured points
+            value = value.astype('float64')
         # Read-only arrays (e.g. the data view of another object) are copied, since they can neither be edited nor
         # guaranteed not to change without the cache being cleared
         self._data = value if value.flags.writeable else value.copy()
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 8d97d9c..a86bd14 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,6 +139,9 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
+        if value.dtype.kind in 'biu':
+            # Integers wrap around, truncate the results of operations and cannot represent non-measured points
+            value = value.astype('float64')
         # Read-only arrays (e.g. the data view of another object) are copied, since they can neither be edited nor
         # guaranteed not to change without the cache being cleared
         self._data = value if value.flags.writeable else value.copy()
-- 
2.43.0


From de6b91bf0d04e2d408825a99884722af820dbddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 70/82] fix: report on a directory skipped files with upper
 case extensions and failed on directories

---
 surfalize/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index 2621b54..e9452a2 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -60,6 +60,11 @@ def open_pdf(file_path: Path):
         raise NotImplementedError(f'Operating system {system} is not supported.')
 
 
+def list_supported_files(directory):
+    return sorted(file for file in directory.iterdir()
+                  if file.is_file() and file.suffix.lower() in supported_formats_read)
+
+
 def convert_file(input_path, output_path, format, skip_image_layers, **kwargs):
     surface = Surface.load(input_path, read_image_layers=not skip_image_layers)
     surface.save(output_path, format=format, **kwargs)
@@ -253,9 +258,7 @@ def report(input_path, open_after, periodic_parameters, **kwargs):
     input_path = Path(input_path).absolute()
 
     if input_path.is_dir():
-        files = []
-        for ext in supported_formats_read:
-            files.extend(input_path.glob(f'*{ext}'))
+        files = list_supported_files(input_path)
     else:
         files = [input_path]
 
-- 
2.43.0


From 6b778cdc63a408cfd77fc64a6e19ce53f088ded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 71/82] fix: converting a directory overwrote files that differ
 only in their extension

---
 surfalize/cli.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/surfalize/cli.py b/surfalize/cli.py
index e9452a2..1175f44 100644
--- a/surfalize/cli.py
+++ b/surfalize/cli.py
@@ -231,11 +231,18 @@ def convert(input_path, output_path, format, skip_image_layers, compressed):
         return
 
     output_path.mkdir(parents=True, exist_ok=True)
-    for input_file in input_path.iterdir():
-        if input_file.is_file() and input_file.suffix.lower() in supported_formats_read:
-            out = output_path / (input_file.stem + format)
-            convert_file(input_file, out, format, skip_image_layers, **kwargs)
-            click.echo(f"Converted {input_file} → {out}")
+    input_files = list_supported_files(input_path)
+    # An output must overwrite neither the output of another file nor another file to be converted
+    occupied = {file.name: file for file in input_files} if output_path.samefile(input_path) else {}
+    for input_file in input_files:
+        name = input_file.stem + format
+        number = 2
+        while occupied.setdefault(name, input_file) != input_file:
+            name = f'{input_file.stem}_{number}{format}'
+            number += 1
+        out = output_path / name
+        convert_file(input_file, out, format, skip_image_layers, **kwargs)
+        click.echo(f"Converted {input_file} → {out}")
 
 
 # ---------------------------------------------------------------------
-- 
2.43.0


From c55bb734049a433b4fcf9323c11ff2b71860fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 72/82] fix: batches of a directory skipped files with upper
 case extensions and included directories

---
 surfalize/batch.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index a4b8311..67aeafb 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -404,6 +404,11 @@ class _CustomOperation:
         self.func(surface)
 
 
+def _list_files(dir_path, extension):
+    """Returns the files in a directory with the given extension, regardless of whether it is upper or lower case."""
+    return [path for path in dir_path.iterdir() if path.is_file() and path.name.lower().endswith(extension.lower())]
+
+
 def _task(file, steps, ignore_errors, preserve_chaining_order):
     """
     Task that loads a surface from file, executes a list of operations and calculates a list of parameters.
@@ -611,7 +616,7 @@ class Batch:
         elif isinstance(file_extensions, str):
             file_extensions = [file_extensions]
         for extension in file_extensions:
-            filepaths.extend(list(dir_path.glob(f'*{extension}')))
+            filepaths.extend(_list_files(dir_path, extension))
         return cls(filepaths, additional_data=additional_data)
 
     def add_files(self, files):
@@ -660,7 +665,7 @@ class Batch:
         elif isinstance(file_extensions, str):
             file_extensions = [file_extensions]
         for extension in file_extensions:
-            self._files.extend(list(dir_path.glob(f'*{extension}')))
+            self._files.extend(_list_files(dir_path, extension))
         return self
 
     def _disptach_tasks(self, multiprocessing=True, ignore_errors=True, on_file_complete=None,
-- 
2.43.0


From 873e55c371651668e9e5efdeefbd82e395625c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 73/82] fix: batch results could not be copied and pickled

---
 surfalize/batch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 67aeafb..ee0b201 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -228,6 +228,13 @@ class BatchResult:
             return getattr(self, attr)
         return getattr(self.__df, attr)
 
+    # Copying and pickling must not be delegated to the DataFrame by __getattr__
+    def __reduce__(self):
+        return type(self), (self.__df,)
+
+    def __deepcopy__(self, memo):
+        return type(self)(self.__df)
+
     def __getitem__(self, item):
         return self.__df.__getitem__(item)
 
-- 
2.43.0


From 54a5fe5b28a5ccc7f4f51e7db26c5e89b1b412db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 74/82] fix: steps registered on a copy of a batch were added
 to the original

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index ee0b201..3bd9d09 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,4 +1,5 @@
 import inspect
+from types import MethodType
 import io
 from multiprocessing.pool import ThreadPool
 from functools import partial
@@ -549,7 +550,7 @@ class Batch:
     def _create_batch_method(self, name, method):
         """Create a batch method from a Surface method."""
 
-        def batch_method(*args, **kwargs):
+        def batch_method(self, *args, **kwargs):
             for param_name, param_value in method._fixed.items():
                 kwargs[param_name] = param_value
             if method._batch_type == 'operation':
@@ -581,11 +582,11 @@ class Batch:
 
         sig = inspect.signature(method)
         params = [p for name, p in list(sig.parameters.items())
-                  if name not in remove_parameters]  # Skip 'self'
+                  if name not in method._fixed]
         batch_method.__signature__ = sig.replace(parameters=params)
 
-        # Add method to instance
-        setattr(self, name, batch_method)
+        # Add method to instance. As a bound method, it is bound to the copy when the instance is deep-copied.
+        setattr(self, name, MethodType(batch_method, self))
 
     @classmethod
     def from_dir(cls, dir_path, file_extensions=None, additional_data=None):
-- 
2.43.0


From 729132866d147d6fead2760e757b3d524b1e7f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 75/82] fix: surfaces could not be pickled after the functional
 parameters had been calculated

---
 surfalize/mathutils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/surfalize/mathutils.py b/surfalize/mathutils.py
index 41e273d..46e2a7a 100644
--- a/surfalize/mathutils.py
+++ b/surfalize/mathutils.py
@@ -1,3 +1,4 @@
+from functools import partial
 import numpy as np
 from scipy.optimize import curve_fit
 from scipy.signal import find_peaks
@@ -66,11 +67,8 @@ def interp1d(xdata, ydata, assume_sorted=False):
         xdata = xdata[idx_sorted]
         ydata = ydata[idx_sorted]
 
-    @np.vectorize
-    def y(x):
-        return np.interp(x, xdata, ydata)
-
-    return y
+    # A locally defined function could not be pickled
+    return np.vectorize(partial(np.interp, xp=xdata, fp=ydata))
 
 
 def argclosest(x, xdata):
-- 
2.43.0


From 31468f8297ae3b7ce2ebd6d893c8364053bf1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 76/82] fix: editing a copy of a topography changed the
 original without clearing its cache

---
 surfalize/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/surfalize/base.py b/surfalize/base.py
index 64cc1b8..bd3ba9e 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -125,6 +125,14 @@ class BaseTopography(CachedInstance):
         """
         self.show()
 
+    def __copy__(self):
+        # A shallow copy that shared the height data could edit it without invalidating the cache of the original
+        obj = self.__class__.__new__(self.__class__)
+        obj.__dict__.update(self.__dict__)
+        obj._data = self._data.copy()
+        obj.clear_cache()
+        return obj
+
     def __setitem__(self, key, value):
         """
         Blessed in-place edit path. Mutates the underlying height data directly and invalidates the cache, since the
-- 
2.43.0


From 3cb1358d8b6848422ec73460d347df2a9431a6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 77/82] fix: parameters of an Abbott-Firestone curve changed
 when the topography was edited

---
 surfalize/abbottfirestone.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 552d758..5e53d28 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -29,7 +29,8 @@ class AbbottFirestoneCurve(CachedInstance):
             raise ValueError("Missing points must be filled before the "
                              "Abbott-Firestone curve can be instantiated.") from None
         super().__init__()
-        self._obj = obj
+        # The curve must not change with the topography that it was calculated from
+        self._data = obj.data.copy()
         self._nbins = nbins
         self._calculate_curve()
 
@@ -52,7 +53,7 @@ class AbbottFirestoneCurve(CachedInstance):
         # Material ratio is measured from the top of the surface, so material ratio p corresponds to the
         # (1 - p) quantile of the height distribution (p = 0 % -> maximum height, p = 100 % -> minimum height).
         material_ratio = np.linspace(0, 100, self._nbins)
-        height = np.quantile(self._obj.data, 1 - material_ratio / 100)
+        height = np.quantile(self._data, 1 - material_ratio / 100)
         return height, material_ratio
 
     # This is a bit hacky right now with the modified state. Maybe clean that up in the future
@@ -235,7 +236,7 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
-        return self._obj.data.max() - self._yupper
+        return self._data.max() - self._yupper
 
     @cache
     def vkx(self):
@@ -247,7 +248,7 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
-        return self._ylower - self._obj.data.min()
+        return self._ylower - self._data.min()
 
     @cache
     def ak1(self):
@@ -374,7 +375,7 @@ class AbbottFirestoneCurve(CachedInstance):
             fig, ax = plt.subplots()
         else:
             fig = ax.figure
-        dist_bars, bins_bars = np.histogram(self._obj.data, bins=nbars)
+        dist_bars, bins_bars = np.histogram(self._data, bins=nbars)
         dist_bars = np.flip(dist_bars)
         bins_bars = np.flip(bins_bars)
 
@@ -386,10 +387,10 @@ class AbbottFirestoneCurve(CachedInstance):
         ax2.set_xlabel('Material ratio (%)')
         ax.set_box_aspect(1)
         ax2.set_xlim(0, 100)
-        ax.set_ylim(self._obj.data.min(), self._obj.data.max())
+        ax.set_ylim(self._data.min(), self._data.max())
 
         ax.barh(bins_bars[:-1] + np.diff(bins_bars) / 2, dist_bars / dist_bars.cumsum().max() * 100,
-                height=(self._obj.data.max() - self._obj.data.min()) / nbars, edgecolor='k', color='lightblue')
+                height=(self._data.max() - self._data.min()) / nbars, edgecolor='k', color='lightblue')
         ax2.plot(material_ratio, height, c='r', clip_on=True)
 
         return fig, (ax, ax2)
-- 
2.43.0


From 3a34310d02275f3a569e24ad73f9af89d0cde0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:52 +0000
Subject: [PATCH 78/82] fix: Fourier transform and autocorrelation function
 changed when the surface was edited

---
 surfalize/autocorrelation.py | 5 ++++-
 surfalize/fourier.py         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/surfalize/autocorrelation.py b/surfalize/autocorrelation.py
index 5b3c57d..ea666c7 100644
--- a/surfalize/autocorrelation.py
+++ b/surfalize/autocorrelation.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import scipy.ndimage as ndimage
 from scipy.signal import fftconvolve
@@ -27,7 +29,8 @@ class AutocorrelationFunction(CachedInstance):
         super().__init__()
         # For now we level and center. In the future, we should replace that with lookups of booleans
         # to avoid double computation
-        self._surface = surface
+        # The results must not change with the surface that they are calculated from
+        self._surface = copy.copy(surface)
         self._current_threshold = None
         self.data = self.calculate_autocorrelation()
         self.center = np.array(self.data.shape) // 2
diff --git a/surfalize/fourier.py b/surfalize/fourier.py
index 1bca5ac..96b6461 100644
--- a/surfalize/fourier.py
+++ b/surfalize/fourier.py
@@ -1,3 +1,5 @@
+import copy
+
 import numpy as np
 import matplotlib.pyplot as plt
 
@@ -22,7 +24,8 @@ class FourierTransform(CachedInstance):
             raise ValueError("Missing points must be filled before "
                              "the Fourier transform can be instantiated.") from None
         super().__init__()
-        self._surface = surface
+        # The results must not change with the surface that they are calculated from
+        self._surface = copy.copy(surface)
 
     @cache
     def _get_peak_dx_dy(self):
-- 
2.43.0


From ba4b0e6bdcd8583f27d735af7af7f20a982c3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:36 +0000
Subject: [PATCH 79/82] fix: order of the image layers of .gwy files differed
 between runs

---
 surfalize/file/gwy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index 859c163..eb2ac4e 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -127,7 +127,8 @@ def get_image_related_layer_keys(tree):
         mo = re.fullmatch(r'/(\d+)/data', key)
         if mo:
             image_related_layers.append(mo.group(1))
-    return list(set(image_related_layers))
+    # The keys are unique. Their order must not differ between runs, as that of a set does.
+    return image_related_layers
 
 
 class Container:
-- 
2.43.0


From 32fe64fe4763ec294a719a746c05cd96666349d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:36 +0000
Subject: [PATCH 80/82] fix: image layers of .gwy files with the same title
 overwrote each other

---
 surfalize/file/gwy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/file/gwy.py b/surfalize/file/gwy.py
index eb2ac4e..c86be90 100644
--- a/surfalize/file/gwy.py
+++ b/surfalize/file/gwy.py
@@ -267,6 +267,8 @@ def read_gwy(filehandle, read_image_layers=False, encoding='utf-8'):
             if img_nx != nx or img_ny != ny or img_unit_xy != unit_xy:
                 continue
 
+            if title in image_layers:
+                title = f'{title} {layer_key}'
             image_layers[title] = img_data.reshape(ny, nx)
 
     return RawSurface(data, step_x, step_y, metadata=metadata, image_layers=image_layers)
-- 
2.43.0


From b4c7a5d7d78d5f60fa18f25d612f4db632846dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:12 +0000
Subject: [PATCH 81/82] fix: depth with plots failed for short periods

---
 surfalize/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index a86bd14..eb3502e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1621,7 +1621,7 @@ class Surface(BaseTopography):
                 if plot and i in plot:
                     rx = xp[idx_min:idx_max+1].min()
                     ry = line[idx_min:idx_max+1].min()
-                    rw = xp[idx_max] - xp[idx_min+1]
+                    rw = xp[idx_max] - xp[idx_min]
                     rh = np.abs(line[idx_min:idx_max+1].min() - line[idx_min:idx_max+1].max())
                     rect = Rectangle((rx, ry), rw, rh, facecolor='tab:orange')
                     ax.plot([rx, rx+rw], [depth_mean, depth_mean], c='r')
-- 
2.43.0


From e92c61b4144f670fd5a6e42e58c9c662cddf39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:12 +0000
Subject: [PATCH 82/82] fix: loading files concurrently could leave all
 warnings of the process ignored

---
 surfalize/file/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 0596d34..f3115c7 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -2,6 +2,7 @@ import struct
 import os
 import io
 import functools
+import threading
 from contextlib import contextmanager
 from pathlib import Path
 import warnings
@@ -12,6 +13,9 @@ from abc import abstractmethod, ABC
 from surfalize.exceptions import UnsupportedFileFormatError
 from surfalize.utils import is_list_like
 
+# The state of the warnings is shared by all threads, so only one at a time may suppress them
+_PROBE_LOCK = threading.RLock()
+
 ENCODINGS = ('ascii', 'big5', 'big5hkscs', 'cp037', 'cp273', 'cp424', 'cp437', 'cp500', 'cp720', 'cp737', 'cp775',
              'cp850', 'cp852', 'cp855', 'cp856', 'cp857', 'cp858', 'cp860', 'cp861', 'cp862', 'cp863', 'cp864', 'cp865',
              'cp866', 'cp869', 'cp874', 'cp875', 'cp932', 'cp949', 'cp950', 'cp1006', 'cp1026', 'cp1125', 'cp1140',
@@ -494,7 +498,7 @@ class FileHandler:
         # reader that fails, so we also suppress any warnings the probed readers might emit on incompatible data.
         for reader_suffix, reader in self._readers_by_suffix.items():
             try:
-                with open_file_like(self.file, 'rb') as filehandle, warnings.catch_warnings():
+                with open_file_like(self.file, 'rb') as filehandle, _PROBE_LOCK, warnings.catch_warnings():
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
             except Exception:
-- 
2.43.0

