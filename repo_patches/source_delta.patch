From d006260148edcfed601fac8574a9af167176b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:51:56 +0000
Subject: [PATCH 01/36] fix: build product date from scalar ints when inferring
 the ellipsoid

datetime() no longer accepts 0-d DataArrays, so opening any file with the
default ellipse_rev raised TypeError.
---
 glmtools/io/glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ac65fe6..ce1988b 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -552,8 +552,8 @@ class GLMDataset(OneToManyTraversal):
         if ellipse_rev < 0:
             log.info("Inferring lightning ellipsoid from GLM product time")
             pt = self.dataset.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
+            date = datetime(int(pt.year), int(pt.month), int(pt.day),
+                            int(pt.hour), int(pt.minute), int(pt.second))
             ellipse_rev = ltg_ellpse_rev(date)
         log.info("Using lightning ellipsoid rev {0}".format(ellipse_rev))
 
-- 
2.43.0


From d7ad74aaa246b744f2527c2dbe8747fcd74b0077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:32 +0000
Subject: [PATCH 02/36] fix: look up ellipsoid radii with the existing revision
 function

ltg_ellps_radii called a function name that does not exist, so every call
raised NameError.
---
 glmtools/io/lightning_ellipse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/lightning_ellipse.py b/glmtools/io/lightning_ellipse.py
index fa0a469..1b7aa20 100644
--- a/glmtools/io/lightning_ellipse.py
+++ b/glmtools/io/lightning_ellipse.py
@@ -62,7 +62,7 @@ def ltg_ellps_radii(date):
     Returns: re_ltg_ellps, rp_ltg_ellps (meters): equatorial and polar radii
         of the lightning ellipsoid, respectively.
     """
-    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellps_rev(date)]
+    re_ltg_ellps, rp_ltg_ellps = lightning_ellipse_rev[ltg_ellpse_rev(date)]
     return re_ltg_ellps, rp_ltg_ellps
 
 def ltg_ellps_lon_lat_to_fixed_grid(lon, lat, sat_lon, ellipse_rev,
-- 
2.43.0


From c256b90ce9aedb23b3c8649ea84947783ac9ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:32 +0000
Subject: [PATCH 03/36] fix: allow subsetting flashes without the event
 position check

With check_event_xy=False the list of flashes with good events was never
set, so subset_flashes raised UnboundLocalError.
---
 glmtools/io/glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index ce1988b..6d3d57c 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -528,7 +528,7 @@ class GLMDataset(OneToManyTraversal):
             # log.debug("Subsetting bad events with override ranges {0}".format(
                 # check_event_kw))
             good_event_flash_ids = self._check_event_xy(**check_event_kw)
-        flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
+            flash_ids = list(set(flash_ids) & set(good_event_flash_ids))
         return self.get_flashes(flash_ids)
 
     def get_flashes(self, flash_ids):
-- 
2.43.0


From c8d71c1eab0fa7c9bad84146904fe9b723dbf97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:32 +0000
Subject: [PATCH 04/36] fix: traverse datasets that have an empty dimension

No groupby exists for an empty dimension, so checking, counting or reducing
such a dataset raised AttributeError. Loading a file without any lightning
failed for that reason. Treat the missing groupby as having no groups.
---
 glmtools/io/traversal.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index 6c0e0e3..dfb2716 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -101,6 +101,11 @@ class OneToManyTraversal(object):
         """ Iterate from children to parents"""
         yield from zip(self.entity_id_vars[::-1], self.parent_id_vars[::-1])
 
+    @staticmethod
+    def _groups(grouper):
+        """ The groups of a groupby, which is None for an empty dimension """
+        return {} if grouper is None else grouper.groups
+
     def count_children(self, entity_id_var, child_entity_id_var=None):
         """ Count the children of entity_id_var.
 
@@ -124,7 +129,7 @@ class OneToManyTraversal(object):
         all_counts = []
         for e_var, p_var in self._descend():
             if count_next == True:
-                grouper = self.parent_groups[p_var].groups
+                grouper = self._groups(self.parent_groups[p_var])
                 count = [len(grouper[eid]) if (eid in grouper) else 0
                          for eid in last_entity_ids]
                 last_entity_ids = self.dataset[e_var].data
@@ -213,7 +218,7 @@ class OneToManyTraversal(object):
         prune = False
         for e_var, p_var in self._descend():
             if prune == True:
-                p_group = self.parent_groups[p_var].groups
+                p_group = self._groups(self.parent_groups[p_var])
                 e_iter = (p_group[eid] for eid in last_entity_ids
                           if eid in p_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -233,7 +238,7 @@ class OneToManyTraversal(object):
                 # the need to index along two dimensions at once the first time
                 # through.
                 prune = True
-                e_group = self.entity_groups[e_var].groups
+                e_group = self._groups(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -257,7 +262,7 @@ class OneToManyTraversal(object):
         # child at the level of entity_id_var
         for e_var, p_var in self._ascend():
             if (prune == True):
-                e_group = self.entity_groups[e_var].groups
+                e_group = self._groups(self.entity_groups[e_var])
                 e_iter = (e_group[eid] for eid in last_entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
@@ -332,11 +337,11 @@ class OneToManyTraversal(object):
             # e.g., group_parent_flash_id
             # Check the entity ID variable and its corresponding parent data for the same set of IDs
             parent_grouper = trav.parent_groups[parent_var]
-            parent_ids = set(parent_grouper.groups.keys())
+            parent_ids = set(self._groups(parent_grouper).keys())
 
             # e.g., flash_id
             parent_entity_grouper = trav.entity_groups[id_entity_for_parent_var]
-            parent_entity_ids = set(parent_entity_grouper.groups.keys())
+            parent_entity_ids = set(self._groups(parent_entity_grouper).keys())
 
             # Ensure no replication of IDs at the parent level. There should
             # only be on entity ID for each entity.
-- 
2.43.0


From d0082d3648a58235a2f5634acf10d50857e37461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:32 +0000
Subject: [PATCH 05/36] fix: do not select orphaned children when reducing to
 entities

An ID that does not exist at the requested level still matched children
naming it as their parent, so orphans were kept in the reduced dataset.
---
 glmtools/io/traversal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/traversal.py b/glmtools/io/traversal.py
index dfb2716..012274a 100644
--- a/glmtools/io/traversal.py
+++ b/glmtools/io/traversal.py
@@ -242,7 +242,9 @@ class OneToManyTraversal(object):
                 e_iter = (e_group[eid] for eid in entity_ids
                           if eid in e_group)
                 e_idx = list(itertools.chain.from_iterable(e_iter))
-                last_entity_ids = entity_ids # == dataset[e_var].data
+                # == dataset[e_var].data. IDs that aren't present at this level
+                # must not bring along orphaned children.
+                last_entity_ids = [eid for eid in entity_ids if eid in e_group]
                 if len(e_idx) == 0:
                     # xarray doesn't accept an empty array as a valid index
                     e_idx = slice(0, 0)
-- 
2.43.0


From 2e2805e6e62e6108a1bd0158de2c82083631a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:04:11 +0000
Subject: [PATCH 06/36] fix: prune groups and flashes without events when
 repairing the tree

Repairing a file with inconsistent parent-child IDs kept groups that have
no events, so the repaired tree was still inconsistent.
---
 glmtools/io/glm.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 6d3d57c..a6f14a8 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -216,6 +216,11 @@ class GLMDataset(OneToManyTraversal):
                 unq_fl_id = set(list(dataset.group_parent_flash_id.data))
                 good_fl_id = list(unq_fl_id - flashes_with_no_groups)
                 ds_fixed = test_trav.reduce_to_entities('flash_id', good_fl_id)
+                # Pruning to the flash IDs leaves behind any groups (and
+                # flashes made up of only those groups) which have no events.
+                ds_fixed = OneToManyTraversal(ds_fixed,
+                    self.entity_ids, self.parent_ids).reduce_to_entities(
+                        'event_id', ds_fixed.event_id.data)
                 dataset = ds_fixed
 
         self._filename = filename
-- 
2.43.0


From eb14987dbb7df7d430bd7d4cd1c43e43cf7d5075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:04 +0000
Subject: [PATCH 07/36] fix: build an empty event lookup table when there are
 no events

---
 glmtools/io/glm.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index a6f14a8..b730234 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -637,10 +637,13 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
 
     xy_id = discretize_2d_location(event_x, event_y, scale_factor, x_range, y_range)
     dataset['event_parent_lutevent_id'] = xr.DataArray(xy_id, dims=[event_dim,])
-    eventlut_groups = dataset.groupby('event_parent_lutevent_id')
-    flash_id_groupby = dataset.groupby('flash_id')
-    group_id_groupby = dataset.groupby('group_id')
-    n_lutevents = len(eventlut_groups.groups)
+    # No events means there is nothing to aggregate, and groupby would fail.
+    has_events = xy_id.shape[0] > 0
+    if has_events:
+        eventlut_groups = dataset.groupby('event_parent_lutevent_id')
+        flash_id_groupby = dataset.groupby('flash_id')
+        group_id_groupby = dataset.groupby('group_id')
+        n_lutevents = len(eventlut_groups.groups)
 
     # Create a new dimension for the reduced set of events, with their
     # properties aggregated.
@@ -661,10 +664,13 @@ def get_lutevents(dataset, scale_factor=28e-6, event_dim='number_of_events',
                       ('lutevent_min_flash_area', 'f8')
                       ]
 
-    lut_iter = event_lut_iter(eventlut_groups, flash_id_groupby, group_id_groupby,
-                   event_x, event_y, event_energy, product_time,
-                   ev_flash_id, ev_group_id, flash_area, group_area)
-    event_lut = np.fromiter(lut_iter, dtype=eventlut_dtype, count=n_lutevents)
+    if has_events:
+        lut_iter = event_lut_iter(eventlut_groups, flash_id_groupby, group_id_groupby,
+                       event_x, event_y, event_energy, product_time,
+                       ev_flash_id, ev_group_id, flash_area, group_area)
+        event_lut = np.fromiter(lut_iter, dtype=eventlut_dtype, count=n_lutevents)
+    else:
+        event_lut = np.empty(0, dtype=eventlut_dtype)
     lutevents = xr.Dataset.from_dataframe(
                     pd.DataFrame(event_lut).set_index('lutevent_id'))
     dataset.update(lutevents)
-- 
2.43.0


From eb0725a552f07ff074fedb56b507a3ac5dd81e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:57 +0000
Subject: [PATCH 08/36] fix: correct unsigned times before changing the order
 of entities

The times are read again from the file, so they no longer matched the
flashes, groups, and events kept after an inconsistent tree was pruned.
---
 glmtools/io/glm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index b730234..9a109e2 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -195,6 +195,13 @@ class GLMDataset(OneToManyTraversal):
         else:
             dataset = xr.open_dataset(filename)
 
+        if fix_bad_DO07_times:
+            # Times are read once more from the file, so correct them before
+            # any change to the number or order of flashes, groups, and events.
+            self.dataset = dataset
+            did_fix = self._check_and_fix_missing_unsigned_time(filename)
+            dataset = self.dataset
+
         if check_tree:
             tree_problems = False
             test_trav = OneToManyTraversal(dataset,
@@ -243,8 +250,6 @@ class GLMDataset(OneToManyTraversal):
         else:
             self.dataset = dataset
 
-        if fix_bad_DO07_times:
-            did_fix = self._check_and_fix_missing_unsigned_time(filename)
         if check_area_units:
             # Check for missing areas (from overflow of the max value
             # allowed by the scale_factor) before ensuring units are always km^2
-- 
2.43.0


From c9c3eb4684cc4c99c7fe18fdbf6a9769eb803c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:57 +0000
Subject: [PATCH 09/36] fix: slice polygons with an explicit bounding box

---
 glmtools/grid/clipping.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 41c298c..5391328 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -562,9 +562,8 @@ class QuadMeshPolySlicer(object):
         patch_coll.set_array(np.fromiter((0 for p in polys), dtype=float))
         ax1.add_collection(patch_coll)
         """
-        if bbox == True:
-            recalc_bbox = True
-            # else use the bbox that is specified exactly
+        # If not True, use the bbox that is specified exactly
+        recalc_bbox = (bbox is True)
 
         poly_arr = [np.asarray(p) for p in polys]
         areas = [np.abs(poly_area(p[:,0], p[:,1])) for p in poly_arr]
-- 
2.43.0


From c69ada6117da02d127c91dd0645b9592a8da4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:57 +0000
Subject: [PATCH 10/36] fix: keep mesh quads when the bounding box extends past
 the mesh

---
 glmtools/grid/clipping.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 5391328..59b3522 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -328,13 +328,15 @@ class QuadMeshSubset(object):
         # print(valid) -> [False, False,  True,  True,  True, False]
         idxx = np.digitize(xlim, self.X_edge1d, right=True) - 1
         idxy = np.digitize(ylim, self.Y_edge1d, right=True) - 1
-        validx = (idxx >= 0) & (idxx < self.N_X_ctr)
-        validy = (idxy >= 0) & (idxy < self.N_Y_ctr)
-        idxx = idxx[validx]
-        idxy = idxy[validy]
+        # A limit beyond the edge of the mesh still includes all of the quads
+        # up to that edge, unless the whole bbox is on that side of the mesh.
+        overlapx = (idxx.max() >= 0) & (idxx.min() < self.N_X_ctr)
+        overlapy = (idxy.max() >= 0) & (idxy.min() < self.N_Y_ctr)
+        idxx = idxx.clip(0, self.N_X_ctr-1)
+        idxy = idxy.clip(0, self.N_Y_ctr-1)
         # print('indices x', idxx, self.X_edge1d.min(), self.X_edge1d.max())
         # print('indices y', idxy, self.Y_edge1d.min(), self.Y_edge1d.max())
-        if (len(idxx) > 0) & (len(idxy) > 0):
+        if overlapx & overlapy:
             xi_min = max(idxx.min() - pad, 0)
             xi_max = min(idxx.max() + 1 + pad, self.N_X_ctr)
             yi_min = max(idxy.min() - pad, 0)
-- 
2.43.0


From 05fb190a3bcb3b9ce178604610ed245136cbf746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:57 +0000
Subject: [PATCH 11/36] fix: find irregular mesh quads that are larger than the
 bounding box

---
 glmtools/grid/clipping.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 59b3522..ebb02b9 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -378,15 +378,13 @@ class QuadMeshSubset(object):
         # centers are outside of the bbox
         # goodx = (self.X_ctr >= xlim[0]) & (self.X_ctr <= xlim[1])
         # goody = (self.Y_ctr >= ylim[0]) & (self.Y_ctr <= ylim[1])
-        goodx = np.zeros(self.quads.shape[0:2], dtype=bool)
-        goody = np.zeros(self.quads.shape[0:2], dtype=bool)
-
-        for qi in range(4):
-            # loop over the quad corners, keeping quads with at least one corner in bounds
-            goodx |= ((self.quads[:,:,qi,0] >= xlim[0]) &
-                      (self.quads[:,:,qi,0] <= xlim[1]))
-            goody |= ((self.quads[:,:,qi,1] >= ylim[0]) &
-                      (self.quads[:,:,qi,1] <= ylim[1]))
+        # Keep quads whose own extent overlaps the bbox, which includes quads
+        # larger than the bbox that have no corner within it.
+        quads_x, quads_y = self.quads[:,:,:,0], self.quads[:,:,:,1]
+        goodx = ((quads_x.max(axis=2) >= xlim[0]) &
+                 (quads_x.min(axis=2) <= xlim[1]))
+        goody = ((quads_y.max(axis=2) >= ylim[0]) &
+                 (quads_y.min(axis=2) <= ylim[1]))
         quad_x_idx, quad_y_idx = np.where((goodx & goody))
         quads = self.quads[quad_x_idx, quad_y_idx, :, :]
         return quads, quad_x_idx, quad_y_idx
-- 
2.43.0


From a2db924db08581cdcde7f242ca117ae09eaf4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:57 +0000
Subject: [PATCH 12/36] fix: slice polygons when there is only one neighboring
 quad

---
 glmtools/grid/clipping.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index ebb02b9..8909c17 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -265,9 +265,11 @@ class QuadMeshSubset(object):
         """
         dists, quad_x_idx, quad_y_idx = self.query_tree(x)
         # quads = [q for q in self.gen_polys(quad_x_idx, quad_y_idx)]
-        # Squeeze a leading dimension of 1 on x/y_idx and therefore on quads
-        quads = self.quads[quad_x_idx, quad_y_idx, :, :].squeeze()
-        return quads, quad_x_idx.squeeze(), quad_y_idx.squeeze()
+        # Remove a leading dimension of 1 on x/y_idx and therefore on quads.
+        # There may be only one quad, so don't use squeeze.
+        quad_x_idx, quad_y_idx = quad_x_idx.reshape(-1), quad_y_idx.reshape(-1)
+        quads = self.quads[quad_x_idx, quad_y_idx, :, :]
+        return quads, quad_x_idx, quad_y_idx
 
     def _quads_in_bbox_regular(self, bbox, pad=2):
         """ Assume a perfectly regular grid, with uniform spacing in x and y
-- 
2.43.0


From a41495962e33517d29df313b039d14d3b617260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:57 +0000
Subject: [PATCH 13/36] fix: use unsigned quad areas for any arrangement of the
 mesh

---
 glmtools/grid/clipping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index 8909c17..a8f6ea4 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -172,8 +172,11 @@ class QuadMeshSubset(object):
         log.info('    ... {0} quads in mesh ...'.format(nq))
         self.quads_flat = self.quads.view()
         self.quads_flat.shape = (nq, 4, 2) # flatten the first two dimensions
-        self.quad_areas = vectorized_poly_area(self.quads_flat[:, :, 0],
-                                               self.quads_flat[:, :, 1])
+        # Area is signed by the direction of the vertices, which depends on the
+        # arrangement of the mesh dimensions.
+        self.quad_areas = np.abs(vectorized_poly_area(
+                                    self.quads_flat[:, :, 0],
+                                    self.quads_flat[:, :, 1]))
         # self.quad_areas = np.abs(np.fromiter(
             # (poly_area(q[:,0], q[:,1]) for q in self.quads_flat),
             # dtype='f8', count=nq))
-- 
2.43.0


From 2a397cc244753b1cc4371405218d8bfaa367c8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:34 +0000
Subject: [PATCH 14/36] fix: slice each event with all of the mesh quads it
 overlaps

Only a fixed number of quads around the event center were used, so part of
the event was lost on grids much finer than the event, or when the center
was off the grid.
---
 glmtools/io/mimic_lma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f4bd3d5..038c038 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -187,7 +187,7 @@ def fast_fixed_grid_read_chunk(flash_data, target=None, base_date=None, nadir_lo
     slicer = QuadMeshPolySlicer(mesh)
     # --- Split up the events ---
     log.info("Starting to split events")
-    chopped_polys, poly_areas = slicer.slice(event_polys)
+    chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
     log.info("Sliced all events")
     split_event_polys, split_event_properties = split_event_data(
         chopped_polys, poly_areas, slicer, event_ids=event_ids)
@@ -418,7 +418,7 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         slicer = QuadMeshPolySlicer(mesh)
         # --- Split up the events ---
         log.info("Starting to split events")
-        chopped_polys, poly_areas = slicer.slice(event_polys)
+        chopped_polys, poly_areas = slicer.slice(event_polys, bbox=True)
         log.info("Sliced all events")
         split_event_polys, split_event_properties = split_event_data(chopped_polys, poly_areas, slicer, event_ids=event_ids)
         if fixed_grid:
-- 
2.43.0


From 7a474094170c6e7731676d6ed643b372dfee01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:34 +0000
Subject: [PATCH 15/36] fix: remove unused date that needs an import when
 clipping a flash chunk

---
 glmtools/io/mimic_lma.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 038c038..71567f7 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -391,10 +391,6 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
         # unioning by a little bit to avoid the above problem.
 
         if fixed_grid:
-            pt = flash_data.product_time.dt
-            date = datetime(pt.year, pt.month, pt.day,
-                            pt.hour, pt.minute, pt.second)
-
             x_lut, y_lut, corner_lut = load_pixel_corner_lookup(corner_pickle)
             # Convert from microradians to radians
             x_lut = x_lut * 1.0e-6
-- 
2.43.0


From f0a7250a1b918f19f48e94290a9bcb4ad610e465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:34 +0000
Subject: [PATCH 16/36] fix: skip events that are all outside the target mesh

---
 glmtools/io/mimic_lma.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 71567f7..f52ecf2 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -816,6 +816,10 @@ def _fake_lma_events_from_split_glm_lutevents(split_events, basedate):
                  ('lutevent_min_flash_area', 'f4'),
                  ]
 
+    if split_events.split_event_mesh_x_idx.shape[0] == 0:
+        # none of the events overlap the mesh, nothing to do
+        return np.empty(0, dtype=lut_split_event_dtype)
+
     split_events['split_event_mesh_area_fraction'] = np.fabs(
             split_events.split_event_mesh_area_fraction)
 
-- 
2.43.0


From 80f96f7da513f9c645e4f1f8f8ada7461d9d892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:34 +0000
Subject: [PATCH 17/36] fix: stack chunks of point data from lists, including
 when there are none

---
 glmtools/io/mimic_lma.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index f52ecf2..50fb008 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1049,8 +1049,11 @@ class GLMncCollection(LMAh5Collection):
                                 lon_range=self.lon_range,
                                 lat_range=self.lat_range,
                                 clip_events=False)
-        ev_chunks = (d['flash'][0] for d in fake_lma)
-        fl_chunks = (d['flash'][1] for d in fake_lma)
+        # Begin with an empty chunk in case there are no flashes
+        ev_chunks = [np.empty(0, dtype=event_dtype)]
+        ev_chunks += [d['flash'][0] for d in fake_lma]
+        fl_chunks = [np.empty(0, dtype=flash_dtype)]
+        fl_chunks += [d['flash'][1] for d in fake_lma]
         events, flashes = np.hstack(ev_chunks), np.hstack(fl_chunks)
         log.info('data from {0}'.format(fname))
         return events, flashes
-- 
2.43.0


From 47258c6bce3a0520c7308f74cc0fa269594c15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:34 +0000
Subject: [PATCH 18/36] fix: honor the base date of a time series of flashes

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 50fb008..9fe48e8 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1063,7 +1063,7 @@ class TimeSeriesGLMFlashSubset(TimeSeriesGenericFlashSubset):
                     min_events=None, min_groups=None,
                     lon_range=None, lat_range=None):
         super(TimeSeriesGLMFlashSubset, self).__init__(t_start, t_end, dt,
-                                                    base_date=None)
+                                                    base_date=base_date)
         self.lma = GLMncCollection(glm_filenames, base_date=self.base_date,
                                    min_points=min_events, min_groups=min_groups,
                                    lat_range=lat_range, lon_range=lon_range)
-- 
2.43.0


From b2a5ca43b2c8dfbc4036d6c2f329a95559d6a36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:49 +0000
Subject: [PATCH 19/36] fix: make location IDs unique up to the edge of the
 coordinate range

---
 glmtools/io/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 9a109e2..0c8cdb8 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -747,5 +747,6 @@ def discretize_2d_location(x, y, scale, x_range, y_range, int_type='uint64'):
     discr_y_max = np.array((y_range[1]-y_offset)/scale, dtype=int_type)
     x_discr = ((x - x_offset) / scale).astype(int_type)
     y_discr = ((y - y_offset) / scale).astype(int_type)
-    xy_discr = x_discr + y_discr*discr_x_max
+    # x_discr includes both zero and discr_x_max
+    xy_discr = x_discr + y_discr*(discr_x_max+np.array(1, dtype=int_type))
     return xy_discr
-- 
2.43.0


From c93ad93dbb0c2dae9c3e1797cf177355754b454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:49 +0000
Subject: [PATCH 20/36] fix: round instead of truncating when removing scale
 and offset

---
 glmtools/io/glm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/glmtools/io/glm.py b/glmtools/io/glm.py
index 0c8cdb8..41fa5f0 100644
--- a/glmtools/io/glm.py
+++ b/glmtools/io/glm.py
@@ -61,7 +61,8 @@ def fix_unsigned(data, is_xarray=True):
     dtype = data.encoding['dtype'].str.replace('i', 'u')
     scale_factor = data.encoding['scale_factor']
     add_offset = data.encoding['add_offset']
-    unscale = ((data - add_offset)/scale_factor).data.astype(dtype).astype('float64')
+    unscale = ((data - add_offset)/scale_factor).data.round()
+    unscale = unscale.astype('int64').astype(dtype).astype('float64')
     fixed = unscale * scale_factor + add_offset
     return fixed
 
@@ -98,8 +99,8 @@ def fix_event_locations(event_lats, event_lons, is_xarray=False):
 
     if is_xarray==True:
         # unscale the data
-        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.astype('int32')
-        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.astype('int32')
+        unscale_lat = ((event_lats - lat_fov[0])/scale_factor).data.round().astype('int32')
+        unscale_lon = ((event_lons - lon_fov[0])/scale_factor).data.round().astype('int32')
         event_lats = unscale_lat
         event_lons = unscale_lon
     else: # is NetCDF Variable
-- 
2.43.0


From 389ee2397e5f795a8b6395eda0ce101d5fcae51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:49 +0000
Subject: [PATCH 21/36] fix: aggregate average group area from the group data

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 6f2c4bd..32ac009 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -626,7 +626,7 @@ def aggregate(glm, minutes, start_end=None):
 
 
     sum_data['total_flash_area'] = glm.average_flash_area*glm.flash_extent_density
-    sum_data['total_group_area'] = glm.average_flash_area*glm.flash_extent_density
+    sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
     t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-- 
2.43.0


From 11d0d6567fcee9ce8d0ca9fd2aec50b791e4e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:49 +0000
Subject: [PATCH 22/36] fix: include the frame at the start of each aggregation
 interval

Frames are labeled with their start time, so the intervals are closed on the
left. The first frame was dropped, and the others on an edge were added to the
previous interval.
---
 glmtools/io/imagery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index 32ac009..b3e1b1b 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -629,8 +629,8 @@ def aggregate(glm, minutes, start_end=None):
     sum_data['total_group_area'] = glm.average_group_area*glm.group_extent_density
 
     t_bins = [start + dt*i for i in range(int(duration/dt)+1)]
-    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins)
-    t_groups_min = min_data.groupby_bins('time', bins=t_bins)
+    t_groups_sum = sum_data.groupby_bins('time', bins=t_bins, right=False)
+    t_groups_min = min_data.groupby_bins('time', bins=t_bins, right=False)
 
     aggregated_min = t_groups_min.min(dim='time', keep_attrs=True, skipna=True)
 
-- 
2.43.0


From 1a1e319b8b8531bbdc5262d169cc60d03dcc0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:49 +0000
Subject: [PATCH 23/36] fix: do not change the accumulated grids when writing
 imagery

---
 glmtools/io/imagery.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index b3e1b1b..d212773 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -531,7 +531,9 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         xenc, yenc = dataset.x.encoding, dataset.y.encoding
 
         for i, (grid_allt, field_name, description, units, outformat) in enumerate(file_iter):
-            grid = grid_allt[x_slice,y_slice,ti]
+            # Copy so that the average and minimum allowed value calculations
+            # don't change the accumulated data.
+            grid = grid_allt[x_slice,y_slice,ti].copy()
             if i in self.divide_grids:
                 denom = self.outgrids[self.divide_grids[i]][x_slice,y_slice,ti]
                 zeros = (denom == 0) | (grid == 0)
-- 
2.43.0


From e64a1ab43c7199d6ce3e1b9ac31d4e0b356c8ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 24/36] fix: write imagery to a path without a directory

---
 glmtools/io/imagery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index d212773..f3d593f 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -522,7 +522,7 @@ def write_goes_imagery(gridder, outpath='./{dataset_name}', pad=None, scale_and_
         outfile = outpath.format(start_time=start, end_time=end,
                                  dataset_name=dataset.attrs['dataset_name'])
         enclosing_dir = os.path.dirname(outfile)
-        if os.path.exists(enclosing_dir) == False:
+        if enclosing_dir and (os.path.exists(enclosing_dir) == False):
             os.makedirs(enclosing_dir)
 
         # Adding a new variable to the dataset below clears the coord attrs
-- 
2.43.0


From 3c4a1261ae2abfa0f83a5f6d6b0e2b1f21e43ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 25/36] fix: apply the same output options to every tile

---
 glmtools/grid/make_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 1836557..2cd0355 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -600,8 +600,8 @@ class GLMlutGridder(GLMGridder):
                     output_writer_3d = None,
                     output_filename_prefix = None, output_kwargs={}):
 
-        pad = output_kwargs.pop('pad', None)
-        scale_and_offset = output_kwargs.pop('scale_and_offset', True)
+        pad = output_kwargs.get('pad', None)
+        scale_and_offset = output_kwargs.get('scale_and_offset', True)
 
         from glmtools.io.imagery import write_goes_imagery
         all_outfiles = write_goes_imagery(self, outpath=outpath, pad=pad,
-- 
2.43.0


From 2d70ca1928edcc4fcf01d630298ab33d76144731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 26/36] fix: return the names of imagery files written for each
 tile

---
 glmtools/grid/make_grids.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 2cd0355..3631cc8 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -932,6 +932,8 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # subgrids are handled - avoiding the hacky output preprocessor in
         # all cases.
         outfilenames = preprocess_out.write_all()
+        if len(outfilenames) == 0:
+            outfilenames = output
     else:
         outfilenames = gridder.write_grids(**out_kwargs_ij)
 
-- 
2.43.0


From 39a016a1aa777260ae4e06a58c5e38fb18845701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 27/36] fix: write imagery when none of the files have events

---
 glmtools/grid/make_grids.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index 3631cc8..ede354b 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -897,14 +897,14 @@ def proc_each_grid(subgrid, start_time=None, end_time=None, GLM_filenames=None):
         # Pre-load the whole dataset, as recommended by the xarray docs.
         # This saves an absurd amount of time (factor of 80ish) in
         # grid.split_events.replicate_and_split_events
+        if not saved_first_file_metadata:
+            gridder.first_file_attrs = dict(glm.dataset.attrs)
+            saved_first_file_metadata = True
         if len(glm.dataset.number_of_events) > 0:
             # xarray 0.12.1 (and others?) throws an error when trying to load
             # data from an empty dimension.
             glm.dataset.load()
 
-            if not saved_first_file_metadata:
-                gridder.first_file_attrs = dict(glm.dataset.attrs)
-                saved_first_file_metadata = True
             gridder.process_flashes(glm, **process_flash_kwargs_ij)
         else:
             log.info("Skipping {0} - number of events is 0".format(filename))
-- 
2.43.0


From 5beb2593c05b456710d00ce7723d1e35911769ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 28/36] fix: create pixel lookup when only one coordinate is
 masked

---
 glmtools/io/ccd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/ccd.py b/glmtools/io/ccd.py
index c6a789e..734526d 100644
--- a/glmtools/io/ccd.py
+++ b/glmtools/io/ccd.py
@@ -202,7 +202,7 @@ def create_pixel_lookup(lons, lats, leaf_size=40):
 
     if ((type(lats) == np.ma.core.MaskedArray) |
         (type(lons) == np.ma.core.MaskedArray)):
-        good = ~(lats.mask | lons.mask)
+        good = ~(np.ma.getmaskarray(lats) | np.ma.getmaskarray(lons))
     else:
         # all are assumed good
         good = np.ones_like(lats, dtype=bool)
-- 
2.43.0


From 2670931e4de93094fe4ae40088ed83d58e7c59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:50 +0000
Subject: [PATCH 29/36] fix: set coordinates when converting ASCII data

---
 glmtools/io/convert_lcfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/convert_lcfa.py b/glmtools/io/convert_lcfa.py
index 4fb4ae5..663ec63 100644
--- a/glmtools/io/convert_lcfa.py
+++ b/glmtools/io/convert_lcfa.py
@@ -149,7 +149,7 @@ def merge_dataframes_to_xarray(flashes, groups, events):
     flx = flashes.to_xarray()
     grx = groups.to_xarray()
     egf = evx.merge(grx).merge(flx)
-    egf.set_coords(nc_coords, inplace=True)
+    egf = egf.set_coords(nc_coords)
     return egf
 
 def main(infile, outfile):
-- 
2.43.0


From a59fd0af823ff69168d8adb3906a21135e271d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:51 +0000
Subject: [PATCH 30/36] fix: join polygons that have opposite winding

---
 glmtools/grid/clipping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/glmtools/grid/clipping.py b/glmtools/grid/clipping.py
index a8f6ea4..d303f4a 100644
--- a/glmtools/grid/clipping.py
+++ b/glmtools/grid/clipping.py
@@ -459,6 +459,9 @@ def join_polys(polys, scale=True):
     if scale:
         polys = scale_to_clipper(polys)
 
+    # Overlapping polygons with opposite winding would cancel one another
+    polys = [p if pyclipper.Orientation(p) else p[::-1] for p in polys]
+
     results=[]
     pc.AddPaths(polys, pyclipper.PT_SUBJECT, True)
     clip_polys = pc.Execute(pyclipper.CT_UNION, pyclipper.PFT_NONZERO,
-- 
2.43.0


From 918083b98b3668ab2292eaf2022dbebdcea4cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:36 +0000
Subject: [PATCH 31/36] fix: close the pixel location file after reading it

---
 glmtools/io/ccd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/glmtools/io/ccd.py b/glmtools/io/ccd.py
index 734526d..c34ae51 100644
--- a/glmtools/io/ccd.py
+++ b/glmtools/io/ccd.py
@@ -167,6 +167,7 @@ def read_pixel_location_mat_file(filename, lat_var='mean_lat', lon_var='mean_lon
     lons = getattr(nav.root, lon_var)[:]
     lats = np.ma.masked_array(lats, np.isnan(lats))
     lons = np.ma.masked_array(lons, np.isnan(lons))-360
+    nav.close()
     return lons, lats
 
 def create_pixel_lookup(lons, lats, leaf_size=40):
-- 
2.43.0


From 1f15f4a9f586e2014780aa6a0cac09409d6aefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:33 +0000
Subject: [PATCH 32/36] fix: give the tiles of a subdivided grid their own file
 names

---
 glmtools/grid/make_grids.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/make_grids.py b/glmtools/grid/make_grids.py
index ede354b..c366b9d 100644
--- a/glmtools/grid/make_grids.py
+++ b/glmtools/grid/make_grids.py
@@ -6,7 +6,7 @@ import logging
 log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
 
-import itertools
+import itertools, os
 from functools import partial
 from concurrent.futures import ProcessPoolExecutor
 import numpy as np
@@ -696,6 +696,13 @@ def subdivided_fixed_grid(kwargs, process_flash_kwargs, out_kwargs, s=1,
         outfile_prefix_base_ij += '{0:02d}-{1:02d}'.format(i,j)
         out_kwargs_ij = out_kwargs.copy()
         out_kwargs_ij['output_filename_prefix'] = outfile_prefix_base_ij
+        if (s > 1) and ('clip_events' in process_flash_kwargs):
+            # The prefix isn't used by GLMlutGridder.write_grids, and the names
+            # of the tiles would otherwise be the same.
+            outdir, outname = os.path.split(
+                out_kwargs.get('outpath', './{dataset_name}'))
+            out_kwargs_ij['outpath'] = os.path.join(outdir,
+                '{0:02d}-{1:02d}-'.format(i,j) + outname)
 
         # out_kwargs_ij['output_writer_cache'] = out_kwargs_ij['output_writer']
         preprocess_out = GridOutputPreprocess(
-- 
2.43.0


From f306032f64d4b0f7ed489858f566e764a9c4be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:16 +0000
Subject: [PATCH 33/36] fix: look up GLM files by a datetime instead of an
 array

---
 glmtools/io/mimic_lma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index 9fe48e8..d7cb609 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -1029,7 +1029,7 @@ class GLMncCollection(LMAh5Collection):
         glm = GLMDataset(fname, calculate_parent_child=False)
         # Get the time, using 'seconds' resolution because GLM files are
         # produced on 20 s boundaries (or any number of even seconds)
-        t_start = glm.dataset.product_time.data.astype('M8[s]').astype('O')
+        t_start = glm.dataset.product_time.data.astype('M8[s]').item()
         # In the LMA API, we track the table name in the H5 file that goes
         # with the time. No such thing exists for GLM data.
         self._time_lookup[t_start] = (fname, None)
-- 
2.43.0


From 12c6fba4e3dbd9f37b54b01b619f50b6ae6ac63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:55:04 +0000
Subject: [PATCH 34/36] fix: aggregate series without given start and end times

---
 glmtools/io/imagery.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/glmtools/io/imagery.py b/glmtools/io/imagery.py
index f3d593f..974dc91 100644
--- a/glmtools/io/imagery.py
+++ b/glmtools/io/imagery.py
@@ -603,8 +603,10 @@ def aggregate(glm, minutes, start_end=None):
         start = start_end[0]
         end = start_end[1]
     else:
-        start = pd.Timestamp(glm['time'].min().data).to_pydatetime()
-        end = pd.Timestamp(glm['time'].max().data).to_pydatetime() + dt
+        # Index with an empty tuple because Timestamp needs a scalar, not a
+        # zero-dimensional array.
+        start = pd.Timestamp(glm['time'].min().data[()]).to_pydatetime()
+        end = pd.Timestamp(glm['time'].max().data[()]).to_pydatetime() + dt
         # The lines below might be necessary replacements for a future version
         # start = pd.to_datetime(glm['time'].min().data).to_pydatetime()
         # end = pd.to_datetime(glm['time'].max().data).to_pydatetime() + dt
-- 
2.43.0


From 77cd34b3e5942ba447ce21360ce3a6d845449a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:52:30 +0000
Subject: [PATCH 35/36] fix: plot grids with current cartopy and matplotlib

---
 glmtools/plot/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/glmtools/plot/grid.py b/glmtools/plot/grid.py
index b2cf746..e6bab4d 100644
--- a/glmtools/plot/grid.py
+++ b/glmtools/plot/grid.py
@@ -24,9 +24,9 @@ panel_labels=['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']
 def set_shared_geoaxes(fig):
     mapax =[axi for axi in fig.axes if
             type(axi)==cartopy.mpl.geoaxes.GeoAxesSubplot]
-    # for axi in fig.mapax[1:]:
-    mapax[0].get_shared_x_axes().join(*mapax)
-    mapax[0].get_shared_y_axes().join(*mapax)
+    for axi in mapax[1:]:
+        axi.sharex(mapax[0])
+        axi.sharey(mapax[0])
     return mapax
 
 
@@ -60,7 +60,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         max_format = display_params[f]['format_string']
 
         ax = fig.add_subplot(subplots[0], subplots[1], fi+1, projection=proj)
-        ax.background_patch.set_facecolor(axes_facecolor)
+        ax.patch.set_facecolor(axes_facecolor)
 #         ax.set_aspect('auto', adjustable=None)
 
         ax.coastlines('10m', color=map_color)
@@ -126,7 +126,7 @@ def plot_glm_grid(fig, glm_grids, tidx, fields, subplots=(2,3),
         cbar = plt.colorbar(glm_img, orientation='horizontal', cax=cbar_ax, #aspect=50,
                     format=LogFormatter(base=2), ticks=LogLocator(base=2))
         cbar.outline.set_edgecolor(axes_facecolor)
-        ax.outline_patch.set_edgecolor(axes_facecolor)
+        ax.spines['geo'].set_edgecolor(axes_facecolor)
         cbar.ax.tick_params(direction='in', color=axes_facecolor, which='both',
                             pad=-14, labelsize=10, labelcolor=axes_facecolor)
         cbar_obj.append(cbar)
-- 
2.43.0


From f21974cdfc20a2996b3c778dfd90d2fb124fda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:57:05 +0000
Subject: [PATCH 36/36] fix: conserve the energy of flashes and groups made of
 several parts

The outline of a group or flash may consist of several separate polygons.
Each of those polygons received the whole energy and area of its parent.
They now share them in proportion to their own area.
---
 glmtools/grid/split_events.py | 18 ++++++++++++++++++
 glmtools/io/mimic_lma.py      |  6 +++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/glmtools/grid/split_events.py b/glmtools/grid/split_events.py
index 3711455..a742375 100644
--- a/glmtools/grid/split_events.py
+++ b/glmtools/grid/split_events.py
@@ -84,6 +84,24 @@ def split_event_data(split_polys, poly_areas, slicer, event_ids):
 
     return sub_polys, d
 
+def share_parent_area(split_polys, poly_areas, parent_ids):
+    """
+    Arguments are as for split_event_data, where several of the polygons may
+    have the same parent, e.g., the separate parts of a flash. Returns
+    split_polys and poly_areas with the fractional areas of the sub-polys
+    relative to the total area of all polygons of each parent, instead of the
+    area of only one of its polygons.
+    """
+    parent_areas = {}
+    for area, parent_id in zip(poly_areas, parent_ids):
+        parent_areas[parent_id] = parent_areas.get(parent_id, 0.0) + area
+    total_areas = [parent_areas[parent_id] for parent_id in parent_ids]
+    shared_polys = [
+        (sub_polys, [frac*area/total for frac in frac_areas], idxs)
+        for (sub_polys, frac_areas, idxs), area, total
+        in zip(split_polys, poly_areas, total_areas)]
+    return shared_polys, total_areas
+
 def split_event_dataset_from_props(props, centroid_names=('split_event_lon',
                                                           'split_event_lat')):
     """ props is the numpy array with named dtype returned by split_event_dataset """
diff --git a/glmtools/io/mimic_lma.py b/glmtools/io/mimic_lma.py
index d7cb609..87da0a9 100644
--- a/glmtools/io/mimic_lma.py
+++ b/glmtools/io/mimic_lma.py
@@ -11,7 +11,7 @@ log.addHandler(logging.NullHandler())
 from functools import partial
 
 from glmtools.io.glm import GLMDataset, get_lutevents
-from glmtools.grid.split_events import split_event_data, split_event_dataset_from_props, split_group_dataset_from_props, split_flash_dataset_from_props, replicate_and_weight_split_child_dataset
+from glmtools.grid.split_events import split_event_data, share_parent_area, split_event_dataset_from_props, split_group_dataset_from_props, split_flash_dataset_from_props, replicate_and_weight_split_child_dataset
 from glmtools.grid.clipping import QuadMeshPolySlicer, join_polys
 from glmtools.io.ccd import load_pixel_corner_lookup, quads_from_corner_lookup
 from lmatools.io.LMA_h5_file import LMAh5Collection
@@ -458,6 +458,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
         log.info("Sliced all groups")
+        chopped_union_polys, poly_union_areas = share_parent_area(
+            chopped_union_polys, poly_union_areas, union_group_ids)
         split_group_polys, split_group_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_group_ids)
         if fixed_grid:
@@ -507,6 +509,8 @@ def read_flash_chunk(flash_data, glm=None, target=None, base_date=None, nadir_lo
 
         chopped_union_polys, poly_union_areas = slicer.slice(union_polys, bbox=True)
         log.info("Sliced all flashes")
+        chopped_union_polys, poly_union_areas = share_parent_area(
+            chopped_union_polys, poly_union_areas, union_flash_ids)
         split_flash_polys, split_flash_properties = split_event_data(chopped_union_polys,
             poly_union_areas, slicer, event_ids=union_flash_ids)
         if fixed_grid:
-- 
2.43.0

