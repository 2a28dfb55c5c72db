From 03e5adcafe37e38d47139b5f1c79af2226b213e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 01/15] fix: do not overwrite the data file with XDMF text when
 its name does not end in .h5

The description file name was formed by replacing every ".h5" in the path, so
save("snapshot") or save("out.hdf5") replaced the saved HDF5 file by XML, and a
".h5" in a directory name was rewritten too.
---
 sopht/utils/IO.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2026017..5ca5024 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,9 +1,19 @@
 """Module for Input/Output via HD5 format."""
+import os
+
 import h5py
 
 import numpy as np
 
 
+def _xdmf_file_name(h5_file_name, suffix):
+    """Return name of the XDMF file describing part of the given hdf5 file."""
+    h5_file_name = os.fspath(h5_file_name)
+    if h5_file_name.endswith(".h5"):
+        h5_file_name = h5_file_name[: -len(".h5")]
+    return f"{h5_file_name}_{suffix}.xmf"
+
+
 class IO:
     r"""IO class for field save and load.
 
@@ -512,7 +522,7 @@ class IO:
     </Domain>
 </Xdmf>
 """
-        with open(h5_file_name.replace(".h5", "_eulerian.xmf"), "w") as f:
+        with open(_xdmf_file_name(h5_file_name, "eulerian"), "w") as f:
             f.write(xdmffile)
 
     def generate_xdmf_lagrangian(self, h5_file_name, time):
@@ -548,7 +558,7 @@ class IO:
             return entry
 
         for lagrangian_grid_name in self.lagrangian_grids:
-            xmf_file_name = h5_file_name.replace(".h5", f"_{lagrangian_grid_name}.xmf")
+            xmf_file_name = _xdmf_file_name(h5_file_name, lagrangian_grid_name)
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-- 
2.43.0


From b5a2fd20736b0de43fd65be2e0f0f0fdd0449181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 02/15] fix: make the data references in XDMF files relative to
 the XDMF file

Readers resolve them against the directory of the .xmf file, so saving to
"out/a.h5" produced out/a_eulerian.xmf pointing at out/out/a.h5.
---
 sopht/utils/IO.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 5ca5024..47857cf 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -497,7 +497,9 @@ class IO:
         field_entries = ""
         for field_name in self.eulerian_fields:
             field_type = self.eulerian_fields_type[field_name]
-            field_entries += generate_field_entry(h5_file_name, field_name, field_type)
+            field_entries += generate_field_entry(
+                os.path.basename(h5_file_name), field_name, field_type
+            )
 
         xdmffile = f"""<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
@@ -538,6 +540,8 @@ class IO:
             Time at which the fields are saved.
         """
         geometry_type = "XYZ" if self.dim == 3 else "XY"
+        # references in the XDMF file are relative to its own location
+        h5_file_base_name = os.path.basename(h5_file_name)
 
         def generate_lagrangian_field_entry(
             h5_file_name,
@@ -583,7 +587,7 @@ class IO:
                     )[1:-1]
 
                 field_entries += generate_lagrangian_field_entry(
-                    h5_file_name,
+                    h5_file_base_name,
                     field_name,
                     field_type,
                     field_grid_size_string,
@@ -594,7 +598,7 @@ class IO:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
                 {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Connection
+                    {h5_file_base_name}:/Lagrangian/{lagrangian_grid_name}/Connection
                 </DataItem>
             </Topology>"""
             else:
@@ -611,7 +615,7 @@ class IO:
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
                 NumberType="Float" Precision="{self.precision}" Format="HDF">
-                    {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/Grid
+                    {h5_file_base_name}:/Lagrangian/{lagrangian_grid_name}/Grid
                 </DataItem>
             </Geometry>
 
-- 
2.43.0


From 910e0257c6c89dbeed3764efa93c549802fc43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:04 +0000
Subject: [PATCH 03/15] fix: store Lagrangian vector fields as vectors when
 node count equals dimension

A (dim, N) field with N == dim was taken for a scalar field (and any (N, k)
field was accepted as one), so it was written untransposed under Scalar.
---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 47857cf..47d06e7 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -175,7 +175,7 @@ class IO:
             )
 
             # Assign field types
-            if field.shape[0] == lagrangian_grid.shape[1]:
+            if field.shape == (lagrangian_grid.shape[1],):
                 self.lagrangian_fields_type[field_name] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
                 self.lagrangian_fields_type[field_name] = "Vector"
-- 
2.43.0


From d50038f5a9935c99794c3ae876cef7bced6167b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 04/15] fix: keep Lagrangian fields of the same name on
 different grids apart

---
 sopht/utils/IO.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 47d06e7..047b717 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -52,7 +52,7 @@ class IO:
         self.eulerian_fields = {}
         self.eulerian_fields_type = {}
 
-        # Lagrangian grid
+        # Lagrangian grid, fields are identified by (grid name, field name)
         self.lagrangian_fields = {}
         self.lagrangian_fields_type = {}
         self.lagrangian_grids = {}
@@ -169,16 +169,17 @@ class IO:
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
-            self.lagrangian_fields[field_name] = field
+            field_key = (lagrangian_grid_name, field_name)
+            self.lagrangian_fields[field_key] = field
             self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
                 field_name
             )
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-                self.lagrangian_fields_type[field_name] = "Scalar"
+                self.lagrangian_fields_type[field_key] = "Scalar"
             elif field.shape == lagrangian_grid.shape:
-                self.lagrangian_fields_type[field_name] = "Vector"
+                self.lagrangian_fields_type[field_key] = "Vector"
             else:
                 raise ValueError(
                     f"Unable to identify lagrangian field type "
@@ -292,8 +293,9 @@ class IO:
                 for field_name in self.lagrangian_fields_with_grid_name[
                     lagrangian_grid_name
                 ]:
-                    field = self.lagrangian_fields[field_name]
-                    field_type = self.lagrangian_fields_type[field_name]
+                    field_key = (lagrangian_grid_name, field_name)
+                    field = self.lagrangian_fields[field_key]
+                    field_type = self.lagrangian_fields_type[field_key]
                     if field_type == "Scalar":
                         lagrangian_scalar_grp.create_dataset(field_name, data=field)
                     elif field_type == "Vector":
@@ -394,7 +396,8 @@ class IO:
                     for field_name in self.lagrangian_fields_with_grid_name[
                         lagrangian_grid_name
                     ]:
-                        field_type = self.lagrangian_fields_type[field_name]
+                        field_key = (lagrangian_grid_name, field_name)
+                        field_type = self.lagrangian_fields_type[field_key]
                         if field_type == "Scalar":
                             assert (
                                 f"Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}"
@@ -403,7 +406,7 @@ class IO:
                                 f"Unable to find scalar field {field_name} on "
                                 f"grid {lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = f["Lagrangian"][
+                            self.lagrangian_fields[field_key][...] = f["Lagrangian"][
                                 lagrangian_grid_name
                             ][field_type][field_name][...]
                         elif field_type == "Vector":
@@ -414,7 +417,7 @@ class IO:
                                 f"Unable to find vector field {field_name} on grid "
                                 f"{lagrangian_grid_name} in loaded file!"
                             )
-                            self.lagrangian_fields[field_name][...] = np.moveaxis(
+                            self.lagrangian_fields[field_key][...] = np.moveaxis(
                                 f["Lagrangian"][lagrangian_grid_name][field_type][
                                     field_name
                                 ][...],
@@ -575,7 +578,8 @@ class IO:
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
             ]:
-                field_type = self.lagrangian_fields_type[field_name]
+                field_key = (lagrangian_grid_name, field_name)
+                field_type = self.lagrangian_fields_type[field_key]
 
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
-- 
2.43.0


From 5269296c56210c9d534c79985535483049c26047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 05/15] fix: keep earlier fields when adding more fields to the
 same Lagrangian grid

---
 sopht/utils/IO.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 047b717..3f0a907 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -164,16 +164,18 @@ class IO:
         # Save `lagrangian_grid` with grid name `lagrangian_grid_name` to `lagrangian_grids`
         self.lagrangian_grids[lagrangian_grid_name] = lagrangian_grid
         # Create a list of to store names of fields that lie on
-        # grid with grid name `lagrangian_grid_name`
-        self.lagrangian_fields_with_grid_name[lagrangian_grid_name] = []
+        # grid with grid name `lagrangian_grid_name`, fields added
+        # to the same grid by an earlier call are kept
+        grid_field_names = self.lagrangian_fields_with_grid_name.setdefault(
+            lagrangian_grid_name, []
+        )
         for field_name in fields_for_io:
             # Add each field into local dictionary
             field = fields_for_io[field_name]
             field_key = (lagrangian_grid_name, field_name)
             self.lagrangian_fields[field_key] = field
-            self.lagrangian_fields_with_grid_name[lagrangian_grid_name].append(
-                field_name
-            )
+            if field_name not in grid_field_names:
+                grid_field_names.append(field_name)
 
             # Assign field types
             if field.shape == (lagrangian_grid.shape[1],):
-- 
2.43.0


From d4b133cd15a35cf86cd5aa99e6b1b0a77fa16b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 06/15] fix: never give an unnamed Lagrangian grid a name
 already in use

---
 sopht/utils/IO.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 3f0a907..214a91d 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -153,6 +153,11 @@ class IO:
         ), "Invalid lagrangian grid dimension (only 2D and 3D)"
 
         if lagrangian_grid_name is None:
+            # skip default names that are already taken
+            while f"Lagrangian_grid_{self.lagrangian_grid_count}" in (
+                self.lagrangian_grids
+            ):
+                self.lagrangian_grid_count += 1
             lagrangian_grid_name = f"Lagrangian_grid_{self.lagrangian_grid_count}"
             self.lagrangian_grid_count += 1
 
-- 
2.43.0


From f75ba6c12431f53c4ae897d82dac404f8bf61733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 07/15] fix: do not broadcast a saved Lagrangian grid of
 different size on load

---
 sopht/utils/IO.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 214a91d..43cb59b 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -390,9 +390,17 @@ class IO:
                     assert (
                         f"Lagrangian/{lagrangian_grid_name}/Grid" in keys
                     ), f"Unable to find grid '{lagrangian_grid_name}' in loaded file!"
-                    self.lagrangian_grids[lagrangian_grid_name][...] = np.transpose(
+                    saved_lagrangian_grid = np.transpose(
                         f["Lagrangian"][lagrangian_grid_name]["Grid"][...]
                     )
+                    # assert same shape, since assignment below would broadcast
+                    assert (
+                        saved_lagrangian_grid.shape
+                        == self.lagrangian_grids[lagrangian_grid_name].shape
+                    ), f"Shape of grid '{lagrangian_grid_name}' differs in loaded file!"
+                    self.lagrangian_grids[lagrangian_grid_name][
+                        ...
+                    ] = saved_lagrangian_grid
 
                     if f"Lagrangian/{lagrangian_grid_name}/Connection" in keys:
                         self.lagrangian_grid_connection[lagrangian_grid_name] = f[
-- 
2.43.0


From 1c0542633698bbb29ee90bf83b0419dabf3a0561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:59 +0000
Subject: [PATCH 08/15] fix: load Lagrangian grids that carry no fields

---
 sopht/utils/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 43cb59b..2700027 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -384,7 +384,7 @@ class IO:
                 )
 
             # Load Lagrangian fields
-            if self.lagrangian_fields:
+            if self.lagrangian_grids:
                 # First loop over and load each of the lagrangian grids
                 for lagrangian_grid_name in self.lagrangian_grids:
                     assert (
-- 
2.43.0


From fc27e0865b4b9b504c9b6ddcf13e88ed7689464b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 09/15] fix: penalise boundary zones of width one

---
 .../stencil_ops_2d/penalise_field_boundary_2d.py            | 4 ++--
 .../stencil_ops_3d/penalise_field_boundary_3d.py            | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
index bcc0448..7e68113 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_2d/penalise_field_boundary_2d.py
@@ -131,7 +131,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width] = field[:, (width - 1) : width]
-            field[:, -width:] = field[:, -width : (-width + 1)]
+            field[:, -width:] = field[:, [-width]]
             penalise_field_x_front_boundary_kernel_2d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -142,7 +142,7 @@ def gen_penalise_field_boundary_pyst_kernel_2d(
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :] = field[(width - 1) : width, :]
-            field[-width:, :] = field[-width : (-width + 1), :]
+            field[-width:, :] = field[[-width], :]
             penalise_field_y_front_boundary_kernel_2d(
                 field=field, y_grid_field=y_grid_field
             )
diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
index ad595f5..d066ee0 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/penalise_field_boundary_3d.py
@@ -188,7 +188,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # first along X
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :, :width] = field[:, :, (width - 1) : width]
-            field[:, :, -width:] = field[:, :, -width : (-width + 1)]
+            field[:, :, -width:] = field[:, :, [-width]]
             penalise_field_x_front_boundary_kernel_3d(
                 field=field, x_grid_field=x_grid_field
             )
@@ -199,7 +199,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Y
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:, :width, :] = field[:, (width - 1) : width, :]
-            field[:, -width:, :] = field[:, -width : (-width + 1), :]
+            field[:, -width:, :] = field[:, [-width], :]
             penalise_field_y_front_boundary_kernel_3d(
                 field=field, y_grid_field=y_grid_field
             )
@@ -210,7 +210,7 @@ def gen_penalise_field_boundary_pyst_kernel_3d(  # noqa: C901
             # then along Z
             # these parts involve broadcasting hence couldn't be pystencilized
             field[:width, :, :] = field[(width - 1) : width, :, :]
-            field[-width:, :, :] = field[-width : (-width + 1), :, :]
+            field[-width:, :, :] = field[[-width], :, :]
             penalise_field_z_front_boundary_kernel_3d(
                 field=field, z_grid_field=z_grid_field
             )
-- 
2.43.0


From 28c9ef669e7e95d39adce0126703ed06f61309ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:34 +0000
Subject: [PATCH 10/15] fix: clear the whole Laplacian filter buffer so zero
 order filters nothing

---
 .../stencil_ops_3d/laplacian_filter_3d.py       | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
index afa83d0..995719a 100644
--- a/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/stencil_ops_3d/laplacian_filter_3d.py
@@ -4,7 +4,7 @@ import pystencils as ps
 from sopht.numeric.eulerian_grid_ops.stencil_ops_3d import (
     gen_elementwise_copy_pyst_kernel_3d,
     gen_elementwise_saxpby_pyst_kernel_3d,
-    gen_set_fixed_val_at_boundaries_pyst_kernel_3d,
+    gen_set_fixed_val_pyst_kernel_3d,
 )
 from sopht.utils.pyst_kernel_config import get_pyst_dtype, get_pyst_kernel_config
 from typing import Union, Tuple, Type
@@ -95,13 +95,12 @@ def gen_laplacian_filter_kernel_3d(
     elementwise_saxpby_3d = gen_elementwise_saxpby_pyst_kernel_3d(
         real_t=real_t, num_threads=num_threads, fixed_grid_size=fixed_grid_size
     )
-    # to set boundary zone = 0
-    boundary_width = 1
-    set_fixed_val_at_boundaries_3d = gen_set_fixed_val_at_boundaries_pyst_kernel_3d(
+    # to set buffer = 0, so that its boundary zone stays zero and no content of
+    # earlier calls remains, even when no filter pass follows (zero order)
+    set_fixed_val_3d = gen_set_fixed_val_pyst_kernel_3d(
         real_t=real_t,
-        width=boundary_width,
-        # complexity of this operation is O(N^2), hence setting serial version
-        num_threads=False,
+        num_threads=num_threads,
+        fixed_grid_size=fixed_grid_size,
         field_type="scalar",
     )
 
@@ -109,7 +108,7 @@ def gen_laplacian_filter_kernel_3d(
         """
         Applies multiplicative Laplacian filter on any scalar field.
         """
-        set_fixed_val_at_boundaries_3d(field=filter_flux_buffer, fixed_val=0)
+        set_fixed_val_3d(field=filter_flux_buffer, fixed_val=0)
         elementwise_copy_3d(field=field_buffer, rhs_field=scalar_field)
         for _ in range(filter_order):
             # Laplacian filter in x direction
@@ -134,7 +133,7 @@ def gen_laplacian_filter_kernel_3d(
         """
         Applies convolution Laplacian filter on any scalar field.
         """
-        set_fixed_val_at_boundaries_3d(field=filter_flux_buffer, fixed_val=0)
+        set_fixed_val_3d(field=filter_flux_buffer, fixed_val=0)
 
         # Laplacian filter in x direction
         elementwise_copy_3d(field=field_buffer, rhs_field=scalar_field)
-- 
2.43.0


From 9f746214d02848231014cc217d09fd3266506357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 11/15] fix: scipy FFT helpers invert fields with an odd last
 dimension

---
 .../eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py       | 4 +++-
 .../eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
index 6da5ece..1f8ea19 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_2d/scipy_fft_2d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_2d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
diff --git a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
index b682f2e..a18e24a 100644
--- a/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
+++ b/sopht/numeric/eulerian_grid_ops/poisson_solver_3d/scipy_fft_3d.py
@@ -7,4 +7,6 @@ def fft_ifft_via_scipy_kernel_3d(
 ):
     """Perform reference FFT operations via scipy."""
     fourier_field[...] = rfftn(field, workers=num_threads)
-    inv_fourier_field[...] = irfftn(fourier_field, workers=num_threads)
+    inv_fourier_field[...] = irfftn(
+        fourier_field, s=field.shape, workers=num_threads
+    )
-- 
2.43.0


From 6a9bfb5d93e04471007eb314dba6f9e277af6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 12/15] fix: XDMF origin and spacing state the number of values
 they hold in 2D

---
 sopht/utils/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 2700027..0818afd 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -527,11 +527,11 @@ class IO:
             <Time Value="{time}"/>
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
-                <DataItem Name="Origin" Dimensions="{self.dim}"
+                <DataItem Name="Origin" Dimensions="{len(origin)}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {origin_string}
                 </DataItem>
-                <DataItem Name="Spacing" Dimensions="{self.dim}"
+                <DataItem Name="Spacing" Dimensions="{len(dx)}"
                 NumberType="Float" Precision="{self.precision}" Format="XML">
                     {dx_string}
                 </DataItem>
-- 
2.43.0


From 79ec571640f4447ef1b5768c303ca936add43df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:33 +0000
Subject: [PATCH 13/15] fix: XDMF descriptions escape special characters in
 names

---
 sopht/utils/IO.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 0818afd..90c0741 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -1,5 +1,6 @@
 """Module for Input/Output via HD5 format."""
 import os
+from xml.sax.saxutils import escape
 
 import h5py
 
@@ -14,6 +15,11 @@ def _xdmf_file_name(h5_file_name, suffix):
     return f"{h5_file_name}_{suffix}.xmf"
 
 
+def _xml(name):
+    """Return name as it has to be written in the XDMF file."""
+    return escape(str(name), {'"': "&quot;"})
+
+
 class IO:
     r"""IO class for field save and load.
 
@@ -516,7 +522,7 @@ class IO:
         for field_name in self.eulerian_fields:
             field_type = self.eulerian_fields_type[field_name]
             field_entries += generate_field_entry(
-                os.path.basename(h5_file_name), field_name, field_type
+                _xml(os.path.basename(h5_file_name)), _xml(field_name), field_type
             )
 
         xdmffile = f"""<?xml version="1.0" ?>
@@ -559,7 +565,7 @@ class IO:
         """
         geometry_type = "XYZ" if self.dim == 3 else "XY"
         # references in the XDMF file are relative to its own location
-        h5_file_base_name = os.path.basename(h5_file_name)
+        h5_file_base_name = _xml(os.path.basename(h5_file_name))
 
         def generate_lagrangian_field_entry(
             h5_file_name,
@@ -607,17 +613,17 @@ class IO:
 
                 field_entries += generate_lagrangian_field_entry(
                     h5_file_base_name,
-                    field_name,
+                    _xml(field_name),
                     field_type,
                     field_grid_size_string,
-                    lagrangian_grid_name=lagrangian_grid_name,
+                    lagrangian_grid_name=_xml(lagrangian_grid_name),
                 )
 
             if lagrangian_grid_name in self.lagrangian_grid_connection:
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
                 {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
-                    {h5_file_base_name}:/Lagrangian/{lagrangian_grid_name}/Connection
+                    {h5_file_base_name}:/Lagrangian/{_xml(lagrangian_grid_name)}/Connection
                 </DataItem>
             </Topology>"""
             else:
@@ -634,7 +640,7 @@ class IO:
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
                 NumberType="Float" Precision="{self.precision}" Format="HDF">
-                    {h5_file_base_name}:/Lagrangian/{lagrangian_grid_name}/Grid
+                    {h5_file_base_name}:/Lagrangian/{_xml(lagrangian_grid_name)}/Grid
                 </DataItem>
             </Geometry>
 
-- 
2.43.0


From 7983e59b6e6c8a0affb343a49e1c40e5e6b53aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 14/15] fix: XDMF descriptions state the byte size of their
 data items

---
 sopht/utils/IO.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 90c0741..6569a49 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -51,6 +51,8 @@ class IO:
         assert self.dim == 2 or self.dim == 3, "Invalid dimension (only 2D and 3D)"
         self.real_dtype = real_dtype
         self.precision = 8 if real_dtype is np.float32 else 16
+        # XDMF states the precision of data items in bytes
+        self.xdmf_precision = np.dtype(real_dtype).itemsize
 
         # Initialize dictionaries for fields for IO and their
         # corresponding field_type ('Scalar' or 'Vector') Eulerian grid
@@ -498,7 +500,7 @@ class IO:
                 entry = f"""<Attribute Name="{field_name}" Active="1"
                 AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}"
-                    NumberType="Float" Precision="{self.precision}" Format="HDF">
+                    NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}
                     </DataItem>
                 </Attribute>
@@ -510,7 +512,7 @@ class IO:
                     entry += f"""<Attribute Name="{field_name}_{idx_dim}"
                     Active="1" AttributeType="Scalar" Center="Node">
                     <DataItem Dimensions="{grid_size_string}" NumberType="Float"
-                    Precision="{self.precision}" Format="HDF">
+                    Precision="{self.xdmf_precision}" Format="HDF">
                         {file_name}:/Eulerian/{field_type}/{field_name}_{idx_dim}
                     </DataItem>
                 </Attribute>
@@ -534,11 +536,11 @@ class IO:
             <Topology TopologyType="{topology_type}" Dimensions="{grid_size_string}"/>
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Name="Origin" Dimensions="{len(origin)}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {origin_string}
                 </DataItem>
                 <DataItem Name="Spacing" Dimensions="{len(dx)}"
-                NumberType="Float" Precision="{self.precision}" Format="XML">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="XML">
                     {dx_string}
                 </DataItem>
             </Geometry>
@@ -577,7 +579,7 @@ class IO:
             entry = f"""<Attribute Name="{field_name}" Active="1"
             AttributeType="{field_type}" Center="Node">
                 <DataItem Dimensions="{field_grid_size}" NumberType="Float"
-                Precision="{self.precision}" Format="HDF">
+                Precision="{self.xdmf_precision}" Format="HDF">
                     {h5_file_name}:/Lagrangian/{lagrangian_grid_name}/{field_type}/{field_name}
                 </DataItem>
             </Attribute>
@@ -620,9 +622,11 @@ class IO:
                 )
 
             if lagrangian_grid_name in self.lagrangian_grid_connection:
+                connection = self.lagrangian_grid_connection[lagrangian_grid_name]
                 topology = f"""<Topology TopologyType="Polyline">
                 <DataItem DataType="Int" Dimensions="1
-                {lagrangian_grid_size[0]}" Format="HDF" Precision="{self.precision}">
+                {lagrangian_grid_size[0]}" Format="HDF"
+                Precision="{connection.dtype.itemsize}">
                     {h5_file_base_name}:/Lagrangian/{_xml(lagrangian_grid_name)}/Connection
                 </DataItem>
             </Topology>"""
@@ -639,7 +643,7 @@ class IO:
             {topology}
             <Geometry GeometryType="{geometry_type}">
                 <DataItem Dimensions="{lagrangian_grid_size_string}"
-                NumberType="Float" Precision="{self.precision}" Format="HDF">
+                NumberType="Float" Precision="{self.xdmf_precision}" Format="HDF">
                     {h5_file_base_name}:/Lagrangian/{_xml(lagrangian_grid_name)}/Grid
                 </DataItem>
             </Geometry>
-- 
2.43.0


From 98592f6e89d7b406b52f38beccc5826adcce53dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 15/15] fix: XDMF origin and spacing do not depend on numpy's
 print options

---
 sopht/utils/IO.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/sopht/utils/IO.py b/sopht/utils/IO.py
index 6569a49..dd344b8 100644
--- a/sopht/utils/IO.py
+++ b/sopht/utils/IO.py
@@ -15,6 +15,11 @@ def _xdmf_file_name(h5_file_name, suffix):
     return f"{h5_file_name}_{suffix}.xmf"
 
 
+def _xdmf_values(values):
+    """Return values as written in the XDMF file, whatever the numpy print options."""
+    return "    ".join(repr(value) for value in values.tolist())
+
+
 def _xml(name):
     """Return name as it has to be written in the XDMF file."""
     return escape(str(name), {'"': "&quot;"})
@@ -485,15 +490,9 @@ class IO:
         )
         dx = self.eulerian_dx if self.dim == 3 else np.insert(self.eulerian_dx, 0, 0.0)
 
-        grid_size_string = np.array2string(
-            grid_size, precision=self.precision, separator="    "
-        )[1:-1]
-        origin_string = np.array2string(
-            origin, precision=self.precision, separator="    "
-        )[1:-1]
-        dx_string = np.array2string(dx, precision=self.precision, separator="    ")[
-            1:-1
-        ]
+        grid_size_string = _xdmf_values(grid_size)
+        origin_string = _xdmf_values(origin)
+        dx_string = _xdmf_values(dx)
 
         def generate_field_entry(file_name, field_name, field_type):
             if field_type == "Scalar":
@@ -592,11 +591,7 @@ class IO:
             field_entries = ""
             lagrangian_grid = self.lagrangian_grids[lagrangian_grid_name]
             lagrangian_grid_size = np.flip(np.array(lagrangian_grid.shape))
-            lagrangian_grid_size_string = np.array2string(
-                lagrangian_grid_size,
-                precision=self.precision,
-                separator="    ",
-            )[1:-1]
+            lagrangian_grid_size_string = _xdmf_values(lagrangian_grid_size)
 
             for field_name in self.lagrangian_fields_with_grid_name[
                 lagrangian_grid_name
@@ -607,11 +602,7 @@ class IO:
                 if field_type == "Scalar":
                     field_grid_size_string = lagrangian_grid_size[0]
                 elif field_type == "Vector":
-                    field_grid_size_string = np.array2string(
-                        lagrangian_grid_size,
-                        precision=self.precision,
-                        separator="    ",
-                    )[1:-1]
+                    field_grid_size_string = lagrangian_grid_size_string
 
                 field_entries += generate_lagrangian_field_entry(
                     h5_file_base_name,
-- 
2.43.0

