From cf4206ddff8cceb6564e61050420238a687e0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:32 +0000
Subject: [PATCH 01/89] fix: reverse the mask together with the values when
 importing decreasing axes

---
 IMTreatment/core/scalarfield.py | 2 ++
 IMTreatment/core/vectorfield.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 541c3f5..e81a011 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -503,9 +503,11 @@ class ScalarField(fld.Field):
         if axe_x[0] > axe_x[-1]:
             axe_x = axe_x[::-1]
             values = values[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             values = values[:, ::-1]
+            mask = mask[:, ::-1]
         # storing datas
         self.axe_x = axe_x
         self.axe_y = axe_y
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index f567e4e..78f86f2 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -557,10 +557,12 @@ class VectorField(field.Field):
             axe_x = axe_x[::-1]
             comp_x = comp_x[::-1]
             comp_y = comp_y[::-1]
+            mask = mask[::-1]
         if axe_y[0] > axe_y[-1]:
             axe_y = axe_y[::-1]
             comp_x = comp_x[:, ::-1]
             comp_y = comp_y[:, ::-1]
+            mask = mask[:, ::-1]
         # Store data
         self.axe_x = axe_x
         self.axe_y = axe_y
-- 
2.43.0


From 579634da163a8dc216ba533dd1d2743de0d27cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:01 +0000
Subject: [PATCH 02/89] fix: rotate also the position of a field reduced to a
 single column or row

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 2e7c8d7..7f73a8c 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -416,9 +416,9 @@ class Field(object):
         else:
             raise Exception()
         # correction non-crescent axis
-        if tmp_field.axe_x[-1] < tmp_field.axe_x[0]:
+        if angle in [90, 180]:
             tmp_field.__axe_x = -tmp_field.axe_x
-        if tmp_field.axe_y[-1] < tmp_field.axe_y[0]:
+        if angle in [180, 270]:
             tmp_field.__axe_y = -tmp_field.axe_y
         # returning
         if not inplace:
-- 
2.43.0


From 2e0911213e595b981f384bf81f45e17d220f4bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:58 +0000
Subject: [PATCH 03/89] fix: reverse the mask with the components when scaling
 a vector field by a negative factor

---
 IMTreatment/core/vectorfield.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 78f86f2..4aa7dfe 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -732,12 +732,15 @@ class VectorField(field.Field):
         if revx and revy:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[::-1, ::-1]
+            tmp_f.__mask = tmp_f.mask[::-1, ::-1].copy()
         elif revx:
             tmp_f.comp_x = -tmp_f.comp_x[::-1, :]
             tmp_f.comp_y = tmp_f.comp_y[::-1, :]
+            tmp_f.__mask = tmp_f.mask[::-1, :].copy()
         elif revy:
             tmp_f.comp_x = tmp_f.comp_x[:, ::-1]
             tmp_f.comp_y = -tmp_f.comp_y[:, ::-1]
+            tmp_f.__mask = tmp_f.mask[:, ::-1].copy()
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From bcedab1c0684934676dfccbfee69c82a78dfb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:06 +0000
Subject: [PATCH 04/89] fix: accept single-column and single-row grids in
 import_from_arrays

---
 IMTreatment/core/scalarfield.py | 4 ++--
 IMTreatment/core/vectorfield.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index e81a011..2bfd6a0 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -485,8 +485,8 @@ class ScalarField(fld.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 4aa7dfe..758759d 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -537,8 +537,8 @@ class VectorField(field.Field):
         delta_y = axe_y[1:] - axe_y[:-1]
         epsx_abs = delta_x*1e-6
         epsy_abs = delta_y*1e-6
-        if np.any(delta_y - delta_y[0] > epsy_abs) or \
-           np.any(delta_x - delta_x[0] > epsx_abs):
+        if np.any(delta_y - delta_y[:1] > epsy_abs) or \
+           np.any(delta_x - delta_x[:1] > epsx_abs):
             warnings.warn("Axis are not evenly spaced.\n"
                           "Consider using 'make_evenly_spaced' method"
                           " to avoid bad surprises.")
-- 
2.43.0


From dcc7f0d72ae0b83b50ceeaba7b21b8c391762877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:21 +0000
Subject: [PATCH 05/89] fix: ScalarField times a quantity of another prefix
 keeps a pure unit

---
 IMTreatment/core/scalarfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2bfd6a0..2e19dc9 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -250,8 +250,10 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values *= obj.asNumber()
-            tmpsf.unit_values *= obj/obj.asNumber()
+            unit_values = tmpsf.unit_values * obj
+            tmpsf.values *= unit_values.asNumber()
+            unit_values /= unit_values.asNumber()
+            tmpsf.unit_values = unit_values
             tmpsf.mask = self.mask
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
-- 
2.43.0


From e2fe8a4e516e4bcda0eaa48911df7e58d8b1296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:45 +0000
Subject: [PATCH 06/89] fix: reject a value unit with a numeric part below one

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 2e19dc9..13830d8 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -392,7 +392,7 @@ class ScalarField(fld.Field):
     @unit_values.setter
     def unit_values(self, new_unit_values):
         if isinstance(new_unit_values, unum.Unum):
-            if (new_unit_values.asNumber() - 1.) < 1e-10:
+            if abs(new_unit_values.asNumber() - 1.) < 1e-10:
                 self.__unit_values = new_unit_values
             else:
                 raise ValueError()
-- 
2.43.0


From 1b54f378113e44c52f664ab077eeb9c8340a3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:51 +0000
Subject: [PATCH 07/89] fix: adding fields takes axis units and the node at
 zero into account

---
 IMTreatment/core/scalarfield.py | 25 +++++++++++++++++--------
 IMTreatment/core/vectorfield.py | 22 ++++++++++++++--------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 13830d8..9428e7d 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -87,9 +87,18 @@ class ScalarField(fld.Field):
                 self.unit_y + otherone.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            # express the axes of the other field in the units of this one
+            axe_xo = otherone.axe_x*(otherone.unit_x/self.unit_x).asNumber()
+            axe_yo = otherone.axe_y*(otherone.unit_y/self.unit_y).asNumber()
+
+            def is_in(val, axe):
+                return np.any(np.abs(axe - val) <= np.abs(val)*1e-9)
             # identical shape and axis
-            if np.all(self.axe_x == otherone.axe_x) and \
-                    np.all(self.axe_y == otherone.axe_y):
+            if self.shape == otherone.shape and \
+                    np.all(np.abs(self.axe_x - axe_xo) <=
+                           np.abs(self.axe_x)*1e-9) and \
+                    np.all(np.abs(self.axe_y - axe_yo) <=
+                           np.abs(self.axe_y)*1e-9):
                 tmpsf = self.copy()
                 fact = otherone.unit_values/self.unit_values
                 tmpsf.values += np.array(otherone.values*fact.asNumber(),
@@ -98,14 +107,14 @@ class ScalarField(fld.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([val in otherone.axe_x
+                new_ind_x = np.array([is_in(val, axe_xo)
                                       for val in self.axe_x])
-                new_ind_y = np.array([val in otherone.axe_y
+                new_ind_y = np.array([is_in(val, axe_yo)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([val in self.axe_x
-                                       for val in otherone.axe_x])
-                new_ind_yo = np.array([val in self.axe_y
-                                       for val in otherone.axe_y])
+                new_ind_xo = np.array([is_in(val, self.axe_x)
+                                       for val in axe_xo])
+                new_ind_yo = np.array([is_in(val, self.axe_y)
+                                       for val in axe_yo])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
                 new_ind_Y, new_ind_X = np.meshgrid(new_ind_y, new_ind_x)
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 758759d..ba9618c 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -64,9 +64,15 @@ class VectorField(field.Field):
                 self.unit_y + other.unit_y
             except:
                 raise ValueError("I think these units don't match, fox")
+            # express the axes of the other field in the units of this one
+            axe_xo = other.axe_x*(other.unit_x/self.unit_x).asNumber()
+            axe_yo = other.axe_y*(other.unit_y/self.unit_y).asNumber()
             # identical shape and axis
-            if np.all(self.axe_x == other.axe_x) and \
-                    np.all(self.axe_y == other.axe_y):
+            if self.shape == other.shape and \
+                    np.all(np.abs(self.axe_x - axe_xo) <=
+                           np.abs(self.axe_x)*1e-9) and \
+                    np.all(np.abs(self.axe_y - axe_yo) <=
+                           np.abs(self.axe_y)*1e-9):
                 tmpvf = self.copy()
                 fact = (other.unit_values/self.unit_values).asNumber()
                 tmpvf.comp_x = self.comp_x + other.comp_x*fact
@@ -76,18 +82,18 @@ class VectorField(field.Field):
             # different shape, partially same axis
             else:
                 # getting shared points
-                new_ind_x = np.array([np.any(np.abs(val - other.axe_x) <
+                new_ind_x = np.array([np.any(np.abs(val - axe_xo) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_x])
-                new_ind_y = np.array([np.any(np.abs(val - other.axe_y) <
+                new_ind_y = np.array([np.any(np.abs(val - axe_yo) <=
                                       np.abs(val)*1e-4)
                                       for val in self.axe_y])
-                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <
+                new_ind_xo = np.array([np.any(np.abs(val - self.axe_x) <=
                                        np.abs(val)*1e-4)
-                                       for val in other.axe_x])
-                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <
+                                       for val in axe_xo])
+                new_ind_yo = np.array([np.any(np.abs(val - self.axe_y) <=
                                        np.abs(val)*1e-4)
-                                       for val in other.axe_y])
+                                       for val in axe_yo])
                 if not np.any(new_ind_x) or not np.any(new_ind_y):
                     raise ValueError("Incompatible shapes")
                 new_ind_Y, new_ind_X = np.meshgrid(new_ind_y, new_ind_x)
-- 
2.43.0


From 6e81729f70ab06cac407e82671149d2d77e68fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:06 +0000
Subject: [PATCH 08/89] fix: reject adding a quantity of an incompatible unit
 to a vector field

---
 IMTreatment/core/vectorfield.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index ba9618c..a09826f 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -144,6 +144,11 @@ class VectorField(field.Field):
             else:
                 raise ValueError()
         elif isinstance(other, unum.Unum):
+            try:
+                self.unit_values + other
+            except:
+                raise ValueError("Given number have to be consistent with"
+                                 "the vector field (same units)")
             tmpvf = self.copy()
             fact = (other / self.unit_values).asNumber()
             tmpvf.comp_x = self.comp_x + fact
-- 
2.43.0


From 1efabfd5af01d45e514eb1d85fe38e8d38bef681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:20 +0000
Subject: [PATCH 09/89] fix: vector field times scalar field multiplies the
 units and checks the grid

---
 IMTreatment/core/vectorfield.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index a09826f..eb87fe9 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -239,11 +239,17 @@ class VectorField(field.Field):
             tmpvf.mask = self.mask
             return tmpvf
         elif isinstance(other, sf.ScalarField):
-            if other.shape != self.shape:
-                raise ValueError()
+            if np.any(self.axe_x != other.axe_x)\
+                    or np.any(self.axe_y != other.axe_y)\
+                    or self.unit_x != other.unit_x\
+                    or self.unit_y != other.unit_y:
+                raise ValueError("Fields are not consistent")
             tmpvf = self.copy()
-            tmpvf.comp_x *= other.values
-            tmpvf.comp_y *= other.values
+            new_unit = tmpvf.unit_values*other.unit_values
+            scale = new_unit.asNumber()
+            tmpvf.comp_x *= other.values*scale
+            tmpvf.comp_y *= other.values*scale
+            tmpvf.unit_values = new_unit/scale
             tmpvf.mask = np.logical_or(other.mask, self.mask)
             return tmpvf
         else:
-- 
2.43.0


From af5f33752a9a5f711e05e5c9f2f20eae81706413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:33 +0000
Subject: [PATCH 10/89] fix: array or quantity divided by a scalar field: mask
 null divisors, invert the unit

---
 IMTreatment/core/scalarfield.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 9428e7d..d879e9c 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -220,18 +220,20 @@ class ScalarField(fld.Field):
             return tmpsf
         elif isinstance(obj, unum.Unum):
             tmpsf = self.copy()
-            tmpsf.values = obj.asNumber()/tmpsf.values
-            tmpsf.unit_values = obj/obj.asNumber()/tmpsf.unit_values
+            unit_values = obj/tmpsf.unit_values
+            tmpsf.values = unit_values.asNumber()/tmpsf.values
+            tmpsf.unit_values = unit_values/unit_values.asNumber()
             return tmpsf
         elif isinstance(obj, ARRAYTYPES):
             obj = np.array(obj, subok=True)
             if not obj.shape == self.shape:
                 raise ValueError()
             tmpsf = self.copy()
-            mask = np.logical_or(self.mask, obj == 0)
+            mask = np.logical_or(self.mask, self.values == 0)
             not_mask = np.logical_not(mask)
             tmpsf.values[not_mask] = obj[not_mask] / tmpsf.values[not_mask]
             tmpsf.mask = mask
+            tmpsf.unit_values = 1/tmpsf.unit_values
             return tmpsf
         elif isinstance(obj, ScalarField):
             if np.any(self.axe_x != obj.axe_x)\
-- 
2.43.0


From 95c85994506d536b83cba373f6b6bcaf338bb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:32 +0000
Subject: [PATCH 11/89] fix: cropped fields and assigned values or masks share
 no data with their source

---
 IMTreatment/core/field.py       |  4 ++--
 IMTreatment/core/scalarfield.py | 12 ++++++------
 IMTreatment/core/vectorfield.py | 12 ++++++------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 7f73a8c..17b1d90 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -568,8 +568,8 @@ class Field(object):
                 return indmin_x, indmax_x, indmin_y, indmax_y
         else:
             cropfield = self.copy()
-            cropfield.__axe_x = self.axe_x[indmin_x:indmax_x + 1]
-            cropfield.__axe_y = self.axe_y[indmin_y:indmax_y + 1]
+            cropfield.__axe_x = cropfield.axe_x[indmin_x:indmax_x + 1]
+            cropfield.__axe_y = cropfield.axe_y[indmin_y:indmax_y + 1]
             if full_output:
                 return indmin_x, indmax_x, indmin_y, indmax_y, cropfield
             else:
diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index d879e9c..7ad1a78 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -341,7 +341,7 @@ class ScalarField(fld.Field):
     def values(self, new_values):
         if not isinstance(new_values, ARRAYTYPES):
             raise TypeError()
-        new_values = np.asarray(new_values)
+        new_values = np.array(new_values)
         if self.shape == new_values.shape:
             # adapting mask to 'nan' values
             self.__mask = np.isnan(new_values)
@@ -368,7 +368,7 @@ class ScalarField(fld.Field):
             new_mask = np.empty(self.shape, dtype=bool)
             new_mask.fill(fill_value)
         elif isinstance(new_mask, ARRAYTYPES):
-            new_mask = np.asarray(new_mask, dtype=bool)
+            new_mask = np.array(new_mask, dtype=bool)
         else:
             raise TypeError("'mask' should be an array or a boolean,"
                             " not a {}".format(type(new_mask)))
@@ -1426,10 +1426,10 @@ class ScalarField(fld.Field):
             indmin_x, indmax_x, indmin_y, indmax_y, cropfield = \
                 fld.Field.crop(self, intervx=intervx, intervy=intervy,
                                full_output=True, ind=ind, inplace=False)
-            cropfield.__values = self.values[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
-            cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+            cropfield.__values = cropfield.values[indmin_x:indmax_x + 1,
+                                                  indmin_y:indmax_y + 1]
+            cropfield.__mask = cropfield.mask[indmin_x:indmax_x + 1,
+                                              indmin_y:indmax_y + 1]
             return cropfield
 
     def extend(self, nmb_left=0, nmb_right=0, nmb_up=0, nmb_down=0, value=None,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index eb87fe9..6bb7767 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1018,12 +1018,12 @@ class VectorField(field.Field):
             indmin_x, indmax_x, indmin_y, indmax_y, cropfield = \
                 field.Field.crop(self, intervx=intervx, intervy=intervy,
                                  full_output=True, ind=ind)
-            cropfield.__comp_x = self.comp_x[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
-            cropfield.__comp_y = self.comp_y[indmin_x:indmax_x + 1,
-                                             indmin_y:indmax_y + 1]
-            cropfield.__mask = self.mask[indmin_x:indmax_x + 1,
-                                         indmin_y:indmax_y + 1]
+            cropfield.__comp_x = cropfield.comp_x[indmin_x:indmax_x + 1,
+                                                  indmin_y:indmax_y + 1]
+            cropfield.__comp_y = cropfield.comp_y[indmin_x:indmax_x + 1,
+                                                  indmin_y:indmax_y + 1]
+            cropfield.__mask = cropfield.mask[indmin_x:indmax_x + 1,
+                                              indmin_y:indmax_y + 1]
             return cropfield
 
     def crop_masked_border(self, hard=False, inplace=False):
-- 
2.43.0


From 7abd0c8579143eaf9f5cf3f0aa5bca59d14a5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:48 +0000
Subject: [PATCH 12/89] fix: cropping by indices accepts the first row or
 column alone

---
 IMTreatment/core/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 17b1d90..8cb4030 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -527,8 +527,8 @@ class Field(object):
             raise ValueError("'intervy' values must be crescent")
         # checking crooping windows
         if ind:
-            if intervx[0] < 0 or intervx[1] == 0 or \
-                    intervy[0] < 0 or intervy[1] == 0:
+            if intervx[0] < 0 or intervx[1] < 0 or \
+                    intervy[0] < 0 or intervy[1] < 0:
                 raise ValueError("Invalid cropping window")
         else:
             if np.all(intervx < axe_x[0]) or np.all(intervx > axe_x[-1])\
-- 
2.43.0


From 6e6cad0101bec55e545f5b2bdbc8eda39dce1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:01 +0000
Subject: [PATCH 13/89] fix: crop_masked_border returns a field also when
 nothing is masked

---
 IMTreatment/core/scalarfield.py | 2 +-
 IMTreatment/core/vectorfield.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 7ad1a78..23b90cd 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1756,7 +1756,7 @@ class ScalarField(fld.Field):
         # checking masked values presence
         mask = tmp_vf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_vf
         # hard cropping
         if hard:
             # remove trivial borders
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 6bb7767..18b18cf 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1043,7 +1043,7 @@ class VectorField(field.Field):
         # checking masked values presence
         mask = tmp_sf.mask
         if not np.any(mask):
-            return None
+            return None if inplace else tmp_sf
         # hard cropping
         if hard:
             # remove trivial borders
@@ -1065,7 +1065,7 @@ class VectorField(field.Field):
                     len_x = len(tmp_sf.axe_x)
                     tmp_sf.crop(intervx=[0, len_x - 2], ind=True, inplace=True)
                 elif more_masked == 2:
-                    len_y = len(self.axe_y)
+                    len_y = len(tmp_sf.axe_y)
                     tmp_sf.crop(intervy=[1, len_y], ind=True,
                                 inplace=True)
                 elif more_masked == 3:
-- 
2.43.0


From 4f5fe205305c7dc3bfb5e43ca97e590778209b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:43 +0000
Subject: [PATCH 14/89] fix: ScalarField.extend out of place raised NameError

---
 IMTreatment/core/scalarfield.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 23b90cd..77bc4a8 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1505,9 +1505,9 @@ class ScalarField(fld.Field):
                                     unit_y=tmpsf.unit_y,
                                     unit_values=tmpsf.unit_values)
         else:
-            new_field.values = new_values
-            new_field.mask = new_mask
-            return new_field
+            tmpsf.values = new_values
+            tmpsf.mask = new_mask
+            return tmpsf
 
     def mirroring(self, direction, position, inds_to_mirror='all',
                   mir_coef=1, interp=None, value=0, inplace=False):
-- 
2.43.0


From 6c9ef708c22757b55ac7232f1190400dfa057236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:57 +0000
Subject: [PATCH 15/89] fix: extending a field adds exactly the requested
 number of columns and rows whatever the rounding

---
 IMTreatment/core/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/field.py b/IMTreatment/core/field.py
index 8cb4030..b94d5a0 100644
--- a/IMTreatment/core/field.py
+++ b/IMTreatment/core/field.py
@@ -597,22 +597,22 @@ class Field(object):
         if nmb_left != 0:
             dx = self.axe_x[1] - self.axe_x[0]
             x0 = self.axe_x[0]
-            new_xs = np.arange(x0-dx*nmb_left, x0, dx)
+            new_xs = x0 - dx*np.arange(nmb_left, 0, -1)
             new_axe_x = np.concatenate((new_xs, new_axe_x))
         if nmb_right != 0:
             dx = self.axe_x[-1] - self.axe_x[-2]
             x0 = self.axe_x[-1]
-            new_xs = np.arange(x0 + dx, x0+dx*(nmb_right + 1), dx)
+            new_xs = x0 + dx*np.arange(1, nmb_right + 1)
             new_axe_x = np.concatenate((new_axe_x, new_xs))
         if nmb_down != 0:
             dy = self.axe_y[1] - self.axe_y[0]
             y0 = self.axe_y[0]
-            new_ys = np.arange(y0-dy*nmb_down, y0, dy)
+            new_ys = y0 - dy*np.arange(nmb_down, 0, -1)
             new_axe_y = np.concatenate((new_ys, new_axe_y))
         if nmb_up != 0:
             dy = self.axe_y[-1] - self.axe_y[-2]
             y0 = self.axe_y[-1]
-            new_ys = np.arange(y0 + dy, y0+dy*(nmb_up + 1), dy)
+            new_ys = y0 + dy*np.arange(1, nmb_up + 1)
             new_axe_y = np.concatenate((new_axe_y, new_ys))
         if inplace:
             self.__axe_x = new_axe_x
-- 
2.43.0


From 396b1838e1870e244785799415c3130a9852ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:11 +0000
Subject: [PATCH 16/89] fix: filling out of place leaves the original field as
 it was

---
 IMTreatment/core/scalarfield.py | 8 ++++++--
 IMTreatment/core/vectorfield.py | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 77bc4a8..de61265 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1833,11 +1833,15 @@ class ScalarField(fld.Field):
             raise TypeError("'kind' must be a string")
         if not isinstance(value, NUMBERTYPES):
             raise TypeError("'value' must be a number")
-        if crop:
+        if crop and not inplace:
+            tmp_sf = self.crop_masked_border(hard=False, inplace=False)
+            return tmp_sf.fill(kind=kind, value=value, inplace=False,
+                               reduce_tri=reduce_tri, crop=False)
+        elif crop:
             self.crop_masked_border(hard=False, inplace=True)
         # getting data
         x, y = self.axe_x, self.axe_y
-        values = self.values
+        values = self.values.copy()
         mask = self.mask
         if kind in ['nearest', 'linear', 'cubic']:
             X, Y = np.meshgrid(x, y, indexing='ij')
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 18b18cf..6c48790 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -963,7 +963,11 @@ class VectorField(field.Field):
         value = np.array(value)
         if not value.shape == (2,):
             raise ValueError()
-        if crop:
+        if crop and not inplace:
+            tmp_vf = self.crop_masked_border(hard=False, inplace=False)
+            return tmp_vf.fill(kind=kind, value=value, inplace=False,
+                               reduce_tri=reduce_tri, crop=False)
+        elif crop:
             self.crop_masked_border(hard=False, inplace=True)
         # filling components
         comp_x = self.comp_x_as_sf
-- 
2.43.0


From 2df659ff607864eb1853aa4c9ba5c056df2aa28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:41 +0000
Subject: [PATCH 17/89] fix: reduce_spatial_resolution keeps the units in place
 and accepts odd factors

---
 IMTreatment/core/scalarfield.py | 14 ++++++--------
 IMTreatment/core/vectorfield.py |  1 -
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index de61265..f8a0792 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -1997,7 +1997,7 @@ class ScalarField(fld.Field):
             raise ValueError()
         if fact == 1:
             if inplace:
-                pass
+                return None
             else:
                 return self.copy()
         if fact % 2 == 0:
@@ -2047,16 +2047,15 @@ class ScalarField(fld.Field):
                                                    [~mask[intervx, intervy]])
 
         else:
-            inds_x = np.arange((fact - 1)/2, len(axe_x) - (fact - 1)/2, fact)
-            inds_y = np.arange((fact - 1)/2, len(axe_y) - (fact - 1)/2, fact)
+            half = (fact - 1)//2
+            inds_x = np.arange(half, len(axe_x) - half, fact)
+            inds_y = np.arange(half, len(axe_y) - half, fact)
             new_values = np.zeros((len(inds_x), len(inds_y)))
             new_mask = np.zeros((len(inds_x), len(inds_y)))
             for i in np.arange(len(inds_x)):
-                intervx = slice(inds_x[i] - (fact - 1)/2,
-                                inds_x[i] + (fact - 1)/2 + 1)
+                intervx = slice(inds_x[i] - half, inds_x[i] + half + 1)
                 for j in np.arange(len(inds_y)):
-                    intervy = slice(inds_y[j] - (fact - 1)/2,
-                                    inds_y[j] + (fact - 1)/2 + 1)
+                    intervy = slice(inds_y[j] - half, inds_y[j] + half + 1)
                     if np.all(mask[intervx, intervy]):
                         new_mask[i, j] = True
                         new_values[i, j] = 0.
@@ -2067,7 +2066,6 @@ class ScalarField(fld.Field):
         new_values = np.array(new_values, dtype=self._values_dtype)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(new_axe_x, new_axe_y, new_values,
                                     mask=new_mask,
                                     unit_x=self.unit_x, unit_y=self.unit_y,
diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 6c48790..27287be 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1229,7 +1229,6 @@ class VectorField(field.Field):
         Vy.reduce_spatial_resolution(fact, inplace=True)
         # returning
         if inplace:
-            self.__init__()
             self.import_from_arrays(Vx.axe_x, Vx.axe_y, Vx.values,
                                     Vy.values,
                                     mask=Vx.mask, unit_x=self.unit_x,
-- 
2.43.0


From 8984e2a02fc057a80733aa25df91ec19811d4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:00 +0000
Subject: [PATCH 18/89] fix: get_zones_centers changed the caller's (and the
 default) interval

---
 IMTreatment/core/scalarfield.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index f8a0792..080a571 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -658,6 +658,7 @@ class ScalarField(fld.Field):
             Contening the centers coordinates
         """
         # correcting python's problem with egality...
+        bornes = np.array(bornes, dtype=float)
         bornes[0] -= 0.00001*abs(bornes[0])
         bornes[1] += 0.00001*abs(bornes[1])
         # checking parameters coherence
-- 
2.43.0


From d7d2ab888048905bb19b6d73ae1ba228e930fbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:53 +0000
Subject: [PATCH 19/89] fix: profiles averaged over an interval of indices
 raised TypeError

---
 IMTreatment/core/scalarfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 080a571..3658735 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -839,7 +839,7 @@ class ScalarField(fld.Field):
         if not isinstance(position, NUMBERTYPES + ARRAYTYPES + STRINGTYPES):
             raise TypeError()
         if isinstance(position, ARRAYTYPES):
-            position = np.array(position, dtype=float)
+            position = np.array(position, dtype=int if ind else float)
             if not position.shape == (2,):
                 raise ValueError("'position' must be a number or an interval")
         elif isinstance(position, STRINGTYPES):
-- 
2.43.0


From ea8fea664026268d812da65bf65de2265c2aa613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:11 +0000
Subject: [PATCH 20/89] fix: a profile created with mask=True is masked

---
 IMTreatment/core/profile.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 98e773a..3485eee 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -65,8 +65,7 @@ class Profile(object):
         if not isinstance(y, np.ma.MaskedArray):
             y = np.array(y, dtype=float)
         if isinstance(mask, bool):
-            mask = np.empty(x.shape, dtype=bool)
-            mask.fill(False)
+            mask = np.full(x.shape, mask, dtype=bool)
         if not isinstance(mask, ARRAYTYPES):
             raise TypeError("'mask' must be an array")
         if not isinstance(mask, (np.ndarray, np.ma.MaskedArray)):
-- 
2.43.0


From 5734903d761fda3d0955e776f9245d9bfc6cbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:25 +0000
Subject: [PATCH 21/89] fix: adding profiles converts the second one to the
 units of the first

---
 IMTreatment/core/profile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 3485eee..f6863f6 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -112,9 +112,10 @@ class Profile(object):
                 raise ValueError("Profiles have not the same unit system")
             if not len(self.x) == len(otherone.x):
                 raise ValueError("Profiles have not the same length")
-            if not all(self.x == otherone.x):
+            fact_x = (otherone.unit_x/self.unit_x).asNumber()
+            if not all(self.x == otherone.x*fact_x):
                 raise ValueError("Profiles have not the same x axis")
-            y = self.y + (self.unit_y/otherone.unit_y*otherone.y).asNumber()
+            y = self.y + (otherone.unit_y/self.unit_y*otherone.y).asNumber()
             name = ""
             mask = np.logical_or(self.mask, otherone.mask)
         else:
-- 
2.43.0


From 25179f19617e29a5280715b918b7df669a268c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:39 +0000
Subject: [PATCH 22/89] fix: multiplying profiles rejects any other x axis and
 keeps a pure unit

---
 IMTreatment/core/profile.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index f6863f6..457ec14 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -141,36 +141,20 @@ class Profile(object):
             y = self.y*new_unit_y.asNumber()
             new_unit_y = new_unit_y/new_unit_y.asNumber()
         elif isinstance(otherone, Profile):
-            if np.any(otherone.x - self.x > 1e-6*np.mean(abs(self.x))):
+            if len(otherone.x) != len(self.x) or \
+                    np.any(np.abs(otherone.x - self.x) >
+                           1e-6*np.mean(abs(self.x))):
                 raise ValueError("Given profiles does'nt share the same"
                                  " x axis")
             if not otherone.unit_x == self.unit_x:
                 raise ValueError("Given profiles does'nt share the same"
                                  " x units")
-            # get shared x
-            # TODO : find another way to deal with quasi equal values
-            dx = self.x[1] - self.x[0]
-            shared_x = [0, 0]
-            if otherone.x[0] in self.x:
-                shared_x[0] = otherone.x[0] - dx/2.
-            else:
-                shared_x[0] = self.x[0] - dx/2.
-            if otherone.x[-1] in self.x:
-                shared_x[1] = otherone.x[-1] + dx/2.
-            else:
-                shared_x[1] = self.x[-1] + dx/2.
-            # get filters
-            filt_self = np.logical_and(self.x <= shared_x[1],
-                                       self.x >= shared_x[0])
-            filt_other = np.logical_and(otherone.x <= shared_x[1],
-                                        otherone.x >= shared_x[0])
-            # get values
-            x = self.x[filt_self]
-            values = self.y[filt_self]*otherone.y[filt_other]
-            mask = np.logical_or(self.mask[filt_self],
-                                 otherone.mask[filt_other])
+            values = self.y*otherone.y
+            mask = np.logical_or(self.mask, otherone.mask)
             unit_y = self.unit_y*otherone.unit_y
-            tmp_prof = Profile(x, values, mask=mask, unit_x=self.unit_x,
+            values = values*unit_y.asNumber()
+            unit_y = unit_y/unit_y.asNumber()
+            tmp_prof = Profile(self.x, values, mask=mask, unit_x=self.unit_x,
                                unit_y=unit_y)
             return tmp_prof
         else:
-- 
2.43.0


From 29a7073be147f0361cf6a6ff421a5dfc780d7301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:54 +0000
Subject: [PATCH 23/89] fix: dividing by a profile leaves the divisor as it was
 and checks the x unit

---
 IMTreatment/core/profile.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 457ec14..2c7e95f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -178,16 +178,17 @@ class Profile(object):
             name = self.name
             unit_y = tmpunit/tmpunit.asNumber()
         elif isinstance(otherone, Profile):
-            if not np.all(self.x == otherone.x):
+            if len(self.x) != len(otherone.x) or \
+                    self.unit_x != otherone.unit_x or \
+                    not np.all(self.x == otherone.x):
                 raise ValueError("Profile has to have identical x axis in "
                                  "order to divide them")
             else:
                 mask = np.logical_or(self.mask, otherone.mask)
                 tmp_unit = self.unit_y/otherone.unit_y
-                y_tmp = self.y.copy()
-                y_tmp[otherone.y == 0] = np.NaN
-                otherone.y[otherone.y == 0] = 1
-                y = y_tmp/otherone.y*tmp_unit.asNumber()
+                y_div = otherone.y.copy()
+                y_div[y_div == 0] = np.NaN
+                y = self.y/y_div*tmp_unit.asNumber()
                 name = ""
                 unit_y = tmp_unit/tmp_unit.asNumber()
         else:
-- 
2.43.0


From be5e786270efa0c7534a1ddc4e1f242dcf635bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:10 +0000
Subject: [PATCH 24/89] fix: the null power of a profile keeps its mask

---
 IMTreatment/core/profile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 2c7e95f..d3449e4 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -203,8 +203,8 @@ class Profile(object):
                             "on a Profile")
         y = np.power(self.y, number)
         unit_y = np.power(self.unit_y, number)
-        return Profile(x=self.x, y=y, unit_x=self.unit_x, unit_y=unit_y,
-                       name=self.name)
+        return Profile(x=self.x, y=y, mask=self.mask, unit_x=self.unit_x,
+                       unit_y=unit_y, name=self.name)
 
     def __len__(self):
         return len(self.x)
-- 
2.43.0


From 187fc53c2927131e64e273b102fbeaa114de2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:24 +0000
Subject: [PATCH 25/89] fix: a rejected assignment of profile positions leaves
 the profile as it was

---
 IMTreatment/core/profile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index d3449e4..db82bd3 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -247,12 +247,13 @@ class Profile(object):
     @x.setter
     def x(self, values):
         if isinstance(values, ARRAYTYPES):
-            self.__x = np.array(values, dtype=float)
+            new_x = np.array(values, dtype=float)
         else:
             raise Exception("'x' should be an array, not {}"
                             .format(type(values)))
         if len(values) != len(self.__y):
             raise Exception("Please set 'y' before 'x'")
+        self.__x = new_x
         if len(self.__x) > 1:
             ind_sort = np.argsort(self.__x)
             self.__x = self.__x[ind_sort]
-- 
2.43.0


From b800ec03c4256d887a2dba742ca7c02d17183f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:36 +0000
Subject: [PATCH 26/89] fix: cropping a profile keeps all the samples up to the
 end of the window and combines both windows

---
 IMTreatment/core/profile.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index db82bd3..8c9ea9f 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1417,27 +1417,21 @@ class Profile(object):
                     or all(intervx > np.max(self.x)):
                 raise ValueError("'intervx' values are out of profile")
             ind1 = 0
-            ind2 = -1
+            ind2 = np.searchsorted(new_x, intervx[1], side='right')
             for i in np.arange(len(new_x)-1, 0, -1):
                 if new_x[i] == intervx[0]:
                     ind1 = i
-                elif new_x[i] == intervx[1]:
-                    ind2 = i + 1
                 elif (new_x[i] > intervx[0] and new_x[i-1] < intervx[0]) \
                         or (new_x[i] < intervx[0] and
                             new_x[i-1] > intervx[0]):
                     ind1 = i + 1
-                elif (new_x[i] > intervx[1] and new_x[i-1] < intervx[1]) \
-                        or (new_x[i] < intervx[1] and
-                            new_x[i-1] > intervx[1]):
-                    ind2 = i
             indices = [ind1, ind2]
             new_x = new_x[indices[0]:indices[1]]
             new_y = new_y[indices[0]:indices[1]]
             new_mask = new_mask[indices[0]:indices[1]]
         # treat intervy with ind=False
         if not ind and intervy is not None:
-            filt = np.logical_and(self.y > intervy[0], self.y < intervy[1])
+            filt = np.logical_and(new_y > intervy[0], new_y < intervy[1])
             new_x = new_x[filt]
             new_y = new_y[filt]
             new_mask = new_mask[filt]
-- 
2.43.0


From c0fcd26d7a586412bdcca868ee6445d780de1078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:50 +0000
Subject: [PATCH 27/89] fix: filling a profile with a value replaces the masked
 samples; crop works

---
 IMTreatment/core/profile.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/profile.py b/IMTreatment/core/profile.py
index 8c9ea9f..6574b78 100644
--- a/IMTreatment/core/profile.py
+++ b/IMTreatment/core/profile.py
@@ -1555,21 +1555,24 @@ class Profile(object):
         """
         # check if filling really necessary
         if not np.any(self.mask) and inplace:
-            return None,
+            return None
         elif not np.any(self.mask):
             return self.copy()
         # crop if asked
+        if np.all(self.mask):
+            raise Exception("There is no values on this profile")
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_prof = self if inplace else self.copy()
+            tmp_prof.crop_masked_border(inplace=True)
+            return tmp_prof.fill(kind=kind, fill_value=fill_value,
+                                 inplace=inplace)
         # get mask
         mask = self.mask
         filt = np.logical_not(mask)
-        if np.all(mask):
-            raise Exception("There is no values on this profile")
         # check fill type
         if kind == 'value':
             new_y = copy.copy(self.y)
-            new_y[filt] = fill_value
+            new_y[mask] = fill_value
         else:
             # making interpolation on existent values
             x = self.x[filt]
-- 
2.43.0


From dd91674eb59cc954cd35c517915d7029d6ee09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:27 +0000
Subject: [PATCH 28/89] fix: adding point sets converts the second one to the
 units of the first and leaves it as it was

---
 IMTreatment/core/points.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index e0c7ec7..dc54f84 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -101,16 +101,16 @@ class Points(object):
             if another.xy.shape == (0,):
                 new_xy = self.xy
             elif self.xy.shape == (0,):
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = xy
             elif another.xy.shape == (0,) and self.xy.shape == (0,):
                 new_xy = np.array([[]])
             else:
-                xy = another.xy
-                xy[:, 0] = xy[:, 0]*(self.unit_x/another.unit_x).asNumber()
-                xy[:, 1] = xy[:, 1]*(self.unit_y/another.unit_y).asNumber()
+                xy = another.xy.copy()
+                xy[:, 0] = xy[:, 0]*(another.unit_x/self.unit_x).asNumber()
+                xy[:, 1] = xy[:, 1]*(another.unit_y/self.unit_y).asNumber()
                 new_xy = np.append(self.xy, xy, axis=0)
             # testing v presence
             v_presence = True
@@ -126,11 +126,11 @@ class Points(object):
                 if self.v is None and another.v is None:
                     v = np.array([])
                 elif self.v is None:
-                    v = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v = another.v*(another.unit_v/self.unit_v).asNumber()
                 elif another.v is None:
                     v = self.v
                 else:
-                    v_tmp = another.v*(self.unit_v/another.unit_v).asNumber()
+                    v_tmp = another.v*(another.unit_v/self.unit_v).asNumber()
                     v = np.append(self.v, v_tmp)
                 return Points(new_xy, v,
                               unit_x=self.unit_x,
-- 
2.43.0


From e79470561246f1c7c720c52d00944665bcce8e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:39 +0000
Subject: [PATCH 29/89] fix: point sets share no positions with the array they
 were given

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index dc54f84..5b4a971 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -165,7 +165,7 @@ class Points(object):
 
     @xy.setter
     def xy(self, values):
-        values = np.asarray(values, dtype=float)
+        values = np.array(values, dtype=float)
         if len(values != 0):
             if not values.ndim == 2:
                 raise ValueError("ndim of xy is {} and should be 2"
-- 
2.43.0


From e385ab1c914ef0e5426aef1fa58a8dc8cecf217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:19 +0000
Subject: [PATCH 30/89] fix: a rejected point insertion leaves the point set as
 it was

---
 IMTreatment/core/points.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 5b4a971..49559e8 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -891,10 +891,12 @@ class Points(object):
         if v is not None:
             if not isinstance(v, NUMBERTYPES):
                 raise TypeError()
-        # store new data
-        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is None and self.v.shape[0] != 0:
             raise ValueError('You should specify an associated value : v')
+        if v is not None and len(self.v) != len(self.xy):
+            raise ValueError('The other points have no associated value')
+        # store new data
+        self.__xy = np.append(self.xy, [pt], axis=0)
         if v is not None:
             self.__v = np.append(self.v, v)
 
-- 
2.43.0


From ece0eb116f29ba1fec8345be69fa7a5bee6e206e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:34 +0000
Subject: [PATCH 31/89] fix: removing points keeps the values of the other
 points

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 49559e8..9f4a7d1 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -919,8 +919,9 @@ class Points(object):
         else:
             raise TypeError("'ind' must be an integer or an array of integer")
         tmp_v = self.v.copy()
+        has_v = len(self.v) != 0
         self.xy = np.delete(self.xy, ind, axis=0)
-        if len(self.v) == len(self.xy) + 1:
+        if has_v:
             self.v = np.delete(tmp_v, ind, axis=0)
 
     def change_unit(self, axe, new_unit):
-- 
2.43.0


From d39ba52171c3e1e8a4dde233a701ca19a84e30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:47 +0000
Subject: [PATCH 32/89] fix: cutting a point set keeps the values of the other
 points

---
 IMTreatment/core/points.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 9f4a7d1..01dfec6 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1063,9 +1063,10 @@ class Points(object):
             out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
                                       self.xy[:, 1] < intervy[1])
             mask = np.logical_and(mask, out_zone)
+        tmp_v = tmp_pts.v
         tmp_pts.xy = tmp_pts.xy[~mask, :]
-        if len(tmp_pts.v) != 0:
-            tmp_pts.v = tmp_pts.v[~mask]
+        if len(tmp_v) != 0:
+            tmp_pts.v = tmp_v[~mask]
         return tmp_pts
 
     def scale(self, scalex=1., scaley=1., scalev=1., inplace=False):
-- 
2.43.0


From cbb33153c90e180ad2832b1d843b57644546aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:00 +0000
Subject: [PATCH 33/89] fix: scaling or converting integer point values raised
 TypeError

---
 IMTreatment/core/points.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 01dfec6..ed5b1da 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -959,7 +959,7 @@ class Points(object):
             old_unit = self.unit_v
             new_unit = old_unit.asUnit(new_unit)
             fact = new_unit.asNumber()
-            self.v *= fact
+            self.v = self.v*fact
             self.unit_v = new_unit/fact
         else:
             raise ValueError()
@@ -1117,7 +1117,7 @@ class Points(object):
         if scalex != 1. or scaley != 1.:
             tmp_pt.xy *= np.array([scalex, scaley])
         if scalev != 1.:
-            tmp_pt.v *= scalev
+            tmp_pt.v = tmp_pt.v*scalev
         # returning
         if not inplace:
             return tmp_pt
-- 
2.43.0


From 48e6367baac8480188fe637cb85094fbcac22953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:13 +0000
Subject: [PATCH 34/89] fix: remove_nans on points without values

---
 IMTreatment/core/points.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index ed5b1da..33414e0 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1299,7 +1299,8 @@ class Points(object):
         # get indices to remove
         inds = np.logical_or(np.isnan(tmp_pts.xy[:, 0]),
                              np.isnan(tmp_pts.xy[:, 1]))
-        inds = np.logical_or(inds, np.isnan(tmp_pts.v))
+        if len(tmp_pts.v) != 0:
+            inds = np.logical_or(inds, np.isnan(tmp_pts.v))
         # remove
         for ind in np.where(inds)[0][::-1]:
             tmp_pts.remove(ind)
-- 
2.43.0


From 69f07f054bdf552c89dd7ec0c52dadbf208d6d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:24 +0000
Subject: [PATCH 35/89] fix: Points.get_evolution_on_sf raised
 UnboundLocalError

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 33414e0..b5bcc5c 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -733,8 +733,8 @@ class Points(object):
         from .scalarfield import ScalarField
         if not isinstance(SF, ScalarField):
             raise TypeError()
+        from .profile import Profile
         if len(self.xy) == 0:
-            from .profile import Profile
             return Profile()
         if axe_x is None:
             if len(self.v) == len(self.xy):
-- 
2.43.0


From b8f80626eae407ea9ced6daac913e42d0409f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:08 +0000
Subject: [PATCH 36/89] fix: swapping the axes of a point set swaps their units

---
 IMTreatment/core/points.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index b5bcc5c..f0420b3 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1192,6 +1192,7 @@ class Points(object):
         xy_tmp[:, 0] = tmp_pt.xy[:, 1]
         xy_tmp[:, 1] = tmp_pt.xy[:, 0]
         tmp_pt.xy = xy_tmp
+        tmp_pt.unit_x, tmp_pt.unit_y = tmp_pt.unit_y, tmp_pt.unit_x
         return tmp_pt
 
     def decompose(self):
-- 
2.43.0


From 6c95f60f22ab7600295214771552390715c0926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:38 +0000
Subject: [PATCH 37/89] fix: iterating on oriented points gives each point with
 its own orientation

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index ad292db..0a4217e 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -77,8 +77,8 @@ class OrientedPoints(pts.Points):
         self.orientations = orientations
 
     def __iter__(self):
+        pts_iter = pts.Points.__iter__(self)
         for i in np.arange(len(self.xy)):
-            pts_iter = pts.Points.__iter__(self)
             pts_value = next(pts_iter)
             if type(pts_value) is tuple:
                 yield pts_value + (self.orientations[i],)
-- 
2.43.0


From 0a97308c45fa47d29921b2571fc65f8dc55692b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 38/89] fix: the time unit of a set of fields can be given as a
 string

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index bdaf115..431392d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -265,7 +265,7 @@ class TemporalFields(flds.Fields, fld.Field):
             else:
                 raise ValueError()
         elif isinstance(new_unit_times, STRINGTYPES):
-            self.__unit_times == make_unit(new_unit_times)
+            self.__unit_times = make_unit(new_unit_times)
         else:
             raise TypeError()
 
-- 
2.43.0


From dd6fe95813db320faa1a39a25e97e14f39cbcc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 39/89] fix: a set of fields keeps no reference to the times it
 is given

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 431392d..af68cea 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -243,7 +243,7 @@ class TemporalFields(flds.Fields, fld.Field):
             raise ValueError("New number of time ({}) do not corespond to "
                              "the number of fields ({})"
                              .format(len(values), len(self.fields)))
-        self.__times = values
+        self.__times = np.array(values, dtype=float)
 
     @times.deleter
     def times(self):
-- 
2.43.0


From bc150a658535f4e5be4d9eeed199512e47a189b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 40/89] fix: a field added with another time unit keeps its
 time

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index af68cea..6d984bd 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1134,7 +1134,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
             # storing time
-            time = (time*self.unit_times/unit_times).asNumber()
+            time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
         # use default constructor
         flds.Fields.add_field(self, field, copy=copy)
-- 
2.43.0


From c0353bdefb5143eb981d501ef348d87e8a96236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 41/89] fix: a field on other axes or in other units is
 rejected by a set of fields

---
 IMTreatment/core/temporalfields.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 6d984bd..513e9ba 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1095,7 +1095,6 @@ class TemporalFields(flds.Fields, fld.Field):
         unit_time : Unum object
             time unit.
         """
-        # TODO : pas de vérification de la cohérence des unités !
         # checking parameters
         if not isinstance(field, (vf.VectorField, sf.ScalarField)):
             raise TypeError()
@@ -1130,9 +1129,17 @@ class TemporalFields(flds.Fields, fld.Field):
             # checking axis
             axe_x, axe_y = self.axe_x, self.axe_y
             vaxe_x, vaxe_y = field.axe_x, field.axe_y
-            if not np.all(axe_x == vaxe_x) and np.all(axe_y == vaxe_y):
+            if not (np.array_equal(axe_x, vaxe_x) and
+                    np.array_equal(axe_y, vaxe_y)):
                 raise ValueError("Axes of the new field must be consistent "
                                  "with current axes")
+            # checking units
+            for unit, vunit in [(self.unit_x, field.unit_x),
+                                (self.unit_y, field.unit_y),
+                                (self.unit_values, field.unit_values)]:
+                if not np.isclose(unit.asNumber(vunit), 1):
+                    raise ValueError("Units of the new field must be "
+                                     "consistent with current units")
             # storing time
             time = (time*unit_times/self.unit_times).asNumber()
             self.__times = np.append(self.__times, time)
-- 
2.43.0


From d4bc78114207a6b923e50e1d89e879c0d9bb29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 42/89] fix: a field rejected by an empty set of fields leaves
 the set unchanged

---
 IMTreatment/core/temporalfields.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 513e9ba..0a829cc 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1098,9 +1098,8 @@ class TemporalFields(flds.Fields, fld.Field):
         # checking parameters
         if not isinstance(field, (vf.VectorField, sf.ScalarField)):
             raise TypeError()
-        if self.field_type is None:
-            self.field_type = field.__class__
-        if not isinstance(field, self.field_type):
+        if self.field_type is not None and \
+                not isinstance(field, self.field_type):
             raise TypeError()
         if not isinstance(time, NUMBERTYPES):
             raise TypeError("'time' should be a number, not {}"
-- 
2.43.0


From 5d439aca928d36816965a3e32fde5f4d902a5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 43/89] fix: merging two sets of fields keeps the time of each
 field

---
 IMTreatment/core/temporalfields.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 0a829cc..38365e7 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -63,12 +63,13 @@ class TemporalFields(flds.Fields, fld.Field):
             return tmp_TF
         elif isinstance(other, self.__class__):
             tmp_tf = self.copy()
-            if np.all(self.times == other.times):
+            if self.__has_same_times(other):
                 for i in np.arange(len(self.fields)):
                     tmp_tf.fields[i] += other.fields[i]
             else:
                 for i in np.arange(len(other.fields)):
-                    tmp_tf.add_field(other.fields[i])
+                    tmp_tf.add_field(other.fields[i], time=other.times[i],
+                                     unit_times=other.unit_times)
             return tmp_tf
         else:
             tmp_TF = self.copy()
@@ -1559,6 +1560,10 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         return copy.deepcopy(self)
 
+    def __has_same_times(self, other):
+        fact = (self.unit_times/other.unit_times).asNumber()
+        return np.array_equal(self.times*fact, other.times)
+
     def __sort_field_by_time(self):
         if len(self.fields) in [0, 1]:
             return None
-- 
2.43.0


From 85b78770037ee8ae76ac894fb10caaeda06b9b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 44/89] fix: multiplying, dividing or raising a set of fields
 to a power keeps its times

---
 IMTreatment/core/temporalfields.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 38365e7..d9d036d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -96,16 +96,18 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.axe_x == other.axe_x) \
                     and np.all(self.axe_y == other.axe_y):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self.__has_same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]*other.fields[i])
+                vfs.add_field(self.fields[i]*other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
-            for field in self.fields:
-                final_vfs.add_field(field*other)
+            for i, field in enumerate(self.fields):
+                final_vfs.add_field(field*other, time=self.times[i],
+                                    unit_times=self.unit_times)
             return final_vfs
         else:
             raise TypeError("You can only multiply a temporal velocity field "
@@ -120,11 +122,12 @@ class TemporalFields(flds.Fields, fld.Field):
             if not np.all(self.axe_x == other.axe_x) \
                     and np.all(self.axe_y == other.axe_y):
                 raise Exception()
-            if not np.all(self.times == other.times):
+            if not self.__has_same_times(other):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other.fields[i])
+                vfs.add_field(self.fields[i]/other.fields[i],
+                              time=self.times[i], unit_times=self.unit_times)
             return vfs
         elif isinstance(other, self.fields[0].__class__):
             if not np.all(self.axe_x == other.axe_x) \
@@ -132,7 +135,8 @@ class TemporalFields(flds.Fields, fld.Field):
                 raise Exception()
             vfs = self.__class__()
             for i in np.arange(len(self.fields)):
-                vfs.add_field(self.fields[i]/other)
+                vfs.add_field(self.fields[i]/other, time=self.times[i],
+                              unit_times=self.unit_times)
             return vfs
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
@@ -150,8 +154,9 @@ class TemporalFields(flds.Fields, fld.Field):
             raise TypeError("You only can use a number for the power "
                             "on a Vectorfield")
         final_vfs = self.__class__()
-        for field in self.fields:
-            final_vfs.add_field(np.power(field, number))
+        for i, field in enumerate(self.fields):
+            final_vfs.add_field(field**number, time=self.times[i],
+                                unit_times=self.unit_times)
         return final_vfs
 
     def __iter__(self):
-- 
2.43.0


From f26617c15e2e2430ec2d06c96cf2c415f0bc8c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 45/89] fix: dividing a set of fields by a number divides its
 fields

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d9d036d..e468a70 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -141,7 +141,7 @@ class TemporalFields(flds.Fields, fld.Field):
         elif isinstance(other, (NUMBERTYPES, unum.Unum)):
             final_vfs = self.__class__()
             for i, field in enumerate(self.fields):
-                final_vfs.add_field(other, time=self.times[i],
+                final_vfs.add_field(field/other, time=self.times[i],
                                     unit_times=self.unit_times)
             return final_vfs
         else:
-- 
2.43.0


From 95f9c15561125b8ee1513dbaa95d613bf6b5ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 46/89] fix: the mean field uses the nodes measured as often as
 requested, and does not overflow

---
 IMTreatment/core/temporalfields.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index e468a70..f1290cf 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -319,12 +319,12 @@ class TemporalFields(flds.Fields, fld.Field):
             added_field.fill(kind='value', value=0., inplace=True)
             result_f += added_field
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
-        result_f.mask = mask
-        result_f.change_dtype(dtype)
+        mask = np.logical_or(mask_cum < nmb_min, mask_cum == 0)
         fact = mask_cum
         fact[mask] = 1
         result_f /= fact
+        result_f.change_dtype(dtype)
+        result_f.mask = mask
         result_f.xy_scale = self.fields[0].xy_scale
         return result_f
 
-- 
2.43.0


From f45b0edfef8d7ae83fd08c692989c7459ef17470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:40 +0000
Subject: [PATCH 47/89] fix: the field at an existing time is a copy

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index f1290cf..40375aa 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -338,7 +338,7 @@ class TemporalFields(flds.Fields, fld.Field):
         assert time <= self.times[-1]
         # if time is in self.times
         if np.any(self.times == time):
-            return self.fields[self.times == time][0]
+            return self.fields[np.where(self.times == time)[0][0]].copy()
         # else, get the surrounding fields
         ind_time = np.argwhere(self.times > time)[0][0]
         denom = self.times[ind_time] - self.times[ind_time - 1]
-- 
2.43.0


From 211927417bd6817fb2767969b9b577443db382cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 48/89] fix: removing several fields removes the requested ones

---
 IMTreatment/core/fields.py         | 3 +--
 IMTreatment/core/temporalfields.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/IMTreatment/core/fields.py b/IMTreatment/core/fields.py
index e8dc468..a7cdcb9 100644
--- a/IMTreatment/core/fields.py
+++ b/IMTreatment/core/fields.py
@@ -148,8 +148,7 @@ class Fields(object):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.fields = np.delete(self.fields, nmb)
+        self.fields = np.delete(self.fields, fieldnumbers)
 
     def set_origin(self, x=None, y=None):
         """
diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 40375aa..d8c5336 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1164,8 +1164,7 @@ class TemporalFields(flds.Fields, fld.Field):
         """
         if isinstance(fieldnumbers, INTEGERTYPES):
             fieldnumbers = [fieldnumbers]
-        for nmb in fieldnumbers:
-            self.__times = np.delete(self.times, nmb)
+        self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
-- 
2.43.0


From 09c51d636ce6cb2a63ac6685482ae426b87a4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 49/89] fix: removing one field of a temporal set also removes
 its time

---
 IMTreatment/core/temporalfields.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index d8c5336..7ad0562 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1167,6 +1167,8 @@ class TemporalFields(flds.Fields, fld.Field):
         self.__times = np.delete(self.times, fieldnumbers)
         flds.Fields.remove_field(self, fieldnumbers)
 
+    remove_field = remove_fields
+
     def reduce_spatial_resolution(self, fact, inplace=False, verbose=False):
         """
         Reduce the spatial resolution of the fields by a factor 'fact'
-- 
2.43.0


From 3bb03dfc40cfbd67015958b9280b92c3024e76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 50/89] fix: coarsening a set of fields updates the axes of the
 result

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 7ad0562..496c07f 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1194,8 +1194,8 @@ class TemporalFields(flds.Fields, fld.Field):
             if verbose:
                 pg.print_progress()
         #
-        self.axe_x = self.fields[0].axe_x
-        self.axe_y = self.fields[0].axe_y
+        tmpfs.axe_x = tmpfs.fields[0].axe_x
+        tmpfs.axe_y = tmpfs.fields[0].axe_y
         return tmpfs
 
     def reduce_temporal_resolution(self, nmb_in_interval, mean=True,
-- 
2.43.0


From 9c77e872bbbfcea811c67b9c720cc38deda7d586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 51/89] fix: reducing the temporal resolution keeps the last
 complete interval

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 496c07f..54203f5 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1245,7 +1245,7 @@ class TemporalFields(flds.Fields, fld.Field):
                 time /= nmb_in_interval
             tmp_TFS.add_field(tmp_f, time, self.unit_times)
             i += nmb_in_interval
-            if i + nmb_in_interval >= len(self):
+            if i + nmb_in_interval > len(self):
                 break
         # returning
         if inplace:
-- 
2.43.0


From 1d32e09ad0966d15c138c7ca8e6304cd030a6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 52/89] fix: a set of fields with augmented temporal resolution
 stays usable

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 54203f5..174d00b 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1293,7 +1293,7 @@ class TemporalFields(flds.Fields, fld.Field):
         for time in new_times:
             new_fields.append(tf.get_interpolated_field(time))
         # store
-        tf.fields = new_fields
+        tf.fields = np.array(new_fields, dtype=object)
         tf.times = new_times
         # returning
         if not inplace:
-- 
2.43.0


From c447e0b6043a226aec6f4ee367826f0bf2b8e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 53/89] fix: cropping the masked borders of a set of fields
 always returns a set

---
 IMTreatment/core/temporalfields.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 174d00b..dfff973 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1315,7 +1315,9 @@ class TemporalFields(flds.Fields, fld.Field):
         mask_cum = self.mask_cum
         # checking masked values presence
         if not np.any(mask_cum):
-            return None
+            if inplace:
+                return None
+            return self.copy()
         # hard cropping
         if hard:
             if inplace:
@@ -1364,7 +1366,9 @@ class TemporalFields(flds.Fields, fld.Field):
             axe_x_m = ~np.all(mask_cum, axis=1)
             # skip if nothing to do
             if not np.any(axe_y_m) or not np.any(axe_x_m):
-                return None
+                if inplace:
+                    return None
+                return self.copy()
             # getting indices where we need to cut
             axe_x_min = np.where(axe_x_m)[0][0]
             axe_x_max = np.where(axe_x_m)[0][-1]
-- 
2.43.0


From f0de6ad108d6b635278c7fbcbfe7951ac383850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 54/89] fix: mirroring a set of fields updates its axes

---
 IMTreatment/core/temporalfields.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index dfff973..c84fdea 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1427,8 +1427,8 @@ class TemporalFields(flds.Fields, fld.Field):
                                        mir_coef=mir_coef, inplace=True,
                                        interp=interp, value=value)
         # update field
-        tmp_tf.__axe_x = self.fields[0].axe_x
-        tmp_tf.__axe_y = self.fields[0].axe_y
+        tmp_tf.axe_x = tmp_tf.fields[0].axe_x
+        tmp_tf.axe_y = tmp_tf.fields[0].axe_y
         # return
         if not inplace:
             return tmp_tf
-- 
2.43.0


From 93049679d805a3307fd98480760cd724156fa8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 55/89] fix: scaling a set of fields by a negative factor
 reverses its fields

---
 IMTreatment/core/temporalfields.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index c84fdea..5459742 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1006,17 +1006,18 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f = self
         else:
             tmp_f = self.copy()
-        # scale the field (automaticly scale the fields axis)
         # for compatibility purpose
         if not hasattr(self, "xy_scale"):
             self.xy_scale = make_unit('')
         for field in self.fields:
             if not hasattr(field, "xy_scale"):
                 field.xy_scale = self.xy_scale
+        # scale the fields
+        flds.Fields.scale(tmp_f, scalex=scalex, scaley=scaley, scalev=scalev,
+                          inplace=True)
+        # scale the axis
         fld.Field.scale(tmp_f, scalex=scalex, scaley=scaley,
                         inplace=True)
-        # scale the values
-        flds.Fields.scale(tmp_f, scalev=scalev, inplace=True)
         # scale the time
         if scalet is None:
             pass
-- 
2.43.0


From 87353eeedf84de84dde283dc0cc9d22f3586d5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 56/89] fix: a set of fields stays in time order when its times
 are scaled by a negative factor

---
 IMTreatment/core/temporalfields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5459742..5ba95b6 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1031,6 +1031,7 @@ class TemporalFields(flds.Fields, fld.Field):
             tmp_f.times *= fact
         else:
             raise TypeError()
+        tmp_f.__sort_field_by_time()
         # returning
         if not inplace:
             return tmp_f
-- 
2.43.0


From b067b04ec62b37acda24fd46b75f51b4854dfe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 57/89] fix: temporal extrema use every unmasked value

---
 IMTreatment/core/temporalscalarfields.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index efa27e4..18b3a9f 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -61,14 +61,17 @@ class TemporalScalarFields(tf.TemporalFields):
         if len(self.fields) == 0:
             raise ValueError("There is no fields in this object")
         result_f = self.fields[0].copy()
+        values = result_f.values.copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_min_mask = np.logical_and(field.values < result_f.values,
-                                          np.logical_not(field.mask))
-            result_f.values[new_min_mask] = field.values[new_min_mask]
+            new_min_mask = np.logical_and(
+                np.logical_or(field.values < values, mask_cum == 0),
+                np.logical_not(field.mask))
+            values[new_min_mask] = field.values[new_min_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = np.logical_or(mask_cum < nmb_min, mask_cum == 0)
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
@@ -85,14 +88,17 @@ class TemporalScalarFields(tf.TemporalFields):
         if len(self.fields) == 0:
             raise ValueError("There is no fields in this object")
         result_f = self.fields[0].copy()
+        values = result_f.values.copy()
         mask_cum = np.zeros(self.shape, dtype=int)
         mask_cum[np.logical_not(self.fields[0].mask)] += 1
         for field in self.fields[1::]:
-            new_max_mask = np.logical_and(field.values > result_f.values,
-                                          np.logical_not(field.mask))
-            result_f.values[new_max_mask] = field.values[new_max_mask]
+            new_max_mask = np.logical_and(
+                np.logical_or(field.values > values, mask_cum == 0),
+                np.logical_not(field.mask))
+            values[new_max_mask] = field.values[new_max_mask]
             mask_cum[np.logical_not(field.mask)] += 1
-        mask = mask_cum <= nmb_min
+        mask = np.logical_or(mask_cum < nmb_min, mask_cum == 0)
+        result_f.values = values
         result_f.mask = mask
         return result_f
 
-- 
2.43.0


From a1a59e43d273b88b834afd7a959ebcc2b81046b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:41 +0000
Subject: [PATCH 58/89] fix: Reynolds stresses are kept where measured as often
 as requested

---
 IMTreatment/core/temporalvectorfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 79348a5..508145a 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -189,7 +189,7 @@ class TemporalVectorFields(tf.TemporalFields):
                         rs_xx[i, j] += u_p[n][i, j]**2
                         rs_xy[i, j] += u_p[n][i, j]*v_p[n][i, j]
                         nmb_val += 1
-                if nmb_val > nmb_val_min:
+                if nmb_val > 0 and nmb_val >= nmb_val_min:
                     rs_xx[i, j] /= nmb_val
                     rs_yy[i, j] /= nmb_val
                     rs_xy[i, j] /= nmb_val
-- 
2.43.0


From b2673f983722d76276f6da598f6c580af7c158dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:31 +0000
Subject: [PATCH 59/89] fix: a time profile along a trajectory uses the
 position of each time

---
 IMTreatment/core/temporalfields.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index 5ba95b6..fac239b 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -493,10 +493,12 @@ class TemporalFields(flds.Fields, fld.Field):
         if isinstance(pt, pts.Points):
             mask_times = [time not in pt.v for time in self.times]
             mask_times = np.array(mask_times, dtype=bool)
-            pt = [[self.get_indice_on_axe(1, pt.xy[i, 0], kind='nearest'),
-                   self.get_indice_on_axe(2, pt.xy[i, 1], kind='nearest')]
-                  for i in range(len(pt.xy))]
-            pt = np.array(pt, dtype=int)
+            traj = pt
+            pt = np.zeros((len(self.times), 2), dtype=int)
+            for i in np.where(~mask_times)[0]:
+                x, y = traj.xy[np.where(traj.v == self.times[i])[0][0]]
+                pt[i, 0] = self.get_indice_on_axe(1, x, kind='nearest')
+                pt[i, 1] = self.get_indice_on_axe(2, y, kind='nearest')
         if wanted_times is not None:
             if wanted_times[-1] <= wanted_times[0]:
                 raise ValueError()
@@ -511,7 +513,7 @@ class TemporalFields(flds.Fields, fld.Field):
         compo = np.empty(dim, dtype=float)
         masks = np.empty(dim, dtype=float)
         for i, time_ind in enumerate(w_times_ind):
-            ind_x, ind_y = pt[i]
+            ind_x, ind_y = pt[time_ind]
             compo[i] = self.fields[time_ind].__getattribute__(component)[ind_x,
                                                                          ind_y]
             masks[i] = self.fields[time_ind].mask[ind_x, ind_y]
-- 
2.43.0


From 919bb362b8068b664efe21a88b65ca915b20a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:31 +0000
Subject: [PATCH 60/89] fix: filling a copy of a set of fields leaves the
 original untouched

---
 IMTreatment/core/temporalscalarfields.py | 22 ++++++++--------------
 IMTreatment/core/temporalvectorfields.py | 22 ++++++++--------------
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 18b3a9f..445aac9 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -361,14 +361,19 @@ class TemporalScalarFields(tf.TemporalFields):
             raise TypeError()
         if kind not in ['value', 'nearest', 'linear', 'cubic']:
             raise ValueError()
+        if inplace:
+            tmp_tsf = self
+        else:
+            tmp_tsf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tsf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tsf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting datas
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tsf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
@@ -394,8 +399,6 @@ class TemporalScalarFields(tf.TemporalFields):
                                                kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all profile masked points
                 for ind_masked in prof.mask:
                     try:
@@ -407,19 +410,10 @@ class TemporalScalarFields(tf.TemporalFields):
                     fields[prof.mask].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tsf = self.copy()
-                fields = tmp_tsf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tsf = self.copy()
-            tmp_tsf.fields = fields
+        if not inplace:
             return tmp_tsf
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 508145a..64601f0 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -288,13 +288,18 @@ class TemporalVectorFields(tf.TemporalFields):
         elif not isinstance(value, ARRAYTYPES):
             raise TypeError()
         value = np.array(value)
+        if inplace:
+            tmp_tvf = self
+        else:
+            tmp_tvf = self.copy()
         if crop:
-            self.crop_masked_border(hard=False, inplace=True)
+            tmp_tvf.crop_masked_border(hard=False, inplace=True)
+        fields = tmp_tvf.fields
         # temporal interpolation
         if tof == 'temporal':
             # getting super mask (0 where no value are masked and where all
             # values are masked)
-            masks = self.mask
+            masks = tmp_tvf.mask
             sum_masks = np.sum(masks, axis=0)
             super_mask = np.logical_and(0 < sum_masks,
                                         sum_masks < len(self.fields) - 2)
@@ -336,8 +341,6 @@ class TemporalVectorFields(tf.TemporalFields):
                                                  kind='cubic')
                 else:
                     raise ValueError("Invalid value for 'kind'")
-                # inplace or not
-                fields = self.fields.copy()
                 # loop on all x profile masked points
                 for ind_masked in inds_masked_x:
                     try:
@@ -358,19 +361,10 @@ class TemporalVectorFields(tf.TemporalFields):
                     fields[ind_masked].mask[i, j] = False
         # spatial interpolation
         elif tof == 'spatial':
-            if inplace:
-                fields = self.fields
-            else:
-                tmp_tvf = self.copy()
-                fields = tmp_tvf.fields
             for i, field in enumerate(fields):
                 fields[i].fill(kind=kind, value=value, inplace=True)
         else:
             raise ValueError("Unknown parameter for 'tof' : {}".format(tof))
         # returning
-        if inplace:
-            self.fields = fields
-        else:
-            tmp_tvf = self.copy()
-            tmp_tvf.fields = fields
+        if not inplace:
             return tmp_tvf
-- 
2.43.0


From 7d2fedc8d12f34d2f4490a6efeaf9dde51d7622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:31 +0000
Subject: [PATCH 61/89] fix: filling scalar fields in time works

---
 IMTreatment/core/temporalscalarfields.py | 10 +++++-----
 IMTreatment/core/temporalvectorfields.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/core/temporalscalarfields.py b/IMTreatment/core/temporalscalarfields.py
index 445aac9..296944e 100644
--- a/IMTreatment/core/temporalscalarfields.py
+++ b/IMTreatment/core/temporalscalarfields.py
@@ -379,7 +379,7 @@ class TemporalScalarFields(tf.TemporalFields):
                                         sum_masks < len(self.fields) - 2)
             # loop on each field position
             for i, j in np.argwhere(super_mask):
-                prof = self.get_time_profile('values', i, j, ind=True)
+                prof = tmp_tsf.get_time_profile('values', [i, j], ind=True)
                 # creating interpolation function
                 if kind == 'value':
                     def interp(x):
@@ -400,14 +400,14 @@ class TemporalScalarFields(tf.TemporalFields):
                 else:
                     raise ValueError("Invalid value for 'kind'")
                 # loop on all profile masked points
-                for ind_masked in prof.mask:
+                for ind_masked in np.where(prof.mask)[0]:
                     try:
-                        interp_val = interp(prof.x[prof.mask])
+                        interp_val = interp(prof.x[ind_masked])
                     except ValueError:
                         continue
                     # putting interpolated value in the field
-                    fields[prof.mask].values[i, j] = interp_val
-                    fields[prof.mask].mask[i, j] = False
+                    fields[ind_masked].mask[i, j] = False
+                    fields[ind_masked].values[i, j] = interp_val
         # spatial interpolation
         elif tof == 'spatial':
             for i, field in enumerate(fields):
diff --git a/IMTreatment/core/temporalvectorfields.py b/IMTreatment/core/temporalvectorfields.py
index 64601f0..9c998a8 100644
--- a/IMTreatment/core/temporalvectorfields.py
+++ b/IMTreatment/core/temporalvectorfields.py
@@ -306,10 +306,10 @@ class TemporalVectorFields(tf.TemporalFields):
             # loop on each field position
             for i, j in np.argwhere(super_mask):
                 # get time profiles
-                prof_x = self.get_time_profile(component='comp_x', pt=[i, j],
-                                               ind=True)
-                prof_y = self.get_time_profile(component='comp_y', pt=[i, j],
-                                               ind=True)
+                prof_x = tmp_tvf.get_time_profile(component='comp_x',
+                                                  pt=[i, j], ind=True)
+                prof_y = tmp_tvf.get_time_profile(component='comp_y',
+                                                  pt=[i, j], ind=True)
                 # getting masked position on profile
                 inds_masked_x = np.where(prof_x.mask)[0]
                 inds_masked_y = np.where(prof_y.mask)[0]
-- 
2.43.0


From ed4133ad959a6bc538cedd4fff8dce9b1da8e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:31 +0000
Subject: [PATCH 62/89] fix: fields without dimension can be added to a set of
 fields

---
 IMTreatment/core/temporalfields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/temporalfields.py b/IMTreatment/core/temporalfields.py
index fac239b..4d8c14d 100644
--- a/IMTreatment/core/temporalfields.py
+++ b/IMTreatment/core/temporalfields.py
@@ -1146,7 +1146,7 @@ class TemporalFields(flds.Fields, fld.Field):
             for unit, vunit in [(self.unit_x, field.unit_x),
                                 (self.unit_y, field.unit_y),
                                 (self.unit_values, field.unit_values)]:
-                if not np.isclose(unit.asNumber(vunit), 1):
+                if not np.isclose((unit/vunit).asNumber(1), 1):
                     raise ValueError("Units of the new field must be "
                                      "consistent with current units")
             # storing time
-- 
2.43.0


From 4ea21024ade8dea90001f49a530c137eddece504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 63/89] fix: the Q criterion is half the difference of the
 squared norms, as documented

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 726c37d..1c47d84 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1104,7 +1104,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    qcrit = .5*(norm_rot2) - norm_shear2
+    qcrit = .5*(norm_rot2 - norm_shear2)
     unit_values = (vectorfield.unit_values/vectorfield.unit_x)**2
     scale = unit_values.asNumber()
     qcrit *= scale
@@ -1204,7 +1204,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
-    Q = .5*(norm_rot2) - norm_shear2
+    Q = .5*(norm_rot2 - norm_shear2)
     # calcul de R
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
-- 
2.43.0


From adc1119c0a9e9d25dfa2033d3d868f41b5816029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 64/89] fix: Q, Nk and delta criteria stay masked where the
 gradients are

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 1c47d84..a19600d 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1101,6 +1101,7 @@ def get_q_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, Exx.mask)
     # calcul de Qcrit
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
@@ -1153,6 +1154,7 @@ def get_Nk_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, Exx.mask)
     # calcul de Nk
     norm_rot = 1./2.**.5*np.abs(Exy - Eyx)
     norm_shear = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)**.5
@@ -1201,6 +1203,7 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
     # calcul des gradients
     Exx, Exy, Eyx, Eyy = get_gradients(vectorfield, raw=True)
+    mask = np.logical_or(mask, Exx.mask)
     # calcul de Q
     norm_rot2 = 1/2.*(Exy - Eyx)**2
     norm_shear2 = (Exx**2 + 1./2.*(Exy + Eyx)**2 + Eyy**2)
@@ -1209,6 +1212,8 @@ def get_delta_criterion(vectorfield, mask=None, raw=False):
     R = np.zeros(Exx.shape)
     for i in np.arange(Exx.shape[0]):
         for j in np.arange(Exx.shape[1]):
+            if mask[i, j]:
+                continue
             Jac = [[Exx[i, j], Exy[i, j]], [Eyx[i, j], Eyy[i, j]]]
             eigval, eigvect = np.linalg.eig(Jac)
             if np.all(np.imag(eigval) == 0):
-- 
2.43.0


From d8f6acc79cd14c55a1555e6e6ade79d10852a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 65/89] fix: raw lambda2 criterion returns the whole field

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index a19600d..80783f7 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1288,7 +1288,7 @@ def get_lambda2(vectorfield, mask=None, raw=False):
             lambda2[i, j] = l2
     # returning
     if raw:
-        return np.ma.masked_array(l2, mask)
+        return np.ma.masked_array(lambda2, mask)
     else:
         lambd_sf = ScalarField()
         axe_x, axe_y = vectorfield.axe_x, vectorfield.axe_y
-- 
2.43.0


From 6d4c866f61b7009b4c6df9c35d02bdb28e110a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 66/89] fix: kappa2 removes the mean velocity of the
 neighbourhood

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 80783f7..693d0e4 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -491,8 +491,8 @@ def get_kappa(vectorfield, radius=None, ind=False, kind='kappa1', mask=None,
         if kind == 'kappa2':
             nmbpts = len(indsaround)
             for indaround in indsaround:
-                v_mean[0] += Vx[ind_x, ind_y]
-                v_mean[1] += Vy[ind_x, ind_y]
+                v_mean[0] += Vx[indaround[0], indaround[1]]
+                v_mean[1] += Vy[indaround[0], indaround[1]]
             v_mean[0] /= nmbpts
             v_mean[1] /= nmbpts
         # Loop on neighbouring points
-- 
2.43.0


From 8639fc70053b8fe8199e57c380003bb0848090e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:56 +0000
Subject: [PATCH 67/89] fix: local angle deviation removes both components of
 the local velocity

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 693d0e4..68b4a55 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -124,7 +124,7 @@ def get_angle_deviation(vectorfield, radius=None, ind=False, mask=None,
             tmp_Vx = vectorfield.comp_x[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vy = vectorfield.comp_y[indsaround[:, 0], indsaround[:, 1]]
             tmp_Vx -= vectorfield.comp_x[ind_x, ind_y]
-            tmp_Vy -= vectorfield.comp_x[ind_x, ind_y]
+            tmp_Vy -= vectorfield.comp_y[ind_x, ind_y]
             angles = _get_angles(tmp_Vx, tmp_Vy)
         # getting neightbour angles repartition
         angles = np.sort(angles)
-- 
2.43.0


From fc23a6dadb20871c22617cb37106c3001b575b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:17 +0000
Subject: [PATCH 68/89] fix: swirling strength stays masked where the gradients
 are

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 68b4a55..72f1c91 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -989,6 +989,7 @@ def get_swirling_strength(vf, raw=False):
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
     du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
-- 
2.43.0


From be1e4cb5d97186d420fd5ad2a2be6da8da68313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:40 +0000
Subject: [PATCH 69/89] fix: swirling strength no longer fails on fields that
 cannot be filled

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 72f1c91..eca1b57 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -984,7 +984,6 @@ def get_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
     mask = tmp_vf.mask
-- 
2.43.0


From 48eb28e03052da950f35a9d03fa8c6b3f4c6001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:47 +0000
Subject: [PATCH 70/89] fix: nodes added by VectorField.extend read as masked
 values

---
 IMTreatment/core/vectorfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/vectorfield.py b/IMTreatment/core/vectorfield.py
index 27287be..ef4bc0b 100644
--- a/IMTreatment/core/vectorfield.py
+++ b/IMTreatment/core/vectorfield.py
@@ -1115,8 +1115,8 @@ class VectorField(field.Field):
                                            nmb_right=nmb_right, nmb_up=nmb_up,
                                            nmb_down=nmb_down, inplace=False)
             new_shape = new_field.shape
-        new_Vx = np.zeros(new_shape, dtype=float)
-        new_Vy = np.zeros(new_shape, dtype=float)
+        new_Vx = np.full(new_shape, np.nan)
+        new_Vy = np.full(new_shape, np.nan)
         if nmb_right == 0:
             slice_x = slice(nmb_left, new_Vx.shape[0] + 2)
         else:
-- 
2.43.0


From 79c8d0e0e4a0904cdfe7d026b0ae4bc90c0a4289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:20 +0000
Subject: [PATCH 71/89] fix: importing a scalar field rejects arrays that do
 not fit the axes

---
 IMTreatment/core/scalarfield.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/IMTreatment/core/scalarfield.py b/IMTreatment/core/scalarfield.py
index 3658735..52ced79 100644
--- a/IMTreatment/core/scalarfield.py
+++ b/IMTreatment/core/scalarfield.py
@@ -522,6 +522,10 @@ class ScalarField(fld.Field):
             values = values[:, ::-1]
             mask = mask[:, ::-1]
         # storing datas
+        if values.shape != (len(axe_x), len(axe_y)) or \
+           mask.shape != values.shape:
+            raise ValueError("'values' and 'mask' should be coherent with "
+                             "the axis")
         self.axe_x = axe_x
         self.axe_y = axe_y
         self.__values = values
-- 
2.43.0


From ba521adb6b3ad2f7c8e2abb298cc3003fdd483f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:08 +0000
Subject: [PATCH 72/89] fix: decomposing a single point returns a new set

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f0420b3..a52a831 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1200,7 +1200,7 @@ class Points(object):
         return a tuple of Points object, with only one point per object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From 00b739d4271c681f0ffc481890efa52faceea7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:36 +0000
Subject: [PATCH 73/89] fix: the rotation direction of a Hill vortex applies to
 its radial velocity too

---
 IMTreatment/vortex_creation/vortex_creation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 9c13636..b1b1f6f 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -301,7 +301,7 @@ class HillVortex(Vortex):
         theta = self._get_theta(self.x0, x, self.y0, y)
         # compute velocity in clyndrical referentiel
         Vr = -3./4.*self.U*r*(1 - r**2/self.rv**2) \
-            * 2*np.sin(theta)*np.cos(theta)
+            * 2*np.sin(theta)*np.cos(theta)*self.rot_dir
         Vphi = 3./2.*self.U*np.sin(theta)**2 \
             * r*(1 - 2*r**2/self.rv**2)*self.rot_dir
         # get velocity in the cartesian refenrentiel
-- 
2.43.0


From b721691079bdfb64bbae5751453831e013ce4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:36 +0000
Subject: [PATCH 74/89] fix: detailed contributions use up-to-date imaginary
 vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index b1b1f6f..97583ce 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -894,6 +894,9 @@ class VortexSystem(object):
         """
         vects = []
         vects_cf = []
+        # refresh if necessary
+        if self.to_refresh:
+            self.refresh_imaginary_vortex()
         if detailed:
             vortex_ids = []
             cf_ids = []
-- 
2.43.0


From 308496261f6b02d8e196b29f3dc4c9490f8cd2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:36 +0000
Subject: [PATCH 75/89] fix: a vortex system keeps its own copy of a custom
 field

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index 97583ce..a644d24 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -732,6 +732,7 @@ class VortexSystem(object):
         """
         if not isinstance(custfield, CustomField):
             raise TypeError()
+        custfield = custfield.copy()
         custfield.id = self.curr_cf_id
         self.curr_cf_id += 1
         self.custfields.append(custfield)
-- 
2.43.0


From ef3325129354567407ad53eb468ffbb5bd399b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:36 +0000
Subject: [PATCH 76/89] fix: removing a vortex updates the number of vortices

---
 IMTreatment/vortex_creation/vortex_creation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_creation/vortex_creation.py b/IMTreatment/vortex_creation/vortex_creation.py
index a644d24..b0677f0 100644
--- a/IMTreatment/vortex_creation/vortex_creation.py
+++ b/IMTreatment/vortex_creation/vortex_creation.py
@@ -765,6 +765,7 @@ class VortexSystem(object):
                 self.im_vortex[i].id -= 1
         # adapt current id
         self.curr_id -= 1
+        self.nmb_vortex -= 1
 
     def display(self):
         """
-- 
2.43.0


From ad82b521d54d3bef7430bcc8fa2a5e29bdf2130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:21 +0000
Subject: [PATCH 77/89] fix: velocity profiles against x or y carry the unit of
 that axis

---
 IMTreatment/core/points.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index a52a831..4f3cd42 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -695,21 +695,24 @@ class Points(object):
         # getting xaxis
         if xaxis == 'time':
             x_prof = times[:-1] + dt/2.
+            unit_prof = self.unit_v
         elif xaxis == 'x':
             x_prof = x[:-1] + dx/2.
+            unit_prof = self.unit_x
         elif xaxis == 'y':
             x_prof = y[:-1] + dy/2.
+            unit_prof = self.unit_y
         # returning profiles
         from .profile import Profile
         unit_Vx = self.unit_x/self.unit_v
         Vx *= unit_Vx.asNumber()
         unit_Vx /= unit_Vx.asNumber()
-        prof_x = Profile(x_prof, Vx, mask=False, unit_x=self.unit_v,
+        prof_x = Profile(x_prof, Vx, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vx)
         unit_Vy = self.unit_y/self.unit_v
         Vy *= unit_Vy.asNumber()
         unit_Vy /= unit_Vy.asNumber()
-        prof_y = Profile(x_prof, Vy, mask=False, unit_x=self.unit_v,
+        prof_y = Profile(x_prof, Vy, mask=False, unit_x=unit_prof,
                          unit_y=unit_Vy)
         return prof_x, prof_y
 
-- 
2.43.0


From 1a15e943043983c3e9ce7ecc053b461f328694ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:21 +0000
Subject: [PATCH 78/89] fix: Points.remove accepts arrays of indices, as
 documented

---
 IMTreatment/core/points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index 4f3cd42..f75b915 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -915,7 +915,7 @@ class Points(object):
         if isinstance(ind, INTEGERTYPES):
             ind = [ind]
         elif isinstance(ind, ARRAYTYPES):
-            if not np.all([isinstance(val, int) for val in ind]):
+            if not np.all([isinstance(val, INTEGERTYPES) for val in ind]):
                 raise TypeError("'ind' must be an integer or an array of"
                                 " integer")
             ind = np.array(ind)
-- 
2.43.0


From 59cf02e591b8410b6b204a5290985fff4e03f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:21 +0000
Subject: [PATCH 79/89] fix: decomposing a single oriented point returns a copy
 of it

---
 IMTreatment/core/orientedpoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index 0a4217e..d362ec4 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -323,7 +323,7 @@ class OrientedPoints(pts.Points):
         object.
         """
         if len(self) == 1:
-            return [self]
+            return [self.copy()]
         if len(self) != len(self.v):
             raise Exception()
         pts_tupl = []
-- 
2.43.0


From c9ab68d592a6048bed26da0bea5c9a7ce8b420c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:40 +0000
Subject: [PATCH 80/89] fix: cutting oriented points cuts their orientations
 too

---
 IMTreatment/core/orientedpoints.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index d362ec4..a2e8193 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -317,6 +317,36 @@ class OrientedPoints(pts.Points):
         if not inplace:
             return tmp_pts
 
+    def cut(self, intervx=None, intervy=None):
+        """
+        Return a point cloud where the given area has been removed.
+
+        Parameters
+        ----------
+        intervx : 2x1 tuple
+            Interval on x axis
+        intervy : 2x1 tuple
+            Interval on y axis
+
+        Returns
+        -------
+        tmp_pts : OrientedPoints object
+            Cutted version of the point cloud.
+        """
+        mask = np.ones(len(self.xy), dtype=bool)
+        if intervx is not None:
+            out_zone = np.logical_and(self.xy[:, 0] > intervx[0],
+                                      self.xy[:, 0] < intervx[1])
+            mask = np.logical_and(mask, out_zone)
+        if intervy is not None:
+            out_zone = np.logical_and(self.xy[:, 1] > intervy[0],
+                                      self.xy[:, 1] < intervy[1])
+            mask = np.logical_and(mask, out_zone)
+        tmp_pts = super(OrientedPoints, self).cut(intervx=intervx,
+                                                  intervy=intervy)
+        tmp_pts.orientations = self.orientations[~mask]
+        return tmp_pts
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
-- 
2.43.0


From 7eefc100ca8d9fe0a8554cb03e04b8acc01a221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:40 +0000
Subject: [PATCH 81/89] fix: sorting oriented points keeps the orientations
 with their points

---
 IMTreatment/core/orientedpoints.py |  7 +++++++
 IMTreatment/core/points.py         | 12 +++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/IMTreatment/core/orientedpoints.py b/IMTreatment/core/orientedpoints.py
index a2e8193..855e71d 100644
--- a/IMTreatment/core/orientedpoints.py
+++ b/IMTreatment/core/orientedpoints.py
@@ -347,6 +347,13 @@ class OrientedPoints(pts.Points):
         tmp_pts.orientations = self.orientations[~mask]
         return tmp_pts
 
+    def _reorder(self, order):
+        """
+        Put the points in the given order (array of indices), in place.
+        """
+        super(OrientedPoints, self)._reorder(order)
+        self.orientations = self.orientations[order]
+
     def decompose(self):
         """
         Return a tuple of OrientedPoints object, with only one point per
diff --git a/IMTreatment/core/points.py b/IMTreatment/core/points.py
index f75b915..350b954 100644
--- a/IMTreatment/core/points.py
+++ b/IMTreatment/core/points.py
@@ -1252,13 +1252,19 @@ class Points(object):
             tmp_pt = self
         else:
             tmp_pt = self.copy()
-        tmp_pt.xy = tmp_pt.xy[order]
-        if len(tmp_pt.v) == len(tmp_pt.xy):
-            tmp_pt.v = tmp_pt.v[order]
+        tmp_pt._reorder(order)
         # returning
         if not inplace:
             return tmp_pt
 
+    def _reorder(self, order):
+        """
+        Put the points in the given order (array of indices), in place.
+        """
+        self.xy = self.xy[order]
+        if len(self.v) == len(self.xy):
+            self.v = self.v[order]
+
     def order_on_line(self, inplace=False):
         """
         Re-order the set of points to try to create a line.
-- 
2.43.0


From 82852b65b15aa92b272b85a9024c5415b555b7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 82/89] fix: iota is masked next to masked vectors

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index eca1b57..5d909d4 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -576,6 +576,7 @@ def get_iota(vectorfield, mask=None, radius=None, ind=False, raw=False):
     else:
         theta = vectorfield.theta
         mask = np.logical_or(mask, vectorfield.mask)
+    theta[mask] = np.nan
     # calcul du gradients de theta
     # necesary steps to avoid big gradients by passing from 0 to 2*pi
     theta1 = theta.copy()
-- 
2.43.0


From d71b5c4b8ba26303435426164046415c89e3195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:52 +0000
Subject: [PATCH 83/89] fix: improved swirling strength of fields with masked
 vectors

---
 IMTreatment/vortex_criterions/vortex_criterions.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/IMTreatment/vortex_criterions/vortex_criterions.py b/IMTreatment/vortex_criterions/vortex_criterions.py
index 5d909d4..446a2dd 100644
--- a/IMTreatment/vortex_criterions/vortex_criterions.py
+++ b/IMTreatment/vortex_criterions/vortex_criterions.py
@@ -1037,15 +1037,10 @@ def get_improved_swirling_strength(vf, raw=False):
     if not isinstance(vf, VectorField):
         raise TypeError()
     tmp_vf = vf.copy()
-    tmp_vf.fill()
     # Getting gradients and axes
     axe_x, axe_y = tmp_vf.axe_x, tmp_vf.axe_y
-    comp_x, comp_y = tmp_vf.comp_x, tmp_vf.comp_y
-    mask = tmp_vf.mask
-    dx = axe_x[1] - axe_x[0]
-    dy = axe_y[1] - axe_y[0]
-    du_dx, du_dy = np.gradient(comp_x, dx, dy)
-    dv_dx, dv_dy = np.gradient(comp_y, dx, dy)
+    du_dx, du_dy, dv_dx, dv_dy = get_gradients(vf, raw=True)
+    mask = np.logical_or(tmp_vf.mask, du_dx.mask)
     # swirling stregnth matrix
     swst = np.zeros(tmp_vf.shape)
     # loop on  points
-- 
2.43.0


From fa5105778e177ac0aaf715001bffefda33f2ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 84/89] fix: boundary layer quantities of scalar fields ask for
 profiles by axis name

---
 IMTreatment/boundary_layer/boundary_layer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index ae9be9a..910f246 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -846,7 +846,7 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -896,10 +896,10 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu)
-                  for prof, _ in profiles]
+                  for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
 
 
@@ -952,7 +952,7 @@ def get_displ_thickness(obj, direction=1):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -1009,7 +1009,7 @@ def get_momentum_thickness(obj, direction=1):
             axe = obj.axe_x
         else:
             axe = obj.axe_y
-        profiles = [obj.get_profile(direction, x) for x in axe]
+        profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
         return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
     else:
@@ -1140,7 +1140,7 @@ def get_shear_stress(obj, direction=1, method='simple',
         else:
             axe = obj.axe_y
         # get profiles
-        profiles = [obj.get_profile(direction, pos_ind, ind=True)
+        profiles = [obj.get_profile('xy'[direction - 1], pos_ind, ind=True)
                     for pos_ind in range(len(axe))]
         # get shear stresses
         values = np.zeros(obj.shape)
-- 
2.43.0


From 3451299dcea16168180d6c62d4c100f96a2f908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 85/89] fix: units of boundary layer thicknesses along y

---
 IMTreatment/boundary_layer/boundary_layer.py | 24 ++++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 910f246..d9a19eb 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -843,12 +843,12 @@ def get_bl_thickness(obj, direction=1, perc=0.95):
         return value[0]
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_bl_thickness(prof, perc=perc) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL thickness on this kind of"
                         " data : {}".format(type(obj)))
@@ -893,14 +893,14 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
     # if obj is a scalarField
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
                                         nu=nu)
                   for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
 
 
 def get_displ_thickness(obj, direction=1):
@@ -949,12 +949,12 @@ def get_displ_thickness(obj, direction=1):
         return delta
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_displ_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL displacement thickness on"
                         "this kind of data : {}".format(type(obj)))
@@ -1006,12 +1006,12 @@ def get_momentum_thickness(obj, direction=1):
         return delta
     elif isinstance(obj, ScalarField):
         if direction == 1:
-            axe = obj.axe_x
+            axe, unit_axe, unit_thick = obj.axe_x, obj.unit_x, obj.unit_y
         else:
-            axe = obj.axe_y
+            axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_momentum_thickness(prof) for prof in profiles]
-        return Profile(axe, values, unit_x=obj.unit_x, unit_y=obj.unit_y)
+        return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
     else:
         raise TypeError("Can't compute (yet ?) BL momentum thickness on"
                         "this kind of data")
-- 
2.43.0


From fc8577a51a876b91caeadb69b24cbb09c3a88250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 86/89] fix: unit of the wall shear stress of a field

---
 IMTreatment/boundary_layer/boundary_layer.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index d9a19eb..9c2b9df 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -1145,19 +1145,16 @@ def get_shear_stress(obj, direction=1, method='simple',
         # get shear stresses
         values = np.zeros(obj.shape)
         for i in range(len(profiles)):
+            tau = get_shear_stress(profiles[i], direction=1, method=method,
+                                   respace=False, tau_w_guess=tau_w_guess,
+                                   rho=rho, nu=nu)
             if direction == 1:
-                values[i, :] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[i, :] = tau.y
             else:
-                values[:, i] = get_shear_stress(profiles[i], direction=1,
-                                                method=method, respace=False,
-                                                tau_w_guess=tau_w_guess,
-                                                rho=rho, nu=nu).y
+                values[:, i] = tau.y
         # returning
         mask = np.isnan(values)
-        unit_values = profiles[0].unit_y
+        unit_values = tau.unit_y
         tau_w = ScalarField()
         tau_w.import_from_arrays(obj.axe_x, obj.axe_y, values, mask=mask,
                                  unit_x=obj.unit_x, unit_y=obj.unit_y,
-- 
2.43.0


From dcdc95176fb6017ac7b7f4b742d3f93afca6521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:02 +0000
Subject: [PATCH 87/89] fix: Clauser thickness of fields ignored the given wall
 shear stress

---
 IMTreatment/boundary_layer/boundary_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/boundary_layer/boundary_layer.py b/IMTreatment/boundary_layer/boundary_layer.py
index 9c2b9df..dafc29e 100644
--- a/IMTreatment/boundary_layer/boundary_layer.py
+++ b/IMTreatment/boundary_layer/boundary_layer.py
@@ -898,7 +898,7 @@ def get_clauser_thickness(obj, direction=1, rho=1000, nu=1e-6, tau=None):
             axe, unit_axe, unit_thick = obj.axe_y, obj.unit_y, obj.unit_x
         profiles = [obj.get_profile('xy'[direction - 1], x) for x in axe]
         values = [get_clauser_thickness(prof, direction=direction, rho=rho,
-                                        nu=nu)
+                                        nu=nu, tau=tau)
                   for prof in profiles]
         return Profile(axe, values, unit_x=unit_axe, unit_y=unit_thick)
 
-- 
2.43.0


From 348bba5be637ec6e311dadf6a2cc2b1f46e698ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:54 +0000
Subject: [PATCH 88/89] fix: open walls of potential flows were closed by an
 extra panel

---
 IMTreatment/potential_flow/potential_flow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index d6b753a..e128a37 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -431,8 +431,8 @@ class object_1D(object):
             new_x += list(np.linspace(x[i], x[i + 1], tmp_nmb + 1)[:-1])
             new_y += list(np.linspace(y[i], y[i + 1], tmp_nmb + 1)[:-1])
         # closing
-        new_x += [x[0]]
-        new_y += [y[0]]
+        new_x += [x[-1]]
+        new_y += [y[-1]]
         new_x = np.array(new_x, dtype=float)
         new_y = np.array(new_y, dtype=float)
         # storing new values
-- 
2.43.0


From 1d65f063dad26f826826280d16e75f0b9a523bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:54 +0000
Subject: [PATCH 89/89] fix: points beyond the ends of a panel were taken as
 lying on it

---
 IMTreatment/potential_flow/potential_flow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/IMTreatment/potential_flow/potential_flow.py b/IMTreatment/potential_flow/potential_flow.py
index e128a37..17db5c6 100644
--- a/IMTreatment/potential_flow/potential_flow.py
+++ b/IMTreatment/potential_flow/potential_flow.py
@@ -577,7 +577,7 @@ class Panel(object):
         """
         # check if around the point c
         dist_c = (self.xc - x)**2 + (self.yc - y)**2
-        if dist_c > self.length2/2.:
+        if dist_c > (self.length/2. + eps_abs)**2:
             return False
         # check if on the panle line
         if self.vertical:
-- 
2.43.0

