From d4c5f0c46830b89cc388b41f3374a9420b4193dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 01/60] fix: encode string variables as ASCII when converting
 them to characters

stringtochar() of current netCDF4 versions can not convert byte string arrays
with encoding='utf-8' and raises an AttributeError, i.e., SOFA objects with
string variables could not be written at all.
---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..664725a 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -330,7 +330,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                tmp_var[:] = stringtochar(value, encoding='ascii')
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
-- 
2.43.0


From 6586d772947be01aa1104aeee23533c4d7974d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 02/60] fix: write and read non-ASCII string variables and
 arrays of any shape

---
 sofar/io.py   | 13 +++++++++----
 sofar/sofa.py | 17 +++++++++--------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 664725a..b6850f0 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -2,7 +2,7 @@
 import contextlib
 import os
 import numpy as np
-from netCDF4 import Dataset, chartostring, stringtochar
+from netCDF4 import Dataset, chartostring
 import warnings
 import pathlib
 from packaging.version import parse
@@ -330,7 +330,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='ascii')
+                # split the strings into single (utf-8 encoded) characters
+                tmp_var[:] = np.ascontiguousarray(value).view("S1").reshape(
+                    value.shape + (-1, ))
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
@@ -376,7 +378,10 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = "f8"
     elif dtype == "string":
-        value = np.array(value, dtype=f"S{str(S)}")
+        value = np.array(value)
+        if value.dtype.kind == "U":
+            value = np.char.encode(value, "utf-8")
+        value = value.astype(f"S{str(S)}")
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = 'S1'
     else:
@@ -412,7 +417,7 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="ascii")
+            value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..7018734 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1766,25 +1766,26 @@ class Sofa():
         """
         String variables can be strings, list of strings, or numpy arrays of
         strings. This functions returns the length of the longest string S
-        inside the string variable and the shape of the string variable as
-        required by the SOFA definition. Note that the shape is the shape of
+        (in bytes after encoding as utf-8) inside the string variable and the
+        shape of the string variable as required by the SOFA definition. Note that the shape is the shape of
         the array that holds the strings. NETCDF stores all string variables in
         arrays.
         """
 
         if isinstance(value, str):
-            S = len(value)
             shape = (1, 1)
-        elif isinstance(value, list):
-            S = len(max(value, key=len))
+        elif isinstance(value, (list, np.ndarray)):
             shape = np.array(value).shape
-        elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
-            shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
                              "or list of strings"))
 
+        # get maximum string length
+        value = np.array(value)
+        if value.dtype.kind == "U":
+            value = np.char.encode(value, "utf-8")
+        S = np.max(np.char.str_len(value), initial=0)
+
         return S, shape
 
     @staticmethod
-- 
2.43.0


From 275eae633fa76a48a1c0f8a2b99eb192c11447fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 03/60] fix: accept byte string arrays as documented for string
 variables

---
 sofar/sofa.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 7018734..dbc55c7 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1046,8 +1046,7 @@ class Sofa():
                                       f"but is {type(value)}\n")
 
                 if isinstance(value, np.ndarray) and not (
-                        str(value.dtype).startswith('<U') or
-                        str(value.dtype).startswith('<S')):
+                        value.dtype.kind in ["U", "S"]):
                     current_error += (f"- {key} must be U or S "
                                       f"but is {type(value.dtype)}\n")
 
-- 
2.43.0


From 485b1c5d594086b4e8b8352ee219f071d872bee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 04/60] fix: verify with issue_handling='ignore' does not raise
 for data of wrong type

---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index dbc55c7..9a5822e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1065,7 +1065,10 @@ class Sofa():
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail. Warnings are not reported until
         # the end
-        if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
+        if error_msg != "\nERRORS\n------\n":
+            if issue_handling == "ignore":
+                return
+
             _, issues = self._verify_handle_issues(
                     "\nWARNINGS\n--------\n", error_msg, issue_handling)
 
-- 
2.43.0


From 5efecfedf33b493f7868c5b3fc41722000bec1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 05/60] fix: verify custom variables with names ending on
 'Units'

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 9a5822e..098467e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1377,7 +1377,8 @@ class Sofa():
         # message can be generated)
 
         if mode == "write":
-            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
+            keys = [k for k in self.__dict__.keys() if k.endswith("Units")
+                    and self._convention[k]["type"] == "attribute"]
             for key in keys:
                 unit = getattr(self, key)
                 if unit.lower() != unit:
-- 
2.43.0


From 55a0443a58d22493c9b4e2633f44ad5636d25ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 06/60] fix: inspect string variables given as str

---
 sofar/sofa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 098467e..5d70c5c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -458,7 +458,8 @@ class Sofa():
             value = getattr(self, key)
 
             # information for attributes and scalars
-            if self._convention[key]["type"] == "attribute" or value.size == 1:
+            if self._convention[key]["type"] == "attribute" \
+                    or np.size(value) == 1:
                 info_str += str(value) + "\n"
             # information for variables
             else:
-- 
2.43.0


From eb738cb966e318cd57238f5692eaab93c122c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 07/60] fix: inspect objects that contain data of wrong type or
 shape

---
 sofar/sofa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 5d70c5c..ffa1e4d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -464,8 +464,10 @@ class Sofa():
             # information for variables
             else:
                 # get shape and dimension
+                # (the dimensions are unknown for data of wrong type or shape)
                 shape = value.shape
-                dimension = self._dimensions[key]
+                dimension = getattr(self, "_dimensions", {}).get(
+                    key, "?" * len(shape))
 
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
-- 
2.43.0


From 0f8a0a86001b95cbad88a8217b61e31f35a38c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 08/60] fix: verify detects surplus dimensions that are not
 singleton

---
 sofar/sofa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index ffa1e4d..04ea483 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1257,6 +1257,9 @@ class Sofa():
                 shape_compare = shape_act[:len(shape_ref)]
                 for _ in range(len(shape_ref) - len(shape_compare)):
                     shape_compare += (1, )
+                # only singleton dimensions can be cropped
+                if any(s != 1 for s in shape_act[len(shape_ref):]):
+                    shape_compare = shape_act
 
                 # check if the shapes match and write to API
                 if shape_compare == shape_ref:
-- 
2.43.0


From d66961ba1be2a99d4ee237c63b39d04b481f7fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 09/60] fix: detect the size of custom dimensions from 1D data
 passed as list

---
 sofar/sofa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 04ea483..2e86d59 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1205,8 +1205,10 @@ class Sofa():
             for idx, dim in enumerate(dimensions.split(", ")[0]):
                 if dim not in "ICS" and dim.islower():
                     # numeric data
+                    # (1D data can have any shape, e.g., if passed as list)
                     self._api[dim.upper()] = \
-                        _nd_newaxis(value, 4).shape[idx]
+                        np.size(value) if len(dimensions) == 1 \
+                        else _nd_newaxis(value, 4).shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From 2664498280eab166f84a3f8effa1abbbe1b901e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:36 +0000
Subject: [PATCH 10/60] fix: equals detects different shapes, missing data, and
 non-ASCII strings

---
 sofar/utils.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..1181799 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -211,20 +211,35 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         # compare double variables
         elif type_a == "double" and type_b == "double":
 
+            # discard trailing singleton dimensions
+            if len(sofa_a._convention[key]["dimensions"].split(",")[0]) == 1:
+                a, b = np.ravel(a), np.ravel(b)
+            ndim = max(np.ndim(a), np.ndim(b), 4)
+            a, b = _atleast_nd(a, ndim), _atleast_nd(b, ndim)
+
             try:
-                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
+                # check explicitly because assert_allclose broadcasts scalars
+                # and ignores missing data
+                npt.assert_equal(a.shape, b.shape)
+                npt.assert_array_equal(
+                    np.ma.getmaskarray(a), np.ma.getmaskarray(b))
+                npt.assert_allclose(a, b)
             except AssertionError:
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
-            try:
-                assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
-            except AssertionError:
+            # discard trailing singleton dimensions
+            ndim = max(np.ndim(a), np.ndim(b), 4)
+            a, b = _nd_newaxis(a, ndim), _nd_newaxis(b, ndim)
+            # byte strings can also be stored as unicode strings
+            a, b = [np.char.decode(x, "utf-8") if x.dtype.kind == "S"
+                    else x.astype("U") for x in (a, b)]
+
+            if not np.array_equal(a, b):
                 is_identical = _equals_raise_warning(
-                    "not identical: different values for {key}", verbose)
+                    f"not identical: different values for {key}", verbose)
         else:
             is_identical = _equals_raise_warning(
                 (f"not identical: {key} has different data types "
-- 
2.43.0


From 74e59be26ad815e772adaf8337b2b574c6381602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:00 +0000
Subject: [PATCH 11/60] fix: failing to add custom data does not change the
 SOFA object

---
 sofar/sofa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 2e86d59..fc2d31b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -705,8 +705,14 @@ class Sofa():
         dtype : string
             double, string, or attribute
         """
-        # create custom API if it not exists
+        # add attribute to object (before changing the custom API, because it
+        # might fail for invalid values)
         self.protected = False
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = True
+            raise
 
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
@@ -714,6 +720,7 @@ class Sofa():
                           for d in dimensions]
             dimensions = "".join(dimensions)
 
+        # create custom API if it not exists and
         # add user entry to custom API, if not contained in the convention
         if not hasattr(self, "_convention") or key not in self._convention:
             if not hasattr(self, "_custom"):
@@ -727,8 +734,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From 2b6e1364844258b1f3171a25cd5c5d3ae7577f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 12/60] fix: list dimensions for all data types

---
 sofar/sofa.py       | 2 ++
 sofar/sofastream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index fc2d31b..f3fa50e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -227,6 +227,8 @@ class Sofa():
             N_verbose = "frequencies"
         elif self.GLOBAL_DataType.startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..021363a 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -158,6 +158,8 @@ class SofaStream():
             N_verbose = "frequencies"
         elif self._file.getncattr('DataType').startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "samples, frequencies, or SOS coefficients"
 
         # get verbose description for dimensions R and E
         R_verbose = (
-- 
2.43.0


From 8b0b888a301b933f61ad88a39ed4f6b2e0079d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 13/60] fix: allow adding attributes of Data variables as
 documented

---
 sofar/sofa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index f3fa50e..4c18923 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -666,9 +666,10 @@ class Sofa():
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
         if dtype == "attribute":
-            if name.count("_") != 1 or \
-                    (name.startswith("Data_") and (name.count("_") == 0 or
-                                                   name.count("_") > 2)):
+            # two underscores are allowed for Data_Variable_Attribute
+            if name.count("_") != 1 and not (
+                    name.startswith("Data_") and name.count("_") == 2 and
+                    name[:name.rindex("_")] in self._convention):
                 raise ValueError((f"The name of {name} must have the "
                                   "form VariableName_AttributeName"))
             if not name.startswith("GLOBAL_") and \
-- 
2.43.0


From 14f4a147907e87ea9f39d0461810b2ce9bbffe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:24 +0000
Subject: [PATCH 14/60] fix: verify returns warnings if issue_handling is
 'return'

---
 sofar/sofa.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4c18923..d7291c4 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1434,14 +1434,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From c976ca0d6e2c874063b2d72215fc8499343bbcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 15/60] fix: write and read attributes with names used by the
 netCDF4 package

---
 sofar/io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index b6850f0..2a87f02 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -145,7 +145,7 @@ def _read_netcdf(filename, verify, verbose, mode):
         # load global attributes
         for attr in file.ncattrs():
 
-            value = getattr(file, attr)
+            value = file.getncattr(attr)
             all_attr.append(f"GLOBAL_{attr}")
 
             if not hasattr(sofa, f"GLOBAL_{attr}"):
@@ -176,7 +176,7 @@ def _read_netcdf(filename, verify, verbose, mode):
             # load variable attributes
             for attr in [a for a in file[var].ncattrs() if a not in skip]:
 
-                value = getattr(file[var], attr)
+                value = file[var].getncattr(attr)
                 all_attr.append(var.replace(".", "_") + "_" + attr)
 
                 if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
@@ -301,7 +301,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
         # write global attributes
         keys = [key for key in all_keys if key.startswith("GLOBAL_")]
         for key in keys:
-            setattr(file, key[7:], str(getattr(sofa, key)))
+            file.setncattr(key[7:], str(getattr(sofa, key)))
 
         # write data
         for key in all_keys:
@@ -337,8 +337,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
             for sub_key in sub_keys:
-                setattr(tmp_var, sub_key[len(key)+1:],
-                        str(getattr(sofa, sub_key)))
+                tmp_var.setncattr(sub_key[len(key)+1:],
+                                  str(getattr(sofa, sub_key)))
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
-- 
2.43.0


From 59ac9c8fa8655aeb869547a892f6ec078e1b171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 16/60] fix: write only attributes as attributes of variables

---
 sofar/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 2a87f02..b38af86 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -335,7 +335,9 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                     value.shape + (-1, ))
 
             # write variable attributes
-            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
+            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
+                        and sofa._convention[k]["type"] == "attribute"
+                        and "_" not in k[len(key)+1:]]
             for sub_key in sub_keys:
                 tmp_var.setncattr(sub_key[len(key)+1:],
                                   str(getattr(sofa, sub_key)))
-- 
2.43.0


From 1677094b5233ab85c6374ee2f82e0f5b6c8fa759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 17/60] fix: append '.sofa' instead of replacing parts of
 filenames with dots

---
 sofar/io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index b38af86..7cecf65 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -112,7 +112,7 @@ def read_sofa_as_netcdf(filename):
 def _read_netcdf(filename, verify, verbose, mode):
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
     if not os.path.isfile(filename):
         raise ValueError(f"{filename} does not exist")
 
@@ -263,7 +263,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
     """
 
     # check the filename
-    filename = pathlib.Path(filename).with_suffix('.sofa')
+    filename = _append_suffix(filename)
 
     if verify:
         # check if the latest version is used for writing and warn otherwise
@@ -343,6 +343,14 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                                   str(getattr(sofa, sub_key)))
 
 
+def _append_suffix(filename):
+    """Return filename as Path and append '.sofa' if it is not given."""
+    filename = pathlib.Path(filename)
+    if filename.suffix.lower() != ".sofa":
+        filename = filename.with_name(filename.name + ".sofa")
+    return filename
+
+
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
     """
     Format value from SOFA object for saving in a NETCDF4 file.
-- 
2.43.0


From e281a6522767e5a105e38bbc7f78073b3d3dc9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 18/60] fix: verify multiple units separated by spaces

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d7291c4..d43bc4e 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1520,6 +1520,10 @@ class Sofa():
         # (regexp ', ?' matches ', ' and ',')
         units_ref = re.split(', ?', ref[0])
         units_test = re.split(', ?', test)
+        # only split at spaces if required (units can contain spaces, e.g.,
+        # 'cubic metre')
+        if len(units_ref) != len(units_test):
+            units_test = re.split(', ?| ', test)
 
         # check if number of units agree
         if len(units_ref) != len(units_test):
-- 
2.43.0


From 21bef9564098240b484b4054c12945085747d589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:01 +0000
Subject: [PATCH 19/60] fix: upgrading versions without upgrade rules

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d43bc4e..0bf008f 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -817,6 +817,10 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-- 
2.43.0


From 73bef3777e418cf29eaab8390898ece328381d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 20/60] fix: upgrade data that does not contain all optional
 entries

---
 sofar/sofa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0bf008f..2525133 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -855,6 +855,9 @@ class Sofa():
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
             move_info = f"- Moving {source_sofar} to {target_sofar}."
+            # optional data might not be contained
+            if not hasattr(self, source_sofar):
+                continue
             # get data
             data = getattr(self, source_sofar)
             # delete from Sofa object
@@ -887,6 +890,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # optional data might not be contained
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From f91252a18b5461d983e9cab640a3c0397b0cbd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:34 +0000
Subject: [PATCH 21/60] fix: find conventions in paths that contain special
 glob characters

---
 sofar/update_conventions.py | 2 ++
 sofar/utils.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..7c36793 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -210,6 +210,8 @@ def _compile_conventions(conventions_path=None):
         raise ValueError(f"{conventions_path} does not exist")
 
     # get list of source conventions
+    # (the path might contain characters with a special meaning for glob)
+    conventions_path = glob.escape(conventions_path)
     csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \
         glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))
 
diff --git a/sofar/utils.py b/sofar/utils.py
index 1181799..61d02bb 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -97,6 +97,8 @@ def _get_conventions(return_type, conventions_path=None):
     reg_str = "*.csv" if return_type == "path_source" else "*.json"
 
     # SOFA convention files
+    # (the path might contain characters with a special meaning for glob)
+    conventions_path = glob.escape(conventions_path)
     standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
     deprecated = list(
         glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
-- 
2.43.0


From df036f3149a988aae31907653ad29a5594cd2762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 22/60] fix: SofaStream finds all entries by the names they
 have in SOFA objects

---
 sofar/sofastream.py | 49 ++++++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 021363a..2a578a0 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -88,35 +88,30 @@ class SofaStream():
         Executed when accessing data within a with statement
         (see documentation above).
         """
-        # get netCDF4-attributes and -variable-keys from SOFA-file
-        dset_variables = np.array(list(self._file.variables.keys()))
-        dset_attributes = np.asarray(self._file.ncattrs())
-
-        # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
-
-        # Handle variable-attributes (e.g. '_Units' and '_Type')
-        var_attr = None
-        if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
-
-        # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
-            # get variable from SOFA-file
-            self._data = self._file.variables[name_netcdf]
-            if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
+        # private attributes are never contained in SOFA-files
+        # (and are missing if the file was not yet opened)
+        if name.startswith("_"):
+            raise AttributeError(f"{name} is not contained in SOFA-file")
 
-        # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
-            # get attribute value from SOFA-file
-            self._data = self._file.getncattr(name_netcdf)
+        # get value if passed attribute points to a netCDF4-variable or to the
+        # attribute of a variable (e.g. '_Units' and '_Type')
+        for key, variable in self._file.variables.items():
+            # use sofar naming convention, e.g., Data_IR instead of Data.IR
+            key = key.replace(".", "_")
 
-        else:
-            raise AttributeError(f"{name} is not contained in SOFA-file")
+            if name == key:
+                return variable
+
+            if name.startswith(f"{key}_") and \
+                    name[len(key) + 1:] in variable.ncattrs():
+                return variable.getncattr(name[len(key) + 1:])
+
+        # get value if passed attribute points to a netCDF4-attribute
+        attr = name[7:] if name.startswith("GLOBAL_") else name
+        if attr in self._file.ncattrs():
+            return self._file.getncattr(attr)
 
-        return self._data
+        raise AttributeError(f"{name} is not contained in SOFA-file")
 
     @property
     def list_dimensions(self):
@@ -292,7 +287,7 @@ class SofaStream():
             # Add variable-attributes to info string (e.g. 'Type' or 'Units)
             for att_ in list(self._file[key].ncattrs()):
                 info_str += (key.replace('.', '_') + f'_{att_} : '
-                             + getattr(data, att_) + '\n')
+                             + str(data.getncattr(att_)) + '\n')
 
         # write to text file
         if file is not None:
-- 
2.43.0


From 9986df23716e87d8b365ee28bdaa21471b2003ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 23/60] fix: update read only data together with the convention

---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 2525133..cbbfa13 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1689,6 +1689,11 @@ class Sofa():
             for key in self._custom:
                 self._convention[key] = self._custom[key]
 
+        # update read only attributes
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
+
     def _load_convention(self, convention, version):
         """
         Load SOFA convention from json file.
-- 
2.43.0


From bd3a3191ad89035b7285a321e6ab0e4c536f0229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 24/60] fix: verify dependencies of values with upper case
 letters

---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index cbbfa13..de576d5 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1325,9 +1325,9 @@ class Sofa():
                                   f"but must be {', '.join(ref)}\n")
 
             # get lower case value for of test for verifying specific
-            # dependencies
-            if isinstance(test, str) and test.lower() in \
-                    ["cartesian", "spherical", "spherical harmonics"]:
+            # dependencies (case sensitive only for the items below)
+            if isinstance(test, str) and key_sofar not in \
+                    ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
                 test = test.lower()
 
             # check general dependencies
-- 
2.43.0


From 89c29d6c4587021dcbb0f0db1ebe3c1d3377332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 25/60] fix: verify custom data without emitting warnings

---
 sofar/sofa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index de576d5..8ffe7b0 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1176,9 +1176,9 @@ class Sofa():
         if hasattr(self, "_custom"):
 
             # get normative variables and attributes
-            normative = sf.Sofa(
+            normative = self._load_convention(
                 self.GLOBAL_SOFAConventions,
-                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
+                self.GLOBAL_SOFAConventionsVersion).keys()
             normative = [n.replace("GLOBAL_", "") for n in normative]
 
             # compare against custom
-- 
2.43.0


From 43dd2b4eceacefdec81af68764fff5d9b4ddce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 26/60] fix: do not store error pages when updating the
 conventions

---
 sofar/update_conventions.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 7c36793..810bbd6 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,12 +58,12 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
+    page = _download(urls[0]).text
     soup = BeautifulSoup(page, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
+    page = _download(urls[1]).text
     soup = BeautifulSoup(page, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
@@ -106,7 +106,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             )
 
             # download SOFA convention definitions to package directory
-            data = requests.get(url)
+            data = _download(url)
             # remove windows style line breaks and trailing tabs
             data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
 
@@ -189,6 +189,13 @@ def update_conventions(conventions_path=None, assume_yes=False):
             print("... conventions already up to date.")
 
 
+def _download(url):
+    """Download from url and raise an error if this failed."""
+    response = requests.get(url)
+    response.raise_for_status()
+    return response
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From 3b554edf3676883cbdfd359a7594ac353b5e3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 27/60] fix: do not destroy existing files if the compression
 is invalid

---
 sofar/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index 7cecf65..b4753bc 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -281,6 +281,11 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                     " data with Sofa.upgrade_convention() before "
                     "writing to disk if possible."), stacklevel=2)
 
+    # check before an already existing file is overwritten
+    if compression is not None and compression not in range(10):
+        raise ValueError((f"compression is {compression} but must be an "
+                          "integer between 0 and 9"))
+
     # setting the netCDF compression parameter
     use_zlib = compression != 0
 
-- 
2.43.0


From 3b0734fabd9194191a9ea8c2f67a6de170e2d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 28/60] fix: verify custom variables with more than four
 dimensions

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8ffe7b0..db0f60d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1226,7 +1226,7 @@ class Sofa():
                     # (1D data can have any shape, e.g., if passed as list)
                     self._api[dim.upper()] = \
                         np.size(value) if len(dimensions) == 1 \
-                        else _nd_newaxis(value, 4).shape[idx]
+                        else _nd_newaxis(value, idx + 1).shape[idx]
                 if dim == "S":
                     # string data
                     S = max(S, np.max(self._get_size_and_shape_of_string_var(
-- 
2.43.0


From 1dafada06971c6463dd8edeff84598682ee67949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 29/60] fix: read variables without dimensions

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index b4753bc..e8d3fbb 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -442,6 +442,6 @@ def _format_value_from_netcdf(value, key):
     # as scalar metadata, e.g., the SamplingRate
     data_keys = ["Data_IR", "Data_Real", "Data_Imag", "Data_SOS" "Data_Delay"]
     if value.size == 1 and key not in data_keys:
-        value = value[0]
+        value = value[0] if value.ndim else value[()]
 
     return value
-- 
2.43.0


From ff49bdb5ad6549b2fd33aa803883e2c0e32907af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 30/60] fix: write string variables with more than two
 dimensions

---
 sofar/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index e8d3fbb..d020d66 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -337,7 +337,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             else:
                 # split the strings into single (utf-8 encoded) characters
                 tmp_var[:] = np.ascontiguousarray(value).view("S1").reshape(
-                    value.shape + (-1, ))
+                    tmp_var.shape[:-1] + (-1, ))
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
-- 
2.43.0


From 2637399cc2c7aaa929b84f96cf32107fa42997d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 31/60] fix: custom data can be added again after deleting it

---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index db0f60d..65b17b2 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -176,6 +176,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From 79337e6f97ba7610691f5bbcee947bb7f2b09537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 32/60] fix: refuse custom variables that can not be written
 due to dimension S

---
 sofar/sofa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 65b17b2..b10d926 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -682,6 +682,11 @@ class Sofa():
                               "dtype double and string"))
         if dimensions is not None:
             dimensions = dimensions.upper()
+            if (dtype == "string" and not dimensions.endswith("S")) or \
+                    (dtype == "double" and "S" in dimensions):
+                raise ValueError((
+                    "dimensions of string variables must end with S and "
+                    "dimensions of double variables must not contain S"))
             for dimension in dimensions:
                 if dimension not in "ERMNCIS":
                     warnings.warn(
-- 
2.43.0


From eb65397a037a586338247668603b5d888986dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:36 +0000
Subject: [PATCH 33/60] fix: write data with surplus trailing singleton
 dimensions

---
 sofar/io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/io.py b/sofar/io.py
index d020d66..e82b738 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -391,6 +391,9 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         netcdf_dtype = "attribute"
     elif dtype == "double":
         value = _atleast_nd(value, len(dimensions))
+        # discard surplus trailing singleton dimensions
+        if value.ndim > len(dimensions) > 1:
+            value = value.reshape(value.shape[:len(dimensions)])
         netcdf_dtype = "f8"
     elif dtype == "string":
         value = np.array(value)
-- 
2.43.0


From 3bf84e449d484e85766a9511aeb57aee5f031601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 34/60] fix: verify detects one dimensional data with several
 axes

---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index b10d926..bbae28d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1267,7 +1267,10 @@ class Sofa():
                 shape_act = _atleast_nd(value, 4).shape
             else:
                 # scalar of single dimensional array like data
-                shape_act = (np.array(value).size, )
+                # (can have singleton dimensions, e.g., if passed as list)
+                shape_act = np.shape(value)
+                if np.max(shape_act, initial=1) == np.size(value):
+                    shape_act = (np.size(value), )
 
             shape_matched = False
             for dim in dimensions.split(", "):
-- 
2.43.0


From 46a9428fdeb78fb82a3308447cc794fa4dd1bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 35/60] fix: inspect shows the size of one dimensional data
 given as row

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index bbae28d..83dcd2d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -472,6 +472,10 @@ class Sofa():
                 dimension = getattr(self, "_dimensions", {}).get(
                     key, "?" * len(shape))
 
+                # one dimensional data might be given as row, e.g., `[[1, 2]]`
+                if len(dimension) == 1:
+                    shape = (value.size, )
+
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
                 while len(shape) < len(dimension):
-- 
2.43.0


From fdd8a6b641495d892f41cb12e7db18cd5fe3b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 36/60] fix: comparison does not depend on the order of the
 objects

---
 sofar/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index 61d02bb..115ba9b 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -214,10 +214,9 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             # discard trailing singleton dimensions
-            if len(sofa_a._convention[key]["dimensions"].split(",")[0]) == 1:
-                a, b = np.ravel(a), np.ravel(b)
             ndim = max(np.ndim(a), np.ndim(b), 4)
-            a, b = _atleast_nd(a, ndim), _atleast_nd(b, ndim)
+            a = _equals_pad_double(a, sofa_a._convention[key], ndim)
+            b = _equals_pad_double(b, sofa_b._convention[key], ndim)
 
             try:
                 # check explicitly because assert_allclose broadcasts scalars
@@ -225,7 +224,9 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
                 npt.assert_equal(a.shape, b.shape)
                 npt.assert_array_equal(
                     np.ma.getmaskarray(a), np.ma.getmaskarray(b))
+                # the tolerance is relative to the second argument
                 npt.assert_allclose(a, b)
+                npt.assert_allclose(b, a)
             except AssertionError:
                 is_identical = _equals_raise_warning(
                     f"not identical: different values for {key}", verbose)
@@ -250,6 +251,17 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
     return is_identical
 
 
+def _equals_pad_double(array, entry, ndim):
+    """Pad double data for comparison without changing its meaning."""
+    one_dimensional = len(entry["dimensions"].split(",")[0]) == 1
+    if one_dimensional and np.size(array) == max(np.shape(array), default=1):
+        # one dimensional data might be given as row, e.g., `[[1, 2]]`
+        array = np.ravel(array)
+        return array.reshape((array.size, ) + (1, ) * (ndim - 1))
+
+    return _atleast_nd(array, ndim)
+
+
 def _equals_raise_warning(message, verbose):
     if verbose:
         warnings.warn(message, stacklevel=2)
-- 
2.43.0


From f47944aba43fd6f8a1c6b2016265ec3ace967296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:58 +0000
Subject: [PATCH 37/60] fix: read variables with big endian byte order

---
 sofar/io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index e82b738..3be23fb 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -425,16 +425,17 @@ def _format_value_from_netcdf(value, key):
         The formatted value.
     """
 
-    if "float" in str(value.dtype) or "int" in str(value.dtype):
+    # (the name of the data type depends on the byte order)
+    if value.dtype.kind in "fiu":
         if np.ma.is_masked(value):
             warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
         else:
             # Convert to numpy array or scalar
             value = np.asarray(value)
-    elif str(value.dtype)[1] in ["S", "U"]:
+    elif value.dtype.kind in "SU":
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
-        if str(value.dtype)[1] == "S":
+        if value.dtype.kind == "S":
             value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
-- 
2.43.0


From c0a072376ef5b0312e1f24462885d2a0df1c82cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 38/60] fix: SofaStream.inspect shows scalar netCDF variables

---
 sofar/sofastream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 2a578a0..31617eb 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -268,7 +268,7 @@ class SofaStream():
 
             # add value for scalars
             if data.size == 1:
-                info_str += str(data[:][0]) + '\n'
+                info_str += str(np.atleast_1d(data[:])[0]) + '\n'
 
             # Handle multidimensional data
             else:
-- 
2.43.0


From 187cf30cff426a31e84bfc895cb2bf779acadbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 39/60] fix: upgrade one dimensional data if moving an axis

---
 sofar/sofa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 83dcd2d..e54795f 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -875,6 +875,9 @@ class Sofa():
             # Check move axis
             moveaxis = upgrade["move"][source]["moveaxis"]
             if moveaxis is not None:
+                # one dimensional numeric data is a row, e.g., [[1, 2]]
+                if data.ndim == 1 and data.dtype.kind not in "SU":
+                    data = data[None]
                 # add dimensions if required
                 # (sofar discards trailing singular dimensions)
                 while data.ndim < np.max(moveaxis) + 1:
-- 
2.43.0


From d6f963a22cd1f40135af2d3621a79a3a139a4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 40/60] fix: repeated updates ignore all trailing tabs

---
 sofar/update_conventions.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 810bbd6..d7d994c 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -108,7 +108,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             # download SOFA convention definitions to package directory
             data = _download(url)
             # remove windows style line breaks and trailing tabs
-            data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
+            data = _clean_line_endings(data.content)
 
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
@@ -121,9 +121,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             if is_standardized and os.path.isfile(standardized_csv):
                 # check for update of a standardized convention
                 with open(standardized_csv, "rb") as file:
-                    data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _clean_line_endings(file.read())
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, convention), "wb") as file:
@@ -141,9 +139,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
             elif not is_standardized and os.path.isfile(deprecated_csv):
                 # check for update of a deprecated convention
                 with open(deprecated_csv, "rb") as file:
-                    data_current = b"".join(file.readlines())
-                    data_current = data_current.replace(
-                        b"\r\n", b"\n").replace(b"\t\n", b"\n")
+                    data_current = _clean_line_endings(file.read())
                 if data_current != data:
                     updated = True
                     with open(os.path.join(temp, 'deprecated', convention),
@@ -196,6 +192,11 @@ def _download(url):
     return response
 
 
+def _clean_line_endings(data):
+    """Remove windows style line breaks and all trailing tabs."""
+    return re.sub(b"\t*\r?\n", b"\n", data)
+
+
 def _compile_conventions(conventions_path=None):
     """
     Compile SOFA conventions (json files) from source conventions (csv files
-- 
2.43.0


From dfdbb1d2e724d282e269f64c572283e04fc16f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 41/60] fix: update conventions that are not deprecated any
 more

---
 sofar/update_conventions.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index d7d994c..bb22825 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -85,6 +85,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
 
     update = []
     deprecate = []
+    restore = []
 
     with TemporaryDirectory() as temp:
         os.mkdir(os.path.join(temp, 'deprecated'))
@@ -110,6 +111,12 @@ def update_conventions(conventions_path=None, assume_yes=False):
             # remove windows style line breaks and trailing tabs
             data = _clean_line_endings(data.content)
 
+            # check if convention is not deprecated any more
+            if is_standardized and os.path.isfile(deprecated_csv):
+                updated = True
+                print(f"- restore convention: {convention[:-4]}")
+                restore.append(deprecated_csv)
+
             # check if convention needs to be added or updated
             if is_standardized and not os.path.isfile(standardized_csv):
                 # add new standardized convention
@@ -178,6 +185,9 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 shutil.copy(
                     os.path.join(temp, 'deprecated', convention),
                     os.path.join(conventions_path, 'deprecated', convention))
+            for deprecated_csv in restore:
+                os.remove(deprecated_csv)
+                os.remove(f"{deprecated_csv[:-3]}json")
             # compile json files from csv file
             _compile_conventions(conventions_path)
             print("... done.")
-- 
2.43.0


From c028e4b39cb6b44953e20baeb6cf905627fff7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:55 +0000
Subject: [PATCH 42/60] fix: parse arrays in conventions regardless of white
 space

---
 sofar/update_conventions.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index bb22825..9f91ec6 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -301,12 +301,9 @@ def _convention_csv2dict(file: str):
                 cell = cell[1:-1]
 
                 if ';' not in cell:
-                    # get rid of white spaces
-                    cell = cell.strip()
-                    cell = cell.replace(' ', ',')
-                    cell = cell.replace(' ', '')
                     # create flat list of integers and floats
-                    numbers = cell.split(',')
+                    # (separated by commas and/or white spaces)
+                    numbers = cell.replace(',', ' ').split()
                     cell = [float(n) if '.' in n else int(n) for n in numbers]
                 else:
                     # create a nested list of integers and floats
@@ -314,11 +311,7 @@ def _convention_csv2dict(file: str):
                     cell = cell.split(';')
                     cell_nd = [None] * len(cell)
                     for idx, cc in enumerate(cell):
-                        # get rid of white spaces
-                        cc = cc.strip()
-                        cc = cc.replace(' ', ',')
-                        cc = cc.replace(' ', '')
-                        numbers = cc.split(',')
+                        numbers = cc.replace(',', ' ').split()
                         cell_nd[idx] = [float(n) if '.' in n else int(n)
                                         for n in numbers]
 
-- 
2.43.0


From fcb9f05e30e2eaec5e9c9ef7ab0fe45a6662aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 43/60] fix: comments of conventions are not parsed as numbers
 or arrays

---
 sofar/update_conventions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 9f91ec6..3caf962 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -288,6 +288,10 @@ def _convention_csv2dict(file: str):
                 if cell is None:
                     line[idc] = cell
                     continue
+                # only the default values can be numbers or arrays
+                if idc != 1:
+                    line[idc] = cell
+                    continue
                 # parse text cells that do not contain arrays
                 if cell[0] != '[':
                     # check for numbers
-- 
2.43.0


From 1e0a8a5bb18ea34fa189ae45e7d02d5ee4ae0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:16 +0000
Subject: [PATCH 44/60] fix: repeated updates ignore trailing tabs in the last
 line

---
 sofar/update_conventions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 3caf962..a69f565 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -204,7 +204,7 @@ def _download(url):
 
 def _clean_line_endings(data):
     """Remove windows style line breaks and all trailing tabs."""
-    return re.sub(b"\t*\r?\n", b"\n", data)
+    return re.sub(b"\t*\r?\n", b"\n", data).rstrip(b"\t")
 
 
 def _compile_conventions(conventions_path=None):
-- 
2.43.0


From 228b8fe30c6e66a7672e8f17ca7d86843b274835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 45/60] fix: inspect writes text files independent of the
 locale

---
 sofar/sofa.py       | 2 +-
 sofar/sofastream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e54795f..702bca4 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -495,7 +495,7 @@ class Sofa():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding='utf-8') as f_id:
                 f_id.write(info_str + "\n")
 
         # output to console
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 31617eb..d821c8a 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -291,7 +291,7 @@ class SofaStream():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding='utf-8') as f_id:
                 f_id.write(info_str + "\n")
 
         # print to console
-- 
2.43.0


From 252a2d99745269cded36e39f0bb0a2bb86233a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 46/60] fix: congruency check does not skip conventions

---
 sofar/update_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index a69f565..1cfad8d 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -429,13 +429,13 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    for convention in list(sofaconventions):
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in list(sofatoolbox):
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From 0fad537ed51a4ecac40d7e08af5f9e3d1e99269e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:44 +0000
Subject: [PATCH 47/60] fix: congruency check ignores all trailing tabs and
 detects failing downloads

---
 sofar/update_conventions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 1cfad8d..11339ab 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -446,10 +446,9 @@ def _check_congruency(save_dir=None, branch="master"):
     for convention in sofaconventions:
 
         # download SOFA convention definitions to package directory
-        data = [requests.get(url + convention) for url in urls_load]
+        data = [_download(url + convention) for url in urls_load]
         # remove trailing tabs and windows style line breaks
-        data = [d.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
-                for d in data]
+        data = [_clean_line_endings(d.content) for d in data]
 
         # check for equality
         if data[0] != data[1]:
-- 
2.43.0


From 58fe12d9971866c152ba3970d04c9ebabbf8e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 48/60] fix: equals applies its tolerance to half precision
 data

The tolerance of 1e-7 was evaluated in the data type of the entry and
vanished for float16 data, so that objects which agree within the tolerance
were reported as different.
---
 sofar/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/utils.py b/sofar/utils.py
index 115ba9b..4d6d413 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -253,6 +253,9 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
 
 def _equals_pad_double(array, entry, ndim):
     """Pad double data for comparison without changing its meaning."""
+    # (the tolerance is lost in data types of low precision)
+    if np.asanyarray(array).dtype.kind == "f":
+        array = np.asanyarray(array).astype(float)
     one_dimensional = len(entry["dimensions"].split(",")[0]) == 1
     if one_dimensional and np.size(array) == max(np.shape(array), default=1):
         # one dimensional data might be given as row, e.g., `[[1, 2]]`
-- 
2.43.0


From 3da12296fb1772c460bdff53ab87f722ef548e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 49/60] fix: list_dimensions recognises spherical harmonics in
 any case

---
 sofar/sofa.py       | 4 ++--
 sofar/sofastream.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 702bca4..1d50e6a 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -233,9 +233,9 @@ class Sofa():
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
-            'harmonic' in self.ReceiverPosition_Type else "receiver"
+            'harmonic' in self.ReceiverPosition_Type.lower() else "receiver"
         E_verbose = "emitter spherical harmonics coefficients" if \
-            'harmonic' in self.EmitterPosition_Type else "emitter"
+            'harmonic' in self.EmitterPosition_Type.lower() else "emitter"
 
         dimensions = {
             "M": "measurements",
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index d821c8a..fcb3dd8 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -159,14 +159,14 @@ class SofaStream():
         # get verbose description for dimensions R and E
         R_verbose = (
             "receiver spherical harmonics coefficients"
-            if 'harmonic'
-            in self._file.variables['ReceiverPosition'].getncattr('Type')
+            if 'harmonic' in self._file.variables[
+                'ReceiverPosition'].getncattr('Type').lower()
             else "receiver"
             )
         E_verbose = (
             "emitter spherical harmonics coefficients"
-            if 'harmonic'
-            in self._file.variables['EmitterPosition'].getncattr('Type')
+            if 'harmonic' in self._file.variables[
+                'EmitterPosition'].getncattr('Type').lower()
             else "emitter"
             )
 
-- 
2.43.0


From 137cef28232a0250e76a8ce64c102b737fa36bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 50/60] fix: the documentation of conventions is written in
 UTF-8

---
 docs/resources/conventions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/resources/conventions.py b/docs/resources/conventions.py
index 643f10c..2e0ced5 100644
--- a/docs/resources/conventions.py
+++ b/docs/resources/conventions.py
@@ -158,5 +158,5 @@ for path, name_version in zip(paths, names_versions):
 
 # write docs to rst file ------------------------------------------------------
 docs_file = os.path.join(base_dir, 'conventions.rst')
-with open(docs_file, 'w') as file:
+with open(docs_file, 'w', encoding='utf-8') as file:
     file.writelines(docs)
-- 
2.43.0


From 1b599545358197142f5e6d56640279512723d776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 51/60] fix: the documentation does not describe all
 conventions as deprecated if the path contains this word

---
 docs/resources/conventions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/docs/resources/conventions.py b/docs/resources/conventions.py
index 2e0ced5..ccf5deb 100644
--- a/docs/resources/conventions.py
+++ b/docs/resources/conventions.py
@@ -57,13 +57,19 @@ docs = (
     '  * **r:** read only data. Data can be written if flag is missing.\n'
     '  * **m:** mandatory data. Data is optional if flag is missing\n\n')
 
+
+def is_deprecated(path):
+    """Deprecated conventions are contained in a separate folder."""
+    return os.path.basename(os.path.dirname(path)) == 'deprecated'
+
+
 # write table of content ------------------------------------------------------
 docs += '.. _conventions:\n\nConventions\n-----------\n\n'
 for path, name_version in zip(paths, names_versions):
     name, version = name_version
 
     label = f'{name} v{version}'
-    if 'deprecated' in path:
+    if is_deprecated(path):
         label += ' (deprecated)'
     reference = f'{name}_{version}'
 
@@ -82,7 +88,7 @@ for path, name_version in zip(paths, names_versions):
         convention = json.load(file)
 
     # write section title
-    if 'deprecated' in path and not deprecated:
+    if is_deprecated(path) and not deprecated:
         docs += 'Deprecated\n----------\n\n'
         deprecated = True
 
-- 
2.43.0


From 3bca9379780f06a54aade79461e481162a86b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:44 +0000
Subject: [PATCH 52/60] fix: the protection of a SOFA object can be set to the
 value it returns

---
 sofar/sofa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 1d50e6a..325ccae 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -150,7 +150,7 @@ class Sofa():
 
         # convert to numpy array or scalar
         if not isinstance(value, (str, dict, np.ndarray)) \
-                and name != "protected":
+                and name not in ["protected", "_protected"]:
             value = np.atleast_2d(value)
             if value.size == 1:
                 value = value.flatten()[0]
-- 
2.43.0


From 758e21fea5fc51d4b87ad25353531a95b9436ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 53/60] fix: inspect returns the issues if issue_handling is
 'return' as documented

---
 sofar/sofa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 325ccae..a89f5c7 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -443,7 +443,7 @@ class Sofa():
 
         # update the private attribute `_convention` to make sure the required
         # meta data is in place
-        self.verify(issue_handling=issue_handling)
+        issues = self.verify(issue_handling=issue_handling)
 
         # list of all attributes
         keys = [k for k in self.__dict__.keys() if not k.startswith("_")]
@@ -501,6 +501,8 @@ class Sofa():
         # output to console
         print(info_str)
 
+        return issues
+
     def add_missing(self, mandatory=True, optional=True, verbose=True):
         """
         Add missing data with default values.
-- 
2.43.0


From 245739710269cfd5b8cc89342cc9ba093fc40e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:05 +0000
Subject: [PATCH 54/60] fix: upgrade_convention returns an empty list if there
 are no targets as documented

---
 sofar/sofa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index a89f5c7..8ac80e6 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -807,7 +807,7 @@ class Sofa():
             if convention_current not in upgrade:
                 print((f"Convention {convention_current} v{version_current} is"
                        " outdated but is missing upgrade rules"))
-                return
+                return []
 
             # check if upgrade is available for this version
             for from_to in upgrade[convention_current]["from_to"]:
@@ -832,11 +832,11 @@ class Sofa():
             else:
                 print((f"Convention {convention_current} v{version_current} is"
                        " outdated but is missing upgrade rules"))
-                return
+                return []
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-            return
+            return []
 
         # get information to upgrade ------------------------------------------
         upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]
-- 
2.43.0


From 6678d2a28d83058aeea2e1dba22e220908c1c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:20 +0000
Subject: [PATCH 55/60] fix: text that can not be encoded is reported by verify
 instead of damaging files

---
 sofar/sofa.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8ac80e6..0493d0c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1060,6 +1060,8 @@ class Sofa():
                 if not isinstance(value, str):
                     current_error += \
                         f"- {key} must be string but is {type(value)}\n"
+                elif not self._is_utf8(value):
+                    current_error += f"- {key} must be valid UTF-8 text\n"
 
             elif dtype == "double":
                 # All variables can be of type float or int, and are converted
@@ -1085,6 +1087,9 @@ class Sofa():
                         value.dtype.kind in ["U", "S"]):
                     current_error += (f"- {key} must be U or S "
                                       f"but is {type(value.dtype)}\n")
+                elif isinstance(value, (str, np.ndarray)) and \
+                        not self._is_utf8(value):
+                    current_error += f"- {key} must be valid UTF-8 text\n"
 
             else:
                 # Could only be tested by manipulating JSON convention files
@@ -1814,6 +1819,19 @@ class Sofa():
             f"{platform.python_compiler()}]")
         self.protected = True
 
+    @staticmethod
+    def _is_utf8(value):
+        """Check if a text or string array can be stored in SOFA files."""
+        value = np.array(value)
+        try:
+            if value.dtype.kind == "S":
+                np.char.decode(value, "utf-8")
+            else:
+                np.char.encode(value, "utf-8")
+        except UnicodeError:
+            return False
+        return True
+
     @staticmethod
     def _get_size_and_shape_of_string_var(value, key):
         """
-- 
2.43.0


From 1a147f535aedaffd715402caeb86e3f1b9d3178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:57 +0000
Subject: [PATCH 56/60] fix: verify reports variables with undefined dimensions
 instead of raising a KeyError

---
 sofar/sofa.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0493d0c..8bef86b 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1293,7 +1293,8 @@ class Sofa():
                 # because the strings are stored in an array whose shape does
                 # not reflect the max. lengths of the actual strings inside it)
                 shape_ref = tuple(
-                    [self._api[d.upper()] if d != "S" else 1 for d in dim])
+                    [self._api.get(d.upper()) if d != "S" else 1
+                     for d in dim])
 
                 # get shape for comparison to correct length by cropping and
                 # appending singleton dimensions if required
@@ -1314,8 +1315,8 @@ class Sofa():
                 # get possible dimensions in verbose form, i.e., "(M=2, C=3)""
                 dimensions_verbose = []
                 for dim in dimensions.upper().replace(" ", "").split(","):
-                    dimensions_verbose.append(
-                        f"({', '.join([f'{d}={self._api[d]}' for d in dim])})")
+                    sizes = [f'{d}={self._api.get(d)}' for d in dim]
+                    dimensions_verbose.append(f"({', '.join(sizes)})")
 
                 current_error += (
                     f"- {key} has shape {shape_compare} but must "
-- 
2.43.0


From 750f1f8f958d8d451a0995771e5bbac97b5eadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 57/60] fix: custom data with names that can not be stored in
 SOFA files is refused

---
 sofar/sofa.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8bef86b..5d8fe52 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -672,6 +672,13 @@ class Sofa():
         if "_" in name and dtype != "attribute":
             raise ValueError(("underscores '_' in the name are only "
                               "allowed for attributes"))
+        # check for names that can not be stored in SOFA files
+        if any(part != part.strip() or not part or "/" in part
+               for part in name.split("_")) or \
+                (dtype != "attribute" and "." in name):
+            raise ValueError((f"'{name}' is not a valid name. Names must not "
+                              "be empty or contain slashes or dots, or start "
+                              "or end with blanks"))
         if dtype == "attribute":
             # two underscores are allowed for Data_Variable_Attribute
             if name.count("_") != 1 and not (
-- 
2.43.0


From 7b08485b310861fd4af59ec1179a6ad74590bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:46 +0000
Subject: [PATCH 58/60] fix: complete an update of the conventions that was
 interrupted

If update_conventions ended while it copied, removed, or compiled files, later
calls reported that the conventions are up to date although compiled
conventions were missing or outdated, or conventions remained in both
folders.
---
 sofar/update_conventions.py | 41 +++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 11339ab..2f52eb2 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -112,7 +112,8 @@ def update_conventions(conventions_path=None, assume_yes=False):
             data = _clean_line_endings(data.content)
 
             # check if convention is not deprecated any more
-            if is_standardized and os.path.isfile(deprecated_csv):
+            # (the json file remains if an earlier update was interrupted)
+            if is_standardized and _stored_files(deprecated_csv):
                 updated = True
                 print(f"- restore convention: {convention[:-4]}")
                 restore.append(deprecated_csv)
@@ -135,7 +136,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
                         file.write(data)
                     print(f"- update convention: {convention[:-4]}")
                     update.append(convention)
-            elif not is_standardized and os.path.isfile(standardized_csv):
+            elif not is_standardized and _stored_files(standardized_csv):
                 # deprecate standardized convention
                 updated = True
                 with open(os.path.join(temp, 'deprecated', convention), "wb") \
@@ -179,17 +180,20 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 shutil.copy(os.path.join(temp, convention),
                             os.path.join(conventions_path, convention))
             for convention in deprecate:
-                os.remove(os.path.join(conventions_path, convention))
-                os.remove(
-                    os.path.join(conventions_path, f"{convention[:-3]}json"))
+                for file in _stored_files(
+                        os.path.join(conventions_path, convention)):
+                    os.remove(file)
                 shutil.copy(
                     os.path.join(temp, 'deprecated', convention),
                     os.path.join(conventions_path, 'deprecated', convention))
             for deprecated_csv in restore:
-                os.remove(deprecated_csv)
-                os.remove(f"{deprecated_csv[:-3]}json")
-            # compile json files from csv file
-            _compile_conventions(conventions_path)
+                for file in _stored_files(deprecated_csv):
+                    os.remove(file)
+
+        # compile json files from csv file
+        # (always, because an earlier update might have been interrupted)
+        _compile_conventions(conventions_path)
+        if updated:
             print("... done.")
         else:
             print("... conventions already up to date.")
@@ -202,6 +206,12 @@ def _download(url):
     return response
 
 
+def _stored_files(csv_file):
+    """Return the existing files (csv and json) of a convention."""
+    return [file for file in (csv_file, f"{csv_file[:-3]}json")
+            if os.path.isfile(file)]
+
+
 def _clean_line_endings(data):
     """Remove windows style line breaks and all trailing tabs."""
     return re.sub(b"\t*\r?\n", b"\n", data).rstrip(b"\t")
@@ -237,8 +247,17 @@ def _compile_conventions(conventions_path=None):
 
         # convert SOFA conventions from csv to json
         convention_dict = _convention_csv2dict(csv_file)
-        with open(f"{csv_file[:-3]}json", 'w') as file:
-            json.dump(convention_dict, file, indent=4)
+        convention_json = json.dumps(convention_dict, indent=4)
+
+        # do not touch json files that are up to date
+        json_file = f"{csv_file[:-3]}json"
+        if os.path.isfile(json_file):
+            with open(json_file, errors="replace") as file:
+                if file.read() == convention_json:
+                    continue
+
+        with open(json_file, 'w') as file:
+            file.write(convention_json)
 
 
 def _convention_csv2dict(file: str):
-- 
2.43.0


From fa35d589097b88b82b5a7897f05eee13ae51aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:22 +0000
Subject: [PATCH 59/60] fix: write and read string variables without elements

---
 sofar/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 3be23fb..f501e5d 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -337,7 +337,7 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             else:
                 # split the strings into single (utf-8 encoded) characters
                 tmp_var[:] = np.ascontiguousarray(value).view("S1").reshape(
-                    tmp_var.shape[:-1] + (-1, ))
+                    tmp_var.shape[:-1] + (value.dtype.itemsize, ))
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
@@ -435,7 +435,9 @@ def _format_value_from_netcdf(value, key):
     elif value.dtype.kind in "SU":
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
-        if value.dtype.kind == "S":
+        if value.dtype.kind == "S" and not value.size:
+            value = np.zeros(value.shape[:-1], dtype="U1")
+        elif value.dtype.kind == "S":
             value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
-- 
2.43.0


From aaba98d0db13c483bc8dd0119fbf8a13e456a649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:16 +0000
Subject: [PATCH 60/60] fix: use relative file names with leading white space
 as given

---
 sofar/io.py         | 3 ++-
 sofar/sofastream.py | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index f501e5d..0fa0430 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -353,7 +353,8 @@ def _append_suffix(filename):
     filename = pathlib.Path(filename)
     if filename.suffix.lower() != ".sofa":
         filename = filename.with_name(filename.name + ".sofa")
-    return filename
+    # (leading white space of relative names is ignored by the netCDF library)
+    return filename.absolute()
 
 
 def _format_value_for_netcdf(value, key, dtype, dimensions, S):
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index fcb3dd8..723fd05 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -2,6 +2,8 @@
 Read desired data from SOFA-file directly from disk without loading entire
 file into memory.
 """
+import os
+import pathlib
 from netCDF4 import Dataset
 import numpy as np
 
@@ -66,6 +68,9 @@ class SofaStream():
 
     def __init__(self, filename):
         """Initialize a new SofaStream object (see documentation above)."""
+        # (leading white space of relative names is ignored by netCDF)
+        if os.path.isfile(filename):
+            filename = pathlib.Path(filename).absolute()
         self._filename = filename
 
     def __enter__(self):
-- 
2.43.0

