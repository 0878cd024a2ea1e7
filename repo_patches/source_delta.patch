From ce7b8f134f24195b463486bdc6cae2ebda2e120a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:39 +0000
Subject: [PATCH 01/83] fix: count microseconds as fractions of a day, not of a
 second, in day numbers

---
 src/eumopps/timeutils/timebase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index 29ca676..e01f639 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -53,7 +53,7 @@ class TimeBaseDays(TimeBase):
     def datetime_to_number(self, d):
         """Convert datetime object to a floating point or integer number."""
         td = d - self.epoch
-        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 1000000.0)
+        return float(td.days) + (float(td.seconds) / 86400.0) + (float(td.microseconds) / 86400000000.0)
 
     def number_to_datetime(self, n):
         """Convert number to datetime object."""
-- 
2.43.0


From 6907bd10a16836f927a3eb6e25258d45818d44f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:31 +0000
Subject: [PATCH 02/83] fix: take tag values known from the parent pattern
 literally in the child pattern

---
 src/eumopps/catalogue/namepatterns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index 660a51f..a25cf3e 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -51,12 +51,12 @@ def make_search_expression(pattern, knownvalues):
     result = result.replace('?', '.')  # question marks match any character
     for key, subs in EXPRESSION_SUBSTITUTES.iteritems():
         lookupkey = '%' + key
-        result = result.replace(lookupkey, knownvalues[subs[0]]
+        result = result.replace(lookupkey, re.escape(knownvalues[subs[0]])
                                 if subs[0] in knownvalues else '(?P<' + subs[0] + '>' + subs[1] + ')')
     for subs in TAG_FIELDS:
         lookup_lowercase_subs = '%' + subs.lower()
         if subs in knownvalues:
-            result = result.replace(lookup_lowercase_subs, knownvalues[subs].lower())
+            result = result.replace(lookup_lowercase_subs, re.escape(knownvalues[subs].lower()))
     # print '\n\npattern: ', result, '\n\n'
     return result
 
-- 
2.43.0


From 27a9644d18402585651b1d3dd08f2c6f4cd8525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:31 +0000
Subject: [PATCH 03/83] fix: keep apart parent directories whose field values
 only concatenate to the same text

---
 src/eumopps/catalogue/namepatterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/namepatterns.py b/src/eumopps/catalogue/namepatterns.py
index a25cf3e..9963362 100644
--- a/src/eumopps/catalogue/namepatterns.py
+++ b/src/eumopps/catalogue/namepatterns.py
@@ -127,7 +127,7 @@ def nested_search_patterns(patterns, candidates):
             outcome = matcher.match(candidate.get_name())
             if outcome:
                 values = outcome.groupdict()
-                key = hash_string_dictionary(values)
+                key = tuple(sorted(values.items()))
                 remainingpart = candidate.get_name()[outcome.end():]
                 entry = (candidate, remainingpart)
                 if key not in parentvalues:
-- 
2.43.0


From 4c56cf4b87aa9fd9635b9ff2dd35c197f1095422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:22 +0000
Subject: [PATCH 04/83] fix: restrict a catalogue build to one data set as
 requested by dataset_filter

---
 src/eumopps/catalogue/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/build.py b/src/eumopps/catalogue/build.py
index 86255f3..80b5d1f 100644
--- a/src/eumopps/catalogue/build.py
+++ b/src/eumopps/catalogue/build.py
@@ -48,7 +48,7 @@ def build(inputcatalogue, cataloguefilename, update=False, dataset_filter=None,
             raise ValueError('requested dataset \"{0}\" not found'.format(dataset_filter))
 
         # Restrict to requested
-        inputcatalogue.datasets = [ inputcatalogue.dataset[datasetindex] ]
+        inputcatalogue.datasets = [ inputcatalogue.datasets[datasetindex] ]
 
     # search for data and compute checksums
     for dataset in inputcatalogue.datasets:
-- 
2.43.0


From 0bb4975cdf364156e3d1df0f8ddd1d6bc141bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:58 +0000
Subject: [PATCH 05/83] fix: read lists of numbers and times from NetCDF
 objects that have no missing elements

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 190c86b..76d99b4 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -90,7 +90,7 @@ def read_variable(variable):
 
             # Remove any masked ones
             if hasattr(result, 'mask'):
-                result = result.data[~result.mask]
+                result = result.data[~numpy.ma.getmaskarray(result)]
 
             # Convert to list
             result = result.tolist()
@@ -103,7 +103,7 @@ def read_variable(variable):
 
             # Remove any masked per-row and convert to lists
             if hasattr(result, 'mask'):
-                result = [ (result.data[rowindex,~result.mask[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
+                result = [ (result.data[rowindex,~numpy.ma.getmaskarray(result)[rowindex,:]]).tolist() for rowindex in range(variable.shape[0]) ]
             else:
                 result = [ (result[rowindex,:]).tolist() for rowindex in range(variable.shape[0]) ]
 
-- 
2.43.0


From 1a44e3b1515804e370d83226ca9861006e9d8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:10 +0000
Subject: [PATCH 06/83] fix: keep the position of missing elements when reading
 lists from NetCDF objects

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 76d99b4..e8ec732 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -88,16 +88,12 @@ def read_variable(variable):
 
         elif variable.ndim == 1:
 
-            # Remove any masked ones
-            if hasattr(result, 'mask'):
-                result = result.data[~numpy.ma.getmaskarray(result)]
-
-            # Convert to list
+            # Convert to list (masked elements become None)
             result = result.tolist()
 
             # Convert to datetime if requested
             if ('units' in variable.ncattrs()) and (variable.units == TIMEBASE.units()):
-                result = [ TIMEBASE.number_to_datetime(element) for element in result ]
+                result = [ TIMEBASE.number_to_datetime(element) if (element is not None) else None for element in result ]
 
         elif variable.ndim == 2:
 
-- 
2.43.0


From e0b1d68a37a5bc03415d4d3ffe2bdd595879d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 07/83] fix: keep members equal to zero when saving objects as
 JSON

---
 src/eumopps/jsonobjects/jsonobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/jsonobjects/jsonobjects.py b/src/eumopps/jsonobjects/jsonobjects.py
index 8c64643..18d88ef 100644
--- a/src/eumopps/jsonobjects/jsonobjects.py
+++ b/src/eumopps/jsonobjects/jsonobjects.py
@@ -26,7 +26,7 @@ def save_object(obj):
     if hasattr(obj, '__dict__'):
 
         # Make dictionary of all class items and recurse if needed
-        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v)
+        result = dict((k, save_object(v)) for k, v in obj.__dict__.iteritems() if v is not None)
     
         # Append class name and module so we can recreate
         result[CLASSID] = get_class_id(obj)
-- 
2.43.0


From c37177f8f4c7678148e18bf5e9453b6f292160c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 08/83] fix: save a date held by a nested object as NetCDF

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index e8ec732..dba2900 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -364,6 +364,13 @@ def save_object(group, key, value):
         # Just skip None values or empty lists
         pass
 
+    elif is_type(value, DATETIME_TYPES):
+
+        # Special case for saving single date value (because must save units)
+        newvariable = group.createVariable(varname=key, datatype='i8')
+        newvariable[:] = TIMEBASE.datetime_to_number(value)
+        newvariable.units = TIMEBASE.units()
+
     elif is_type(value, SIMPLE_TYPES):
 
         # Set an individual value attribute
-- 
2.43.0


From 78a644b7966659505af422802b52b8bd6703e02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 09/83] fix: save a table of strings that is itself a member
 (such as unused archive contents) as NetCDF

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index dba2900..3c5dc89 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -513,9 +513,10 @@ def save_string_list2d(group, membername, array2d, dimensionname):
     lengthname = STRING_LENGTH_DIMENSION_FORMAT.format(membername)
 
     # Build new variable
-    group.createDimension(membername, max([ len(element) if element else 0 for element in array2d]))
+    dimensionname2 = membername if (membername != dimensionname) else (membername + "2")
+    group.createDimension(dimensionname2, max([ len(element) if element else 0 for element in array2d]))
     group.createDimension(lengthname, max_length)
-    group.createVariable(membername, 'S1', [dimensionname, membername, lengthname])
+    group.createVariable(membername, 'S1', [dimensionname, dimensionname2, lengthname])
 
     # populate contents
     for index, element in enumerate(array2d):
-- 
2.43.0


From 07d1726a87563266bcef609735057a2611d833e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:11 +0000
Subject: [PATCH 10/83] fix: save lists of objects having several lists of
 numbers each as NetCDF

---
 src/eumopps/netcdfobjects/netcdfobjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/netcdfobjects/netcdfobjects.py b/src/eumopps/netcdfobjects/netcdfobjects.py
index 3c5dc89..89fb008 100644
--- a/src/eumopps/netcdfobjects/netcdfobjects.py
+++ b/src/eumopps/netcdfobjects/netcdfobjects.py
@@ -532,7 +532,7 @@ def save_numeric_list2d(group, membername, array2d, dimensionname, dtype):
 
     numrows = len(array2d)
     maxcols = max([ len(element) if element else 0 for element in array2d])
-    dimensionname2 = dimensionname + "2"
+    dimensionname2 = membername + "2"
     group.createDimension(dimensionname2, maxcols)
     newvariable = group.createVariable(membername, dtype, [ dimensionname, dimensionname2 ])
     contents = numpy.ma.masked_all((numrows, maxcols), dtype=dtype)
-- 
2.43.0


From 2559766c647532d9ce68aed525101dd0e0cd8021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:22 +0000
Subject: [PATCH 11/83] fix: do not assign files of the day before the first
 daily step to that step

---
 src/eumopps/catalogue/step.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/step.py b/src/eumopps/catalogue/step.py
index 0b86390..40d583a 100644
--- a/src/eumopps/catalogue/step.py
+++ b/src/eumopps/catalogue/step.py
@@ -4,6 +4,7 @@ from eumopps.timeutils import datetime_numeric
 from eumopps.timeutils.timebase import TimeBaseDays
 from eumopps.catalogue.dataset import CatalogueFileEntry
 import os.path
+import math
 from datetime import datetime
 
 class Step(object):
@@ -96,7 +97,7 @@ class StepDaily(Step):
 
     def index_at_time(self, t):
 
-        return int( self.timebase().datetime_to_number(t) )
+        return int( math.floor( self.timebase().datetime_to_number(t) ) )
 
     def time_at_index(self, operationindex):
 
-- 
2.43.0


From 64812b7670eb2e746c56d5da9f48430da1be2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:43 +0000
Subject: [PATCH 12/83] fix: keep the last seconds of a year or month in that
 year or month

---
 src/eumopps/timeutils/timebase.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eumopps/timeutils/timebase.py b/src/eumopps/timeutils/timebase.py
index e01f639..d5c4985 100644
--- a/src/eumopps/timeutils/timebase.py
+++ b/src/eumopps/timeutils/timebase.py
@@ -131,10 +131,10 @@ class TimeBaseAnnual(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -208,10 +208,10 @@ class TimeBaseMonthly(TimeBase):
         year_end = datetime(d.year + 1, 1, 1)
 
         # Seconds since start of year
-        t_seconds = float32( (d - year_start).total_seconds() )
+        t_seconds = float( (d - year_start).total_seconds() )
 
         # Total seconds in this year
-        total_seconds = float32( (year_end - year_start).total_seconds() )
+        total_seconds = float( (year_end - year_start).total_seconds() )
         
         return t_seconds / total_seconds
 
@@ -226,10 +226,10 @@ class TimeBaseMonthly(TimeBase):
         month_end = month_start+relativedelta(months=1)
 
         # Seconds since start of month
-        t_seconds = float32( (d - month_start).total_seconds() )
+        t_seconds = float( (d - month_start).total_seconds() )
 
         # Total seconds in this month
-        total_seconds = float32( (month_end - month_start).total_seconds() )
+        total_seconds = float( (month_end - month_start).total_seconds() )
         
         return t_seconds / total_seconds
 
-- 
2.43.0


From b40ee29c28d9750cd12163d23bda02b80164128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:09 +0000
Subject: [PATCH 13/83] fix: run operations whose run module is a class

---
 src/eumopps/catalogue/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/operation.py b/src/eumopps/catalogue/operation.py
index 9a247dd..4446712 100644
--- a/src/eumopps/catalogue/operation.py
+++ b/src/eumopps/catalogue/operation.py
@@ -38,7 +38,7 @@ class Operation(object):
 
         if hasattr(self.runmodule, 'run'):
 
-            return runmodule.run()
+            return self.runmodule.run()
 
         else:
 
-- 
2.43.0


From 5deb44788811a535a7ccc4f346778607d42d2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:09 +0000
Subject: [PATCH 14/83] fix: count operations of batch specifications with the
 method the catalogue reader has

---
 src/eumopps/catalogue/jinja/batches.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/jinja/batches.py b/src/eumopps/catalogue/jinja/batches.py
index b51d410..7795bd2 100644
--- a/src/eumopps/catalogue/jinja/batches.py
+++ b/src/eumopps/catalogue/jinja/batches.py
@@ -17,12 +17,12 @@ class BatchSpecification(object):
     def operation_count(self):
         """Query catalogue to find operations."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations')
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename)
 
     def cycle_points_required(self):
         """Get cycle points required to cover required operations, assuming number of operations per cycle point is self.batchsize."""
 
-        return CatalogueReaderNetCDF().quickcount(self.catalogue, self.modulename, 'operations', batchsize=self.batchsize)
+        return CatalogueReaderNetCDF().operationcount(self.catalogue, self.modulename, self.batchsize)
 
     def scheduling(self):
         """String for scheduling item."""
-- 
2.43.0


From 3c465e2a9b466d535e9b90c76bb6cc5bf528fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:09 +0000
Subject: [PATCH 15/83] fix: run no operation when the index is out of range,
 and allow that at the tail of the last batch

---
 src/eumopps/catalogue/commandrun.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eumopps/catalogue/commandrun.py b/src/eumopps/catalogue/commandrun.py
index 9ee93a4..a54eca8 100644
--- a/src/eumopps/catalogue/commandrun.py
+++ b/src/eumopps/catalogue/commandrun.py
@@ -32,6 +32,16 @@ def commandrun(timestamp, cataloguepathname, operationname, index, use_batch_siz
 
     if operation is not None:
 
+        # Check there is such an operation
+        if (operationindex < 0) or (operationindex >= operation.count):
+
+            # If running in batch mode we allow out-of-range operations at tail end of last batch
+            if use_batch_size and (0 <= index < use_batch_size) and (operationindex >= operation.count):
+                print 'eumopps.catalogue.commandrun operation out of range: {0}'.format(index)
+                return None
+
+            raise ValueError('operation index out of range')
+
         # The toolchain member of operation object is the one just loaded from catalogue
         catalogue_toolchain = operation.toolchain
 
-- 
2.43.0


From 457330b2af8eed1eb197094a97c425f0c84da403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:20 +0000
Subject: [PATCH 16/83] fix: run the outer operation on the last batch also
 when that is not a full one

---
 src/eumopps/catalogue/multiplecommandsrun.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/multiplecommandsrun.py b/src/eumopps/catalogue/multiplecommandsrun.py
index 6c8b7a8..a984d60 100644
--- a/src/eumopps/catalogue/multiplecommandsrun.py
+++ b/src/eumopps/catalogue/multiplecommandsrun.py
@@ -17,8 +17,12 @@ def multiple_commands_run(timestamp, cataloguepathname, outeroperationmethod, in
     if batch_size == 0:
             raise ValueError('eumopps.catalogue.multiple_commandsrun: batch_size has to be at least 1')
 
+    # The last batch may have fewer operations than the others
+    operation_count = CatalogueReaderNetCDF().operationcount(cataloguepathname, inneroperationname)
+    batch_operations = range(min(batch_size, operation_count - batch * batch_size))
+
     if justlist:
-	for operationindex in range(batch_size):
+	for operationindex in batch_operations:
 	    daily_inputs = commandrun(timestamp, cataloguepathname, inneroperationname, operationindex, batch_size, batch, False, allow_toolchain_mismatch)
 
 	    print 'Batch ',batch
@@ -26,7 +30,7 @@ def multiple_commands_run(timestamp, cataloguepathname, outeroperationmethod, in
 	    print 'Daily inputs \n', daily_inputs
     else:
 	list_of_daily_inputs = []
-	for operationindex in range(batch_size):
+	for operationindex in batch_operations:
 	    daily_inputs = commandrun(timestamp, cataloguepathname, inneroperationname, operationindex, batch_size, batch, False, allow_toolchain_mismatch)  
 	    list_of_daily_inputs.append(daily_inputs)
 		
-- 
2.43.0


From 56566da2f979aefdeb891057cc91e27d62cd50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:29 +0000
Subject: [PATCH 17/83] fix: list operations that have NumPy values as
 parameters

---
 src/eumopps/jsonobjects/jsonobjects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eumopps/jsonobjects/jsonobjects.py b/src/eumopps/jsonobjects/jsonobjects.py
index 18d88ef..6389f10 100644
--- a/src/eumopps/jsonobjects/jsonobjects.py
+++ b/src/eumopps/jsonobjects/jsonobjects.py
@@ -2,6 +2,7 @@
 
 import importlib
 import json
+import numpy
 from datetime import datetime
 from eumopps.timeutils import datetime_numeric
 
@@ -39,6 +40,11 @@ def save_object(obj):
         # Special case for datetime objects
         return { CLASSID: 'datetime.datetime', DATETIMEVALUEKEY: datetime_numeric.build(obj) }
 
+    elif isinstance(obj, (numpy.generic, numpy.ndarray)):
+
+        # NumPy values as the equivalent python values
+        return obj.tolist()
+
     else:
 
         # Not a class type - just return
-- 
2.43.0


From 61b1738a3accbc255c2760d5c0847e51f03d7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:29 +0000
Subject: [PATCH 18/83] fix: run operations whose allowed missing files are of
 a data set without any files

---
 src/eumopps/catalogue/fileio/formatnetcdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eumopps/catalogue/fileio/formatnetcdf.py b/src/eumopps/catalogue/fileio/formatnetcdf.py
index ba39403..87d4aa3 100644
--- a/src/eumopps/catalogue/fileio/formatnetcdf.py
+++ b/src/eumopps/catalogue/fileio/formatnetcdf.py
@@ -107,10 +107,9 @@ class CatalogueReaderNetCDF(CatalogueReader):
         for ref in reflist:
             dataset = ncfile.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('datasets', ref.dataset)]
             subset = dataset.groups[netcdfobjects.LISTITEM_OBJECT_SUFFIX.format('subsets', ref.subset)]
-            matches = subset.groups['matches']
-            
             # Construct pathname if the entry index is valid, otherwise no match is available in the catalogue
             if ref.entry>=0:
+                matches = subset.groups['matches']
                 name = str(chartostring(matches.variables['name'][ref.entry, :]))
                 path = dataset.getncattr('path')
                 names.append(os.path.join(path, name))
-- 
2.43.0


From d4052bb14a727c22e327115603e2583830dee7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:20 +0000
Subject: [PATCH 19/83] fix: load catalogues having an operation all of whose
 steps are skipped

---
 src/eumopps/catalogue/operationparameters.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eumopps/catalogue/operationparameters.py b/src/eumopps/catalogue/operationparameters.py
index 92db459..c7b0b72 100644
--- a/src/eumopps/catalogue/operationparameters.py
+++ b/src/eumopps/catalogue/operationparameters.py
@@ -13,10 +13,11 @@ class OperationParameter(object):
 class OperationParameterList(OperationParameter):
     """Base class stored on final catalogues which lists parameters for multiple operations."""
 
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Initialise with given list."""
 
-        self.operation_parameters = operation_parameters
+        # A list without any operations has no representation on file and is None when loaded
+        self.operation_parameters = operation_parameters if operation_parameters is not None else [ ]
 
     def restrict_to_subset(self, restrict_to_operations):
         """Restrict to specified list of operation indices. 
@@ -38,7 +39,7 @@ class OperationParameterList(OperationParameter):
 class OperationFileReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileReference, self).__init__(operation_parameters)
@@ -53,7 +54,7 @@ class OperationFileReference(OperationParameterList):
 class OperationFileListReference(OperationParameterList):
     """Intermediate class holding dataset references grouped by step index."""
     
-    def __init__(self, operation_parameters):
+    def __init__(self, operation_parameters=None):
         """Store reference."""
         
         super(OperationFileListReference, self).__init__(operation_parameters)
-- 
2.43.0


From 14ad199f0b5a9ce90961b5f9b4fe265dedf8b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:15 +0000
Subject: [PATCH 20/83] fix: read the pointers of a location from a location
 pointers file

---
 src/eustace/analysis/fileio/locationpointers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index 309c695..a5a51a2 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -6,6 +6,7 @@ from observationsource_rawbinary import ObservationRawBinaryWriter
 from observationsource_rawbinary import LocalCorrelationRangeRawBinaryReader
 from observationsource_rawbinary import CATEGORY_OBSERVATION
 import numpy
+import uuid
 
 FORMATID_LOCATION_POINTERS = 'EUSTACELOCP00001'
 """Format identifier placed at start of correlated uncertainty binary files."""
@@ -119,7 +120,7 @@ class LocationPointersRawBinaryReader(object):
             raise Exception('Location UUID mismatch')
 
         # read count
-        location_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        location_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0]
 
         # check locaton_id in range
         if (location_id < 0) or (location_id >= location_count):
@@ -129,8 +130,8 @@ class LocationPointersRawBinaryReader(object):
         file_handle.seek(16 * location_id, 1)   # The 1 here indicates seek from current position
 
         # read offset table info
-        record_offset = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
-        record_count = numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)
+        record_offset = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
+        record_count = int(numpy.fromfile(file_handle, dtype=numpy.uint64, count=1)[0])
 
         # seek to offset
         file_handle.seek(record_offset)
-- 
2.43.0


From 62286f768fe286ed8c3f9f8900d67f81a80a1774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:15 +0000
Subject: [PATCH 21/83] fix: refuse raw binary observations that were written
 for other locations

---
 src/eustace/analysis/fileio/observationsource_rawbinary.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index bee439f..2ba3ab8 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -130,6 +130,11 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
         # get uuid
         location_uuid = self.read_header_from_stream(file_handle)
 
+        # check it matches the one given for verification
+        if location_uuid != verify_location_uuid:
+            file_handle.close()
+            raise Exception('Location UUID mismatch')
+
         # read data
         contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
-- 
2.43.0


From 08547534d0454a0cc9446867047397f1dd019280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:25 +0000
Subject: [PATCH 22/83] fix: report the least uncertainty of a cell in
 diagnostic grids

---
 src/eustace/analysis/diagnosticgrid_aggregate.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/diagnosticgrid_aggregate.pyx b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
index 4b1da35..c267337 100644
--- a/src/eustace/analysis/diagnosticgrid_aggregate.pyx
+++ b/src/eustace/analysis/diagnosticgrid_aggregate.pyx
@@ -33,7 +33,7 @@ def diagnosticgrid_aggregate(
             observation_min[gridindex] = obs
         if obs > observation_max[gridindex]:
             observation_max[gridindex] = obs
-        if obs < uncertainty_min[gridindex]:
+        if unc < uncertainty_min[gridindex]:
             uncertainty_min[gridindex] = unc
         if unc > uncertainty_max[gridindex]:
             uncertainty_max[gridindex] = unc
-- 
2.43.0


From 57fc0924965dd2ee425db2f22a3e556d03dfaa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:25 +0000
Subject: [PATCH 23/83] fix: refuse coordinates just before the start of a grid
 axis

---
 src/eustace/satgrid/grid.py                       | 6 +++++-
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 399ea7a..6b6c623 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -17,7 +17,11 @@ class GridAxis(object):
 
     def compute_indices(self, values):
         """Determine the integer indices along this axis at which the given axis values are located."""
-        bin_indices = ((values - self.start) / self.increment).astype(numpy.int32)
+        # Round down (also below zero, so that values just before the start of the axis are out of range),
+        # allowing only for rounding error at the start of the axis itself
+        bin_positions = (numpy.asarray(values, numpy.float64) - self.start) / self.increment
+        bin_positions = numpy.where((bin_positions < 0.0) & (bin_positions > -1.0E-6), 0.0, bin_positions)
+        bin_indices = numpy.floor(bin_positions).astype(numpy.int32)
         if self.wrap:
             wrapped = (bin_indices == numpy.int32(self.length)).nonzero()
             bin_indices[wrapped] = 0
diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8874da5..8b092cb 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -29,7 +29,11 @@ class GridFieldAxis(object):
     def compute_indices(self, values):
         """Indices along this axis at which the given axis values are located."""
 
-        bin_indices = (((values - self.zeroth) / self.step) - 0.5).astype(INDEXTYPE)
+        # Round down (also below zero, so that values just before the start of the axis are out of range),
+        # allowing only for rounding error at the start of the axis itself
+        bin_positions = ((numpy.asarray(values, numpy.float64) - self.zeroth) / self.step) - 0.5
+        bin_positions = numpy.where((bin_positions < 0.0) & (bin_positions > -1.0E-6), 0.0, bin_positions)
+        bin_indices = numpy.floor(bin_positions).astype(INDEXTYPE)
         if self.circular:
             wrapped = (bin_indices == INDEXTYPE(self.count)).nonzero()
             bin_indices[wrapped] = 0
-- 
2.43.0


From da56c6606c063741d78dd6cacd3c31e9d17eb5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:34 +0000
Subject: [PATCH 24/83] fix: put observations at the north pole in the
 northernmost row of the grid

---
 src/eustace/outputformats/globalfield.py          |  3 ++-
 src/eustace/satgrid/file_aggregate_grid.py        |  3 ++-
 src/eustace/satgrid/grid.py                       | 12 ++++++++++++
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 11 +++++++++++
 src/eustace/satgrid_iris/pipeline.py              |  3 ++-
 5 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/eustace/outputformats/globalfield.py b/src/eustace/outputformats/globalfield.py
index 13acf72..88a767d 100644
--- a/src/eustace/outputformats/globalfield.py
+++ b/src/eustace/outputformats/globalfield.py
@@ -2,6 +2,7 @@
 
 from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldList
 from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxis
+from eustace.satgrid_iris.gridbin.gridfieldlist import GridFieldAxisLatitude
 from definitions import GLOBAL_FIELD_SHAPE
 from definitions import GLOBAL_FIELD_RESOLUTION
 from definitions import LATITUDE
@@ -15,7 +16,7 @@ class GlobalFieldAxes2D(object):
     def __init__(self):
         """Construct with latitude and longitude properties."""
 
-        self.latitude = GridFieldAxis(zeroth= -90.0-0.5*GLOBAL_FIELD_RESOLUTION, step=GLOBAL_FIELD_RESOLUTION, count=GLOBAL_FIELD_SHAPE[1], var_name=LATITUDE.name, circular=True, units=LATITUDE.units, standard_name=LATITUDE.standard_name, long_name=LATITUDE.long_name)
+        self.latitude = GridFieldAxisLatitude(zeroth= -90.0-0.5*GLOBAL_FIELD_RESOLUTION, step=GLOBAL_FIELD_RESOLUTION, count=GLOBAL_FIELD_SHAPE[1], var_name=LATITUDE.name, circular=False, units=LATITUDE.units, standard_name=LATITUDE.standard_name, long_name=LATITUDE.long_name)
 
         self.longitude = GridFieldAxis(zeroth=-180.0-0.5*GLOBAL_FIELD_RESOLUTION, step=GLOBAL_FIELD_RESOLUTION, count=GLOBAL_FIELD_SHAPE[2], var_name=LONGITUDE.name, circular=True, units=LONGITUDE.units, standard_name=LONGITUDE.standard_name, long_name=LONGITUDE.long_name)
 
diff --git a/src/eustace/satgrid/file_aggregate_grid.py b/src/eustace/satgrid/file_aggregate_grid.py
index 1225f44..90cbe0f 100644
--- a/src/eustace/satgrid/file_aggregate_grid.py
+++ b/src/eustace/satgrid/file_aggregate_grid.py
@@ -5,6 +5,7 @@ __author__ = "Joel R. Mitchelson"
 
 import numpy
 from grid import GridAxis
+from grid import GridAxisLatitude
 from grid import GridLatLon
 from aggregate_grid import AggregateGridCountSumMinMax
 from aggregate_grid import AggregateGridCount
@@ -205,7 +206,7 @@ class SatelliteFileAggregator(object):
         """ Construct aggregation instance using arguments from specified args namespace."""
 
         return SatelliteFileAggregator(
-            axis_lat=GridAxis(args.y0, args.ys, args.yn, args.wrapcoords),
+            axis_lat=GridAxisLatitude(args.y0, args.ys, args.yn, args.wrapcoords),
             axis_lon=GridAxis(args.x0, args.xs, args.xn, args.wrapcoords),
             qc_mask_obs=args.qc_mask_obs, qc_filter_obs=args.qc_filter_obs,
             qc_mask_valid=args.qc_mask_valid, qc_filter_valid=args.qc_filter_valid,
diff --git a/src/eustace/satgrid/grid.py b/src/eustace/satgrid/grid.py
index 6b6c623..0ff2c12 100644
--- a/src/eustace/satgrid/grid.py
+++ b/src/eustace/satgrid/grid.py
@@ -40,6 +40,18 @@ class GridAxis(object):
         return (numpy.mgrid[0:self.length] * self.increment) + (self.start + (numpy.float32(0.5) * self.increment))
 
 
+class GridAxisLatitude(GridAxis):
+    """Latitude axis, on which coordinates never wrap around: the north pole at its end belongs to the last (northernmost) cell."""
+
+    def compute_indices(self, values):
+        """Determine the integer indices along this axis at which the given axis values are located."""
+
+        end = self.start + self.length * self.increment
+        if abs(end - 90.0) < 1.0E-6:
+            values = numpy.where(numpy.equal(values, 90.0), end - 0.5 * self.increment, values)
+        return GridAxis(self.start, self.increment, self.length, wrap=False).compute_indices(values)
+
+
 class GridLatLon(object):
     """Represent a two-dimensional regular grid onto which data can be aggregated."""
 
diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8b092cb..8dc86e9 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -50,6 +50,17 @@ class GridFieldAxis(object):
             raise ValueError(message)
         return bin_indices
 
+class GridFieldAxisLatitude(GridFieldAxis):
+    """Latitude axis, which does not wrap around: the north pole at its end belongs to the last (northernmost) cell."""
+
+    def compute_indices(self, values):
+        """Indices along this axis at which the given axis values are located."""
+
+        last_centre = self.zeroth + self.count * self.step
+        if abs(last_centre + 0.5 * self.step - 90.0) < 1.0E-6:
+            values = numpy.where(numpy.equal(values, 90.0), last_centre, values)
+        return super(GridFieldAxisLatitude, self).compute_indices(values)
+
 class GridFieldDescriptor:
     """Descriptor for inputs/outputs to retreive."""
 
diff --git a/src/eustace/satgrid_iris/pipeline.py b/src/eustace/satgrid_iris/pipeline.py
index dd45154..359f6af 100644
--- a/src/eustace/satgrid_iris/pipeline.py
+++ b/src/eustace/satgrid_iris/pipeline.py
@@ -6,6 +6,7 @@ from iris import load_cube
 from iris import Constraint
 from satellite import SatelliteCollection
 from gridbin.gridfieldlist import GridFieldAxis
+from gridbin.gridfieldlist import GridFieldAxisLatitude
 from gridbin.gridfieldlist import GridFieldDescriptor
 from gridbin.gridbin import GridBins
 from gridbin.operation.count import GridBinOperationCount
@@ -98,7 +99,7 @@ class GridBinPipelineSatellite(object):
         """Build pipeline from given arguments."""
 
         return GridBinPipelineSatellite(
-            axis_lat=GridFieldAxis(args.y0-0.5*args.ys, args.ys, args.yn, 'latitude', args.wrapcoords,
+            axis_lat=GridFieldAxisLatitude(args.y0-0.5*args.ys, args.ys, args.yn, 'latitude', False,
                                  units='degrees_north', standard_name='latitude', long_name='Latitude (deg)'),
             axis_lon=GridFieldAxis(args.x0-0.5*args.xs, args.xs, args.xn, 'longitude', args.wrapcoords,
                                  units='degrees_east', standard_name='longitude', long_name='Longitude (deg)'),
-- 
2.43.0


From 0ae4345341ebd4104c0d31298f5372fa3ac15a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:34 +0000
Subject: [PATCH 25/83] fix: keep zeros and refuse overflow when holding all
 observations of each grid box

---
 src/eustace/satgrid/aggregate_grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eustace/satgrid/aggregate_grid.py b/src/eustace/satgrid/aggregate_grid.py
index 7fbe963..ff55bc5 100644
--- a/src/eustace/satgrid/aggregate_grid.py
+++ b/src/eustace/satgrid/aggregate_grid.py
@@ -124,6 +124,10 @@ class AggregateGridArray(AggregateGrid):
             # get latest count
             latest_count = count_flat[measurementbin]
 
+            # refuse more than there is room for (would be stored with the next bin)
+            if latest_count >= self.max_bin_obs:
+                raise ValueError('more than {0} observations in a grid box'.format(self.max_bin_obs))
+
             # convert to index to array where all obs are kept
             arrayindex = measurementbin * self.max_bin_obs + latest_count
 
@@ -163,7 +167,7 @@ class AggregateGridArray(AggregateGrid):
         valid_indices = numpy.nonzero(self.count)
 
         # compute stats
-        values_mask = (self.values == numpy.float32(0.0))
+        values_mask = (numpy.arange(self.max_bin_obs) >= self.count[:, :, numpy.newaxis])
         values = numpy.ma.masked_array(self.values, mask=values_mask)
 
         fields['tsmean'][valid_indices] = numpy.divide(numpy.sum(self.values, axis=2)[valid_indices], self.count[valid_indices])
-- 
2.43.0


From d59807d6cc3605af3bf92568f41b1c62d8f0b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:24 +0000
Subject: [PATCH 26/83] fix: combine diagnostics when a source has no
 observations on the day

---
 src/eustace/analysis/diagnostic_combine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/analysis/diagnostic_combine.py b/src/eustace/analysis/diagnostic_combine.py
index 40f5ed6..8ce2de8 100644
--- a/src/eustace/analysis/diagnostic_combine.py
+++ b/src/eustace/analysis/diagnostic_combine.py
@@ -81,5 +81,8 @@ def print_stats(source, sourcename, observable):
     """Write basic stats to standard output"""
 
     obs = source.observations(observable).measurement
+    if len(obs) == 0:
+        print 'no observations({0}:{1})'.format(sourcename, observable)
+        return
     print 'min({0}:{1}): {2}'.format(sourcename, observable, min(obs))
     print 'max({0}:{1}): {2}'.format(sourcename, observable, max(obs))
-- 
2.43.0


From 1b55117fcd927e575f6e1724f954bff521fc7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:58 +0000
Subject: [PATCH 27/83] fix: load satellite files whose auxiliary scalars have
 no mask

---
 src/eustace/satgrid_iris/satellite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/satellite.py b/src/eustace/satgrid_iris/satellite.py
index 46680d8..db6e5ac 100644
--- a/src/eustace/satgrid_iris/satellite.py
+++ b/src/eustace/satgrid_iris/satellite.py
@@ -127,7 +127,7 @@ class SatelliteCollection(object):
         # Append scalar values to primary cube (unless masked)
         for cube in cubes_aux_scalar:
             if hasattr(cube.data, 'mask'):
-                if cube.data.mask[0]:
+                if numpy.ma.getmaskarray(cube.data)[0]:
                     # Aux scalar is unexpectedly masked
                     pixels_affected = numpy.sum(numpy.logical_not(cube_primary.data.mask))
                     if pixels_affected:
-- 
2.43.0


From 85b0d3734abc21cc9e6abb22fcfc7720e84e7b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:58 +0000
Subject: [PATCH 28/83] fix: do not store a measurement for time steps without
 observations

SpaceTimeComponentSolution stored None (under time index None), after which
solving the component raised AttributeError.
---
 .../analysis/advanced_standard/components/spacetime.py      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index 8344733..dca27ed 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -145,7 +145,11 @@ class SpaceTimeComponentSolution(ComponentSolution):
 
     def update_time_step(self):
 
-        self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
+        # As for spatial components: nothing to store for time steps without observations
+        if self.measurement is None:
+            print "No measurement to store. Time step will not be processed"
+        else:
+            self.solutionstorage.measurement_write(self.measurement, self.measurement_time_index)
         self.measurement = None
         self.measurement_time_index = None
 
-- 
2.43.0


From cdc90db6d34e31b087290dc8ae7acb94908ddde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:58 +0000
Subject: [PATCH 29/83] fix: leave stored measurements as they are when merging
 them

merge_updates added all measurements to the first one stored, so that those
kept in memory were counted twice in the next solution.
---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index dca27ed..c7839c5 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -253,7 +253,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             update = self.solutionstorage.measurement_read(time_index)
 
             if merged_updates is None:
-                merged_updates = update
+                # Copy so that the stored update is not modified when others are appended
+                merged_updates = MeasurementUpdate(update.information_precision.copy(), update.information_vector.copy())
             else:
                 merged_updates.append_measurement_update(update)
 
-- 
2.43.0


From 10c4fb75cba29f1381a8e053d725f10e554a29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 30/83] fix: add the solution of a nonlinear system to its
 linearisation point elementwise

The solution is a column and the initial state of the nonlinear elements is
one-dimensional, so that their sum was a square matrix.
---
 src/eustace/analysis/advanced_standard/components/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spacetime.py b/src/eustace/analysis/advanced_standard/components/spacetime.py
index c7839c5..9b7d198 100644
--- a/src/eustace/analysis/advanced_standard/components/spacetime.py
+++ b/src/eustace/analysis/advanced_standard/components/spacetime.py
@@ -210,7 +210,8 @@ class SpaceTimeComponentSolution(ComponentSolution):
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + self.solutionstorage.state_read()
+                linearisation_point = self.solutionstorage.state_read()
+                new_state_estimate = numpy.array(state_update).reshape(linearisation_point.shape) + linearisation_point
 
             else:
 
-- 
2.43.0


From 21b206d1823190396b78a495d675404fb8878981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 31/83] fix: read and write the samples of delayed spatial
 components

DelayedSpatialComponentSolutionStorage_Files looked its file names up under
attributes that do not exist, wrote an undefined name and did not return
what it read.
---
 .../components/storage_files.py               | 44 ++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 265a0ec..5c825c6 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -289,6 +289,18 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
     def partial_state_marginal_std_read(self, time_index):
         return self.state_marginal_std_read(time_index)
 
+    def partial_state_sample_write(self, sample, time_index):
+        return self.state_sample_write(sample, time_index)
+
+    def partial_state_sample_read(self, time_index):
+        return self.state_sample_read(time_index)
+
+    def partial_state_prior_sample_write(self, sample, time_index):
+        return self.state_prior_sample_write(sample, time_index)
+
+    def partial_state_prior_sample_read(self, time_index):
+        return self.state_prior_sample_read(time_index)
+
     def state_write(self, state, state_key):
 
         if self.statefiledictionary_write is None:
@@ -311,13 +323,23 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_write(self, sample, state_key):
 
-        if self.samplefiledictionary_write is None:
+        if self.sample_filedictionary_write is None:
             raise ValueError('no state write file specified')
 
-        if state_key not in self.samplefiledictionary_write:
+        if state_key not in self.sample_filedictionary_write:
             raise ValueError('time key mismatch')
 
-        writepickle(state, self.samplefiledictionary_write[state_key])
+        writepickle(sample, self.sample_filedictionary_write[state_key])
+
+    def state_prior_sample_write(self, sample, state_key):
+
+        if self.prior_sample_filedictionary_write is None:
+            raise ValueError('no state write file specified')
+
+        if state_key not in self.prior_sample_filedictionary_write:
+            raise ValueError('time key mismatch')
+
+        writepickle(sample, self.prior_sample_filedictionary_write[state_key])
 
     def state_read(self, state_key):
         
@@ -341,12 +363,24 @@ class DelayedSpatialComponentSolutionStorage_Files(SpaceTimeComponentSolutionSto
 
     def state_sample_read(self, state_key):
         
-        if self.samplefiledictionary_read is None:
+        if self.sample_filedictionary_read is None:
+            return None
+
+        if state_key not in self.sample_filedictionary_read:
+            return None #raise ValueError('time key mismatch')
+
+        return readpickle(self.sample_filedictionary_read[state_key])
+
+    def state_prior_sample_read(self, state_key):
+
+        if self.prior_sample_filedictionary_read is None:
             return None
 
-        if state_key not in self.samplefiledictionary_read:
+        if state_key not in self.prior_sample_filedictionary_read:
             return None #raise ValueError('time key mismatch')
 
+        return readpickle(self.prior_sample_filedictionary_read[state_key])
+
     def measurement_write(self, measurement, measurement_key):
 
         if self.measurementfiledictionary_write is None:
-- 
2.43.0


From 89d597d6fba59401a1ca9e256a9940ac6e75554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 32/83] fix: solve nonlinear and sampled delayed spatial
 components

The linearisation point was read without its time index, the sample options
were dropped, samples went to storage methods that only some storages have,
and squeezing broke systems of one parameter and samples of size one.
---
 .../components/spatialdelayed.py                 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
index 18512ab..dde4f84 100644
--- a/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
+++ b/src/eustace/analysis/advanced_standard/components/spatialdelayed.py
@@ -29,7 +29,7 @@ class DelayedSpatialComponent(SpaceTimeComponent):
     
     def __init__(self, storage, solutionstorage, printstats=False, compute_uncertainties = False, method='EXACT', compute_sample=False, sample_size=1):
 
-        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method)
+        super(DelayedSpatialComponent, self).__init__(storage, solutionstorage, printstats = printstats, compute_uncertainties = compute_uncertainties, method=method, compute_sample=compute_sample, sample_size=sample_size)
         
     def component_solution(self):
         
@@ -133,12 +133,12 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             solution = LinearSystemSolution_Cholesky(spacetimesystem, printstats=self.printstats)
 
             # Get expected value
-            state_update = numpy.squeeze(solution.maximum_a_posteriori())
+            state_update = numpy.array(solution.maximum_a_posteriori()).ravel()
                     
             if self.element.isnonlinear():
 
                 # For nonlinear system this is an offset versus linearisation point
-                new_state_estimate = state_update + numpy.squeeze(self.solutionstorage.partial_state_read())
+                new_state_estimate = state_update + numpy.array(self.solutionstorage.partial_state_read(time_index)).ravel()
 
             else:
 
@@ -150,15 +150,15 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
             
             if self.compute_uncertainties:
                 if self.method == 'APPROXIMATED':
-                    marginal_std = numpy.squeeze(solution.approximated_marginal_std())
+                    marginal_std = numpy.array(solution.approximated_marginal_std()).ravel()
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                 elif self.method == 'EXACT':
-                    marginal_std = numpy.squeeze(solution.marginal_std())
+                    marginal_std = numpy.array(solution.marginal_std()).ravel()
                     self.solutionstorage.partial_state_marginal_std_write(marginal_std, time_index)
                     
             if self.compute_sample:
-                sample = numpy.squeeze(solution.random_sample(self.sample_size))
-                self.solutionstorage.state_sample_write(sample, time_index)
+                sample = solution.random_sample(self.sample_size)
+                self.solutionstorage.partial_state_sample_write(sample, time_index)
   
     def solution_observation_expected_value(self, observations):
 
@@ -202,7 +202,7 @@ class DelayedSpatialComponentSolution(SpaceTimeComponentSolution):
         time_index = observations.time_index()
 
         # Attempt to retrieve solution
-        state = self.solutionstorage.state_sample_read(time_index)
+        state = self.solutionstorage.partial_state_sample_read(time_index)
         
         # Return zeros if can't find it
         if state is None:
-- 
2.43.0


From 085467ff41eb9c0ba9e513cb277f7a2aa91f7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:37 +0000
Subject: [PATCH 33/83] fix: read and write samples through filename patterns

Reading a prior sample attempted to write one, and the methods by time step
dropped the sample.
---
 .../advanced_standard/components/storage_files.py  | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/components/storage_files.py b/src/eustace/analysis/advanced_standard/components/storage_files.py
index 5c825c6..0414b8f 100644
--- a/src/eustace/analysis/advanced_standard/components/storage_files.py
+++ b/src/eustace/analysis/advanced_standard/components/storage_files.py
@@ -505,8 +505,8 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def state_sample_read(self, sample_key):
         return self.file_read( self.sample_read_pattern, sample_key )
 
-    def prior_state_sample_read(self, sample, sample_key):
-        self.file_write(sample, self.prior_sample_read_pattern, sample_key)
+    def prior_state_sample_read(self, sample_key):
+        return self.file_read( self.prior_sample_read_pattern, sample_key )
 
     def measurement_read(self, measurement_key):
         return self.file_read(self.measurement_read_pattern, measurement_key)
@@ -526,14 +526,14 @@ class DelayedSpatialComponentSolutionStorageFlexible_Files(SpaceTimeComponentSol
     def partial_state_marginal_std_read(self, std_key):
         return self.state_marginal_std_read(std_key)
         
-    def partial_state_sample_write(self, sample_key):
-        return self.state_sample_write(sample_key)
+    def partial_state_sample_write(self, sample, sample_key):
+        return self.state_sample_write(sample, sample_key)
     
     def partial_state_sample_read(self, sample_key):
         return self.state_sample_read(sample_key)
         
-    def partial_state_prior_sample_write(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+    def partial_state_prior_sample_write(self, sample, sample_key):
+        return self.prior_state_sample_write(sample, sample_key)
     
     def partial_state_prior_sample_read(self, sample_key):
-        return self.prior_state_sample_write(sample_key)
+        return self.prior_state_sample_read(sample_key)
-- 
2.43.0


From 37a13284312134a42bb443b0447aa804099f9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 34/83] fix: find a triangle for points on vertices of the mesh

Rounding can put such points outside all of the triangles around them, and
the index returned was then -1.
---
 src/eustace/analysis/mesh/locator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/analysis/mesh/locator.py b/src/eustace/analysis/mesh/locator.py
index aab805f..adedb5a 100644
--- a/src/eustace/analysis/mesh/locator.py
+++ b/src/eustace/analysis/mesh/locator.py
@@ -45,6 +45,11 @@ class TriangleLocator(object):
         # call Cython method to compute values of indices
         locator_search_planes_exhaustive(indices, self.normal0, self.normal1, self.normal2, v)
 
+        # points at a vertex or side of the mesh may be outside all triangles by rounding error: choose the nearest
+        for row in numpy.nonzero((indices < 0) & numpy.isfinite(v).all(axis=1))[0]:
+            distance = numpy.maximum(numpy.maximum(self.normal0.dot(v[row]), self.normal1.dot(v[row])), self.normal2.dot(v[row]))
+            indices[row] = numpy.argmin(distance)
+
         # result
         return indices
 
-- 
2.43.0


From dc28643a92cfce9494ee95c826cf9476715dcbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 35/83] fix: refuse singular matrices with the intended error

The message was formatted with a name that is not defined.
---
 src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py b/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
index 6994112..a209fab 100644
--- a/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
+++ b/src/eustace/analysis/advanced_standard/linalg/pardisowrapper.py
@@ -149,7 +149,7 @@ class PardisoWrapper(SolverLibraryWrapper):
         # pardiso with a matrix A that contains empty rows leads to a segfault, same applies for csc with 
         # empty columns
         if not numpy.diff(A.indptr).all():
-            raise ValueError('Matrix A is singular, because it contains empty row(s)'.format(row_col))
+            raise ValueError('Matrix A is singular, because it contains empty row(s)')
 
         # check floating point is 64-bit
         if A.dtype != numpy.float64:
-- 
2.43.0


From 31b52a8dc3ccb81602b1163bca139c9654458f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:49 +0000
Subject: [PATCH 36/83] fix: import what the traces and marginal variances of
 sparse matrices use

cholmod and scipy.sparse were used without being imported; the sets module
is replaced by the built-in set, which it is deprecated for.
---
 src/eustace/analysis/advanced_standard/linalg/sparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/sparse.py b/src/eustace/analysis/advanced_standard/linalg/sparse.py
index 05f2251..6d2cbee 100644
--- a/src/eustace/analysis/advanced_standard/linalg/sparse.py
+++ b/src/eustace/analysis/advanced_standard/linalg/sparse.py
@@ -1,6 +1,8 @@
 """Sparse matrix operations"""
 
 import numpy
+import scipy.sparse
+import sksparse.cholmod as cholmod
 import qinv
 
 def trace_iQ_dQdp(Q, dQdp, fQ = None, iQp = None):
@@ -44,12 +46,10 @@ def marginal_variance_Q_inv(Q, A = None):
         # The following operation is only correct if the non zero indices of A.T * A are a subset of
         # the non-zero elements of Q_inv so check that this condition is true before proceeding. 
         
-        from sets import Set
-        
         (P_i, P_j, P_v) = scipy.sparse.find(Q_inv)
         (AtA_i, AtA_j, AtA_v) = scipy.sparse.find(A.T * A)
-        Q_inv_non_zero = Set( zip(P_i, P_j) )
-        AtA_non_zero = Set( zip(AtA_i, AtA_j) )
+        Q_inv_non_zero = set( zip(P_i, P_j) )
+        AtA_non_zero = set( zip(AtA_i, AtA_j) )
         
         AtA_non_zero.issubset(Q_inv_non_zero)
         
-- 
2.43.0


From c773426b21e4907708f3bbd7e1eb29435bafc6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:00 +0000
Subject: [PATCH 37/83] fix: compute partial inverses of matrices whose
 Cholesky factor has zeros by cancellation

Elements of the factor that happen to be zero were dropped from the pattern of
the partial inverse, and elements that depend on them came out wrong.
---
 src/eustace/analysis/advanced_standard/linalg/qinv.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/linalg/qinv.pyx b/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
index 47bf74d..8b35ad9 100644
--- a/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
+++ b/src/eustace/analysis/advanced_standard/linalg/qinv.pyx
@@ -53,7 +53,9 @@ def Q_inv(Q, fQ = None):
     cdef cITYPE [:] L_indptr  = Lp.indptr
 
     # initialise output non-zero pattern based on that of the cholesky factor
-    Sigma_tilde = Lp + Lp.T
+    # (using ones in place of its values, as addition drops elements that happen to be zero)
+    pattern = scipy.sparse.csc_matrix((np.ones(Lp.data.shape), Lp.indices, Lp.indptr), shape=Lp.shape)
+    Sigma_tilde = pattern + pattern.T
     if not Sigma_tilde.has_sorted_indices:
         Sigma_tilde.sort_indices()
     
-- 
2.43.0


From fbac83d5425d4a0d8e433db50107b25032561aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:54 +0000
Subject: [PATCH 38/83] fix: put observations within rounding error of the
 north pole in the northernmost row of the grid

---
 src/eustace/satgrid_iris/gridbin/gridfieldlist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
index 8dc86e9..93bb5d4 100644
--- a/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
+++ b/src/eustace/satgrid_iris/gridbin/gridfieldlist.py
@@ -58,7 +58,7 @@ class GridFieldAxisLatitude(GridFieldAxis):
 
         last_centre = self.zeroth + self.count * self.step
         if abs(last_centre + 0.5 * self.step - 90.0) < 1.0E-6:
-            values = numpy.where(numpy.equal(values, 90.0), last_centre, values)
+            values = numpy.where(numpy.greater(values, last_centre) & numpy.less_equal(values, 90.0), last_centre, values)
         return super(GridFieldAxisLatitude, self).compute_indices(values)
 
 class GridFieldDescriptor:
-- 
2.43.0


From aadc5f80a60aec4d975c66a391272e37210e87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:15 +0000
Subject: [PATCH 39/83] fix: allow lattices whose dimensions differ in number
 of nodes

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 9d1ff75..94208fe 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -143,12 +143,14 @@ class LatticeMesh(object):
         
         
         axis_coordinates = [np.linspace(this_dim[0], this_dim[1], n_nodes) for this_dim, n_nodes in zip(self.node_bounds.T, self.number_of_nodes_per_dimension )  ]
-        self.axis_coordinates = np.array(axis_coordinates).T
         
         if len(axis_coordinates) > 1:
+            # Axes may differ in length
+            self.axis_coordinates = axis_coordinates
             meshgrid_nodes = np.meshgrid(*axis_coordinates, indexing='ij')
             self.nodes = np.array(meshgrid_nodes).T.reshape(-1,self.n_dims)
         else:
+            self.axis_coordinates = np.array(axis_coordinates).T
             self.nodes = self.axis_coordinates
 
         self.n_nodes = self.nodes.shape[0]
-- 
2.43.0


From 95be13ab8932f5c18ce33287e2a8271bf3557017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:15 +0000
Subject: [PATCH 40/83] fix: number nodes of lattice precision matrices as in
 the design matrix

---
 .../analysis/advanced_standard/stats/spde/lattice.py      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index 94208fe..f5b1220 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -625,8 +625,8 @@ class LatticeSPDE():
             inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
             
             # covert the n-dimensional indices into one dimensional indices that correspond to the indexing of Q
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
             # use the indexing to fill in linked nodes in Q
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
@@ -673,8 +673,8 @@ class LatticeSPDE():
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
 
-            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension)
-            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension)
+            inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
+            inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
             Q_neighbour[inds_i, inds_j] = - dim_scales[d]
             Q_neighbour[inds_j, inds_i] = - dim_scales[d]
-- 
2.43.0


From aacab1573f0e5465bf616f7d1af8bf88fd90fdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 41/83] fix: wrap circular dimensions in derivatives of lattice
 precision matrices

---
 .../advanced_standard/stats/spde/lattice.py        | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index f5b1220..b477b7d 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -665,14 +665,22 @@ class LatticeSPDE():
         for d in range(self.lattice.n_dims):
             
             slices_i = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
-            
             slices_j = [slice(0, dim_length, None) for dim_length in self.lattice.number_of_nodes_per_dimension]
-            slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
+
+            # same neighbours as in build_Q_native, including wrapping of circular dimensions
+            if self.lattice.wrap_dimensions is not None and self.lattice.wrap_dimensions[d] is True:
+                slices_i[d] = slice(-1, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d])
+            else:
+                slices_i[d] = slice(0, self.lattice.number_of_nodes_per_dimension[d]-1)
+                slices_j[d] = slice(1, self.lattice.number_of_nodes_per_dimension[d]) 
             
             inds_i = np.mgrid[slices_i].T.reshape(-1,self.lattice.n_dims)
             inds_j = np.mgrid[slices_j].T.reshape(-1,self.lattice.n_dims)
 
+            inds_i = inds_i % self.lattice.number_of_nodes_per_dimension
+            inds_j = inds_j % self.lattice.number_of_nodes_per_dimension
+
             inds_i = np.ravel_multi_index(inds_i.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             inds_j = np.ravel_multi_index(inds_j.T, self.lattice.number_of_nodes_per_dimension, order = 'F')
             
-- 
2.43.0


From 36a23a7c329e7628ef4e14a5634cb8625987d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:34 +0000
Subject: [PATCH 42/83] fix: apply the operator once more for each next
 smoothness order but one on the sphere

---
 .../analysis/advanced_standard/stats/spde/spherical.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
index d0ba536..60f6fec 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/spherical.py
@@ -399,11 +399,11 @@ class SphereMeshSPDE(object):
         if alpha % 2 == 0:
             
             Q = K * inv_C_tilde * K
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         else:
             Q = K
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 Q = K * inv_C_tilde * Q * inv_C_tilde * K
         
         Q = tau * Q * tau
@@ -433,7 +433,7 @@ class SphereMeshSPDE(object):
             Q = K * inv_C_tilde * K
             dQdp = dKdp * inv_C_tilde * K + K * inv_C_tilde * dKdp
             
-            for i in range(4, alpha, 2):
+            for i in range(4, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
@@ -442,7 +442,7 @@ class SphereMeshSPDE(object):
         else:
             Q = K
             dQdp = dKdp
-            for i in range(3, alpha, 2):
+            for i in range(3, alpha+1, 2):
                 
                 dQdp = dKdp * inv_C_tilde * Q * inv_C_tilde * K + \
                        K * inv_C_tilde * dQdp * inv_C_tilde * K + \
-- 
2.43.0


From 3b39346d451856dfd1292a71a84613796ecfe705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:06 +0000
Subject: [PATCH 43/83] fix: evaluate basis functions once per node on circular
 lattices of few nodes

---
 src/eustace/analysis/advanced_standard/stats/spde/lattice.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
index b477b7d..7d5ffa1 100644
--- a/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
+++ b/src/eustace/analysis/advanced_standard/stats/spde/lattice.py
@@ -243,6 +243,11 @@ class LatticeMesh(object):
         # find all required non-zero basis functions for each observations
         obs_indices, node_indices = self.locate_nearby_basis_indices(locations)
         
+        # circular dimensions with few nodes can be wrapped more than once, giving the same node again
+        if self.wrap_dimensions is not None:
+            unique_indices = np.unique(obs_indices * n_bases + node_indices)
+            obs_indices, node_indices = unique_indices // n_bases, unique_indices % n_bases
+        
         # form a vector of all required basis evaluations - multi observation, multi basis
         distances = locations[obs_indices,...] - self.nodes[node_indices,...]
         
-- 
2.43.0


From e7c72923d384ea105af9d363cd2224fe5c1f11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:03 +0000
Subject: [PATCH 44/83] fix: allow factor elements in combinations, whose
 design function passes on rectified

---
 src/eustace/analysis/advanced_standard/elements/factor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/factor.py b/src/eustace/analysis/advanced_standard/elements/factor.py
index 38bd150..ffbfbdf 100644
--- a/src/eustace/analysis/advanced_standard/elements/factor.py
+++ b/src/eustace/analysis/advanced_standard/elements/factor.py
@@ -58,10 +58,12 @@ class SpaceTimeFactorDesign(ElementNonlinearDesign, SpaceTimeSPDEDesign):
         # Stack 'em up
         return scipy.sparse.hstack([ jacobian_space, jacobian_time ], format=SPARSEFORMAT)
 
-    def design_function(self, currentstate):
+    def design_function(self, currentstate, rectified=False):
 
-        v_space = self.space_A.dot(currentstate[:self.space_A.shape[1]])
-        v_time = self.time_A.dot(currentstate[self.space_A.shape[1]:])
+        space_A = numpy.abs(self.space_A) if rectified else self.space_A
+        time_A = numpy.abs(self.time_A) if rectified else self.time_A
+        v_space = space_A.dot(currentstate[:space_A.shape[1]])
+        v_time = time_A.dot(currentstate[space_A.shape[1]:])
         return v_space * v_time
 
 class SpaceTimeFactorPrior(SpaceTimeSPDEPrior):
-- 
2.43.0


From 194e40898e727fb17e598f4934820e598aed4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:41 +0000
Subject: [PATCH 45/83] fix: interpolate covariates on grids whose spacing has
 more than two decimals

---
 .../advanced_standard/elements/geography_based.py         | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/geography_based.py b/src/eustace/analysis/advanced_standard/elements/geography_based.py
index bdba4e9..fca2c4c 100644
--- a/src/eustace/analysis/advanced_standard/elements/geography_based.py
+++ b/src/eustace/analysis/advanced_standard/elements/geography_based.py
@@ -61,11 +61,13 @@ class GeographyBasedCovariateFunction(object):
         #
         # here nodes spacing is supposed to be uniform, but for safety we check it
 
-        nodes_spacing = round((latitude.max()-latitude.min())/(latitude.shape[0]-1),2)
-        nodes_spacing_check = round((longitude.max()-longitude.min())/(longitude.shape[1]-1),2)
+        # (only the check allows for rounding: interpolation needs the spacing itself)
+
+        nodes_spacing = (latitude.max()-latitude.min())/(latitude.shape[0]-1)
+        nodes_spacing_check = (longitude.max()-longitude.min())/(longitude.shape[1]-1)
         span = numpy.repeat(nodes_spacing,2)
         
-        if nodes_spacing != nodes_spacing_check:
+        if abs(nodes_spacing - nodes_spacing_check) > 0.005:
             raise ValueError('Nodes spacing has to be uniform along all the directions!')
 
         # extend covariate vector over longitude and then latitude
-- 
2.43.0


From 5803957817cdeb368a826c5a401588428ac399c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:18 +0000
Subject: [PATCH 46/83] fix: give general hyperparameters as one vector and
 read them back from file

---
 .../analysis/advanced_standard/elements/local_view.py       | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/elements/local_view.py b/src/eustace/analysis/advanced_standard/elements/local_view.py
index 887e39e..d2716ae 100644
--- a/src/eustace/analysis/advanced_standard/elements/local_view.py
+++ b/src/eustace/analysis/advanced_standard/elements/local_view.py
@@ -196,7 +196,7 @@ class GeneralHyperparameters(Hyperparameters):
         """Retrieve as 1D NumPy array."""
 
         valueslist = [ self.__dict__[key] for key in sorted(self.__dict__)]
-        return numpy.array(valueslist)
+        return numpy.concatenate(valueslist)
         
     def set_array(self, values):
         """Set from NumPy array."""
@@ -217,9 +217,9 @@ class GeneralHyperparameters(Hyperparameters):
     def init_from_npy_savefile(filename):
         """Load Q_parameters values from npz save file"""
         
-        parameter_dict = numpy.load(filename)
+        parameter_dict = numpy.load(filename, allow_pickle=True).item()
         
-        return ExpandedHyperparameters(**parameter_dict)
+        return GeneralHyperparameters(**parameter_dict)
         
     def values_to_npy_savefile(self, filename):
         """Write Q_parameters to npy save file"""
-- 
2.43.0


From 1ce87f5bf649e4a6909d5439f3860178af3d3756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:41 +0000
Subject: [PATCH 47/83] fix: keep apart the times of delayed spatial components
 when several times are updated

---
 src/eustace/analysis/advanced_standard/analysissystem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/analysissystem.py b/src/eustace/analysis/advanced_standard/analysissystem.py
index 6476cca..036e19c 100644
--- a/src/eustace/analysis/advanced_standard/analysissystem.py
+++ b/src/eustace/analysis/advanced_standard/analysissystem.py
@@ -7,6 +7,7 @@ import sys
 
 from eustace.analysis.advanced_standard.components.spatial import SpatialComponent
 from eustace.analysis.advanced_standard.components.spacetime import SpaceTimeComponent
+from eustace.analysis.advanced_standard.components.spatialdelayed import DelayedSpatialComponent
 
 from eustace.analysis.advanced_standard.fileio.output_structure_rectilinear import Regridder
 
@@ -173,8 +174,8 @@ class AnalysisSystem(object):
                     # Process these observations
                     component_solution.process_observations(inputs, subtract_offset)
 
-            if isinstance(component, SpatialComponent):
-                # Spatial components update on each substep
+            if isinstance(component, (SpatialComponent, DelayedSpatialComponent)):
+                # Components with one state per time update on each substep
                 component_solution.update_time_step()
                 print component_solution
                 for key, value in component_solution.__dict__.iteritems():
-- 
2.43.0


From 7ebe30705467686597f8032a227adb71783daf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:54 +0000
Subject: [PATCH 48/83] fix: store measurements of several times under the last
 time with observations

---
 .../analysis/advanced_standard/analysissystem.py       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/analysissystem.py b/src/eustace/analysis/advanced_standard/analysissystem.py
index 036e19c..5f0632f 100644
--- a/src/eustace/analysis/advanced_standard/analysissystem.py
+++ b/src/eustace/analysis/advanced_standard/analysissystem.py
@@ -139,8 +139,8 @@ class AnalysisSystem(object):
                     memory_usage_megabytes()))
             self.log.flush()
 
-            # Reset the expected date for observations in preparation for new time_index 
-            component_solution.measurement_time_index = None
+            # Whether observations have been processed for new time_index
+            first_observations = True
 
             for inputloader in inputloaders_at_time:
                 # Load input
@@ -171,6 +171,12 @@ class AnalysisSystem(object):
                             # Add to offset
                             subtract_offset += expected_value
 
+                    # Reset the expected date when the first observations for new time_index are processed
+                    # (only then, so that whatever is stored has the latest time with observations)
+                    if first_observations:
+                        component_solution.measurement_time_index = None
+                        first_observations = False
+
                     # Process these observations
                     component_solution.process_observations(inputs, subtract_offset)
 
-- 
2.43.0


From c7149f0bf55bca64cb7c0d7038a94ae70802c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:49 +0000
Subject: [PATCH 49/83] fix: keep the order of latitudes in averages over grid
 cells

---
 .../fileio/output_structure_rectilinear.py                | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
index 7d6c94d..decf3cd 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_structure_rectilinear.py
@@ -80,10 +80,10 @@ class RegriddingRectilinearGridStructure(ObservationStructure):
         """Rearrange latitudes for boosting regridding computations"""
         
         latitudes = self.latitudes.reshape(-1, self.Nlat)
-        latitudes = numpy.tile(latitudes, (len(self.longitudes)/self.Nlon,self.Nlon))
-        reindexer = numpy.argsort(latitudes[:,0])
-        
-        return latitudes[reindexer]#, longitudes
+        latitudes = numpy.tile(latitudes, (1,self.Nlon))
+
+        # One row per grid cell, in order of latitudes as given
+        return numpy.repeat(latitudes, len(self.longitudes)/self.Nlon, axis=0)
 
     def rearrange_longitudes(self):
         """Rearrange longitudes for boosting regridding computations"""
-- 
2.43.0


From ca5b13ec307ed362ded2dbc2903e2c16db22f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:49 +0000
Subject: [PATCH 50/83] fix: compute spread of samples for any number of blocks
 and shape of state

---
 .../analysis/advanced_standard/fileio/output_projector.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eustace/analysis/advanced_standard/fileio/output_projector.py b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
index 7ef5714..7ea2051 100644
--- a/src/eustace/analysis/advanced_standard/fileio/output_projector.py
+++ b/src/eustace/analysis/advanced_standard/fileio/output_projector.py
@@ -170,12 +170,10 @@ class Projector(object):
         
         if statesample is None:
             return None
-              
-        sampledepartures = statesample - self.state_solution
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(int(n_outputs / self.blocking), 1)
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
@@ -198,15 +196,13 @@ class Projector(object):
         else:
             statesample = self.state_samples
             sampledepartures = statesample#(statesample - self.state_solution)**2
-            print statesample.shape
-            print self.state_solution.shape
             
         if statesample is None:
             return None
         
         n_outputs = self.design_matrix.shape[0]
         output = numpy.zeros((n_outputs,1))
-        blocksize = int(n_outputs / self.blocking)
+        blocksize = max(int(n_outputs / self.blocking), 1)
         
         n_blocks = int( numpy.ceil( float(n_outputs) / float(blocksize) ) )
         
-- 
2.43.0


From 24c7cc0fad2ac21cd883bfa018b82c7ed1c44d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:24 +0000
Subject: [PATCH 51/83] fix: recognise the same measurement time of stations on
 both sides of midnight

---
 src/eustace/outputformats/stationdata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 2a7ed0a..515a2a2 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -139,9 +139,10 @@ class StationData(object):
     def get_unique_temperature_sample_times(self):
         """Array of unique times based on the MeasurementTime.RESOLUTION."""
 
-        result = [m.time for m in set(
-            [MeasurementTime(sample.time) for sample in self.temperature_samples])]
-        result.sort()
+        result = []
+        for time in sorted([sample.time for sample in self.temperature_samples]):
+            if (not result) or not (MeasurementTime(time) == MeasurementTime(result[-1])):
+                result.append(time)
         return result
 
     def get_temperature_samples(self, time_axis, variable):
-- 
2.43.0


From 2a37fba0bee6da58170c1fbb7a41755a35e3fa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:24 +0000
Subject: [PATCH 52/83] fix: refuse measurements of unknown stations instead of
 giving them to all others

---
 src/eustace/outputformats/stationdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eustace/outputformats/stationdata.py b/src/eustace/outputformats/stationdata.py
index 515a2a2..8ee19fe 100644
--- a/src/eustace/outputformats/stationdata.py
+++ b/src/eustace/outputformats/stationdata.py
@@ -167,6 +167,8 @@ class StationData(object):
         for sample in self.temperature_samples:
             station_index = self.descriptions.get_station_index(
                 sample.station_name)
+            if station_index is None:
+                raise ValueError('measurement of station which has no description: {0}'.format(sample.station_name))
             time_index = measurement_times.index(MeasurementTime(sample.time))
             value = sample.__dict__[variable.name]
             data[time_index][station_index] = value
-- 
2.43.0


From 2c7d1e18539da4878b0ec41248017a6d7ef870db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:49 +0000
Subject: [PATCH 53/83] fix: keep main and ancillary files of each source
 together when some are missing

---
 src/eustace/outputformats/filesmerger.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 7fee3bc..fdc70d9 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -20,23 +20,26 @@ def clean_list_of_outputs_to_merge(outputs_main, outputs_ancillary,number_of_sou
     original_number_of_outputs = len(outputs_main)
 
     indexes_to_remove = []
+    elements_to_keep = []
     for index, elements in enumerate(zip(outputs_main,outputs_ancillary)):
         print(elements)
-        if elements[0] is not None and os.path.isfile(elements[0]):
+        main_exists, ancillary_exists = [ (name is not None and os.path.isfile(name)) for name in elements ]
+
+	# 2nd sanity check: primary and ancillary files of each source come together
+	if main_exists != ancillary_exists:
+	    raise ValueError('Number of primary and ancillary files must be the same')
+
+        if main_exists:
 	    number_of_sources += 1
+	    elements_to_keep.append(elements)
 	else:
-	    outputs_main.remove(elements[0])
 	    indexes_to_remove.append(index)
 
-	if elements[1] is None or not(os.path.isfile(elements[1])):
-	    outputs_ancillary.remove(elements[1])
+    outputs_main[:] = [ elements[0] for elements in elements_to_keep ]
+    outputs_ancillary[:] = [ elements[1] for elements in elements_to_keep ]
 
     print(outputs_main, outputs_ancillary)
 
-    # 2nd sanity check
-    if len(outputs_main) != len(outputs_ancillary):
-	raise ValueError('Number of primary and ancillary files must be the same')
-
     # Labeling elements to be removed as None
     for index_to_remove in indexes_to_remove:
       for sub_list in list_of_indexes:
-- 
2.43.0


From 12fcd116b0626bce37a2a2f304d7af1398b4fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:49 +0000
Subject: [PATCH 54/83] fix: merge sources which have no missing cells

---
 src/eustace/outputformats/filesmerger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index fdc70d9..4d83e74 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -312,9 +312,10 @@ class FilesMerger(object):
     """Extracts masked array data and mask, sets original filling value to a new one"""
 
     masked_array_field = handle.variables[name][...]
-    masked_array_field.data[masked_array_field.data==masked_array_field.fill_value]=new_fill_value
+    mask = numpy.ma.getmaskarray(masked_array_field)
+    masked_array_field.data[mask]=new_fill_value
 
-    return masked_array_field.data,masked_array_field.mask
+    return masked_array_field.data,mask
 
   @staticmethod
   def build_triangular_correlation_matrix(number_of_files,sub_list_of_correlation_indexes):
-- 
2.43.0


From 5475466df237ac233f14cf03370d883ca69da9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:19 +0000
Subject: [PATCH 55/83] fix: write merged files beside their sources whatever
 the name of the directory

---
 src/eustace/outputformats/filesmerger.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/outputformats/filesmerger.py b/src/eustace/outputformats/filesmerger.py
index 4d83e74..5e2a74b 100644
--- a/src/eustace/outputformats/filesmerger.py
+++ b/src/eustace/outputformats/filesmerger.py
@@ -133,8 +133,8 @@ class FilesMerger(object):
 
       # Output files names
       source_label = os.path.basename(outputs_primary[0]).split('_')[4]
-      output_main = outputs_primary[0].replace('_'+source_label,'')
-      output_ancillary = outputs_ancillary[0].replace('_'+source_label,'')
+      output_main = self.remove_source_label(outputs_primary[0],source_label)
+      output_ancillary = self.remove_source_label(outputs_ancillary[0],source_label)
 
       self.list_of_merged_main_outputs.append(output_main)
       self.list_of_merged_ancillary_outputs.append(output_ancillary)
@@ -157,6 +157,12 @@ class FilesMerger(object):
       for filename in outputs_primary+outputs_ancillary:
 	os.remove(filename) 
 
+  @staticmethod
+  def remove_source_label(filename,source_label):
+    """Name of file without label of its source, in the same directory"""
+
+    return os.path.join(os.path.dirname(filename),os.path.basename(filename).replace('_'+source_label,''))
+
   def update_single_file(self,outputs_primary,outputs_ancillary):
     """Updates output filename to adhere SATSTACE convention and adds information about original satellite source into the 'comment' attribute. It is called when just only one output file is available"""  
 
@@ -166,7 +172,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_main_outputs.append(new_name)
       os.rename(i,new_name)
 
@@ -174,7 +180,7 @@ class FilesMerger(object):
       datafile = netCDF4.Dataset(i,'r+')
       datafile.setncattr('comment',self.comment_prefix+source_label+' retrievals.')
       datafile.close()
-      new_name = i.replace('_'+source_label,'')
+      new_name = self.remove_source_label(i,source_label)
       self.list_of_merged_ancillary_outputs.append(new_name)
       os.rename(i,new_name)
 
-- 
2.43.0


From 25420374b22a4451984374df73e0a61ebcc975cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:41 +0000
Subject: [PATCH 56/83] fix: report attributes of another kind or length as
 failing verification

---
 src/eustace/outputformats/verify/verify.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eustace/outputformats/verify/verify.py b/src/eustace/outputformats/verify/verify.py
index 93c525a..5caa887 100644
--- a/src/eustace/outputformats/verify/verify.py
+++ b/src/eustace/outputformats/verify/verify.py
@@ -1,6 +1,7 @@
 """Verify output format against a defined specification."""
 
 from netCDF4 import Dataset
+import numpy
 
 
 class OutcomeDescription(object):
@@ -76,7 +77,7 @@ class Verifier(object):
                     'Attribute exists: ' + key), outcome=keyexists)
                 if keyexists:
                     self.log_outcome(description=(
-                        'Attribute value: ' + key + '=' + value), outcome=(nc.__dict__[key] == value))
+                        'Attribute value: ' + key + '=' + value), outcome=numpy.array_equal(value, nc.__dict__[key]))
 
     def check_variables(self, nc, expected):
         """Check existence of at least one variable and attributes on all variables recgonised."""
@@ -96,10 +97,7 @@ class Verifier(object):
                         outcome = False
                         if meta_key in ncvar.__dict__:
                             test_value = ncvar.__getattribute__(meta_key)
-                            if isinstance(meta_value, list):
-                                outcome = all(meta_value == test_value)
-                            else:
-                                outcome = (meta_value == test_value)
+                            outcome = numpy.array_equal(meta_value, test_value)
                         self.log_outcome(v.name + '.' + meta_key + '=' + str(meta_value), outcome)
 
     def check_dimensions(self, nc, expected):
-- 
2.43.0


From d2cadefeb2a75815d297897c6e7fd43dc39e4508 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:33:10 +0000
Subject: [PATCH 57/83] fix: run ice model on inputs in which no uncertainty is
 missing

---
 src/eustace/surfaceairmodel/model_ice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/model_ice.py b/src/eustace/surfaceairmodel/model_ice.py
index d5c003a..1ae02a7 100644
--- a/src/eustace/surfaceairmodel/model_ice.py
+++ b/src/eustace/surfaceairmodel/model_ice.py
@@ -384,9 +384,9 @@ class ModelIceObservableProcessor(object):
         indices = numpy.nonzero(combined_mask.ravel() == False)
 
         # Check necessary uncertainty components present
-        missing = numpy.nonzero(input_uncorrelated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_synoptically_correlated_uncertainty.mask.ravel()[indices])[0].tolist() + \
-                  numpy.nonzero(input_large_scale_correlated_uncertainty.mask.ravel()[indices])[0].tolist()
+        missing = numpy.nonzero(numpy.ma.getmaskarray(input_uncorrelated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_synoptically_correlated_uncertainty).ravel()[indices])[0].tolist() + \
+                  numpy.nonzero(numpy.ma.getmaskarray(input_large_scale_correlated_uncertainty).ravel()[indices])[0].tolist()
 
         if len(missing):
             sys.stderr.write('WARNING: not all observations have uncertainty information (ignoring those without it).\n')
-- 
2.43.0


From b21039a0a7ae81304f22ead67996997782191172 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:36:19 +0000
Subject: [PATCH 58/83] fix: read break points from files in which no
 likelihood is missing

---
 src/eustace/preprocess/fileio/insitu_land_breakpoints.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
index cb6fb7e..881ad7c 100644
--- a/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
+++ b/src/eustace/preprocess/fileio/insitu_land_breakpoints.py
@@ -69,10 +69,8 @@ class ObservationBreakPointSourceInsituLand(ObservationSource):
 
         break_likelihood = self.dataset.variables[ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable]['break_likelihood'].name]
 
-        if hasattr(break_likelihood[:],'mask'):
-            likelihood_mask = ~break_likelihood[:].mask
-        else:
-            likelihood_mask = numpy.broadcast_to(numpy.array([True]),break_likelihood[:].shape)
+        # (the mask may be a scalar if there are no missing values)
+        likelihood_mask = ~numpy.ma.getmaskarray(break_likelihood[:])
 
         parameters = {}
         keys = ObservationBreakPointSourceInsituLand.OBSERVATIONMAPS[observable].keys()
-- 
2.43.0


From 11deb35eb51e8bb98bf389297fbc06ad8e75ff00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 59/83] fix: set window and calendar flags when no other day is
 available

---
 src/eustace/postprocess/calendar_check.py | 11 ++++++-----
 src/eustace/postprocess/window_check.py   |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/eustace/postprocess/calendar_check.py b/src/eustace/postprocess/calendar_check.py
index 0dfc5a8..6a137b8 100644
--- a/src/eustace/postprocess/calendar_check.py
+++ b/src/eustace/postprocess/calendar_check.py
@@ -98,17 +98,18 @@ def calendar_constraint_checks(input_directory, output_directory, iteration, ref
             total_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
         total_constraint_count[isconstrained]+=1
         
+        # counts start from zero when any year is available
+        if prior_constraint_count is None:
+            prior_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
+        if post_constraint_count is None:
+            post_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
+        
         if day_to_load.year == reference_time.year:
             # get and keep the flag values for the centre day
             flag_values = reference_flags
             
         else:
             # check to see if constrained and accumulate prior/post count
-
-            if prior_constraint_count is None:
-                prior_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
-            if post_constraint_count is None:
-                post_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
             
             # accumulate number of previous days constrained in window
             if day_to_load.year < reference_time.year:
diff --git a/src/eustace/postprocess/window_check.py b/src/eustace/postprocess/window_check.py
index 0ee7d2f..dfe06d0 100644
--- a/src/eustace/postprocess/window_check.py
+++ b/src/eustace/postprocess/window_check.py
@@ -87,6 +87,11 @@ def local_window_constraint_checks(input_directory, output_directory, iteration,
             print input_directory
             continue
     
+        # counts start from zero when any day of the window is available
+        if prior_constraint_count is None:
+            prior_constraint_count = numpy.zeros(reference_flags.shape, numpy.int64)
+        if post_constraint_count is None:
+            post_constraint_count = numpy.zeros(reference_flags.shape, numpy.int64)
     
         if dayshift == 0:
             # get and keep the flag values for the centre day
@@ -97,10 +102,6 @@ def local_window_constraint_checks(input_directory, output_directory, iteration,
             # apply constraint threshold check for this day
             isconstrained = ~(numpy.bitwise_and(reference_flags, target_flag) == target_flag)
             print isconstrained
-            if prior_constraint_count is None:
-                prior_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
-            if post_constraint_count is None:
-                post_constraint_count = numpy.zeros(isconstrained.shape, numpy.int64)
                 
             # number of previous days constrained in window
             if dayshift < 0:
-- 
2.43.0


From 43b36f2a0193527cf8dbcfabe78a104df472ca6e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 60/83] fix: compute window means on grids smaller than a block

---
 src/eustace/postprocess/outlier_check.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eustace/postprocess/outlier_check.py b/src/eustace/postprocess/outlier_check.py
index 1424f71..d0420b4 100644
--- a/src/eustace/postprocess/outlier_check.py
+++ b/src/eustace/postprocess/outlier_check.py
@@ -179,8 +179,9 @@ def compute_window_mean(image, window_latitude, window_longitude, padmode_latitu
     
     rolling_mean = numpy.zeros(image_shape)
     
-    latitude_steps = image_shape[0] // blocksize_latitude
-    longitude_steps = image_shape[1] // blocksize_longitude
+    # (at least one step in order to process grids smaller than a block)
+    latitude_steps = max(image_shape[0] // blocksize_latitude, 1)
+    longitude_steps = max(image_shape[1] // blocksize_longitude, 1)
     
     
     for latitude_step in range(latitude_steps):
-- 
2.43.0


From 745896ff879f4c4b1f66106b0ce6d8c24fb5d72e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:40:35 +0000
Subject: [PATCH 61/83] fix: describe every quality flag by its own bit in flag
 files

---
 src/eustace/postprocess/flags.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/flags.py b/src/eustace/postprocess/flags.py
index 32d3650..0185f15 100644
--- a/src/eustace/postprocess/flags.py
+++ b/src/eustace/postprocess/flags.py
@@ -15,7 +15,7 @@ import numpy
 FLAG_TYPE = numpy.uint16
 TYPE_NAME = 'u2'
 FLAG_MAX_N = 16
-FLAG_MAX_USED = 13
+FLAG_MAX_USED = 16
 NULL_FLAG = FLAG_TYPE(0)
 
 
@@ -63,6 +63,7 @@ FLAG_MEANINGS = ['day_constraint',
                  'areal_high_value_qc',
                  'extreme_low_value_qc',
                  'extreme_high_value_qc',
+                 'persistant_outlier_qc',
                  'marine_location_flag',
                  'location_low_value_qc',
                  'location_high_value_qc',
-- 
2.43.0


From 8f6301ea01145cc33ece9228c8e4f5fe09d4e43a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:43:58 +0000
Subject: [PATCH 62/83] fix: compute areal statistics for all latitudes if the
 last block is incomplete

---
 src/eustace/postprocess/outlier_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/outlier_check.py b/src/eustace/postprocess/outlier_check.py
index d0420b4..4a8b636 100644
--- a/src/eustace/postprocess/outlier_check.py
+++ b/src/eustace/postprocess/outlier_check.py
@@ -219,7 +219,7 @@ def block_iqr_by_range(latitudes, longitudes, data_array, range_km, max_latitude
     upper_quartile = numpy.zeros(data_array.shape) + numpy.nan
     
     # get number of blocks
-    n_blocks = int( numpy.ceil(len(latitudes) / latitude_block_size) )
+    n_blocks = int( numpy.ceil(float(len(latitudes)) / latitude_block_size) )
     
     # get grid resolutions
     latitude_grid_resolution = latitudes[1] - latitudes[0]
-- 
2.43.0


From adc785f2dccfc426ac9f8f7bf0de677cdfef2ead Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:44:40 +0000
Subject: [PATCH 63/83] fix: find quality control flags in the flag files
 written

---
 src/eustace/postprocess/apply_mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eustace/postprocess/apply_mask.py b/src/eustace/postprocess/apply_mask.py
index f1eb773..06c7a93 100644
--- a/src/eustace/postprocess/apply_mask.py
+++ b/src/eustace/postprocess/apply_mask.py
@@ -244,7 +244,8 @@ def load_flags(directory, iteration, datestring):
     print cube_names
     for i in range(len(analysis_cubes)):
         
-        if cube_names[i] == u'Quality control flags':
+        # (name() may be the standard name of the flags instead, depending on version of iris)
+        if analysis_cubes[i].long_name == u'Quality control flags':
             qc_flags = analysis_cubes[i]
         else:
             continue
-- 
2.43.0


From 35d0b52d35e78d627945489c0c29b67e102f28d8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 64/83] fix: apply quality control once to the days chosen when
 reading stations

---
 src/eustace/preprocess/fileio/insitu_land.py | 28 ++++++--------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 7e03201..5f57c38 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -114,6 +114,7 @@ class ObservationSourceInsituLand(ObservationSource):
         # Restrict by time if requested
         if self.daynumber is None:
             measurement = variable[:]
+            qc_flags = qc_var[:]
         
         else:
             # argwhere - Finds the indices of array elements that are non-zero, grouped by element
@@ -123,35 +124,22 @@ class ObservationSourceInsituLand(ObservationSource):
                 # numpy.ravel returns a contiguous flattened array.
                 # extract measurement by advanced index and slice  
                 measurement = variable[dayindex.ravel(), :]
+                # replicate method used for measurement to return data relating to specified day indices 
+                qc_flags = qc_var[dayindex.ravel(), :]
                 time = time[dayindex]
 
-                # the mask is updated so True areas also represent areas where 
-                # qc flags have failed checks  
-                if qc_mask:
-                    # replicate method used for measurement to return data relating to specified day indices 
-                    qc_var_day = qc_var[dayindex.ravel(), :]
-                    # create a mask for areas where the qc flag values are not 0
-                    # this mask - True values - relates to all data that failed qc checks
-                    qc_data_mask = numpy.ma.masked_not_equal(qc_var_day, 0)
-                    # update the measurement mask to additionally mask out areas from the qc data mask, 
-                    # in addition to those areas already masked out
-                    measurement.mask = numpy.logical_or(
-                                       measurement.mask, qc_data_mask)
-
             else:
                 return None                        
 
+        # the mask is updated so True areas also represent areas where 
+        # qc flags have failed checks (all data for which the qc flag values are not 0)
+        if qc_mask:
+            measurement.mask = numpy.logical_or(measurement.mask, numpy.ma.getdata(qc_flags) != 0)
+
         if self.hold_out_dataset:
             # mask out those stations not used for training the learning algorithm
             measurement.mask = numpy.logical_or(measurement.mask, self.identify_validation_stations())
 
-            # the mask is updated so True areas also represent areas where 
-            # qc flags have failed checks  
-            if qc_mask:
-                qc_data_mask = numpy.ma.masked_not_equal(qc_var, 0)
-                measurement.mask = numpy.logical_or(
-                                   measurement.mask, qc_data_mask)
-                                   
         # Formulate output
         all_time = numpy.tile(time, (measurement.shape[1], 1)).transpose()
         all_stations = numpy.tile(numpy.array(range(measurement.shape[1]), numpy.uint64), (measurement.shape[0], 1))
-- 
2.43.0


From 1bf7cd792a450b715ae9610e329ce05d76000987 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 65/83] fix: give a mask per observation when no station data
 are missing

---
 src/eustace/preprocess/fileio/insitu_land.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_land.py b/src/eustace/preprocess/fileio/insitu_land.py
index 5f57c38..a9de3d1 100644
--- a/src/eustace/preprocess/fileio/insitu_land.py
+++ b/src/eustace/preprocess/fileio/insitu_land.py
@@ -131,6 +131,9 @@ class ObservationSourceInsituLand(ObservationSource):
             else:
                 return None                        
 
+        # need a mask value for each element (also if no data are missing)
+        measurement = numpy.ma.masked_array(numpy.ma.getdata(measurement), mask=numpy.ma.getmaskarray(measurement))
+
         # the mask is updated so True areas also represent areas where 
         # qc flags have failed checks (all data for which the qc flag values are not 0)
         if qc_mask:
-- 
2.43.0


From 3c6915b10bb839dbd95527cda4443b0357a201ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 66/83] fix: prepare stations with altitude adjustment and no
 stations held out

---
 src/eustace/analysis/preparedailyfixed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 3062faa..0cf9872 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -36,10 +36,7 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
     # Get the info
     if sourcename == SOURCE_INSITU_LAND:
         # special case for land to load only data relevant to given day number
-        if hold_out_list == None:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, altitude_adjustment)
-        else:
-            source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
+        source = SOURCECLASS[sourcename](dailyfilename, daynumber, hold_out_list, altitude_adjustment)
         
         # Load it
         dailydata = source.observations(observable, qc_mask)
-- 
2.43.0


From 11ea5a44de0b486ab9101352068579263b2bb27a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 67/83] fix: read ship files which hold one observation

---
 src/eustace/preprocess/fileio/insitu_ocean.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/preprocess/fileio/insitu_ocean.py b/src/eustace/preprocess/fileio/insitu_ocean.py
index 3f7a957..74dbfe4 100644
--- a/src/eustace/preprocess/fileio/insitu_ocean.py
+++ b/src/eustace/preprocess/fileio/insitu_ocean.py
@@ -78,6 +78,9 @@ class ObservationSourceInsituOceanHadNMAT2(ObservationSource):
         textfile.seek(0)
         txtdata = numpy.genfromtxt(textfile, delimiter=HadNMAT2Format.FIELDWIDTH, usecols=format.usecols, names=HadNMAT2Format.FIELDS, dtype=HadNMAT2Format.DTYPES, comments=None)
 
+        # a file with one observation gives a single record instead of an array
+        txtdata = numpy.atleast_1d(txtdata)
+
         # build coordinates
         self.coords = numpy.vstack([ 
                 txtdata[HadNMAT2Format.LAT] * HadNMAT2Format.LOCATION_SCALE, 
-- 
2.43.0


From 4ea6026a0fa56146424ea2f1cf9f1923c602c61c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 68/83] fix: return empty observations from missing observation
 source

---
 src/eustace/analysis/fileio/observationsource_missing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/analysis/fileio/observationsource_missing.py b/src/eustace/analysis/fileio/observationsource_missing.py
index a4b31d8..c1042f2 100644
--- a/src/eustace/analysis/fileio/observationsource_missing.py
+++ b/src/eustace/analysis/fileio/observationsource_missing.py
@@ -23,7 +23,7 @@ class ObservationSourceMissing(ObservationSource):
     def observations(self, observable):
         """Retrieve observations for specified observable quantity."""
         
-        if self.missing_observable == observable:
+        if observable in self.missing_observables:
             # return as Observations object
             return ObservationsMissing(None)
         else:
-- 
2.43.0


From 3aaa0355d9f69ec7524f9e3e3a6fcd49cd866aaa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:14 +0000
Subject: [PATCH 69/83] fix: keep lakes at different places apart

---
 src/eustace/surfaceairmodel/fileio/lake.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 39ea384..6e9317d 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -43,18 +43,13 @@ class ObservationSourceLakeReading(ObservationSource):
         # parse tab-delimted format
         txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
 
-        # signatures for each location so we can spot duplicates
-        location_signature = \
-            numpy.int64(360 * 1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LAT]) + \
-            numpy.int64(      1000000 * txtdata[ObservationSourceLakeReading.COLUMN_LON])
-
-        # find duplicate signatures
-        unique_signature, unique_indices, self.location_ids = numpy.unique(location_signature, return_index=True, return_inverse=True)
- 
-        # coordinates of unique signatures only
-        self.location_lookup = numpy.vstack([ 
-                txtdata[ObservationSourceLakeReading.COLUMN_LAT][unique_indices], 
-                txtdata[ObservationSourceLakeReading.COLUMN_LON][unique_indices] ])
+        # coordinates of all observations
+        coordinates = numpy.vstack([ 
+                txtdata[ObservationSourceLakeReading.COLUMN_LAT], 
+                txtdata[ObservationSourceLakeReading.COLUMN_LON] ])
+
+        # coordinates of distinct locations only, and the location of each observation
+        self.location_lookup, self.location_ids = numpy.unique(coordinates, axis=1, return_inverse=True)
 
         # get time
         self.time = txtdata[ObservationSourceLakeReading.COLUMN_DATETIME]
-- 
2.43.0


From 2e81b07c8cf133b7ae8956697bb0e53385dce8ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 01:51:26 +0000
Subject: [PATCH 70/83] fix: read lake files which hold one observation

---
 src/eustace/surfaceairmodel/fileio/lake.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eustace/surfaceairmodel/fileio/lake.py b/src/eustace/surfaceairmodel/fileio/lake.py
index 6e9317d..93a7feb 100644
--- a/src/eustace/surfaceairmodel/fileio/lake.py
+++ b/src/eustace/surfaceairmodel/fileio/lake.py
@@ -43,6 +43,9 @@ class ObservationSourceLakeReading(ObservationSource):
         # parse tab-delimted format
         txtdata = numpy.genfromtxt(filename, names=True, converters={ObservationSourceLakeReading.COLUMN_DATETIME: ObservationSourceLakeReading.parse_date}, dtype=numpy.float32)
 
+        # a file with one observation gives a single record instead of an array
+        txtdata = numpy.atleast_1d(txtdata)
+
         # coordinates of all observations
         coordinates = numpy.vstack([ 
                 txtdata[ObservationSourceLakeReading.COLUMN_LAT], 
-- 
2.43.0


From b6e227f0d42b4d46bf997747a116ef9eadc03903 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 71/83] fix: observations from gridded files in which no value
 is missing

---
 src/eustace/surfaceairmodel/fileio/cubemap.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/cubemap.py b/src/eustace/surfaceairmodel/fileio/cubemap.py
index 82dd010..8968cdf 100644
--- a/src/eustace/surfaceairmodel/fileio/cubemap.py
+++ b/src/eustace/surfaceairmodel/fileio/cubemap.py
@@ -73,14 +73,14 @@ class ObservationSourceCubeMapGrid(ObservationSource, CubeList):
         location = numpy.array(range(self.number_of_observations()), numpy.uint64) # location ids are just grid indices
         time = measurement.coords('time')[0].points[0]
         uncorrelatederror = self.get_field_by_name(obsmap.uncorrelatederror).data
-        locallycorrelatederror = [ self.get_field_by_name(mapname).data.data.ravel() for mapname in obsmap.locallycorrelatederror ]
+        locallycorrelatederror = [ numpy.ma.getdata(self.get_field_by_name(mapname).data).ravel() for mapname in obsmap.locallycorrelatederror ]
         localcorrelationscale = obsmap.localcorrelationscale
         return Observations(
-            measurement.data.mask.ravel(), 
+            numpy.ma.getmaskarray(measurement.data).ravel(), 
             time, 
             location, 
-            measurement.data.data.ravel(), 
-            uncorrelatederror.data.ravel(), 
+            numpy.ma.getdata(measurement.data).ravel(), 
+            numpy.ma.getdata(uncorrelatederror).ravel(), 
             locallycorrelatederror)
 
     def local_correlation_length_scale(self, observable):
-- 
2.43.0


From 11125afc446d59ab6f2444a156d39023c599947a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 72/83] fix: comment of land output calls the number of removed
 cells a percentage

---
 src/eustace/surfaceairmodel/run_land.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_land.py b/src/eustace/surfaceairmodel/run_land.py
index d629232..75ce876 100644
--- a/src/eustace/surfaceairmodel/run_land.py
+++ b/src/eustace/surfaceairmodel/run_land.py
@@ -56,7 +56,7 @@ def run_day(catalogue_id,institution,
 
     # Filter out pixels where Tmin > Tmax
     writer.post_process(fields,'LAND')
-    writer.dataset_attributes.comment = 'Percentage of (removed) Tmin > Tmax pixels: '+str(fields['problematic_pixels_count'])+'%'
+    writer.dataset_attributes.comment = 'Number of (removed) Tmin > Tmax pixels: '+str(fields['problematic_pixels_count'])
 
     # Write
     writer.write_primary(output_main, fields)
-- 
2.43.0


From 32d40211b192db94e497dc5446ef6873ca9a019f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 73/83] fix: land model cannot be run from the command line

---
 src/eustace/surfaceairmodel/run_land.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/run_land.py b/src/eustace/surfaceairmodel/run_land.py
index 75ce876..3f52de9 100644
--- a/src/eustace/surfaceairmodel/run_land.py
+++ b/src/eustace/surfaceairmodel/run_land.py
@@ -167,15 +167,15 @@ def main():
     parser.add_argument('--inputsnow', required=True, help='name of snow data file')
     parser.add_argument('--inputday', required=True, help='name of day input satgrid file')
     parser.add_argument('--inputnight', required=True, help='name of night input satgrid file')
-    parser.add_argument('--frac_sat_obs_threshold', required=True,help='threshold for satellite observation')
-    parser.add_argument('--sampling_threshold', required=True,help='sampling threshold')
+    parser.add_argument('--frac_sat_obs_threshold', required=True,type=float,help='threshold for satellite observation')
+    parser.add_argument('--sampling_threshold', required=True,type=float,help='sampling threshold')
 
     args = parser.parse_args()
 
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
 	      input_model_1=args.input_model1_parameters,input_model_2=args.input_model2_parameters,input_model_3=args.input_model3_parameters,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_satellite_land_day=args.inputday,input_satellite_land_night=args.inputnight,
 	      input_satellite_land_snow=args.inputsnow,
 	      input_satellite_land_mask_north=args.inputmasknord,input_satellite_land_mask_south=args.inputmasksouth,
 	      input_satellite_land_DEM=args.inputDEM,
-- 
2.43.0


From 1ddaedb419b66cea281d9c653dd7d85669aaefc7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 74/83] fix: ocean model cannot be run from the command line

---
 src/eustace/surfaceairmodel/run_ocean.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eustace/surfaceairmodel/run_ocean.py b/src/eustace/surfaceairmodel/run_ocean.py
index 69e66c0..1bbd8d9 100644
--- a/src/eustace/surfaceairmodel/run_ocean.py
+++ b/src/eustace/surfaceairmodel/run_ocean.py
@@ -119,8 +119,7 @@ def main():
 
     run_day(catalogue_id='(NO CATALOGUE IN USE)',institution = args.institution,
 	      output_main=args.output_main,output_ancillary=args.output_ancillary,
-	      input_model_paramters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
-	      input_satellite_land_day=args.inpu_day,input_satellite_land_night=args.inputnight,
+	      input_model_parameters=args.input_model_parameters,input_model_uncertainty=args.input_model_uncertainty,input_model_stdev=args.input_model_stdev,
 	      input_satellite_ocean=args.input_satellite_ocean)
 
 if __name__ == '__main__':
-- 
2.43.0


From 58006b9541db7b2a8109684b2a41dee4fddf96f2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:20:34 +0000
Subject: [PATCH 75/83] fix: ice model fails when run from the command line

---
 src/eustace/surfaceairmodel/run_ice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eustace/surfaceairmodel/run_ice.py b/src/eustace/surfaceairmodel/run_ice.py
index f5bac57..65a3433 100644
--- a/src/eustace/surfaceairmodel/run_ice.py
+++ b/src/eustace/surfaceairmodel/run_ice.py
@@ -54,7 +54,7 @@ def main():
     args = parser.parse_args()
 
     # run it
-    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__).run()
+    run_day(modulename='eustace.surfaceairmodel.run_ice', catalogue_id='(NO CATALOGUE IN USE)', **args.__dict__)
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From 47f7c268ce231fcbea7a13e0db0b9560d8fef6c8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:22:10 +0000
Subject: [PATCH 76/83] fix: minimum above maximum is kept in land fields
 without missing values

---
 src/eustace/surfaceairmodel/fileio/post_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eustace/surfaceairmodel/fileio/post_processing.py b/src/eustace/surfaceairmodel/fileio/post_processing.py
index 8f7b2f1..5255478 100644
--- a/src/eustace/surfaceairmodel/fileio/post_processing.py
+++ b/src/eustace/surfaceairmodel/fileio/post_processing.py
@@ -9,10 +9,10 @@ def apply_land_post_processing(results, surface_dependent_variables):
 
     tasmindata = results[TASMIN.name][:]
     tasmaxdata = results[TASMAX.name][:]
-    update_mask = numpy.logical_and(numpy.logical_and((tasmindata.data!=tasmindata.fill_value) ,(tasmaxdata.data!=tasmaxdata.fill_value)), tasmindata.data > tasmaxdata.data)
+    update_mask = numpy.ma.filled(tasmindata > tasmaxdata, False)
 
     results['problematic_pixels_count'] = update_mask.sum()
     for variable in [TASMIN, TASMINUNCERTAINTY, TASMAX, TASMAXUNCERTAINTY]+surface_dependent_variables:
-      results[variable.name][:].mask = numpy.logical_or(results[variable.name][:].mask, update_mask)
-      results[variable.name][:].data[:] = results[variable.name][:].filled()
+      results[variable.name][update_mask] = numpy.ma.masked
+      results[variable.name].data[:] = results[variable.name].filled()
 
-- 
2.43.0


From 683d606ee19590e2bcbb6b08908f2532c8f0b1d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:57:37 +0000
Subject: [PATCH 77/83] fix: count of cycle points requested by suite templates

---
 src/eumopps/catalogue/jinja/eumopps_cylc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eumopps/catalogue/jinja/eumopps_cylc.py b/src/eumopps/catalogue/jinja/eumopps_cylc.py
index b4f0a8d..28d8ce0 100644
--- a/src/eumopps/catalogue/jinja/eumopps_cylc.py
+++ b/src/eumopps/catalogue/jinja/eumopps_cylc.py
@@ -11,7 +11,7 @@ def eumopps_cylc(config, methodname, modulename=None):
 
 def eumopps_cycle_points_required(specs):
     
-    return BatchSpecificationCollection(specs).cyle_points_required()
+    return BatchSpecificationCollection(specs).cycle_points_required()
 
 def eumopps_initial_cycle_point(specs):
 
-- 
2.43.0


From 21bd225fedacca90398a596c4832c2d194471d4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:24:17 +0000
Subject: [PATCH 78/83] fix: script submitted to solve components in a single
 iteration exists

---
 src/roses/fullstace/advanced_standard/lsf_submission.py       | 2 +-
 src/roses/fullstace/advanced_standard/lsf_submission_group.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/roses/fullstace/advanced_standard/lsf_submission.py b/src/roses/fullstace/advanced_standard/lsf_submission.py
index 46113a6..8b99eaa 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission.py
@@ -12,7 +12,7 @@ from StringIO import StringIO
 LSF_BATCH_SCRIPT = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_WIDE = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_TALL = "lsf_commandrun_tall.sh"
-LSF_SOLVE_SCRIPT = "lsf_commandrun_solver_testing.sh" # "lsf_commandrun_solver.sh"
+LSF_SOLVE_SCRIPT = "lsf_commandrun_solver.sh"
 
 LSF_SOLVE_SCRIPT_LARGESCALE = "lsf_commandrun_solver_large_scale_high_memory.sh" # "lsf_commandrun_solver.sh"
 LSF_SOLVE_SCRIPT_CLIMATOLOGY = "lsf_commandrun_solver_climatology.sh" # "lsf_commandrun_solver.sh"
diff --git a/src/roses/fullstace/advanced_standard/lsf_submission_group.py b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
index e739619..0928533 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission_group.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
@@ -14,7 +14,7 @@ LSF_BATCH_SCRIPT_GROUP = "lsf_commandrun_group.sh"
 LSF_BATCH_SCRIPT = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_WIDE = "lsf_commandrun.sh"
 LSF_BATCH_SCRIPT_TALL = "lsf_commandrun_tall.sh"
-LSF_SOLVE_SCRIPT = "lsf_commandrun_solver_testing.sh" # "lsf_commandrun_solver.sh"
+LSF_SOLVE_SCRIPT = "lsf_commandrun_solver.sh"
 
 LSF_SOLVE_SCRIPT_LARGESCALE = "lsf_commandrun_solver_large_scale_high_memory.sh" # "lsf_commandrun_solver.sh"
 LSF_SOLVE_SCRIPT_CLIMATOLOGY = "lsf_commandrun_solver_climatology.sh" # "lsf_commandrun_solver.sh"
-- 
2.43.0


From ddbacfce04cfce5dc1ed5856392fcf9335ceaf19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:24:17 +0000
Subject: [PATCH 79/83] fix: stages of optimisation submitted wait for the
 preceding ones

---
 src/roses/fullstace/advanced_standard/lsf_submission.py     | 6 +++---
 .../fullstace/advanced_standard/lsf_submission_group.py     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/roses/fullstace/advanced_standard/lsf_submission.py b/src/roses/fullstace/advanced_standard/lsf_submission.py
index 8b99eaa..f0aaf4b 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission.py
@@ -264,15 +264,15 @@ def eustace_optimisation(iteration_number=None,
         iter_string = '_'+str(iteration_number)
 
     # split the local component into spatial model and bias components so that the bias sub-component can be used later
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # generate json files listing inputloader information for each time step for use outside of EUMOPPS
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # consolidate the inputloader information in json files into a single master json file
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # submit the optimisation tasks outside of EUMOPPS
diff --git a/src/roses/fullstace/advanced_standard/lsf_submission_group.py b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
index 0928533..51b9601 100644
--- a/src/roses/fullstace/advanced_standard/lsf_submission_group.py
+++ b/src/roses/fullstace/advanced_standard/lsf_submission_group.py
@@ -374,15 +374,15 @@ def eustace_optimisation(iteration_number=None,
         iter_string = '_'+str(iteration_number)
 
     # split the local component into spatial model and bias components so that the bias sub-component can be used later
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'split_local_component'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # generate json files listing inputloader information for each time step for use outside of EUMOPPS
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_create'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # consolidate the inputloader information in json files into a single master json file
-    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
+    job_ids = submit_eumopps_jobs(cataloguefilename, 'input_summaries_merge'+iter_string, wait_options=wait_options, lsf_script = LSF_BATCH_SCRIPT, output_directory=OUTDIR)
     wait_options = done_conditon(job_ids)
     
     # submit the optimisation tasks outside of EUMOPPS
-- 
2.43.0


From 18f62ff30d2b06446aa85eaa3ff1c8f8a00af355 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:24:26 +0000
Subject: [PATCH 80/83] fix: creation of raw binary files passes all arguments
 to its commands

---
 src/roses/fullstace/rawbinary/create_rawbinary_files.sh | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/roses/fullstace/rawbinary/create_rawbinary_files.sh b/src/roses/fullstace/rawbinary/create_rawbinary_files.sh
index efd1aeb..6288f13 100644
--- a/src/roses/fullstace/rawbinary/create_rawbinary_files.sh
+++ b/src/roses/fullstace/rawbinary/create_rawbinary_files.sh
@@ -23,11 +23,11 @@ echo "Directory created in $DIRECTORY"
 # in production mode this will only permit use for versioned code
 # for testing, flag can be modified to allow unversioned code
 # for testing, nochecksum flag will speed up process 
+# (add --nochecksum and --allow_unversioned_code to the build commands for this,
+# and --allow_unversioned_code after the catalogue name in the others)
 
 python -m eumopps.catalogue.build \
 --pathdefault $DIRECTORY \
-# --nochecksum \
-# --allow_unversioned_code \
 rawbinary_inputs.json \
 $DIRECTORY/catalogue.nc
 
@@ -37,8 +37,6 @@ echo " --- "
 
 python -m eumopps.catalogue.build \
 --pathdefault $DIRECTORY \
-# --nochecksum \
-# --allow_unversioned_code \
 --update \
 rawbinary_generation.json \
 $DIRECTORY/catalogue.nc
@@ -48,7 +46,6 @@ echo "Updated the catalogue"
 echo " --- "
 
 source buildall_lookups.sh \
-# --allow_unversioned_code \
 $DIRECTORY/catalogue.nc 
 
 echo " --- "
@@ -56,7 +53,6 @@ echo "Built lookups"
 echo " --- "
 
 source buildall_rawbinary.sh \
-# --allow_unversioned_code \
 $DIRECTORY/catalogue.nc 
 
 echo " --- "
-- 
2.43.0


From f3fa1c7c04710084fb0051c9642d28b8a3453a28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:03:22 +0000
Subject: [PATCH 81/83] fix: prepare lake observations, their locations and
 correlation ranges

---
 src/eustace/analysis/preparecorrelationranges.py | 4 ++--
 src/eustace/analysis/preparedailyfixed.py        | 6 ++++++
 src/eustace/analysis/preparelocationlookup.py    | 4 ++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eustace/analysis/preparecorrelationranges.py b/src/eustace/analysis/preparecorrelationranges.py
index 4eff59d..71d6fdd 100644
--- a/src/eustace/analysis/preparecorrelationranges.py
+++ b/src/eustace/analysis/preparecorrelationranges.py
@@ -12,8 +12,8 @@ def run(outputfilename, inputfilename, sourcename, observable):
     sourceclasses.update(preparedailyfixed.SOURCECLASS)
     sourceclasses.update(preparedailymobile.SOURCECLASS)
 
-    # Construct source reader (slightly different constructors for in-situ)
-    if (sourcename == preparedailyfixed.SOURCE_INSITU_LAND) or (sourcename == preparedailymobile.SOURCE_INSITU_OCEAN):
+    # Construct source reader (slightly different constructors for in-situ and lakes)
+    if sourcename in [ preparedailyfixed.SOURCE_INSITU_LAND, preparedailyfixed.SOURCE_SATELLITE_LAKE, preparedailymobile.SOURCE_INSITU_OCEAN ]:
         source = sourceclasses[sourcename](inputfilename)
     else:
         source = sourceclasses[sourcename]([ observable ], inputfilename)
diff --git a/src/eustace/analysis/preparedailyfixed.py b/src/eustace/analysis/preparedailyfixed.py
index 0cf9872..1234e70 100644
--- a/src/eustace/analysis/preparedailyfixed.py
+++ b/src/eustace/analysis/preparedailyfixed.py
@@ -40,6 +40,12 @@ def run_day(outputfilename, locationfilename, dailyfilename, processdate, source
         
         # Load it
         dailydata = source.observations(observable, qc_mask)
+    elif sourcename == SOURCE_SATELLITE_LAKE:
+        # lake data come as one file for all days
+        source = SOURCECLASS[sourcename](dailyfilename)
+
+        # Load it
+        dailydata = source.observations(observable)
     else:
         source = SOURCECLASS[sourcename]([ observable ] , dailyfilename)
 
diff --git a/src/eustace/analysis/preparelocationlookup.py b/src/eustace/analysis/preparelocationlookup.py
index bf52676..00707aa 100644
--- a/src/eustace/analysis/preparelocationlookup.py
+++ b/src/eustace/analysis/preparelocationlookup.py
@@ -11,8 +11,8 @@ def run(outputfilename, inputfilename, sourcename):
 
     print 'Loading: ', inputfilename
 
-    # load observation source (slightly different constructor for in-situ land)
-    if sourcename == preparedailyfixed.SOURCE_INSITU_LAND:
+    # load observation source (slightly different constructor for in-situ land and lakes)
+    if sourcename in [ preparedailyfixed.SOURCE_INSITU_LAND, preparedailyfixed.SOURCE_SATELLITE_LAKE ]:
         source = preparedailyfixed.SOURCECLASS[sourcename](inputfilename)
     else:
         source = preparedailyfixed.SOURCECLASS[sourcename]([ ObservationSource.TMIN ] , inputfilename)
-- 
2.43.0


From 2ed085dd531a09ff4c8bbc7fa9578c86579e7fc1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:03:22 +0000
Subject: [PATCH 82/83] fix: inspect ocean satellite input at its fixed
 locations

---
 src/eustace/analysis/inspectinput.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eustace/analysis/inspectinput.py b/src/eustace/analysis/inspectinput.py
index 215b44f..b1d8ef4 100644
--- a/src/eustace/analysis/inspectinput.py
+++ b/src/eustace/analysis/inspectinput.py
@@ -16,6 +16,7 @@ LOCATIONLOOKUP_SATELLITE = 'locationlookup_satellite.bin'
 LOCATIONLOOKUP_INSITU_LAND = 'locationlookup_insitu_land.bin'
 FIXEDLOCATIONLOOKUP = {
     'surfaceairmodel_land': LOCATIONLOOKUP_SATELLITE,
+    'surfaceairmodel_ocean': LOCATIONLOOKUP_SATELLITE,
     'surfaceairmodel_lake': LOCATIONLOOKUP_SATELLITE,
     'surfaceairmodel_ice': LOCATIONLOOKUP_SATELLITE,
     'insitu_land': LOCATIONLOOKUP_INSITU_LAND
-- 
2.43.0


From 3d577dfb09039740afdf9f66d913215725dadc4a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:11:32 +0000
Subject: [PATCH 83/83] fix: refuse raw binary files that are cut short or
 absent, in Python and in C++

---
 .../analysis/fileio/locationpointers.cpp      | 10 ++++++++
 src/cpp/eustace/analysis/fileio/rawbinary.cpp |  6 +++--
 src/cpp/eustace/analysis/inputmanager.cpp     |  2 ++
 .../analysis/fileio/locationpointers.py       |  2 ++
 .../fileio/observationsource_rawbinary.py     | 24 ++++++++++++++++---
 5 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/cpp/eustace/analysis/fileio/locationpointers.cpp b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
index ffa7d97..459c0a3 100644
--- a/src/cpp/eustace/analysis/fileio/locationpointers.cpp
+++ b/src/cpp/eustace/analysis/fileio/locationpointers.cpp
@@ -34,6 +34,8 @@ namespace EUSTACE
 
     // get count of location ids
     inputstream.read((char*)&location_count, sizeof(uint64_t));
+    if (!inputstream)
+      throw FormatExceptionUnexpectedDataSize();
   }
 
   void LocationPointersRawBinaryReader::Read(std::vector< std::vector<LocationPointerRecord> >& record, std::istream& inputstream, const std::vector<uint64_t>& location_id_subset) const throw(FormatException)
@@ -51,6 +53,10 @@ namespace EUSTACE
     std::vector< std::vector<LocationPointerRecord> >::iterator record_iterator(record.begin());
     for (std::vector<uint64_t>::const_iterator location_id_iterator(location_id_subset.begin()); location_id_iterator != location_id_subset.end(); location_id_iterator++, record_iterator++)
     {
+      // check location id is in range
+      if (*location_id_iterator >= location_count)
+        throw FormatException();
+
       // entry in local offsets table for this id
       LocalOffsetRecord localoffset;
       memset(&localoffset, 0, sizeof(LocalOffsetRecord));
@@ -68,6 +74,10 @@ namespace EUSTACE
 
       // read
       inputstream.read((char*)&current_record[0], localoffset.count*sizeof(LocationPointerRecord));
+
+      // check all records were there
+      if (!inputstream)
+        throw FormatExceptionUnexpectedDataSize();
     }
   }
 }
diff --git a/src/cpp/eustace/analysis/fileio/rawbinary.cpp b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
index 0e27498..2d2216b 100644
--- a/src/cpp/eustace/analysis/fileio/rawbinary.cpp
+++ b/src/cpp/eustace/analysis/fileio/rawbinary.cpp
@@ -17,8 +17,8 @@ namespace EUSTACE
     char code_id[16];
     inputstream.read(code_id, sizeof(code_id));
 
-    // check format ID matches
-    if (strncmp(file_format_id, FormatID(), 16) != 0)
+    // check whole header was read and format ID matches
+    if (!inputstream || strncmp(file_format_id, FormatID(), 16) != 0)
       throw FormatExceptionBadHeader();
   }
     
@@ -52,6 +52,8 @@ namespace EUSTACE
 
     // get uuid of location lookup
     inputstream.read((char*)uuid.Bytes(), LocationLookupUUID::sizebytes);
+    if (!inputstream)
+      throw FormatExceptionUnexpectedDataSize();
 
     // size of one entry
     size_t entrysize = EntrySize();
diff --git a/src/cpp/eustace/analysis/inputmanager.cpp b/src/cpp/eustace/analysis/inputmanager.cpp
index e2ccfe9..fd04812 100644
--- a/src/cpp/eustace/analysis/inputmanager.cpp
+++ b/src/cpp/eustace/analysis/inputmanager.cpp
@@ -287,6 +287,8 @@ namespace EUSTACE
 
 	// read information
 	obsstream.read(observation_pointer, observation_data_element_size);
+	if (!obsstream)
+	  throw FormatExceptionUnexpectedDataSize();
 
 	// and increment output pointer ready to read next element
 	observation_pointer += observation_data_element_size;
diff --git a/src/eustace/analysis/fileio/locationpointers.py b/src/eustace/analysis/fileio/locationpointers.py
index a5a51a2..190823b 100644
--- a/src/eustace/analysis/fileio/locationpointers.py
+++ b/src/eustace/analysis/fileio/locationpointers.py
@@ -138,6 +138,8 @@ class LocationPointersRawBinaryReader(object):
 
         # read into NumPy structure
         records = numpy.fromfile(file_handle, dtype=DTYPE, count=record_count)
+        if records.shape[0] != record_count:
+            raise Exception('Unexpected data size: {0} of {1} pointer records'.format(records.shape[0], record_count))
 
         # done
         return records
diff --git a/src/eustace/analysis/fileio/observationsource_rawbinary.py b/src/eustace/analysis/fileio/observationsource_rawbinary.py
index 2ba3ab8..f170a96 100644
--- a/src/eustace/analysis/fileio/observationsource_rawbinary.py
+++ b/src/eustace/analysis/fileio/observationsource_rawbinary.py
@@ -50,6 +50,8 @@ class RawBinaryReader(object):
 
         # read and ignore version
         codeversionid = file_handle.read(16)
+        if len(codeversionid) != 16:
+            raise Exception('Unexpected data size: incomplete header')
 
     @staticmethod
     def count_remaining(file_handle, record_size_bytes):
@@ -62,11 +64,27 @@ class RawBinaryReader(object):
         file_handle.seek(0, 2)
         total_size_bytes = file_handle.tell() - start_offset
 
+        # there should be whole records only
+        if total_size_bytes % record_size_bytes != 0:
+            raise Exception('Unexpected data size: {0} bytes is not a whole number of records of {1} bytes'.format(total_size_bytes, record_size_bytes))
+
         # count is total size divided by record size
         count = total_size_bytes / record_size_bytes
 
         return count
 
+    @staticmethod
+    def read_records(file_handle, dtype):
+        """Read all records between current position in stream and end of stream."""
+
+        # check size and return to current position
+        start_offset = file_handle.tell()
+        count = RawBinaryReader.count_remaining(file_handle, numpy.dtype(dtype).itemsize)
+        file_handle.seek(start_offset)
+
+        # read into NumPy structure
+        return numpy.fromfile(file_handle, dtype=dtype, count=count)
+
 class RawBinaryLocationCategoryReader(RawBinaryReader):
 
     def __init__(self, formatid, basecategory):
@@ -136,7 +154,7 @@ class ObservationRawBinaryReader(RawBinaryLocationCategoryReader):
             raise Exception('Location UUID mismatch')
 
         # read data
-        contents = numpy.fromfile(file_handle, dtype=ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
+        contents = RawBinaryReader.read_records(file_handle, ObservationRawBinaryWriter.build_dtype(self.basecategory, self.num_local_correlation_ranges))
 
 	# close it
         file_handle.close()
@@ -297,7 +315,7 @@ class LocationLookupRawBinaryReader(RawBinaryLocationCategoryReader):
         location_uuid = self.read_header_from_stream(file_handle)
 
         # read data
-        data = numpy.fromfile(file_handle, dtype=DTYPE[ CATEGORY_LOCATION_LOOKUP ])
+        data = RawBinaryReader.read_records(file_handle, DTYPE[ CATEGORY_LOCATION_LOOKUP ])
         lookuptable = numpy.vstack([ data['latitude'], data['longitude'] ])
 
         # done
@@ -354,7 +372,7 @@ class LocalCorrelationRangeRawBinaryReader(RawBinaryReader):
         self.read_header_from_stream(file_handle)
 
         # read data
-        result = numpy.fromfile(file_handle, dtype=DTYPE[ CATEGORY_LOCAL_CORRELATION_RANGE ])
+        result = RawBinaryReader.read_records(file_handle, DTYPE[ CATEGORY_LOCAL_CORRELATION_RANGE ])
 
         # done with file
         file_handle.close()
-- 
2.43.0

