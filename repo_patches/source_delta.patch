From 6bf8b8f5bd9a49f307bdf93d15a4b747be5e660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:50 +0000
Subject: [PATCH 01/64] fix: refuse in-memory datasets whose partition keys go
 back to a previous value

---
 zcollection/partitioning/abc.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 5eb2fc9..33a4987 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -120,9 +120,15 @@ def unique_and_check_monotony(arr: ArrayLike) -> tuple[NDArray, NDArray]:
     """
     index: NDArray
     indices: NDArray
-
-    index, indices = numpy.unique(arr, axis=0, return_index=True)
-    if not numpy.all(numpy.diff(indices) > 0):
+    inverse: NDArray
+
+    index, indices, inverse = numpy.unique(arr,
+                                           axis=0,
+                                           return_index=True,
+                                           return_inverse=True)
+    # The unique elements are sorted: the array is monotonic if and only if
+    # the rank of its elements never decreases.
+    if not numpy.all(difference(inverse.ravel()) >= 0):
         raise ValueError('index is not monotonic')
     return index, indices
 
-- 
2.43.0


From e5d0683e8ea169d2eff0e26f85094a178afdbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:50 +0000
Subject: [PATCH 02/64] fix: save the data types of the Sequence partitioning
 keys

---
 zcollection/partitioning/sequence.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zcollection/partitioning/sequence.py b/zcollection/partitioning/sequence.py
index 194c6ea..b72c825 100644
--- a/zcollection/partitioning/sequence.py
+++ b/zcollection/partitioning/sequence.py
@@ -124,6 +124,16 @@ class Sequence(abc.Partitioning):
                 for item, (ix, start) in zip(index, enumerate(indices[:-1])))
         # pylint: enable=arguments-differ
 
+    def get_config(self) -> dict[str, Any]:
+        """Return the configuration of the partitioning scheme.
+
+        Returns:
+            The configuration of the partitioning scheme.
+        """
+        config: dict[str, Any] = super().get_config()
+        config['dtype'] = self._dtype
+        return config
+
     def encode(
         self,
         partition: tuple[tuple[str, int], ...],
-- 
2.43.0


From f935fd5c99af09dfdcc95ef8d5129646aa02c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:58 +0000
Subject: [PATCH 03/64] fix: parse partitions of collections stored below
 key=value directories

---
 zcollection/collection/abc.py   | 2 +-
 zcollection/partitioning/abc.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/abc.py b/zcollection/collection/abc.py
index e7d5bd9..94cbe4f 100644
--- a/zcollection/collection/abc.py
+++ b/zcollection/collection/abc.py
@@ -362,7 +362,7 @@ class ReadOnlyCollection:
         yield from (self._relative_path(item) if relative else item
                     for item in partitions
                     if (item != self._immutable and self._is_selected(
-                        item.replace(base_dir, '').split(sep), expr)))
+                        item.replace(base_dir, '', 1).split(sep), expr)))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
diff --git a/zcollection/partitioning/abc.py b/zcollection/partitioning/abc.py
index 33a4987..1acdfe6 100644
--- a/zcollection/partitioning/abc.py
+++ b/zcollection/partitioning/abc.py
@@ -266,7 +266,11 @@ class Partitioning(metaclass=abc.ABCMeta):
 
     def _regex(self) -> re.Pattern:
         """Return a regular expression that matches the partitioning scheme."""
-        return re.compile('.'.join(f'({item})=(.*)' for item in self._keys()))
+        # The keys of the partition are the last components of its path: the
+        # directory containing the collection may look like a partition.
+        return re.compile(r'(?<!\w)' + '.'.join(rf'({item})=(-?\d+)'
+                                                for item in self._keys()) +
+                          '$')
 
     @abc.abstractmethod
     def _split(
-- 
2.43.0


From 6b38a10925da2e7e503427fb17d3d6bc29048132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:56 +0000
Subject: [PATCH 04/64] fix: keep the stored partition when replacing it fails,
 hide the temporary directory

---
 zcollection/merging/__init__.py | 64 ++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/zcollection/merging/__init__.py b/zcollection/merging/__init__.py
index 7a39e3e..e22f909 100644
--- a/zcollection/merging/__init__.py
+++ b/zcollection/merging/__init__.py
@@ -74,22 +74,53 @@ def _rename(
         source: The source directory.
         dest: The destination directory.
     """
+    if not fs.exists(dest):
+        fs.mv(source, dest, recursive=True)
+        return
+
+    # Keep the previous content until the new one is in place, in order to
+    # restore it if the renaming fails.
+    backup: str = f'{source}.bak'
+    if fs.exists(backup):
+        fs.rm(backup, recursive=True)
+
     if isinstance(fs, fsspec.implementations.local.LocalFileSystem):
         # fspec implementation of the local file system, copy the source
         # directory to the destination directory and remove the source
         # directory. This is not efficient. So we use the shutil
         # implementation to rename the directory.
-        shutil.rmtree(dest, ignore_errors=True)
-        shutil.move(source, dest)
+        shutil.move(dest, backup)
+        try:
+            shutil.move(source, dest)
+        except Exception:
+            shutil.rmtree(dest, ignore_errors=True)
+            shutil.move(backup, dest)
+            raise
+        shutil.rmtree(backup, ignore_errors=True)
         return
 
-    fs.rm(dest, recursive=True)
-    fs.mv(source, dest, recursive=True)
+    try:
+        fs.copy(dest, backup, recursive=True)
+    except Exception:
+        if fs.exists(backup):
+            fs.rm(backup, recursive=True)
+        raise
+    try:
+        fs.rm(dest, recursive=True)
+        fs.mv(source, dest, recursive=True)
+    except Exception:
+        if fs.exists(dest):
+            fs.rm(dest, recursive=True)
+        fs.mv(backup, dest, recursive=True)
+        raise
+    fs.rm(backup, recursive=True)
 
 
 def _extract_root_dirname(dirname: str, sep: str) -> str:
     """Extracts the root directory name from a partition name."""
-    parts = filter(lambda x: '=' not in x, dirname.split(sep))
+    parts = dirname.split(sep)
+    while '=' in parts[-1]:
+        parts.pop()
     return sep.join(parts)
 
 
@@ -109,29 +140,30 @@ def _update_fs(
         synchronizer: The instance handling access to critical resources.
     """
     # Building a temporary directory to store the new data. The name of the
-    # temporary directory is the hash of the partition name.
+    # temporary directory is the hash of the partition name. This directory is
+    # hidden, so that it's never considered as a partition.
     temp: str = fs_utils.join_path(
         _extract_root_dirname(dirname, fs.sep),
-        hashlib.sha256(dirname.encode()).hexdigest())
+        f'.{hashlib.sha256(dirname.encode()).hexdigest()}')
     if fs.exists(temp):
         fs.rm(temp, recursive=True)
 
-    # Initializing Zarr group
-    zarr.storage.init_group(store=fs.get_mapper(temp))
-
-    # Writing new data.
     try:
-        # The synchronization is done by the caller.
+        # Initializing Zarr group
+        zarr.storage.init_group(store=fs.get_mapper(temp))
+
+        # Writing new data. The synchronization is done by the caller.
         storage.write_zarr_group(zds, temp, fs, synchronizer or sync.NoSync())
+
+        # Rename the existing entry on the file system
+        _rename(fs, temp, dirname)
     except Exception:
         # The "write_zarr_group" method throws the exception if all scheduled
         # tasks are finished. So here we can delete the temporary directory.
-        fs.rm(temp, recursive=True)
+        if fs.exists(temp):
+            fs.rm(temp, recursive=True)
         raise
 
-    # Rename the existing entry on the file system
-    _rename(fs, temp, dirname)
-
 
 def perform(
     ds_inserted: dataset.Dataset,
-- 
2.43.0


From d5ccb167c5bf1ced3e105da34fe3b30002d7db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:51 +0000
Subject: [PATCH 05/64] fix: keep the record following the inserted period when
 merging time series

---
 zcollection/merging/time_series.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/merging/time_series.py b/zcollection/merging/time_series.py
index 099add0..a25405c 100644
--- a/zcollection/merging/time_series.py
+++ b/zcollection/merging/time_series.py
@@ -56,7 +56,7 @@ def _merge_time_series(
         # pylint: disable=comparison-with-callable
         indices = numpy.where(
             # comparison between ndarray and datetime64
-            existing_axis > intersection.end())[0]  # type: ignore
+            existing_axis > intersection.last)[0]  # type: ignore
         # pylint: enable=comparison-with-callable
         return inserted_ds.concat(
             existing_ds.isel({partitioning_dim: indices}), partitioning_dim)
@@ -81,7 +81,7 @@ def _merge_time_series(
 
     # pylint: disable=comparison-with-callable
     # comparison between ndarray and datetime64
-    index = numpy.where(existing_axis > intersection.end())[0]  # type: ignore
+    index = numpy.where(existing_axis > intersection.last)[0]  # type: ignore
     # pylint: enable=comparison-with-callable
     after: dataset.Dataset = existing_ds.isel(
         {partitioning_dim: slice(index[0], index[-1] + 1, None)})
-- 
2.43.0


From f0ae29c02a9f2ddb2525ae2081c5b0ddd95004c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:18 +0000
Subject: [PATCH 06/64] fix: splitting an empty selection of partitions into
 batches

---
 zcollection/dask_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 40c6b75..7541c70 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -68,11 +68,13 @@ def split_sequence(sequence: Sequence[Any],
     Returns:
         Iterator of sequences.
     """
-    sections = len(sequence) if sections is None else sections
-    if sections <= 0:
-        raise ValueError('The number of sections must be greater than zero.')
     length: int = len(sequence)
-    sections = min(sections, length)
+    if sections is not None and sections <= 0:
+        raise ValueError('The number of sections must be greater than zero.')
+    if length == 0:
+        # Nothing to split
+        return
+    sections = length if sections is None else min(sections, length)
 
     size: int
     extras: int
-- 
2.43.0


From d5a6d77ad4dcb8a93d26cca26ddd8fe74cac7a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 07/64] fix: compare the creation dates of the partitions in
 UTC

---
 zcollection/collection/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee83f64..17e75b4 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -438,7 +438,9 @@ class Collection(ReadOnlyCollection):
             >>> collection.drop_partitions(
             ...     timedelta=datetime.timedelta(days=30))
         """
-        now: datetime.datetime = datetime.datetime.now()
+        # Creation dates are expressed in UTC.
+        now: datetime.datetime = datetime.datetime.now(
+            datetime.timezone.utc).replace(tzinfo=None)
         client: dask.distributed.Client = dask_utils.get_client()
         folders = list(self.partitions(filters=filters, lock=True))
 
@@ -452,7 +454,8 @@ class Collection(ReadOnlyCollection):
             timedelta."""
             created: datetime.datetime = self.fs.created(path)
             if created.tzinfo is not None:
-                created = created.replace(tzinfo=None)
+                created = created.astimezone(
+                    datetime.timezone.utc).replace(tzinfo=None)
             return now - created > timedelta
 
         if timedelta is not None:
-- 
2.43.0


From 51251573a7a57779e1af6b28199d4fe3e767e90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:48 +0000
Subject: [PATCH 08/64] fix: copy a collection when no partition is selected

---
 zcollection/collection/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 17e75b4..ce9d13b 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -748,6 +748,8 @@ class Collection(ReadOnlyCollection):
             tuple(map(lambda arg: partial(*arg), args))
 
         client.gather(client.map(worker_task, args))
+        # The selection may be empty.
+        filesystem.makedirs(target, exist_ok=True)
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
-- 
2.43.0


From 3599eb9c47cda7a8b44f2171f4c6d1a7567ca7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:48 +0000
Subject: [PATCH 09/64] fix: copy the variables that are not partitioned with
 the collection

---
 zcollection/collection/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ce9d13b..d662ed5 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -750,6 +750,11 @@ class Collection(ReadOnlyCollection):
         client.gather(client.map(worker_task, args))
         # The selection may be empty.
         filesystem.makedirs(target, exist_ok=True)
+        # The variables that are not partitioned.
+        if self._immutable is not None and self.fs.exists(self._immutable):
+            partial(
+                self._immutable,
+                fs_utils.join_path(target, os.path.basename(self._immutable)))
         # Then the remaining files in the root directory (config, metadata,
         # etc.)
         fs_utils.copy_files([
-- 
2.43.0


From dc8f283638bfa8135bcd8b86142598345743abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:48 +0000
Subject: [PATCH 10/64] fix: copy a collection on its own file system by
 default

---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index d662ed5..ee2491f 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -725,7 +725,7 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
-            filesystem = fs_utils.get_fs(target)
+            filesystem = self.fs
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
-- 
2.43.0


From 99012d5ac0a16aba95bf22a2da525652cf195fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:13 +0000
Subject: [PATCH 11/64] fix: use the partitioned dimension to find the
 variables not partitioned

---
 zcollection/collection/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ee2491f..6f6255f 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -58,7 +58,7 @@ def _write_immutable_dataset(
 
     Args:
         zds: The dataset to write.
-        axis: The partitioning axis.
+        axis: The partitioning dimension.
         path: The path to the immutable dataset.
         fs: The file system that the partition is stored on.
     """
@@ -379,11 +379,12 @@ class Collection(ReadOnlyCollection):
             # On the first call, we store the immutable variables in
             # a directory located at the root of the collection.
             if not self.fs.exists(self._immutable):
-                _write_immutable_dataset(ds, self.axis, self._immutable,
-                                         self.fs, self.synchronizer)
+                _write_immutable_dataset(ds, self.partition_properties.dim,
+                                         self._immutable, self.fs,
+                                         self.synchronizer)
 
             # Remove the variables that should not be partitioned.
-            ds = ds.select_variables_by_dims((self.axis, ))
+            ds = ds.select_variables_by_dims((self.partition_properties.dim, ))
 
         # Process the partitions to insert or update by batches to avoid
         # memory issues.
-- 
2.43.0


From fb91804de049f27549a3e183c218ead0229c1e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 12/64] fix: give the variables not partitioned to the
 functions called with an overlap

---
 zcollection/collection/detail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index d2cb9fe..04c0849 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -243,7 +243,7 @@ def _load_dataset_with_overlap(
 
     if immutable:
         zds.merge(
-            open_zarr_group(partition,
+            open_zarr_group(immutable,
                             fs,
                             delayed=delayed,
                             selected_variables=selected_variables))
-- 
2.43.0


From ce73717963500578e7a1ae4600f52da2f6c3ac99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 13/64] fix: infer the updated variables with the variables not
 partitioned

---
 zcollection/collection/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 6f6255f..1926d1a 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -38,6 +38,7 @@ from .abc import PartitionFilter, ReadOnlyCollection
 from .callable_objects import UpdateCallable, WrappedPartitionCallable
 from .detail import (
     _insert,
+    _load_dataset,
     _try_infer_callable,
     _wrap_update_func,
     _wrap_update_func_with_overlap,
@@ -89,11 +90,9 @@ def _infer_callable(
         return ()
 
     with collection.synchronizer:
-        zds: dataset.Dataset = storage.open_zarr_group(
-            one_partition,
-            collection.fs,
-            delayed=delayed,
-            selected_variables=selected_variables)
+        zds: dataset.Dataset = _load_dataset(delayed, collection.fs,
+                                             collection._immutable,
+                                             one_partition, selected_variables)
     func_result: dict[str, Any]
     func_result = _try_infer_callable(func, zds,
                                       collection.partition_properties.dim,
-- 
2.43.0


From 7dff4dd17cc3b1915666468150133d73ea9ae603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 14/64] fix: do not modify the list of selected variables given
 to update

---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 1926d1a..68ad017 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -548,7 +548,7 @@ class Collection(ReadOnlyCollection):
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-            selected_variables += list(
+            selected_variables = list(selected_variables) + list(
                 set(variables) - set(selected_variables))
 
         _LOGGER.info('Updating of the (%s) variable in the collection',
-- 
2.43.0


From 97465a3f0233f6c1b54fa0cf17852bdfe37791a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:52 +0000
Subject: [PATCH 15/64] fix: refuse to update variables unknown to the
 collection

---
 zcollection/collection/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 68ad017..23ba84c 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -545,6 +545,11 @@ class Collection(ReadOnlyCollection):
                           stacklevel=2)
             return
 
+        unknown_variables: set[str] = set(variables) - set(
+            self.metadata.variables)
+        if unknown_variables:
+            raise ValueError(f'Unknown variables: {unknown_variables}')
+
         # If depth is not 0, the variables updated must be in the selected
         # variables.
         if depth != 0 and selected_variables is not None:
-- 
2.43.0


From 5e30d7507cb06f6795aa5c15d22d6345b2c490cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 16/64] fix: apply the partition filter when loading a view
 with an indexer

---
 zcollection/view/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index f878511..235cde2 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -368,7 +368,7 @@ class View:
                     self.view_ref,
                     filters,
                     indexer,
-                    partitions=self.partitions()))
+                    partitions=self.partitions(filters)))
             if len(arguments) == 0:
                 return None
         else:
-- 
2.43.0


From 0c92ca9947999b07df39a93eac1dddd6aed98086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 17/64] fix: apply the indexer when only variables of the view
 are selected

---
 zcollection/view/detail.py | 44 ++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4892d73..355bab8 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -185,7 +185,7 @@ def _load_one_dataset(
     # If the user has not selected any variables in the reference view. In this
     # case, the dataset is built from all the variables selected in the view.
     if len(zds.dimensions) == 0:
-        return dataset.Dataset(
+        zds = dataset.Dataset(
             [
                 open_zarr_array(
                     zarr.open(  # type: ignore[arg-type]
@@ -196,28 +196,30 @@ def _load_one_dataset(
                     variable,
                     delayed=delayed) for variable in variables
             ],
-            attrs=zds.attrs), partition
-
-    # pylint: disable=expression-not-assigned
-    # We use the set notation to evaluate the generator.
-    {
-        zds.add_variable(  # type: ignore[func-returns-value]
-            item.metadata(),
-            item.array,
-        )
-        for item in (
-            open_zarr_array(
-                zarr.open(  # type: ignore[arg-type]
-                    fs.get_mapper(join_path(base_dir, partition, variable)),
-                    mode='r',
-                ),
-                variable,
-                delayed=delayed) for variable in variables)
-    }
-    # pylint: enable=expression-not-assigned
+            attrs=zds.attrs,
+            delayed=delayed)
+    else:
+        # pylint: disable=expression-not-assigned
+        # We use the set notation to evaluate the generator.
+        {
+            zds.add_variable(  # type: ignore[func-returns-value]
+                item.metadata(),
+                item.array,
+            )
+            for item in (
+                open_zarr_array(
+                    zarr.open(  # type: ignore[arg-type]
+                        fs.get_mapper(join_path(base_dir, partition,
+                                                variable)),
+                        mode='r',
+                    ),
+                    variable,
+                    delayed=delayed) for variable in variables)
+        }
+        # pylint: enable=expression-not-assigned
 
     # Apply indexing if needed.
-    if len(slices):
+    if len(slices) and len(zds.dimensions):
         dim: str = view_ref.partition_properties.dim
         ds_list: list[dataset.Dataset] = [
             zds.isel({dim: indexer}) for indexer in slices
-- 
2.43.0


From 88cbb1e544d78ae50d543c83322f711f29c43894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 18/64] fix: load the variables of the reference that are not
 partitioned in views

---
 zcollection/view/detail.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 355bab8..adbde54 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -218,6 +218,15 @@ def _load_one_dataset(
         }
         # pylint: enable=expression-not-assigned
 
+    # Add the variables of the reference that are not partitioned.
+    if view_ref.immutable:
+        zds.merge(
+            open_zarr_group(
+                view_ref._immutable,  # pylint: disable=protected-access
+                view_ref.fs,
+                delayed=delayed,
+                selected_variables=selected_variables))
+
     # Apply indexing if needed.
     if len(slices) and len(zds.dimensions):
         dim: str = view_ref.partition_properties.dim
-- 
2.43.0


From 486e626911623fb74a4f6e23232c756ded751bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 19/64] fix: overlap of a view when a single partition is
 selected

---
 zcollection/view/detail.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index adbde54..02b0caf 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -353,7 +353,8 @@ def _select_overlap(
     # Build the dataset for the selected partitions.
     groups: list[dataset.Dataset] = [ds for ds, _ in selected_datasets]
     zds: dataset.Dataset = groups.pop(0)
-    zds = zds.concat(groups, view_ref.partition_properties.dim)
+    if groups:
+        zds = zds.concat(groups, view_ref.partition_properties.dim)
 
     return zds, calculate_slice(selected_datasets)
 
-- 
2.43.0


From 0227fdb0107c036b882825f0d3e4cee0c294928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 20/64] fix: create the variables of the partitions added to a
 view by sync

---
 zcollection/view/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 235cde2..7cba273 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -783,7 +783,6 @@ class View:
         if filters is not None:
             self.filters = filters
             self._write_config()
-            self._init_partitions(filters)
 
         partitions = tuple(self.view_ref.partitions(relative=True))
         _LOGGER.info('%d partitions to synchronize', len(partitions))
-- 
2.43.0


From 522651fb138cc8c38d1c8a251270848eb5d2a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 21/64] fix: save the variables added to a view without
 partition

---
 zcollection/view/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 7cba273..d9d82e7 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -269,6 +269,7 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
+            self._write_config()
             return
 
         args = filter(lambda item: item[0] in existing_partitions,
-- 
2.43.0


From 8ec402414a0bf3ed880ac818223761481599f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:53 +0000
Subject: [PATCH 22/64] fix: forget the variable of a view that could not be
 created

---
 zcollection/view/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index d9d82e7..2724a80 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -258,9 +258,9 @@ class View:
                 or variable.name in self.metadata.variables):
             raise ValueError(f'Variable {variable.name} already exists')
         client: dask.distributed.Client = dask_utils.get_client()
-        self.metadata.add_variable(variable)
         template: meta.Variable = \
             self.view_ref.metadata.search_same_dimensions_as(variable)
+        self.metadata.add_variable(variable)
 
         existing_partitions: set[str] = {
             pathlib.Path(path).relative_to(self.base_dir).as_posix()
@@ -298,6 +298,7 @@ class View:
                            fs=self.fs,
                            variable=variable.name,
                            ignore_errors=True))
+            del self.metadata.variables[variable.name]
             raise
 
         self._write_config()
-- 
2.43.0


From d704ca3ef237c589beef95f31d07c279354184e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:35 +0000
Subject: [PATCH 23/64] fix: synchronize a view whose reference has no
 partition

---
 zcollection/view/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 2724a80..27eb27a 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -752,7 +752,7 @@ class View:
         return len(
             tuple(
                 filter(lambda item: item is not None,
-                       unsynchronized_partition))) == 0
+                       unsynchronized_partition or ()))) == 0
 
     def sync(
         self,
@@ -803,5 +803,5 @@ class View:
             dict(self.view_ref.partitioning.parse(
                 item))  # type: ignore[arg-type] # item is filtered
             for item in filter(lambda item: item is not None,
-                               synchronized_partition))
+                               synchronized_partition or ()))
         return lambda item: item in partition_ids
-- 
2.43.0


From 690c81c22850071eb25c482a39d4c06ac12b166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:16 +0000
Subject: [PATCH 24/64] fix: create the variables added to a view while a
 partition was absent from the reference

---
 zcollection/view/detail.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 02b0caf..3d6da74 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -547,6 +547,27 @@ def _write_checksum(
         _calculate_axis_reference(partition_ref, view_ref, group=group))
 
 
+def _missing_variables(
+    metadata: meta.Dataset,
+    partition: str,
+    fs: fsspec.AbstractFileSystem,
+) -> list[meta.Variable]:
+    """Return the variables of the view that are not stored in a partition.
+
+    Args:
+        metadata: The dataset handled by the view.
+        partition: The path of the partition.
+        fs: The file system used to access the variables in the view.
+
+    Returns:
+        The missing variables.
+    """
+    return [
+        variable for variable in metadata.variables.values()
+        if not fs.exists(join_path(partition, variable.name))
+    ]
+
+
 def _sync_partition(
     metadata: meta.Dataset,
     partition: str,
@@ -569,7 +590,7 @@ def _sync_partition(
         mapper, mode='r')
     path: str = join_path(base_dir, partition)
     try:
-        for variable in metadata.variables.values():
+        for variable in _missing_variables(metadata, path, fs):
             template: meta.Variable = \
                 view_ref.metadata.search_same_dimensions_as(variable)
             _create_zarr_array((partition, group),
@@ -670,6 +691,7 @@ def _sync(
             # fs_invalid_cache is done by _extend_partition
             if not dry_run:
                 _extend_partition(partition_view, fs, axis_ref)
+                _sync_partition(metadata, partition, base_dir, fs, view_ref)
             return partition
         # The partition is not synced, so we remove it.
         if not dry_run:
@@ -677,6 +699,12 @@ def _sync(
             fs.invalidate_cache(partition_view)
             _sync_partition(metadata, partition, base_dir, fs, view_ref)
         return partition
+    if _missing_variables(metadata, partition_view, fs):
+        # Variables were added to the view while this partition was absent from
+        # the reference.
+        if not dry_run:
+            _sync_partition(metadata, partition, base_dir, fs, view_ref)
+        return partition
     return None
 
 
-- 
2.43.0


From a0ec8020cab50406b296a38ffcbfb5a52d7e6880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:31 +0000
Subject: [PATCH 25/64] fix: load view variables using dimensions not used by
 the selected variables

---
 zcollection/view/detail.py | 48 +++++++++++---------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 3d6da74..de149c3 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -182,41 +182,19 @@ def _load_one_dataset(
     if zds is None:
         return None
 
-    # If the user has not selected any variables in the reference view. In this
-    # case, the dataset is built from all the variables selected in the view.
-    if len(zds.dimensions) == 0:
-        zds = dataset.Dataset(
-            [
-                open_zarr_array(
-                    zarr.open(  # type: ignore[arg-type]
-                        fs.get_mapper(join_path(base_dir, partition,
-                                                variable)),
-                        mode='r',
-                    ),
-                    variable,
-                    delayed=delayed) for variable in variables
-            ],
-            attrs=zds.attrs,
-            delayed=delayed)
-    else:
-        # pylint: disable=expression-not-assigned
-        # We use the set notation to evaluate the generator.
-        {
-            zds.add_variable(  # type: ignore[func-returns-value]
-                item.metadata(),
-                item.array,
-            )
-            for item in (
-                open_zarr_array(
-                    zarr.open(  # type: ignore[arg-type]
-                        fs.get_mapper(join_path(base_dir, partition,
-                                                variable)),
-                        mode='r',
-                    ),
-                    variable,
-                    delayed=delayed) for variable in variables)
-        }
-        # pylint: enable=expression-not-assigned
+    # Add the variables selected in the view. They may use dimensions that are
+    # not used by the variables selected in the reference.
+    zds.merge(
+        dataset.Dataset([
+            open_zarr_array(
+                zarr.open(  # type: ignore[arg-type]
+                    fs.get_mapper(join_path(base_dir, partition, variable)),
+                    mode='r',
+                ),
+                variable,
+                delayed=delayed) for variable in variables
+        ],
+                        delayed=delayed))
 
     # Add the variables of the reference that are not partitioned.
     if view_ref.immutable:
-- 
2.43.0


From 048a296c7b293fa1ebe86c4ebd4ae39d92b5889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:33 +0000
Subject: [PATCH 26/64] fix: persist a lazy variable as an array, not as a
 tuple

---
 zcollection/variable/delayed_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/variable/delayed_array.py b/zcollection/variable/delayed_array.py
index e9da492..c4745cf 100644
--- a/zcollection/variable/delayed_array.py
+++ b/zcollection/variable/delayed_array.py
@@ -238,7 +238,7 @@ class DelayedArray(Variable):
         Returns:
             The variable
         """
-        self.array = dask.base.persist(self.array, **kwargs)
+        self.array, = dask.base.persist(self.array, **kwargs)
         return self
 
     def compute(self, **kwargs) -> NDArray | NDMaskedArray:
-- 
2.43.0


From 00f07b04dd1c33e0188f15a568984197bdd66eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:33 +0000
Subject: [PATCH 27/64] fix: refuse to concatenate variables of conflicting
 shapes

---
 zcollection/variable/abc.py | 42 +++++++++++++++----------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 01aa236..174eea4 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -77,31 +77,23 @@ def concat(
     if not all(isinstance(item, type(self)) for item in other):
         raise ValueError(f'other must be a sequence of {type(self)}')
 
-    try:
-        axis: int = self.dimensions.index(dim)
-        return new_variable(
-            type(self),
-            name=self.name,
-            array=concatenate((self.array, *(item.array for item in other)),
-                              axis=axis),
-            dimensions=self.dimensions,
-            attrs=self.attrs,
-            compressor=self.compressor,
-            fill_value=self.fill_value,
-            filters=self.filters,
-        )
-    except ValueError:
-        # If the concatenation dimension is not within the dimensions of the
-        # variable, then the original variable is returned (i.e.
-        # concatenation is not necessary).
-        return new_variable(type(self),
-                            name=self.name,
-                            array=self.array,
-                            dimensions=self.dimensions,
-                            attrs=self.attrs,
-                            compressor=self.compressor,
-                            fill_value=self.fill_value,
-                            filters=self.filters)
+    # If the concatenation dimension is not within the dimensions of the
+    # variable, then the original variable is returned (i.e. concatenation is
+    # not necessary).
+    array: Any = self.array
+    if dim in self.dimensions:
+        array = concatenate((self.array, *(item.array for item in other)),
+                            axis=self.dimensions.index(dim))
+    return new_variable(
+        type(self),
+        name=self.name,
+        array=array,
+        dimensions=self.dimensions,
+        attrs=self.attrs,
+        compressor=self.compressor,
+        fill_value=self.fill_value,
+        filters=self.filters,
+    )
 
 
 def not_equal(first: Any, second: Any) -> bool:
-- 
2.43.0


From f13f840dcb92486e8fb8fee52cfc78e04ba0ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:33 +0000
Subject: [PATCH 28/64] fix: delete records of datasets with variables that do
 not use the dimension

---
 zcollection/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 5fd2dbc..2a6aac6 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -149,7 +149,7 @@ def _delete_delayed_vars(self: Dataset, indexer: slice | Sequence[int],
             var,  # type: ignore[arg-type]
             dask.array.routines.delete(var.array, indexer,
                                        var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
@@ -160,7 +160,7 @@ def _delete_vars(self: Dataset, indexer: slice | Sequence[int],
         _duplicate_array(
             var,  # type: ignore[arg-type]
             numpy.delete(var.array, indexer, var.dimensions.index(axis)))
-        for var in self.variables.values()
+        if axis in var.dimensions else var for var in self.variables.values()
     ]
 
 
-- 
2.43.0


From 7b0752f6a2cf359351e047723c4a643e1c2938a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:01 +0000
Subject: [PATCH 29/64] fix: accept masked arrays whose fill value is the
 number defined by the variable

---
 zcollection/variable/abc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 174eea4..68912a3 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -114,8 +114,14 @@ def not_equal(first: Any, second: Any) -> bool:
         # pylint: enable=comparison-with-itself
 
     #: pylint: disable=unidiomatic-typecheck
+    # Python and NumPy scalars holding the same number are equal (Python
+    # numbers have the precision of the floating point type of the array).
+    numbers = (bool, int, float, numpy.bool_, numpy.number)
     if type(first) is not type(second):
-        return True
+        if not (isinstance(first, numbers) and isinstance(second, numbers)):
+            return True
+        if isinstance(second, numpy.floating):
+            first = type(second)(first)
     #: pylint: enable=unidiomatic-typecheck
     if _is_not_a_number(first) and _is_not_a_number(second):
         return False
-- 
2.43.0


From eefaf305b0c9e35de96ee073891bf869258a58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:29 +0000
Subject: [PATCH 30/64] fix: lock the same file with a pickled ProcessSync, not
 locked once released

---
 zcollection/sync.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/sync.py b/zcollection/sync.py
index 74467dc..4821fd7 100644
--- a/zcollection/sync.py
+++ b/zcollection/sync.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 from typing import Callable
 import abc
+import os
 import threading
 
 import fasteners
@@ -66,8 +67,8 @@ class ProcessSync(Sync):
             pass
 
     def __reduce__(self) -> tuple[Callable, tuple[str]]:
-        return (ProcessSync, (str(self.lock.path), ))
+        return (ProcessSync, (os.fsdecode(self.lock.path), ))
 
     def is_locked(self) -> bool:
         """Returns True if the lock is acquired, False otherwise."""
-        return self.lock.exists()
+        return self.lock.acquired
-- 
2.43.0


From 4bd10e3232a9402e004064470d4e1f8b1d7fab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 31/64] fix: wait for the tasks of a failed transaction before
 releasing the lock

---
 zcollection/storage.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index af8d28f..50da3c4 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -69,17 +69,17 @@ def execute_transaction(
     if not futures:
         return None
     awaitables: Iterable[Any] = []
-    try:
-        with synchronizer:
+    with synchronizer:
+        try:
             awaitables = client.compute(futures,
                                         **kwargs)  # type: ignore[arg-type]
             return client.gather(awaitables)
-    except:  # noqa: E722
-        # Before throwing the exception, we wait until all future scheduled
-        # ones finished.
-        dask.distributed.wait(awaitables)
-        dask.distributed.wait(futures)
-        raise
+        except:  # noqa: E722
+            # Before throwing the exception and releasing the lock, we wait
+            # until all future scheduled ones finished.
+            dask.distributed.wait(awaitables)
+            dask.distributed.wait(futures)
+            raise
 
 
 def _to_zarr(array: dask.array.core.Array, mapper: fsspec.FSMap, path: str,
-- 
2.43.0


From 90f5b9ddf3da2d97fad8418e3a8752ed0b649c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 32/64] fix: start the modifications of the partitions once the
 lock is held

---
 zcollection/collection/__init__.py | 45 ++++++++++--------
 zcollection/dask_utils.py          | 21 ++++++++-
 zcollection/view/__init__.py       | 76 ++++++++++++++++--------------
 3 files changed, 86 insertions(+), 56 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 23ba84c..82ed511 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -18,7 +18,6 @@ import os
 import types
 import warnings
 
-import dask.bag.core
 import dask.distributed
 import dask.utils
 import fsspec
@@ -467,7 +466,10 @@ class Collection(ReadOnlyCollection):
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(self.fs.rm, folders, recursive=True))
+            dask_utils.delayed_map('drop_partitions',
+                                   self.fs.rm,
+                                   folders,
+                                   recursive=True))
 
         def invalidate_cache(path) -> None:
             """Invalidate the cache."""
@@ -589,7 +591,7 @@ class Collection(ReadOnlyCollection):
             or dask_utils.dask_workers(client, cores_only=True))
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(local_func, tuple(batches), key=func.__name__))
+            dask_utils.delayed_map('update', local_func, batches))
         tuple(map(self.fs.invalidate_cache, selected_partitions))
 
     def drop_variable(
@@ -626,11 +628,13 @@ class Collection(ReadOnlyCollection):
                     f'The variable {variable!r} is part of the immutable '
                     'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
-        bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-        awaitables: list[
-            dask.distributed.Future] = dask.distributed.futures_of(
-                bag.map(storage.del_zarr_array, variable, self.fs).persist())
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map('drop_variable',
+                                   storage.del_zarr_array,
+                                   tuple(self.partitions(lock=True)),
+                                   name=variable,
+                                   fs=self.fs))
         del self.metadata.variables[variable]
         self._write_config()
 
@@ -683,15 +687,15 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
-            bag: dask.bag.core.Bag = self._bag_from_partitions(lock=True)
-            futures: list[
-                dask.distributed.Future] = dask.distributed.futures_of(
-                    bag.map(storage.add_zarr_array,
-                            variable,
-                            template.name,
-                            self.fs,
-                            chunks=chunks).persist())
-            storage.execute_transaction(client, self.synchronizer, futures)
+            storage.execute_transaction(
+                client, self.synchronizer,
+                dask_utils.delayed_map('add_variable',
+                                       storage.add_zarr_array,
+                                       tuple(self.partitions(lock=True)),
+                                       variable=variable,
+                                       template=template.name,
+                                       fs=self.fs,
+                                       chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
             raise
@@ -806,7 +810,8 @@ class Collection(ReadOnlyCollection):
                 invalid_partitions.append(partition)
 
         if fix and invalid_partitions:
-            for item in invalid_partitions:
-                _LOGGER.info('Removing invalid partition: %s', item)
-                self.fs.rm(item, recursive=True)
+            with self.synchronizer:
+                for item in invalid_partitions:
+                    _LOGGER.info('Removing invalid partition: %s', item)
+                    self.fs.rm(item, recursive=True)
         return invalid_partitions
diff --git a/zcollection/dask_utils.py b/zcollection/dask_utils.py
index 7541c70..57d3f1f 100644
--- a/zcollection/dask_utils.py
+++ b/zcollection/dask_utils.py
@@ -8,7 +8,7 @@ Dask utilities
 """
 from __future__ import annotations
 
-from typing import Any, Callable, Iterator, Sequence
+from typing import Any, Callable, Iterable, Iterator, Sequence
 import itertools
 import uuid
 
@@ -104,3 +104,22 @@ def simple_delayed(name: str, func: Callable) -> dask_Delayed:
         }}, {name: set()}),
         None,
     )
+
+
+def delayed_map(name: str, func: Callable, sequence: Iterable[Any], /,
+                **kwargs) -> list[dask_Delayed]:
+    """Create the delayed calls of a function on each item of a sequence.
+
+    Unlike :py:meth:`dask.distributed.Client.map`, nothing is executed until
+    the result is computed.
+
+    Args:
+        name: name of the function
+        func: function to be delayed
+        sequence: first argument of each call
+        **kwargs: keyword arguments of the calls
+
+    Returns:
+        delayed calls
+    """
+    return [simple_delayed(name, func)(item, **kwargs) for item in sequence]
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 27eb27a..3cd9c95 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -118,7 +118,8 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(
+            dask_utils.delayed_map(
+                'init_partitions',
                 _write_checksum,
                 tuple(args),
                 base_dir=self.base_dir,
@@ -284,20 +285,22 @@ class View:
         try:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_create_zarr_array,
-                           tuple(args),
-                           base_dir=self.base_dir,
-                           fs=self.fs,
-                           template=template.name,
-                           variable=variable))
+                dask_utils.delayed_map('add_variable',
+                                       _create_zarr_array,
+                                       tuple(args),
+                                       base_dir=self.base_dir,
+                                       fs=self.fs,
+                                       template=template.name,
+                                       variable=variable))
         except Exception:
             storage.execute_transaction(
                 client, self.synchronizer,
-                client.map(_drop_zarr_zarr,
-                           tuple(self.partitions()),
-                           fs=self.fs,
-                           variable=variable.name,
-                           ignore_errors=True))
+                dask_utils.delayed_map('drop_variable',
+                                       _drop_zarr_zarr,
+                                       tuple(self.partitions()),
+                                       fs=self.fs,
+                                       variable=variable.name,
+                                       ignore_errors=True))
             del self.metadata.variables[variable.name]
             raise
 
@@ -330,10 +333,11 @@ class View:
 
         storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_drop_zarr_zarr,
-                       tuple(self.partitions()),
-                       fs=self.fs,
-                       variable=variable.name))
+            dask_utils.delayed_map('drop_variable',
+                                   _drop_zarr_zarr,
+                                   tuple(self.partitions()),
+                                   fs=self.fs,
+                                   variable=variable.name))
 
     def load(
         self,
@@ -529,12 +533,12 @@ class View:
         batchs: Iterator[Sequence[Any]] = dask_utils.split_sequence(
             datasets_list, npartitions
             or dask_utils.dask_workers(client, cores_only=True))
-        awaitables: list[dask.distributed.Future] = client.map(
-            wrap_function,
-            tuple(batchs),
-            key=func.__name__,
-            base_dir=self.base_dir)
-        storage.execute_transaction(client, self.synchronizer, awaitables)
+        storage.execute_transaction(
+            client, self.synchronizer,
+            dask_utils.delayed_map('update',
+                                   wrap_function,
+                                   batchs,
+                                   base_dir=self.base_dir))
 
     # pylint: disable=duplicate-code
     # false positive, no code duplication
@@ -742,13 +746,14 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         unsynchronized_partition = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata,
-                       dry_run=True))
+            dask_utils.delayed_map('sync',
+                                   _sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata,
+                                   dry_run=True))
         return len(
             tuple(
                 filter(lambda item: item is not None,
@@ -792,12 +797,13 @@ class View:
         client: dask.distributed.Client = dask_utils.get_client()
         synchronized_partition: list[str | None] = storage.execute_transaction(
             client, self.synchronizer,
-            client.map(_sync,
-                       partitions,
-                       base_dir=self.base_dir,
-                       fs=self.fs,
-                       view_ref=self.view_ref,
-                       metadata=self.metadata))
+            dask_utils.delayed_map('sync',
+                                   _sync,
+                                   partitions,
+                                   base_dir=self.base_dir,
+                                   fs=self.fs,
+                                   view_ref=self.view_ref,
+                                   metadata=self.metadata))
 
         partition_ids = tuple(
             dict(self.view_ref.partitioning.parse(
-- 
2.43.0


From c2100950d061e193a2e2217ab9a5b20c21730a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 33/64] fix: refuse a variable whose dimensions are not those
 of a variable of the collection

---
 zcollection/collection/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 82ed511..d646136 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -671,6 +671,9 @@ class Collection(ReadOnlyCollection):
         if self.partition_properties.dim not in variable.dimensions:
             raise ValueError(
                 'The new variable must use the partitioning axis.')
+        # The new variable cannot be its own template.
+        template: meta.Variable = self.metadata.search_same_dimensions_as(
+            variable)
         self.metadata.add_variable(variable)
         self._write_config()
 
@@ -680,8 +683,6 @@ class Collection(ReadOnlyCollection):
 
         client: dask.distributed.Client = dask_utils.get_client()
 
-        template: meta.Variable = self.metadata.search_same_dimensions_as(
-            variable)
         chunks: dict[str, int] = {
             dim.name: dim.value
             for dim in self.metadata.chunks
-- 
2.43.0


From 5a526fd0717b9223473aafc3655c9b2f77812a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 34/64] fix: drop a variable before the first insertion of the
 variables not partitioned

---
 zcollection/collection/__init__.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index d646136..b082107 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -620,13 +620,12 @@ class Collection(ReadOnlyCollection):
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-        if self._immutable:
-            zds: dataset.Dataset = storage.open_zarr_group(
-                self._immutable, self.fs)
-            if variable in zds.variables:
-                raise ValueError(
-                    f'The variable {variable!r} is part of the immutable '
-                    'dataset.')
+        # The immutable dataset is not stored until the first insertion.
+        if self.partition_properties.dim not in self.metadata.variables[
+                variable].dimensions:
+            raise ValueError(
+                f'The variable {variable!r} is part of the immutable '
+                'dataset.')
         client: dask.distributed.Client = dask_utils.get_client()
         storage.execute_transaction(
             client, self.synchronizer,
-- 
2.43.0


From 98c630371b9e78a5a1bac8af0a725a776277c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:56 +0000
Subject: [PATCH 35/64] fix: refuse to drop the axis of a collection

---
 zcollection/collection/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index b082107..97d2c4d 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -617,6 +617,9 @@ class Collection(ReadOnlyCollection):
         if variable in self.partitioning.variables:
             raise ValueError(
                 f'The variable {variable!r} is part of the partitioning.')
+        if variable == self.axis:
+            raise ValueError(
+                f'The variable {variable!r} is the axis of the collection.')
         if variable not in self.metadata.variables:
             raise ValueError(
                 f'The variable {variable!r} does not exist in the collection.')
-- 
2.43.0


From f4e007842838e5fd375d796b35cb47091819dfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 36/64] fix: delete the variables not partitioned when their
 writing fails

---
 zcollection/collection/__init__.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 97d2c4d..0cf5e88 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -67,11 +67,19 @@ def _write_immutable_dataset(
         'The dataset to insert does not contain any variable '
         'that is not split.')
     _LOGGER.info('Creating the immutable dataset: %s', path)
-    storage.write_zarr_group(immutable_dataset,
-                             path,
-                             fs,
-                             synchronizer,
-                             distributed=False)
+    with synchronizer:
+        try:
+            storage.write_zarr_group(immutable_dataset,
+                                     path,
+                                     fs,
+                                     sync.NoSync(),
+                                     distributed=False)
+        except:  # noqa: E722
+            # This dataset is written if it does not exist: a dataset
+            # partially written must be deleted.
+            if fs.exists(path):
+                fs.rm(path, recursive=True)
+            raise
 
 
 def _infer_callable(
-- 
2.43.0


From 7a4ffe93d1c71c579e75605abdd87f56f047929a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:37 +0000
Subject: [PATCH 37/64] fix: forget the variable of a collection whose
 configuration could not be saved

---
 zcollection/collection/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 0cf5e88..db3acbf 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -685,7 +685,6 @@ class Collection(ReadOnlyCollection):
         template: meta.Variable = self.metadata.search_same_dimensions_as(
             variable)
         self.metadata.add_variable(variable)
-        self._write_config()
 
         # Remove the attribute from the variable. The attribute will be added
         # from the collection metadata.
@@ -698,6 +697,7 @@ class Collection(ReadOnlyCollection):
             for dim in self.metadata.chunks
         }
         try:
+            self._write_config()
             storage.execute_transaction(
                 client, self.synchronizer,
                 dask_utils.delayed_map('add_variable',
-- 
2.43.0


From d8447ce7b1cd35d4b1e2042175cbec8f43314993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:21 +0000
Subject: [PATCH 38/64] fix: repeat the tasks of an operation that failed

---
 zcollection/collection/__init__.py | 5 +++--
 zcollection/storage.py             | 2 ++
 zcollection/view/detail.py         | 4 +++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index db3acbf..e012f53 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -767,7 +767,7 @@ class Collection(ReadOnlyCollection):
             """Function call on each worker to copy the partitions."""
             tuple(map(lambda arg: partial(*arg), args))
 
-        client.gather(client.map(worker_task, args))
+        client.gather(client.map(worker_task, args, pure=False))
         # The selection may be empty.
         filesystem.makedirs(target, exist_ok=True)
         # The variables that are not partitioned.
@@ -811,7 +811,8 @@ class Collection(ReadOnlyCollection):
             _check_partition,
             partitions,
             fs=self.fs,
-            partitioning_strategy=self.partitioning)
+            partitioning_strategy=self.partitioning,
+            pure=False)
         invalid_partitions: list[str] = []
         for item in dask.distributed.as_completed(futures):
             partition, valid = item.result()  # type: ignore
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 50da3c4..e682d0f 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -261,6 +261,8 @@ def write_zarr_group(
                     chunks=zds.chunks,
                     dirname=dirname,
                     fs=fs,
+                    # The result of a previous writing is never reused.
+                    pure=False,
                 )
                 execute_transaction(
                     client,
diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index de149c3..7ab94a7 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -269,7 +269,9 @@ def _load_datasets_list(
         selected_variables=view_ref.metadata.select_variables(
             keep_variables=selected_variables),
         view_ref=client.scatter(view_ref),
-        variables=metadata.select_variables(selected_variables))
+        variables=metadata.select_variables(selected_variables),
+        # The result of a previous loading is never reused.
+        pure=False)
 
     return filter(lambda item: item is not None,
                   client.gather(futures))  # type: ignore[arg-type]
-- 
2.43.0


From 53b64f697397a6139ea35bfc38e78960db58eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:55 +0000
Subject: [PATCH 39/64] fix: drop the entries of the partitions that no longer
 have a value to index

---
 zcollection/indexing/abc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 22ab1e1..cdd5e3c 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -273,6 +273,9 @@ class Indexer(abc.ABC):
         # List of new partitions indexed.
         partitions = []
         for partition, data in bag.compute():
+            # Memoize the updated partitions.
+            partitions.append(tuple(
+                (name, value) for name, value in partition))
             length = data.size
             # If the current item is empty, skip it.
             if length == 0:
@@ -287,9 +290,6 @@ class Indexer(abc.ABC):
                 (name,
                  pyarrow.nulls(length, type=self._type[name]).fill_null(value))
                 for name, value in partition)
-            # Memoize the updated partitions.
-            partitions.append(tuple(
-                (name, value) for name, value in partition))
             tables.append(pyarrow.Table.from_pydict(data))
 
         # If no new data, skip the update.
@@ -322,8 +322,8 @@ class Indexer(abc.ABC):
             # pylint: enable=no-member
 
         if len(tables) == 0:
-            # No new data, nothing to do.
-            return
+            # The partitions indexed do not contain any value to be indexed.
+            tables.append(pyarrow.schema(self._type.items()).empty_table())
 
         table = pyarrow.concat_tables(tables)
         if len(self._meta) and table.schema.metadata is None:
-- 
2.43.0


From 3db28263446c8c1de72b0e1d526bcac766b7ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:55 +0000
Subject: [PATCH 40/64] fix: query the index with a value of type bytes

---
 zcollection/indexing/abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index cdd5e3c..7ed80c2 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -437,7 +437,7 @@ class Indexer(abc.ABC):
 
         # Transform the columns values into a list if they are not iterable.
         values = {
-            k: [v] if not isinstance(v, Iterable) else v
+            k: [v] if isinstance(v, bytes) or not isinstance(v, Iterable) else v
             for k, v in columns.items()
         }
 
-- 
2.43.0


From bdb1d92f01beae8e02862883faf4ecdd2f43d8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:19 +0000
Subject: [PATCH 41/64] fix: keep all the records selected when indexed slices
 overlap

---
 zcollection/indexing/abc.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/zcollection/indexing/abc.py b/zcollection/indexing/abc.py
index 7ed80c2..992e550 100644
--- a/zcollection/indexing/abc.py
+++ b/zcollection/indexing/abc.py
@@ -378,20 +378,26 @@ class Indexer(abc.ABC):
         start = table[self.START].to_numpy()
         stop = table[self.STOP].to_numpy()
 
+        # Calculate the indexes of the rows sharing the same keys.
+        groups: Any = [[0], [len(table)]]
+        groups += [
+            numpy.where(numpy.roll(values, 1) != values)[0]
+            for values in data.values()
+        ]
+        groups = numpy.unique(numpy.concatenate(groups))
+
+        # A slice may be included in a previous one: the end of the slices read
+        # so far for these keys is the largest of the stops.
+        stop = stop.copy()
+        for ix0, ix1 in zip(groups[:-1], groups[1:]):
+            stop[ix0:ix1] = numpy.maximum.accumulate(stop[ix0:ix1])
+
         # Calculate the indexes of each contiguous slice.
         # index = [0,     1, ...,   69,    70, ...,   134]
         # start = [817, 823, ..., 2320, 17333, ..., 19337]
         # stop  = [832, 874, ..., 2396, 17420, ..., 19389]
         # chunks = [0, 70, 134]
-        chunks: Any = [[0],
-                       numpy.where(start[1:] - stop[:-1] > 0)[0] + 1,
-                       [len(table)]]
-
-        # Adds the chunks corresponding to the partitioning keys
-        chunks += [
-            numpy.where(numpy.roll(values, 1) != values)[0]
-            for values in data.values()
-        ]
+        chunks: Any = [groups, numpy.where(start[1:] - stop[:-1] > 0)[0] + 1]
 
         # Finally, we build the list of indexes of the different chunks found.
         chunks = numpy.unique(numpy.concatenate(chunks))
-- 
2.43.0


From 6e8410945bfda1628c8fc395ccc29431be9aea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:37 +0000
Subject: [PATCH 42/64] fix: refuse to repair a collection opened in read-only
 mode

---
 zcollection/collection/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index e012f53..8131526 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -802,7 +802,13 @@ class Collection(ReadOnlyCollection):
 
         Returns:
             A list of invalid partitions.
+
+        Raises:
+            io.UnsupportedOperation: If `fix` is True and the collection is
+                opened in read-only mode.
         """
+        if fix and self.is_readonly():
+            self._unsupported_operation()
         partitions = tuple(self.partitions(filters=filters))
         if not partitions:
             return []
-- 
2.43.0


From bd7067c5ddb5663deb93c8d7284fdc6021f5ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:59 +0000
Subject: [PATCH 43/64] fix: copy a collection to a target path ending with a
 separator

---
 zcollection/collection/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 8131526..ef6b5e8 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -746,6 +746,7 @@ class Collection(ReadOnlyCollection):
         _LOGGER.info('Copying of the collection to %r', target)
         if filesystem is None:
             filesystem = self.fs
+        target = fs_utils.normalize_path(filesystem, target)
         client: dask.distributed.Client = dask_utils.get_client()
         npartitions = npartitions or dask_utils.dask_workers(client,
                                                              cores_only=True)
-- 
2.43.0


From a13dacfd39710a15263c1234b49a164db1379e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:23 +0000
Subject: [PATCH 44/64] fix: open a collection or a view whose path ends with a
 separator

---
 zcollection/collection/__init__.py | 2 +-
 zcollection/view/__init__.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ef6b5e8..44c672d 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -288,7 +288,7 @@ class Collection(ReadOnlyCollection):
         """
         _LOGGER.info('Opening collection: %r', path)
         fs: fsspec.AbstractFileSystem = fs_utils.get_fs(filesystem)
-        config: str = cls._config(path)
+        config: str = cls._config(fs_utils.normalize_path(fs, path))
         if not fs.exists(config):
             raise ValueError(f'zarr collection not found at path {path!r}')
         with fs.open(config) as stream:
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 3cd9c95..153a7e7 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -179,7 +179,7 @@ class View:
         """
         _LOGGER.info('Opening view %r', path)
         fs: fsspec.AbstractFileSystem = fs_utils.get_fs(filesystem)
-        config: str = cls._config(path)
+        config: str = cls._config(fs_utils.normalize_path(fs, path))
         if not fs.exists(config):
             raise ValueError(f'zarr view not found at path {path!r}')
         with fs.open(config) as stream:
-- 
2.43.0


From 4298bc5b6ec06ce9f91761683db0a19b9d24b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:59 +0000
Subject: [PATCH 45/64] fix: do not write a configuration that cannot be
 serialized

---
 zcollection/collection/__init__.py | 17 ++++++++++-------
 zcollection/view/__init__.py       | 25 +++++++++++++------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index 44c672d..ea78fb8 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -241,16 +241,19 @@ class Collection(ReadOnlyCollection):
             "Updating collection's configuration: %s"
             if exists else 'Creating the collection: %s', config)
 
-        self.fs.makedirs(base_dir, exist_ok=True)
+        # Nothing is written if the configuration cannot be serialized.
+        params = json.dumps(
+            {
+                'axis': self.axis,
+                'dataset': self.metadata.get_config(),
+                'partitioning': self.partitioning.get_config(),
+            },
+            indent=4)
 
-        params = {
-            'axis': self.axis,
-            'dataset': self.metadata.get_config(),
-            'partitioning': self.partitioning.get_config(),
-        }
+        self.fs.makedirs(base_dir, exist_ok=True)
 
         with self.fs.open(config, mode='w') as stream:
-            json.dump(params, stream, indent=4)  # type: ignore[arg-type]
+            stream.write(params)  # type: ignore[arg-type]
 
     def is_readonly(self) -> bool:
         """Return True if the collection is read-only."""
diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 153a7e7..237f4bf 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -141,19 +141,20 @@ class View:
         """Write the configuration file for the view."""
         config: str = self._config(self.base_dir)
         fs: dict[str, Any] = json.loads(self.view_ref.fs.to_json())
-        with self.fs.open(config, mode='w') as stream:
-            json.dump(
-                {
-                    'base_dir': self.base_dir,
-                    'filters': _serialize_filters(self.filters),
-                    'metadata': self.metadata.get_config(),
-                    'view_ref': {
-                        'path': self.view_ref.partition_properties.dir,
-                        'fs': fs,
-                    },
+        # Nothing is written if the configuration cannot be serialized.
+        params = json.dumps(
+            {
+                'base_dir': self.base_dir,
+                'filters': _serialize_filters(self.filters),
+                'metadata': self.metadata.get_config(),
+                'view_ref': {
+                    'path': self.view_ref.partition_properties.dir,
+                    'fs': fs,
                 },
-                stream,  # type: ignore[arg-type]
-                indent=4)
+            },
+            indent=4)
+        with self.fs.open(config, mode='w') as stream:
+            stream.write(params)  # type: ignore[arg-type]
         self.fs.invalidate_cache(config)
 
     @classmethod
-- 
2.43.0


From 581ca5de057e9281dae2c72a10319df00b34fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:04 +0000
Subject: [PATCH 46/64] fix: convert the masked dates and durations to missing
 values for xarray

---
 zcollection/variable/abc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zcollection/variable/abc.py b/zcollection/variable/abc.py
index 68912a3..6983e36 100644
--- a/zcollection/variable/abc.py
+++ b/zcollection/variable/abc.py
@@ -488,6 +488,12 @@ class Variable(IVariable):
         if self.compressor:
             encoding['compressor'] = self.compressor
         data: ArrayLike = self.array
+        fill_value: Any | None = self.fill_value
+        if self.dtype.kind in 'mM' and fill_value is not None:
+            # xarray does not decode the fill value of dates and durations
+            data = numpy.where(data == fill_value,
+                               numpy.array('NaT', dtype=self.dtype), data)
+            fill_value = None
         if self.dtype.kind == 'M':
             # xarray need a datetime64[ns] dtype
             data = data.astype('datetime64[ns]')
@@ -496,8 +502,8 @@ class Variable(IVariable):
             encoding['dtype'] = 'int64'
         attrs = collections.OrderedDict(
             (item.name, item.value) for item in self.attrs)
-        if self.fill_value is not None:
-            attrs['_FillValue'] = self.fill_value
+        if fill_value is not None:
+            attrs['_FillValue'] = fill_value
         return xarray.Variable(self.dimensions, data, attrs, encoding)
 
     def __str__(self) -> str:
-- 
2.43.0


From db2d8ab98e9f028421d25bcdc449cf645abd778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:19 +0000
Subject: [PATCH 47/64] fix: mask the operands of compressed arrays with their
 own fill value

---
 zcollection/compressed_array.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 109247b..5b87eff 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -202,11 +202,7 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
     def _cast(self, obj: Any) -> Any:
         """Cast an object to a value compatible with numpy.ndarray."""
         if isinstance(obj, CompressedArray):
-            #: pylint: disable=protected-access
-            # obj is a CompressedArray, we can access its _array attribute.
-            return obj._array[...] if self._fill_value is None else \
-                numpy.ma.masked_equal(obj._array[...], self._fill_value)
-            #: pylint: enable=protected-access
+            return obj.__array__()
         if isinstance(obj, numpy.ndarray):
             return obj
         if isinstance(obj, dask.array.core.Array):
-- 
2.43.0


From 1b4b97810287aa26fd62aefca5dd1d97a527676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:29 +0000
Subject: [PATCH 48/64] fix: keep the fill value of the compressed arrays
 rechunked

---
 zcollection/compressed_array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 5b87eff..cf4aa95 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -175,12 +175,16 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The rechunked array.
         """
-        return CompressedArray(
+        # pylint: disable=protected-access
+        result = CompressedArray(
             zarr.array(self._array,
                        chunks=chunks,
                        compressor=self.compressor,
                        fill_value=self.fill_value,
                        filters=self.filters))
+        result._fill_value = self._fill_value
+        # pylint: enable=protected-access
+        return result
 
     def __array__(self, dtype=None) -> Array:
         """Return a numpy.ndarray of the array.
-- 
2.43.0


From 60ac17fd409188a86bd995942ac91ffd48d189e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:38 +0000
Subject: [PATCH 49/64] fix: mask the values set as masked in a compressed
 array

---
 zcollection/compressed_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index cf4aa95..314d2aa 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -102,6 +102,10 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
             key: The key to set.
             value: The value to set.
         """
+        if self._fill_value is not None and isinstance(
+                value, numpy.ma.MaskedArray):
+            # Masked values are stored as the fill value of this array.
+            value = value.filled(self._fill_value)
         self._array[key] = value
 
     @property
-- 
2.43.0


From 78223fb066e0cbbebbe92b78498cc1ed7a1b36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:57 +0000
Subject: [PATCH 50/64] fix: call the NumPy functions on sequences of
 compressed arrays

---
 zcollection/compressed_array.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 314d2aa..2b5b45c 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -237,11 +237,16 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The result of the numpy function.
         """
-        arrays: list[NDArray] = [
-            item.__array__() if isinstance(item, CompressedArray) else item
-            for item in args
-        ]
-        return func(*arrays, **kwargs)
+
+        def to_numpy(item: Any) -> Any:
+            """Decompress the arrays, including those given as sequences."""
+            if isinstance(item, CompressedArray):
+                return item.__array__()
+            if isinstance(item, (list, tuple)):
+                return type(item)(map(to_numpy, item))
+            return item
+
+        return func(*map(to_numpy, args), **kwargs)
 
     def __array_ufunc__(
         self,
-- 
2.43.0


From 56fd74784a339208e449f592a0d178afa7a9a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:46 +0000
Subject: [PATCH 51/64] fix: concatenate compressed arrays with uncompressed
 arrays

---
 zcollection/compressed_array.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 2b5b45c..5db7b21 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -61,7 +61,9 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         else:
             raise TypeError('array must be a numpy.ndarray or a zarr.Array')
 
-    __array_priority__ = 0
+    # Higher than the one of the masked arrays: the fill value of this array is
+    # applied when both are concatenated.
+    __array_priority__ = 20
 
     def __repr__(self) -> str:
         return f'<{self.__class__.__name__} ({self.shape}) {self.dtype}>'
@@ -316,8 +318,13 @@ def dask_array_from_compressed_array(
 @dask.array.dispatch.concatenate_lookup.register(CompressedArray)
 def _concatenate_compressed_array(arrays, **kwargs) -> NDArray:
     dtype: DType | None = kwargs.get('dtype', None)
-    arr: list[NDArray] = [item.__array__(dtype=dtype) for item in arrays]
-    if any(tuple(item.fill_value is not None for item in arrays)):
+    # Compressed and uncompressed arrays can be concatenated.
+    arr: list[NDArray] = [
+        item.__array__(
+            dtype=dtype) if isinstance(item, CompressedArray) else item
+        for item in arrays
+    ]
+    if any(isinstance(item, numpy.ma.MaskedArray) for item in arr):
         return numpy.ma.concatenate(arr, **kwargs)
     return numpy.concatenate(arr, **kwargs)
 
-- 
2.43.0


From 6cbf3034f09301f1c3283693df8652b21bb98960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:10 +0000
Subject: [PATCH 52/64] fix: keep the fill value of the compressed arrays
 concatenated

---
 zcollection/compressed_array.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 5db7b21..586145c 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -324,8 +324,15 @@ def _concatenate_compressed_array(arrays, **kwargs) -> NDArray:
             dtype=dtype) if isinstance(item, CompressedArray) else item
         for item in arrays
     ]
-    if any(isinstance(item, numpy.ma.MaskedArray) for item in arr):
-        return numpy.ma.concatenate(arr, **kwargs)
+    masked: list[numpy.ma.MaskedArray] = [
+        item for item in arr if isinstance(item, numpy.ma.MaskedArray)
+    ]
+    if masked:
+        result: numpy.ma.MaskedArray = numpy.ma.concatenate(arr, **kwargs)
+        # NumPy does not keep the fill value of the arrays.
+        if all(item.fill_value == masked[0].fill_value for item in masked):
+            result.fill_value = masked[0].fill_value
+        return result
     return numpy.concatenate(arr, **kwargs)
 
 
-- 
2.43.0


From c8c89794ab7887e9c36fb3e16b16a83f93689312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:34 +0000
Subject: [PATCH 53/64] fix: index compressed arrays with negative steps and
 arrays of indices

---
 zcollection/compressed_array.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/zcollection/compressed_array.py b/zcollection/compressed_array.py
index 586145c..6c3b994 100644
--- a/zcollection/compressed_array.py
+++ b/zcollection/compressed_array.py
@@ -88,7 +88,15 @@ class CompressedArray(numpy.lib.mixins.NDArrayOperatorsMixin):
         Returns:
             The data for the key.
         """
-        values: Array = self._array[key]
+        keys = key if isinstance(key, tuple) else (key, )
+        if all(item is Ellipsis or isinstance(item, (int, numpy.integer)) or
+               (isinstance(item, slice) and (item.step is None or item.step > 0))
+               for item in keys):
+            values: Array = self._array[key]
+        else:
+            # Selection handled by NumPy only (e.g. array of indices, negative
+            # steps).
+            values = self._array[...][key]
         if self._fill_value is not None:
             values = numpy.ma.masked_equal(values, self._fill_value)
         return values
-- 
2.43.0


From e4559a6342151d29af212cf2e7c79acc1a3efe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:31 +0000
Subject: [PATCH 54/64] fix: report as invalid the partitions whose metadata is
 missing or whose chunks cannot be decoded

---
 zcollection/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index e682d0f..50516f5 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -470,6 +470,10 @@ def check_zarr_group(
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except (ValueError, TypeError, RuntimeError):
+    except OSError:
+        # The storage cannot be read: this says nothing about the group.
+        raise
+    except Exception:  # pylint: disable=broad-except
+        # Missing or damaged metadata, errors raised by the codecs, etc.
         return False
     return True
-- 
2.43.0


From 8144b6796861d47bdfb05313e2d9d0c5c6314255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:23 +0000
Subject: [PATCH 55/64] fix: do not store the variables not partitioned of a
 dataset that is refused

---
 zcollection/collection/__init__.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index ea78fb8..c69f72e 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -382,6 +382,17 @@ class Collection(ReadOnlyCollection):
         ds = ds.set_for_insertion(self.metadata)
         client: dask.distributed.Client = dask_utils.get_client()
 
+        # Process the partitions to insert or update by batches to avoid
+        # memory issues. A dataset that cannot be split is refused before
+        # anything is written.
+        partitions = tuple(
+            self.partitioning.split_dataset(ds, self.partition_properties.dim))
+
+        if npartitions is not None:
+            if npartitions < 1:
+                raise ValueError('The number of partitions must be positive')
+            npartitions = len(partitions) // npartitions + 1
+
         # If the dataset contains variables that should not be partitioned.
         if self._immutable is not None:
 
@@ -395,16 +406,6 @@ class Collection(ReadOnlyCollection):
             # Remove the variables that should not be partitioned.
             ds = ds.select_variables_by_dims((self.partition_properties.dim, ))
 
-        # Process the partitions to insert or update by batches to avoid
-        # memory issues.
-        partitions = tuple(
-            self.partitioning.split_dataset(ds, self.partition_properties.dim))
-
-        if npartitions is not None:
-            if npartitions < 1:
-                raise ValueError('The number of partitions must be positive')
-            npartitions = len(partitions) // npartitions + 1
-
         scattered_ds: Any = client.scatter(ds)
         for sequence in dask_utils.split_sequence(partitions, npartitions):
             futures: list[dask.distributed.Future] = [
-- 
2.43.0


From a7a15d290c86c997f055f82383b2900caa7b94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:29 +0000
Subject: [PATCH 56/64] fix: load with an indexer variables that are not
 partitioned

---
 zcollection/collection/detail.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zcollection/collection/detail.py b/zcollection/collection/detail.py
index 04c0849..44338fb 100644
--- a/zcollection/collection/detail.py
+++ b/zcollection/collection/detail.py
@@ -472,4 +472,7 @@ def _load_and_apply_indexer(
         partition_handler.join(partition_scheme, fs.sep))
     zds: dataset.Dataset = open_zarr_group(
         partition, fs, delayed=delayed, selected_variables=selected_variables)
+    if partition_properties.dim not in zds.dimensions:
+        # None of the selected variables is partitioned.
+        return [zds]
     return [zds.isel({partition_properties.dim: indexer}) for indexer in items]
-- 
2.43.0


From 358d7271b1746ebb49f84405b99f103b5454fad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:33 +0000
Subject: [PATCH 57/64] fix: load with an indexer the variables of a view
 reference that are not partitioned

---
 zcollection/view/detail.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 7ab94a7..4507d40 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -206,8 +206,8 @@ def _load_one_dataset(
                 selected_variables=selected_variables))
 
     # Apply indexing if needed.
-    if len(slices) and len(zds.dimensions):
-        dim: str = view_ref.partition_properties.dim
+    dim: str = view_ref.partition_properties.dim
+    if len(slices) and dim in zds.dimensions:
         ds_list: list[dataset.Dataset] = [
             zds.isel({dim: indexer}) for indexer in slices
         ]
-- 
2.43.0


From 2b1f6c2c6ae10f2e8318282461ddebd639e28beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:46 +0000
Subject: [PATCH 58/64] fix: report as invalid the partitions whose codecs
 raise an OSError

The BZ2 and GZip decoders raise OSError for corrupted chunks, which was taken
for a failure of the storage. The files are read first, then decoded.
---
 zcollection/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zcollection/storage.py b/zcollection/storage.py
index 50516f5..1204022 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -462,17 +462,17 @@ def check_zarr_group(
     Returns:
         True if the directory contains a valid Zarr group, False otherwise.
     """
+    # If the storage cannot be read, this says nothing about the group. Such
+    # errors are not to be mistaken for those raised by the codecs.
+    files: dict[str, bytes] = dict(fs.get_mapper(dirname))
     try:
         store: zarr.Group = zarr.open_consolidated(  # type: ignore
-            fs.get_mapper(dirname),
+            files,
             mode='r',
         )
         for _, array in store.arrays():
             data: NDArray = array[...]  # type: ignore
             del data
-    except OSError:
-        # The storage cannot be read: this says nothing about the group.
-        raise
     except Exception:  # pylint: disable=broad-except
         # Missing or damaged metadata, errors raised by the codecs, etc.
         return False
-- 
2.43.0


From ec43dd6226bb4e0fe63ed61411648ef23608fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:00 +0000
Subject: [PATCH 59/64] fix: add a variable to a collection whose chunk sizes
 are automatic

'auto' and -1 are accepted when writing a dataset, but the addition of a
variable passed them to Zarr as they are.
---
 zcollection/collection/__init__.py |  4 +++-
 zcollection/storage.py             | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/zcollection/collection/__init__.py b/zcollection/collection/__init__.py
index c69f72e..0550ead 100644
--- a/zcollection/collection/__init__.py
+++ b/zcollection/collection/__init__.py
@@ -696,7 +696,7 @@ class Collection(ReadOnlyCollection):
 
         client: dask.distributed.Client = dask_utils.get_client()
 
-        chunks: dict[str, int] = {
+        chunks: dict[str, int | str] = {
             dim.name: dim.value
             for dim in self.metadata.chunks
         }
@@ -710,6 +710,8 @@ class Collection(ReadOnlyCollection):
                                        variable=variable,
                                        template=template.name,
                                        fs=self.fs,
+                                       block_size_limit=self.metadata.
+                                       block_size_limit,
                                        chunks=chunks))
         except Exception:
             self.drop_variable(variable.name)
diff --git a/zcollection/storage.py b/zcollection/storage.py
index 1204022..79f93ef 100644
--- a/zcollection/storage.py
+++ b/zcollection/storage.py
@@ -408,6 +408,7 @@ def add_zarr_array(
     template: str,
     fs: fsspec.AbstractFileSystem,
     *,
+    block_size_limit: int | None = None,
     chunks: dict[str, int | str] | None = None,
 ) -> None:
     """Add a variable to a Zarr dataset.
@@ -417,8 +418,10 @@ def add_zarr_array(
         variable: The variable to add.
         template: The name of the template variable.
         fs: The file system that the dataset is stored on.
-        chunks: Chunk size for each dimension. Defaults to None. See
-            :func:`zarr.create` for more information.
+        block_size_limit: Maximum size (in bytes) of a block/chunk. Defaults
+            to :data:`zcollection.meta.BLOCK_SIZE_LIMIT`.
+        chunks: Chunk size for each dimension, as given to
+            :func:`write_zarr_variable`. Defaults to None.
 
     Notes:
         This function adds a new variable to an existing Zarr dataset. The new
@@ -432,9 +435,13 @@ def add_zarr_array(
     shape: tuple[int, ...] = zarr.open(  # type: ignore[arg-type]
         fs.get_mapper(join_path(dirname, template))).shape
 
-    var_chunks: tuple[int | str, ...] = shape if chunks is None else tuple(
-        chunks.get(dim, shape[ix])  # type: ignore[misc]
-        for ix, dim in enumerate(variable.dimensions))
+    var_chunks: tuple[int, ...] = shape if chunks is None else tuple(
+        item[0] for item in dask.array.core.normalize_chunks(
+            tuple(chunks.get(dim, -1) for dim in variable.dimensions),
+            shape,
+            limit=block_size_limit or meta.BLOCK_SIZE_LIMIT,
+            dtype=variable.dtype,
+        ))
 
     store: fsspec.FSMap = fs.get_mapper(join_path(dirname, variable.name))
     zarr.create(
-- 
2.43.0


From 00db60d15b48b149e7a3c9c730d9a6b1c0b16e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:30 +0000
Subject: [PATCH 60/64] fix: write a dataset to a Zarr group

---
 zcollection/dataset.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index 2a6aac6..ce69f7d 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -774,14 +774,27 @@ class Dataset:
         """
         if not self.delayed:
             raise ValueError('cannot write a non-delayed dataset to Zarr')
-        # pylint: disable=import-outside-toplevel, import-error
+        # pylint: disable=import-outside-toplevel
         # Avoid circular import
-        import storage
-        import sync
-
-        # pylint: enable=import-outside-toplevel, import-error
-        storage.write_zarr_group(self, path, fs or fsspec.filesystem('file'),
-                                 sync.NoSync(), parallel)
+        from . import dask_utils, storage, sync
+
+        # pylint: enable=import-outside-toplevel
+        fs = fs or fsspec.filesystem('file')
+        if not parallel:
+            storage.write_zarr_group(self,
+                                     path,
+                                     fs,
+                                     sync.NoSync(),
+                                     distributed=False)
+            return
+        # The variables are written in parallel by the workers.
+        client = dask_utils.get_client()
+        client.submit(storage.write_zarr_group,
+                      client.scatter(self),
+                      path,
+                      fs,
+                      sync.NoSync(),
+                      pure=False).result()
 
     def __str__(self) -> str:
         return _dataset_repr(self)
-- 
2.43.0


From 1ae06434828150bba90435a2176ec28ac7bb1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:30 +0000
Subject: [PATCH 61/64] fix: synchronize a view whose synchronization was
 interrupted

---
 zcollection/view/detail.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zcollection/view/detail.py b/zcollection/view/detail.py
index 4507d40..f3968b6 100644
--- a/zcollection/view/detail.py
+++ b/zcollection/view/detail.py
@@ -499,7 +499,7 @@ def _load_checksum_array(
     """
     checksum_path: str = join_path(partition, CHECKSUM_FILE)
     mapper: fsspec.FSMap = fs.get_mapper(checksum_path)
-    return zarr.open_array(mapper)
+    return zarr.open_array(mapper, mode='r')
 
 
 def _write_checksum(
@@ -653,17 +653,24 @@ def _sync(
     # The partition exists, so we check if it is synced.
     partition_ref: str = join_path(view_ref.partition_properties.dir,
                                    partition)
-    array: zarr.Array = _load_checksum_array(partition_view, fs)
     axis_ref: AxisReference = _calculate_axis_reference(
         partition_ref, view_ref)
+    try:
+        array: zarr.Array = _load_checksum_array(partition_view, fs)
+        checksum: str = array.attrs[CHECKSUM_ATTR]
+        axis_view: NDArray = array[:]
+    except (KeyError, ValueError):
+        # The writing or the removal of the partition was interrupted: its
+        # axis is unknown, so the partition must be rebuilt.
+        checksum = ''
+        axis_view = axis_ref.array
     # If the checksums are different, the partition is not synced. So we
     # remove it (information between the partition and the reference are
     # not consistent)
-    if axis_ref.checksum != array.attrs[CHECKSUM_ATTR]:
+    if axis_ref.checksum != checksum:
         # If the checksums are different, the partition is not synced. we load
         # the axis of partition's view to check if the partition is a subset of
         # the reference partition.
-        axis_view: NDArray = array[:]
         if axis_ref.array.size > axis_view.size and numpy.all(
                 axis_view == axis_ref.array[:axis_view.size]):
             # The view partition is a subset of the reference partition.
-- 
2.43.0


From 191b26daf804db469ed4d273a1be26be55edcf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:36 +0000
Subject: [PATCH 62/64] fix: leave a view as it was when adding a variable
 fails

---
 zcollection/view/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zcollection/view/__init__.py b/zcollection/view/__init__.py
index 237f4bf..5e1f67b 100644
--- a/zcollection/view/__init__.py
+++ b/zcollection/view/__init__.py
@@ -271,7 +271,11 @@ class View:
 
         if len(existing_partitions) == 0:
             _LOGGER.info('No partitions found, skipping variable creation')
-            self._write_config()
+            try:
+                self._write_config()
+            except Exception:
+                del self.metadata.variables[variable.name]
+                raise
             return
 
         args = filter(lambda item: item[0] in existing_partitions,
@@ -293,6 +297,7 @@ class View:
                                        fs=self.fs,
                                        template=template.name,
                                        variable=variable))
+            self._write_config()
         except Exception:
             storage.execute_transaction(
                 client, self.synchronizer,
@@ -304,8 +309,6 @@ class View:
                                        ignore_errors=True))
             del self.metadata.variables[variable.name]
             raise
-
-        self._write_config()
         # pylint: enable=duplicate-code
 
     def drop_variable(
-- 
2.43.0


From 066b32e05abb4f155a2fa6b927f33825bbc0bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:40 +0000
Subject: [PATCH 63/64] fix: leave a dataset as it was when merging another one
 is refused

---
 zcollection/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index ce69f7d..de9e1e7 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -700,12 +700,11 @@ class Dataset:
             raise ValueError('cannot merge delayed and non-delayed data')
 
         # Merge the variables
-        for name, var in other.variables.items():
+        for name in other.variables:
 
             # It's impossible to merge a variable with itself.
             if name in self.variables:
                 raise ValueError(f'variable {name} already exists')
-            self.variables[name] = var
 
         # If the dataset has common dimensions, they must be identical.
         same_dims: set[str] = set(self.dimensions) & set(other.dimensions)
@@ -713,6 +712,8 @@ class Dataset:
                                  for dim in same_dims):
             raise ValueError(f'dimensions {same_dims} are not identical')
 
+        self.variables.update(other.variables)
+
         # Merge the dimensions.
         self.dimensions.update(other.dimensions)
 
-- 
2.43.0


From 2c1c14b1c04e7f2f9cbbf033a799e556510261a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:40 +0000
Subject: [PATCH 64/64] fix: leave a dataset as it was when renaming variables
 is refused

---
 zcollection/dataset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zcollection/dataset.py b/zcollection/dataset.py
index de9e1e7..ca565f0 100644
--- a/zcollection/dataset.py
+++ b/zcollection/dataset.py
@@ -364,10 +364,12 @@ class Dataset:
         Raises:
             ValueError: If the new names conflict with existing names
         """
+        variables = self.variables.copy()
         for old, new in names.items():
-            if new in self.variables:
+            if new in variables:
                 raise ValueError(f'{new} already exists in the dataset')
-            self.variables[new] = self.variables.pop(old).rename(new)
+            variables[new] = variables.pop(old).rename(new)
+        self.variables = variables
 
     def drops_vars(self, names: str | Sequence[str]) -> None:
         """Drop variables from the dataset.
-- 
2.43.0

