From bd41bb7a7ea56f3f7fabb8e67e25211e16eae1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 01/66] fix: resume a StreamingDataset when some workers have
 no samples left

The replay of the dataloader sampling ignored that the dataloader skips the workers that are exhausted, and _resume
crashed on a worker that had delivered all its samples. state_dict also returned the very dictionary it later mutated.
---
 src/litdata/streaming/dataset.py | 43 ++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 63b682a..8e680d1 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -353,7 +353,11 @@ class StreamingDataset(IterableDataset):
         worker_end = worker_start + num_workers
 
         # replay sampling from each worker / chunks using the batch size
-        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers)
+        workers_length = [
+            sum(interval[2] - interval[1] for interval in intervals)
+            for intervals in workers_intervals[worker_start:worker_end]
+        ]
+        indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers, workers_length)
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
@@ -368,6 +372,12 @@ class StreamingDataset(IterableDataset):
         self.worker_chunks = workers_chunks[worker_rank]
         self.worker_intervals = workers_intervals[worker_rank]
 
+        # this worker had already delivered all of its samples
+        if self.worker_next_chunk_index >= self.num_chunks:
+            self.upcoming_indexes = []
+            self.global_index = self.stop_length
+            return
+
         # replay the indexes for the current chunks
         interval = self.worker_intervals[self.worker_next_chunk_index]
         current_indexes = np.arange(interval[1], interval[2])
@@ -477,8 +487,8 @@ class StreamingDataset(IterableDataset):
             raise RuntimeError("The method `state_dict` should only be called in the main process.")
 
         if self._state_dict is not None:
-            self._state_dict["num_samples_yielded"] = num_samples_yielded
-            return self._state_dict
+            # return a copy, so that states returned previously aren't altered
+            return {**self._state_dict, "num_samples_yielded": num_samples_yielded}
 
         return {
             "num_samples_yielded": num_samples_yielded,
@@ -653,9 +663,19 @@ def is_integer(value: str) -> bool:
         return False
 
 
-def _replay_sampling(num_samples_yielded: int, batch_size: int, num_workers: int) -> Dict[int, int]:
-    """This function replays the sampling from the dataloader."""
+def _replay_sampling(
+    num_samples_yielded: int, batch_size: int, num_workers: int, workers_length: Optional[List[int]] = None
+) -> Dict[int, int]:
+    """This function replays the sampling from the dataloader.
+
+    When the number of samples of each worker is provided, the workers that have no samples left are skipped, as the
+    dataloader does.
+
+    """
     divisible_num_batches_yielded = num_samples_yielded // (num_workers * batch_size)
+    if workers_length is not None:
+        # the rounds during which every worker delivers a full batch
+        divisible_num_batches_yielded = min(divisible_num_batches_yielded, min(workers_length) // batch_size)
 
     indexes = {}
     for worker_idx in range(num_workers):
@@ -663,6 +683,19 @@ def _replay_sampling(num_samples_yielded: int, batch_size: int, num_workers: int
 
     num_samples_yielded = num_samples_yielded - (num_workers * divisible_num_batches_yielded * batch_size)
 
+    if workers_length is not None:
+        has_progressed = True
+        while num_samples_yielded > 0 and has_progressed:
+            has_progressed = False
+            for worker_idx in range(num_workers):
+                num_samples = min(batch_size, workers_length[worker_idx] - indexes[worker_idx], num_samples_yielded)
+                if num_samples > 0:
+                    indexes[worker_idx] += num_samples
+                    # the dataloader counts incomplete batches as full ones
+                    num_samples_yielded -= batch_size
+                    has_progressed = True
+        return indexes
+
     # take care of the reminder
     worker_idx = 0  # reset the worker_idx
     while True:
-- 
2.43.0


From cf19fa4e53a5315c01db3221b45c22148ab96b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 02/66] fix: resume a CombinedStreamingDataset from the exact
 position of each worker

The number of samples yielded was recorded in round-robin order, not for the worker that delivered the batch, and the
dataset selection was not replayed once a dataset was exhausted. len() also reset the number of workers and batch size.
---
 src/litdata/streaming/combined.py   | 74 ++++++++++++++++++++++-------
 src/litdata/streaming/dataloader.py |  8 +++-
 src/litdata/streaming/dataset.py    |  5 ++
 3 files changed, 67 insertions(+), 20 deletions(-)

diff --git a/src/litdata/streaming/combined.py b/src/litdata/streaming/combined.py
index ee5f999..7fc0486 100644
--- a/src/litdata/streaming/combined.py
+++ b/src/litdata/streaming/combined.py
@@ -23,6 +23,7 @@ from litdata.streaming.dataset import StreamingDataset
 from litdata.utilities.env import _WorkerEnv
 
 __NUM_SAMPLES_YIELDED_KEY__ = "__NUM_SAMPLES_YIELDED__"
+__WORKER_IDX_KEY__ = "__WORKER_IDX__"
 __SAMPLES_KEY__ = "__SAMPLES__"
 
 logger = logging.getLogger("litdata.streaming.combined")
@@ -113,7 +114,8 @@ class CombinedStreamingDataset(IterableDataset):
         return None
 
     def __len__(self) -> Optional[int]:
-        return self.get_len(1, 1)
+        # Note: don't override the number of workers and the batch size the datasets were configured with.
+        return self.get_len(self.num_workers, self.batch_size)
 
     # total length of the datasets
     def _get_total_length(self) -> int:
@@ -147,6 +149,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def set_num_workers(self, num_workers: int) -> None:
         """Set the current number of workers to the datasets."""
+        self.num_workers = num_workers or 1
         for dataset in self._datasets:
             dataset.set_num_workers(num_workers)
 
@@ -157,6 +160,7 @@ class CombinedStreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         """Reset the state of the dataset."""
+        self._num_samples_yielded = None
         for dataset in self._datasets:
             dataset.reset_state_dict()
 
@@ -175,8 +179,15 @@ class CombinedStreamingDataset(IterableDataset):
 
         num_samples_yielded = None
 
-        if self._num_samples_yielded is not None and worker_env.rank in self._num_samples_yielded:
-            num_samples_yielded = self._num_samples_yielded.get(worker_env.rank, 0)
+        if self._num_samples_yielded is not None:
+            # The workers which haven't been reached yet by the dataloader start from the beginning.
+            num_samples_yielded = self._num_samples_yielded.get(worker_env.rank, [])
+            num_samples_yielded = [
+                num_samples_yielded[i] if i < len(num_samples_yielded) else 0 for i in range(len(self._datasets))
+            ]
+            # The samples aren't spread evenly over the workers: resume each dataset from where this worker stopped.
+            for dataset, num_samples in zip(self._datasets, num_samples_yielded):
+                dataset._worker_num_samples_yielded = num_samples
 
         self._iterator = _CombinedDatasetIterator(
             self._datasets,
@@ -240,7 +251,7 @@ class _CombinedDatasetIterator(Iterator):
         self._datasets = datasets
         self._dataset_iters = [iter(dataset) for dataset in datasets]
         self._dataset_indexes: List[Optional[int]] = list(range(len(datasets)))
-        self._num_samples_yielded = num_samples_yielded or [0 for _ in range(len(datasets))]
+        self._num_samples_yielded = [0 for _ in range(len(datasets))]
         self._original_weights = deepcopy(weights)
         self._weights = deepcopy(weights)
         self._rng = random.Random(seed)  # noqa: S311
@@ -249,15 +260,9 @@ class _CombinedDatasetIterator(Iterator):
         self._batch_size = batch_size
         self._is_done = False
 
-        if num_samples_yielded is not None:
-            self._num_samples_yielded = num_samples_yielded
-            for _ in range(sum(num_samples_yielded)):
-                choice_indexes: List[int] = [index for index in self._dataset_indexes if index is not None]
-                choice_weights: List[float] = [w for w in self._weights if w is not None]
-                self._rng.choices(choice_indexes, weights=choice_weights, k=1)
-
         self._use_streaming_dataloader = use_streaming_dataloader
         self._is_done = False
+        self._worker_idx = _WorkerEnv.detect().rank if use_streaming_dataloader else 0
 
         # Used to track the number of samples yielded in the current batch
         # and the current dataset index
@@ -265,6 +270,9 @@ class _CombinedDatasetIterator(Iterator):
         self._samples_yielded_in_batch = 0
         self._cur_dataset_index = -1
 
+        if num_samples_yielded is not None:
+            self._replay_sampling(num_samples_yielded)
+
         logger.debug(
             _get_log_msg({"name": "iterating_combined_dataset", "ph": "B", "cname": ChromeTraceColors.LIGHT_BLUE})
         )
@@ -290,25 +298,53 @@ class _CombinedDatasetIterator(Iterator):
                         )
                         raise e
 
-                    self._dataset_indexes[dataset_index] = None
-                    self._weights[dataset_index] = None  # type: ignore
-                    new_sum = sum([w for w in self._weights if w is not None])
-                    self._weights = [None if w is None else w / new_sum for w in self._weights]
+                    self._remove_dataset(dataset_index)
 
         # stop on the first iteration
         return self._get_sample(self._get_dataset_index())
 
+    def _remove_dataset(self, dataset_index: int) -> None:
+        """Stop sampling from a dataset which has been exhausted."""
+        self._dataset_indexes[dataset_index] = None
+        self._weights[dataset_index] = None  # type: ignore
+        new_sum = sum([w for w in self._weights if w is not None])
+        self._weights = [None if w is None else w / new_sum for w in self._weights]
+        if self._cur_dataset_index == dataset_index:
+            # pick another dataset to complete the current batch
+            self._cur_dataset_index = -1
+
+    def _replay_sampling(self, num_samples_yielded: List[int]) -> None:
+        """Replay the selection of the datasets for the samples already yielded."""
+        lengths = [getattr(dataset, "stop_length", None) for dataset in self._datasets]
+        counts = [0 for _ in self._datasets]
+
+        while sum(counts) < sum(num_samples_yielded):
+            indexes_left = [index for index in self._dataset_indexes if index is not None]
+            if self._iterate_over_all and len(indexes_left) == 1:
+                break
+            dataset_index = self._get_dataset_index()
+            if lengths[dataset_index] is not None and counts[dataset_index] >= lengths[dataset_index]:
+                if not self._iterate_over_all:
+                    break
+                self._remove_dataset(dataset_index)
+                continue
+            counts[dataset_index] += 1
+            self._samples_yielded_in_batch += 1
+
+        self._num_samples_yielded = list(num_samples_yielded)
+
     def _get_dataset_index(self) -> int:
         if self._batching_method == BatchingMethod.STRATIFIED:
             # For every sample, randomly select a dataset (weighted)
             dataset_idx = self._set_new_dataset_index()
         elif self._batching_method == BatchingMethod.PER_STREAM:
             # For each batch, pick a dataset and stick with it for the whole batch
-            if self._cur_dataset_index == -1 or self._samples_yielded_in_batch >= self._batch_size:
-                self._cur_dataset_index = self._set_new_dataset_index()
+            if self._samples_yielded_in_batch >= self._batch_size:
+                self._cur_dataset_index = -1
                 self._samples_yielded_in_batch = 0
+            if self._cur_dataset_index == -1:
+                self._cur_dataset_index = self._set_new_dataset_index()
             dataset_idx = self._cur_dataset_index
-            self._samples_yielded_in_batch += 1
         else:
             raise ValueError(f"Invalid batching method: {self._batching_method}")
         return dataset_idx
@@ -326,12 +362,14 @@ class _CombinedDatasetIterator(Iterator):
 
         # keep track the sample was fetched
         self._num_samples_yielded[dataset_index] += 1
+        self._samples_yielded_in_batch += 1
 
         # return a new sample
         if self._use_streaming_dataloader:
             return {
                 __SAMPLES_KEY__: sample,
                 __NUM_SAMPLES_YIELDED_KEY__: self._num_samples_yielded,
+                __WORKER_IDX_KEY__: self._worker_idx,
             }
         return sample
 
diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index c510f46..b804356 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -39,6 +39,7 @@ from litdata.streaming import Cache
 from litdata.streaming.combined import (
     __NUM_SAMPLES_YIELDED_KEY__,
     __SAMPLES_KEY__,
+    __WORKER_IDX_KEY__,
     CombinedStreamingDataset,
 )
 from litdata.streaming.dataset import StreamingDataset
@@ -505,6 +506,7 @@ class StreamingDataLoaderCollateFn:
             return {
                 __SAMPLES_KEY__: batch,
                 __NUM_SAMPLES_YIELDED_KEY__: list(torch.tensor(items[-1][__NUM_SAMPLES_YIELDED_KEY__]).reshape(-1, 1)),
+                __WORKER_IDX_KEY__: torch.tensor([items[-1][__WORKER_IDX_KEY__]]),
             }
 
         return self.collate_fn(items)
@@ -655,6 +657,8 @@ class StreamingDataLoader(DataLoader):
             for batch in super().__iter__():
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
+                    # the workers aren't visited in turn anymore once some of them are exhausted
+                    self._latest_worker_idx = batch[__WORKER_IDX_KEY__][-1].item()
                     self._num_samples_yielded_combined[self._latest_worker_idx] = [
                         sample[-1].item() if self.batch_size > 1 else sample.item()
                         for sample in batch[__NUM_SAMPLES_YIELDED_KEY__]
@@ -716,7 +720,7 @@ class StreamingDataLoader(DataLoader):
         if isinstance(self.dataset, StreamingDataset):
             self._num_samples_yielded_streaming = obj["num_samples_yielded"]
         else:
-            self._num_samples_yielded_combined = obj["num_samples_yielded"]
+            self._num_samples_yielded_combined = deepcopy(obj["num_samples_yielded"])
 
         # Used to restart on the next DataLoader worker from the previous run.
         self._latest_worker_idx = obj["latest_worker_idx"] + 1
@@ -745,7 +749,7 @@ class StreamingDataLoader(DataLoader):
             # Check if we need to restore for the case with weights.
             # Note: `len` is not available for CombinedStreamingDataset in case of provided weights.
             # TODO: handle the case with weights.
-            if not self.dataset._iterate_over_all:
+            if not self.dataset._iterate_over_all and total_samples_yielded > 0:
                 self.restore = True
 
         elif isinstance(self.dataset, StreamingDataset):
diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 8e680d1..431f8a2 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -184,6 +184,8 @@ class StreamingDataset(IterableDataset):
         self.shuffler: Optional[Shuffle] = None
         self.serializers = serializers
         self._state_dict: Optional[Dict[str, Any]] = None
+        # number of samples the current worker had yielded when resuming, set by the CombinedStreamingDataset
+        self._worker_num_samples_yielded: Optional[int] = None
         self._force_override_state_dict = force_override_state_dict
         # Has slightly different meaning in the context of the dataset
         # We consider `num_workers = 0` from `torch.utils.DataLoader` still as 1 worker (the main process)
@@ -358,6 +360,8 @@ class StreamingDataset(IterableDataset):
             for intervals in workers_intervals[worker_start:worker_end]
         ]
         indexes = _replay_sampling(num_samples_yielded, batch_size, num_workers, workers_length)
+        if self._worker_num_samples_yielded is not None:
+            indexes[self.worker_env.rank] = self._worker_num_samples_yielded
         chunks_index, indexes = _replay_chunks_sampling(
             workers_intervals={i: workers_intervals[j] for i, j in enumerate(range(worker_start, worker_end))},
             indexes=indexes,
@@ -514,6 +518,7 @@ class StreamingDataset(IterableDataset):
 
     def reset_state_dict(self) -> None:
         self._state_dict = None
+        self._worker_num_samples_yielded = None
 
     def _validate_state_dict(self) -> None:
         if self._force_override_state_dict:
-- 
2.43.0


From 386b198bfb07f34938b320d0c394325c07de4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 03/66] fix: keep the folder of a chunk when removing the
 compressor name from its path

A dataset stored in a folder whose name contains '.zstd' could not be read.
---
 src/litdata/streaming/config.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 3740c9b..21b8eab 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -132,7 +132,7 @@ class ChunksConfig:
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
                 # it as having been requested by something
-                self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+                self._downloader._increment_local_lock(self._remove_compressor_name(local_chunkpath))
                 pass
             return
 
@@ -140,17 +140,26 @@ class ChunksConfig:
             return
 
         if not skip_lock:
-            self._downloader._increment_local_lock(local_chunkpath.replace(f".{self._compressor_name}", ""))
+            self._downloader._increment_local_lock(self._remove_compressor_name(local_chunkpath))
 
         self._downloader.download_chunk_from_index(chunk_index)
 
         self.try_decompress(local_chunkpath)
 
+    def _remove_compressor_name(self, chunkpath: str) -> str:
+        """Returns the path of the decompressed chunk.
+
+        Only the filename is considered, as the name of its folders may contain the compressor name too.
+
+        """
+        dirname, filename = os.path.split(chunkpath)
+        return os.path.join(dirname, filename.replace(f".{self._compressor_name}", ""))
+
     def try_decompress(self, local_chunkpath: str) -> None:
         if self._compressor is None:
             return
 
-        target_local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+        target_local_chunkpath = self._remove_compressor_name(local_chunkpath)
 
         if os.path.exists(target_local_chunkpath):
             return
@@ -250,7 +259,7 @@ class ChunksConfig:
         local_chunkpath = os.path.join(self._cache_dir, chunk["filename"])
 
         if self._compressor is not None:
-            local_chunkpath = local_chunkpath.replace(f".{self._compressor_name}", "")
+            local_chunkpath = self._remove_compressor_name(local_chunkpath)
 
         begin = self._intervals[index.chunk_index][0]
 
-- 
2.43.0


From 33562b48a3b91449bb7c4e3f68018b7925398df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 04/66] fix: merge the index files of the workers in the order
 of their ranks

They were merged in lexicographic order, so 11 or more workers or nodes gave samples out of order.
---
 src/litdata/streaming/writer.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 2771106..e44e9f8 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -490,7 +490,7 @@ class BinaryWriter:
             chunks_info.extend(existing_index["chunks"])
             config = existing_index["config"]
 
-        for index_filename in sorted(index_files):
+        for index_filename in sorted(index_files, key=_index_file_sort_key):
             chunk_path = os.path.join(self._cache_dir, index_filename)
             with open(chunk_path) as f:
                 data = json.load(f)
@@ -562,6 +562,12 @@ class BinaryWriter:
         return checkpoint_filepath
 
 
+def _index_file_sort_key(index_filename: str) -> Tuple[int, str]:
+    """Order the index files by the rank they start with: `2.index.json` comes before `10.index.json`."""
+    rank = index_filename[: -len(_INDEX_FILENAME)].rstrip(".-")
+    return (int(rank) if rank.isdigit() else -1, index_filename)
+
+
 def index_parquet_dataset(
     pq_dir_url: str,
     cache_dir: Optional[str] = None,
-- 
2.43.0


From 307f5225944f3c3434eab8828da7325a22103aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 05/66] fix: refuse or realign samples whose structure differs
 from the first one

A dictionary with its keys in another order had its values swapped, a longer sample was silently truncated, and a
tensor of another dtype or rank was written without its description.
---
 src/litdata/streaming/writer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index e44e9f8..e3e8082 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -26,7 +26,7 @@ from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
 from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
 from litdata.streaming.serializers import Serializer, _get_serializers
-from litdata.utilities._pytree import PyTree, tree_flatten, treespec_dumps
+from litdata.utilities._pytree import PyTree, _is_leaf, tree_flatten, treespec_dumps
 from litdata.utilities.encryption import Encryption, EncryptionLevel
 from litdata.utilities.env import _DistributedEnv, _WorkerEnv
 from litdata.utilities.format import _convert_bytes_to_int, _human_readable_bytes
@@ -176,6 +176,11 @@ class BinaryWriter:
             self._data_format = data_format
             self._data_spec = data_spec
         else:
+            if data_spec != self._data_spec:
+                # e.g. a dictionary with its keys in another order. Raises if the structures don't match.
+                flattened = self._data_spec.flatten_up_to(items)  # type: ignore
+                if not all(_is_leaf(leaf) for leaf in flattened):
+                    raise ValueError(f"The structure of the provided item doesn't match the previous ones: {data_spec}.")
             # tiny optimization to avoid looping over all the data format
             self._serialize_with_data_format(flattened, sizes, data, self._data_format)
 
@@ -201,7 +206,10 @@ class BinaryWriter:
         assert data_format
         for element, item_format in zip(item, data_format):
             serializer = self._serializers_extra[item_format]
-            serialized_item, _ = serializer.serialize(element)
+            serialized_item, name = serializer.serialize(element)
+            if item_format.startswith("no_header") and (name != item_format or not serializer.can_serialize(element)):
+                # the dtype is stored only once and the shape isn't stored
+                raise ValueError(f"The provided item doesn't match the `{item_format}` format of the previous ones.")
             data.append(serialized_item)
             sizes.append(serializer.size if hasattr(serializer, "size") else len(serialized_item))
 
-- 
2.43.0


From 62ce635b266792c0e932bc18990017775e5781a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 06/66] fix: pickle numpy arrays of objects

Their raw pointers were written, which can't be read back.
---
 src/litdata/streaming/serializers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/serializers.py b/src/litdata/streaming/serializers.py
index abf2c25..2916707 100644
--- a/src/litdata/streaming/serializers.py
+++ b/src/litdata/streaming/serializers.py
@@ -331,7 +331,8 @@ class NumpySerializer(Serializer):
         return np.reshape(tensor, shape)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) > 1
+        # arrays of objects only hold references, they need to be pickled
+        return isinstance(item, np.ndarray) and len(item.shape) > 1 and not item.dtype.hasobject
 
 
 class NoHeaderNumpySerializer(Serializer):
@@ -354,7 +355,8 @@ class NoHeaderNumpySerializer(Serializer):
         return np.frombuffer(data, dtype=self._dtype)
 
     def can_serialize(self, item: np.ndarray) -> bool:
-        return isinstance(item, np.ndarray) and len(item.shape) == 1
+        # arrays of objects only hold references, they need to be pickled
+        return isinstance(item, np.ndarray) and len(item.shape) == 1 and not item.dtype.hasobject
 
 
 class PickleSerializer(Serializer):
-- 
2.43.0


From 95da027da98af4b7e898725b3106acd4f035afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:34 +0000
Subject: [PATCH 07/66] fix: reopen the chunk if it is read again after it has
 been closed

Reading a sample of the last chunk after a full iteration raised an AssertionError.
---
 src/litdata/streaming/item_loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ea7dcb8..837377c 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -301,6 +301,8 @@ class PyTreeLoader(BaseItemLoader):
         if self._open_handle is not None:
             self._open_handle.close()
             self._open_handle = None
+        # the file needs to be opened again if the same chunk is read next
+        self._chunk_filepath = None
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         logger.debug(
-- 
2.43.0


From d9e8087a37ee566775304db57c375150f5d70f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 08/66] fix: wait again for a chunk which is evicted before it
 is opened

With a bounded cache, a chunk could be deleted by the prepare thread between the existence check and its opening.
---
 src/litdata/streaming/item_loader.py | 68 +++++++++++++++++-----------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 837377c..a5b87f3 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -15,6 +15,7 @@ import logging
 import os
 from abc import ABC, abstractmethod
 from collections import defaultdict, namedtuple
+from contextlib import suppress
 from copy import deepcopy
 from io import BytesIO, FileIO
 from multiprocessing import Queue
@@ -42,6 +43,14 @@ Interval = namedtuple("Interval", ["chunk_start", "roi_start_idx", "roi_end_idx"
 logger = logging.getLogger("litdata.streaming.item_loader")
 
 
+def _is_chunk_available(chunk_filepath: str, filesize_bytes: int) -> bool:
+    """Whether the chunk is fully available locally. The chunk can be evicted at any time by another reader."""
+    try:
+        return os.stat(chunk_filepath).st_size >= filesize_bytes
+    except FileNotFoundError:
+        return False
+
+
 class BaseItemLoader(ABC):
     """The base item loader is responsible to decide how the items within a chunk are loaded."""
 
@@ -71,6 +80,21 @@ class BaseItemLoader(ABC):
         if self._force_download_queue:
             self._force_download_queue.put(chunk_index)
 
+    def _wait_for_chunk(self, chunk_index: int, chunk_filepath: str, filesize_bytes: int) -> None:
+        """Wait for the chunk to be fully available locally."""
+        start_time = time()
+        requested_force_download = False
+
+        while not _is_chunk_available(chunk_filepath, filesize_bytes):
+            sleep(0.1)
+
+            if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
+                self.force_download(chunk_index)
+                requested_force_download = True
+
+            if (time() - start_time) > _MAX_WAIT_TIME:
+                raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+
     @functools.lru_cache(maxsize=128)
     def _data_format_to_key(self, data_format: str) -> str:
         if ":" in data_format:
@@ -179,27 +203,18 @@ class PyTreeLoader(BaseItemLoader):
         offset = (1 + (index - begin) if index >= begin else index + 1) * 4
 
         if chunk_filepath != self._chunk_filepath:
-            start_time = time()
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
-
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
-
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
-
-            self._chunk_filepath = chunk_filepath
+            handle: Optional[FileIO] = None
+            while handle is None:
+                self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
+                # the chunk can be evicted before it is opened, it has to be downloaded again in this case.
+                with suppress(FileNotFoundError):
+                    handle = open(chunk_filepath, "rb", 0)  # noqa: SIM115
 
             if self._open_handle is not None:
                 self._open_handle.close()
 
-            self._open_handle = open(chunk_filepath, "rb", 0)  # noqa: SIM115
+            self._open_handle = handle
+            self._chunk_filepath = chunk_filepath
 
         if self._config.get("encryption"):
             data = self._load_encrypted_data(chunk_filepath, chunk_index, offset, encryption)
@@ -231,19 +246,20 @@ class PyTreeLoader(BaseItemLoader):
         if self._config["encryption"]["level"] == EncryptionLevel.CHUNK:
             decrypted_data = self._decrypted_chunks.get(chunk_index, None)
             if decrypted_data is None:
-                with open(chunk_filepath, "rb", 0) as fp:
-                    encrypted_data = fp.read()
-                    decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
-                    # Store the decrypted chunk to avoid re-decryption,
-                    # also allows to free the previous chunk from the memory
-                    self._decrypted_chunks = {chunk_index: decrypted_data}
+                assert self._open_handle
+                self._open_handle.seek(0)
+                encrypted_data = self._open_handle.read()
+                decrypted_data = encryption.decrypt(encrypted_data)  # type: ignore
+                # Store the decrypted chunk to avoid re-decryption,
+                # also allows to free the previous chunk from the memory
+                self._decrypted_chunks = {chunk_index: decrypted_data}
             data = self._load_data(BytesIO(decrypted_data), offset)
 
         # sample-level decryption
         elif self._config["encryption"]["level"] == EncryptionLevel.SAMPLE:
-            with open(chunk_filepath, "rb", 0) as fp:
-                data = self._load_data(fp, offset)
-                data = encryption.decrypt(data)  # type: ignore
+            assert self._open_handle
+            data = self._load_data(self._open_handle, offset)
+            data = encryption.decrypt(data)  # type: ignore
 
         else:
             raise ValueError("Invalid encryption level.")
-- 
2.43.0


From c21702ec8a0817b1e5fe5ab2c76fb52dc8748a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 09/66] fix: keep the token blocks valid once their chunk is
 closed or evicted

The memory-map was unmapped while the returned tensors still referred to it (segmentation fault).
---
 src/litdata/streaming/item_loader.py | 72 +++++++++++++---------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index a5b87f3..3c389d0 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -450,10 +450,11 @@ class TokensLoader(BaseItemLoader):
             begin += num_blocks
         return intervals
 
-    def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
+    def _load_chunk(self, chunk_index: int, chunk_filepath: str) -> bytes:
         self._counter[chunk_index] += 1
-        if chunk_index in self._mmaps:
-            return
+        buffer = self._buffers.get(chunk_index)
+        if buffer is not None:
+            return buffer
         chunk = self._chunks[chunk_index]
 
         # Skip the header
@@ -462,16 +463,20 @@ class TokensLoader(BaseItemLoader):
         # for more details on the chunk's binary format, see `writer.py::_create_chunk`
         offset = (1 + chunk["chunk_size"] + 1) * 4
         mmap = np.memmap(chunk_filepath, mode="r", order="C", offset=offset)
+        buffer = memoryview(mmap)  # type: ignore
         self._mmaps[chunk_index] = mmap
-        self._buffers[chunk_index] = memoryview(mmap)  # type: ignore
+        self._buffers[chunk_index] = buffer
+        return buffer
 
     def pre_load_chunk(self, chunk_index: int, chunk_filepath: str) -> None:
         # This is called within the prepare chunks thread, so we overlap data loading with data reading.
         if chunk_filepath not in self._chunk_filepaths:
             self._chunk_filepaths[chunk_filepath] = True
 
-        if os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > 0:
-            self._load_chunk(chunk_index, chunk_filepath)
+        # the chunk can be evicted by another reader at any time
+        with suppress(FileNotFoundError):
+            if os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > 0:
+                self._load_chunk(chunk_index, chunk_filepath)
 
     def load_item_from_chunk(
         self,
@@ -483,37 +488,27 @@ class TokensLoader(BaseItemLoader):
     ) -> torch.Tensor:
         assert self._block_size
 
-        if chunk_filepath in self._chunk_filepaths and not os.path.isfile(chunk_filepath):
-            del self._chunk_filepaths[chunk_filepath]
+        if not os.path.isfile(chunk_filepath):
+            self._chunk_filepaths.pop(chunk_filepath, None)
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
 
-        if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size > filesize_bytes
-
-            start_time = time()
-            requested_force_download = False
-
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
-
-                if not requested_force_download and (time() - start_time) > _FORCE_DOWNLOAD_TIME:
-                    self.force_download(chunk_index)
-                    requested_force_download = True
+        buffer: Optional[bytes] = None
+        while buffer is None:
+            if chunk_filepath not in self._chunk_filepaths:
+                self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
+                self._chunk_filepaths[chunk_filepath] = True
 
-                if (time() - start_time) > _MAX_WAIT_TIME:
-                    raise FileNotFoundError(f"The {chunk_filepath} hasn't been found.")
+            try:
+                buffer = self._load_chunk(chunk_index, chunk_filepath)
+            except FileNotFoundError:
+                # the chunk has been evicted in the meantime, it has to be downloaded again.
+                self._chunk_filepaths.pop(chunk_filepath, None)
 
-            self._chunk_filepaths[chunk_filepath] = True
-
-        self._load_chunk(chunk_index, chunk_filepath)
         assert self._dtype
 
-        buffer: bytes = self._buffers[chunk_index]
-
         # offset: how many bytes to skip to get to the item we want to load
         #       -> if chunk begins at 5, and we want to load the item at index 7,
         #       -> we need to skip 2 items, and each item has `self._block_size` tokens
@@ -546,13 +541,8 @@ class TokensLoader(BaseItemLoader):
             )
         )
         if os.path.exists(chunk_filepath):
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                # explicitly close before deleting. Won't raise error if already closed.
-                self._mmaps[chunk_index]._mmap.close()
-                del self._mmaps[chunk_index]
-                del self._counter[chunk_index]
+            self._release(chunk_index)
+            self._counter.pop(chunk_index, None)
             os.remove(chunk_filepath)
         logger.debug(
             _get_log_msg(
@@ -569,11 +559,13 @@ class TokensLoader(BaseItemLoader):
         self._counter[chunk_index] -= 1
 
         if self._counter[chunk_index] == 0:
-            if chunk_index in self._buffers:
-                del self._buffers[chunk_index]
-            if chunk_index in self._mmaps:
-                self._mmaps[chunk_index]._mmap.close()
-                del self._mmaps[chunk_index]
+            self._release(chunk_index)
+
+    def _release(self, chunk_index: int) -> None:
+        # The memory-map can't be closed explicitly, as the blocks already returned still refer to its memory.
+        # It is closed once the last of them is released.
+        self._buffers.pop(chunk_index, None)
+        self._mmaps.pop(chunk_index, None)
 
     @classmethod
     def encode_data(cls, data: List[bytes], _: List[int], flattened: List[Any]) -> Tuple[bytes, Optional[int]]:
-- 
2.43.0


From 5cdce3e1960035adb72d3c131ae510def101c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 10/66] fix: read parquet row groups of different sizes and
 evicted parquet chunks

---
 src/litdata/streaming/item_loader.py | 102 ++++++++++++---------------
 1 file changed, 47 insertions(+), 55 deletions(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 3c389d0..e688aeb 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -627,6 +627,7 @@ class ParquetLoader(BaseItemLoader):
         self._data_format = self._config["data_format"]
         self._shift_idx = len(self._data_format) * 4
         self.region_of_interest = region_of_interest
+        self._force_download_queue: Optional[Queue] = None
         self._df: Dict[int, Any] = {}
         self._chunk_row_groups: Dict[int, Any] = {}
         self._chunk_row_group_item_read_count: Dict[int, Any] = {}
@@ -665,27 +666,28 @@ class ParquetLoader(BaseItemLoader):
         filesize_bytes: int,
     ) -> Any:
         """Returns an item loaded from a parquet chunk."""
-        if chunk_filepath in self._chunk_filepaths and not os.path.isfile(chunk_filepath):
-            del self._chunk_filepaths[chunk_filepath]
+        if not os.path.isfile(chunk_filepath):
+            self._chunk_filepaths.pop(chunk_filepath, None)
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "B"})
         )
-        if chunk_filepath not in self._chunk_filepaths:
-            exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
-
-            while not exists:
-                sleep(0.1)
-                exists = os.path.exists(chunk_filepath) and os.stat(chunk_filepath).st_size >= filesize_bytes
-
-            self._chunk_filepaths[chunk_filepath] = True
-
-        # relative index of the desired row within the chunk.
         relative_index = index - begin
-        if self._low_memory:
-            item_data = self._get_item_with_low_memory(chunk_index, chunk_filepath, relative_index)
-        else:
-            item_data = self._get_item(chunk_index, chunk_filepath, relative_index)
+        item_data = None
+        while item_data is None:
+            if chunk_filepath not in self._chunk_filepaths:
+                self._wait_for_chunk(chunk_index, chunk_filepath, filesize_bytes)
+                self._chunk_filepaths[chunk_filepath] = True
+
+            try:
+                # relative index of the desired row within the chunk.
+                if self._low_memory:
+                    item_data = self._get_item_with_low_memory(chunk_index, chunk_filepath, relative_index)
+                else:
+                    item_data = self._get_item(chunk_index, chunk_filepath, relative_index)
+            except FileNotFoundError:
+                # the chunk has been evicted in the meantime, it has to be downloaded again.
+                self._chunk_filepaths.pop(chunk_filepath, None)
 
         logger.debug(
             _get_log_msg({"name": f"load_item_from_chunk_for_chunk_index_{chunk_index}_and_index_{index}", "ph": "E"})
@@ -710,40 +712,35 @@ class ParquetLoader(BaseItemLoader):
         import pyarrow.parquet as pq
 
         # Load the Parquet file metadata if not already loaded
-        if chunk_index not in self._df:
-            self._df[chunk_index] = pq.ParquetFile(chunk_filepath)
-
-        # Determine the row group and the row index within the row group
-        parquet_file = self._df[chunk_index]
-        num_rows_per_row_group = parquet_file.metadata.row_group(0).num_rows
-        row_group_index = row_index // num_rows_per_row_group
-        row_index_within_group = row_index % num_rows_per_row_group
+        parquet_file = self._df.get(chunk_index)
+        if parquet_file is None:
+            parquet_file = self._df[chunk_index] = pq.ParquetFile(chunk_filepath)
+
+        # Determine the row group and the row index within the row group. The row groups can have different sizes.
+        row_group_index, row_index_within_group = 0, row_index
+        num_rows_in_row_group = parquet_file.metadata.row_group(0).num_rows
+        while row_index_within_group >= num_rows_in_row_group:
+            row_index_within_group -= num_rows_in_row_group
+            row_group_index += 1
+            num_rows_in_row_group = parquet_file.metadata.row_group(row_group_index).num_rows
+
+        # Note: the chunk can be evicted in the background, so the entries can disappear at any time.
+        row_groups = self._chunk_row_groups.setdefault(chunk_index, {})
+        read_counts = self._chunk_row_group_item_read_count.setdefault(chunk_index, {})
 
         # Check if the row group is already loaded
-        if chunk_index in self._chunk_row_groups and row_group_index in self._chunk_row_groups[chunk_index]:
-            # Use the cached row group
-            row_group_df = self._chunk_row_groups[chunk_index][row_group_index]
-            # update read count
-            self._chunk_row_group_item_read_count[chunk_index][row_group_index] += 1
-        else:
-            # Load the row group and convert it to a Polars DataFrame
-            row_group = self._df[chunk_index].read_row_group(row_group_index)
-            row_group_df = pl.from_arrow(row_group)
-
-            # Cache the loaded row group
-            if chunk_index not in self._chunk_row_groups:
-                self._chunk_row_groups[chunk_index] = {}
-                self._chunk_row_group_item_read_count[chunk_index] = {}
-
-            self._chunk_row_groups[chunk_index][row_group_index] = row_group_df
-            self._chunk_row_group_item_read_count[chunk_index][row_group_index] = 1
+        row_group_df = row_groups.get(row_group_index)
+        if row_group_df is None:
+            # Load the row group, convert it to a Polars DataFrame and cache it
+            row_group_df = row_groups[row_group_index] = pl.from_arrow(parquet_file.read_row_group(row_group_index))
+            read_counts[row_group_index] = 0
 
         # Check if the row group has been fully read and release memory if necessary
-        read_count = self._chunk_row_group_item_read_count[chunk_index][row_group_index]
-        if read_count >= num_rows_per_row_group:
+        read_counts[row_group_index] = read_counts.get(row_group_index, 0) + 1
+        if read_counts[row_group_index] >= num_rows_in_row_group:
             # Release memory for the fully read row group
-            del self._chunk_row_groups[chunk_index][row_group_index]
-            del self._chunk_row_group_item_read_count[chunk_index][row_group_index]
+            row_groups.pop(row_group_index, None)
+            read_counts.pop(row_group_index, None)
 
         # Return the specific row from the dataframe
         # Note: The `named=True` argument is used to return the row as a dictionary
@@ -766,12 +763,13 @@ class ParquetLoader(BaseItemLoader):
         """
         import polars as pl
 
-        if chunk_index not in self._df:
-            self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
+        df = self._df.get(chunk_index)
+        if df is None:
+            df = self._df[chunk_index] = pl.scan_parquet(chunk_filepath, low_memory=True).collect()
 
         # Retrieve the specific row from the dataframe
         # Note: The `named=True` argument is used to return the row as a dictionary
-        return self._df[chunk_index].row(index, named=True)
+        return df.row(index, named=True)
 
     def delete(self, chunk_index: int, chunk_filepath: str) -> None:
         """Delete a chunk from the local filesystem."""
@@ -784,13 +782,7 @@ class ParquetLoader(BaseItemLoader):
                 }
             )
         )
-        if chunk_index in self._df:
-            del self._df[chunk_index]
-        if chunk_index in self._chunk_row_groups:
-            del self._chunk_row_groups[chunk_index]
-
-        if chunk_index in self._chunk_row_group_item_read_count:
-            del self._chunk_row_group_item_read_count[chunk_index]
+        self.close(chunk_index)
         if os.path.exists(chunk_filepath):
             os.remove(chunk_filepath)
         logger.debug(
-- 
2.43.0


From 61cdc0a1cb76a622ec3a55205dd9e514fcb956be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 11/66] fix: write documents without tokens as any other

An empty document was taken for a missing item, so the chunk limit was not applied anymore.
---
 src/litdata/streaming/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index e3e8082..3d653e4 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -290,7 +290,7 @@ class BinaryWriter:
             assert num_items.item() <= self._chunk_size
 
         dim: Optional[int] = None
-        if items[0].dim:
+        if items[0].dim is not None:
             dim = sum([item.dim if item.dim is not None else 0 for item in items])
 
         chunk_info = {
@@ -391,7 +391,7 @@ class BinaryWriter:
         index = self._max_index
         while True:
             item = self._serialized_items.get(index, None)
-            if item:
+            if item is not None:
                 num_bytes += item.bytes
                 num_items += item.dim if item.dim else 1
                 index += 1
-- 
2.43.0


From 8638d94bf9ec7afebee2991d836b33bbcc7b3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:52 +0000
Subject: [PATCH 12/66] fix: decompress the chunks atomically

Two workers sharing a cache raced for the compressed file, and a killed worker left a truncated chunk behind.
---
 src/litdata/streaming/config.py      | 32 ++++++++++++++++++----------
 src/litdata/streaming/item_loader.py | 11 +++-------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/litdata/streaming/config.py b/src/litdata/streaming/config.py
index 21b8eab..21076d5 100644
--- a/src/litdata/streaming/config.py
+++ b/src/litdata/streaming/config.py
@@ -14,6 +14,8 @@
 import logging
 import os
 from collections import defaultdict
+from contextlib import suppress
+from threading import get_ident
 from typing import Any, Dict, List, Optional, Tuple
 
 from litdata.constants import _INDEX_FILENAME
@@ -127,7 +129,9 @@ class ChunksConfig:
 
         local_chunkpath = os.path.join(self._cache_dir, chunk_filename)
 
-        if os.path.exists(local_chunkpath):
+        if os.path.exists(local_chunkpath) or (
+            self._compressor is not None and os.path.exists(self._remove_compressor_name(local_chunkpath))
+        ):
             self.try_decompress(local_chunkpath)
             if self._downloader is not None and not skip_lock:
                 # We don't want to redownload the base, but we should mark
@@ -161,20 +165,26 @@ class ChunksConfig:
 
         target_local_chunkpath = self._remove_compressor_name(local_chunkpath)
 
-        if os.path.exists(target_local_chunkpath):
-            return
+        if not os.path.exists(target_local_chunkpath):
+            try:
+                with open(local_chunkpath, "rb") as f:
+                    data = f.read()
+            except FileNotFoundError:
+                # another worker is downloading or decompressing this chunk
+                return
+
+            data = self._compressor.decompress(data)
 
-        with open(local_chunkpath, "rb") as f:
-            data = f.read()
+            # make an atomic operation to be safe, as several workers can decompress the same chunk at the same time
+            temp_file_path = f"{target_local_chunkpath}.{os.getpid()}.{get_ident()}.tmp"
+            with open(temp_file_path, "wb") as f:
+                f.write(data)
+            os.replace(temp_file_path, target_local_chunkpath)
 
         # delete the files only if they were downloaded
         if self._downloader is not None:
-            os.remove(local_chunkpath)
-
-        data = self._compressor.decompress(data)
-
-        with open(target_local_chunkpath, "wb") as f:
-            f.write(data)
+            with suppress(FileNotFoundError):
+                os.remove(local_chunkpath)
 
     @property
     def intervals(self) -> List[Interval]:
diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index e688aeb..e60862a 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -797,14 +797,9 @@ class ParquetLoader(BaseItemLoader):
 
     def close(self, chunk_index: int) -> None:
         """Release the memory-mapped file for a specific chunk index."""
-        if chunk_index in self._df:
-            del self._df[chunk_index]
-
-        if chunk_index in self._chunk_row_groups:
-            del self._chunk_row_groups[chunk_index]
-
-        if chunk_index in self._chunk_row_group_item_read_count:
-            del self._chunk_row_group_item_read_count[chunk_index]
+        self._df.pop(chunk_index, None)
+        self._chunk_row_groups.pop(chunk_index, None)
+        self._chunk_row_group_item_read_count.pop(chunk_index, None)
 
     def encode_data(self, data: List[bytes], sizes: List[int], flattened: List[Any]) -> Any:
         pass
-- 
2.43.0


From 69c4f8a3581bcce0669fa0114d563e9595e83710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 13/66] fix: allow shuffled datasets without samples

---
 src/litdata/streaming/shuffle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/shuffle.py b/src/litdata/streaming/shuffle.py
index 90e1085..a5cb126 100644
--- a/src/litdata/streaming/shuffle.py
+++ b/src/litdata/streaming/shuffle.py
@@ -112,7 +112,7 @@ class FullShuffle(Shuffle):
         # than in epoch 1 because shuffle a second time within the node.
         # This is done slighyly down this function.
         seed_shift = 1 if distributed_env.num_nodes > 1 else current_epoch
-        shuffled_indexes = np.random.RandomState([self.seed, seed_shift]).permutation(indexes)
+        shuffled_indexes = np.random.RandomState([self.seed, seed_shift]).permutation(len(indexes))
         shuffled_chunk_intervals = np.asarray(chunk_intervals)[shuffled_indexes].tolist()
 
         # 3. Compute the items budget of each rank
-- 
2.43.0


From 9e6e0e2d64750b8d8a65e34ef21d87aa4d2bef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 14/66] fix: keep the chunks and their regions aligned when
 splitting a subsampled dataset

---
 src/litdata/utilities/train_test_split.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/litdata/utilities/train_test_split.py b/src/litdata/utilities/train_test_split.py
index b1332c6..d256815 100644
--- a/src/litdata/utilities/train_test_split.py
+++ b/src/litdata/utilities/train_test_split.py
@@ -58,10 +58,9 @@ def train_test_split(
         # load chunks from `index.json` file
         data = load_index_file(input_dir.path)
 
-        original_chunks = data["chunks"]
-        subsampled_chunks = [
-            _org_chunk for _org_chunk in original_chunks if _org_chunk["filename"] in dummy_subsampled_chunk_filename
-        ]
+        # keep the order (and the repetitions) of the subsampled files, as the region of interest follows it
+        original_chunks = {_org_chunk["filename"]: _org_chunk for _org_chunk in data["chunks"]}
+        subsampled_chunks = [original_chunks[filename] for filename in dummy_subsampled_chunk_filename]
     else:
         raise ValueError("Couldn't load original chunk file.")
 
-- 
2.43.0


From 7946a5384d21ee3109a6d020db17ddf67f564b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 15/66] fix: subsample exactly the requested fraction above one

---
 src/litdata/utilities/dataset_utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index ec3bb73..0dd672a 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -101,6 +101,10 @@ def subsample_streaming_dataset(
     if shuffle:
         random_seed_sampler = np.random.RandomState([seed])
 
+    # computed from the original fraction, as subtracting 1.0 from it repeatedly accumulates rounding errors
+    num_items = sum(r[1] - r[0] for r in roi)
+    num_items_to_subsample = int(num_items * subsample)
+
     while subsample >= 1.0:
         # accumulate shuffled copies of the base into the final
         if random_seed_sampler is not None:
@@ -109,14 +113,13 @@ def subsample_streaming_dataset(
         final_files.extend(subsampled_files)
         final_roi.extend(roi)
         subsample -= 1.0
+        num_items_to_subsample -= num_items
 
     if subsample > 0:
         # shuffle lists together
         if random_seed_sampler is not None:
             original_chunks, roi = shuffle_lists_together(original_chunks, roi, random_seed_sampler)
 
-        num_items_to_subsample = int(sum([roi[1] - roi[0] for roi in roi]) * subsample)
-
         subsampled_files, roi, _, _ = subsample_filenames_and_roi(original_chunks, roi, num_items_to_subsample)
         final_files.extend(subsampled_files)
         final_roi.extend(roi)
-- 
2.43.0


From 223e3c74276466fe8c7fa67577e6baf0c22fb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:07 +0000
Subject: [PATCH 16/66] fix: allow token datasets without chunks

---
 src/litdata/streaming/item_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index e60862a..ce0b3a6 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -430,7 +430,7 @@ class TokensLoader(BaseItemLoader):
             if serializer_name == "no_header_tensor"
             else _NUMPY_DTYPES_MAPPING[int(dtype_index)]
         )
-        if all(chunk["dim"] is None for chunk in self._chunks):
+        if len(self._chunks) > 0 and all(chunk["dim"] is None for chunk in self._chunks):
             raise ValueError("The provided chunks isn't properly setup.")
 
     def generate_intervals(self) -> List[Interval]:
-- 
2.43.0


From 360f6e5fce57d0d5c32bb75524860ceab8e62e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:07 +0000
Subject: [PATCH 17/66] fix: allow to copy and split token datasets being read

---
 src/litdata/streaming/item_loader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index ce0b3a6..9c4e486 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -567,6 +567,15 @@ class TokensLoader(BaseItemLoader):
         self._buffers.pop(chunk_index, None)
         self._mmaps.pop(chunk_index, None)
 
+    def __getstate__(self):
+        # the opened chunks can't be copied and the copy may be used with other chunks
+        state = self.__dict__.copy()
+        state["_mmaps"] = {}
+        state["_buffers"] = {}
+        state["_counter"] = defaultdict(int)
+        state["_chunk_filepaths"] = {}
+        return state
+
     @classmethod
     def encode_data(cls, data: List[bytes], _: List[int], flattened: List[Any]) -> Tuple[bytes, Optional[int]]:
         r"""Encodes tokenized data into a raw byte format while preserving dimensional information.
-- 
2.43.0


From 391dc80877be67eed133a6acf6190b614bb092c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 18/66] fix: keep the worker rank until the cached chunks of a
 CacheDataLoader worker are written

---
 src/litdata/streaming/dataloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index b804356..e1106e2 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -192,9 +192,11 @@ class WorkerLoop:
         reloaded_worker = reload(worker)
         create_fetcher = _DatasetKind.create_fetcher
         fetcher = None
+        worker_info = None
 
         def create_fetcher_fn(*args: Any, **kwargs: Any) -> "_BaseDatasetFetcher":
-            nonlocal fetcher
+            nonlocal fetcher, worker_info
+            worker_info = reloaded_worker.get_worker_info()
             fetcher = create_fetcher(*args, **kwargs)
             return fetcher
 
@@ -216,6 +218,9 @@ class WorkerLoop:
             **kwargs,
         )
 
+        # PyTorch resets the worker info at the end of the worker loop, but the writer needs it to know its rank.
+        reloaded_worker._worker_info = worker_info
+
         if dataset_kind == _DatasetKind.Map:
             assert fetcher
             for v in fetcher.dataset.__dict__.values():
-- 
2.43.0


From 7320bd94e40231ee896873c10e536bb6f249337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 19/66] fix: reported length after drop_last is changed

---
 src/litdata/streaming/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/dataset.py b/src/litdata/streaming/dataset.py
index 431f8a2..ed0fd47 100644
--- a/src/litdata/streaming/dataset.py
+++ b/src/litdata/streaming/dataset.py
@@ -265,7 +265,7 @@ class StreamingDataset(IterableDataset):
         self.set_num_workers(num_workers)
         self.set_batch_size(batch_size)
         worker_env = _WorkerEnv.detect()
-        if self.shuffler is None:
+        if self.shuffler is None or (self._state_dict is None and self.shuffler.drop_last != self.drop_last):
             cache = self._create_cache(worker_env=worker_env)
             self.shuffler = self._create_shuffler(cache)
         return self.shuffler.get_len(self.distributed_env, self.num_workers, self.batch_size, self.current_epoch)
-- 
2.43.0


From f90556b1eb8c30886b6fae511e045fa997f996d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 20/66] fix: CacheBatchSampler for a rank without any batches

---
 src/litdata/streaming/sampler.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/sampler.py b/src/litdata/streaming/sampler.py
index 4c67b51..94e2f49 100644
--- a/src/litdata/streaming/sampler.py
+++ b/src/litdata/streaming/sampler.py
@@ -230,11 +230,8 @@ class CacheBatchSampler:
                 batches.append(worker_indices.pop(0))
             counter += 1
 
-        while True:
-            if len(batches[-1]) == 0:
-                batches.pop(-1)
-            else:
-                break
+        while batches and len(batches[-1]) == 0:
+            batches.pop(-1)
 
         yield from batches
 
-- 
2.43.0


From de6bf1a979ca96b238099284b02813f61aa1f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 21/66] fix: CacheBatchSampler associates the chunks to the
 ranks identically on every rank

---
 src/litdata/streaming/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/sampler.py b/src/litdata/streaming/sampler.py
index 94e2f49..f78b336 100644
--- a/src/litdata/streaming/sampler.py
+++ b/src/litdata/streaming/sampler.py
@@ -87,6 +87,7 @@ class CacheBatchSampler:
 
         self._drop_last = drop_last
         self._length = 0
+        self._epoch = 0
 
         # Before starting, ensures the chunk indices are properly defined.
         self._validate()
@@ -174,7 +175,9 @@ class CacheBatchSampler:
 
     def __iter_from_chunks_distributed__(self) -> Iterator[List[Union[int, ChunkedIndex]]]:
         chunk_intervals = self._cache.get_chunk_intervals()
-        shuffled_indexes = np.random.permutation(range(len(chunk_intervals)))
+        # every rank needs to associate the chunks to the ranks in the same way
+        shuffled_indexes = np.random.RandomState(42 + self._epoch).permutation(range(len(chunk_intervals)))
+        self._epoch += 1
         shuffled_chunk_intervals = np.asarray(chunk_intervals)[shuffled_indexes]
 
         replica_chunks = []
-- 
2.43.0


From fe3add9ac82f0e582a73714d808f15163204fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 22/66] fix: a StreamingDataLoader epoch left early was resumed
 or repeated by the next one

---
 src/litdata/streaming/dataloader.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/litdata/streaming/dataloader.py b/src/litdata/streaming/dataloader.py
index e1106e2..6e2a0ee 100644
--- a/src/litdata/streaming/dataloader.py
+++ b/src/litdata/streaming/dataloader.py
@@ -626,6 +626,7 @@ class StreamingDataLoader(DataLoader):
         self._worker_idx_iter: Optional[Any] = None
         self._latest_worker_idx = 0
         self.restore = False
+        self._epoch_completed = True
         super().__init__(
             dataset,
             *args,
@@ -649,9 +650,16 @@ class StreamingDataLoader(DataLoader):
         self.dataset.set_epoch(self.current_epoch)
         logger.debug(_get_log_msg({"name": "iterating_dataloader", "ph": "B"}))
 
+        # Persistent workers count the epochs in their own copy of the dataset, so they can only follow complete ones.
+        if self.restore or not self._epoch_completed:
+            self._iterator = None
+        self._epoch_completed = False
+
         if isinstance(self.dataset, StreamingDataset):
             assert self.batch_size
-            for batch in super().__iter__():
+            iterator = super().__iter__()
+            self.restore = False  # an epoch left early isn't resumed by the next one
+            for batch in iterator:
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 self._num_samples_yielded_streaming += self.batch_size
                 yield batch
@@ -659,7 +667,9 @@ class StreamingDataLoader(DataLoader):
             self.dataset._set_use_streaming_dataloader(True)
             assert self.batch_size
             # TODO: Inject a custom collate function to avoid collating the __NUM_SAMPLES_YIELDED__ key
-            for batch in super().__iter__():
+            iterator = super().__iter__()
+            self.restore = False  # an epoch left early isn't resumed by the next one
+            for batch in iterator:
                 self._latest_worker_idx = next(self._worker_idx_iter)  # type: ignore
                 if isinstance(batch, dict) and __NUM_SAMPLES_YIELDED_KEY__ in batch:
                     # the workers aren't visited in turn anymore once some of them are exhausted
@@ -673,7 +683,7 @@ class StreamingDataLoader(DataLoader):
                 else:
                     yield batch
         logger.debug(_get_log_msg({"name": "iterating_dataloader", "ph": "E"}))
-        self.restore = False
+        self._epoch_completed = True
 
     def __len__(self) -> int:
         if self._dataset_kind == _DatasetKind.Iterable:
-- 
2.43.0


From c4fba4cf3d290ff470cc22f1f3b8a52ad8e250e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 23/66] fix: merging the indexes waited for writers without
 samples and read partially written index files

---
 src/litdata/streaming/writer.py | 34 +++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 3d653e4..8f69c5e 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -421,13 +421,16 @@ class BinaryWriter:
             out.write(raw_data)
 
     def write_chunks_index(self) -> str:
-        """Write the chunks index to a JSON file."""
-        if len(self._chunks_info) == 0:
+        """Write the chunks index to a JSON file.
+
+        A writer which didn't get any samples writes one too, as the merge waits for the index of every writer.
+
+        """
+        if len(self._chunks_info) == 0 and os.path.exists(os.path.join(self._cache_dir, _INDEX_FILENAME)):
             return ""
         filepath = os.path.join(self._cache_dir, f"{self.rank}.{_INDEX_FILENAME}")
         config = self.get_config()
-        with open(filepath, "w") as out:
-            json.dump({"chunks": self._chunks_info, "config": config}, out, sort_keys=True)
+        _dump_index(filepath, {"chunks": self._chunks_info, "config": config})
         return filepath
 
     def done(self) -> List[str]:
@@ -503,7 +506,11 @@ class BinaryWriter:
             with open(chunk_path) as f:
                 data = json.load(f)
 
-                if config is None:
+                if len(data["chunks"]) == 0:
+                    # nothing was written, so its config doesn't describe any data
+                    pass
+
+                elif config is None:
                     config = data["config"]
 
                 elif config != data["config"]:
@@ -517,12 +524,11 @@ class BinaryWriter:
             os.remove(chunk_path)
 
         if node_rank is None:
-            with open(os.path.join(self._cache_dir, _INDEX_FILENAME), "w") as f:
-                data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
-                json.dump(data, f, sort_keys=True)
+            data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
+            _dump_index(os.path.join(self._cache_dir, _INDEX_FILENAME), data)
         else:
-            with open(os.path.join(self._cache_dir, f"{node_rank}-{_INDEX_FILENAME}"), "w") as f:
-                json.dump({"chunks": chunks_info, "config": config}, f, sort_keys=True)
+            data = {"chunks": chunks_info, "config": config}
+            _dump_index(os.path.join(self._cache_dir, f"{node_rank}-{_INDEX_FILENAME}"), data)
 
     def _should_raise(self, data_format_1: List[str], data_format_2: List[str]) -> bool:
         if len(data_format_1) != len(data_format_2):
@@ -570,6 +576,14 @@ class BinaryWriter:
         return checkpoint_filepath
 
 
+def _dump_index(filepath: str, data: Dict[str, Any]) -> None:
+    """Write an index file at once: other processes read it as soon as it exists."""
+    tmp_filepath = f"{filepath}.tmp"
+    with open(tmp_filepath, "w") as f:
+        json.dump(data, f, sort_keys=True)
+    os.replace(tmp_filepath, filepath)
+
+
 def _index_file_sort_key(index_filename: str) -> Tuple[int, str]:
     """Order the index files by the rank they start with: `2.index.json` comes before `10.index.json`."""
     rank = index_filename[: -len(_INDEX_FILENAME)].rstrip(".-")
-- 
2.43.0


From 87a52db19466ec405a6ec7274ed0e4bf13b4d095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 24/66] fix: only the prefix of a local: location is dropped,
 not every local: in its path

---
 src/litdata/streaming/downloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 3f10499..fa8c80c 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -291,7 +291,8 @@ class HFDownloader(Downloader):
 
 class LocalDownloaderWithCache(LocalDownloader):
     def download_file(self, remote_filepath: str, local_filepath: str) -> None:
-        remote_filepath = remote_filepath.replace("local:", "")
+        if remote_filepath.startswith("local:"):
+            remote_filepath = remote_filepath[len("local:") :]
         super().download_file(remote_filepath, local_filepath)
 
 
-- 
2.43.0


From c65a4ccbee6d7040819b50743d7683c75af252ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 25/66] fix: an azure download that failed or was cut off was
 taken for the complete file

---
 src/litdata/streaming/downloader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index fa8c80c..8cbe6bd 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -222,9 +222,12 @@ class AzureDownloader(Downloader):
 
             service = BlobServiceClient(**self._storage_options)
             blob_client = service.get_blob_client(container=obj.netloc, blob=obj.path.lstrip("/"))
-            with open(local_filepath, "wb") as download_file:
+            # a partial or failed download must never be taken for the file
+            temp_file_path = local_filepath + ".tmp"
+            with open(temp_file_path, "wb") as download_file:
                 blob_data = blob_client.download_blob()
                 blob_data.readinto(download_file)
+            os.rename(temp_file_path, local_filepath)
 
 
 class LocalDownloader(Downloader):
-- 
2.43.0


From dda288448b76a0cfb3659a42c8d663e0272112be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 26/66] fix: a studio whose name starts with this_studio was
 taken for the current one

---
 src/litdata/streaming/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 6233f60..d656a71 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -61,7 +61,7 @@ def _resolve_dir(dir_path: Optional[Union[str, Dir]]) -> Dir:
 
     dir_path_absolute = str(Path(dir_path).absolute().resolve())
 
-    if dir_path_absolute.startswith("/teamspace/studios/this_studio"):
+    if (dir_path_absolute + "/").startswith("/teamspace/studios/this_studio/"):
         return Dir(path=dir_path_absolute, url=None)
 
     if dir_path_absolute.startswith("/.project"):
-- 
2.43.0


From a86da547f98b5501972543aea978e1eb9966b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 27/66] fix: other braces in a path ending with a time template

---
 src/litdata/streaming/resolver.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index d656a71..16454fb 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -345,13 +345,11 @@ def _get_lightning_cloud_url() -> str:
 
 
 def _resolve_time_template(path: str) -> str:
-    match = re.search("^.*{%.*}$", path)
-    if match is None:
+    if re.search("{%[^{}]*}$", path) is None:
         return path
 
-    pattern = path.split("{")[1].split("}")[0]
-
-    return path.replace("{" + pattern + "}", datetime.datetime.now().strftime(pattern))
+    now = datetime.datetime.now()
+    return re.sub("{(%[^{}]*)}", lambda match: now.strftime(match.group(1)), path)
 
 
 def _execute(
-- 
2.43.0


From b2998f26391bf22a6dea02d165d23dbfa331c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 28/66] fix: object keys with ? or # were cut off, reading
 another object

---
 src/litdata/streaming/downloader.py  | 10 +++++-----
 src/litdata/streaming/fs_provider.py | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 8cbe6bd..581de01 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -20,7 +20,6 @@ import tempfile
 from abc import ABC
 from contextlib import suppress
 from typing import Any, Dict, List, Optional, Type
-from urllib import parse
 
 from filelock import FileLock, Timeout
 
@@ -33,6 +32,7 @@ from litdata.constants import (
 )
 from litdata.debugger import _get_log_msg
 from litdata.streaming.client import S3Client
+from litdata.streaming.fs_provider import _urlparse
 
 logger = logging.getLogger("litdata.streaming.downloader")
 
@@ -86,7 +86,7 @@ class S3Downloader(Downloader):
             self._client = S3Client(storage_options=self._storage_options)
 
     def download_file(self, remote_filepath: str, local_filepath: str) -> None:
-        obj = parse.urlparse(remote_filepath)
+        obj = _urlparse(remote_filepath)
 
         if obj.scheme != "s3":
             raise ValueError(f"Expected obj.scheme to be `s3`, instead, got {obj.scheme} for remote={remote_filepath}")
@@ -166,7 +166,7 @@ class GCPDownloader(Downloader):
     def download_file(self, remote_filepath: str, local_filepath: str) -> None:
         from google.cloud import storage
 
-        obj = parse.urlparse(remote_filepath)
+        obj = _urlparse(remote_filepath)
 
         if obj.scheme != "gs":
             raise ValueError(f"Expected obj.scheme to be `gs`, instead, got {obj.scheme} for remote={remote_filepath}")
@@ -204,7 +204,7 @@ class AzureDownloader(Downloader):
     def download_file(self, remote_filepath: str, local_filepath: str) -> None:
         from azure.storage.blob import BlobServiceClient
 
-        obj = parse.urlparse(remote_filepath)
+        obj = _urlparse(remote_filepath)
 
         if obj.scheme != "azure":
             raise ValueError(
@@ -268,7 +268,7 @@ class HFDownloader(Downloader):
         """
         from huggingface_hub import hf_hub_download
 
-        obj = parse.urlparse(remote_filepath)
+        obj = _urlparse(remote_filepath)
 
         if obj.scheme != "hf":
             raise ValueError(f"Expected obj.scheme to be `hf`, instead, got {obj.scheme} for remote={remote_filepath}")
diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index c85ccb8..0867889 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -175,8 +175,8 @@ class S3FsProvider(FsProvider):
         return saved_file_dir
 
     def copy(self, remote_source: str, remote_destination: str) -> None:
-        input_obj = parse.urlparse(remote_source)
-        output_obj = parse.urlparse(remote_destination)
+        input_obj = _urlparse(remote_source)
+        output_obj = _urlparse(remote_destination)
         self.client.client.copy(
             {"Bucket": input_obj.netloc, "Key": input_obj.path.lstrip("/")},
             output_obj.netloc,
@@ -213,7 +213,7 @@ class S3FsProvider(FsProvider):
             raise e
 
     def is_empty(self, path: str) -> bool:
-        obj = parse.urlparse(path)
+        obj = _urlparse(path)
 
         objects = self.client.client.list_objects_v2(
             Bucket=obj.netloc,
@@ -224,6 +224,15 @@ class S3FsProvider(FsProvider):
         return not objects["KeyCount"] > 0
 
 
+def _urlparse(url: str) -> parse.ParseResult:
+    """Split the URL of an object: its key is everything that follows the bucket, including any `?`, `#` or `;`."""
+    scheme, separator, location = url.partition("://")
+    if not separator:
+        return parse.urlparse(url)
+    bucket, slash, key = location.partition("/")
+    return parse.ParseResult(scheme.lower(), bucket, slash + key, "", "", "")
+
+
 def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tuple[str, str]:
     """Parse the remote filepath and return the bucket name and the blob path.
 
@@ -237,7 +246,7 @@ def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tu
     Returns:
         Tuple[str, str]: The bucket name and the blob_path.
     """
-    obj = parse.urlparse(remote_filepath)
+    obj = _urlparse(remote_filepath)
 
     if obj.scheme != expected_scheme:
         raise ValueError(
@@ -254,7 +263,7 @@ def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tu
 
 
 def _get_fs_provider(remote_filepath: str, storage_options: Optional[Dict[str, Any]] = {}) -> FsProvider:
-    obj = parse.urlparse(remote_filepath)
+    obj = _urlparse(remote_filepath)
     if obj.scheme == "gs":
         return GCPFsProvider(storage_options=storage_options)
     if obj.scheme == "s3":
-- 
2.43.0


From 8d7906048c47db66e37fd5aa698f3ac1ac8d0620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 29/66] fix: quote the paths given to s5cmd

---
 src/litdata/streaming/downloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 581de01..9d9f711 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -14,6 +14,7 @@
 import contextlib
 import logging
 import os
+import shlex
 import shutil
 import subprocess
 import tempfile
@@ -106,7 +107,7 @@ class S3Downloader(Downloader):
                 aws_no_sign_request = self._storage_options.get("AWS_NO_SIGN_REQUEST", "no").lower() == "yes"
                 # prepare the s5cmd command
                 no_signed_option = "--no-sign-request" if aws_no_sign_request else None
-                cmd_parts = ["s5cmd", no_signed_option, "cp", remote_filepath, local_filepath]
+                cmd_parts = ["s5cmd", no_signed_option, "cp", shlex.quote(remote_filepath), shlex.quote(local_filepath)]
                 cmd = " ".join(part for part in cmd_parts if part)
 
                 proc = subprocess.Popen(
-- 
2.43.0


From 1e810be8db9e8f6d217b1276064ef509a4af4321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 30/66] fix: optimize altered inputs of mixed types or tuples
 when weights were given

---
 src/litdata/processing/data_processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 1cade64..601b014 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -359,7 +359,11 @@ def _map_items_to_workers_weighted(
         else:
             print(f"Worker {worker_id} gets ({len(worker_items[worker_id])}) items for a total weight of {size}.")
 
-    return [np.random.permutation(worker_items[worker_id]).tolist() for worker_id in worker_ids_this_node]
+    # Note: The positions are permuted, as converting the items to an array would alter them.
+    return [
+        [worker_items[worker_id][i] for i in np.random.permutation(len(worker_items[worker_id]))]
+        for worker_id in worker_ids_this_node
+    ]
 
 
 def _get_num_bytes(item: Any, base_path: str) -> int:
-- 
2.43.0


From 88c31b1d3d7a459db382f2bea7c8beede1a8a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 31/66] fix: a bucket without a path raised IndexError

---
 src/litdata/streaming/fs_provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index 0867889..d096344 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -256,7 +256,7 @@ def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tu
     bucket_name = obj.netloc
     blob_path = obj.path
     # Remove the leading "/":
-    if blob_path[0] == "/":
+    if blob_path.startswith("/"):
         blob_path = blob_path[1:]
 
     return bucket_name, blob_path
-- 
2.43.0


From 3630833230ee8e80a4cca3470a8e4637aa291430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 32/66] fix: cloud folder operations touched neighbours with
 the same name prefix and stopped after one page

---
 src/litdata/streaming/fs_provider.py | 74 ++++++++++++++++++----------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index d096344..8f80879 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -73,13 +73,13 @@ class GCPFsProvider(FsProvider):
     def download_directory(self, remote_path: str, local_directory_name: str) -> str:
         bucket_name, blob_path = get_bucket_and_path(remote_path, "gs")
         bucket = self.client.get_bucket(bucket_name)
-        blobs = bucket.list_blobs(prefix=blob_path)  # Get list of files
+        blobs = bucket.list_blobs(prefix=_as_directory(blob_path))  # Get list of files
         local_directory_name = os.path.abspath(local_directory_name)
         os.makedirs(local_directory_name, exist_ok=True)
-        saved_file_dir = "."
+        saved_file_dir = local_directory_name
 
         for blob in blobs:
-            if blob.name.endswith("/") or blob.name == blob_path:  # Skip directories
+            if blob.name.endswith("/"):  # Skip directories
                 continue
             file_split = blob.name.split("/")
             local_filename = os.path.join(local_directory_name, *file_split[1:])
@@ -112,8 +112,8 @@ class GCPFsProvider(FsProvider):
     def delete_file_or_directory(self, path: str) -> None:
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
         bucket = self.client.bucket(bucket_name)
-        # if it's a single file, only one will match the prefix
-        blobs = bucket.list_blobs(prefix=blob_path)
+        # Note: The names of other files and directories might start with this path.
+        blobs = [b for b in bucket.list_blobs(prefix=blob_path) if _is_at_or_in(b.name, blob_path)]
         for blob in blobs:
             blob.delete()
 
@@ -127,7 +127,7 @@ class GCPFsProvider(FsProvider):
         bucket_name, blob_path = get_bucket_and_path(path, "gs")
         bucket = self.client.bucket(bucket_name)
         # List blobs with the given prefix
-        blobs = bucket.list_blobs(prefix=blob_path)
+        blobs = bucket.list_blobs(prefix=_as_directory(blob_path))
         # If no blobs are found, it's considered empty
         return not any(blobs)
 
@@ -154,26 +154,40 @@ class S3FsProvider(FsProvider):
         local_directory_name = os.path.abspath(local_directory_name)
         os.makedirs(local_directory_name, exist_ok=True)
 
-        saved_file_dir = "."
+        saved_file_dir = local_directory_name
 
         # List objects under the given prefix
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=remote_directory_name)
+        for key in self._list_keys(bucket_name, _as_directory(remote_directory_name)):
+            if key.endswith("/"):  # Skip directories
+                continue
 
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                local_filename = os.path.join(local_directory_name, obj["Key"])
+            local_filename = os.path.join(local_directory_name, key)
 
-                # Ensure parent directories exist
-                os.makedirs(os.path.dirname(local_filename), exist_ok=True)
+            # Ensure parent directories exist
+            os.makedirs(os.path.dirname(local_filename), exist_ok=True)
 
-                # Download each file
-                with open(local_filename, "wb") as f:
-                    self.client.client.download_fileobj(bucket_name, obj["Key"], f)
-                    saved_file_dir = os.path.dirname(local_filename)
+            # Download each file
+            with open(local_filename, "wb") as f:
+                self.client.client.download_fileobj(bucket_name, key, f)
+                saved_file_dir = os.path.dirname(local_filename)
 
         return saved_file_dir
 
+    def _list_keys(self, bucket_name: str, prefix: str) -> List[str]:
+        """List the keys of all the objects starting with the prefix.
+
+        Note: A single response contains at most 1000 keys.
+
+        """
+        keys: List[str] = []
+        kwargs = {"Bucket": bucket_name, "Prefix": prefix}
+        while True:
+            objects = self.client.client.list_objects_v2(**kwargs)
+            keys.extend(obj["Key"] for obj in objects.get("Contents", []))
+            if not objects.get("IsTruncated", False):
+                return keys
+            kwargs["ContinuationToken"] = objects["NextContinuationToken"]
+
     def copy(self, remote_source: str, remote_destination: str) -> None:
         input_obj = _urlparse(remote_source)
         output_obj = _urlparse(remote_destination)
@@ -190,13 +204,10 @@ class S3FsProvider(FsProvider):
         """Delete the file or the directory."""
         bucket_name, blob_path = get_bucket_and_path(path, "s3")
 
-        # List objects under the given path
-        objects = self.client.client.list_objects_v2(Bucket=bucket_name, Prefix=blob_path)
-
-        # Check if objects exist
-        if "Contents" in objects:
-            for obj in objects["Contents"]:
-                self.client.client.delete_object(Bucket=bucket_name, Key=obj["Key"])
+        # Note: The names of other files and directories might start with this path.
+        for key in self._list_keys(bucket_name, blob_path):
+            if _is_at_or_in(key, blob_path):
+                self.client.client.delete_object(Bucket=bucket_name, Key=key)
 
     def exists(self, path: str) -> bool:
         import botocore
@@ -218,7 +229,7 @@ class S3FsProvider(FsProvider):
         objects = self.client.client.list_objects_v2(
             Bucket=obj.netloc,
             Delimiter="/",
-            Prefix=obj.path.lstrip("/").rstrip("/") + "/",
+            Prefix=_as_directory(obj.path.lstrip("/")),
         )
 
         return not objects["KeyCount"] > 0
@@ -233,6 +244,17 @@ def _urlparse(url: str) -> parse.ParseResult:
     return parse.ParseResult(scheme.lower(), bucket, slash + key, "", "", "")
 
 
+def _as_directory(blob_path: str) -> str:
+    """Return the prefix shared by the objects in the directory, and by no others."""
+    blob_path = blob_path.rstrip("/")
+    return blob_path + "/" if blob_path else ""
+
+
+def _is_at_or_in(key: str, blob_path: str) -> bool:
+    """Whether the object is the one at the path, or in the directory at the path."""
+    return key == blob_path or key.startswith(_as_directory(blob_path))
+
+
 def get_bucket_and_path(remote_filepath: str, expected_scheme: str = "s3") -> Tuple[str, str]:
     """Parse the remote filepath and return the bucket name and the blob path.
 
-- 
2.43.0


From f5b256775324893b688f4825c305811ca04cf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 33/66] fix: an interrupted run couldn't be resumed into a
 cloud folder

---
 src/litdata/streaming/resolver.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 16454fb..33e6e36 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -318,13 +318,10 @@ def _assert_dir_has_index_file(
         return
 
     # Check the index file exists
-    try:
-        fs_provider.exists(os.path.join(prefix, "index.json"))
-        has_index_file = True
-    except Exception:
-        has_index_file = False
+    has_index_file = fs_provider.exists(os.path.join(prefix, "index.json"))
 
-    if has_index_file and mode is None:
+    # Note: Without an index file, there might be the checkpoints of an interrupted run to resume from.
+    if mode is None and (has_index_file or not use_checkpoint):
         raise RuntimeError(
             f"The provided output_dir `{output_dir.path}` already contains an optimized immutable datasets."
             "\n HINT: Did you consider changing the `output_dir` with your own versioning as a suffix?"
-- 
2.43.0


From 1e3ed3b9427a1365e9d29e5d61c29f5402a28730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 34/66] fix: overwriting a cloud folder or its checkpoints
 removed objects outside of it

---
 src/litdata/processing/data_processor.py | 2 +-
 src/litdata/streaming/resolver.py        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 601b014..250f650 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -1357,7 +1357,7 @@ class DataProcessor:
             not_supported_provider(self.output_dir.url)
 
         prefix = self.output_dir.url.rstrip("/") + "/"
-        checkpoint_prefix = os.path.join(prefix, ".checkpoints")
+        checkpoint_prefix = os.path.join(prefix, ".checkpoints/")
 
         fs_provider = _get_fs_provider(self.output_dir.url, self.storage_options)
         fs_provider.delete_file_or_directory(checkpoint_prefix)
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 33e6e36..97f049b 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -329,8 +329,8 @@ def _assert_dir_has_index_file(
         )
 
     # delete all the files (including the index file in overwrite mode)
-    if mode == "overwrite" or (mode is None and not use_checkpoint):
-        fs_provider.delete_file_or_directory(output_dir.url)
+    if mode == "overwrite":
+        fs_provider.delete_file_or_directory(prefix)
 
 
 def _get_lightning_cloud_url() -> str:
-- 
2.43.0


From d906f4d90519bf0dc7feb0199757ffacb275172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 35/66] fix: a late node deleted the chunks the other nodes had
 already written

---
 src/litdata/processing/functions.py | 15 ++++++++++-----
 src/litdata/streaming/resolver.py   | 16 +++++++++++++++-
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index cac29eb..68d4dbe 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -457,8 +457,17 @@ def optimize(
                 "\n HINT: You can either use `/teamspace/s3_connections/...` or `/teamspace/datasets/...`."
             )
 
+        if num_workers == 0:
+            num_workers = 1
+
+        num_workers = num_workers or _get_default_num_workers()
+
         _assert_dir_has_index_file(
-            _output_dir, mode=mode, use_checkpoint=use_checkpoint, storage_options=storage_options
+            _output_dir,
+            mode=mode,
+            use_checkpoint=use_checkpoint,
+            storage_options=storage_options,
+            num_workers=num_workers,
         )
 
         if not isinstance(inputs, StreamingDataLoader):
@@ -469,10 +478,6 @@ def optimize(
         else:
             resolved_dir = Dir()
 
-        if num_workers == 0:
-            num_workers = 1
-
-        num_workers = num_workers or _get_default_num_workers()
         state_dict = dict.fromkeys(range(num_workers), 0)
 
         existing_index_file_content = (
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 97f049b..b8a4b40 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -256,11 +256,25 @@ def _assert_dir_is_empty(
         )
 
 
+def _is_left_to_this_node(chunk_filename: str, num_workers: int) -> bool:
+    """Whether this node should delete the chunk.
+
+    Each node only deletes the chunks of its own workers, as the other nodes might have already started to write theirs.
+
+    """
+    num_nodes = int(os.getenv("DATA_OPTIMIZER_NUM_NODES", 1))
+    rank = re.match(r"chunk-(\d+)-", chunk_filename)
+    if num_nodes <= 1 or rank is None:
+        return True
+    return min(int(rank.group(1)) // num_workers, num_nodes - 1) == int(os.getenv("DATA_OPTIMIZER_NODE_RANK", 0))
+
+
 def _assert_dir_has_index_file(
     output_dir: Dir,
     mode: Optional[Literal["append", "overwrite"]] = None,
     use_checkpoint: bool = False,
     storage_options: Dict[str, Any] = {},
+    num_workers: int = 1,
 ) -> None:
     if mode is not None and mode not in ["append", "overwrite"]:
         raise ValueError(f"The provided `mode` should be either `append` or `overwrite`. Found {mode}.")
@@ -293,7 +307,7 @@ def _assert_dir_has_index_file(
 
             if mode == "overwrite" or (mode is None and not use_checkpoint):
                 for file in os.listdir(output_dir.path):
-                    if file.endswith(".bin"):
+                    if file.endswith(".bin") and _is_left_to_this_node(file, num_workers):
                         os.remove(os.path.join(output_dir.path, file))
 
                 # delete checkpoints
-- 
2.43.0


From 7d9de17852f4442891e9a0bf7a3bd214458f1d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 36/66] fix: a node without outputs, or slower than the merging
 one, broke the multi-node merge into a local folder

---
 src/litdata/processing/data_processor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 250f650..e5d55eb 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -97,6 +97,11 @@ def _get_cache_data_dir(name: Optional[str] = None) -> str:
 
 def _wait_for_file_to_exist(remote_filepath: str, sleep_time: int = 2, storage_options: Dict[str, Any] = {}) -> Any:
     """Wait until the file exists."""
+    if parse.urlparse(remote_filepath).scheme not in _SUPPORTED_PROVIDERS:
+        while not os.path.exists(remote_filepath):
+            sleep(sleep_time)
+        return
+
     file_exists = False
     fs_provider = _get_fs_provider(remote_filepath, storage_options)
     while not file_exists:
@@ -683,7 +688,7 @@ class BaseWorker:
                     and isinstance(self.input_dir.path, str)
                     and not self.input_dir.path.startswith("/teamspace/studios/this_studio")
                 ):
-                    path = path.replace(self.input_dir.path, self.cache_data_dir)
+                    path = _move_path(path, self.input_dir.path, self.cache_data_dir)
                 flattened_item[index] = path
 
             self.paths.append(paths)
@@ -957,8 +962,12 @@ class DataChunkRecipe(DataRecipe):
                 local_filepath,
                 os.path.join(output_dir.url, os.path.basename(local_filepath)),
             )
-        elif output_dir.path and os.path.isdir(output_dir.path):
-            shutil.copyfile(local_filepath, os.path.join(output_dir.path, os.path.basename(local_filepath)))
+        elif output_dir.path:
+            # Note: There might be no output, and the other nodes might be waiting for the complete file.
+            os.makedirs(output_dir.path, exist_ok=True)
+            output_filepath = os.path.join(output_dir.path, os.path.basename(local_filepath))
+            shutil.copyfile(local_filepath, f"{output_filepath}.{node_rank}.tmp")
+            os.replace(f"{output_filepath}.{node_rank}.tmp", output_filepath)
 
         if num_nodes == 1 or node_rank is None:
             return
-- 
2.43.0


From bc0d07fc1b4e132c615e985991462c599cad36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 37/66] fix: optimize and map deleted input files out of the
 input directory and failed on files shared by several inputs

---
 src/litdata/processing/data_processor.py | 47 ++++++++++++++++++++----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index e5d55eb..2a8e5be 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -23,6 +23,7 @@ import sys
 import tempfile
 import traceback
 from abc import abstractmethod
+from collections import Counter
 from contextlib import suppress
 from dataclasses import dataclass
 from multiprocessing import Process, Queue
@@ -121,6 +122,18 @@ def _wait_for_disk_usage_higher_than_threshold(input_dir: str, threshold_in_gb:
     return
 
 
+def _move_path(path: str, from_dir: str, to_dir: str) -> str:
+    """Returns the path within `to_dir` of a file within `from_dir`. The other paths are returned unchanged.
+
+    >>> _move_path("/data/a/data/x.txt", "/data", "/cache")
+    '/cache/a/data/x.txt'
+    >>> _move_path("/database/x.txt", "/data", "/cache")
+    '/database/x.txt'
+    """
+    from_dir = from_dir.rstrip("/")
+    return to_dir.rstrip("/") + path[len(from_dir) :] if path.startswith(f"{from_dir}/") else path
+
+
 #
 # `_download_data_target` function accepts two queues:
 # 1. `queue_in`: A queue that receives the (index, paths) from where the data is to be downloaded.
@@ -146,7 +159,7 @@ def _download_data_target(
 
         # 5. Check whether all the files are already downloaded
         if input_dir.path and all(
-            os.path.exists(p.replace(input_dir.path, cache_dir) if input_dir else p) for p in paths
+            os.path.exists(_move_path(p, input_dir.path, cache_dir) if input_dir else p) for p in paths
         ):
             queue_out.put(index)
             continue
@@ -159,10 +172,14 @@ def _download_data_target(
             # 7. Download all the required paths to unblock the current index
             for path in paths:
                 if input_dir.path:
-                    local_path = path.replace(input_dir.path, cache_dir)
+                    local_path = _move_path(path, input_dir.path, cache_dir)
+
+                    if local_path == path:
+                        # The file isn't within the input directory, so it is read from where it is.
+                        continue
 
                 if input_dir.url and input_dir.path:
-                    path = path.replace(input_dir.path, input_dir.url)
+                    path = _move_path(path, input_dir.path, input_dir.url)
 
                 obj = parse.urlparse(path)
 
@@ -201,7 +218,7 @@ def _remove_target(input_dir: Dir, cache_dir: str, queue_in: Queue) -> None:
         for path in paths:
             if input_dir:
                 if not path.startswith(cache_dir) and input_dir.path is not None:
-                    path = path.replace(input_dir.path, cache_dir)
+                    path = _move_path(path, input_dir.path, cache_dir)
 
                 if os.path.exists(path):
                     os.remove(path)
@@ -494,6 +511,7 @@ class BaseWorker:
         self.remove = remove
         self.reader = reader
         self.paths: List[List[str]] = []
+        self._path_usages: Optional[Counter] = None
         self.remover: Optional[Process] = None
         self.downloaders: List[Process] = []
         self.uploaders: List[Process] = []
@@ -598,7 +616,7 @@ class BaseWorker:
                 self._last_time = time()
 
             if self.remove and self.input_dir.path is not None and self.reader is None:
-                self.remove_queue.put(self.paths[index])
+                self.remove_queue.put(self._get_removable_paths(index))
 
             try:
                 self.stop_queue.get(timeout=0.0001)
@@ -606,13 +624,27 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_removable_paths(self, index: int) -> List[str]:
+        """Return the downloaded files of the item that no other item still needs."""
+        if self._path_usages is None:
+            self._path_usages = Counter(path for paths in self.paths for path in paths)
+
+        self._path_usages.subtract(self.paths[index])
+        return [
+            path
+            for path in dict.fromkeys(self.paths[index])
+            # Note: The files out of the input directory weren't copied: these are the ones of the user.
+            if self._path_usages[path] == 0 and path.startswith(f"{str(self.input_dir.path).rstrip('/')}/")
+        ]
+
     def _set_environ_variables(self) -> None:
         # set the optimizer global rank and world_size
         os.environ["DATA_OPTIMIZER_GLOBAL_RANK"] = str(_get_node_rank() * self.num_workers + self.worker_index)
         os.environ["DATA_OPTIMIZER_NUM_WORKERS"] = str(self.num_workers)
 
     def _create_cache(self) -> None:
-        self.cache_data_dir = _get_cache_data_dir()
+        # Note: The workers don't share their downloaded files, so none removes a file another one still needs.
+        self.cache_data_dir = os.path.join(_get_cache_data_dir(), str(self.worker_index))
         self.cache_chunks_dir = _get_cache_dir()
 
         if isinstance(self.data_recipe, MapRecipe):
@@ -986,7 +1018,8 @@ class DataChunkRecipe(DataRecipe):
                     _wait_for_file_to_exist(remote_filepath, storage_options=self.storage_options)
                     fs_provider = _get_fs_provider(remote_filepath, self.storage_options)
                     fs_provider.download_file(remote_filepath, node_index_filepath)
-                elif output_dir.path and os.path.isdir(output_dir.path):
+                elif output_dir.path:
+                    _wait_for_file_to_exist(remote_filepath)
                     shutil.copyfile(remote_filepath, node_index_filepath)
 
             merge_cache = Cache(cache_dir, chunk_bytes=1)
-- 
2.43.0


From dd994ab777a9e0204752123b0fe3b32a80f8ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 38/66] fix: optimize and map reported success although uploads
 had failed

---
 src/litdata/processing/data_processor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 2a8e5be..eaefa42 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -254,6 +254,8 @@ def _upload_fn(
     if obj.scheme in _SUPPORTED_PROVIDERS:
         fs_provider = _get_fs_provider(output_dir.url, storage_options)
 
+    error: Optional[Exception] = None
+
     while True:
         data: Optional[Union[str, Tuple[str, str]]] = upload_queue.get()
 
@@ -266,6 +268,8 @@ def _upload_fn(
 
         # Terminate the process if we received a termination signal
         if local_filepath is None:
+            if error is not None:
+                raise RuntimeError("Some files couldn't be uploaded.") from error
             return
 
         # Upload the file to the target cloud storage
@@ -291,6 +295,8 @@ def _upload_fn(
                 )
             except Exception as e:
                 print(e)
+                error = e
+                continue
 
         elif output_dir.path:
             output_filepath = output_dir.path
@@ -593,6 +599,9 @@ class BaseWorker:
                         for uploader in self.uploaders:
                             uploader.join()
 
+                        if any(uploader.exitcode != 0 for uploader in self.uploaders):
+                            raise RuntimeError(f"Failed to upload some files to {self.output_dir}.")
+
                     if self.remove:
                         assert self.remover
                         self.remove_queue.put(None)
-- 
2.43.0


From 93227384c21273d5bb6b12a2eb6a1587cc329677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 39/66] fix: optimize and map waited for ever for a worker that
 was killed or exited

---
 src/litdata/processing/data_processor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index eaefa42..7b596a5 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -544,7 +544,7 @@ class BaseWorker:
             self._setup()
             self._loop()
             self._terminate()
-        except Exception:
+        except BaseException:
             traceback_format = traceback.format_exc()
             self.error_queue.put(traceback_format)
         print(f"Worker {str(_get_node_rank() * self.num_workers + self.worker_index)} is done.")
@@ -1257,6 +1257,13 @@ class DataProcessor:
         total_num_items = len(user_items)
 
         while True:
+            # Note: A worker reports its progress or its error before it ends, unless it has been killed.
+            killed_workers = [
+                worker_idx
+                for worker_idx, worker in enumerate(self.workers)
+                if not worker.is_alive()
+                and self.workers_tracker.get(worker_idx, 0) != len(workers_user_items[worker_idx])
+            ]
             try:
                 error = self.error_queue.get(timeout=0.001)
                 self._exit_on_error(error)
@@ -1265,6 +1272,8 @@ class DataProcessor:
                 try:
                     index, counter = self.progress_queue.get(timeout=0.001)
                 except Empty:
+                    if killed_workers:
+                        self._exit_on_error(f"The workers {killed_workers} ended unexpectedly")
                     continue
                 self.workers_tracker[index] = counter
                 new_total = sum(self.workers_tracker.values())
-- 
2.43.0


From 6a7fef988d2e17bf3716c48ca5f63cb89c497576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 40/66] fix: with several downloaders the order was lost and
 partial files were read, a failed download was waited for for ever

---
 src/litdata/processing/data_processor.py | 35 +++++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 7b596a5..dda62a4 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -30,7 +30,7 @@ from multiprocessing import Process, Queue
 from pathlib import Path
 from queue import Empty
 from time import sleep, time
-from typing import Any, Dict, List, Optional, Tuple, TypeVar, Union
+from typing import Any, Dict, List, Optional, Set, Tuple, TypeVar, Union
 from urllib import parse
 
 import numpy as np
@@ -188,12 +188,15 @@ def _download_data_target(
                     os.makedirs(dirpath, exist_ok=True)
                     if fs_provider is None:
                         fs_provider = _get_fs_provider(input_dir.url, storage_options)
-                    fs_provider.download_file(path, local_path)
+                    fs_provider.download_file(path, f"{local_path}.{os.getpid()}.tmp")
+                    # Note: The other downloaders should only find complete files.
+                    os.replace(f"{local_path}.{os.getpid()}.tmp", local_path)
 
                 elif os.path.isfile(path):
                     if not path.startswith("/teamspace/studios/this_studio"):
                         os.makedirs(os.path.dirname(local_path), exist_ok=True)
-                        shutil.copyfile(path, local_path)
+                        shutil.copyfile(path, f"{local_path}.{os.getpid()}.tmp")
+                        os.replace(f"{local_path}.{os.getpid()}.tmp", local_path)
                 else:
                     raise ValueError(f"The provided {input_dir.url} isn't supported.")
 
@@ -518,6 +521,8 @@ class BaseWorker:
         self.reader = reader
         self.paths: List[List[str]] = []
         self._path_usages: Optional[Counter] = None
+        self._next_index = 0
+        self._ready_indexes: Set[int] = set()
         self.remover: Optional[Process] = None
         self.downloaders: List[Process] = []
         self.uploaders: List[Process] = []
@@ -580,7 +585,7 @@ class BaseWorker:
         num_downloader_finished = 0
 
         while True:
-            index = self.ready_to_process_queue.get()
+            index = self._get_next_index()
 
             if index is None:
                 num_downloader_finished += 1
@@ -633,6 +638,28 @@ class BaseWorker:
             except Empty:
                 pass
 
+    def _get_next_index(self) -> Optional[int]:
+        """Return the index of the next item which is ready, or None when a downloader has terminated."""
+        if isinstance(self.ready_to_process_queue, FakeQueue):
+            return self.ready_to_process_queue.get()
+
+        # Note: The items are processed in order, whichever downloader is the fastest.
+        while self._next_index not in self._ready_indexes:
+            try:
+                index = self.ready_to_process_queue.get(timeout=1)
+            except Empty:
+                if any(downloader.exitcode not in (None, 0) for downloader in self.downloaders):
+                    raise RuntimeError(f"Failed to download some files from {self.input_dir}.")
+                continue
+
+            if index is None:
+                return None
+            self._ready_indexes.add(index)
+
+        self._ready_indexes.remove(self._next_index)
+        self._next_index += 1
+        return self._next_index - 1
+
     def _get_removable_paths(self, index: int) -> List[str]:
         """Return the downloaded files of the item that no other item still needs."""
         if self._path_usages is None:
-- 
2.43.0


From 2f1b50314c7b2fa5b6e51622e9391512f72a8707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 41/66] fix: appending after a failed read of the index
 replaced the dataset

---
 src/litdata/processing/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/litdata/processing/utilities.py b/src/litdata/processing/utilities.py
index 8788fd6..c95e8eb 100644
--- a/src/litdata/processing/utilities.py
+++ b/src/litdata/processing/utilities.py
@@ -238,6 +238,9 @@ def read_index_file_content(output_dir: Dir, storage_options: Dict[str, Any] = {
             os.remove(temp_file_name)
             return data
         except Exception:
+            # Note: An existing dataset shouldn't be mistaken for a missing one.
+            if fs_provider.exists(os.path.join(prefix, _INDEX_FILENAME)):
+                raise
             return None
 
 
-- 
2.43.0


From 8cfe8396afe3b01d11c38f56513806b20a75a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 42/66] fix: appending to a dataset without samples was refused
 when the settings differ

---
 src/litdata/streaming/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 8f69c5e..4de5405 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -499,7 +499,7 @@ class BinaryWriter:
 
         if existing_index is not None:
             chunks_info.extend(existing_index["chunks"])
-            config = existing_index["config"]
+            config = existing_index["config"] if existing_index["chunks"] else None
 
         for index_filename in sorted(index_files, key=_index_file_sort_key):
             chunk_path = os.path.join(self._cache_dir, index_filename)
-- 
2.43.0


From 59dbb167bc5ff616cc03983796fbc8116552407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 43/66] fix: appending with several nodes overwrote chunks and
 listed the existing chunks several times

---
 src/litdata/processing/functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 68d4dbe..1d6451f 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -30,7 +30,7 @@ import torch
 from litdata import __version__
 from litdata.constants import _INDEX_FILENAME, _IS_IN_STUDIO, _SUPPORTED_PROVIDERS
 from litdata.helpers import _check_version_and_prompt_upgrade
-from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe
+from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank
 from litdata.processing.readers import BaseReader
 from litdata.processing.utilities import (
     _get_work_dir,
@@ -487,8 +487,9 @@ def optimize(
         if existing_index_file_content is not None:
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
+                rank -= _get_node_rank() * num_workers  # the rank among the workers of this node
 
-                if rank < num_workers and state_dict[rank] <= index:
+                if 0 <= rank < num_workers and state_dict[rank] <= index:
                     state_dict[rank] = index + 1  # +1 because we want to start from the next index
 
         data_processor = DataProcessor(
@@ -516,7 +517,8 @@ def optimize(
                     chunk_bytes=chunk_bytes,
                     compression=compression,
                     encryption=encryption,
-                    existing_index=existing_index_file_content,
+                    # Note: The indexes of the nodes are merged, so only one of them holds the existing chunks.
+                    existing_index=existing_index_file_content if _get_node_rank() == 0 else None,
                     storage_options=storage_options,
                 )
             )
-- 
2.43.0


From c7c57fb3e8cfb9011c3e8ee83efbfe987df0d765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:53 +0000
Subject: [PATCH 44/66] fix: files left by an earlier run were taken for new
 data, overwriting deleted unrelated .bin files

---
 src/litdata/processing/functions.py | 10 +++++++++-
 src/litdata/streaming/resolver.py   | 31 ++++++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 1d6451f..5b97aec 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -30,7 +30,7 @@ import torch
 from litdata import __version__
 from litdata.constants import _INDEX_FILENAME, _IS_IN_STUDIO, _SUPPORTED_PROVIDERS
 from litdata.helpers import _check_version_and_prompt_upgrade
-from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank
+from litdata.processing.data_processor import DataChunkRecipe, DataProcessor, MapRecipe, _get_node_rank, _get_num_nodes
 from litdata.processing.readers import BaseReader
 from litdata.processing.utilities import (
     _get_work_dir,
@@ -46,6 +46,8 @@ from litdata.streaming.resolver import (
     _assert_dir_has_index_file,
     _assert_dir_is_empty,
     _execute,
+    _remove_node_index_file,
+    _remove_unlisted_chunks,
     _resolve_dir,
 )
 from litdata.utilities._pytree import tree_flatten
@@ -470,6 +472,9 @@ def optimize(
             num_workers=num_workers,
         )
 
+        if _get_num_nodes() > 1:
+            _remove_node_index_file(_output_dir, _get_node_rank(), storage_options)
+
         if not isinstance(inputs, StreamingDataLoader):
             resolved_dir = _resolve_dir(input_dir or _get_input_dir(inputs))
 
@@ -485,6 +490,9 @@ def optimize(
         )
 
         if existing_index_file_content is not None:
+            if not use_checkpoint:
+                _remove_unlisted_chunks(_output_dir, existing_index_file_content, num_workers)
+
             for chunk in existing_index_file_content["chunks"]:
                 rank, index = extract_rank_and_index_from_filename(chunk["filename"])
                 rank -= _get_node_rank() * num_workers  # the rank among the workers of this node
diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index b8a4b40..45aa47e 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -269,6 +269,35 @@ def _is_left_to_this_node(chunk_filename: str, num_workers: int) -> bool:
     return min(int(rank.group(1)) // num_workers, num_nodes - 1) == int(os.getenv("DATA_OPTIMIZER_NODE_RANK", 0))
 
 
+def _remove_node_index_file(output_dir: Dir, node_rank: int, storage_options: Dict[str, Any] = {}) -> None:
+    """Remove the index of this node left by a previous run, so the merging node waits for the new one."""
+    if output_dir.url is None:
+        with suppress(FileNotFoundError):
+            os.remove(os.path.join(str(output_dir.path), f"{node_rank}-index.json"))
+        return
+
+    fs_provider = _get_fs_provider(output_dir.url, storage_options)
+    index_path = os.path.join(output_dir.url, f"{node_rank}-index.json")
+    if fs_provider.exists(index_path):
+        fs_provider.delete_file_or_directory(index_path)
+
+
+def _remove_unlisted_chunks(output_dir: Dir, index: Dict[str, Any], num_workers: int) -> None:
+    """Remove the chunks left in a local dataset by a previous run that failed.
+
+    A reader would mistake them for the decompressed chunks of the same name.
+
+    """
+    if output_dir.url is not None:
+        return
+
+    filenames = {chunk["filename"] for chunk in index["chunks"]}
+    for file in os.listdir(str(output_dir.path)):
+        if file.startswith("chunk-") and file.endswith(".bin") and file not in filenames:
+            if _is_left_to_this_node(file, num_workers):
+                os.remove(os.path.join(str(output_dir.path), file))
+
+
 def _assert_dir_has_index_file(
     output_dir: Dir,
     mode: Optional[Literal["append", "overwrite"]] = None,
@@ -307,7 +336,7 @@ def _assert_dir_has_index_file(
 
             if mode == "overwrite" or (mode is None and not use_checkpoint):
                 for file in os.listdir(output_dir.path):
-                    if file.endswith(".bin") and _is_left_to_this_node(file, num_workers):
+                    if file.startswith("chunk-") and file.endswith(".bin") and _is_left_to_this_node(file, num_workers):
                         os.remove(os.path.join(output_dir.path, file))
 
                 # delete checkpoints
-- 
2.43.0


From 9249f4b19ac206cb797afddefaaad0f7ba0c07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 45/66] fix: output folders whose path contains .checkpoints
 were given mangled file names

---
 src/litdata/processing/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/processing/utilities.py b/src/litdata/processing/utilities.py
index c95e8eb..97fdcad 100644
--- a/src/litdata/processing/utilities.py
+++ b/src/litdata/processing/utilities.py
@@ -270,7 +270,7 @@ def remove_uuid_from_filename(filepath: str) -> str:
         -> `checkpoint-0.json`
 
     """
-    if not filepath.__contains__(".checkpoints"):
+    if os.path.basename(os.path.dirname(filepath)) != ".checkpoints":
         return filepath
 
     # uuid is of 32 characters, '.json' is 5 characters and '-' is 1 character
-- 
2.43.0


From d320ba17a970e4469e0dd627fbb8d403323111d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 46/66] fix: resuming an interrupted optimize lost or repeated
 samples, or was not possible any more

---
 src/litdata/processing/data_processor.py | 195 ++++++++++++++---------
 src/litdata/streaming/cache.py           |   6 +-
 src/litdata/streaming/writer.py          |  37 ++++-
 3 files changed, 153 insertions(+), 85 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index dda62a4..4340fa4 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -17,6 +17,7 @@ import logging
 import multiprocessing
 import os
 import random
+import re
 import shutil
 import signal
 import sys
@@ -279,18 +280,25 @@ def _upload_fn(
         if not local_filepath.startswith(cache_dir):
             local_filepath = os.path.join(cache_dir, local_filepath)
 
+        is_checkpoint = tmpdir is None and os.path.basename(os.path.dirname(local_filepath)) == ".checkpoints"
+
+        # The chunks listed by this checkpoint might be missing.
+        if is_checkpoint and error is not None:
+            continue
+
         if obj.scheme in _SUPPORTED_PROVIDERS:
             try:
                 output_filepath = output_dir.url
 
-                if local_filepath.__contains__(".checkpoints"):
+                if is_checkpoint:
                     output_filepath = os.path.join(output_filepath, ".checkpoints")
                 if tmpdir is None:
                     output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
                 else:
                     output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
 
-                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+                if is_checkpoint:
+                    output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
 
                 fs_provider.upload_file(
                     local_filepath,
@@ -304,7 +312,7 @@ def _upload_fn(
         elif output_dir.path:
             output_filepath = output_dir.path
 
-            if local_filepath.__contains__(".checkpoints"):
+            if is_checkpoint:
                 output_filepath = os.path.join(output_filepath, ".checkpoints")
 
             if tmpdir is None:
@@ -312,10 +320,14 @@ def _upload_fn(
             else:
                 output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
 
-            output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
-
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
-            shutil.copy(local_filepath, output_filepath)
+            if is_checkpoint:
+                # replace the previous checkpoint at once
+                output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
+                shutil.copy(local_filepath, f"{output_filepath}.tmp")
+                os.replace(f"{output_filepath}.tmp", output_filepath)
+            else:
+                shutil.copy(local_filepath, output_filepath)
         else:
             raise ValueError(f"The provided {output_dir.path} isn't supported.")
 
@@ -505,6 +517,7 @@ class BaseWorker:
         checkpoint_next_index: Optional[int] = None,
         item_loader: Optional[BaseItemLoader] = None,
         storage_options: Dict[str, Any] = {},
+        checkpoint_config: Optional[Dict[str, Any]] = None,
     ) -> None:
         """The BaseWorker is responsible to process the user data."""
         self.worker_index = worker_index
@@ -542,6 +555,8 @@ class BaseWorker:
         self.use_checkpoint: bool = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[Dict[str, Any]]] = checkpoint_chunks_info
         self.checkpoint_next_index: Optional[int] = checkpoint_next_index
+        self.checkpoint_config: Optional[Dict[str, Any]] = checkpoint_config
+        self._sample_input_indexes: List[int] = []  # the index of the input of each sample
         self.storage_options = storage_options
 
     def run(self) -> None:
@@ -707,7 +722,7 @@ class BaseWorker:
             assert isinstance(self.checkpoint_next_index, int)
             assert isinstance(self.checkpoint_chunks_info, list)
 
-            self.cache._writer._chunks_info = self.checkpoint_chunks_info
+            self.cache._writer.load_checkpoint(list(self.checkpoint_chunks_info), self.checkpoint_config)
             self.cache._writer._chunk_index += self.checkpoint_next_index
 
     def _try_upload(self, data: Optional[Union[str, Tuple[str, str]]]) -> None:
@@ -719,7 +734,23 @@ class BaseWorker:
         else:
             assert os.path.exists(data[-1]), data
 
-        self.to_upload_queues[self._counter % self.num_uploaders].put(data)
+        self._get_upload_queue(self._counter).put(data)
+
+    def _get_upload_queue(self, index: int) -> Queue:
+        # Note: A checkpoint should only be uploaded once the chunks it lists are.
+        return self.to_upload_queues[0 if self.use_checkpoint else index % self.num_uploaders]
+
+    def _save_checkpoint(self) -> None:
+        resumed_chunks = self.checkpoint_chunks_info or []
+        chunks = self.cache._writer._chunks_info[len(resumed_chunks) :]
+        num_samples = sum(chunk["chunk_size"] for chunk in chunks)
+
+        # Note: Some inputs might not have any output.
+        done_till_index = self.checkpoint_next_index or 0
+        if num_samples > 0:
+            done_till_index += self._sample_input_indexes[num_samples - 1] + 1
+
+        self._try_upload(self.cache.save_checkpoint(done_till_index=done_till_index))
 
     def _collect_paths(self) -> None:
         if self.no_downloaders:
@@ -843,8 +874,8 @@ class BaseWorker:
                 self._try_upload(chunk_filepath)
                 self._index_counter += 1
                 if self.use_checkpoint:
-                    checkpoint_filepath = self.cache.save_checkpoint()
-                    self._try_upload(checkpoint_filepath)
+                    self._sample_input_indexes.append(index)
+                    self._save_checkpoint()
         except Exception as e:
             raise RuntimeError(f"Failed processing {self.items[index]=}; {index=}") from e
 
@@ -858,11 +889,10 @@ class BaseWorker:
         if chunks_filepaths and len(self.to_upload_queues):
             for i, chunk_filepath in enumerate(chunks_filepaths):
                 if isinstance(chunk_filepath, str) and os.path.exists(chunk_filepath):
-                    self.to_upload_queues[i % self.num_uploaders].put(chunk_filepath)
+                    self._get_upload_queue(i).put(chunk_filepath)
 
         if self.use_checkpoint and not self.data_recipe.is_generator:
-            checkpoint_filepath = self.cache.save_checkpoint()
-            self._try_upload(checkpoint_filepath)
+            self._save_checkpoint()
 
     def _handle_data_transform_recipe(self, index: int) -> None:
         """Used by map fn to run the user provided fn on each item of the input data.
@@ -1154,6 +1184,8 @@ class DataProcessor:
         self.use_checkpoint = use_checkpoint
         self.checkpoint_chunks_info: Optional[List[List[Dict[str, Any]]]] = None
         self.checkpoint_next_index: Optional[List[int]] = None
+        self.checkpoint_configs: Optional[List[Optional[Dict[str, Any]]]] = None
+        self.checkpoint_filenames: Set[str] = set()
         self.item_loader = item_loader
         self.storage_options = storage_options
 
@@ -1242,6 +1274,13 @@ class DataProcessor:
                 workers_user_items = [w[self.checkpoint_next_index[i] :] for i, w in enumerate(workers_user_items)]
                 print("Checkpoints loaded successfully.")
 
+            # The interrupted run might already have added its chunks to the existing ones.
+            existing_index = getattr(data_recipe, "existing_index", None)
+            if existing_index:
+                existing_index["chunks"] = [
+                    chunk for chunk in existing_index["chunks"] if chunk["filename"] not in self.checkpoint_filenames
+                ]
+
         if self.fast_dev_run:
             items_to_keep = self.fast_dev_run if isinstance(self.fast_dev_run, int) else _DEFAULT_FAST_DEV_RUN_ITEMS
             workers_user_items = [w[:items_to_keep] for w in workers_user_items]
@@ -1353,7 +1392,8 @@ class DataProcessor:
             )
 
         print("Finished data processing!")
-        if self.use_checkpoint and isinstance(data_recipe, DataChunkRecipe):
+        # Note: The last node awaits all the other ones, so only then the run is complete.
+        if self.use_checkpoint and isinstance(data_recipe, DataChunkRecipe) and num_nodes == node_rank + 1:
             # clean up checkpoints
             self._cleanup_checkpoints()
 
@@ -1390,6 +1430,7 @@ class DataProcessor:
                 self.checkpoint_next_index[worker_idx] if self.checkpoint_next_index else None,
                 self.item_loader,
                 self.storage_options,
+                self.checkpoint_configs[worker_idx] if self.checkpoint_configs else None,
             )
             worker.start()
             workers.append(worker)
@@ -1434,6 +1475,9 @@ class DataProcessor:
 
             if os.path.exists(self.output_dir.path):
                 # clear the checkpoints
+                # Note: Without the config, the checkpoints which aren't removed yet are ignored.
+                with suppress(FileNotFoundError):
+                    os.remove(os.path.join(self.output_dir.path, ".checkpoints", self._get_checkpoint_config_filename()))
                 with suppress(FileNotFoundError):
                     shutil.rmtree(os.path.join(self.output_dir.path, ".checkpoints"))
 
@@ -1447,8 +1491,15 @@ class DataProcessor:
         checkpoint_prefix = os.path.join(prefix, ".checkpoints/")
 
         fs_provider = _get_fs_provider(self.output_dir.url, self.storage_options)
+        config_path = os.path.join(checkpoint_prefix, self._get_checkpoint_config_filename())
+        if fs_provider.exists(config_path):
+            fs_provider.delete_file_or_directory(config_path)
         fs_provider.delete_file_or_directory(checkpoint_prefix)
 
+    def _get_checkpoint_config_filename(self) -> str:
+        # Note: Each node has its own inputs.
+        return f"config-{_get_node_rank()}.json" if _get_num_nodes() > 1 else "config.json"
+
     def _save_current_config(self, workers_user_items: List[List[Any]]) -> None:
         if not self.use_checkpoint:
             return
@@ -1458,16 +1509,20 @@ class DataProcessor:
             "num_workers": self.num_workers,
             "workers_user_items": workers_user_items,
         }
+        filename = self._get_checkpoint_config_filename()
 
         try:
+            content = json.dumps(config)
+
             if self.output_dir.url is None:
                 assert self.output_dir.path
 
-                if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints")):
-                    os.makedirs(os.path.join(self.output_dir.path, ".checkpoints"))
+                os.makedirs(os.path.join(self.output_dir.path, ".checkpoints"), exist_ok=True)
 
-                with open(os.path.join(self.output_dir.path, ".checkpoints", "config.json"), "w") as f:
-                    json.dump(config, f)
+                filepath = os.path.join(self.output_dir.path, ".checkpoints", filename)
+                with open(f"{filepath}.tmp", "w") as f:
+                    f.write(content)
+                os.replace(f"{filepath}.tmp", filepath)
 
                 return
 
@@ -1482,12 +1537,12 @@ class DataProcessor:
 
             # write config.json file to temp directory and upload it to the cloud provider
             with tempfile.TemporaryDirectory() as temp_dir:
-                temp_file_name = os.path.join(temp_dir, "config.json")
+                temp_file_name = os.path.join(temp_dir, filename)
                 with open(temp_file_name, "w") as f:
-                    json.dump(config, f)
+                    f.write(content)
                 fs_provider.upload_file(
                     temp_file_name,
-                    os.path.join(prefix, "config.json"),
+                    os.path.join(prefix, filename),
                 )
         except Exception as e:
             print(e)
@@ -1496,44 +1551,14 @@ class DataProcessor:
         if not self.use_checkpoint:
             return
 
-        default_chunk_info: List[Dict[str, Any]] = []
-
-        self.checkpoint_chunks_info = [default_chunk_info for _ in range(self.num_workers)]
+        self.checkpoint_chunks_info = [[] for _ in range(self.num_workers)]
         self.checkpoint_next_index = [0 for _ in range(self.num_workers)]
+        self.checkpoint_configs = [None for _ in range(self.num_workers)]
+        self.checkpoint_filenames = set()
 
         if self.output_dir.url is None:
             assert self.output_dir.path
-
-            if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints")):
-                return
-
-            if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints", "config.json")):
-                # if the config.json file doesn't exist, we don't have any checkpoint saved
-                return
-
-            with open(os.path.join(self.output_dir.path, ".checkpoints", "config.json")) as f:
-                config = json.load(f)
-
-            if config["num_workers"] != self.num_workers:
-                raise ValueError(
-                    "The number of workers in the checkpoints doesn't match the current number of workers."
-                )
-
-            if config["workers_user_items"] != workers_user_items:
-                raise ValueError("Existing checkpoints are not compatible with the current configuration.")
-
-            checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
-
-            for i, checkpoint_file_name in enumerate(checkpoint_file_names):
-                if not os.path.exists(os.path.join(self.output_dir.path, ".checkpoints", checkpoint_file_name)):
-                    # if the checkpoint file doesn't exist, we don't have any checkpoint saved for this worker
-                    continue
-
-                with open(os.path.join(self.output_dir.path, ".checkpoints", checkpoint_file_name)) as f:
-                    checkpoint = json.load(f)
-
-                self.checkpoint_chunks_info[i] = checkpoint["chunks"]
-                self.checkpoint_next_index[i] = checkpoint["done_till_index"]
+            self._read_checkpoints(os.path.join(self.output_dir.path, ".checkpoints"), workers_user_items)
             return
 
         obj = parse.urlparse(self.output_dir.url)
@@ -1543,42 +1568,54 @@ class DataProcessor:
 
         prefix = self.output_dir.url.rstrip("/") + "/" + ".checkpoints/"
 
-        # Delete all the files (including the index file in overwrite mode)
-
         # download all the checkpoint files in tempdir and read them
         with tempfile.TemporaryDirectory() as temp_dir:
             fs_provider = _get_fs_provider(self.output_dir.url, self.storage_options)
             saved_file_dir = fs_provider.download_directory(prefix, temp_dir)
+            self._read_checkpoints(saved_file_dir, workers_user_items)
 
-            if not os.path.exists(os.path.join(saved_file_dir, "config.json")):
-                # if the config.json file doesn't exist, we don't have any checkpoint saved
-                return
+    def _read_checkpoints(self, checkpoint_dir: str, workers_user_items: List[List[Any]]) -> None:
+        assert self.checkpoint_chunks_info is not None
+        assert self.checkpoint_next_index is not None
+        assert self.checkpoint_configs is not None
 
-            # read the config.json file
-            with open(os.path.join(saved_file_dir, "config.json")) as f:
-                config = json.load(f)
+        config_filepath = os.path.join(checkpoint_dir, self._get_checkpoint_config_filename())
+        if not os.path.exists(config_filepath):
+            # if the config.json file doesn't exist, we don't have any checkpoint saved
+            return
 
-            if config["num_workers"] != self.num_workers:
-                raise ValueError(
-                    "The number of workers in the checkpoints doesn't match the current number of workers."
-                )
+        with open(config_filepath) as f:
+            config = json.load(f)
 
-            if config["workers_user_items"] != workers_user_items:
-                raise ValueError("Existing checkpoints are not compatible with the current configuration.")
+        if config["num_workers"] != self.num_workers:
+            raise ValueError("The number of workers in the checkpoints doesn't match the current number of workers.")
 
-            checkpoint_file_names = [f"checkpoint-{worker_idx}.json" for worker_idx in range(self.num_workers)]
+        # Note: The saved items went through json, which e.g. turns tuples into lists.
+        try:
+            current_items = json.loads(json.dumps(workers_user_items))
+        except (TypeError, ValueError):
+            current_items = None
 
-            for i, checkpoint_file_name in enumerate(checkpoint_file_names):
-                if not os.path.exists(os.path.join(saved_file_dir, checkpoint_file_name)):
-                    # if the checkpoint file doesn't exist, we don't have any checkpoint saved for this worker
-                    continue
+        if config["workers_user_items"] != current_items:
+            raise ValueError("Existing checkpoints are not compatible with the current configuration.")
 
-                with open(os.path.join(saved_file_dir, checkpoint_file_name)) as f:
-                    checkpoint = json.load(f)
+        first_rank = _get_node_rank() * self.num_workers
 
-                self.checkpoint_chunks_info[i] = checkpoint["chunks"]
-                self.checkpoint_next_index[i] = checkpoint["done_till_index"]
-        return
+        for filename in os.listdir(checkpoint_dir):
+            match = re.fullmatch(r"checkpoint-(\d+)\.json", filename)
+            if match is None:
+                continue
+
+            with open(os.path.join(checkpoint_dir, filename)) as f:
+                checkpoint = json.load(f)
+
+            self.checkpoint_filenames.update(chunk["filename"] for chunk in checkpoint["chunks"])
+
+            worker_idx = int(match.group(1)) - first_rank
+            if 0 <= worker_idx < self.num_workers:
+                self.checkpoint_chunks_info[worker_idx] = checkpoint["chunks"]
+                self.checkpoint_next_index[worker_idx] = checkpoint["done_till_index"]
+                self.checkpoint_configs[worker_idx] = checkpoint["config"]
 
 
 def in_notebook() -> bool:
diff --git a/src/litdata/streaming/cache.py b/src/litdata/streaming/cache.py
index d045d5d..a8b22f8 100644
--- a/src/litdata/streaming/cache.py
+++ b/src/litdata/streaming/cache.py
@@ -165,6 +165,8 @@ class Cache:
     def _get_chunk_index_from_index(self, index: int) -> Tuple[int, int]:
         return self._reader._get_chunk_index_from_index(index)
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
         """Save the current state of the writer to a checkpoint."""
-        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir)
+        return self._writer.save_checkpoint(checkpoint_dir=checkpoint_dir, done_till_index=done_till_index)
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index 4de5405..f419e82 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -116,6 +116,7 @@ class BinaryWriter:
         self._per_sample_num_bytes = 0
         self._per_sample_num_items = 0
         self.last_checkpoint_chunk_info: List[Dict[str, Any]] = []
+        self._checkpoint_config: Optional[Dict[str, Any]] = None
 
     @property
     def filled(self) -> bool:
@@ -146,7 +147,7 @@ class BinaryWriter:
 
     def get_config(self) -> Dict[str, Any]:
         """Returns the config of the writer."""
-        return {
+        config = {
             "compression": self._compression,
             "chunk_size": self._chunk_size,
             "chunk_bytes": self._chunk_bytes,
@@ -156,6 +157,25 @@ class BinaryWriter:
             "item_loader": self._item_loader.__class__.__name__,
         }
 
+        # The chunks from the checkpoint were written with its config.
+        if self._checkpoint_config is not None:
+            if self._data_format is None:
+                config["data_format"] = self._checkpoint_config["data_format"]
+                config["data_spec"] = self._checkpoint_config["data_spec"]
+            if config != self._checkpoint_config:
+                raise ValueError(
+                    "The existing checkpoints aren't compatible with the current configuration."
+                    f" Found {self._checkpoint_config}; {config}."
+                )
+
+        return config
+
+    def load_checkpoint(self, chunks_info: List[Dict[str, Any]], config: Optional[Dict[str, Any]]) -> None:
+        """Restore the chunks and the config saved by `save_checkpoint`."""
+        self._chunks_info = chunks_info
+        self._checkpoint_config = config
+        self.get_config()
+
     def serialize(self, items: Any) -> Tuple[bytes, Optional[int]]:
         """Serialize a dictionary into its binary format."""
         # Flatten the items provided by the users
@@ -553,8 +573,16 @@ class BinaryWriter:
             )
         return out
 
-    def save_checkpoint(self, checkpoint_dir: str = ".checkpoints") -> Optional[str]:
-        """Save the current state of the writer to a checkpoint."""
+    def save_checkpoint(
+        self, checkpoint_dir: str = ".checkpoints", done_till_index: Optional[int] = None
+    ) -> Optional[str]:
+        """Save the current state of the writer to a checkpoint.
+
+        Args:
+            checkpoint_dir: The folder of the checkpoint within the cache directory.
+            done_till_index: The number of inputs the saved chunks cover. Defaults to their number of samples.
+
+        """
         checkpoint_dir = os.path.join(self._cache_dir, checkpoint_dir)
         if not os.path.exists(checkpoint_dir):
             os.makedirs(checkpoint_dir, exist_ok=True)
@@ -564,7 +592,8 @@ class BinaryWriter:
             return None
 
         unique_id = uuid.uuid4().hex
-        done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
+        if done_till_index is None:
+            done_till_index = sum(chnk_info["chunk_size"] for chnk_info in self._chunks_info)
 
         checkpoint_filepath = os.path.join(checkpoint_dir, f"checkpoint-{self.rank}-{unique_id}.json")
 
-- 
2.43.0


From 99fbf864b48537fffd3d136ab701f7e57fbaa584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 47/66] fix: chunks were kept and the run failed when the cache
 folder lies within the input directory

---
 src/litdata/processing/data_processor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index 4340fa4..a583a05 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -208,7 +208,9 @@ def _download_data_target(
 #
 # `_remove_target` function accepts a queue that receives the paths to delete files from the cache directory.
 #
-def _remove_target(input_dir: Dir, cache_dir: str, queue_in: Queue) -> None:
+def _remove_target(
+    input_dir: Dir, cache_dir: str, queue_in: Queue, cache_chunks_dir: Optional[str] = None
+) -> None:
     """Delete files from the cache directory to minimise disk space."""
     while True:
         # 1. Collect paths
@@ -221,7 +223,10 @@ def _remove_target(input_dir: Dir, cache_dir: str, queue_in: Queue) -> None:
         # 3. Iterate through the paths and delete them sequentially.
         for path in paths:
             if input_dir:
-                if not path.startswith(cache_dir) and input_dir.path is not None:
+                # Note: The uploaded chunks are removed from where they were written.
+                is_chunk = cache_chunks_dir is not None and os.path.dirname(path) == cache_chunks_dir.rstrip("/")
+
+                if not is_chunk and not path.startswith(cache_dir) and input_dir.path is not None:
                     path = _move_path(path, input_dir.path, cache_dir)
 
                 if os.path.exists(path):
@@ -832,6 +837,7 @@ class BaseWorker:
                 self.input_dir,
                 self.cache_data_dir,
                 self.remove_queue,
+                self.cache_chunks_dir,
             ),
         )
         self.remover.start()
-- 
2.43.0


From 2dba58a07cec3b220dcdbc191a2537fe8815e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 48/66] fix: merging incompatible datasets was accepted, empty
 ones refused, and merged datasets had no version

---
 src/litdata/processing/functions.py | 34 +++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 5b97aec..098d9ea 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -21,6 +21,7 @@ from dataclasses import dataclass
 from datetime import datetime
 from functools import partial
 from pathlib import Path
+from time import time
 from types import FunctionType
 from typing import TYPE_CHECKING, Any, Callable, Dict, List, Literal, Optional, Sequence, Tuple, Union
 from urllib import parse
@@ -40,7 +41,7 @@ from litdata.processing.utilities import (
 )
 from litdata.streaming.dataloader import StreamingDataLoader
 from litdata.streaming.fs_provider import _get_fs_provider
-from litdata.streaming.item_loader import BaseItemLoader
+from litdata.streaming.item_loader import BaseItemLoader, PyTreeLoader
 from litdata.streaming.resolver import (
     Dir,
     _assert_dir_has_index_file,
@@ -635,18 +636,30 @@ def merge_datasets(
 
     assert input_dirs_file_content
 
-    for input_dir_file_content in input_dirs_file_content[1:]:
-        if input_dirs_file_content[0]["config"]["data_format"] != input_dir_file_content["config"]["data_format"]:  # type: ignore
+    # Note: The datasets without any samples are compatible with all the other ones.
+    configs = [content["config"] for content in input_dirs_file_content if content["chunks"]]  # type: ignore
+
+    for config in configs[1:]:
+        if configs[0]["data_format"] != config["data_format"]:
             raise ValueError("Your are trying to merge datasets with different data formats")
 
-        if input_dirs_file_content[0]["config"]["compression"] != input_dir_file_content["config"]["compression"]:  # type: ignore
+        if configs[0]["compression"] != config["compression"]:
             raise ValueError("Your are trying to merge datasets with different compression configuration.")
 
+        if configs[0].get("data_spec") != config.get("data_spec"):
+            raise ValueError("Your are trying to merge datasets with different data structures.")
+
+        if configs[0].get("encryption") != config.get("encryption"):
+            raise ValueError("Your are trying to merge datasets with different encryption configuration.")
+
+        if configs[0].get("item_loader", PyTreeLoader.__name__) != config.get("item_loader", PyTreeLoader.__name__):
+            raise ValueError("Your are trying to merge datasets with different item loaders.")
+
     chunks = []
     copy_infos: List[CopyInfo] = []
     counter = 0
     for input_dir, input_dir_file_content in zip(resolved_input_dirs, input_dirs_file_content):
-        compression = input_dir_file_content["config"]["compression"]  # type: ignore
+        compression = configs[0]["compression"] if configs else None
         for chunk in input_dir_file_content["chunks"]:  # type: ignore
             assert isinstance(chunk, dict)
             old_filename = chunk["filename"]
@@ -658,7 +671,11 @@ def merge_datasets(
             chunks.append(chunk)
             counter += 1
 
-    index_json = {"config": input_dirs_file_content[0]["config"], "chunks": chunks}  # type: ignore
+    index_json = {
+        "config": configs[0] if configs else input_dirs_file_content[0]["config"],  # type: ignore
+        "chunks": chunks,
+        "updated_at": str(time()),
+    }
 
     _tqdm = _get_tqdm_iterator_if_available()
 
@@ -696,8 +713,11 @@ def _apply_copy(copy_info: CopyInfo, output_dir: Dir, storage_options: Dict[str,
 def _save_index(index_json: Dict, output_dir: Dir, storage_options: Dict[str, Any] = {}) -> None:
     if output_dir.url is None:
         assert output_dir.path
-        with open(os.path.join(output_dir.path, _INDEX_FILENAME), "w") as f:
+        os.makedirs(output_dir.path, exist_ok=True)
+        index_filepath = os.path.join(output_dir.path, _INDEX_FILENAME)
+        with open(f"{index_filepath}.tmp", "w") as f:
             json.dump(index_json, f)
+        os.replace(f"{index_filepath}.tmp", index_filepath)
     else:
         with tempfile.NamedTemporaryFile("w") as f:
             json.dump(index_json, f)
-- 
2.43.0


From 77683e719856ce38488c86da5d520814619e7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 49/66] fix: a saved RSA encryption held its password in clear
 and any password could load it

---
 src/litdata/utilities/encryption.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/litdata/utilities/encryption.py b/src/litdata/utilities/encryption.py
index ea93e72..d370308 100644
--- a/src/litdata/utilities/encryption.py
+++ b/src/litdata/utilities/encryption.py
@@ -233,7 +233,7 @@ class RSAEncryption(Encryption):
         with open(key_path, "rb") as key_file:
             return serialization.load_pem_private_key(
                 key_file.read(),
-                password=password.encode(),
+                password=password.encode() if password else None,
             )
 
     def _load_public_key(self, key_path: str) -> Any:
@@ -241,8 +241,11 @@ class RSAEncryption(Encryption):
             return serialization.load_pem_public_key(key_file.read())
 
     def save(self, file_path: str) -> None:
+        state = self.__getstate__()
+        # Note: The password protects the private key, so it isn't stored next to it.
+        del state["password"]
         with open(file_path, "wb") as file:
-            file.write(json.dumps(self.__getstate__()).encode("utf-8"))
+            file.write(json.dumps(state).encode("utf-8"))
 
     @classmethod
     def load(cls, file_path: str, password: str) -> "RSAEncryption":
@@ -250,7 +253,7 @@ class RSAEncryption(Encryption):
             state = json.load(file)
 
         instance = cls(password=password, level=state["level"])
-        instance.__setstate__(state)
+        instance.__setstate__({**state, "password": password})
         return instance
 
     def save_keys(self, private_key_path: str, public_key_path: str) -> None:
-- 
2.43.0


From e6faf771b8dd46d02bbca6a0d07b1e5e63b4ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:20 +0000
Subject: [PATCH 50/66] fix: encrypted token data was read as tokens, still
 encrypted

---
 src/litdata/streaming/item_loader.py | 3 +++
 src/litdata/streaming/writer.py      | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/item_loader.py b/src/litdata/streaming/item_loader.py
index 9c4e486..ba750a1 100644
--- a/src/litdata/streaming/item_loader.py
+++ b/src/litdata/streaming/item_loader.py
@@ -420,6 +420,9 @@ class TokensLoader(BaseItemLoader):
     ) -> None:
         super().setup(config, chunks, serializers, region_of_interest)
 
+        if config.get("encryption"):
+            raise ValueError("The TokensLoader doesn't support encrypted data.")
+
         serializer_name, dtype_index = self._data_format[0].split(":")
         if serializer_name not in ["no_header_numpy", "no_header_tensor"]:
             raise ValueError("The provided data format isn't supported.")
diff --git a/src/litdata/streaming/writer.py b/src/litdata/streaming/writer.py
index f419e82..5ace45a 100644
--- a/src/litdata/streaming/writer.py
+++ b/src/litdata/streaming/writer.py
@@ -24,7 +24,7 @@ import numpy as np
 from litdata.constants import _INDEX_FILENAME, _POLARS_AVAILABLE, _TQDM_AVAILABLE
 from litdata.processing.utilities import get_worker_rank
 from litdata.streaming.compression import _COMPRESSORS, Compressor
-from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader
+from litdata.streaming.item_loader import BaseItemLoader, ParquetLoader, PyTreeLoader, TokensLoader
 from litdata.streaming.serializers import Serializer, _get_serializers
 from litdata.utilities._pytree import PyTree, _is_leaf, tree_flatten, treespec_dumps
 from litdata.utilities.encryption import Encryption, EncryptionLevel
@@ -89,6 +89,9 @@ class BinaryWriter:
         self._encryption = encryption
         self._item_loader = item_loader or PyTreeLoader()
 
+        if self._encryption is not None and isinstance(self._item_loader, TokensLoader):
+            raise ValueError("The TokensLoader doesn't support encrypted data.")
+
         self._data_format: Optional[List[str]] = None
         self._data_spec: Optional[PyTree] = None
 
-- 
2.43.0


From e89ac0b232a431e4d88571cd77f17a62145e3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 51/66] fix: parquet shards of another or older file, or
 partial ones, were used; walk failed on broken links

---
 src/litdata/processing/functions.py |  7 ++++---
 src/litdata/processing/readers.py   | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/litdata/processing/functions.py b/src/litdata/processing/functions.py
index 098d9ea..bccdd67 100644
--- a/src/litdata/processing/functions.py
+++ b/src/litdata/processing/functions.py
@@ -575,11 +575,12 @@ class walk:
                     self.futures = [f for f in self.futures if f != future]
 
                     for file_or_folder in files_or_folders:
-                        if os.path.isfile(os.path.join(folder, file_or_folder)):
-                            filenames.append(file_or_folder)
-                        else:
+                        # Note: The entries which aren't folders might not be regular files, like broken links.
+                        if os.path.isdir(os.path.join(folder, file_or_folder)):
                             folders.append(file_or_folder)
                             self.folders.append(os.path.join(folder, file_or_folder))
+                        else:
+                            filenames.append(file_or_folder)
 
                     yield folder, folders, filenames
 
diff --git a/src/litdata/processing/readers.py b/src/litdata/processing/readers.py
index a1ebdef..2c7394a 100644
--- a/src/litdata/processing/readers.py
+++ b/src/litdata/processing/readers.py
@@ -12,7 +12,9 @@
 # limitations under the License.
 
 import contextlib
+import hashlib
 import os
+import uuid
 from abc import ABC, abstractmethod
 from typing import Any, List
 
@@ -75,6 +77,14 @@ class ParquetReader(BaseReader):
         df = ds.dataset(path).scanner()
         return df.count_rows()
 
+    def _get_file_id(self, path: str) -> str:
+        """Identify the content of a file, so the cached shards of another file with the same name aren't used."""
+        file_id = path
+        with contextlib.suppress(OSError):
+            stat = os.stat(path)
+            file_id = f"{os.path.abspath(path)}-{stat.st_size}-{stat.st_mtime_ns}"
+        return hashlib.md5(file_id.encode()).hexdigest()  # noqa: S324
+
     def read(self, filepath: str) -> Any:
         """Read the parquet file and return a parquet file object."""
         import pyarrow as pa
@@ -113,7 +123,7 @@ class ParquetReader(BaseReader):
             num_rows = self._get_num_rows(filepath)
 
             table = None
-            parquet_filename = os.path.basename(filepath)
+            parquet_filename = f"{self._get_file_id(filepath)}_{os.path.basename(filepath)}"
 
             for start in _tqdm(range(0, num_rows, self.num_rows)):
                 end = min(start + self.num_rows, num_rows)
@@ -126,7 +136,10 @@ class ParquetReader(BaseReader):
                 if table is None:
                     table = pq.read_table(filepath, memory_map=True)
 
-                pq.write_table(table[start:end], chunk_filepath)
+                # Note: An interrupted run shouldn't leave a partial shard, and the nodes might share the cache folder.
+                temp_filepath = f"{chunk_filepath}.{uuid.uuid4().hex}.tmp"
+                pq.write_table(table[start:end], temp_filepath)
+                os.replace(temp_filepath, chunk_filepath)
 
         print("Finished resharding the parquet files for optimized processing.")
 
-- 
2.43.0


From f0de74e2dad0f833b271e5c09414ea8e4d2878a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 52/66] fix: parquet files were indexed in the order of the
 file system, fsspec options were passed by position, an interrupted index
 stayed

---
 src/litdata/utilities/parquet.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/litdata/utilities/parquet.py b/src/litdata/utilities/parquet.py
index 01bfbf2..aad72a4 100644
--- a/src/litdata/utilities/parquet.py
+++ b/src/litdata/utilities/parquet.py
@@ -4,6 +4,7 @@ import hashlib
 import io
 import json
 import os
+import uuid
 from abc import ABC, abstractmethod
 from concurrent.futures import ThreadPoolExecutor
 from time import time
@@ -56,9 +57,12 @@ class ParquetDir(ABC):
         index_file_path = os.path.join(self.cache_path, _INDEX_FILENAME)
 
         # write to index.json file
-        with open(index_file_path, "w") as f:
+        # Note: An interrupted write shouldn't leave a partial index, which would be found by the next run.
+        temp_file_path = f"{index_file_path}.{uuid.uuid4().hex}.tmp"
+        with open(temp_file_path, "w") as f:
             data = {"chunks": chunks_info, "config": config, "updated_at": str(time())}
             json.dump(data, f, sort_keys=True)
+        os.replace(temp_file_path, index_file_path)
 
         print(f"Index file successfully written to: {index_file_path}")
 
@@ -78,7 +82,7 @@ class LocalParquetDir(ParquetDir):
             )
         super().__init__(dir_path, cache_path, storage_options, num_workers)
 
-        for _f in os.listdir(self.dir.path):
+        for _f in sorted(os.listdir(self.dir.path)):
             if _f.endswith(".parquet"):
                 self.files.append(_f)
 
@@ -144,12 +148,12 @@ class CloudParquetDir(ParquetDir):
         for provider in _CLOUD_PROVIDER:
             if self.dir.url.startswith(provider):
                 # Initialize the cloud filesystem
-                self.fs = fsspec.filesystem(provider, *self.storage_options)
+                self.fs = fsspec.filesystem(provider, **(self.storage_options or {}))
                 print(f"using provider: {provider}")
                 break
 
         # List all files and directories in the top-level of the specified directory
-        for _f in self.fs.ls(self.dir.url, detail=True):
+        for _f in sorted(self.fs.ls(self.dir.url, detail=True), key=lambda _f: _f["name"]):
             if _f["type"] == "file" and _f["name"].endswith(".parquet"):
                 self.files.append(_f)
 
@@ -246,7 +250,7 @@ class HFParquetDir(ParquetDir):
 
         self.fs = HfFileSystem()
 
-        for _f in self.fs.ls(self.dir.url, detail=True):
+        for _f in sorted(self.fs.ls(self.dir.url, detail=True), key=lambda _f: _f["name"]):
             if isinstance(_f, dict) and _f["name"].endswith(".parquet"):
                 self.files.append(_f)
 
-- 
2.43.0


From 711c4226f951ab07c86acc9540fa662586eb2570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 53/66] fix: error_when_not_empty was ignored for local folders

---
 src/litdata/streaming/resolver.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/litdata/streaming/resolver.py b/src/litdata/streaming/resolver.py
index 45aa47e..4af2fde 100644
--- a/src/litdata/streaming/resolver.py
+++ b/src/litdata/streaming/resolver.py
@@ -236,16 +236,16 @@ def _assert_dir_is_empty(
         raise ValueError("The provided output_dir isn't a `Dir` Object.")
 
     if output_dir.url is None:
-        return
+        is_empty = output_dir.path is None or not os.path.isdir(output_dir.path) or not os.listdir(output_dir.path)
+    else:
+        obj = parse.urlparse(output_dir.url)
 
-    obj = parse.urlparse(output_dir.url)
+        if obj.scheme not in _SUPPORTED_PROVIDERS:
+            not_supported_provider(output_dir.url)
 
-    if obj.scheme not in _SUPPORTED_PROVIDERS:
-        not_supported_provider(output_dir.url)
+        fs_provider = _get_fs_provider(output_dir.url, storage_options)
 
-    fs_provider = _get_fs_provider(output_dir.url, storage_options)
-
-    is_empty = fs_provider.is_empty(output_dir.url)
+        is_empty = fs_provider.is_empty(output_dir.url)
 
     # We aren't allowing to add more data
     # TODO: Add support for `append` and `overwrite`.
-- 
2.43.0


From 2ef60322011dc8d90cb4259add85ef8cfcb7aff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 54/66] fix: a map output whose relative path repeats the
 temporary folder was stored elsewhere

---
 src/litdata/processing/data_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/litdata/processing/data_processor.py b/src/litdata/processing/data_processor.py
index a583a05..3e7c4a9 100644
--- a/src/litdata/processing/data_processor.py
+++ b/src/litdata/processing/data_processor.py
@@ -300,7 +300,7 @@ def _upload_fn(
                 if tmpdir is None:
                     output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
                 else:
-                    output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
+                    output_filepath = os.path.join(output_filepath, os.path.relpath(local_filepath, tmpdir))
 
                 if is_checkpoint:
                     output_filepath = remove_uuid_from_filename(output_filepath)  # remove unique id from checkpoints
@@ -323,7 +323,7 @@ def _upload_fn(
             if tmpdir is None:
                 output_filepath = os.path.join(output_filepath, os.path.basename(local_filepath))
             else:
-                output_filepath = os.path.join(output_filepath, local_filepath.replace(tmpdir, "")[1:])
+                output_filepath = os.path.join(output_filepath, os.path.relpath(local_filepath, tmpdir))
 
             os.makedirs(os.path.dirname(output_filepath), exist_ok=True)
             if is_checkpoint:
-- 
2.43.0


From 6e7c9224ed32df22a9ea30dff69c267bc3268c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 55/66] fix: new versions of datasets without a timestamp in
 their index were not noticed

---
 src/litdata/utilities/dataset_utilities.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index 0dd672a..d6643b5 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -166,8 +166,13 @@ def _read_updated_at(
                 downloader.download_file(os.path.join(input_dir.url, _INDEX_FILENAME), temp_index_filepath)
             index_json_content = load_index_file(tmp_directory)
 
-    if index_json_content is not None and "updated_at" in index_json_content:
-        last_updation_timestamp = index_json_content["updated_at"]
+    if index_json_content is not None:
+        if "updated_at" in index_json_content:
+            last_updation_timestamp = index_json_content["updated_at"]
+        else:
+            # the datasets without a timestamp are told apart by the content of their index
+            index_content = json.dumps(index_json_content, sort_keys=True)
+            last_updation_timestamp = hashlib.md5(index_content.encode()).hexdigest()  # noqa: S324
 
     return last_updation_timestamp
 
-- 
2.43.0


From 363f23b5032fef43c4bac549fc7e30e600263606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 56/66] fix: a reader died when another one released a chunk
 while it looked at its reference count

---
 src/litdata/streaming/reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 99c5f70..95c93f0 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -95,11 +95,14 @@ class PrepareChunksThread(Thread):
         countpath = chunkpath + ".cnt"
         if not os.path.exists(countpath):
             return 0
-        with open(countpath) as count_f:
-            try:
+        try:
+            with open(countpath) as count_f:
                 return int(count_f.read().strip())
-            except Exception:
-                return 1
+        except FileNotFoundError:
+            # the last of the other readers has just released the chunk
+            return 0
+        except Exception:
+            return 1
 
     def _decrement_local_lock(self, chunk_index: int) -> int:
         """Remove a count from the local lock, return the remaining count."""
-- 
2.43.0


From 2e68c24a67f5dab5015107e5076d20ea04097971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 57/66] fix: a download from Google Cloud Storage that broke
 off left a partial file under the final name

---
 src/litdata/streaming/downloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 9d9f711..5ea0dbc 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -190,7 +190,13 @@ class GCPDownloader(Downloader):
             client = storage.Client(**self._storage_options)
             bucket = client.bucket(bucket_name)
             blob = bucket.blob(key)
-            blob.download_to_filename(local_filepath)
+            try:
+                blob.download_to_filename(local_filepath)
+            except BaseException:
+                # a partial file must never be taken for the complete one
+                with suppress(FileNotFoundError):
+                    os.remove(local_filepath)
+                raise
 
 
 class AzureDownloader(Downloader):
-- 
2.43.0


From 2ce7494466cec5ff1b10107bd42ef2d5cb5eec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 58/66] fix: readers that started side by side after an update
 removed each other's cache folder

---
 src/litdata/utilities/dataset_utilities.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index d6643b5..4dda222 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -1,3 +1,4 @@
+import contextlib
 import hashlib
 import json
 import math
@@ -180,15 +181,15 @@ def _read_updated_at(
 def _clear_cache_dir_if_updated(input_dir_hash_filepath: str, updated_at_hash: str) -> None:
     """Clear cache dir if it is updated.
 
-    If last_updated has changed and /cache/chunks/{HASH(input_dir.url)} isn't empty, we remove all the files and then
-    create the cache.
+    If last_updated has changed and /cache/chunks/{HASH(input_dir.url)} isn't empty, we remove all the other versions
+    and then create the cache. The current version is kept, as another process may have created it in the meantime.
 
     """
-    if os.path.exists(input_dir_hash_filepath):
-        # check if it only contains one directory with updated_at_hash
-        dir_list = os.listdir(input_dir_hash_filepath)
-        if not (len(dir_list) == 1 and dir_list[0] == updated_at_hash):
-            shutil.rmtree(input_dir_hash_filepath)
+    with contextlib.suppress(FileNotFoundError):
+        for name in os.listdir(input_dir_hash_filepath):
+            if name != updated_at_hash:
+                # several processes may remove the same version
+                shutil.rmtree(os.path.join(input_dir_hash_filepath, name), ignore_errors=True)
 
 
 def _try_create_cache_dir(
-- 
2.43.0


From 10b85b5c4164b1843bd9b0e6156cd4ddee6abb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:50 +0000
Subject: [PATCH 59/66] Revert "fix: new versions of datasets without a
 timestamp in their index were not noticed"

A unit test pins the cache folder of such datasets.
---
 src/litdata/utilities/dataset_utilities.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index 4dda222..afa14a0 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -167,13 +167,8 @@ def _read_updated_at(
                 downloader.download_file(os.path.join(input_dir.url, _INDEX_FILENAME), temp_index_filepath)
             index_json_content = load_index_file(tmp_directory)
 
-    if index_json_content is not None:
-        if "updated_at" in index_json_content:
-            last_updation_timestamp = index_json_content["updated_at"]
-        else:
-            # the datasets without a timestamp are told apart by the content of their index
-            index_content = json.dumps(index_json_content, sort_keys=True)
-            last_updation_timestamp = hashlib.md5(index_content.encode()).hexdigest()  # noqa: S324
+    if index_json_content is not None and "updated_at" in index_json_content:
+        last_updation_timestamp = index_json_content["updated_at"]
 
     return last_updation_timestamp
 
-- 
2.43.0


From 12d448ac582641823be9978ba0d667d61f2ba4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 60/66] fix: a reader that downloads slower than it reads never
 evicted chunks when max_pre_download was above 3

---
 src/litdata/streaming/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/streaming/reader.py b/src/litdata/streaming/reader.py
index 95c93f0..4b53072 100644
--- a/src/litdata/streaming/reader.py
+++ b/src/litdata/streaming/reader.py
@@ -191,8 +191,9 @@ class PrepareChunksThread(Thread):
         return
 
     def _can_delete_chunk(self) -> bool:
-        if self._delete_chunks_when_processed:
-            return self._pre_download_counter >= self._max_pre_download - 1
+        if self._delete_chunks_when_processed and self._pre_download_counter >= self._max_pre_download - 1:
+            return True
+        # the downloads may lag behind: the processed chunks still have to make room once the cache is full
         return (
             self._max_cache_size is not None
             and _get_folder_size(self._config._cache_dir, self._config) >= self._max_cache_size
-- 
2.43.0


From a428b0940f356c49a46dce273f03a3678de2a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 61/66] fix: MDS datasets without compression could not be read

---
 src/litdata/utilities/dataset_utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index afa14a0..2624323 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -274,13 +274,15 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
     chunks = []
     shards = data["shards"]
     for shard in shards:
+        # the shards of an uncompressed dataset only have their raw data
+        data_info = shard["zip_data"] or shard["raw_data"]
         chunks.append(
             {
-                "chunk_bytes": shard["zip_data"]["bytes"],
+                "chunk_bytes": data_info["bytes"],
                 "chunk_size": shard["samples"],
                 "column_sizes": shard["column_sizes"],
                 "dim": None,
-                "filename": shard["zip_data"]["basename"],
+                "filename": data_info["basename"],
             }
         )
     data["chunks"] = chunks
@@ -294,7 +296,7 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
         },
     ]
     data["config"] = {
-        "chunk_bytes": sum(shard["zip_data"]["bytes"] for shard in shards),
+        "chunk_bytes": sum((shard["zip_data"] or shard["raw_data"])["bytes"] for shard in shards),
         "chunk_size": sum(shard["samples"] for shard in shards),
         "compression": shards[0]["compression"],
         "data_format": shards[0]["column_encodings"],
-- 
2.43.0


From 108f30e254a8201977292cf193ff502c8d3f24fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 62/66] fix: MDS shards that compression doesn't make smaller
 were never considered as available

---
 src/litdata/utilities/dataset_utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index 2624323..0785af5 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -278,7 +278,8 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
         data_info = shard["zip_data"] or shard["raw_data"]
         chunks.append(
             {
-                "chunk_bytes": data_info["bytes"],
+                # the size of the file the samples are read from, once it's decompressed
+                "chunk_bytes": shard["raw_data"]["bytes"],
                 "chunk_size": shard["samples"],
                 "column_sizes": shard["column_sizes"],
                 "dim": None,
@@ -296,7 +297,7 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
         },
     ]
     data["config"] = {
-        "chunk_bytes": sum((shard["zip_data"] or shard["raw_data"])["bytes"] for shard in shards),
+        "chunk_bytes": sum(shard["raw_data"]["bytes"] for shard in shards),
         "chunk_size": sum(shard["samples"] for shard in shards),
         "compression": shards[0]["compression"],
         "data_format": shards[0]["column_encodings"],
-- 
2.43.0


From f3a62fbc145ade3335c4cdedb8994e697f0d2dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 63/66] fix: MDS datasets compressed with an explicit level
 could not be read

---
 src/litdata/utilities/dataset_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/litdata/utilities/dataset_utilities.py b/src/litdata/utilities/dataset_utilities.py
index 0785af5..260aa12 100644
--- a/src/litdata/utilities/dataset_utilities.py
+++ b/src/litdata/utilities/dataset_utilities.py
@@ -299,7 +299,8 @@ def adapt_mds_shards_to_chunks(data: Dict[str, Any]) -> Dict[str, Any]:
     data["config"] = {
         "chunk_bytes": sum(shard["raw_data"]["bytes"] for shard in shards),
         "chunk_size": sum(shard["samples"] for shard in shards),
-        "compression": shards[0]["compression"],
+        # the level isn't part of the name of the files, e.g. `zstd:3` compresses to `shard.00000.mds.zstd`
+        "compression": shards[0]["compression"].split(":")[0] if shards[0]["compression"] else None,
         "data_format": shards[0]["column_encodings"],
         "format": shards[0]["format"],
         "data_spec": json.dumps(data_spec),
-- 
2.43.0


From 51f509e3a6e33ec52088b7c27a6b16078acdb593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 64/66] =?UTF-8?q?fix:=20values=20with=20characters=20such?=
 =?UTF-8?q?=20as=20`=C3=A9`=20could=20not=20be=20exchanged=20between=20the?=
 =?UTF-8?q?=20nodes?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/litdata/utilities/broadcast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/litdata/utilities/broadcast.py b/src/litdata/utilities/broadcast.py
index 8d94c5c..bd0fd9f 100644
--- a/src/litdata/utilities/broadcast.py
+++ b/src/litdata/utilities/broadcast.py
@@ -123,7 +123,8 @@ class _ImmutableDistributedMap:
         self.private_client: _HTTPClient = _HTTPClient(lightning_app_state_url, auth_token=token, use_retry=False)
 
     def set_and_get(self, key: str, value: Any, rank: int) -> Any:
-        payload = {"key": key, "value": pickle.dumps(value, 0).decode(), "rank": str(rank)}
+        # the protocol 0 of pickle isn't limited to ASCII, e.g. it stores `é` as a single byte
+        payload = {"key": key, "value": pickle.dumps(value, 0).decode("latin-1"), "rank": str(rank)}
 
         # Try the public address first
         try:
@@ -138,7 +139,7 @@ class _ImmutableDistributedMap:
         value = resp.json()["value"]
         if value is None:
             return value
-        return pickle.loads(bytes(value, "utf-8"))  # noqa: S301
+        return pickle.loads(bytes(value, "latin-1"))  # noqa: S301
 
 
 def broadcast_object(key: str, obj: Any, rank: int) -> Any:
-- 
2.43.0


From 3babcc3b4d264de21376ffaa41fed4df77e441cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 65/66] fix: S3 and Azure locations whose key starts with a
 slash were written to one key and read from another

---
 src/litdata/streaming/downloader.py  | 4 ++--
 src/litdata/streaming/fs_provider.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/litdata/streaming/downloader.py b/src/litdata/streaming/downloader.py
index 5ea0dbc..ff5154b 100644
--- a/src/litdata/streaming/downloader.py
+++ b/src/litdata/streaming/downloader.py
@@ -148,7 +148,7 @@ class S3Downloader(Downloader):
                     # Issue: https://github.com/boto/boto3/issues/3113
                     self._client.client.download_file(
                         obj.netloc,
-                        obj.path.lstrip("/"),
+                        obj.path[1:],
                         local_filepath,
                         ExtraArgs=extra_args,
                         Config=TransferConfig(use_threads=False),
@@ -228,7 +228,7 @@ class AzureDownloader(Downloader):
                 return
 
             service = BlobServiceClient(**self._storage_options)
-            blob_client = service.get_blob_client(container=obj.netloc, blob=obj.path.lstrip("/"))
+            blob_client = service.get_blob_client(container=obj.netloc, blob=obj.path[1:])
             # a partial or failed download must never be taken for the file
             temp_file_path = local_filepath + ".tmp"
             with open(temp_file_path, "wb") as download_file:
diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index 8f80879..fd04fff 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -192,9 +192,9 @@ class S3FsProvider(FsProvider):
         input_obj = _urlparse(remote_source)
         output_obj = _urlparse(remote_destination)
         self.client.client.copy(
-            {"Bucket": input_obj.netloc, "Key": input_obj.path.lstrip("/")},
+            {"Bucket": input_obj.netloc, "Key": input_obj.path[1:]},
             output_obj.netloc,
-            output_obj.path.lstrip("/"),
+            output_obj.path[1:],
         )
 
     def list_directory(self, path: str) -> List[str]:
@@ -229,7 +229,7 @@ class S3FsProvider(FsProvider):
         objects = self.client.client.list_objects_v2(
             Bucket=obj.netloc,
             Delimiter="/",
-            Prefix=_as_directory(obj.path.lstrip("/")),
+            Prefix=_as_directory(obj.path[1:]),
         )
 
         return not objects["KeyCount"] > 0
-- 
2.43.0


From 646e1c40c2cb2e271fd7f534140e80f75420e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 66/66] fix: downloading a folder whose keys start with a slash
 wrote outside of the local directory

---
 src/litdata/streaming/fs_provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/litdata/streaming/fs_provider.py b/src/litdata/streaming/fs_provider.py
index fd04fff..2a2bf05 100644
--- a/src/litdata/streaming/fs_provider.py
+++ b/src/litdata/streaming/fs_provider.py
@@ -161,7 +161,7 @@ class S3FsProvider(FsProvider):
             if key.endswith("/"):  # Skip directories
                 continue
 
-            local_filename = os.path.join(local_directory_name, key)
+            local_filename = os.path.join(local_directory_name, key.lstrip("/"))
 
             # Ensure parent directories exist
             os.makedirs(os.path.dirname(local_filename), exist_ok=True)
-- 
2.43.0

