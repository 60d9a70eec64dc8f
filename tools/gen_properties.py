"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))
S = "src/litdata/"
prop("C01", "Samples read back equal what was written, in the order written",
 "Writing a sequence of samples into a dataset and reading it back returns exactly those samples, unchanged, each at the index at which it was written, and the dataset's length equals the number of samples written. This holds for every sequence of sample sizes, whether chunks are limited by sample count or by bytes, with or without compression, with or without encryption (per sample or per chunk), and whatever the structure of the samples (one structure per dataset; a sample that does not fit it is refused with an error). Nothing is lost, duplicated, moved or altered at chunk boundaries.",
 ["inputs", "configurations", "histories"],
 "every sequence of per-sample sizes x every chunk limit (count or bytes) x compression x encryption level, with one or several writers",
 "Tests write one fixed sequence (usually equal sized items) per option; chunk-boundary decisions depend on the whole sequence of sizes, the limit, and how options combine.",
 [S+"streaming/writer.py", S+"streaming/reader.py", S+"streaming/item_loader.py", S+"streaming/config.py", S+"streaming/cache.py"],
 [("BinaryWriter.write_chunk / _should_write / done", S+"streaming/writer.py"), ("PyTreeLoader.load_item_from_chunk", S+"streaming/item_loader.py"), ("ChunksConfig._get_chunk_index_from_index", S+"streaming/config.py")],
 observe=["Cache / StreamingDataset item access", "len()"])
prop("C02", "Chunks respect the configured limit and the index describes them exactly",
 "No chunk holds more samples than the configured sample-count limit, and none holds more sample data than the configured byte limit (headers and encryption overhead aside) unless it holds a single sample that is larger than the limit on its own. The written index lists every data chunk of the dataset exactly once, in sample order, with its true sample count, byte size and (for token data) its true token count, and records the configuration (compression, encryption, limits, data structure) that is needed to read it.",
 ["inputs", "configurations"],
 "every sequence of per-sample sizes x chunk limit (samples, bytes, tokens) x number of writers merged into one index",
 "Tests check chunk counts for a few fixed sizes; whether the limit and the index stay exact depends on the position of every boundary.",
 [S+"streaming/writer.py", S+"streaming/config.py"],
 [("BinaryWriter._should_write / _create_chunk / write_chunks_index / _merge_no_wait", S+"streaming/writer.py")],
 state=[("index.json", "chunks, chunk_size, dim, chunk_bytes, config", S+"streaming/writer.py")],
 observe=["the chunk files and index.json in the output folder"])
prop("C03", "Every supported value survives serialisation unchanged",
 "A value of any supported kind (strings, ints, floats, bools, bytes, None inside picklable values, numpy arrays and torch tensors of any supported dtype and any shape including scalars and empty ones, images, and any nesting of dicts, lists, tuples and named tuples of these) is read back as an equal value with the same dtype, shape and structure (a plain number may come back as the equal NumPy scalar, a JPEG image as its decoded pixels). A dataset holds samples of one structure whose leaves keep their kinds; a sample that cannot be represented next to the previous ones is refused with an error, never altered. The description of a sample's structure stored in the dataset always reloads to the same structure.",
 ["inputs"],
 "every (kind, dtype, shape) and every nested structure up to a depth",
 "Tests cover a few dtypes and shapes; dispatch between serialisers depends on the kind, rank and dtype of each leaf and on the order they are tried in.",
 [S+"streaming/serializers.py", S+"utilities/_pytree.py", S+"streaming/writer.py"],
 [("Serializer.can_serialize/serialize/deserialize", S+"streaming/serializers.py"), ("treespec_dumps/loads, tree_flatten/unflatten", S+"utilities/_pytree.py")],
 observe=["write and read one sample"])
prop("C04", "Each epoch delivers every sample exactly once over all ranks and workers",
 "In every epoch, the samples delivered to all ranks and data-loader workers together are the whole dataset, each sample exactly once (when no samples are to be dropped), whatever the chunk sizes, number of nodes, ranks, workers and batch size, shuffled or not. The length reported for a rank equals the number of samples that rank really delivers. The order is fully determined by the seed and the epoch, unshuffled order is the written order split in contiguous shares, and starting an epoch always terminates without error.",
 ["inputs", "configurations", "histories"],
 "every chunk-size vector x nodes x ranks per node x workers x batch size x shuffle x epoch within small bounds",
 "Tests try a few world sizes with uniform chunks and mostly the first epoch; the interval arithmetic and multi-node reshuffling depend on all of these together.",
 [S+"streaming/dataset.py", S+"streaming/shuffle.py", S+"utilities/shuffle.py"],
 [("_associate_chunks_and_intervals_to_workers", S+"utilities/shuffle.py"), ("FullShuffle / NoShuffle", S+"streaming/shuffle.py"), ("_find_chunks_per_workers_on_which_to_skip_deletion", S+"utilities/shuffle.py"), ("StreamingDataset.__iter__/__next__", S+"streaming/dataset.py")],
 observe=["StreamingDataset iteration per (rank, worker)"])
prop("C05", "Dropping the tail keeps all ranks in step and drops no more than necessary",
 "With drop_last, every rank delivers the same number of samples, as whole batches, so that no rank ever waits for another; the samples delivered are still distinct and belong to the dataset. Fewer samples than one batch per rank are dropped in total, and the reported length is the delivered number.",
 ["inputs", "configurations"],
 "every chunk-size vector x world size x workers x batch size x shuffle x epoch within small bounds",
 "Tests check a handful of world sizes and chunk sizes; divisibility makes every combination behave differently.",
 [S+"utilities/shuffle.py", S+"streaming/shuffle.py", S+"streaming/dataset.py"],
 [("_associate_chunks_and_intervals_to_workers", S+"utilities/shuffle.py"), ("StreamingDataset.__len__", S+"streaming/dataset.py")],
 observe=["StreamingDataset / StreamingDataLoader iteration and len per rank"])
prop("C06", "Resuming a loader from a checkpoint continues exactly where it stopped",
 "If the state of a streaming data loader is saved after any number of batches of any epoch and loaded into a freshly built loader over the same data, the batches that follow are exactly those the original loader would have delivered next, to the end of the epoch and in the following epochs. This holds for every number of workers, batch size, shuffling and drop setting, when the run is checkpointed and resumed several times, and a saved state is not altered by further iteration.",
 ["histories", "configurations", "crash_points"],
 "every checkpoint position in every epoch x workers x batch size x shuffle x drop_last x chains of resumes",
 "Tests resume at one or two hand-picked positions with sizes that divide evenly; the replay arithmetic differs at each position.",
 [S+"streaming/dataset.py", S+"streaming/dataloader.py"],
 [("StreamingDataset.state_dict/load_state_dict/_resume", S+"streaming/dataset.py"), ("_replay_sampling / _replay_chunks_sampling", S+"streaming/dataset.py"), ("StreamingDataLoader.state_dict/load_state_dict/__iter__", S+"streaming/dataloader.py")],
 observe=["batches yielded by StreamingDataLoader"])
prop("C07", "A combined dataset mixes its datasets faithfully and reproducibly",
 "Iterating a combined dataset yields only samples of its datasets, the samples of each one appear in that dataset's own order with none skipped or repeated, and the mixture is determined by the seed. When asked to iterate over everything it delivers every sample of every dataset exactly once; otherwise it stops as soon as the dataset drawn from is exhausted, and datasets of weight zero are never drawn from. A checkpointed combined loader resumes with exactly the batches that would have followed, for every batching method.",
 ["inputs", "configurations", "histories"],
 "every pair/triple of dataset lengths x weights x seeds x batching method x workers x checkpoint positions",
 "Tests use a few lengths and weights; exhaustion of one dataset while others continue happens at seed- and length-specific points.",
 [S+"streaming/combined.py", S+"streaming/dataloader.py"],
 [("_CombinedDatasetIterator.__next__/_get_dataset_index", S+"streaming/combined.py"), ("CombinedStreamingDataset.state_dict/load_state_dict", S+"streaming/combined.py")],
 observe=["items and batches yielded"])
prop("C08", "Concurrent readers sharing a bounded cache always get the right samples",
 "When several readers (workers or ranks on one machine) share a cache folder whose size is bounded, so that chunks are downloaded, decompressed, evicted and downloaded again while others read, every reader obtains the correct bytes for each sample it asks for, with no error and no deadlock, under every interleaving of the readers and their background download threads.",
 ["schedules", "configurations", "histories"],
 "every interleaving, up to a preemption bound, of the readers' threads at file, lock, queue and sleep operations, for small access patterns, with and without compression",
 "Tests run whatever interleaving the machine produces, mostly with a single reader and no eviction.",
 [S+"streaming/reader.py", S+"streaming/config.py", S+"streaming/downloader.py", S+"streaming/item_loader.py"],
 [("PrepareChunksThread", S+"streaming/reader.py"), ("BinaryReader.read", S+"streaming/reader.py"), ("file locks and .cnt reference counts", S+"streaming/config.py"), ("PyTreeLoader waiting for a complete chunk", S+"streaming/item_loader.py")],
 state=[("chunk files, .lock and .cnt files in the cache folder", "shared between readers", S+"streaming/config.py")],
 observe=["values returned by item reads; termination"])
prop("C09", "Eviction keeps the local cache bounded without changing what is read",
 "With a bounded cache size, however samples are accessed (sequentially, at random, repeatedly, over several epochs), every read returns the right sample and evicted chunks are fetched again when needed, and the disk space held by downloaded chunks never exceeds the bound by more than the chunks in flight (those being fetched ahead, up to the configured number, and the few in use). With no bound reached, chunks already present are not deleted, and a dataset that is read in place (not cached from elsewhere) never has its data deleted.",
 ["histories", "configurations", "schedules"],
 "every access sequence up to a length over a small dataset x cache bound x item loader x compression",
 "Tests evict in one or two scripted sequences; whether a chunk in use is deleted or never re-fetched depends on the exact sequence.",
 [S+"streaming/reader.py", S+"streaming/config.py", S+"streaming/item_loader.py"],
 [("PrepareChunksThread._maybe_delete_chunks/_delete/_can_delete_chunk", S+"streaming/reader.py"), ("_get_folder_size", S+"streaming/reader.py")],
 observe=["values read; content of the cache folder after each access"])
prop("C10", "A reader killed at any moment never poisons the local cache",
 "If a process reading a remote dataset is killed or its download fails at any point (while locking, downloading, decompressing, counting references or evicting), a later reader that uses the same cache folder still reads every sample correctly and without hanging. A partially transferred or partially decompressed chunk is never taken for a complete one, and a failing download is reported rather than returned as data.",
 ["crash_points", "fault_sequences"],
 "every file operation of the reading path as a crash or failure point, including torn writes, followed by a fresh reader",
 "Tests never kill a reader between two file operations.",
 [S+"streaming/config.py", S+"streaming/downloader.py", S+"streaming/reader.py", S+"streaming/item_loader.py"],
 [("temporary file + rename in downloaders", S+"streaming/downloader.py"), ("ChunksConfig.download_chunk_from_index / try_decompress", S+"streaming/config.py"), ("size check before reading", S+"streaming/item_loader.py")],
 observe=["values read by a second reader on the same cache folder"])
prop("C11", "optimize writes the outputs of every input exactly once and in order",
 "The dataset written by optimize holds the outputs of the function for every input, each exactly once, whatever the number of workers and nodes, the weights, the chunk limits and the number of outputs per input (none, one, several, generator). The work is split into shares that cover all inputs without overlap, and when order is to be kept, samples appear in input order; the inputs reach the function unaltered.",
 ["inputs", "configurations"],
 "every number of inputs x workers x nodes x weights x chunk limits x outputs per input, within bounds",
 "Tests run a few sizes that divide evenly; assignment arithmetic and merging differ for each remainder and worker count.",
 [S+"processing/data_processor.py", S+"processing/functions.py", S+"streaming/writer.py"],
 [("_map_items_to_nodes_sequentially / _map_items_to_workers_weighted", S+"processing/data_processor.py"), ("DataChunkRecipe._done, Cache._merge_no_wait", S+"streaming/writer.py")],
 observe=["samples of the written dataset"])
prop("C12", "The optimize pipeline neither loses data nor hangs under any schedule or fault",
 "Under every interleaving of the downloading, processing, uploading and removing stages, every chunk produced ends up in the output together with the index that lists it, and the run terminates. If the user's function, a download or an upload fails, the run ends with an error that is reported to the caller; it never reports success while data is missing, and never waits for ever.",
 ["schedules", "fault_sequences"],
 "every interleaving, up to a preemption bound, of the pipeline stages at queue and file operations, and every single failure of a stage's operation",
 "Tests run one timing and hardly any failing stage.",
 [S+"processing/data_processor.py"],
 [("BaseWorker._loop/_collect_paths/_start_downloaders/_start_uploaders/_start_remover", S+"processing/data_processor.py"), ("_download_data_target/_upload_fn/_remove_target", S+"processing/data_processor.py"), ("DataProcessor.run error queue", S+"processing/data_processor.py")],
 observe=["files in the output folder; exception from the run"])
prop("C13", "Appending keeps existing data, overwriting replaces it, default refuses",
 "Optimising without a mode into a location that already holds a dataset is refused and leaves it untouched; append yields the previous samples followed by the new ones with nothing lost or overwritten, and overwrite yields only the new samples. This holds for every sequence of such operations and worker counts, and appending data that is incompatible with the existing dataset is refused.",
 ["histories", "configurations"],
 "every sequence of runs (default, append, overwrite) up to a depth x worker counts x settings",
 "Tests run single append or overwrite steps; collisions of chunk names and index merging need longer histories and other worker counts.",
 [S+"processing/functions.py", S+"processing/data_processor.py", S+"streaming/resolver.py", S+"processing/utilities.py", S+"streaming/writer.py"],
 [("_assert_dir_is_empty/_assert_dir_has_index_file", S+"streaming/resolver.py"), ("append_index_json/overwrite_index_json", S+"processing/utilities.py"), ("state_dict of existing chunks per rank", S+"processing/functions.py")],
 observe=["samples readable from the output location after each run"])
prop("C14", "An interrupted checkpointed optimize run resumes without loss or duplicate",
 "If an optimize run with checkpointing is interrupted at any point and run again with the same inputs, the resulting dataset holds the outputs of each input exactly once and in order, as if it had never been interrupted, and inputs already completed in saved chunks are not processed again (inputs that JSON cannot express start over). Resuming with a different number of workers or different inputs is refused, and the checkpoint data is removed when the run completes.",
 ["crash_points", "histories"],
 "every input / file operation as the point of interruption x workers x chunk limit x repeated interruptions",
 "Tests interrupt at one fixed item with one chunk size.",
 [S+"streaming/writer.py", S+"processing/data_processor.py"],
 [("BinaryWriter.save_checkpoint", S+"streaming/writer.py"), ("DataProcessor._load_checkpoint_config/_save_current_config", S+"processing/data_processor.py")],
 observe=["samples of the dataset after the resumed run; calls of the user's function"])
prop("C15", "Merging datasets gives their concatenation and refuses incompatible ones",
 "Merging datasets yields a dataset whose samples are those of the inputs, concatenated in the order given, all readable and equal to the originals, whatever their numbers of chunks and their chunk file names; the input datasets are left untouched. Datasets that differ in data structure, compression, encryption or item layout are refused instead of being mixed into an unreadable result (datasets without any samples fit all of them), and an output that already holds a dataset, one of the inputs included, is refused. When a copy fails, no success is reported and the output gets no index.",
 ["inputs", "configurations", "histories"],
 "every list of datasets (chunk counts, sizes, formats, compressions) up to a length, including merges of merges",
 "Tests merge two or three uniform datasets.",
 [S+"processing/functions.py"],
 [("merge_datasets / _apply_copy", S+"processing/functions.py")],
 observe=["samples of the merged dataset"])
prop("C16", "Subsampling and splitting a dataset gives disjoint parts of the right size",
 "Splitting a streaming dataset gives parts that are pairwise disjoint, contain only samples of the dataset, have the requested proportions (up to rounding down), and together leave out fewer samples than there are parts when the proportions add up to one; subsampling by a fraction gives exactly that fraction of the samples, distinct when it is at most one. This holds whatever the chunk sizes, shuffled or not, and when a part is subsampled or split again; the parts can be iterated, indexed and resumed like any dataset.",
 ["inputs", "configurations", "histories"],
 "every chunk-size vector x list of split fractions x subsample fraction x shuffle x seed, and splits of splits",
 "Tests use a couple of fractions on uniform chunks.",
 [S+"utilities/subsample.py", S+"utilities/train_test_split.py", S+"utilities/dataset_utilities.py"],
 [("shuffle_lists_together / subsample_filenames_and_roi", S+"utilities/subsample.py"), ("train_test_split", S+"utilities/train_test_split.py")],
 state=[("region of interest", "per chunk (start, end) of the samples that belong to the part", S+"streaming/config.py")],
 observe=["samples iterated and indexed from each part"])
prop("C17", "Parquet files are streamed row for row",
 "Indexing a folder of parquet files and streaming it returns exactly the rows of the files, in file and row order, with the right values for every column, whatever the row-group layout of the files, in low-memory and in pre-loaded mode, sequentially and by random access. The length equals the total number of rows, and the files indexed come in a deterministic order.",
 ["inputs", "configurations", "histories"],
 "every list of row-group layouts up to a size x access order x loading mode x file order on disk",
 "Tests write each file with a single row group or uniform ones and read sequentially.",
 [S+"streaming/item_loader.py", S+"utilities/parquet.py", S+"streaming/writer.py"],
 [("ParquetLoader.load_item_from_chunk / _get_item_with_low_memory", S+"streaming/item_loader.py"), ("index_parquet_dataset, ParquetDir", S+"utilities/parquet.py"), ("index_parquet_dataset", S+"streaming/writer.py")],
 observe=["rows returned"])
prop("C18", "A cache never serves data of an older version of the dataset",
 "When a dataset at a location is regenerated, appended to, or replaced between two uses, the next reader of that location sees the new data and never a mixture with chunks cached from the previous version. Different locations never share cached data, and an unchanged dataset keeps being served from its cache.",
 ["histories"],
 "every history of optimize / append / overwrite / read operations on locations up to a depth",
 "Tests update a dataset once and read once.",
 [S+"utilities/dataset_utilities.py", S+"streaming/dataset.py", S+"streaming/config.py"],
 [("_try_create_cache_dir / _should_replace_path", S+"utilities/dataset_utilities.py"), ("_clear_cache_dir_if_updated", S+"streaming/dataset.py")],
 observe=["samples read after each update; cache folders"])
prop("C19", "Operations on a cloud folder never touch or depend on its neighbours",
 "Checking whether a cloud output folder is empty, overwriting it, cleaning it, or removing its checkpoint affects and considers only objects inside that folder, never those of other folders or objects whose names merely start alike, whatever the number of objects. After such an operation, exactly the intended objects are gone, and a file uploaded is stored at the requested place with its content.",
 ["histories", "inputs"],
 "every set of sibling object names from a small alphabet of prefixes x every operation sequence up to a depth",
 "Tests mock the cloud client and never model sibling prefixes or listings longer than a page.",
 [S+"streaming/resolver.py", S+"streaming/fs_provider.py", S+"streaming/downloader.py", S+"processing/data_processor.py"],
 [("S3FsProvider / GCPFsProvider delete, is_empty, exists", S+"streaming/fs_provider.py"), ("_assert_dir_is_empty/_assert_dir_has_index_file", S+"streaming/resolver.py")],
 observe=["objects of an in-memory object store after each operation"])
prop("C20", "Random access and slicing agree with sequential iteration",
 "For any dataset, item i is the i-th sample in the dataset's order, slices and repeated or interleaved accesses return the same samples as iteration would, in any order of access and mixed with iteration, and an index outside the dataset raises an error rather than returning another sample (a negative integer is either refused or counts from the end, as in a list).",
 ["histories", "inputs"],
 "every access sequence up to a length over small chunk layouts x options",
 "Tests index a few positions; open-file, prefetch and interval state carried between accesses depends on the whole history.",
 [S+"streaming/dataset.py", S+"streaming/reader.py", S+"streaming/item_loader.py", S+"streaming/config.py"],
 [("StreamingDataset.__getitem__", S+"streaming/dataset.py"), ("ChunksConfig.__getitem__", S+"streaming/config.py")],
 observe=["values returned"])
prop("C21", "map delivers every input's result exactly once",
 "Applying a function with map calls it exactly once for every input, over all workers and nodes together, and every file it writes in the output folder it is given ends up unchanged at the same relative place of the requested output location. The inputs reach the function unaltered. Errors of the function, of a download or of an upload are reported to the caller. Files that already lie in the output location stay, unless the function writes them again; when an error is asked for in case the location is not empty, the run is refused before the function is called and the location is left untouched.",
 ["inputs", "configurations", "fault_sequences"],
 "every number of inputs x workers x nodes x weights x outputs written per input x failing input",
 "Tests run map on a few inputs with one or two workers.",
 [S+"processing/functions.py", S+"processing/data_processor.py"],
 [("LambdaDataTransformRecipe", S+"processing/functions.py"), ("BaseWorker._handle_data_transform_recipe / _upload_fn", S+"processing/data_processor.py")],
 observe=["calls made; files in the output location"])
prop("C22", "The caching sampler and loader cover each index once per epoch",
 "The batch sampler and loader used to fill and read a dataset cache cover every index exactly once over all ranks and workers in the caching epoch, in batches no larger than the batch size, giving each worker increasing consecutive indices; once cached, later epochs deliver the cached samples exactly once as well, shuffled or not.",
 ["inputs", "configurations", "histories"],
 "every dataset size x batch size x workers x ranks x shuffle x drop_last within bounds",
 "Tests check a few sizes by literal expected lists.",
 [S+"streaming/sampler.py", S+"streaming/dataloader.py"],
 [("CacheBatchSampler", S+"streaming/sampler.py"), ("CacheDataLoader / CacheDataset", S+"streaming/dataloader.py")],
 observe=["indices and batches yielded"])
prop("C23", "Encrypted data is unreadable without the matching key and settings",
 "Data written with encryption never appears in clear in the chunk files, and reading it without an encryption object, with a different key, or with a different encryption level or algorithm raises an error instead of returning wrong data. A saved and reloaded encryption object decrypts what the original encrypted, cannot be reloaded into a working one with another password, and its file does not hold the password in clear; reading with the matching object returns the original data, in any order and whatever other datasets are open. Data layouts that cannot be encrypted (token data) are refused rather than stored unreadable.",
 ["configurations", "inputs"],
 "every pair (write settings, read settings) of algorithm x key x level x compression",
 "Tests try one mismatch per algorithm.",
 [S+"utilities/encryption.py", S+"streaming/item_loader.py", S+"streaming/writer.py", S+"streaming/config.py"],
 [("FernetEncryption / RSAEncryption", S+"utilities/encryption.py"), ("encryption checks", S+"streaming/item_loader.py")],
 observe=["bytes of the chunk files; values or errors when reading"])
prop("C24", "Token data is cut into blocks that are contiguous and stay valid",
 "Reading token data in blocks of a given size returns, for each document-concatenated chunk, its consecutive non-overlapping blocks of exactly that many tokens in order, the last incomplete block of a chunk being left out, so that the number of blocks is the sum over chunks of whole blocks. A block that was returned stays valid and unchanged while other chunks are read, closed or evicted, for every token type and access order.",
 ["inputs", "histories", "configurations"],
 "every list of document lengths x chunk limit x block size x dtype x access order, within bounds",
 "Tests read sequentially at one block size and never keep a block across a chunk change.",
 [S+"streaming/item_loader.py", S+"streaming/writer.py"],
 [("TokensLoader.generate_intervals / load_item_from_chunk / close", S+"streaming/item_loader.py"), ("no-header tensor serialisers", S+"streaming/serializers.py")],
 observe=["tensors returned, now and later"])
prop("C25", "Input readers and directory walks present every record exactly once",
 "Splitting parquet inputs into shards for workers presents every row of every input file exactly once and in order, whatever the row counts, shard size and file locations, and walking a directory tree with parallel workers yields exactly the same directories and files as a sequential walk, under every ordering of the workers' completions.",
 ["inputs", "schedules", "configurations"],
 "every list of row counts x shard size x file placement; every tree shape up to a size x completion order",
 "Tests shard one file and walk one tree with the timing of the machine.",
 [S+"processing/readers.py", S+"processing/functions.py"],
 [("ParquetReader.remap_items", S+"processing/readers.py"), ("walk / _listdir", S+"processing/functions.py")],
 observe=["rows and paths presented"])
prop("C26", "A loader's epochs are complete, reproducible and properly ordered",
 "Iterating a streaming data loader epoch after epoch delivers in each epoch the complete data of its rank in batches of the requested size (only the last batch of a worker may be smaller), the same sequence for every run with the same seed, with fresh shuffles per epoch, and the reported number of batches is the delivered number. Leaving an epoch early and starting again, or changing the drop and shuffle settings through the loader, behaves as for a loader that was built that way.",
 ["histories", "configurations"],
 "every sequence of full, partial and restarted epochs up to a depth x workers x batch size x shuffle x drop_last",
 "Tests iterate one or two full epochs; partial epochs and setting changes leave state behind that shows only in particular histories.",
 [S+"streaming/dataloader.py", S+"streaming/dataset.py"],
 [("StreamingDataLoader.__iter__/__len__", S+"streaming/dataloader.py"), ("StreamingDataset.__iter__/__len__/set_epoch/set_shuffle/set_drop_last", S+"streaming/dataset.py")],
 observe=["batches and len"])
prop("C27", "Locations resolve to the storage they name and reads fetch the named object",
 "Each location form a user may give (local path, `local:` URL, S3, GCS, Azure and other URLs, parsed directory objects) resolves to the storage it names with scheme, bucket and path kept intact, and each chunk is fetched from exactly the object of that name below the location and stored under its own name in a cache folder that is distinct for distinct locations. A managed-storage location that needs a service unavailable here is refused with an error.",
 ["inputs", "configurations"],
 "every location form x path shape from a small grammar",
 "Tests try one path per scheme.",
 [S+"streaming/resolver.py", S+"streaming/downloader.py", S+"streaming/fs_provider.py", S+"utilities/dataset_utilities.py"],
 [("_resolve_dir", S+"streaming/resolver.py"), ("get_downloader_cls and downloaders", S+"streaming/downloader.py")],
 observe=["resolved locations; objects requested"])
prop("C28", "Nodes agree on exchanged values, managed paths name the reported storage",
 "When nodes of a job exchange a value through the key-value service, every node that goes on gets the same value, of the same type and content, which one of the nodes offered (node 0 where the service waits for it), whatever the order of the requests and whichever of them are lost, unanswered, refused or answered before a value exists; a node fails only if the service refuses it or no address works, and without a service each node keeps its own value. optimize and map on nodes that resolved different output folders store all the data in the one that was agreed. Managed paths (studios, S3 connections and folders, datasets) resolve to exactly the storage the platform reports for their name, or are refused when it reports none or a setting is missing.",
 ["schedules", "fault_sequences", "inputs"],
 "every interleaving of the nodes' requests with every failure; every set of reported studios, clusters and connections x path",
 "Tests exchange one ASCII value with one node and resolve one path per kind.",
 [S+"utilities/broadcast.py", S+"streaming/resolver.py", S+"processing/data_processor.py"],
 [("broadcast_object / _ImmutableDistributedMap", S+"utilities/broadcast.py"), ("_resolve_studio / _resolve_s3_connections / _resolve_s3_folders / _resolve_datasets", S+"streaming/resolver.py")],
 observe=["the value returned on each node; where the data is; resolved locations"])
prop("C29", "MosaicML MDS datasets are streamed sample for sample",
 "A dataset written in the MDS format of the MosaicML streaming library - uncompressed, or compressed with zstd at any level, whatever the sizes of its shards and of their compressed files, merged from several parts or not - is read, in place or through the cache, with the number of samples, the order, the column names and the values it was written with: by index, in ordered and shuffled epochs over ranks and workers, in subsets, slices, splits and resumed epochs. Columns in an encoding or compression that isn't available are refused with an error unless the user provides the serializer, never returned as something else.",
 ["inputs", "configurations", "histories"],
 "every set of columns x compression x shard size x sample count x access order, within bounds",
 "Tests read one compressed dataset of a single shard.",
 [S+"utilities/dataset_utilities.py", S+"streaming/item_loader.py", S+"streaming/config.py"],
 [("adapt_mds_shards_to_chunks / load_index_file", S+"utilities/dataset_utilities.py"), ("PyTreeLoader.mds_deserialize", S+"streaming/item_loader.py")],
 observe=["samples read; len"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
