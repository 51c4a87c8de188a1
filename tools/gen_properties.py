#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))

p('C01', 'Loading returns exactly the records that were inserted',
  'Loading a collection returns exactly the records inserted into it, in partition order: for every variable the same values, data type, dimensions and masked positions, whatever the number of records, extra dimensions, chunk sizes, compressor, filters, fill value and file system. Lazy and eager loading, loading all variables or a selection of them, and inserting an in-memory or lazy dataset (or, for variables without fill value, an xarray dataset) all give that same content.',
  ['inputs', 'configurations'],
  'all datasets (dtypes, dimensions, fill values, codecs, chunking) x partitioning schemes x local/in-memory file systems x lazy/eager on both sides',
  'The suite inserts a handful of hand-made datasets (25 pixels, day partitions); chunk boundaries, codecs, fill values, dtypes and empty-chunk elision are combinations it never samples.',
  ['zcollection/storage.py', 'zcollection/collection/__init__.py', 'zcollection/collection/abc.py', 'zcollection/variable/delayed_array.py', 'zcollection/variable/array.py', 'zcollection/dataset.py'],
  [('write_zarr_group / write_zarr_variable', 'zcollection/storage.py'), ('open_zarr_group', 'zcollection/storage.py'), ('Collection.insert / load', 'zcollection/collection/')],
  ['Collection.load()'])

p('C02', 'Every record is stored in the partition of its own key, unsorted data refused',
  'Splitting a dataset of at least one record yields contiguous, disjoint, ordered slices covering every record exactly once, each slice holding exactly the records whose key (date truncated to the chosen resolution, or integer tuple) is the key of the partition it is stored under. A dataset whose keys are not in non-decreasing order is refused with an error instead of storing records under a wrong key. In-memory and lazy datasets, however chunked, give the same result.',
  ['inputs'], 'all key sequences (sorted or not, repeated keys, single records, any integer dtype, any time unit, dates before 1970), resolutions and chunkings',
  'Tests split a few regular sequences; irregular runs, boundaries between units, chunk edges and non-monotonic sequences are an infinite input space.',
  ['zcollection/partitioning/abc.py', 'zcollection/partitioning/date.py', 'zcollection/partitioning/sequence.py'],
  [('split_dataset / index_dataset', 'zcollection/partitioning/abc.py'), ('unique, unique_and_check_monotony', 'zcollection/partitioning/abc.py'), ('_split', 'zcollection/partitioning/{date,sequence}.py')],
  ['Partitioning.split_dataset()', 'per-partition content on disk'])

p('C03', 'Partition keys, names and listings round-trip and stay ordered',
  'For every partitioning scheme, turning a partition key into its directory name and parsing it back, or encoding it to values and decoding them, is the identity, and distinct keys have distinct names. Listing a collection reports every stored partition exactly once in increasing numeric key order, ignoring files and hidden directories at the root, wherever the collection is located. A scheme rebuilt from its saved configuration behaves like the original, including its key data types.',
  ['inputs', 'configurations'], 'all partition keys of all schemes, all sets of partitions, all base directories',
  'Tests parse a few literal names under one base directory; lexicographic/numeric order, negative or wide keys and unusual locations are not sampled.',
  ['zcollection/partitioning/abc.py', 'zcollection/partitioning/date.py', 'zcollection/partitioning/sequence.py', 'zcollection/partitioning/registry.py', 'zcollection/collection/abc.py'],
  [('parse / join / encode / decode', 'zcollection/partitioning/'), ('list_partitions', 'zcollection/partitioning/abc.py'), ('get_config / get_codecs', 'zcollection/partitioning/')],
  ['Collection.partitions()'])

p('C04', 'Any history of writes equals a plain map from partition key to records',
  'After any sequence of inserts, partition drops, updates, variable additions and removals and reopenings, the collection contains what the same operations leave in a plain map from partition key to records: an insert without merge strategy replaces exactly the partitions present in the inserted data, variables absent from the inserted dataset hold their fill value, and nothing else changes. Insert and drop return the partitions they wrote or removed.',
  ['histories', 'inputs'], 'all finite operation histories over overlapping partitions, with reopen at any point',
  'Each test performs one or two operations from a fresh collection; interactions (insert after add_variable, re-insert after drop, shorter data over longer) need generated histories.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/detail.py', 'zcollection/merging/__init__.py', 'zcollection/storage.py'],
  [('Collection.insert/_insert', 'zcollection/collection/'), ('merging.perform / _update_fs', 'zcollection/merging/__init__.py'), ('drop_partitions, add_variable, drop_variable, update', 'zcollection/collection/__init__.py')],
  ['Collection.load(), Collection.partitions() after every operation'])

p('C05', 'Time-series merge keeps every record not superseded, in time order',
  'Inserting time-ordered data with the time-series merge strategy leaves, in each touched partition, the inserted records plus exactly the already stored records whose time lies strictly outside the period from the first to the last inserted time; when a tolerance is given, outside every run of inserted records without a gap larger than the tolerance. The result is in time order and no record is lost, duplicated or mixed with another one, for every time unit.',
  ['inputs', 'histories'], 'all pairs (and chains) of sorted time axes with any overlap relation, time units, tolerances, lazy or eager',
  'Tests check a few overlaps with hours between samples; boundaries one time unit apart, gaps, single records and coarse units are not sampled.',
  ['zcollection/merging/time_series.py', 'zcollection/merging/period.py', 'zcollection/merging/__init__.py', 'zcollection/dataset.py'],
  [('merge_time_series', 'zcollection/merging/time_series.py'), ('Period.get_relation / intersection', 'zcollection/merging/period.py')],
  ['merge_time_series() result', 'Collection.load() after insert(merge_callable=merge_time_series)'])

p('C06', 'A user merge strategy sees and decides exactly the touched partitions',
  'When inserting with a merge strategy, each partition of the inserted data that already exists is rewritten with the dataset returned by the strategy, which is called for it once with the complete stored records, exactly the inserted records of that partition, the axis, the partitioned dimension and the extra arguments given by the caller. Partitions not existing yet receive the inserted records unchanged and all other partitions are left untouched.',
  ['inputs', 'histories'], 'all merge functions (prepend, append, drop, shrink, empty-overlap) x all overlaps of existing and inserted partitions',
  'Tests only use the built-in strategy with overlapping days.',
  ['zcollection/merging/__init__.py', 'zcollection/collection/detail.py'],
  [('perform', 'zcollection/merging/__init__.py'), ('_insert', 'zcollection/collection/detail.py')],
  ['arguments recorded by the strategy', 'Collection.load()'])

p('C07', 'Partition filters select exactly the matching partitions everywhere',
  'A filter, given as an expression or as a function, makes listing, loading, mapping, updating, dropping, copying and validating apply to exactly the partitions whose key satisfies it, and leaves every other partition untouched. Selecting nothing returns or does nothing without error. Dropping by age removes exactly the selected partitions older than the given duration, whatever the local time zone.',
  ['inputs', 'configurations'], 'all filter expressions over the keys (comparisons, arithmetic, boolean logic, membership), all sets of partitions',
  'Tests use two or three literal filters on one layout; they never compare against a brute-force evaluation of the predicate.',
  ['zcollection/collection/abc.py', 'zcollection/collection/__init__.py', 'zcollection/expression.py'],
  [('partitions / _is_selected', 'zcollection/collection/abc.py'), ('Expression', 'zcollection/expression.py'), ('drop_partitions', 'zcollection/collection/__init__.py')],
  ['Collection.partitions/load/map/update/drop_partitions/copy/validate_partitions'])

p('C08', 'Update applies the function to each selected partition and nothing else',
  'Updating replaces, in every selected partition, exactly the variables returned by the function with the values it computes from that partition (plus, with an overlap depth, its neighbours among the selected partitions in order, trimmed to the partition unless asked otherwise), masked values becoming the fill value. Variables not returned, partitions not selected and the arguments passed by the caller are unchanged, and a function returning unknown variables is refused before anything is written.',
  ['inputs', 'configurations'], 'all update functions x depth x trim x filters x selected variables x lazy/eager x batch sizes',
  'Tests use constant functions with depth 0-2 on regular 25-record partitions; unequal partition sizes, edges, filters combined with depth and masked results are not sampled.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/detail.py', 'zcollection/storage.py'],
  [('Collection.update', 'zcollection/collection/__init__.py'), ('_wrap_update_func(_with_overlap)', 'zcollection/collection/detail.py'), ('update_zarr_array', 'zcollection/storage.py')],
  ['Collection.load() before/after update'])

p('C09', 'Map and overlapping map call the function once per partition with its data',
  'Mapping a function over a collection returns one result per selected partition, in partition order and labelled with its key, computed from exactly the records of that partition and of the selected variables. With an overlap depth the function receives the concatenation, in order, of the partition and up to that many selected neighbours on each side, and the partition range passed to it designates exactly the records of the partition itself. Storage is never modified.',
  ['inputs', 'configurations'], 'all collections, depths, filters, variable selections, bag sizes, lazy/eager',
  'Tests map over regular partitions with one depth and never check the neighbour window for arbitrary sizes and filters.',
  ['zcollection/collection/abc.py', 'zcollection/collection/detail.py'],
  [('map / map_overlap', 'zcollection/collection/abc.py'), ('_load_dataset_with_overlap', 'zcollection/collection/detail.py')],
  ['Collection.map().compute(), Collection.map_overlap().compute()'])

p('C10', 'Loading through an indexer returns exactly the indexed records',
  'Loading with an indexer returns the concatenation, in partition order, of the requested slices of each designated partition (several slices of a partition being kept in the given order; the indexer designates existing partitions), restricted by the partition filter when there is one; it returns nothing when no requested partition is selected. The same holds for a view, with the variables of the view aligned on the same records, for any selection of variables.',
  ['inputs', 'configurations'], 'all indexers (any order, repeated/overlapping/empty slices), filters, variable selections, on collections and views',
  'Tests use one cycle/pass index on one layout.',
  ['zcollection/collection/abc.py', 'zcollection/collection/detail.py', 'zcollection/view/__init__.py', 'zcollection/view/detail.py'],
  [('load / build_indexer_args / list_partitions_from_indexer', 'zcollection/collection/abc.py'), ('_load_and_apply_indexer', 'zcollection/collection/detail.py'), ('View.load', 'zcollection/view/')],
  ['Collection.load(indexer=...), View.load(indexer=...)'])

p('C11', 'An index answers queries like a scan of the collection it indexes',
  'After an index has been created and updated over a collection, querying it by column values designates exactly the records a full scan would select: partitions in order, adjacent slices merged without adding or losing records, never merging across partitions, combined with the requested logical operator (and, or, xor, and not). Updating after partitions were rewritten or added replaces the entries of those partitions and keeps the others, and reopening the index from its file gives the same answers.',
  ['histories', 'inputs'], 'all index contents (multi-column, gaps, adjacent slices), queries, and histories of insert/update/reopen',
  'Tests build one index over regular half-orbits and run a few queries.',
  ['zcollection/indexing/abc.py'],
  [('Indexer._update / query / _table_2_indexer / open', 'zcollection/indexing/abc.py')],
  ['Indexer.query(), Indexer.table'])

p('C12', 'A failed insert never damages stored data nor leaves half-written partitions',
  'When an insert fails part-way (one storage error at any write, a merge function that raises, an unencodable variable), the error reaches the caller, every partition that existed before still holds either its complete previous content or its complete new content, and no partially written partition is listed or loaded. Repeating the insert once the fault is gone succeeds and gives the result an undisturbed insert would have given (for merge strategies that give the same result when applied twice). A failed variable addition leaves the collection as it was.',
  ['fault_sequences', 'crash_points', 'inputs'], 'all positions of a storage failure during inserts (new, overwriting, merging), on local and in-memory file systems, and all raising merge functions',
  'Two tests inject an error at one fixed point; the position of the fault among hundreds of storage operations is never enumerated.',
  ['zcollection/collection/detail.py', 'zcollection/merging/__init__.py', 'zcollection/storage.py', 'zcollection/collection/__init__.py'],
  [('_insert cleanup', 'zcollection/collection/detail.py'), ('_update_fs temporary directory + rename', 'zcollection/merging/__init__.py'), ('execute_transaction', 'zcollection/storage.py')],
  ['content of the collection directory and Collection.load() after the failure and after the retry'])

p('C13', 'Reading never modifies storage and read-only collections refuse writes',
  'On a collection opened read-only every modifying operation (insert, update, partition drop, variable addition or removal, validation with repair) is refused with an unsupported-operation error and the stored files are left byte-for-byte unchanged. Loading, listing, mapping, copying from, validating without repair, and building or querying views and indexes never change the files of the collection they read, in any mode.',
  ['histories', 'inputs'], 'all sequences of operations on a read-only (or merely read) collection',
  'Tests call each refused method once and never compare the bytes on disk.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py', 'zcollection/convenience/collection.py'],
  [('_read_only_mode', 'zcollection/collection/__init__.py')],
  ['byte-level snapshot of the collection directory'])

p('C14', 'Adding or dropping a variable touches exactly that variable everywhere',
  'A variable added to a collection exists in every partition with the right shape, data type and chunking, entirely masked by its fill value, and can then be updated and inserted like the others; dropping a variable removes it from every partition and from the metadata. All other variables keep their content, the change is visible after reopening, and invalid requests (existing name, unknown dimension, missing partitioned dimension, axis or partitioning key, unknown variable) are refused without any change.',
  ['histories', 'inputs', 'configurations'], 'all variable definitions (dtype, dims, fill value, codecs), any set of partitions including none',
  'Tests add and drop one or two variables on one layout.',
  ['zcollection/collection/__init__.py', 'zcollection/storage.py', 'zcollection/meta.py'],
  [('add_variable / drop_variable', 'zcollection/collection/__init__.py'), ('add_zarr_array / del_zarr_array', 'zcollection/storage.py'), ('search_same_dimensions_as', 'zcollection/meta.py')],
  ['Collection.load(), open_collection()'])

p('C15', 'A copied collection is an independent, equal collection',
  'Copying a collection, possibly restricted by a filter and possibly to another file system, yields a collection that opens with the same configuration and contains exactly the selected partitions with identical content, including variables that do not depend on the partitioned dimension. The source is unchanged, and later changes to either collection do not affect the other.',
  ['inputs', 'configurations', 'histories'], 'all collections, filters, file-system pairs, batch sizes, including empty selections',
  'Tests copy one small collection once.',
  ['zcollection/collection/__init__.py', 'zcollection/fs_utils.py'],
  [('Collection.copy', 'zcollection/collection/__init__.py'), ('copy_tree / copy_files', 'zcollection/fs_utils.py')],
  ['Collection.load() on both, byte snapshots'])

p('C16', 'Reopening restores exactly the saved configuration',
  'A collection (or the metadata of a dataset) written to storage and reopened has the same axis, partitioning scheme and parameters, variables with their data types, dimensions, fill values, compressors, filters, attributes, dimension names, chunk sizes and block limit, and behaves identically afterwards. Creating over an existing collection, opening a missing one, using an invalid axis, key or mode, or attributes that cannot be saved is refused without changing storage.',
  ['inputs', 'configurations'], 'all metadata: dtypes, fill values (NaN, datetime, big integers), attribute types, codecs, chunking',
  'Tests round-trip a few metadata objects with simple attributes and fill values.',
  ['zcollection/meta.py', 'zcollection/collection/__init__.py', 'zcollection/convenience/collection.py', 'zcollection/partitioning/abc.py'],
  [('get_config / from_config', 'zcollection/meta.py'), ('_write_config / from_config', 'zcollection/collection/__init__.py'), ('create_collection / open_collection', 'zcollection/convenience/collection.py')],
  ['open_collection() attributes', 'meta.Dataset equality'])

p('C17', 'A view shows the reference data plus its own variables, changing only itself',
  'Loading a view returns, for the partitions selected by the view, the variables of the reference collection with the variables of the view aligned on the same records; updating, adding or dropping view variables changes only those variables, only in the selected partitions, and never any file of the reference. Variables of the reference cannot be modified or shadowed through the view, mapping with or without overlap sees the same data as loading, and a reopened view gives the same content. A failed addition of a variable leaves the view as it was.',
  ['histories', 'inputs', 'configurations'], 'all histories of add/update/drop/load/map/reopen on views with any filter over any reference',
  'Tests exercise one view on one layout and never compare reference bytes or histories.',
  ['zcollection/view/__init__.py', 'zcollection/view/detail.py', 'zcollection/convenience/view.py'],
  [('View.load/update/add_variable/drop_variable/map/map_overlap', 'zcollection/view/'), ('_load_one_dataset, _select_overlap', 'zcollection/view/detail.py')],
  ['View.load(), View.map(), byte snapshot of the reference'])

p('C18', 'Synchronising a view realigns it with its reference and loses no valid value',
  'After the reference collection changes in any way, the view reports itself synchronised if and only if every partition of the reference is present in it with the same axis values and all variables of the view, and synchronising makes the view loadable and aligned again. Partitions whose axis did not change keep their view values, partitions that only grew at the end keep the values of the records they had and get fill values for the new ones, and all other changed or new partitions are filled with fill values. Synchronising returns a predicate selecting exactly the partitions that were out of date, and doing it twice changes nothing more. A synchronisation stopped by a storage error can be repeated and then realigns the view in the same way, except that the partitions that were out of date may then hold only fill values.',
  ['histories'], 'all histories of reference changes (insert, overwrite, extend, shrink, drop) interleaved with view updates and synchronisations',
  'Tests synchronise after one append or one overwrite only.',
  ['zcollection/view/__init__.py', 'zcollection/view/detail.py'],
  [('sync / is_synced', 'zcollection/view/__init__.py'), ('_sync / _extend_partition / checksum', 'zcollection/view/detail.py')],
  ['View.is_synced(), View.sync(), View.load()'])

p('C19', 'Dataset operations agree with plain array semantics, lazily or eagerly',
  'Selecting records (slices, index arrays, boolean masks), concatenating, deleting records, merging, renaming, selecting or dropping variables, adding variables, persisting and rechunking a dataset give on every variable the result of the same operation on plain arrays along the named dimension, variables without that dimension being kept as they are. In-memory and lazy datasets give the same result, dimensions always describe the variables, operations that return a new dataset do not alter their operands, and inconsistent requests are refused, leaving the dataset as it was.',
  ['inputs', 'programs'], 'all datasets and all sequences of operations on them',
  'Tests check each operation on one or two fixed arrays.',
  ['zcollection/dataset.py', 'zcollection/variable/abc.py', 'zcollection/variable/array.py', 'zcollection/variable/delayed_array.py'],
  [('Dataset.isel/concat/delete/merge/select_vars/drops_vars/rename/add_variable', 'zcollection/dataset.py'), ('Variable.isel/concat', 'zcollection/variable/')],
  ['Dataset public API'])

p('C20', 'Fill values and masks are interpreted consistently at every boundary',
  'A value is masked when read if and only if it equals the fill value of its variable (a NaN or NaT fill value equals nothing), whether the variable is in memory or lazy, indexed, computed, persisted, stored and reloaded, or converted. Assigning a masked array stores the fill value at the masked positions and keeps the other values; a mismatch of fill value or of number of dimensions is refused; filling a variable masks all of it, and variables without fill value are returned as they are.',
  ['inputs'], 'all dtypes, fill values (zero, negative, extreme, NaN), masks and shapes',
  'Tests use one or two fill values on one dtype.',
  ['zcollection/variable/abc.py', 'zcollection/variable/array.py', 'zcollection/variable/delayed_array.py', 'zcollection/storage.py'],
  [('values / data / fill / duplicate', 'zcollection/variable/'), ('update_zarr_array', 'zcollection/storage.py')],
  ['Variable.values/data/__getitem__', 'stored arrays'])

p('C21', 'Converting to and from xarray, dictionaries and pickles preserves the dataset',
  'A dataset pickled and unpickled, lazily or not, or converted to a dictionary keeps its variables, values, masked positions, data types, dimensions, fill values and attributes, and its chunking settings when pickled. Converted to xarray, it has missing values exactly at the masked positions and equal values elsewhere, with the same dimensions and attributes; converting back is the identity for variables without fill value. Values computed from a dataset as a dictionary are those of each variable. A lazy dataset written to a Zarr group, in parallel or not, is found identical when the group is opened.',
  ['inputs'], 'all datasets, lazy or eager',
  'Tests convert one dataset of floats.',
  ['zcollection/dataset.py', 'zcollection/variable/abc.py'],
  [('to_xarray / from_xarray / to_dict / compute / to_zarr / __getstate__ / __setstate__', 'zcollection/dataset.py')],
  ['Dataset public API'])

p('C22', 'In-memory compression is transparent',
  'An array held compressed in memory, or a dataset persisted with compression, yields exactly the values, shape, data type and masked positions of the original under reading, indexing, arithmetic, concatenation, and every dataset operation; modifying values through it is visible to later reads.',
  ['inputs'], 'all arrays (dtypes, sizes including empty, memory order), codecs and index expressions',
  'Tests compress two small arrays.',
  ['zcollection/compressed_array.py', 'zcollection/dataset.py'],
  [('CompressedArray', 'zcollection/compressed_array.py'), ('Dataset.persist(compress=True)', 'zcollection/dataset.py')],
  ['numpy.asarray(CompressedArray), Dataset.persist'])

p('C23', 'Validation reports exactly the unreadable partitions, repair removes only them',
  'Validating a collection reports exactly those selected partitions whose stored data cannot be read completely (missing or damaged metadata, truncated or corrupted chunks), without changing anything; with repair these partitions and only these are removed, after which the collection loads the remaining partitions unchanged.',
  ['fault_sequences', 'inputs'], 'all subsets of partitions and kinds of damage to any of their files',
  'One test damages one file of one partition.',
  ['zcollection/collection/__init__.py', 'zcollection/storage.py'],
  [('validate_partitions', 'zcollection/collection/__init__.py'), ('check_zarr_group', 'zcollection/storage.py')],
  ['Collection.validate_partitions()'])

p('C24', 'Variables without the partitioned dimension are stored once and always available',
  'Variables that do not depend on the partitioned dimension keep the value given by the first insert, are stored once outside the partitions, never appear as a partition, and are present with that value in every load, map, overlapping map, update, indexer load and copy, whatever is inserted or dropped afterwards; an attempt to drop one is refused.',
  ['histories', 'configurations'], 'all collections mixing partitioned and non-partitioned variables, axis named like its dimension or not, all histories',
  'Tests insert one such variable and load it.',
  ['zcollection/collection/__init__.py', 'zcollection/collection/abc.py', 'zcollection/collection/detail.py', 'zcollection/meta.py', 'zcollection/dataset.py'],
  [('_write_immutable_dataset / _immutable_path', 'zcollection/collection/'), ('select_variables_by_dims', 'zcollection/dataset.py')],
  ['Collection.load/map/map_overlap/update/copy'])

p('C25', 'Every modification happens under the lock, which is always released',
  'When a collection or a view is given a synchroniser, every change made to its stored partitions is made while the lock is held, no two modifications from different holders overlap, and the lock is free again once the operation returns or raises. The file-based lock excludes other processes, reports whether it holds the lock, and once pickled still designates the same lock.',
  ['schedules', 'histories', 'fault_sequences'], 'all operations (including failing ones), interleavings of several writers',
  'Tests check that a lock file exists; they never observe writes against lock ownership or concurrent holders.',
  ['zcollection/sync.py', 'zcollection/storage.py', 'zcollection/collection/__init__.py', 'zcollection/view/__init__.py'],
  [('execute_transaction', 'zcollection/storage.py'), ('ProcessSync', 'zcollection/sync.py')],
  ['recorded file-system mutations versus recorded lock state'])

p('C26', 'Results do not depend on batching, workers, or chunk parallelism',
  'Inserting, updating, copying, mapping, loading and listing give the same content, whatever the number of partitions processed at once, the size of the bags, the number of Dask workers and threads, and the chunking of the input. Splitting work into batches distributes every item exactly once, in order, into batches whose sizes differ by at most one.',
  ['schedules', 'configurations'], 'all batch sizes, worker and thread counts, input chunkings',
  'Tests run with one cluster shape and default batches.',
  ['zcollection/dask_utils.py', 'zcollection/collection/__init__.py', 'zcollection/storage.py'],
  [('split_sequence', 'zcollection/dask_utils.py'), ('npartitions handling', 'zcollection/collection/__init__.py')],
  ['final content under different settings'])

p('C27', 'Period relations and operations agree with sets of instants',
  'For all periods of the same unit, every relation predicate, containment test, intersection, union and gap operation, comparison, duration and emptiness test agrees with the set of instants the period denotes, and exactly one of the elementary relations between two non-empty periods holds.',
  ['inputs'], 'all pairs of periods (touching, nested, equal, disjoint, single instants, empty) in every time unit, given by inclusive or exclusive ends',
  'Tests enumerate a few dates by hand.',
  ['zcollection/merging/period.py'],
  [('Period, PeriodRelation', 'zcollection/merging/period.py')],
  ['Period public API'])

p('C28', 'Expressions evaluate like Python over their variables and nothing else',
  'A partition filter expression gives the truth value Python gives for the same expression over the partition keys, rejects unknown names and undeclared builtins, and can be sent to workers without changing meaning. An expression over a dataset gives the value NumPy gives for the same expression over its variables.',
  ['inputs', 'programs'], 'all expressions of the filter grammar over all key bindings',
  'Tests evaluate about ten literal expressions.',
  ['zcollection/expression.py', 'zcollection/dataset.py'],
  [('Expression', 'zcollection/expression.py')],
  ['Expression.__call__'])

p('C29', 'File-tree helpers walk and copy every file once, unchanged',
  'Walking a directory visits every directory and file below it exactly once, in sorted order when asked; copying a file, a set of files or a tree, within or across file systems, reproduces every file byte for byte at the corresponding relative path and changes nothing else; joining and normalising paths designates the same location.',
  ['inputs', 'configurations'], 'all directory trees and pairs of file systems',
  'Tests walk and copy one fixed tree.',
  ['zcollection/fs_utils.py'],
  [('fs_walk, copy_file, copy_files, copy_tree, join_path, normalize_path', 'zcollection/fs_utils.py')],
  ['files at the target'])

p('C30', 'Attributes come from the collection and survive every operation',
  'The attributes of a collection and of its variables are those it was created with: every dataset loaded from it carries exactly these, whatever attributes the inserted datasets carried, after merges, updates, variable additions and copies, and for views the attributes of the reference and of the view variables.',
  ['histories', 'inputs'], 'all attribute values and histories of inserts with differing attributes',
  'Tests compare attributes after one insert only.',
  ['zcollection/dataset.py', 'zcollection/collection/__init__.py', 'zcollection/collection/abc.py', 'zcollection/meta.py'],
  [('set_for_insertion / fill_attrs', 'zcollection/dataset.py'), ('load', 'zcollection/collection/abc.py')],
  ['attrs of loaded datasets and variables'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P), 'properties')
