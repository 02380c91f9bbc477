"""Writes /verif/properties.jsonl (kept as a script so that the list is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        observe_at=observe,hook_needed=None)))
S='src/valori/'
ST=[S+'storage/memory.py',S+'storage/disk.py',S+'storage/hybrid.py']
IDX=[S+'indices/flat.py',S+'indices/hnsw.py',S+'indices/ivf.py',S+'indices/lsh.py',S+'indices/annoy.py',S+'indices/base.py']
IDX3=IDX[:3]+[S+'indices/base.py']

p('P01','Every storage backend is an exact key-value map',
 'For the memory, disk and hybrid backends alike, retrieving an id returns exactly the vector (values, dtype and shape) and metadata of the last successful store or update of that id, and nothing after a delete; metadata given as None is absent and {} is {}. Store, update and delete report whether they took effect (update and delete of an absent id return False and change nothing, a store under an empty id returns False and stores nothing), listing returns exactly the stored ids (at most limit of them), and the reported vector count equals their number.',
 ['histories','inputs'],'all sequences of initialize/store/retrieve/update/delete/list/stats on any ids, vectors and metadata, for each backend',
 'The tests run one or two fixed operations per backend on one id and one float32 vector; overwrite/delete/re-add histories and None/{} metadata or other dtypes are not sampled.',
 ST,[('store/retrieve/delete/update/list of each backend',S+'storage/*.py')],['return values of the StorageBackend methods','get_stats()["vector_count"]'],
 [('vectors / metadata','the key-value map',S+'storage/memory.py MemoryStorage'),('*.npy / *.pkl files','the key-value map on disk',S+'storage/disk.py DiskStorage')])
p('P02','Stored data is isolated from the objects callers hold',
 'Changing a vector array or a (nested) metadata object after handing it to, or after receiving it from, a storage backend or a vector index never changes what later retrievals and searches return. Storing and searching never modify the arrays and objects the caller passed in.',
 ['histories','inputs'],'all interleavings of store/insert/update/retrieve/search with in-place mutation of every argument and every result, for the three storage backends and the five indices',
 'No test mutates an argument or a result and looks again; aliasing shows only in a later operation.',
 ST+IDX,[('copies on the way in and out',S+'storage/memory.py store_vector/retrieve_vector'),('deepcopy of metadata',S+'indices/lsh.py, annoy.py'),('vector.copy() into caches',S+'indices/flat.py, ivf.py, hnsw.py')],['retrieve_vector()','search()'])
p('P03','Distinct ids never interfere, whatever characters they contain',
 'Two different ids always name two different records: storing, updating or deleting one never changes, hides or removes the other, in every backend. Listing returns the ids exactly as they were given, and no id makes the disk backend read, write or delete outside its own data directory.',
 ['inputs','histories'],'all non-empty string ids (separators, dots, percent signs, unicode, control characters, case variants, suffixes like .npy or .tmp, path traversals) in any combination',
 'The tests use a handful of plain ids such as "test_vector"; a lossy id-to-file mapping only shows for particular pairs of ids.',
 [S+'storage/disk.py',S+'storage/hybrid.py',S+'storage/memory.py'],[('injective file-name encoding',S+'storage/disk.py _sanitize_id / list_vectors')],['retrieve_vector()','list_vectors()','files created outside data_dir'])
p('P04','The hybrid backend bounds its memory and never serves stale data',
 'The hybrid backend never keeps more vectors in memory than its memory limit, which includes a limit of zero, and still serves every record. Whatever was evicted, promoted, updated or deleted before, a retrieve returns the latest record, and a deleted id is gone from both layers.',
 ['histories','configurations'],'all operation sequences over more ids than fit, for every memory limit >= 0',
 'The tests store a few vectors under one limit; stale copies need an update or delete around an eviction and promotion.',
 [S+'storage/hybrid.py'],[('eviction and promotion',S+'storage/hybrid.py store_vector/retrieve_vector/_evict_from_memory')],['get_stats()["memory"]["vector_count"]','retrieve_vector()','the disk layer read on its own'])
p('P05','Data on disk survives restarts and indices rebuild from it',
 'After closing (or just dropping) a disk or hybrid backend and opening a new one on the same directory, exactly the records acknowledged before are there, with the same vectors and metadata. A Flat, HNSW or IVF index initialized on a storage backend that already holds vectors finds all of them, and closing an index or a client never deletes stored data on disk.',
 ['histories'],'all histories of operations and restarts',
 'One test reopens a disk store once, with one vector; index rebuild after updates and deletes is not tested.',
 [S+'storage/disk.py',S+'storage/hybrid.py',S+'indices/flat.py',S+'indices/hnsw.py',S+'indices/ivf.py',S+'client.py'],[('initialize() loads existing ids',S+'indices/*.py initialize'),('vector and metadata files',S+'storage/disk.py')],['retrieve_vector()/list_vectors() of a fresh instance','search() of a fresh index'])
p('P06','A crash or I/O failure never tears a stored record',
 'If the process dies, or the operating system reports an error, at any point of a disk or hybrid store, update or delete, then after reopening every other record is untouched and the affected record is either absent (only if it was new or being deleted) or readable with a vector that is wholly the old or wholly the new one and metadata that is wholly old or wholly new. An operation that reported success is durable and an operation that failed is reported as an error.',
 ['crash_points','fault_sequences'],'every file-system call inside every mutating operation, as a crash point and as an I/O error',
 'No test interrupts an operation or injects an error.',
 [S+'storage/disk.py',S+'storage/hybrid.py'],[('write aside, then rename; vector file last',S+'storage/disk.py _write_record')],['reopened backend'])
p('P07','Search results are sound for every index',
 'Every search returns at most k results, all for distinct vectors that are currently in the index, ordered from best to worst, each with the metadata last given for that vector and with the true score between the query and its current vector in the configured metric. Deleted vectors and outdated values are never returned.',
 ['histories','inputs','configurations'],'all histories of insert/update/delete/search(/build) on Flat, HNSW, IVF, LSH and Annoy, every supported metric, any query and any k >= 0',
 'The tests look at result counts and at one nearest neighbour for random data; scores, order, metadata after updates and deletions are rarely checked.',
 IDX,[('search()',S+'indices/*.py')],['results of search()'])
p('P08','Exact searches return the true top k',
 'A Flat search, an IVF search before training or with as many probes as clusters, an HNSW search with ef_search at least the number of vectors, and an Annoy search with the default search_k return exactly min(k, n) results, and no vector left out is strictly closer to the query than a returned one. This holds after any inserts, updates and deletes.',
 ['histories','inputs','configurations'],'all histories, queries and k >= 0 in those configurations',
 'Exactness over histories cannot be sampled by a few random queries; lost vectors appear only for particular graph shapes, cluster assignments and deletions.',
 IDX,[('brute force',S+'indices/flat.py search'),('graph traversal with fallback',S+'indices/hnsw.py search'),('full probing',S+'indices/ivf.py search'),('search_k and removed items',S+'indices/annoy.py search')],['results of search()'])
p('P09','Insert, update and delete change exactly the named vectors',
 'Insert returns one new id per vector, in order, never one that is in use; update changes exactly the given vector and reports an unknown id without changing anything; delete removes exactly the given ids, returns True if and only if all were present, and still removes those that were. The reported vector count always equals the number of vectors in the index.',
 ['histories','inputs'],'all histories of insert/update/delete with known, unknown, repeated and already deleted ids on all five indices',
 'The tests delete and update one known id; unknown or repeated ids and counts afterwards are not covered for most indices.',
 IDX,[('insert/update/delete',S+'indices/*.py')],['return values','get_stats() counts','search results with k = n'])
p('P10','Index and storage always agree',
 'For Flat, HNSW and IVF the vectors an index serves are exactly the vectors its storage backend holds: after every insert, update, delete or failed operation, both have the same ids, vectors and metadata. This holds through the client as well as on the index itself, and when the storage backend fails in the middle of an operation.',
 ['histories','fault_sequences'],'all histories, with storage failures at any call',
 'Tests never compare the two sides, nor fail a storage call in the middle of a batch.',
 IDX3+[S+'client.py'],[('write-through and rollback of half-inserted batches',S+'indices/*.py insert')],['list_vectors()/retrieve_vector() against search() and get_stats()'])
p('P11','Rejected input has no effect',
 'Vectors of another dimension, NaN or infinite values and arrays of the wrong rank are rejected with an error (for an update possibly by returning False) by all indices, by the training of quantizers and by the client, and operations on an uninitialized index, storage backend, quantizer or client are refused. A rejected operation leaves all vectors, metadata, ids and counts exactly as they were, in a batch also those of the valid items.',
 ['inputs','histories'],'all invalid inputs at any position of a batch and any point of a history',
 'The tests check that a few invalid inputs raise, not that the state is unchanged afterwards, and never put the bad item in the middle of a batch.',
 IDX+ST+[S+'utils/validation.py',S+'client.py',S+'quantization/scalar.py',S+'quantization/product.py',S+'quantization/saq.py'],[('_check_vectors',S+'indices/base.py'),('validate_vector',S+'utils/validation.py')],['exceptions and the state seen afterwards'])
p('P12','Components can be closed, reopened and reinitialized safely',
 'After close every operation of a storage backend, index, quantizer, persistence manager or client is refused with an error until initialize is called again, and close can be repeated and leaves no temporary files behind. Initializing a component again gives a working component whose content is exactly what its storage holds (nothing from an earlier life, nothing lost, nothing duplicated); this also holds when one directory is handed from one component to another, and when a part of a client fails while it is initialized or closed.',
 ['histories'],'all sequences of initialize/operations/close on every component',
 'The tests initialize once and close once.',
 IDX+ST+[S+'client.py',S+'processors/pipeline.py'],[('initialize/close',S+'**/*.py')],['exceptions after close, content after initialize'])
p('P13','Saved state loads back exactly, and failed saves keep the old state',
 'With the tensor and the incremental persistence manager, loading the state, vectors or index saved last returns equal values (for arrays also dtype and shape), under any name and after a restart. A save that fails or is interrupted by a crash at any point leaves the previously saved value or the new one, never a torn or missing one, and data that could not be read back is rejected when saving.',
 ['inputs','crash_points','fault_sequences'],'all states/arrays/names, with and without compression, every crash and I/O-error point of a save',
 'The tests save and load small fixed dictionaries once; overwriting, compression variants, special values and interruptions are not covered.',
 [S+'persistence/tensor.py',S+'persistence/base.py',S+'persistence/incremental.py'],[('write aside and rename',S+'persistence/base.py _write_file')],['load_state()/load_vectors()/load_index()'])
p('P14','Incremental persistence recovers the latest state after any history',
 'After any sequence of saves (of states, vectors and indices), failures, crashes and restarts, the incremental manager restores the value saved last (or, for a save interrupted by a crash, that one or the one before) and keeps accepting saves. Operation numbers increase strictly across restarts, so that a newer checkpoint is never mistaken for an older one; every acknowledged save is in the log, and the reported counters agree with what was saved.',
 ['histories','crash_points','configurations'],'all histories of saves, failures, crashes and restarts, every checkpoint interval',
 'The tests use one manager instance and never restart it in the middle of a history.',
 [S+'persistence/incremental.py'],[('_recover_operation_count, checkpoints and log',S+'persistence/incremental.py')],['load_state()/load_vectors()/load_index()','get_stats()','operations.log and checkpoint files'])
p('P15','Concurrent storage operations are linearizable',
 'Concurrent calls from several threads on one memory or hybrid backend behave as if they had been executed one after another in some order that respects their real-time order: no lost update, no half-written record, no phantom. The memory bound of the hybrid backend and the reported count hold under every interleaving.',
 ['schedules','histories'],'all thread schedules of store/update/delete/retrieve/list by several threads on shared ids',
 'The tests are single-threaded (one test starts threads on disjoint ids and joins); races need particular preemptions.',
 [S+'storage/memory.py',S+'storage/hybrid.py'],[('RLock around each operation',S+'storage/memory.py, hybrid.py')],['call/return histories'])
p('P16','Batch runs account for every item exactly once',
 'A batch insert, search or update handles every input item exactly once and in order of the input: the ids or results returned line up with the input and no item is lost, repeated or swapped across batch borders. The statistics, the reported rate and the printed progress of a run count every item as either processed or failed and successful items are stored even if others fail.',
 ['inputs','fault_sequences','configurations'],'all numbers of items, batch sizes, worker counts and sets of failing items or batches',
 'Batch handling is hardly tested; border cases such as a partial last batch with a failure in the middle are not.',
 [S+'utils/batch_manager.py',S+'client.py'],[('batching loops and statistics',S+'utils/batch_manager.py')],['returned ids/results, statistics, database content'])
p('P17','Concurrent use of one client is linearizable',
 'Inserts, searches, updates and deletes from several threads on one client behave like some sequential execution that respects real-time order: every acknowledged vector is searchable, each id is unique, and counts are right. Parallel batch insertion returns the ids in the order of the input under every schedule.',
 ['schedules'],'all schedules of several client threads and of the worker threads of a parallel batch insert',
 'Races need particular preemptions, which tests do not control.',
 [S+'client.py',S+'utils/batch_manager.py'],[('lock around client operations',S+'client.py'),('order of futures',S+'utils/batch_manager.py parallel_batch_insert')],['call/return histories'])
p('P18','Quantizers keep to their training and error bounds',
 'Up to floating-point rounding, a trained scalar quantizer reconstructs every vector inside the trained range to within half a quantization step per dimension and clips values outside it to the range (in dimensions that vary in training); a product quantizer encodes every subvector with one of its nearest codewords, and decoding returns these codewords. Quantizing needs training, keeps the shape, is deterministic and never changes the training.',
 ['inputs','configurations','histories'],'all training sets and vectors, every bit width, number of subvectors and clusters, retraining histories',
 'The tests compare shapes and loose average errors on random data.',
 [S+'quantization/scalar.py',S+'quantization/product.py',S+'quantization/base.py'],[('train/quantize/dequantize',S+'quantization/*.py')],['quantize()/dequantize()/compute_distance()'])
p('P19','SAQ spends exactly its bit budget and rescoring returns true neighbours',
 'SAQ splits the dimensions into contiguous, disjoint segments that cover all of them, gives every segment at least one bit, and the bits of all segments add up to exactly the budget; no code needs more bits than its segment has. Searching a SAQ store returns min(k, n) distinct stored vectors with their true cosine distance, in order of distance; they are the true nearest ones among the max(rescoring number, k) vectors with the closest codes, hence of the whole store whenever that number covers it.',
 ['inputs','configurations'],'all training data, bit budgets and segment counts',
 'The tests use one random data set and default budgets.',
 [S+'quantization/saq.py'],[('segmentation and bit allocation',S+'quantization/saq.py'),('search with rescoring',S+'quantization/saq.py')],['segments, bits and search results'])
p('P20','Chunking loses nothing and respects its limits',
 'Splitting a text yields chunks in text order which together contain every part of the text (except pieces below the configured minimum), are no longer than the configured size, overlap by no more than configured and carry positions at which exactly this text stands in the input; splitting always terminates, and except with sliding windows no further chunk follows one that reaches the end of the text. Semantic chunks are whole paragraphs up to the configured maximum, preceded by at most the configured overlap of the text before them. The same holds for the parsers that split long documents, whose chunks name the page they start on.',
 ['inputs','configurations'],'all texts (empty, whitespace only, no separators, very long words, exact multiples of the size) and all valid chunk sizes and overlaps',
 'Chunking has no unit test besides one integration path; off-by-one errors need particular lengths.',
 [S+'processors/chunking.py',S+'parsers/text_parser.py',S+'parsers/pdf_parser.py',S+'parsers/office_parser.py'],[('chunking loops',S+'processors/chunking.py, parsers/*_parser.py')],['chunks of process()/parse()'])
p('P21','Cleaning does what is configured and nothing else',
 'The cleaning processor applies exactly the configured steps, in the order markup and entities, Unicode, special characters, whitespace, case, stop words: with everything switched off text and chunks come out unchanged, and an enabled step leaves no trace of what it removes. Cleaning cleaned text changes nothing, unless it contains entities or compatibility characters that turn into markup. The input document is not modified and everything else in it is kept.',
 ['inputs','configurations'],'all texts and all combinations of cleaning switches',
 'No unit test covers the cleaning processor.',
 [S+'processors/cleaning.py'],[('process()',S+'processors/cleaning.py')],['text returned by process()'])
p('P22','The pipeline runs its stages once, in order, and isolates failures',
 'A document passes parsing and then every configured processor exactly once, in the configured order cleaning, chunking, embedding, each stage receiving the result of the one before; a pipeline that is closed or failed to initialize processes nothing rather than skipping stages. In a batch of documents, or of files turned into vectors, one failing document never affects the results of the others, and results line up with the inputs.',
 ['configurations','inputs','histories'],'all combinations of configured stages, document lists with failures at any position, repeated initialization',
 'There is no test of the processing pipeline with failures or partial configurations.',
 [S+'processors/pipeline.py',S+'utils/helpers.py'],[('process_document/batch_process_documents',S+'processors/pipeline.py')],['results of process_document()/process_text()/batch_process_documents()/create_vectors_from_files()'])
p('P23','The parser registry picks a parser that can parse the file',
 'The registry returns, for every file, the available parser with the highest priority among those that support its suffix (in any letter case), honours an explicitly requested parser and reports an error when none applies. Registering, replacing and removing parsers changes exactly the selection they concern, and a parser that cannot be started changes nothing.',
 ['histories','inputs'],'all histories of registrations and all file names, with upper-case, missing and multiple extensions',
 'No unit test covers the parser registry.',
 [S+'parsers/registry.py',S+'parsers/base.py'],[('get_parser/parse_document',S+'parsers/registry.py')],['chosen parser'])
p('P24','Embedding results do not depend on the cache or on batching',
 'With caching on or off, and whatever was embedded before, the embedding of a text is the one the model gives for exactly this text; equal texts get equal embeddings, whether one by one, as chunks or in batches, texts line up with embeddings, and every embedding has the dimension of the model, with norm one if normalization is on; texts of white space only get the zero vector. Callers cannot change cached embeddings.',
 ['histories','inputs'],'all sequences of embedded documents with repeated, empty and chunked texts',
 'No unit test covers the embedding processor (its model is not installed); the cache matters only on repetition.',
 [S+'processors/embedding.py'],[('embedding cache',S+'processors/embedding.py')],['embedding(s) returned by process()'])
p('P25','Annoy needs building and survives saving and loading',
 'An Annoy index refuses to search while vectors added or updated since the last build are not in the trees, and after build it searches all of them. An index loaded from a file gives, for every query, the results of the saved index, with the same ids, scores and metadata, and can be changed and rebuilt afterwards.',
 ['histories','configurations'],'all histories of add/update/remove/build/save/load/clear',
 'The tests save and load once and do not compare results or continue to use the loaded index.',
 [S+'indices/annoy.py'],[('_built flag, save/load',S+'indices/annoy.py')],['search() after each step'])
p('P26','LSH finds every stored vector by itself',
 'Querying an LSH index with a vector that is currently stored always finds it when k is large enough and the threshold allows it, after any history of adds, updates, removals and re-adds. Search results never fall below the threshold, and bucket statistics agree with the stored vectors.',
 ['histories','configurations','inputs'],'all histories, table counts, hash sizes and thresholds',
 'The tests query right after one add; stale or lost bucket entries need updates and removals.',
 [S+'indices/lsh.py'],[('hash tables',S+'indices/lsh.py')],['search(), get_stats()'])
p('P27','IVF keeps every vector in exactly one cluster, where search looks',
 'After training, every vector of an IVF index is in exactly one cluster, cluster sizes add up to the vector count, and querying with a stored vector finds a result at distance zero even with a single probe. This holds after any later inserts, updates and deletes and after retraining on reinitialization.',
 ['histories','configurations'],'all histories before and after training, both metrics, all cluster and probe counts',
 'The tests train once on random data and check only that some results come back.',
 [S+'indices/ivf.py'],[('_train_index/_add_to_cluster/_update_cluster_assignment',S+'indices/ivf.py')],['search(), get_stats()["cluster_stats"]'])
p('P28','HNSW search reaches every vector whatever the graph looks like',
 'An HNSW search returns exactly min(k, n) distinct results for every random graph, every m and ef_search and after any deletions, including deletion of all nodes of the upper levels; querying with a stored vector finds it whenever ef_search covers the index. Reported counts and levels stay consistent.',
 ['histories','configurations','schedules'],'all random level/neighbour choices, m >= 1, ef_search >= 1 and deletion histories',
 'The graph is random: tests see one graph per run, and losing nodes needs particular graphs and deletions.',
 [S+'indices/hnsw.py'],[('_insert_vector_internal/_remove_vector_internal/search',S+'indices/hnsw.py')],['search(), get_stats()'])
p('P29','Factories, templates and recommendations build working databases',
 'Every template, every recommended configuration and every combination of index and storage type yields an initialized client with the requested index, storage and parameters (explicit parameters win over defaults), which stores and finds vectors. Document databases come with a pipeline of the requested chunk size, overlap and model, search databases hold the data of their texts and documents, and both recommendation functions name the same index. Unknown names are rejected with an error, and neither creating databases nor changing what was handed out changes the published templates and configurations.',
 ['configurations'],'all template names, index and storage types, overrides, dataset sizes and use cases',
 'No unit test exercises the factory functions.',
 [S+'factory.py',S+'configs.py',S+'utils/helpers.py'],[('create_vector_db/create_from_template/get_recommended_config',S+'factory.py, configs.py')],['type and parameters of the created components'])
p('P30','Vector files and helper searches give back what went in',
 'Vectors and metadata saved to an npz, pickle or JSON file load back with the same values, order and shape. Batch search returns one result list per query in query order, and duplicate detection groups exactly the vectors whose similarity to the first vector of their group reaches the threshold, each vector in at most one group; similarities and normalized vectors have their mathematical value for every numeric type.',
 ['inputs'],'all vectors, metadata, formats, thresholds, metrics and batch sizes',
 'The helper functions have no unit tests.',
 [S+'utils/helpers.py'],[('save_vectors_to_file/load_vectors_from_file/batch_search/find_duplicates',S+'utils/helpers.py')],['return values'])
p('P31','Similarity functions return the mathematical value for every numeric type',
 'For every pair of one-dimensional vectors of equal length the similarity and distance functions (cosine, Euclidean and its square, dot product, Manhattan, Chebyshev, Hamming, Jaccard and their distances) return the mathematical value whatever the numeric types and the magnitudes (as far as double precision holds their squares), within the documented range, and the batch version gives the value of every pair. Normalizing divides by the chosen norm and leaves zero vectors and the argument unchanged. Other shapes, unequal lengths and unknown norms raise ValueError.',
 ['inputs'],'all vectors of boolean, integer and floating-point types whose squares are representable in double precision, all memory layouts',
 'No unit test covers these functions; errors only show for particular types and magnitudes.',
 [S+'utils/similarity.py'],[('cosine_similarity, euclidean_distance, ... normalize_vector, batch_cosine_similarity',S+'utils/similarity.py')],['return values'])
p('P32','Validators accept exactly the valid inputs',
 'Each validator returns True for every valid input and raises ValidationError, no other exception, for every invalid one: vectors and batches (array, axes, not empty, numeric, dimension limits, type, zero vectors, finite), configurations (required and allowed keys, types, ranges), metric names, k, ids and id lists (types, not blank, no duplicates) and metadata (string keys, values that can be written as JSON). A batch is valid exactly if each of its vectors is.',
 ['inputs'],'all inputs of any type and all parameters of the validators',
 'No unit test covers the validators.',
 [S+'utils/validation.py'],[('validate_vector, validate_vectors, validate_config, validate_metric, validate_k, validate_id(s), validate_metadata',S+'utils/validation.py')],['verdicts'])
p('P33','Profiler and analyzers report exactly what happened and what is there',
 'The profiler records every measured block once, also when it raises and when blocks are nested, and its summary, printed or saved, gives the count, extremes, mean and total of the recorded times and changes of memory. The vector analyzer reports the counts and statistics of exactly the given vectors (one vector and zero vectors included), the query analyzer those of all analyzed queries, and the index inspector those of the live entries of any index. None of them changes what it looks at.',
 ['histories','inputs'],'all nestings of measured blocks, vector sets, query histories and index contents',
 'No unit test covers these tools.',
 [S+'utils/debugging.py'],[('PerformanceProfiler, VectorAnalyzer, QueryAnalyzer, IndexInspector',S+'utils/debugging.py')],['return values, report files'])
p('P34','Decorators, performance test and monitors do their job once and fully',
 'A function decorated for debugging, timing or memory use runs exactly once per call with the same arguments, result and exception, and what is printed about the call is true. The index performance test stores every given vector once with its number and searches every query, for every index type. A progress tracker counts its updates and finishes at its total (zero included), and a resource monitor samples with one thread while it runs and never after it was stopped.',
 ['histories','inputs','schedules'],'all outcomes of functions, index types, totals and orders of starting and stopping',
 'No unit test covers these tools.',
 [S+'utils/debugging.py',S+'utils/helpers.py',S+'utils/batch_manager.py'],[('debug_function',S+'utils/debugging.py'),('timing_decorator, memory_usage_decorator, validate_index_performance',S+'utils/helpers.py'),('ProgressTracker, ResourceMonitor',S+'utils/batch_manager.py')],['calls of the decorated function, return values, samples, threads'])
p('P35','Parsers extract exactly what the document holds and describe it truthfully',
 'For every text, PDF, Word, Excel and PowerPoint file a parser returns exactly the text of its non-empty units in order, joined as the format prescribes, and a description (numbers of pages, paragraphs, tables, sheets, slides and shapes, lengths, names, styles, table cells, language, encoding, reading time, file name and size) that agrees with the file; one unreadable page costs only that page. Parsing again gives the same, whatever the caller did to the first result. A file that is missing, too large, of a wrong type or no document of its type is refused with a ParsingError, as is any file while the parser is not open.',
 ['inputs','histories'],'all documents, encodings and configurations',
 'The unit tests parse a few fixed small files.',
 [S+'parsers/text_parser.py',S+'parsers/pdf_parser.py',S+'parsers/office_parser.py'],[('TextParser.parse',S+'parsers/text_parser.py'),('PDFParser.parse',S+'parsers/pdf_parser.py'),('OfficeParser.parse',S+'parsers/office_parser.py'),('validate_file',S+'parsers/base.py')],['parse results'])
p('P36','Reported statistics agree with what happened and what is there',
 'The statistics of stores, persistence managers, indices, processors, quantizers and the document pipeline agree with the history: numbers and bytes of the live entries, files and bytes on disk, saves and loads, texts and characters processed, chunks and embeddings made, cache hits and their share of all lookups, shape and ranges of the training data, processors in place and whether the component is open. Looking at statistics changes nothing, and changing what was returned does not reach the component. A component that is not open says so instead of giving numbers.',
 ['histories','inputs'],'all histories of calls (failed calls, updates, restarts and empty inputs included) of every component',
 'The unit tests look at one counter after one call.',
 [S+'storage/',S+'persistence/',S+'indices/',S+'processors/',S+'quantization/'],[('get_stats of every component',S),('get_embedding_dimension',S+'processors/embedding.py')],['get_stats results'])
p('P37','Every log message due appears exactly once, no other at all',
 'Once logging is set up, every message at or above the configured level appears exactly once on the console and, if asked for, once in the log file, complete and in the configured format, and no other message appears, whichever logger or logging helper it comes from, whether that logger was requested before or after, and however often logging was set up (the last setup counts). Before that, a requested logger shows each message at or above the level it was first requested with once. Log files and their backups keep to the configured sizes and numbers without losing the latest message.',
 ['histories','configurations'],'all orders of requesting loggers, setting logging up and logging, with all levels',
 'No unit test reads what is logged; duplicates and losses appear only in certain orders of calls.',
 [S+'utils/logging.py',S+'utils/debugging.py'],[('get_logger/setup_logging and the log_* helpers',S+'utils/logging.py'),('setup_logging',S+'utils/debugging.py')],['what is on the console and in the log files'])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for x in P: f.write(json.dumps(x)+'\n')
    import re
    for x in P:
        assert len(x['title'])<=80,x['id']
        n=len(re.findall(r'[.?!](?:\s|$)',x['statement'])); 
        if n>3: print(x['id'],n)
