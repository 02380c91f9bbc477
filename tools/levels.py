MC='model_checking'; FE='fault_enumeration'
T='TLA+ spec checked by TLC; model transitions and seeded histories replayed on the code, recorded traces validated by TLC'
TI='TLA+ specification of the index (module Index) checked by TLC; every transition of its bounded model and seeded histories replayed on the real indices, recorded traces validated by TLC'
TP='TLA+ specification of the persistence managers (modules Persist, PersistImpl) checked by TLC; transitions, seeded histories and enumerated crashes/faults run on the real code, recorded traces validated by TLC'
TQ='TLA+ specification of the quantizers (modules Quant, QuantAlg) checked by TLC; life-cycle transitions and seeded histories run on the real quantizers, recorded traces validated by TLC'
TC='TLA+ specifications checked by TLC (HybridConc; Linear: linearizability against Storage/Index); histories of real threads under a deterministic scheduler validated by TLC'
TB='TLA+ specification of batch runs (modules Batch, BatchPar) checked by TLC; completion orders of the model forced on the real batch manager, recorded runs validated by TLC'
TH='TLA+ specification of the helpers (module Helpers; grouping algorithm DupAlg model-checked for all similarity relations) checked by TLC; recorded calls of the real functions validated by TLC'
TF='TLA+ specification of database creation (modules Factory, FactoryGen) checked by TLC; its transitions and seeded requests run on the real factories, recorded traces validated by TLC'
LEVELS={
'P01':(MC,T,'Design model exhaustive for 3 ids; all its transitions replayed on all three backends, plus long random histories with arbitrary dtypes/metadata; every observation must be allowed by module Storage.'),
'P02':(MC,T,'As P01 with every argument and result changed in place after each call; also the indices.'),
'P03':(MC,T,'Histories over groups of confusable ids (separators, unicode, control characters, traversal); canary files outside the data directory must stay untouched. Ids sampled.'),
'P04':(MC,T,'Design model of cache and disk exhaustive for limits 0-2; all transitions replayed with both layers observed; random histories with more ids and limits.'),
'P05':(MC,T,'Restart histories on disk and hybrid backends; index rebuild on stores with content.'),
'P06':(FE,'TLA+ crash model checked by TLC; crash/fault enumeration on the real code, outcomes validated by TLC','Every C call and file-system event inside the sampled operations is a crash/fault point (process crash model, no power loss: page cache survives).'),
'P07':(MC,TI,'Oracle in exact integer arithmetic over integer vectors (dims 1-16) for all five index types and all metrics; all transitions of IndexGen (3 slots) plus seeded random histories, larger indices up to 120 vectors.'),
'P08':(MC,TI,'As P07 with exact configurations only; completeness judged by exact integer comparison of distances.'),
'P09':(MC,TI,'All insert/update/delete transitions over 3 slots including repeated and unknown ids; random histories.'),
'P10':(MC,TI,'Index and storage compared after operations; storage failures injected at sampled calls (raise before effect).'),
'P11':(MC,TI,'Rejected inputs (dimension, rank, NaN/inf at any batch position) interleaved with valid histories; everything observed afterwards.'),
'P12':(MC,TI,'All close/initialize transitions of the models plus random life cycles of the five indices (direct and client).'),
'P13':(FE,TP,'Design model PersistImpl exhaustive (tensor and incremental managers, crash and fault at every step); every C call and file-system event inside the saves of sampled histories is a crash/fault point; values sampled over dtypes, shapes, nesting, names and compression.'),
'P14':(MC,TP,'PersistImpl exhaustive for 3 saves, 2 restarts, intervals 1-2; all its transitions replayed; long random histories with restarts, faults and crashes.'),
'P15':(MC,TC,'HybridConc exhaustive for 2-3 threads; real threads run under a scheduler that may preempt at every source line or byte code of valori: random/PCT schedules and every single preemption of one operation by another thread. Schedules sampled beyond one preemption.'),
'P16':(MC,TB,'BatchPar exhaustive for up to 4-5 batches and 4 workers; all its completion orders forced on the real manager; random runs with failing items, failing calls, raising callbacks.'),
'P17':(MC,TC,'As P15 for one client over the five indices and three backends; parallel batch insertion under all completion orders of BatchPar.'),
'P18':(MC,TQ,'QuantAlg (exact rounding arithmetic) exhaustive for small ranges and widths; all life-cycle transitions of QuantGen replayed; random training sets, bit widths 1-63, dtypes; errors judged in fixed point (1e-6) with a floating-point allowance.'),
'P19':(MC,TQ,'Bit allocation modelled in QuantAlg for all small budgets; segments, codes and rescored searches of the code judged by exact integer arithmetic; random data, budgets, segment counts.'),
'P25':(MC,TI,'AnnoyAlg: budget and leaves. Annoy: all transitions of IndexGen with build; save/load histories.'),
'P26':(MC,TI,'LshAlg: all hash functions. LSH: all transitions, random histories over table/hash/projection parameters and thresholds.'),
'P27':(MC,TI,'IvfAlg: any centroids. IVF: all transitions, random histories with single-probe searches; cluster membership read from the index.'),
'P28':(MC,TI,'HnswAlg: all graphs and rankings. HNSW: all transitions under scripted randomness (flat, tall and random graphs), random histories.'),
}
NA={}
LEVELS['P29']=(MC,TF,'Sharing model FactoryGen exhaustive, its transitions replayed on the real templates and configurations; seeded requests over all templates, index and storage types, overrides, sizes and use cases; embedding model stubbed.')
LEVELS['P30']=(MC,TH,'DupAlg: all similarity relations on 4 (5) vectors have exactly one valid grouping; seeded vector files (all formats, dtypes, JSON metadata), thresholds and metrics in exact integer arithmetic (0.5/1000 away from rounding ties), batch sizes.')
TK='TLA+ specification of splitting (modules Chunk, ChunkAlg) checked by TLC for all small texts; the same texts and configurations plus seeded ones run through the real splitters, results validated by TLC'
LEVELS['P20']=(MC,TK,'All texts up to 6 (8) characters over letter/blank/newline and all small sizes, overlaps and minima in the model; a sample of these on the real processor, all three strategies; random texts up to 2500 characters; text, PDF (stubbed reader), Word, Excel and PowerPoint parsers.')
TX='TLA+ specification of the cleaning steps (modules Clean, CleanAlg) checked by TLC for all small texts and all switches; the same texts plus seeded ones cleaned by the real processor, results validated by TLC'
LEVELS['P21']=(MC,TX,'CleanAlg: all texts up to 2 (3) characters of a 15-letter alphabet under all switch combinations; a sample of texts up to 3 characters and random texts up to 30 on the real processor, alphabet of 48 characters and 6 entities, stop words from the built-in list (no NLTK corpus here), canonical order of adjacent combining marks not modelled.')
TW='TLA+ specification of the pipeline (modules Pipeline, PipeAlg) checked by TLC for all failure positions; the calls of the stages recorded from the real pipeline and validated by TLC'
LEVELS['P22']=(MC,TW,'PipeAlg: batches of 2 (4) documents failing in any stage, all stage combinations, failing and repeated initialization; the real pipeline with stub embedding models over seeded histories, text and Word files, missing, unreadable and unknown files, planned failures in every stage; documents identified by fingerprints of their content.')
TR='TLA+ specification of the parser registry (modules Registry, RegistryGen) checked by TLC; all its transitions and seeded histories replayed on the real registry, traces validated by TLC'
LEVELS['P23']=(MC,TR,'RegistryGen exhaustive for 3 names and 3 classes (built-in, custom, failing); random histories over 7 names, 8 classes and some 300 file names. Parsers of equal priority may be chosen in any order.')
TE='TLA+ specification of embedding with a cache (modules Embed, EmbedGen) checked by TLC; all its transitions and seeded histories run on the real processor with stub models, traces validated by TLC'
LEVELS['P24']=(MC,TE,'EmbedGen exhaustive for 5 texts; sentence-transformers and OpenAI interfaces stubbed by a deterministic model (huggingface needs torch: not run); vectors identified with the reference vectors at relative error 1e-5.')

TSI='TLA+ specification of the measures in exact integer arithmetic (modules Similarity, SimilarityAlg) checked by TLC for its mathematical laws; all small pairs and seeded vectors in every numeric type run through the real functions, values compared as fractions by TLC'
LEVELS['P31']=(MC,TSI,'SimilarityAlg: all pairs and triples of 2-dimensional vectors with entries -2..2 (-3..3); real functions on all pairs of dimension 1-3 and random vectors up to dimension 12, in 12 numeric types, scaled by powers of two near the limits of the type, contiguous, strided, reversed and read-only arrays.')
TVA='TLA+ specification of the validators (modules Validate, ValidateGen) checked by TLC; all its small arrays and limits plus seeded inputs given to the real validators, verdicts validated by TLC'
LEVELS['P32']=(MC,TVA,'ValidateGen: all vectors up to length 3 (5) and batches of 2-dimensional vectors over zero/nonzero/NaN/infinite entries with all limits; seeded configurations, ids, metadata trees (cyclic and very deep included). Booleans as numbers and numpy integers as k or id may be accepted or not.')
TTO='TLA+ specification of the tools (modules Tools, ProfGen) checked by TLC; its transitions and seeded histories run on the real tools, traces validated by TLC in fixed-point arithmetic'
LEVELS['P33']=(MC,TTO,'ProfGen: all nestings of up to three of 2 (3) blocks per name with exceptions replayed; seeded histories: blocks nested three deep with exceptions, analyses of up to 6 vectors (NaN and infinities included), up to 14 queries, all five index types; standard deviations only where they are rational.')
TT2='TLA+ specification of the tools and of the sampling thread (modules Tools, MonitorAlg) checked by TLC; recorded histories of the real tools validated by TLC'
LEVELS['P34']=(MC,TT2,'MonitorAlg exhaustive for 3 (5) starts; seeded histories: three decorators, eight exception types, five index types, progress, start/stop orders.')
TDO='TLA+ specification of documents and what parsers must report (modules Document, DocumentGen) checked by TLC; all its small documents plus seeded files given to the real parsers, results validated by TLC'
LEVELS['P35']=(MC,TDO,'DocumentGen: all texts up to 4 (7) characters and all sequences of up to 3 (5) pages; seeded documents of up to 60 lines, 12 pages or 11 slides. PyPDF2 is replaced by a stand-in with given pages; Word, Excel and PowerPoint files are written with the real libraries.')
TST='TLA+ specification of what a history amounts to and what may be reported (modules Stats, StatsGen) checked by TLC; its transitions and seeded histories run on the real components, traces validated by TLC'
LEVELS['P36']=(MC,TST,'StatsGen: all histories of a store of 2 (3) entries (refuted for a store that forgets what it overwrites), embeddings of all lists of up to 4 (6) texts; tours of all its transitions on the real stores; 150 (3000) seeded histories per family: stores, persistence, indices, processors, quantizers, pipeline.')
LEVELS['P37']=(MC,TST,'LogGen: all orders of requests, setups and messages for 2 loggers and 3 levels (refuted without releasing the old handlers and without the guard in get_logger); tours of all its transitions and 400 (8000) random histories, each in a process of its own: helpers, formats, files, rotation.')
