From 0d2a6d53922c753fe69a3bd576750a3966c4d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 01/82] fix: MemoryStorage must not share metadata with its
 callers

store/update kept a shallow copy and retrieve returned the live dictionary, so
mutating metadata (or a search result) silently changed the stored record.
---
 src/valori/storage/memory.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/memory.py b/src/valori/storage/memory.py
index 433825e..b557e32 100644
--- a/src/valori/storage/memory.py
+++ b/src/valori/storage/memory.py
@@ -2,6 +2,7 @@
 In-memory storage backend for the valori vector database.
 """
 
+from copy import deepcopy
 from threading import RLock
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -48,12 +49,15 @@ class MemoryStorage(StorageBackend):
 
         try:
             with self.lock:
+                # Copy first, so that a failing copy leaves the store untouched
+                metadata = deepcopy(metadata)
+
                 # Store vector
                 self.vectors[id] = vector.copy()
 
                 # Store metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)  # Remove if exists
 
@@ -79,7 +83,7 @@ class MemoryStorage(StorageBackend):
                 return None
 
             vector = self.vectors[id].copy()
-            metadata = self.metadata.get(id)
+            metadata = deepcopy(self.metadata.get(id))
             return vector, metadata
 
     def delete_vector(self, id: str) -> bool:
@@ -119,12 +123,15 @@ class MemoryStorage(StorageBackend):
                 if id not in self.vectors:
                     return False
 
+                # Copy first, so that a failing copy leaves the store untouched
+                metadata = deepcopy(metadata)
+
                 # Update vector
                 self.vectors[id] = vector.copy()
 
                 # Update metadata
                 if metadata is not None:
-                    self.metadata[id] = metadata.copy()
+                    self.metadata[id] = metadata
                 else:
                     self.metadata.pop(id, None)
 
-- 
2.43.0


From 70d54bb4ff9b3fb67ac4765d3f73caa7d9245f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 02/82] fix: DiskStorage must keep distinct ids apart and list
 the original ids

Replacing every special character by '_' made ids such as 'a/b' and 'a_b' share
one record, and list_vectors returned the mangled name instead of the id.
---
 src/valori/storage/disk.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 2b6b0c1..59e67a5 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -6,6 +6,7 @@ import os
 import pickle
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
+from urllib.parse import unquote
 
 import numpy as np
 
@@ -174,7 +175,7 @@ class DiskStorage(StorageBackend):
 
         try:
             vector_files = list(self.vectors_dir.glob("*.npy"))
-            vector_ids = [f.stem for f in vector_files]
+            vector_ids = [unquote(f.stem, errors="surrogatepass") for f in vector_files]
 
             if limit is not None:
                 vector_ids = vector_ids[:limit]
@@ -219,6 +220,13 @@ class DiskStorage(StorageBackend):
 
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
-        # Replace invalid characters with underscores
-        safe_id = "".join(c if c.isalnum() or c in "._-" else "_" for c in id)
+        # Percent-encode other characters, so that distinct IDs get distinct files
+        safe_id = "".join(
+            (
+                c
+                if c.isalnum() or c in "._-"
+                else "".join(f"%{b:02X}" for b in c.encode("utf-8", "surrogatepass"))
+            )
+            for c in id
+        )
         return safe_id
-- 
2.43.0


From 62b7a69163194c353ad7fae8915876ee34f982f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 03/82] fix: DiskStorage writes must not tear records

store/update truncated the live vector file and then the metadata file, so a
crash, a full disk or unpicklable metadata left a record that could no longer
be read (and made every search over the store fail). Write aside and rename.
---
 src/valori/storage/disk.py | 57 ++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 59e67a5..0013d5c 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -58,20 +58,8 @@ class DiskStorage(StorageBackend):
             # Sanitize ID for filesystem
             safe_id = self._sanitize_id(id)
 
-            # Store vector
-            vector_path = self.vectors_dir / f"{safe_id}.npy"
-            np.save(vector_path, vector)
-
-            # Store metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file if exists
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Store vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             self._vector_count = len(list(self.vectors_dir.glob("*.npy")))
             return True
@@ -149,19 +137,8 @@ class DiskStorage(StorageBackend):
             if not vector_path.exists():
                 return False
 
-            # Update vector
-            np.save(vector_path, vector)
-
-            # Update metadata
-            if metadata is not None:
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                with open(metadata_path, "wb") as f:
-                    pickle.dump(metadata, f)
-            else:
-                # Remove metadata file
-                metadata_path = self.metadata_dir / f"{safe_id}.pkl"
-                if metadata_path.exists():
-                    metadata_path.unlink()
+            # Update vector and metadata
+            self._write_record(safe_id, vector, metadata)
 
             return True
 
@@ -218,6 +195,32 @@ class DiskStorage(StorageBackend):
         """Close the disk storage backend."""
         self._initialized = False
 
+    def _write_record(
+        self, safe_id: str, vector: np.ndarray, metadata: Optional[Dict]
+    ) -> None:
+        """Write a record so that a failure or crash never leaves a torn file."""
+        vector_path = self.vectors_dir / f"{safe_id}.npy"
+        metadata_path = self.metadata_dir / f"{safe_id}.pkl"
+        vector_tmp = self.vectors_dir / f"{safe_id}.npy.tmp"
+        metadata_tmp = self.metadata_dir / f"{safe_id}.pkl.tmp"
+
+        try:
+            # Write everything aside before touching the stored record
+            with open(vector_tmp, "wb") as f:
+                np.save(f, vector, allow_pickle=False)
+            if metadata is not None:
+                with open(metadata_tmp, "wb") as f:
+                    pickle.dump(metadata, f)
+                os.replace(metadata_tmp, metadata_path)
+            elif metadata_path.exists():
+                metadata_path.unlink()
+
+            # The vector file makes a new record visible, so it goes last
+            os.replace(vector_tmp, vector_path)
+        finally:
+            vector_tmp.unlink(missing_ok=True)
+            metadata_tmp.unlink(missing_ok=True)
+
     def _sanitize_id(self, id: str) -> str:
         """Sanitize ID for use as filename."""
         # Percent-encode other characters, so that distinct IDs get distinct files
-- 
2.43.0


From b52b9b03bcd8c50086e64ebcece056f7d9857e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 04/82] fix: HybridStorage with memory_limit 0 must keep
 nothing in memory

---
 src/valori/storage/hybrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index 473cb7b..ad653c7 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -69,7 +69,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Remove oldest vector from memory (simple LRU approximation)
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
@@ -101,7 +101,7 @@ class HybridStorage(StorageBackend):
 
                     if current_count < self.memory_limit:
                         self.memory_storage.store_vector(id, vector, metadata)
-                    else:
+                    elif self.memory_limit > 0:
                         # Evict and promote
                         self._evict_from_memory()
                         self.memory_storage.store_vector(id, vector, metadata)
-- 
2.43.0


From f9150a4c18dc41f34feed928cec22b23b932fb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 05/82] fix: reject vectors an index could never search,
 without side effects

Flat, HNSW and IVF stored vectors of another dimension, matrices and NaN/inf
values, after which every search failed. A batch that failed half-way also left
its first vectors behind although the caller never learned their ids.
---
 src/valori/indices/base.py | 21 ++++++++++++++++++++-
 src/valori/indices/flat.py | 13 ++++++++++++-
 src/valori/indices/hnsw.py | 13 ++++++++++++-
 src/valori/indices/ivf.py  | 19 ++++++++++++++++++-
 4 files changed, 62 insertions(+), 4 deletions(-)

diff --git a/src/valori/indices/base.py b/src/valori/indices/base.py
index 92fe8dd..f752a26 100644
--- a/src/valori/indices/base.py
+++ b/src/valori/indices/base.py
@@ -3,10 +3,11 @@ Base index interface for the valori vector database.
 """
 
 from abc import ABC, abstractmethod
-from typing import Any, Dict, List, Optional
+from typing import Any, Dict, Iterable, List, Optional
 
 import numpy as np
 
+from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
 
 
@@ -28,6 +29,24 @@ class Index(ABC):
         """Check if the index is initialized."""
         return self._initialized
 
+    def _check_vectors(self, vectors: np.ndarray, stored: Optional[np.ndarray]) -> None:
+        """Reject vectors that could not be compared with a stored one."""
+        dimension = vectors.shape[-1] if stored is None else stored.shape[-1]
+        if vectors.shape[-1] != dimension or dimension == 0:
+            raise ValoriIndexError(
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[-1]}"
+            )
+        if not np.all(np.isfinite(vectors)):
+            raise ValoriIndexError("Vector contains NaN or infinite values")
+
+    def _stored_vector(self, ids: Iterable[str]) -> Optional[np.ndarray]:
+        """Return any of the given vectors that is still in storage."""
+        for vector_id in ids:
+            result = self.storage_backend.retrieve_vector(vector_id)
+            if result is not None:
+                return result[0]
+        return None
+
     @abstractmethod
     def initialize(self, storage_backend: StorageBackend) -> None:
         """
diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 94af9ce..43fa5f7 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -54,8 +54,10 @@ class FlatIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
+
         try:
-            inserted_ids = []
+            self._check_vectors(vectors, self._stored_vector(self.vector_ids))
 
             sb = self.storage_backend
             if sb is None:
@@ -83,6 +85,9 @@ class FlatIndex(Index):
             return inserted_ids
 
         except Exception as e:
+            # Do not keep half of a rejected batch
+            if inserted_ids:
+                self.delete(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -97,6 +102,8 @@ class FlatIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector, self._stored_vector(self.vector_ids))
+
             # Limit k to available vectors
             k = min(k, len(self.vector_ids))
 
@@ -202,6 +209,10 @@ class FlatIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector, self._stored_vector(self.vector_ids))
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index e42f079..3867585 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -70,8 +70,10 @@ class HNSWIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
+
         try:
-            inserted_ids = []
+            self._check_vectors(vectors, next(iter(self.vectors.values()), None))
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
@@ -96,6 +98,9 @@ class HNSWIndex(Index):
             return inserted_ids
 
         except Exception as e:
+            # Do not keep half of a rejected batch
+            if inserted_ids:
+                self.delete(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -110,6 +115,8 @@ class HNSWIndex(Index):
             if not self.vectors:
                 return []
 
+            self._check_vectors(query_vector, next(iter(self.vectors.values())))
+
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
@@ -221,6 +228,10 @@ class HNSWIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector, next(iter(self.vectors.values()), None))
+
             if not sb.update_vector(id, vector, metadata):
                 return False
 
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index d93643f..8fdf24b 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -65,8 +65,10 @@ class IVFIndex(Index):
         if vectors.ndim != 2:
             raise ValoriIndexError("Vectors must be 2D array")
 
+        inserted_ids: List[str] = []
+
         try:
-            inserted_ids = []
+            self._check_vectors(vectors, self._reference_vector())
 
             for i, vector in enumerate(vectors):
                 # Generate unique ID
@@ -101,6 +103,9 @@ class IVFIndex(Index):
             return inserted_ids
 
         except Exception as e:
+            # Do not keep half of a rejected batch
+            if inserted_ids:
+                self.delete(inserted_ids)
             raise ValoriIndexError(f"Failed to insert vectors: {str(e)}")
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
@@ -115,6 +120,8 @@ class IVFIndex(Index):
             if not self.vector_ids:
                 return []
 
+            self._check_vectors(query_vector, self._reference_vector())
+
             # If not trained, fall back to brute force
             if not self._trained:
                 return self._brute_force_search(query_vector, k)
@@ -224,6 +231,10 @@ class IVFIndex(Index):
             if sb is None:
                 raise ValoriIndexError("Index storage backend not configured")
 
+            if vector.ndim != 1:
+                raise ValoriIndexError("Vector must be 1D")
+            self._check_vectors(vector, self._reference_vector())
+
             # Update in storage
             if not sb.update_vector(id, vector, metadata):
                 return False
@@ -271,6 +282,12 @@ class IVFIndex(Index):
         self._trained = False
         self._initialized = False
 
+    def _reference_vector(self) -> Optional[np.ndarray]:
+        """Return a vector whose dimension new vectors must share."""
+        if self.centroids is not None:
+            return self.centroids[0]
+        return self._stored_vector(self.vector_ids)
+
     def _train_index(self) -> None:
         """Train the IVF index by clustering existing vectors."""
         if len(self.vector_ids) < self.n_clusters:
-- 
2.43.0


From fa5dba8a85304cb7bc86a32386408c20c29f9863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 06/82] fix: initialize() of an index must not mix in state of
 an earlier life

Vectors, levels, clusters and caches of the previous storage survived a second
initialize() and made searches fail or return vectors that no longer exist.
---
 src/valori/indices/flat.py | 1 +
 src/valori/indices/hnsw.py | 3 +++
 src/valori/indices/ivf.py  | 6 ++++++
 3 files changed, 10 insertions(+)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 43fa5f7..754e699 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -39,6 +39,7 @@ class FlatIndex(Index):
         try:
             sb = storage_backend
             existing_ids = sb.list_vectors()
+            self.vector_cache.clear()
             self.vector_ids = existing_ids
             self._vector_count = len(self.vector_ids)
         except Exception as e:
diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 3867585..462e3af 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -47,6 +47,9 @@ class HNSWIndex(Index):
 
         # Initialize level 0
         self.levels = [{}]
+        self.vectors.clear()
+        self.max_level = 0
+        self._vector_count = 0
 
         # Load existing vectors if any
         try:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 8fdf24b..7643c6e 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -42,6 +42,12 @@ class IVFIndex(Index):
         self.storage_backend = storage_backend
         self._initialized = True
 
+        # Forget any previous state
+        self.centroids = None
+        self.clusters.clear()
+        self.vectors_cache.clear()
+        self._trained = False
+
         # Load existing vectors if any
         try:
             sb = storage_backend
-- 
2.43.0


From 92a416d4ca5c54f746307d4ac914223960e337ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 07/82] fix: HNSW search must not lose the stored vectors

An entry point without neighbours on its level (the first vector on a new
level, any level emptied by deletes) made search drop every candidate and
return nothing; results could contain an id twice, and insertion could pick the
new node itself as its only neighbour.
---
 src/valori/indices/hnsw.py | 51 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 462e3af..102fc87 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -123,8 +123,10 @@ class HNSWIndex(Index):
             # Limit k to available vectors
             k = min(k, len(self.vectors))
 
-            # Start from top level
-            current_level = min(self.max_level, len(self.levels) - 1)
+            # Start from the highest level that still has nodes
+            current_level = len(self.levels) - 1
+            while current_level > 0 and not self.levels[current_level]:
+                current_level -= 1
             candidates = []
 
             # Find entry point at highest level
@@ -140,7 +142,7 @@ class HNSWIndex(Index):
 
             # Traverse down levels
             while current_level > 0:
-                new_candidates = []
+                new_candidates = dict(candidates)
                 for node_id, _ in candidates:
                     if node_id in self.levels[current_level]:
                         for neighbor_id in self.levels[current_level][node_id]:
@@ -148,26 +150,37 @@ class HNSWIndex(Index):
                                 distance = self._compute_distance(
                                     query_vector, self.vectors[neighbor_id]
                                 )
-                                new_candidates.append((neighbor_id, distance))
+                                new_candidates[neighbor_id] = distance
 
                 # Keep best candidates
-                new_candidates.sort(key=lambda x: x[1])
-                candidates = new_candidates[: self.ef_search]
+                candidates = sorted(new_candidates.items(), key=lambda x: x[1])
+                candidates = candidates[: self.ef_search]
                 current_level -= 1
 
-            # Final search at level 0
-            if current_level == 0 and candidates:
-                final_candidates = []
-                for node_id, _ in candidates:
-                    if node_id in self.levels[0]:
-                        for neighbor_id in self.levels[0][node_id]:
-                            if neighbor_id in self.vectors:
-                                distance = self._compute_distance(
-                                    query_vector, self.vectors[neighbor_id]
-                                )
-                                final_candidates.append((neighbor_id, distance))
+            # Final search at level 0: expand the closest node that is left until
+            # the ef closest nodes found have all been expanded
+            ef = max(self.ef_search, k)
+            found = dict(candidates)
+            expanded = set()
+            while True:
+                candidates = sorted(found.items(), key=lambda x: x[1])[:ef]
+                node_id = next((n for n, _ in candidates if n not in expanded), None)
+                if node_id is None:
+                    if len(found) >= min(ef, len(self.vectors)):
+                        break
+                    # Deletions can split the graph: go on in another part
+                    node_id = next(n for n in self.vectors if n not in found)
+                    found[node_id] = self._compute_distance(
+                        query_vector, self.vectors[node_id]
+                    )
+                expanded.add(node_id)
+                for neighbor_id in self.levels[0].get(node_id, []):
+                    if neighbor_id in self.vectors and neighbor_id not in found:
+                        found[neighbor_id] = self._compute_distance(
+                            query_vector, self.vectors[neighbor_id]
+                        )
 
-                candidates.extend(final_candidates)
+            candidates = list(found.items())
 
             # Sort and return top k
             candidates.sort(key=lambda x: x[1])
@@ -301,7 +314,7 @@ class HNSWIndex(Index):
 
         # Connect to neighbors (simplified - connect to a few random existing nodes)
         for l in range(min(level + 1, len(self.levels))):
-            existing_nodes = list(self.levels[l].keys())
+            existing_nodes = [n for n in self.levels[l] if n != vector_id]
             if existing_nodes:
                 # Connect to up to m neighbors
                 num_connections = min(self.m, len(existing_nodes))
-- 
2.43.0


From 57864af821e90239d1baff8e476ebaf8095e1dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 08/82] fix: IVF must put trained vectors where search looks
 for them

Training assigned clusters by Euclidean distance while inserts and searches use
the index metric, so with cosine a search for a stored vector could miss it.
---
 src/valori/indices/ivf.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 7643c6e..e051705 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -327,20 +327,17 @@ class IVFIndex(Index):
 
             # Perform K-means clustering
             kmeans = KMeans(n_clusters=self.n_clusters, random_state=42, n_init=10)
-            cluster_labels = kmeans.fit_predict(vectors_array)
+            kmeans.fit(vectors_array)
 
             # Store centroids
             self.centroids = kmeans.cluster_centers_
 
-            # Build clusters
+            self._trained = True
+
+            # Build clusters with the metric that search probes them with
             self.clusters.clear()
             for i, vector_id in enumerate(valid_ids):
-                cluster_id = cluster_labels[i]
-                if cluster_id not in self.clusters:
-                    self.clusters[cluster_id] = []
-                self.clusters[cluster_id].append(vector_id)
-
-            self._trained = True
+                self._add_to_cluster(vector_id, vectors_array[i])
 
         except Exception as e:
             raise ValoriIndexError(f"Failed to train IVF index: {str(e)}")
-- 
2.43.0


From ee7c3bd9a51cc0bc5fdba0788ac8b4994afc5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 09/82] fix: LSH initialize() twice must not lose the stored
 vectors

It emptied the hash tables but kept the vectors, so that they were counted but
never found again.
---
 src/valori/indices/lsh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 2f21dc0..b9c6026 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -58,8 +58,9 @@ class LSHIndex(Index):
 
     def initialize(self, storage_backend: Optional[StorageBackend] = None) -> None:
         """Initialize the LSH index."""
-        # Initialize hash tables
-        self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
+        # Initialize hash tables, unless they already hold vectors
+        if not self._initialized:
+            self.hash_tables = [defaultdict(list) for _ in range(self.num_hash_tables)]
         self._initialized = True
 
     def add(self, vectors: np.ndarray, metadata: List[Dict[str, Any]]) -> List[int]:
-- 
2.43.0


From 276a826ec590a33e0e39b191c2bc676fbe186f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 10/82] fix: LSH bucket statistics must be about bucket sizes,
 not vector ids

---
 src/valori/indices/lsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index b9c6026..390e479 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -283,7 +283,7 @@ class LSHIndex(Index):
         bucket_sizes = []
         for table in self.hash_tables:
             for bucket in table.values():
-                bucket_sizes.extend(bucket)
+                bucket_sizes.append(len(bucket))
 
         return {
             "index_type": "lsh",
-- 
2.43.0


From dbcb99ad9d0840b15e736e9d19ccad791f1f81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 11/82] fix: LSH delete/update must only touch the vector with
 the given id

Negative ids and spellings such as '01' hit other vectors, and deleting an
unknown id reported success.
---
 src/valori/indices/lsh.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index 390e479..a32710b 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -200,7 +200,7 @@ class LSHIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Remove from hash tables
                 vector = self.vectors[vector_id]
                 if vector is None:
@@ -220,15 +220,17 @@ class LSHIndex(Index):
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their string IDs (base Index API)."""
+        if not self._initialized:
+            raise ValoriIndexError("Index not initialized")
         try:
-            int_ids = []
+            success = True
             for s in ids:
-                try:
-                    int_ids.append(int(s))
-                except ValueError:
-                    continue
-            self.remove(int_ids)
-            return True
+                vector_id = self._find_id(s)
+                if vector_id is None:
+                    success = False
+                else:
+                    self.remove([vector_id])
+            return success
         except Exception:
             return False
 
@@ -239,8 +241,8 @@ class LSHIndex(Index):
         if not self._initialized:
             raise ValoriIndexError("Index not initialized")
         try:
-            vector_id = int(id)
-            if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            vector_id = self._find_id(id)
+            if vector_id is None:
                 return False
 
             # Remove old hashes
@@ -267,6 +269,16 @@ class LSHIndex(Index):
         except Exception:
             return False
 
+    def _find_id(self, id: str) -> Optional[int]:
+        """Return the position of a stored vector, or None if there is none."""
+        text = str(id)
+        if not (text.isascii() and text.isdigit() and str(int(text)) == text):
+            return None
+        vector_id = int(text)
+        if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            return None
+        return vector_id
+
     def clear(self) -> None:
         """Clear all vectors from the index."""
         self.vectors.clear()
-- 
2.43.0


From f8c48e8d00c018ef76c93d30c092c18e99587716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 12/82] fix: LSH must validate before it stores and not share
 metadata

A None in the metadata list failed after its vector was appended and shifted
all later metadata; a rejected first batch fixed the dimension; update stored
vectors of a wrong dimension; search results exposed the live metadata.
---
 src/valori/indices/lsh.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index a32710b..dfd8127 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -7,6 +7,7 @@ with configurable hash functions and parameters.
 
 import hashlib
 from collections import defaultdict
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Tuple, Union
 
 import numpy as np
@@ -82,19 +83,25 @@ class LSHIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._generate_projections()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        metadata = deepcopy([{} if m is None else m for m in metadata])
+
+        # Set dimension on first add
+        if self.dimension is None:
+            self.dimension = dimension
+            self._generate_projections()
 
         assigned_ids = []
 
@@ -104,7 +111,7 @@ class LSHIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
+            self.metadata.append(metadata[i])
 
             # Generate hash codes for all hash tables
             assert vector is not None
@@ -181,7 +188,7 @@ class LSHIndex(Index):
                         {
                             "id": candidate_id,
                             "distance": float(distance),
-                            "metadata": self.metadata[candidate_id],
+                            "metadata": deepcopy(self.metadata[candidate_id]),
                         }
                     )
 
@@ -245,6 +252,10 @@ class LSHIndex(Index):
             if vector_id is None:
                 return False
 
+            # Reject bad input before touching the stored vector
+            validate_vector(vector, self.dimension, self.dimension)
+            metadata = deepcopy(metadata)
+
             # Remove old hashes
             old_vector = self.vectors[vector_id]
             old_hashes = self._hash_vector(old_vector)
@@ -258,7 +269,7 @@ class LSHIndex(Index):
             # Store new vector and metadata
             self.vectors[vector_id] = vector.copy()
             if metadata is not None:
-                self.metadata[vector_id] = metadata.copy()
+                self.metadata[vector_id] = metadata
 
             # Add new hashes
             new_hashes = self._hash_vector(self.vectors[vector_id])
-- 
2.43.0


From c29a10f91605746c7f71a1f11a84bfb7b17e72fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 13/82] fix: Annoy must keep ids, vectors and metadata aligned
 and hide removed vectors

Search returned removed vectors (without metadata) and fewer than k live ones;
update appended a second entry and shifted all later ids; add after build or
clear failed after storing half the data; negative ids hit other vectors and
deleting an unknown id reported success. Build the trees from the stored
vectors in build(), which add and update now ask for again.
---
 src/valori/indices/annoy.py | 103 ++++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 34 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c33b854..2a1719a 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -7,6 +7,7 @@ approximate nearest neighbor search using random projection trees.
 
 import os
 import tempfile
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -108,9 +109,16 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_ids = [int(id) for id in ids]
-            self.remove(int_ids)
-            return True
+            if not self._initialized:
+                raise ValoriIndexError("Index not initialized")
+            success = True
+            for id in ids:
+                vector_id = self._find_id(id)
+                if vector_id is None:
+                    success = False
+                else:
+                    self.remove([vector_id])
+            return success
         except Exception as e:
             raise ValoriIndexError(f"Failed to delete vectors: {str(e)}")
 
@@ -129,21 +137,20 @@ class AnnoyIndex(Index):
             True if successful
         """
         try:
-            int_id = int(id)
-            if int_id >= len(self.vectors):
+            if not self._initialized:
+                raise ValoriIndexError("Index not initialized")
+            int_id = self._find_id(id)
+            if int_id is None:
                 raise ValoriIndexError(f"Vector ID not found: {id}")
 
-            if metadata is None:
-                metadata = self.metadata[int_id]
-
-            # Remove old vector
-            self.remove([int_id])
+            # Reject bad input before touching the stored vector
+            validate_vector(vector, self.dimension, self.dimension)
+            if metadata is not None:
+                self.metadata[int_id] = deepcopy(metadata)
 
-            # Add new vector (but reuse the same ID by temporarily modifying _next_id)
-            old_next_id = self._next_id
-            self._next_id = int_id
-            self.add(vector.reshape(1, -1), [metadata])
-            self._next_id = old_next_id
+            # The trees have to be rebuilt with the new vector
+            self.vectors[int_id] = vector.copy()
+            self._built = False
 
             return True
         except Exception as e:
@@ -168,19 +175,27 @@ class AnnoyIndex(Index):
                 "Number of vectors must match number of metadata items"
             )
 
-        # Set dimension on first add
-        if self.dimension is None:
-            self.dimension = vectors.shape[1]
-            self._create_annoy_index()
+        if vectors.ndim != 2:
+            raise ValoriIndexError("Vectors must be 2D array")
 
-        if vectors.shape[1] != self.dimension:
+        dimension = vectors.shape[1] if self.dimension is None else self.dimension
+        if vectors.shape[1] != dimension:
             raise ValoriIndexError(
-                f"Vector dimension mismatch: expected {self.dimension}, got {vectors.shape[1]}"
+                f"Vector dimension mismatch: expected {dimension}, got {vectors.shape[1]}"
             )
 
         # Validate vectors
         for vector in vectors:
-            validate_vector(vector, self.dimension, self.dimension)
+            validate_vector(vector, dimension, dimension)
+
+        metadata = deepcopy([{} if m is None else m for m in metadata])
+
+        # Set dimension on first add
+        self.dimension = dimension
+
+        # The trees have to be rebuilt to contain the new vectors
+        if len(vectors):
+            self._built = False
 
         assigned_ids = []
 
@@ -190,10 +205,7 @@ class AnnoyIndex(Index):
 
             # Store vector and metadata
             self.vectors.append(vector.copy())
-            self.metadata.append(metadata[i].copy())
-
-            # Add to Annoy index
-            self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+            self.metadata.append(metadata[i])
 
             assigned_ids.append(vector_id)
 
@@ -208,9 +220,18 @@ class AnnoyIndex(Index):
         if self.dimension is None and len(self.vectors) > 0:
             raise ValoriIndexError("No dimension set for vectors")
 
-        # Only build if there's an annoy index instance
-        if self._annoy_index is not None:
+        # Only build if there is something to build from
+        if self.dimension is not None:
+            self._create_annoy_index()
+            for vector_id, vector in enumerate(self.vectors):
+                if vector is not None:
+                    self._annoy_index.add_item(vector_id, vector.astype(np.float32))
+
             if self.build_on_disk:
+                if self._temp_file is None:
+                    fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
+                    os.close(fd)
+
                 # Build on disk
                 self._annoy_index.build(self.num_trees)
                 self._annoy_index.save(self._temp_file)
@@ -256,15 +277,19 @@ class AnnoyIndex(Index):
             self.search_k if self.search_k > 0 else self.num_trees * len(self.vectors)
         )
 
-        # Search for nearest neighbors
+        # Search for nearest neighbors; the trees still hold the removed vectors
+        num_removed = sum(1 for v in self.vectors if v is None)
         neighbor_ids, distances = self._annoy_index.get_nns_by_vector(
-            query_vector, k, search_k=search_k, include_distances=True
+            query_vector, k + num_removed, search_k=search_k, include_distances=True
         )
 
         # Convert to results format
         results = []
         for neighbor_id, distance in zip(neighbor_ids, distances):
-            if neighbor_id < len(self.vectors):
+            if (
+                neighbor_id < len(self.vectors)
+                and self.vectors[neighbor_id] is not None
+            ):
                 # Convert distance to similarity based on metric
                 similarity = self._distance_to_similarity(distance)
 
@@ -272,11 +297,11 @@ class AnnoyIndex(Index):
                     {
                         "id": neighbor_id,
                         "distance": similarity,
-                        "metadata": self.metadata[neighbor_id],
+                        "metadata": deepcopy(self.metadata[neighbor_id]),
                     }
                 )
 
-        return results
+        return results[:k]
 
     def remove(self, ids: List[int]) -> None:
         """
@@ -291,11 +316,21 @@ class AnnoyIndex(Index):
             raise ValoriIndexError("Index not initialized")
 
         for vector_id in ids:
-            if vector_id < len(self.vectors):
+            if 0 <= vector_id < len(self.vectors):
                 # Mark as removed (Annoy doesn't support efficient removal)
                 self.vectors[vector_id] = None
                 self.metadata[vector_id] = None
 
+    def _find_id(self, id: str) -> Optional[int]:
+        """Return the position of a stored vector, or None if there is none."""
+        text = str(id)
+        if not (text.isascii() and text.isdigit() and str(int(text)) == text):
+            return None
+        vector_id = int(text)
+        if vector_id >= len(self.vectors) or self.vectors[vector_id] is None:
+            return None
+        return vector_id
+
     def clear(self) -> None:
         """Clear all vectors from the index."""
         self.vectors.clear()
-- 
2.43.0


From 600ff8ab9f0a0cafc9dab4a500cd32c633c63f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 14/82] fix: a loaded Annoy index must find the vectors it was
 saved with

save() dropped the vectors and metadata, and search ignores ids without a
vector, so a loaded index never returned any result.
---
 src/valori/indices/annoy.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 2a1719a..4a9c158 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -402,6 +402,13 @@ class AnnoyIndex(Index):
             # Save the Annoy index
             self._annoy_index.save(filepath)
 
+            # Annoy only stores the trees: save vectors and metadata alongside
+            import pickle
+
+            data = pickle.dumps((self.vectors, self.metadata))
+            with open(filepath + ".data", "wb") as f:
+                f.write(data)
+
             # Also save metadata alongside the index
             import json
 
@@ -445,8 +452,14 @@ class AnnoyIndex(Index):
         self._annoy_index.load(filepath)
         self._built = True
 
-        # Note: When loading from disk, we lose the original vectors and metadata
-        # This is a limitation of Annoy - it only stores the tree structure
+        # Vectors and metadata come from the file saved alongside the trees
+        data_path = filepath + ".data"
+        if os.path.exists(data_path):
+            import pickle
+
+            with open(data_path, "rb") as f:
+                self.vectors, self.metadata = pickle.load(f)
+            self._next_id = len(self.vectors)
 
     def close(self) -> None:
         """Close the index and clean up resources."""
-- 
2.43.0


From 11dff4c11ae6637f91b8070aa58474320d6e8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 15/82] fix: a failed or interrupted save must keep the
 previously saved data

Saving truncated the existing file first, so unpicklable data, a full disk or a
crash destroyed the last good state (and a torn newest checkpoint made
load_state fail although older ones were intact). numpy also appended '.npz' to
other file names, which load_vectors then did not find.
---
 src/valori/persistence/base.py        | 14 +++++++++++-
 src/valori/persistence/incremental.py | 31 +++++++++++++++++++--------
 src/valori/persistence/tensor.py      | 27 +++++++++++++++++------
 3 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index c711a5c..0dc9083 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -2,8 +2,10 @@
 Base persistence interface for the valori vector database.
 """
 
+import os
 from abc import ABC, abstractmethod
-from typing import Any, Dict, Optional, Tuple
+from pathlib import Path
+from typing import Any, BinaryIO, Callable, Dict, Optional, Tuple
 
 import numpy as np
 
@@ -21,6 +23,16 @@ class PersistenceManager(ABC):
         self.config = config
         self._initialized = False
 
+    def _write_file(self, file_path: Path, write: Callable[[BinaryIO], Any]) -> None:
+        """Write a file aside and rename it, so that a failure keeps the old one."""
+        tmp_path = file_path.with_name(file_path.name + ".tmp")
+        try:
+            with open(tmp_path, "wb") as f:
+                write(f)
+            os.replace(tmp_path, file_path)
+        finally:
+            tmp_path.unlink(missing_ok=True)
+
     @abstractmethod
     def initialize(self) -> None:
         """Initialize the persistence manager."""
diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index ffb8653..98c95f0 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -62,8 +62,10 @@ class IncrementalPersistence(PersistenceManager):
         try:
             # Create checkpoint
             checkpoint_path = self.data_dir / f"checkpoint_{self._operation_count}.pkl"
-            with open(checkpoint_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                checkpoint_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Update checkpoint info
             self._last_checkpoint = self._operation_count
@@ -113,8 +115,15 @@ class IncrementalPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            # Save vectors
-            np.savez(file_path, vectors=vectors, ids=np.array(ids))
+            # Object arrays could not be loaded again
+            ids_array = np.array(ids)
+            if vectors.dtype.hasobject or ids_array.dtype.hasobject:
+                raise TypeError("vectors and ids must not be object arrays")
+
+            # Save vectors; a file keeps numpy from appending ".npz" to other names
+            self._write_file(
+                file_path, lambda f: np.savez(f, vectors=vectors, ids=ids_array)
+            )
 
             # Log operation
             self._log_operation(
@@ -161,8 +170,10 @@ class IncrementalPersistence(PersistenceManager):
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
             # Save index data
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             # Log operation
             self._log_operation("save_index", {"path": path})
@@ -246,7 +257,7 @@ class IncrementalPersistence(PersistenceManager):
             }
 
             with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry) + "\n")
+                f.write(json.dumps(log_entry, default=str) + "\n")
 
             self._operation_count += 1
 
@@ -280,8 +291,10 @@ class IncrementalPersistence(PersistenceManager):
                 "timestamp": datetime.now().isoformat(),
             }
 
-            with open(self.checkpoint_file, "w") as f:
-                json.dump(checkpoint_info, f)
+            self._write_file(
+                self.checkpoint_file,
+                lambda f: f.write(json.dumps(checkpoint_info).encode()),
+            )
 
         except Exception as e:
             raise PersistenceError(f"Failed to save checkpoint info: {str(e)}")
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index bf96d23..ffef94d 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -46,8 +46,10 @@ class TensorPersistence(PersistenceManager):
             file_path = self.data_dir / path
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                file_path,
+                lambda f: pickle.dump(state, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
@@ -86,12 +88,23 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
+            # Object arrays could not be loaded again
+            ids_array = np.array(ids)
+            if vectors.dtype.hasobject or ids_array.dtype.hasobject:
+                raise TypeError("vectors and ids must not be object arrays")
+
+            # Passing a file keeps numpy from appending ".npz" to other names
             if self.compression:
                 # Save with compression
-                np.savez_compressed(file_path, vectors=vectors, ids=np.array(ids))
+                self._write_file(
+                    file_path,
+                    lambda f: np.savez_compressed(f, vectors=vectors, ids=ids_array),
+                )
             else:
                 # Save without compression
-                np.savez(file_path, vectors=vectors, ids=np.array(ids))
+                self._write_file(
+                    file_path, lambda f: np.savez(f, vectors=vectors, ids=ids_array)
+                )
 
             self._save_count += 1
             return True
@@ -132,8 +145,10 @@ class TensorPersistence(PersistenceManager):
             # Ensure directory exists
             file_path.parent.mkdir(parents=True, exist_ok=True)
 
-            with open(file_path, "wb") as f:
-                pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL)
+            self._write_file(
+                file_path,
+                lambda f: pickle.dump(index_data, f, protocol=pickle.HIGHEST_PROTOCOL),
+            )
 
             self._save_count += 1
             return True
-- 
2.43.0


From b344c90dbc266d559a79f8249138e0bcbd7b1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 16/82] fix: incremental persistence must not reuse operation
 numbers after a restart

The counter was restored from the last checkpoint only: after a restart
operation ids repeated, and save_state could write a checkpoint with a lower
number than an existing one, so that load_state returned an outdated state.
---
 src/valori/persistence/incremental.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 98c95f0..0f9e5fd 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -47,6 +47,7 @@ class IncrementalPersistence(PersistenceManager):
 
             # Load checkpoint info
             self._load_checkpoint_info()
+            self._recover_operation_count()
 
             self._initialized = True
         except Exception as e:
@@ -317,6 +318,26 @@ class IncrementalPersistence(PersistenceManager):
             self._last_checkpoint = 0
             self._operation_count = 0
 
+    def _recover_operation_count(self) -> None:
+        """Continue after the last operation and checkpoint found on disk."""
+        # Drop a log entry that was cut off by a crash
+        log = self.log_file.read_bytes()
+        if not log.endswith(b"\n"):
+            log = log[: log.rfind(b"\n") + 1]
+            self._write_file(self.log_file, lambda f: f.write(log))
+
+        used = [-1]
+        for line in log.splitlines():
+            try:
+                used.append(int(json.loads(line)["operation_id"]))
+            except (ValueError, KeyError, TypeError):
+                continue
+        for path in self.data_dir.glob("checkpoint_*.pkl"):
+            number = path.stem.split("_")[1]
+            if number.isdigit():
+                used.append(int(number))
+        self._operation_count = max(self._operation_count, max(used) + 1)
+
     def _replay_operations(self, state: Dict[str, Any]) -> Dict[str, Any]:
         """Replay operations since last checkpoint."""
         try:
-- 
2.43.0


From 7987321bca70afc5fa74cadf1d9660db65712adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 17/82] fix: chunking must stop at the end of the text

Once a chunk reached the end, the start moved on by one character at a time and
added up to chunk_overlap more chunks, each a suffix of the previous one.
---
 src/valori/parsers/office_parser.py | 4 ++++
 src/valori/parsers/pdf_parser.py    | 4 ++++
 src/valori/parsers/text_parser.py   | 4 ++++
 src/valori/processors/chunking.py   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/valori/parsers/office_parser.py b/src/valori/parsers/office_parser.py
index 28917ce..f0ab43b 100644
--- a/src/valori/parsers/office_parser.py
+++ b/src/valori/parsers/office_parser.py
@@ -291,6 +291,10 @@ class OfficeParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest would only repeat the end of this chunk
+            if end >= len(text):
+                break
+
             start = max(end - self.chunk_overlap, start + 1)
 
         return chunks
diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index ef00c0e..5f8453b 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -201,6 +201,10 @@ class PDFParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest would only repeat the end of this chunk
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/parsers/text_parser.py b/src/valori/parsers/text_parser.py
index 84fe890..63dd5a3 100644
--- a/src/valori/parsers/text_parser.py
+++ b/src/valori/parsers/text_parser.py
@@ -157,6 +157,10 @@ class TextParser(DocumentParser):
                 )
                 chunk_id += 1
 
+            # The rest would only repeat the end of this chunk
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index a7a4f64..aaad5f1 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -117,6 +117,10 @@ class ChunkingProcessor(DocumentProcessor):
                 )
                 chunk_id += 1
 
+            # The rest would only repeat the end of this chunk
+            if end >= len(text):
+                break
+
             # Move start position with overlap
             start = max(end - self.chunk_overlap, start + 1)
 
-- 
2.43.0


From a245ab42cd74a1e7d0a04c068d8fea79110bbf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 18/82] fix: semantic chunking must not lose long paragraphs

A paragraph (or a paragraph with its overlap) longer than max_chunk_size was
silently dropped, which after whitespace normalization is every document of
more than 2000 characters. The reported positions were wrong as well.
---
 src/valori/processors/chunking.py | 38 ++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index aaad5f1..ac85027 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -134,22 +134,30 @@ class ChunkingProcessor(DocumentProcessor):
         paragraphs = text.split("\n\n")
         current_chunk = ""
         current_start = 0
+        current_end = 0
+        position = 0
         chunk_id = 0
 
-        for paragraph in paragraphs:
-            paragraph = paragraph.strip()
+        for part in paragraphs:
+            paragraph = part.strip()
+            start = position + len(part) - len(part.lstrip())
+            position += len(part) + 2
             if not paragraph:
                 continue
 
             # If adding this paragraph would exceed chunk size, finalize current chunk
-            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
+            oversized = len(paragraph) > self.max_chunk_size
+            if current_chunk and (
+                oversized
+                or len(current_chunk) + 2 + len(paragraph) > self.chunk_size
+            ):
                 if current_chunk:
                     chunks.append(
                         {
                             "id": chunk_id,
                             "text": current_chunk.strip(),
                             "start_pos": current_start,
-                            "end_pos": current_start + len(current_chunk),
+                            "end_pos": current_end,
                             "length": len(current_chunk.strip()),
                             "metadata": {
                                 "chunk_type": "semantic",
@@ -165,12 +173,26 @@ class ChunkingProcessor(DocumentProcessor):
                     if len(current_chunk) > self.chunk_overlap
                     else ""
                 )
+                if len(overlap_text) + len(paragraph) > self.max_chunk_size:
+                    overlap_text = ""
                 current_chunk = overlap_text + paragraph
-                current_start = max(
-                    0, current_start + len(current_chunk) - self.chunk_overlap
-                )
+                current_start = start
             else:
+                if not current_chunk:
+                    current_start = start
                 current_chunk += "\n\n" + paragraph if current_chunk else paragraph
+            current_end = start + len(paragraph)
+
+            # A paragraph no chunk can hold is split like plain text
+            if oversized:
+                for chunk in self._fixed_size_chunking(paragraph):
+                    chunk["id"] = chunk_id
+                    chunk["start_pos"] += start
+                    chunk["end_pos"] += start
+                    chunk["metadata"]["chunk_type"] = "semantic"
+                    chunks.append(chunk)
+                    chunk_id += 1
+                current_chunk = ""
 
         # Add final chunk
         if current_chunk:
@@ -179,7 +201,7 @@ class ChunkingProcessor(DocumentProcessor):
                     "id": chunk_id,
                     "text": current_chunk.strip(),
                     "start_pos": current_start,
-                    "end_pos": current_start + len(current_chunk),
+                    "end_pos": current_end,
                     "length": len(current_chunk.strip()),
                     "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
                 }
-- 
2.43.0


From 7413db881dbeaf09d5b5c958712a12f293200f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 19/82] fix: the pipeline must register the configured parsers

It passed the content of its "parsers" section to ParserRegistry, which looks
for a "parsers" section itself, so no parser was ever available.
---
 src/valori/processors/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index e578735..f1cbac3 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -31,7 +31,7 @@ class ProcessingPipeline:
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-            self.parser_registry = ParserRegistry(parser_config)
+            self.parser_registry = ParserRegistry({"parsers": parser_config})
             self.parser_registry.initialize()
 
             # Initialize processors in order
-- 
2.43.0


From c4551e7979c6626d4a550b328d27fddfa6fba78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 20/82] fix: initializing a pipeline twice must not run its
 processors twice

---
 src/valori/processors/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index f1cbac3..1d5f0c9 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -35,6 +35,7 @@ class ProcessingPipeline:
             self.parser_registry.initialize()
 
             # Initialize processors in order
+            self.processors.clear()
             processor_configs = self.config.get("processors", {})
 
             # Add cleaning processor if configured
-- 
2.43.0


From 54238b9a03e148e1a43c017a1623633ae17649b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 21/82] fix: callers must not be able to change cached
 embeddings

---
 src/valori/processors/embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 873450f..ee2c511 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -149,7 +149,7 @@ class EmbeddingProcessor(DocumentProcessor):
             cache_key = self._get_cache_key(text)
             if cache_key in self._cache:
                 self._cache_hits += 1
-                return self._cache[cache_key]
+                return self._cache[cache_key].copy()
 
         # Generate embedding
         if self.model_type == "sentence_transformers":
@@ -168,7 +168,7 @@ class EmbeddingProcessor(DocumentProcessor):
         # Cache embedding
         if self.cache_embeddings:
             cache_key = self._get_cache_key(text)
-            self._cache[cache_key] = embedding
+            self._cache[cache_key] = embedding.copy()
 
         self._texts_processed += 1
         self._embeddings_generated += 1
-- 
2.43.0


From e8cac4f3abce3c7e69164f6f75a2a8f66d3ed79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 22/82] fix: embeddings of empty texts must have the dimension
 of the model

Empty texts got 384 zeros whatever the model, and normalizing a zero embedding
gave NaN, so that the document could not be inserted with the others.
---
 src/valori/processors/embedding.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index ee2c511..9cc9152 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -142,7 +142,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate embedding for a single text."""
         if not text or not text.strip():
             # Return zero vector for empty text
-            return np.zeros(384)  # Default dimension
+            return np.zeros(self.get_embedding_dimension())
 
         # Check cache
         if self.cache_embeddings:
@@ -163,7 +163,9 @@ class EmbeddingProcessor(DocumentProcessor):
 
         # Normalize embedding
         if self.normalize_embeddings:
-            embedding = embedding / np.linalg.norm(embedding)
+            norm = np.linalg.norm(embedding)
+            if norm > 0:
+                embedding = embedding / norm
 
         # Cache embedding
         if self.cache_embeddings:
@@ -244,8 +246,9 @@ class EmbeddingProcessor(DocumentProcessor):
                     batch_texts, convert_to_numpy=True
                 )
                 if self.normalize_embeddings:
-                    batch_embeddings = batch_embeddings / np.linalg.norm(
-                        batch_embeddings, axis=1, keepdims=True
+                    norms = np.linalg.norm(batch_embeddings, axis=1, keepdims=True)
+                    batch_embeddings = batch_embeddings / np.where(
+                        norms > 0, norms, 1
                     )
             else:
                 # Process individually for other model types
-- 
2.43.0


From 1f3afec2838d8b383d637f264d08176ca15e5f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 23/82] fix: semantic chunking without overlap must not repeat
 whole chunks

With chunk_overlap 0 the slice [-0:] put the complete previous chunk in front of
every new one.
---
 src/valori/processors/chunking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index ac85027..f05ca66 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -170,7 +170,7 @@ class ChunkingProcessor(DocumentProcessor):
                 # Start new chunk with overlap
                 overlap_text = (
                     current_chunk[-self.chunk_overlap :]
-                    if len(current_chunk) > self.chunk_overlap
+                    if len(current_chunk) > self.chunk_overlap > 0
                     else ""
                 )
                 if len(overlap_text) + len(paragraph) > self.max_chunk_size:
-- 
2.43.0


From 83f1808eefe0fa4455f45a72d71c3044b5a81695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 24/82] fix: SAQ must give every segment at least one bit

Rounding small segments up to one bit overdrew the budget, so that the last
segment could be left with zero or a negative number of bits and training failed.
---
 src/valori/quantization/saq.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index e70bfb5..735397f 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -159,6 +159,9 @@ class SAQQuantizer(Quantizer):
         if self.n_segments > dim:
             self.n_segments = dim
 
+        if self.total_bits < self.n_segments:
+            raise QuantizationError("total_bits must allow one bit per segment")
+
         dp = np.full((self.n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
 
@@ -211,6 +214,8 @@ class SAQQuantizer(Quantizer):
                 bits = remaining_bits
             else:
                 bits = max(1, int(self.total_bits * (variance / total_variance)))
+                # Leave at least one bit for every segment that follows
+                bits = min(bits, remaining_bits - (len(segment_variances) - 1 - i))
                 remaining_bits -= bits
             self.segment_bits.append(bits)
 
-- 
2.43.0


From ea7c185d5bc2171be032a00428b14f3d11b7b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 25/82] fix: SAQ search must return top_k results when top_k
 exceeds rescore_top_k

---
 src/valori/quantization/saq.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 735397f..3ed47ca 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -550,7 +550,9 @@ class SAQQuantizer(Quantizer):
             )
 
         # Initial search using quantized vectors (fast)
-        initial_candidates = self._initial_quantized_search(query, quantized_vectors)
+        initial_candidates = self._initial_quantized_search(
+            query, quantized_vectors, max(self.rescore_top_k, top_k)
+        )
 
         # Rescore top candidates using full-precision vectors (accurate)
         final_results = self._rescoring_search(query, initial_candidates, top_k)
@@ -558,7 +560,7 @@ class SAQQuantizer(Quantizer):
         return final_results
 
     def _initial_quantized_search(
-        self, query: np.ndarray, quantized_vectors: np.ndarray
+        self, query: np.ndarray, quantized_vectors: np.ndarray, n_candidates: int
     ) -> np.ndarray:
         """Perform initial fast search using quantized vectors."""
         n_vectors = quantized_vectors.shape[0]
@@ -576,7 +578,7 @@ class SAQQuantizer(Quantizer):
 
         # Return indices of top candidates for rescoring
         distances = np.array(distances)
-        return np.argsort(distances)[: self.rescore_top_k]
+        return np.argsort(distances)[:n_candidates]
 
     def _rescoring_search(
         self, query: np.ndarray, candidate_indices: np.ndarray, top_k: int
-- 
2.43.0


From a3aef65dc426c01fe09869969037ffc43750b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 26/82] fix: a quantizer that was initialized again must not
 claim to be trained

initialize() dropped the learned parameters but not the flag, so that get_stats
and quantize failed on missing parameters.
---
 src/valori/quantization/product.py | 1 +
 src/valori/quantization/saq.py     | 1 +
 src/valori/quantization/scalar.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 9482521..220a5fa 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -35,6 +35,7 @@ class ProductQuantizer(Quantizer):
         self.centroids = None
         self.dim = None
         self.subvector_dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 3ed47ca..b4d8c96 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -68,6 +68,7 @@ class SAQQuantizer(Quantizer):
         self.segment_quantizers = []
         self.full_precision_vectors = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index cb05203..8782841 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -37,6 +37,7 @@ class ScalarQuantizer(Quantizer):
         self.scale = None
         self.zero_point = None
         self.dim = None
+        self._trained = False
         self._initialized = True
 
     def train(self, vectors: np.ndarray) -> None:
-- 
2.43.0


From cfd3bc2a9ed714e6db2eba852cc0a660855af2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 27/82] fix: quantizers must reject vectors of another
 dimension

A single column was broadcast to all dimensions, product quantization ignored
extra columns, and a rejected training batch left a quantizer whose dimension
no longer matched its codebook.
---
 src/valori/quantization/product.py | 8 +++++---
 src/valori/quantization/scalar.py  | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index 220a5fa..fa49bb4 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -48,14 +48,14 @@ class ProductQuantizer(Quantizer):
 
         try:
             n_vectors, dim = vectors.shape
-            self.dim = int(dim)
 
             # Check if dimension is divisible by m
-            if self.dim % self.m != 0:
+            if dim % self.m != 0:
                 raise QuantizationError(
-                    f"Vector dimension {self.dim} must be divisible by m={self.m}"
+                    f"Vector dimension {dim} must be divisible by m={self.m}"
                 )
 
+            self.dim = int(dim)
             self.subvector_dim = int(self.dim // self.m)
 
             # Determine effective number of clusters (can't exceed n_vectors)
@@ -104,6 +104,8 @@ class ProductQuantizer(Quantizer):
             raise QuantizationError("Quantizer not trained")
 
         try:
+            if vectors.ndim != 2 or vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must have shape (n, {self.dim})")
             n_vectors = int(vectors.shape[0])
             assert self.subvector_dim is not None and self.centroids is not None
 
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 8782841..da52731 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -95,6 +95,8 @@ class ScalarQuantizer(Quantizer):
                 and self.scale is not None
                 and self.zero_point is not None
             )
+            if vectors.shape[1] != self.dim:
+                raise QuantizationError(f"Vectors must have dimension {self.dim}")
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
-- 
2.43.0


From d1206c0dacd0dfc098fbf302c643548432e69f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 28/82] fix: parallel_batch_insert must return the ids in input
 order

Ids came in the order in which batches completed, so callers assigned them to
the wrong vectors.
---
 src/valori/utils/batch_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 962c213..47053a7 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -195,6 +195,7 @@ class BatchManager:
         self._stats["start_time"] = time.time()
 
         all_ids = []
+        ids_by_batch: Dict[int, List[int]] = {}
 
         # Create batches
         batches = []
@@ -233,7 +234,7 @@ class BatchManager:
                         if self.error_callback:
                             self.error_callback(error, batches[batch_id])
                     else:
-                        all_ids.extend(batch_ids)
+                        ids_by_batch[batch_id] = batch_ids
                         self._stats["processed_items"] = int(
                             self._stats.get("processed_items", 0) or 0
                         ) + len(batch_ids)
@@ -246,6 +247,10 @@ class BatchManager:
                             self._stats["processed_items"], self._stats["total_items"]
                         )
 
+            # Batches complete in any order: return the IDs in input order
+            for batch_id in sorted(ids_by_batch):
+                all_ids.extend(ids_by_batch[batch_id])
+
         finally:
             self._stats["end_time"] = time.time()
 
-- 
2.43.0


From d5e492198280435321cea2fdb8a6aec75e8b9207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 29/82] fix: batch statistics must count every item of a run
 exactly once

Failed queries were also counted as processed, and counters of earlier runs were
added to the total of the current one.
---
 src/valori/utils/batch_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 47053a7..febbc59 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -74,6 +74,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
+        self.reset_stats()
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
@@ -130,6 +131,7 @@ class BatchManager:
         Returns:
             List of search results for each query
         """
+        self.reset_stats()
         self._stats["total_items"] = len(query_vectors)
         self._stats["start_time"] = time.time()
 
@@ -140,6 +142,7 @@ class BatchManager:
                 batch_queries = query_vectors[i : i + self.batch_size]
 
                 batch_results = []
+                failed = 0
                 for query in batch_queries:
                     try:
                         results = client.search(query, k=k)
@@ -147,6 +150,7 @@ class BatchManager:
 
                     except Exception as e:
                         batch_results.append([])
+                        failed += 1
                         self._stats["failed_items"] = (
                             int(self._stats.get("failed_items", 0) or 0) + 1
                         )
@@ -157,7 +161,7 @@ class BatchManager:
                 all_results.extend(batch_results)
                 self._stats["processed_items"] = int(
                     self._stats.get("processed_items", 0) or 0
-                ) + len(batch_queries)
+                ) + (len(batch_queries) - failed)
 
                 if show_progress:
                     self._print_progress()
@@ -191,6 +195,7 @@ class BatchManager:
         Returns:
             List of all inserted IDs
         """
+        self.reset_stats()
         self._stats["total_items"] = len(vectors)
         self._stats["start_time"] = time.time()
 
-- 
2.43.0


From 67128b72b93034434546392e17f0a02c12bfea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 30/82] fix: concurrent client calls must not corrupt the index

BatchManager inserts from several threads; the indices are not thread-safe.
---
 src/valori/client.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index a664e39..8061c8d 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -2,6 +2,7 @@
 High-level client for the Valori vector database.
 """
 
+from threading import RLock
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -46,6 +47,8 @@ class VectorDBClient:
         self.persistence_manager = persistence_manager
         self.config = config or {}
         self._initialized = False
+        # Indices are not thread-safe (BatchManager inserts from several threads)
+        self._lock = RLock()
 
     def initialize(self) -> None:
         """Initialize all components."""
@@ -70,21 +73,24 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.insert(vectors, metadata)
+        with self._lock:
+            return self.index.insert(vectors, metadata)
 
     def search(self, query_vector: np.ndarray, k: int = 10) -> List[Dict]:
         """Search for similar vectors."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.search(query_vector, k)
+        with self._lock:
+            return self.index.search(query_vector, k)
 
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.delete(ids)
+        with self._lock:
+            return self.index.delete(ids)
 
     def update(
         self, id: str, vector: np.ndarray, metadata: Optional[Dict] = None
@@ -93,7 +99,8 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        return self.index.update(id, vector, metadata)
+        with self._lock:
+            return self.index.update(id, vector, metadata)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get database statistics."""
-- 
2.43.0


From 380a3d1af6b281e5b1ec04b3a1179edc12daf31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 31/82] fix: get_recommended_config must return a configuration

It asked get_config for categories instead of names and always raised.
---
 src/valori/configs.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 1cb2eba..9f6b938 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -462,27 +462,30 @@ def get_recommended_config(
     """
     # Select index configuration
     if num_vectors < 1000:
-        index_config = get_config("index", "small_dataset")
+        index_config = get_config("index", "flat")
         index_name = "flat"
     elif num_vectors < 100000:
         if use_case == "speed":
-            index_config = get_config("index", "medium_dataset")["annoy_fast"]
+            index_config = get_config("index", "annoy_fast")
             index_name = "annoy"
         elif use_case == "accuracy":
-            index_config = get_config("index", "medium_dataset")["hnsw_balanced"]
+            index_config = get_config("index", "hnsw_balanced")
             index_name = "hnsw"
         else:  # balanced
-            index_config = get_config("index", "medium_dataset")["annoy_fast"]
+            index_config = get_config("index", "annoy_fast")
             index_name = "annoy"
     elif dimension > 1000:
-        index_config = get_config("index", "high_dimensional")["lsh_balanced"]
+        index_config = get_config("index", "lsh_balanced")
         index_name = "lsh"
     else:
-        index_config = get_config("index", "large_dataset")["ivf_efficient"]
+        index_config = get_config("index", "ivf_efficient")
         index_name = "ivf"
 
     # Select storage configuration
-    storage_config = get_config("storage", storage_type)
+    storage_names = {"memory": "memory_only", "disk": "disk_only"}
+    storage_config = get_config(
+        "storage", storage_names.get(storage_type, storage_type)
+    )
 
     # Select embedding configuration
     if dimension <= 384:
-- 
2.43.0


From 1520439cf0fc32e84c0a383f27c1d9466527f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 32/82] fix: create_vector_db without a size and
 create_document_db with an index_config

---
 src/valori/factory.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index d697224..f735c87 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -48,7 +48,9 @@ def create_vector_db(
         else:
             index_config["config"] = {}
     else:
-        index_config = get_recommended_index_config(num_vectors, dimension, use_case)
+        index_config = get_recommended_index_config(
+            num_vectors or 0, dimension or 0, use_case
+        )
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
@@ -116,7 +118,9 @@ def create_document_db(
     db_config = {"index_type": index_type, "storage_type": "memory", **kwargs}
 
     # Default index config for document search
-    if index_type == "annoy":
+    if "index_config" in kwargs:
+        pass
+    elif index_type == "annoy":
         db_config["index_config"] = {
             "metric": "angular",
             "num_trees": 20,
-- 
2.43.0


From 3a188ac1dfeedc35950ede8603a1503614187c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 33/82] fix: IndexInspector must inspect HNSW indices and
 indices with deletions

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 975934f..72e1ba7 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -452,6 +452,10 @@ class IndexInspector:
     def _inspect_vectors(self) -> Dict[str, Any]:
         """Inspect stored vectors."""
         vectors = getattr(self.index, "vectors", [])
+        if isinstance(vectors, dict):
+            vectors = list(vectors.values())
+        # LSH and Annoy keep empty slots for deleted vectors
+        vectors = [v for v in vectors if v is not None]
         if not vectors:
             return {"count": 0}
 
-- 
2.43.0


From 52171be317b50a4dac6dd6ff2191b8af1693e138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 34/82] fix: vector files in JSON format must keep the shape of
 empty arrays

---
 src/valori/utils/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 1fcc271..90644c8 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -319,6 +319,8 @@ def load_vectors_from_file(
         with open(filepath, "r") as f:
             data = json.load(f)
             vectors = np.array(data["vectors"])
+            if "shape" in data:
+                vectors = vectors.reshape(data["shape"])
             metadata = data["metadata"]
 
     else:
-- 
2.43.0


From 15d110a5fca9a33e8861363121c34f260241c21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:17 +0000
Subject: [PATCH 35/82] fix: DiskStorage must report a vector that could not be
 written

numpy ignores write errors when it saves to a real file, so on a full disk a
truncated vector was reported as stored.
---
 src/valori/storage/disk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/valori/storage/disk.py b/src/valori/storage/disk.py
index 0013d5c..d6c9b5a 100644
--- a/src/valori/storage/disk.py
+++ b/src/valori/storage/disk.py
@@ -2,6 +2,7 @@
 Disk-based storage backend for the valori vector database.
 """
 
+import io
 import os
 import pickle
 from pathlib import Path
@@ -206,8 +207,10 @@ class DiskStorage(StorageBackend):
 
         try:
             # Write everything aside before touching the stored record
-            with open(vector_tmp, "wb") as f:
-                np.save(f, vector, allow_pickle=False)
+            # (numpy does not notice failing writes to a real file)
+            data = io.BytesIO()
+            np.save(data, vector, allow_pickle=False)
+            vector_tmp.write_bytes(data.getvalue())
             if metadata is not None:
                 with open(metadata_tmp, "wb") as f:
                     pickle.dump(metadata, f)
-- 
2.43.0


From 25fa2fbbb326ec3522c880199088ce74818db8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 36/82] fix: distances between integer vectors must not wrap
 around

HNSW, IVF and LSH computed differences and products in the vectors' own
type, so that uint8 or int8 vectors got wrong distances.
---
 src/valori/indices/hnsw.py | 4 ++++
 src/valori/indices/ivf.py  | 4 ++++
 src/valori/indices/lsh.py  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 102fc87..5af50c3 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -346,6 +346,10 @@ class HNSWIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer types wrap around in differences and products
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
+
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index e051705..8119b63 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -415,6 +415,10 @@ class IVFIndex(Index):
 
     def _compute_distance(self, vec1: np.ndarray, vec2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer types wrap around in differences and products
+        vec1 = np.asarray(vec1, dtype=np.float64)
+        vec2 = np.asarray(vec2, dtype=np.float64)
+
         if self.metric == "cosine":
             # Cosine distance
             dot_product = np.dot(vec1, vec2)
diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index dfd8127..d17cc45 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -400,6 +400,10 @@ class LSHIndex(Index):
 
     def _compute_distance(self, vector1: np.ndarray, vector2: np.ndarray) -> float:
         """Compute distance between two vectors."""
+        # Integer types wrap around in differences and products
+        vector1 = np.asarray(vector1, dtype=np.float64)
+        vector2 = np.asarray(vector2, dtype=np.float64)
+
         if self.metric == "cosine":
             # Cosine similarity
             dot_product = np.dot(vector1, vector2)
-- 
2.43.0


From 028ca6832817641d1e4b4538923d130ad46f56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 37/82] fix: inserting nothing into an empty built Annoy index
 must not break search

---
 src/valori/indices/annoy.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 4a9c158..c3c1dbd 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -190,11 +190,10 @@ class AnnoyIndex(Index):
 
         metadata = deepcopy([{} if m is None else m for m in metadata])
 
-        # Set dimension on first add
-        self.dimension = dimension
-
-        # The trees have to be rebuilt to contain the new vectors
+        # Set dimension on first add; the trees have to be rebuilt to contain
+        # the new vectors
         if len(vectors):
+            self.dimension = dimension
             self._built = False
 
         assigned_ids = []
-- 
2.43.0


From a191d985e19758cdf81aafcb9eb70563ed08d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 38/82] fix: saving an empty Annoy index must not pretend to
 have saved it

---
 src/valori/indices/annoy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index c3c1dbd..d9bcb72 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -419,6 +419,8 @@ class AnnoyIndex(Index):
             }
             with open(metadata_path, "w") as f:
                 json.dump(metadata, f)
+        else:
+            raise ValoriIndexError("Index is empty. There is nothing to save.")
 
     def load(self, filepath: str) -> None:
         """Load the index from disk."""
-- 
2.43.0


From b52086f08006893e1a790ae2d7aaec62c2deabc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 39/82] fix: a failed delete must not leave a wrong vector
 count in Flat and IVF

---
 src/valori/indices/flat.py | 2 +-
 src/valori/indices/ivf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 754e699..867ae37 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -187,11 +187,11 @@ class FlatIndex(Index):
                 # Remove from index
                 if vector_id in self.vector_ids:
                     self.vector_ids.remove(vector_id)
+                self._vector_count = len(self.vector_ids)
 
                 # Remove from cache
                 self.vector_cache.pop(vector_id, None)
 
-            self._vector_count = len(self.vector_ids)
             return success
 
         except Exception as e:
diff --git a/src/valori/indices/ivf.py b/src/valori/indices/ivf.py
index 8119b63..b76bbc6 100644
--- a/src/valori/indices/ivf.py
+++ b/src/valori/indices/ivf.py
@@ -210,6 +210,7 @@ class IVFIndex(Index):
                 # Remove from index
                 if vector_id in self.vector_ids:
                     self.vector_ids.remove(vector_id)
+                self._vector_count = len(self.vector_ids)
 
                 # Remove from cache
                 self.vectors_cache.pop(vector_id, None)
@@ -219,7 +220,6 @@ class IVFIndex(Index):
                     if vector_id in vector_list:
                         vector_list.remove(vector_id)
 
-            self._vector_count = len(self.vector_ids)
             return success
 
         except Exception as e:
-- 
2.43.0


From ae8add049ddcfa2e57c331f6443a65a83d6092ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 40/82] fix: saving under one name must not delete a file saved
 as name.tmp

---
 src/valori/persistence/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/persistence/base.py b/src/valori/persistence/base.py
index 0dc9083..a796757 100644
--- a/src/valori/persistence/base.py
+++ b/src/valori/persistence/base.py
@@ -3,6 +3,7 @@ Base persistence interface for the valori vector database.
 """
 
 import os
+import uuid
 from abc import ABC, abstractmethod
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Dict, Optional, Tuple
@@ -25,7 +26,7 @@ class PersistenceManager(ABC):
 
     def _write_file(self, file_path: Path, write: Callable[[BinaryIO], Any]) -> None:
         """Write a file aside and rename it, so that a failure keeps the old one."""
-        tmp_path = file_path.with_name(file_path.name + ".tmp")
+        tmp_path = file_path.with_name(f".tmp-{uuid.uuid4().hex}")
         try:
             with open(tmp_path, "wb") as f:
                 write(f)
-- 
2.43.0


From 334114b7a17b607b8d0d3d8697d9d5ba26a2c342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 41/82] fix: ids that would load back changed must be rejected
 when saving vectors

---
 src/valori/persistence/incremental.py | 3 +++
 src/valori/persistence/tensor.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 0f9e5fd..e61c3e9 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -120,6 +120,9 @@ class IncrementalPersistence(PersistenceManager):
             ids_array = np.array(ids)
             if vectors.dtype.hasobject or ids_array.dtype.hasobject:
                 raise TypeError("vectors and ids must not be object arrays")
+            # Neither could ids that numpy converts, like a mix of types
+            if ids_array.tolist() != list(ids):
+                raise TypeError("ids cannot be stored without changing them")
 
             # Save vectors; a file keeps numpy from appending ".npz" to other names
             self._write_file(
diff --git a/src/valori/persistence/tensor.py b/src/valori/persistence/tensor.py
index ffef94d..8b19dea 100644
--- a/src/valori/persistence/tensor.py
+++ b/src/valori/persistence/tensor.py
@@ -92,6 +92,9 @@ class TensorPersistence(PersistenceManager):
             ids_array = np.array(ids)
             if vectors.dtype.hasobject or ids_array.dtype.hasobject:
                 raise TypeError("vectors and ids must not be object arrays")
+            # Neither could ids that numpy converts, like a mix of types
+            if ids_array.tolist() != list(ids):
+                raise TypeError("ids cannot be stored without changing them")
 
             # Passing a file keeps numpy from appending ".npz" to other names
             if self.compression:
-- 
2.43.0


From c5e58112394abcee64ebd7f1be83ca95dae69bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 42/82] fix: a file saved as checkpoint_<name>.pkl must not
 break loading the state

---
 src/valori/persistence/incremental.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index e61c3e9..63f5039 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -88,7 +88,11 @@ class IncrementalPersistence(PersistenceManager):
 
         try:
             # Find latest checkpoint
-            checkpoint_files = list(self.data_dir.glob("checkpoint_*.pkl"))
+            checkpoint_files = [
+                path
+                for path in self.data_dir.glob("checkpoint_*.pkl")
+                if path.stem[len("checkpoint_") :].isdigit()
+            ]
             if not checkpoint_files:
                 return None
 
@@ -336,7 +340,7 @@ class IncrementalPersistence(PersistenceManager):
             except (ValueError, KeyError, TypeError):
                 continue
         for path in self.data_dir.glob("checkpoint_*.pkl"):
-            number = path.stem.split("_")[1]
+            number = path.stem[len("checkpoint_") :]
             if number.isdigit():
                 used.append(int(number))
         self._operation_count = max(self._operation_count, max(used) + 1)
-- 
2.43.0


From e3ef6ed94f4e14f4c5d8cb93db914715dcf844a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 43/82] fix: a log entry that could not be written must not
 swallow the next one

---
 src/valori/persistence/incremental.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/valori/persistence/incremental.py b/src/valori/persistence/incremental.py
index 63f5039..2d09d9a 100644
--- a/src/valori/persistence/incremental.py
+++ b/src/valori/persistence/incremental.py
@@ -264,8 +264,16 @@ class IncrementalPersistence(PersistenceManager):
                 "operation_id": self._operation_count,
             }
 
-            with open(self.log_file, "a") as f:
-                f.write(json.dumps(log_entry, default=str) + "\n")
+            log_line = json.dumps(log_entry, default=str) + "\n"
+            size = self.log_file.stat().st_size if self.log_file.exists() else 0
+            try:
+                with open(self.log_file, "a") as f:
+                    f.write(log_line)
+            except Exception:
+                # Half an entry would swallow the next one
+                with open(self.log_file, "ab") as f:
+                    f.truncate(size)
+                raise
 
             self._operation_count += 1
 
-- 
2.43.0


From ff9db3b72994c2586b74a269d52a44f083d2b9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 44/82] fix: LSH must accept more hash bits than projections

---
 src/valori/indices/lsh.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/lsh.py b/src/valori/indices/lsh.py
index d17cc45..2d309f9 100644
--- a/src/valori/indices/lsh.py
+++ b/src/valori/indices/lsh.py
@@ -354,8 +354,9 @@ class LSHIndex(Index):
 
             if end_idx > self.num_projections:
                 # Wrap around if needed
-                proj_indices = list(range(start_idx, self.num_projections))
-                proj_indices.extend(range(0, end_idx - self.num_projections))
+                proj_indices = [
+                    idx % self.num_projections for idx in range(start_idx, end_idx)
+                ]
                 selected_projections = self.projections[proj_indices]
             else:
                 selected_projections = self.projections[start_idx:end_idx]
@@ -364,7 +365,7 @@ class LSHIndex(Index):
             dot_products = np.dot(selected_projections, vector)
 
             # Apply offsets and threshold to get binary hash
-            hash_bits = (dot_products + self.offsets[: len(dot_products)]) >= 0
+            hash_bits = (dot_products + np.resize(self.offsets, len(dot_products))) >= 0
 
             # Convert to hash string
             hash_string = "".join(["1" if bit else "0" for bit in hash_bits])
-- 
2.43.0


From 2fb2e7ec2156357eaa3fb443fbc8f3497d96b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:56 +0000
Subject: [PATCH 45/82] fix: scalar quantization with 63 or more bits must not
 overflow

---
 src/valori/quantization/scalar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index da52731..b81fb58 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -58,7 +58,7 @@ class ScalarQuantizer(Quantizer):
             # Compute scale and zero point for quantization using local vars
             # Use a capped denom to avoid floating-point overflow for very large bit counts
             raw_denom = (1 << int(self.bits)) - 1
-            denom_cap = float(min(raw_denom, np.iinfo(np.int64).max))
+            denom_cap = float(min(raw_denom, 1 << 62))
             scales = (max_vals - min_vals) / denom_cap
             # Avoid zero scale values per-dimension
             scales = np.where(scales == 0, 1.0, scales)
@@ -114,7 +114,8 @@ class ScalarQuantizer(Quantizer):
             # Round and clip to valid range
             rounded = np.rint(normalized_all)
             # Clip to the maximum representable for the chosen integer type
-            max_for_type = np.iinfo(itype).max
+            # (as in train, below the limit of int64, which no float can represent)
+            max_for_type = np.iinfo(itype).max if itype is np.int32 else 1 << 62
             upper_bound = int(
                 self.max_val if self.max_val <= max_for_type else max_for_type
             )
-- 
2.43.0


From 2efae6d87b9bc0aecadbeaf35c439304ae1a3cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 46/82] fix: scalar quantization of integer vectors must not
 wrap around

---
 src/valori/quantization/scalar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index b81fb58..630fdfe 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -51,6 +51,9 @@ class ScalarQuantizer(Quantizer):
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
+            if vectors.dtype.kind != "f":
+                # Small integer types wrap around in differences
+                vectors = vectors.astype(np.float64)
             self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
             max_vals = np.max(vectors, axis=0)
@@ -97,6 +100,8 @@ class ScalarQuantizer(Quantizer):
             )
             if vectors.shape[1] != self.dim:
                 raise QuantizationError(f"Vectors must have dimension {self.dim}")
+            if vectors.dtype.kind != "f":
+                vectors = vectors.astype(np.float64)
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
-- 
2.43.0


From caf0ab65c0f33b21a14b4634122c367d07de49dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 47/82] fix: a failed training must leave the quantizer as it
 was

---
 src/valori/quantization/base.py    | 11 +++++++++++
 src/valori/quantization/product.py |  3 +--
 src/valori/quantization/saq.py     |  9 ++++-----
 src/valori/quantization/scalar.py  |  3 +--
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/valori/quantization/base.py b/src/valori/quantization/base.py
index 085c649..30fd719 100644
--- a/src/valori/quantization/base.py
+++ b/src/valori/quantization/base.py
@@ -7,6 +7,8 @@ from typing import Any, Dict, Tuple
 
 import numpy as np
 
+from ..exceptions import QuantizationError
+
 
 class Quantizer(ABC):
     """
@@ -27,6 +29,15 @@ class Quantizer(ABC):
         """Initialize the quantizer."""
         pass
 
+    def _check_training_vectors(self, vectors: np.ndarray) -> None:
+        """Raise an error for vectors no quantizer can be trained on."""
+        if vectors.ndim != 2:
+            raise QuantizationError("Vectors must be 2D array")
+        if vectors.size == 0:
+            raise QuantizationError("Cannot train on no vectors")
+        if not np.all(np.isfinite(vectors)):
+            raise QuantizationError("Vectors contain NaN or infinite values")
+
     @abstractmethod
     def train(self, vectors: np.ndarray) -> None:
         """
diff --git a/src/valori/quantization/product.py b/src/valori/quantization/product.py
index fa49bb4..bf3ff13 100644
--- a/src/valori/quantization/product.py
+++ b/src/valori/quantization/product.py
@@ -43,8 +43,7 @@ class ProductQuantizer(Quantizer):
         if not self._initialized:
             raise QuantizationError("Quantizer not initialized")
 
-        if vectors.ndim != 2:
-            raise QuantizationError("Vectors must be 2D array")
+        self._check_training_vectors(vectors)
 
         try:
             n_vectors, dim = vectors.shape
diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index b4d8c96..84e89fd 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -84,8 +84,10 @@ class SAQQuantizer(Quantizer):
         if not self._initialized:
             raise QuantizationError("Quantizer not initialized")
 
-        if vectors.ndim != 2:
-            raise QuantizationError("Vectors must be 2D array")
+        self._check_training_vectors(vectors)
+
+        if self.total_bits < min(self.n_segments, vectors.shape[1]):
+            raise QuantizationError("total_bits must allow one bit per segment")
 
         try:
             import time
@@ -160,9 +162,6 @@ class SAQQuantizer(Quantizer):
         if self.n_segments > dim:
             self.n_segments = dim
 
-        if self.total_bits < self.n_segments:
-            raise QuantizationError("total_bits must allow one bit per segment")
-
         dp = np.full((self.n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
 
diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 630fdfe..4174dd7 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -45,8 +45,7 @@ class ScalarQuantizer(Quantizer):
         if not self._initialized:
             raise QuantizationError("Quantizer not initialized")
 
-        if vectors.ndim != 2:
-            raise QuantizationError("Vectors must be 2D array")
+        self._check_training_vectors(vectors)
 
         try:
             # Set dimension and compute min and max values for each dimension
-- 
2.43.0


From cd3a494191d5ba1f0023e1f3043facf910e77fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:17 +0000
Subject: [PATCH 48/82] fix: retraining SAQ must not keep the segment limit of
 an earlier training

---
 src/valori/quantization/saq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 84e89fd..880914c 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -86,7 +86,7 @@ class SAQQuantizer(Quantizer):
 
         self._check_training_vectors(vectors)
 
-        if self.total_bits < min(self.n_segments, vectors.shape[1]):
+        if self.total_bits < min(self.config.get("n_segments", 8), vectors.shape[1]):
             raise QuantizationError("total_bits must allow one bit per segment")
 
         try:
@@ -158,9 +158,9 @@ class SAQQuantizer(Quantizer):
         cumulative_variance = np.cumsum(explained_variance)
         # Dynamic programming for optimal segmentation
         # This minimizes quantization error given bit budget
-        # Make sure we don't allocate more segments than dimensions
-        if self.n_segments > dim:
-            self.n_segments = dim
+        # Make sure we don't allocate more segments than dimensions (nor keep the
+        # limit of an earlier training)
+        self.n_segments = min(self.config.get("n_segments", 8), dim)
 
         dp = np.full((self.n_segments + 1, dim + 1), np.inf)
         dp[0, 0] = 0
-- 
2.43.0


From b45d75de0f7d409d396556208312cdadde947626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 49/82] fix: scalar quantization must round codes in double
 precision

---
 src/valori/quantization/scalar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/valori/quantization/scalar.py b/src/valori/quantization/scalar.py
index 4174dd7..ce7b1e9 100644
--- a/src/valori/quantization/scalar.py
+++ b/src/valori/quantization/scalar.py
@@ -50,8 +50,9 @@ class ScalarQuantizer(Quantizer):
         try:
             # Set dimension and compute min and max values for each dimension
             n_vectors, dim = vectors.shape
-            if vectors.dtype.kind != "f":
-                # Small integer types wrap around in differences
+            if vectors.dtype not in (np.float32, np.float64):
+                # Small integer types wrap around in differences, half-precision
+                # floats are too coarse for the scale
                 vectors = vectors.astype(np.float64)
             self.dim = int(dim)
             min_vals = np.min(vectors, axis=0)
@@ -99,8 +100,8 @@ class ScalarQuantizer(Quantizer):
             )
             if vectors.shape[1] != self.dim:
                 raise QuantizationError(f"Vectors must have dimension {self.dim}")
-            if vectors.dtype.kind != "f":
-                vectors = vectors.astype(np.float64)
+            # Single precision cannot represent the limits of more than 24 bits
+            vectors = vectors.astype(np.float64)
             n_vectors = int(vectors.shape[0])
             # Choose integer dtype based on required range to avoid overflow
             if self.max_val <= np.iinfo(np.int32).max:
-- 
2.43.0


From 20622ce13f05818bfb3d8ed29e79a1cac5d5f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 50/82] fix: hybrid listing and statistics must not see
 half-finished operations

---
 src/valori/storage/hybrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/storage/hybrid.py b/src/valori/storage/hybrid.py
index ad653c7..e80117c 100644
--- a/src/valori/storage/hybrid.py
+++ b/src/valori/storage/hybrid.py
@@ -153,15 +153,17 @@ class HybridStorage(StorageBackend):
         if not self._initialized:
             raise StorageError("Storage backend not initialized")
 
-        return self.disk_storage.list_vectors(limit)
+        with self.lock:
+            return self.disk_storage.list_vectors(limit)
 
     def get_stats(self) -> Dict[str, Any]:
         """Get hybrid storage statistics."""
         if not self._initialized:
             return {"status": "not_initialized"}
 
-        memory_stats = self.memory_storage.get_stats()
-        disk_stats = self.disk_storage.get_stats()
+        with self.lock:
+            memory_stats = self.memory_storage.get_stats()
+            disk_stats = self.disk_storage.get_stats()
 
         return {
             "backend_type": "hybrid",
-- 
2.43.0


From a7fa54cfc19b3b7b3618105d6385a05d7f1a7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 51/82] fix: client statistics must not be read in the middle
 of an operation

---
 src/valori/client.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/valori/client.py b/src/valori/client.py
index 8061c8d..0829873 100644
--- a/src/valori/client.py
+++ b/src/valori/client.py
@@ -107,18 +107,19 @@ class VectorDBClient:
         if not self._initialized:
             raise ValoriError("Client not initialized. Call initialize() first.")
 
-        stats = {
-            "storage": self.storage_backend.get_stats(),
-            "index": self.index.get_stats(),
-        }
+        with self._lock:
+            stats = {
+                "storage": self.storage_backend.get_stats(),
+                "index": self.index.get_stats(),
+            }
 
-        if self.quantizer:
-            stats["quantization"] = self.quantizer.get_stats()
+            if self.quantizer:
+                stats["quantization"] = self.quantizer.get_stats()
 
-        if self.persistence_manager:
-            stats["persistence"] = self.persistence_manager.get_stats()
+            if self.persistence_manager:
+                stats["persistence"] = self.persistence_manager.get_stats()
 
-        return stats
+            return stats
 
     def close(self) -> None:
         """Close the client and all components."""
-- 
2.43.0


From cedc50e3856944e32f93cda100f7af482ee3a7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 52/82] fix: a failing progress callback must not count a
 stored batch as failed

---
 src/valori/utils/batch_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index febbc59..8abf5e0 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -84,10 +84,12 @@ class BatchManager:
             for i in range(0, len(vectors), self.batch_size):
                 batch_vectors = vectors[i : i + self.batch_size]
                 batch_metadata = metadata[i : i + self.batch_size]
+                inserted = False
 
                 try:
                     batch_ids = client.insert(batch_vectors, batch_metadata)
                     all_ids.extend(batch_ids)
+                    inserted = True
 
                     self._stats["processed_items"] = int(
                         self._stats.get("processed_items", 0) or 0
@@ -102,9 +104,11 @@ class BatchManager:
                         )
 
                 except Exception as e:
-                    self._stats["failed_items"] = int(
-                        self._stats.get("failed_items", 0) or 0
-                    ) + len(batch_vectors)
+                    # A failing progress callback does not undo the insertion
+                    if not inserted:
+                        self._stats["failed_items"] = int(
+                            self._stats.get("failed_items", 0) or 0
+                        ) + len(batch_vectors)
 
                     if self.error_callback:
                         self.error_callback(e, batch_vectors)
-- 
2.43.0


From bdd9afc0ac4fe7407ec5859fdf384f0d6de322d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:03 +0000
Subject: [PATCH 53/82] fix: similarity helpers must not wrap around or divide
 by zero for small types

---
 src/valori/utils/helpers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 90644c8..d923581 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -119,6 +119,16 @@ def create_vectors_from_files(
     return np.array(all_vectors), all_metadata
 
 
+def _as_float(vectors: np.ndarray) -> np.ndarray:
+    """Return vectors in a type in which differences and sums do not wrap around."""
+    vectors = np.asarray(vectors)
+    if vectors.dtype == np.float16:
+        return vectors.astype(np.float32)
+    if vectors.dtype.kind in "biu":
+        return vectors.astype(np.float64)
+    return vectors
+
+
 def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     """
     Normalize vectors using various methods.
@@ -130,6 +140,8 @@ def normalize_vectors(vectors: np.ndarray, method: str = "l2") -> np.ndarray:
     Returns:
         Normalized vectors
     """
+    vectors = _as_float(vectors)
+
     if method == "l2":
         norms = np.linalg.norm(vectors, axis=1, keepdims=True)
         return vectors / (norms + 1e-8)
@@ -164,6 +176,8 @@ def compute_similarity_matrix(
     Returns:
         Similarity matrix
     """
+    vectors = _as_float(vectors)
+
     if metric == "cosine":
         # Normalize vectors
         normalized = normalize_vectors(vectors, "l2")
-- 
2.43.0


From be7fa8a061c0339ecae560f4eab3d34d8452d422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 54/82] fix: HNSW must honour the parameter M of the published
 configurations

---
 src/valori/indices/hnsw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/indices/hnsw.py b/src/valori/indices/hnsw.py
index 5af50c3..aa8d1a3 100644
--- a/src/valori/indices/hnsw.py
+++ b/src/valori/indices/hnsw.py
@@ -27,7 +27,8 @@ class HNSWIndex(Index):
     def __init__(self, config: Dict[str, Any]):
         """Initialize HNSW index."""
         super().__init__(config)
-        self.m = config.get("m", 16)  # Number of bi-directional links
+        # Number of bi-directional links
+        self.m = config.get("m", config.get("M", 16))
         self.ef_construction = config.get("ef_construction", 200)
         self.ef_search = config.get("ef_search", 50)
         self.metric = config.get("metric", "cosine")
-- 
2.43.0


From 842aca9dd0f36e96dcfa96dfb7d2887455f7d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 55/82] fix: published configurations must not be shared with
 callers and databases

---
 src/valori/configs.py | 5 +++--
 src/valori/factory.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/valori/configs.py b/src/valori/configs.py
index 9f6b938..ff14a44 100644
--- a/src/valori/configs.py
+++ b/src/valori/configs.py
@@ -5,6 +5,7 @@ This module provides ready-to-use configurations for common use cases,
 making it easy to get started with the vector database.
 """
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 
 # Index configurations for different scenarios
@@ -389,11 +390,11 @@ def get_config(category: str, name: str) -> Dict[str, Any]:
     if category == "index":
         for subcategory, configs in category_configs.items():
             if name in configs:
-                return configs[name]
+                return deepcopy(configs[name])
     else:
         if name not in category_configs:
             raise ValueError(f"Unknown {category} config: {name}")
-        return category_configs[name]
+        return deepcopy(category_configs[name])
 
     raise ValueError(f"Unknown {category} config: {name}")
 
diff --git a/src/valori/factory.py b/src/valori/factory.py
index f735c87..bfdb791 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -5,6 +5,7 @@ This module provides convenient factory functions to create pre-configured
 vector database instances for common use cases.
 """
 
+from copy import deepcopy
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -407,7 +408,7 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
             f"Unknown template: {template_name}. Available: {list(TEMPLATES.keys())}"
         )
 
-    config = TEMPLATES[template_name].copy()
+    config = deepcopy(TEMPLATES[template_name])
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From e9d4c4697512e9e3628667f22a6c02e3bcfd84fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 56/82] fix: overriding the index type of a template must not
 keep the configuration of another index

---
 src/valori/factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index bfdb791..0883e70 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -409,6 +409,9 @@ def create_from_template(template_name: str, **overrides) -> VectorDBClient:
         )
 
     config = deepcopy(TEMPLATES[template_name])
+    if overrides.get("index_type", config["index_type"]) != config["index_type"]:
+        # The index configuration of the template is for another index
+        config.pop("index_config", None)
     config.update(overrides)
 
     return create_vector_db(**config)
-- 
2.43.0


From e9128849646dc06030576bd41ee062f83de6f6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 57/82] fix: create_vector_db must not ignore index_config next
 to a recommended index

---
 src/valori/factory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/valori/factory.py b/src/valori/factory.py
index 0883e70..78cdd13 100644
--- a/src/valori/factory.py
+++ b/src/valori/factory.py
@@ -52,6 +52,7 @@ def create_vector_db(
         index_config = get_recommended_index_config(
             num_vectors or 0, dimension or 0, use_case
         )
+        index_config["config"].update(kwargs.get("index_config", {}))
 
     # Create index
     index = _create_index(index_config["type"], index_config["config"])
-- 
2.43.0


From 8696137ef3ffe43c34847fd36d547c7e5d909486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 58/82] fix: chunks longer than max_chunk_size must be split,
 not dropped

---
 src/valori/processors/chunking.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/valori/processors/chunking.py b/src/valori/processors/chunking.py
index f05ca66..db3a93e 100644
--- a/src/valori/processors/chunking.py
+++ b/src/valori/processors/chunking.py
@@ -32,16 +32,18 @@ class ChunkingProcessor(DocumentProcessor):
         self.separators = config.get(
             "separators", ["\n\n", "\n", ". ", "! ", "? ", " "]
         )
+        # Longer chunks would be filtered out
+        self._size_limit = min(self.chunk_size, self.max_chunk_size)
         self.preserve_whitespace = config.get("preserve_whitespace", False)
         self._chunks_created = 0
         self._total_characters_processed = 0
 
     def initialize(self) -> None:
         """Initialize the chunking processor."""
-        if self.chunk_size <= 0:
+        if self._size_limit <= 0:
             raise ProcessingError("Chunk size must be positive")
 
-        if self.chunk_overlap >= self.chunk_size:
+        if self.chunk_overlap >= self._size_limit:
             raise ProcessingError("Chunk overlap must be less than chunk size")
 
         self._initialized = True
@@ -92,7 +94,7 @@ class ChunkingProcessor(DocumentProcessor):
         chunk_id = 0
 
         while start < len(text):
-            end = min(start + self.chunk_size, len(text))
+            end = min(start + self._size_limit, len(text))
 
             # Try to break at separator boundary
             if end < len(text):
@@ -149,7 +151,7 @@ class ChunkingProcessor(DocumentProcessor):
             oversized = len(paragraph) > self.max_chunk_size
             if current_chunk and (
                 oversized
-                or len(current_chunk) + 2 + len(paragraph) > self.chunk_size
+                or len(current_chunk) + 2 + len(paragraph) > self._size_limit
             ):
                 if current_chunk:
                     chunks.append(
@@ -212,7 +214,7 @@ class ChunkingProcessor(DocumentProcessor):
     def _sliding_window_chunking(self, text: str) -> List[Dict[str, Any]]:
         """Create chunks using sliding window approach."""
         chunks = []
-        window_size = self.chunk_size
+        window_size = self._size_limit
         step_size = window_size - self.chunk_overlap
 
         for i in range(0, len(text), step_size):
-- 
2.43.0


From 2848a0a44df9e0f38a80463dc38dffc8798bebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 59/82] fix: PDF chunks must name the page they start on

---
 src/valori/parsers/pdf_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/parsers/pdf_parser.py b/src/valori/parsers/pdf_parser.py
index 5f8453b..a2334ed 100644
--- a/src/valori/parsers/pdf_parser.py
+++ b/src/valori/parsers/pdf_parser.py
@@ -216,5 +216,6 @@ class PDFParser(DocumentParser):
         for page_info in page_metadata:
             if position < current_pos + page_info["text_length"]:
                 return page_info["page_number"]
-            current_pos += page_info["text_length"]
+            # Pages are separated by an empty line
+            current_pos += page_info["text_length"] + 2
         return page_metadata[-1]["page_number"] if page_metadata else 1
-- 
2.43.0


From a7072f118e26725fe696d16f3023ede6f5b21e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 60/82] fix: cleaning falls back to the built-in stop words
 when the NLTK corpus is not downloaded

---
 src/valori/processors/cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/cleaning.py b/src/valori/processors/cleaning.py
index abd7117..eec7a8b 100644
--- a/src/valori/processors/cleaning.py
+++ b/src/valori/processors/cleaning.py
@@ -49,7 +49,7 @@ class CleaningProcessor(DocumentProcessor):
                 from nltk.corpus import stopwords
 
                 self._stopwords = set(stopwords.words(self.stopwords_language))
-            except ImportError:
+            except (ImportError, LookupError):
                 # Fallback to basic English stopwords
                 self._stopwords = {
                     "a",
-- 
2.43.0


From df37a193a5226cd0a8f10df7a033a789d271e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 61/82] fix: empty texts in batches get the zero vector like
 single ones

---
 src/valori/processors/embedding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 9cc9152..4df0ab8 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -250,6 +250,10 @@ class EmbeddingProcessor(DocumentProcessor):
                     batch_embeddings = batch_embeddings / np.where(
                         norms > 0, norms, 1
                     )
+                # As for single texts, empty texts get the zero vector
+                for j, text in enumerate(batch_texts):
+                    if not text or not text.strip():
+                        batch_embeddings[j] = np.zeros_like(batch_embeddings[j])
             else:
                 # Process individually for other model types
                 batch_embeddings = []
-- 
2.43.0


From df7768184774579578e5739a6730110275a2f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 62/82] fix: texts with lone surrogates can be embedded with
 the cache on

---
 src/valori/processors/embedding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index 4df0ab8..b4be8aa 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -221,7 +221,7 @@ class EmbeddingProcessor(DocumentProcessor):
         """Generate cache key for text."""
         # Use hash of text + model name for cache key
         content = f"{text}_{self.model_name}_{self.model_type}"
-        return hashlib.md5(content.encode()).hexdigest()
+        return hashlib.md5(content.encode("utf-8", "surrogatepass")).hexdigest()
 
     def batch_process(self, texts: List[str]) -> List[np.ndarray]:
         """
-- 
2.43.0


From 833837a41c42ae2d868e7df5eaf7921dc386a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 63/82] fix: create_vectors_from_files fails when no file could
 be processed

---
 src/valori/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index d923581..502d79e 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -114,7 +114,7 @@ def create_vectors_from_files(
     pipeline.close()
 
     if not all_vectors:
-        return np.array([]).reshape(0, -1), []
+        return np.empty((0, 0)), []
 
     return np.array(all_vectors), all_metadata
 
-- 
2.43.0


From d3f3291793fa7d064cbeb82a54ae191536c5497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 64/82] fix: a pipeline must not run with part of its
 processors after a failed initialization

---
 src/valori/processors/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/valori/processors/pipeline.py b/src/valori/processors/pipeline.py
index 1d5f0c9..9362eed 100644
--- a/src/valori/processors/pipeline.py
+++ b/src/valori/processors/pipeline.py
@@ -28,6 +28,8 @@ class ProcessingPipeline:
 
     def initialize(self) -> None:
         """Initialize the processing pipeline."""
+        # Not usable until all processors are there
+        self._initialized = False
         try:
             # Initialize parser registry
             parser_config = self.config.get("parsers", {})
-- 
2.43.0


From 251cfe0bdf7605b0c33762d58199551486d09cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 65/82] fix: similarity functions wrapped around for integer
 vectors and overflowed for small floats

---
 src/valori/utils/similarity.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/similarity.py b/src/valori/utils/similarity.py
index b3b7ae5..96dd642 100644
--- a/src/valori/utils/similarity.py
+++ b/src/valori/utils/similarity.py
@@ -7,6 +7,13 @@ from typing import Union
 import numpy as np
 
 
+def _as_float(values: np.ndarray) -> np.ndarray:
+    """Widen to float64 (integers wrap around, small floats overflow)."""
+    if values.dtype.kind in "biuf" and values.dtype.itemsize <= 8:
+        return values.astype(np.float64, copy=False)
+    return values
+
+
 def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     """
     Compute cosine similarity between two vectors.
@@ -24,6 +31,8 @@ def cosine_similarity(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     # Compute dot product
     dot_product = np.dot(a, b)
 
@@ -74,6 +83,8 @@ def euclidean_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.linalg.norm(a - b)
 
 
@@ -94,6 +105,8 @@ def euclidean_distance_squared(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     diff = a - b
     return np.dot(diff, diff)
 
@@ -115,6 +128,8 @@ def dot_product(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.dot(a, b)
 
 
@@ -135,6 +150,8 @@ def manhattan_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.sum(np.abs(a - b))
 
 
@@ -155,6 +172,8 @@ def chebyshev_distance(a: np.ndarray, b: np.ndarray) -> float:
     if len(a) != len(b):
         raise ValueError("Vectors must have the same length")
 
+    a, b = _as_float(a), _as_float(b)
+
     return np.max(np.abs(a - b))
 
 
@@ -243,19 +262,24 @@ def normalize_vector(vector: np.ndarray, norm: str = "l2") -> np.ndarray:
     if vector.ndim != 1:
         raise ValueError("Vector must be 1D")
 
+    values = _as_float(vector)
+
     if norm == "l2":
-        norm_value = np.linalg.norm(vector)
+        norm_value = np.linalg.norm(values)
     elif norm == "l1":
-        norm_value = np.sum(np.abs(vector))
+        norm_value = np.sum(np.abs(values))
     elif norm == "max":
-        norm_value = np.max(np.abs(vector))
+        norm_value = np.max(np.abs(values))
     else:
         raise ValueError(f"Unsupported norm: {norm}")
 
     if norm_value == 0:
         return vector.copy()
 
-    return vector / norm_value
+    normalized = values / norm_value
+    if vector.dtype.kind == "f":
+        return normalized.astype(vector.dtype, copy=False)
+    return normalized
 
 
 def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.ndarray:
@@ -275,6 +299,8 @@ def batch_cosine_similarity(vectors_a: np.ndarray, vectors_b: np.ndarray) -> np.
     if vectors_a.shape[1] != vectors_b.shape[1]:
         raise ValueError("Vectors must have the same dimension")
 
+    vectors_a, vectors_b = _as_float(vectors_a), _as_float(vectors_b)
+
     # Compute dot products
     dot_products = np.dot(vectors_a, vectors_b.T)
 
-- 
2.43.0


From ec05868e1ab2051cba09b6c63a1f78b6eec7cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 66/82] fix: validating a non-numeric vector raised TypeError
 instead of ValidationError

---
 src/valori/utils/validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 7e057d2..298eed6 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -56,6 +56,9 @@ def validate_vector(
             f"Vector dtype {vector.dtype} does not match expected {dtype}"
         )
 
+    if not (np.issubdtype(vector.dtype, np.number) or vector.dtype == bool):
+        raise ValidationError("Vector must be numeric")
+
     if not allow_zero and np.all(vector == 0):
         raise ValidationError("Zero vector not allowed")
 
@@ -118,6 +121,9 @@ def validate_vectors(
             f"Vectors dtype {vectors.dtype} does not match expected {dtype}"
         )
 
+    if not (np.issubdtype(vectors.dtype, np.number) or vectors.dtype == bool):
+        raise ValidationError("Vectors must be numeric")
+
     if not allow_zero:
         zero_vectors = np.all(vectors == 0, axis=1)
         if np.any(zero_vectors):
-- 
2.43.0


From f4d8b7a7a4497c0e0659d665db3a5a01c7239a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 67/82] fix: validate_config let NaN and numpy numbers pass any
 value range

---
 src/valori/utils/validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 298eed6..655e55d 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -2,6 +2,7 @@
 Validation utilities for the valori vector database.
 """
 
+from numbers import Real
 from typing import Any, Dict, List, Optional, Union
 
 import numpy as np
@@ -188,8 +189,8 @@ def validate_config(
         for key, (min_val, max_val) in value_ranges.items():
             if key in config:
                 value = config[key]
-                if isinstance(value, (int, float)):
-                    if value < min_val or value > max_val:
+                if isinstance(value, Real):
+                    if not min_val <= value <= max_val:
                         raise ValidationError(
                             f"Key '{key}' value {value} is outside range [{min_val}, {max_val}]"
                         )
-- 
2.43.0


From 962b4198542fb39a5f3d870bc5ebe379a6a455bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 68/82] fix: validate_metadata raised RecursionError for deeply
 nested values

---
 src/valori/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/validation.py b/src/valori/utils/validation.py
index 655e55d..b59283f 100644
--- a/src/valori/utils/validation.py
+++ b/src/valori/utils/validation.py
@@ -341,7 +341,7 @@ def validate_metadata(metadata: Optional[Dict[str, Any]]) -> bool:
             import json
 
             json.dumps(value)
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, RecursionError):
             raise ValidationError(
                 f"Metadata value for key '{key}' is not JSON serializable"
             )
-- 
2.43.0


From c729bdf03e23790450f4eda55e4ed748ee9ba40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 69/82] fix: validate_index_performance needed an add method
 that most indices lack

---
 src/valori/utils/helpers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 502d79e..64e2502 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -469,7 +469,7 @@ def validate_index_performance(
     # Add vectors
     start_time = time.time()
     metadata = [{"id": i} for i in range(len(test_vectors))]
-    ids = index.add(test_vectors, metadata)
+    index.insert(test_vectors, metadata)
 
     if hasattr(index, "build"):
         index.build()
@@ -484,12 +484,15 @@ def validate_index_performance(
         search_times.append(time.time() - start_time)
 
     # Calculate metrics
-    avg_search_time = np.mean(search_times)
-    search_throughput = len(test_queries) / sum(search_times)
+    total_search_time = sum(search_times)
+    avg_search_time = total_search_time / len(search_times) if search_times else 0.0
+    search_throughput = (
+        len(search_times) / total_search_time if total_search_time > 0 else 0.0
+    )
 
     return {
         "add_time": add_time,
-        "add_throughput": len(test_vectors) / add_time,
+        "add_throughput": len(test_vectors) / add_time if add_time > 0 else 0.0,
         "avg_search_time": avg_search_time,
         "search_throughput": search_throughput,
         "index_stats": index.get_stats(),
-- 
2.43.0


From 9aac9c0d11d22cc7d66b80699b145cf6111c59cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 70/82] fix: memory_usage_decorator ran a function twice when
 it raised ImportError

---
 src/valori/utils/helpers.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/valori/utils/helpers.py b/src/valori/utils/helpers.py
index 64e2502..e5684b7 100644
--- a/src/valori/utils/helpers.py
+++ b/src/valori/utils/helpers.py
@@ -364,23 +364,22 @@ def memory_usage_decorator(func):
     def wrapper(*args, **kwargs):
         try:
             import psutil
+        except ImportError:
+            print("psutil not available for memory monitoring")
+            return func(*args, **kwargs)
 
-            process = psutil.Process()
-
-            # Get memory before
-            mem_before = process.memory_info().rss / 1024 / 1024  # MB
+        process = psutil.Process()
 
-            result = func(*args, **kwargs)
+        # Get memory before
+        mem_before = process.memory_info().rss / 1024 / 1024  # MB
 
-            # Get memory after
-            mem_after = process.memory_info().rss / 1024 / 1024  # MB
+        result = func(*args, **kwargs)
 
-            print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
-            return result
+        # Get memory after
+        mem_after = process.memory_info().rss / 1024 / 1024  # MB
 
-        except ImportError:
-            print("psutil not available for memory monitoring")
-            return func(*args, **kwargs)
+        print(f"{func.__name__} memory usage: {mem_after - mem_before:.2f} MB")
+        return result
 
     return wrapper
 
-- 
2.43.0


From 3e0a43913728d99aa7371284ca8a665fc0992ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 71/82] fix: ProgressTracker divided by a total of zero

---
 src/valori/utils/batch_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/batch_manager.py b/src/valori/utils/batch_manager.py
index 8abf5e0..2cc8a37 100644
--- a/src/valori/utils/batch_manager.py
+++ b/src/valori/utils/batch_manager.py
@@ -345,7 +345,7 @@ class ProgressTracker:
 
     def _print_progress(self):
         """Print progress information."""
-        progress = self.current / self.total
+        progress = self.current / self.total if self.total else 1.0
         percentage = progress * 100
 
         elapsed = time.time() - self.start_time
-- 
2.43.0


From 64b91f6e2924a13c95a678f5479c737b5ee80fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 72/82] fix: similarity analysis failed for a single vector,
 gave NaN for zero vectors and counted pairs twice

---
 src/valori/utils/debugging.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 72e1ba7..0422185 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -192,26 +192,27 @@ class VectorAnalyzer:
         else:
             sample_vectors = vectors
 
-        # Normalize vectors
-        normalized = sample_vectors / np.linalg.norm(
-            sample_vectors, axis=1, keepdims=True
-        )
+        # Normalize vectors (zero vectors have similarity 0)
+        norms = np.linalg.norm(sample_vectors, axis=1, keepdims=True)
+        normalized = sample_vectors / np.where(norms == 0, 1, norms)
 
         # Compute pairwise similarities
         similarity_matrix = np.dot(normalized, normalized.T)
 
-        # Remove diagonal (self-similarities)
-        mask = np.ones_like(similarity_matrix, dtype=bool)
-        np.fill_diagonal(mask, False)
-        similarities = similarity_matrix[mask]
-
-        return {
-            "similarity_stats": {
+        # Each pair once, without self-similarities
+        similarities = similarity_matrix[np.triu_indices(len(sample_vectors), k=1)]
+        if similarities.size == 0:
+            similarity_stats = {"mean": 0.0, "std": 0.0, "min": 0.0, "max": 0.0}
+        else:
+            similarity_stats = {
                 "mean": float(np.mean(similarities)),
                 "std": float(np.std(similarities)),
                 "min": float(np.min(similarities)),
                 "max": float(np.max(similarities)),
-            },
+            }
+
+        return {
+            "similarity_stats": similarity_stats,
             "high_similarity_pairs": int(np.sum(similarities > 0.95)),
             "low_similarity_pairs": int(np.sum(similarities < -0.5)),
         }
-- 
2.43.0


From 212cf10c3183085cec37f364120f8723ef78d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 73/82] fix: VectorAnalyzer reported the share of nonzero
 entries as sparsity

---
 src/valori/utils/debugging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 0422185..1a0c3e8 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -154,7 +154,7 @@ class VectorAnalyzer:
             "std": float(np.std(vectors)),
             "min": float(np.min(vectors)),
             "max": float(np.max(vectors)),
-            "sparsity": float(np.count_nonzero(vectors) / vectors.size),
+            "sparsity": float(1 - np.count_nonzero(vectors) / vectors.size),
         }
 
     def _distribution_analysis(self, vectors: np.ndarray) -> Dict[str, Any]:
-- 
2.43.0


From 9a6a532190e3f76409ba1e20a3597c9f4eda3b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 74/82] fix: print_analysis failed for an empty vector array

---
 src/valori/utils/debugging.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 1a0c3e8..79a87b6 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -267,6 +267,10 @@ class VectorAnalyzer:
         print("VECTOR ANALYSIS")
         print("=" * 60)
 
+        if "error" in analysis:
+            print(f"\n{analysis['error']}")
+            return
+
         # Basic stats
         basic = analysis["basic_stats"]
         print(f"\nBasic Statistics:")
-- 
2.43.0


From ff34e51aa6a9505e94ae1ec64e46d9e1e0a282c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 75/82] fix: FlatIndex took tiny vectors for zero vectors and
 lost distances far from the origin

---
 src/valori/indices/flat.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/valori/indices/flat.py b/src/valori/indices/flat.py
index 867ae37..80b8232 100644
--- a/src/valori/indices/flat.py
+++ b/src/valori/indices/flat.py
@@ -6,7 +6,7 @@ import uuid
 from typing import Any, Dict, List, Optional
 
 import numpy as np
-from sklearn.metrics.pairwise import cosine_similarity, euclidean_distances
+from sklearn.metrics.pairwise import cosine_similarity
 
 from ..exceptions import ValoriIndexError
 from ..storage.base import StorageBackend
@@ -136,11 +136,15 @@ class FlatIndex(Index):
 
             # Compute similarities/distances
             if self.metric == "cosine":
-                similarities = cosine_similarity([query_vector], vectors_array)[0]
+                similarities = cosine_similarity(
+                    self._rescale([query_vector]), self._rescale(vectors_array)
+                )[0]
                 # Convert to distances (1 - similarity for sorting)
                 distances = 1 - similarities
             elif self.metric == "euclidean":
-                distances = euclidean_distances([query_vector], vectors_array)[0]
+                # Differences keep their precision far away from the origin
+                query = np.asarray(query_vector, dtype=np.float64)
+                distances = np.linalg.norm(vectors_array - query, axis=1)
             else:
                 raise ValoriIndexError(f"Unsupported metric: {self.metric}")
 
@@ -167,6 +171,13 @@ class FlatIndex(Index):
         except Exception as e:
             raise ValoriIndexError(f"Search failed: {str(e)}")
 
+    @staticmethod
+    def _rescale(vectors: Any) -> np.ndarray:
+        """Bring vectors to a common magnitude (sklearn takes tiny ones for zero)."""
+        vectors = np.asarray(vectors, dtype=np.float64)
+        largest = np.abs(vectors).max(axis=1, initial=0, keepdims=True)
+        return vectors / np.where(largest == 0, 1, largest)
+
     def delete(self, ids: List[str]) -> bool:
         """Delete vectors by their IDs."""
         if not self._initialized:
-- 
2.43.0


From 5e25bc1edcb4de0901caabb3ba0c6973f4b15f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 76/82] fix: Docling chunks must name their first element

start_element was the chunk number times the chunk size in characters, not
the index of the first text element of the chunk.
---
 src/valori/parsers/docling_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/valori/parsers/docling_parser.py b/src/valori/parsers/docling_parser.py
index 0bd9471..acfc0f8 100644
--- a/src/valori/parsers/docling_parser.py
+++ b/src/valori/parsers/docling_parser.py
@@ -169,6 +169,7 @@ class DoclingParser(DocumentParser):
         chunks = []
         chunk_id = 0
         current_text = ""
+        start_element = 0
 
         for i, text_element in enumerate(text_elements):
             current_text += text_element + "\n"
@@ -179,7 +180,7 @@ class DoclingParser(DocumentParser):
                     {
                         "id": chunk_id,
                         "text": current_text.strip(),
-                        "start_element": chunk_id * self.chunk_size,
+                        "start_element": start_element,
                         "end_element": i,
                         "metadata": {
                             "chunk_type": "docling_segment",
@@ -189,6 +190,7 @@ class DoclingParser(DocumentParser):
                 )
                 chunk_id += 1
                 current_text = ""
+                start_element = i + 1
 
         # Add remaining text
         if current_text.strip():
@@ -196,7 +198,7 @@ class DoclingParser(DocumentParser):
                 {
                     "id": chunk_id,
                     "text": current_text.strip(),
-                    "start_element": chunk_id * self.chunk_size,
+                    "start_element": start_element,
                     "end_element": len(text_elements) - 1,
                     "metadata": {
                         "chunk_type": "docling_segment",
-- 
2.43.0


From 0c732280dffb322d812b19f317310b2b07d5aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 77/82] fix: reading embedding statistics must not change them

---
 src/valori/processors/embedding.py | 39 ++++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/valori/processors/embedding.py b/src/valori/processors/embedding.py
index b4be8aa..0f102a8 100644
--- a/src/valori/processors/embedding.py
+++ b/src/valori/processors/embedding.py
@@ -35,6 +35,7 @@ class EmbeddingProcessor(DocumentProcessor):
         self.device = config.get("device", "cpu")  # cpu, cuda, auto
         self._model = None
         self._cache = {}
+        self._dimension = None
         self._texts_processed = 0
         self._embeddings_generated = 0
         self._cache_hits = 0
@@ -42,6 +43,7 @@ class EmbeddingProcessor(DocumentProcessor):
     def initialize(self) -> None:
         """Initialize the embedding processor."""
         try:
+            self._dimension = None
             if self.model_type == "sentence_transformers":
                 self._initialize_sentence_transformers()
             elif self.model_type == "openai":
@@ -152,14 +154,7 @@ class EmbeddingProcessor(DocumentProcessor):
                 return self._cache[cache_key].copy()
 
         # Generate embedding
-        if self.model_type == "sentence_transformers":
-            embedding = self._generate_sentence_transformer_embedding(text)
-        elif self.model_type == "openai":
-            embedding = self._generate_openai_embedding(text)
-        elif self.model_type == "huggingface":
-            embedding = self._generate_huggingface_embedding(text)
-        else:
-            raise ProcessingError(f"Unknown model type: {self.model_type}")
+        embedding = self._run_model(text)
 
         # Normalize embedding
         if self.normalize_embeddings:
@@ -177,6 +172,17 @@ class EmbeddingProcessor(DocumentProcessor):
 
         return embedding
 
+    def _run_model(self, text: str) -> np.ndarray:
+        """Run the model on a single text."""
+        if self.model_type == "sentence_transformers":
+            return self._generate_sentence_transformer_embedding(text)
+        elif self.model_type == "openai":
+            return self._generate_openai_embedding(text)
+        elif self.model_type == "huggingface":
+            return self._generate_huggingface_embedding(text)
+        else:
+            raise ProcessingError(f"Unknown model type: {self.model_type}")
+
     def _generate_sentence_transformer_embedding(self, text: str) -> np.ndarray:
         """Generate embedding using SentenceTransformers."""
         embedding = self._model.encode(text, convert_to_numpy=True)
@@ -254,6 +260,8 @@ class EmbeddingProcessor(DocumentProcessor):
                 for j, text in enumerate(batch_texts):
                     if not text or not text.strip():
                         batch_embeddings[j] = np.zeros_like(batch_embeddings[j])
+                self._texts_processed += len(batch_texts)
+                self._embeddings_generated += len(batch_texts)
             else:
                 # Process individually for other model types
                 batch_embeddings = []
@@ -264,9 +272,6 @@ class EmbeddingProcessor(DocumentProcessor):
 
             embeddings.extend(batch_embeddings)
 
-        self._texts_processed += len(texts)
-        self._embeddings_generated += len(texts)
-
         return embeddings
 
     def get_embedding_dimension(self) -> int:
@@ -274,9 +279,10 @@ class EmbeddingProcessor(DocumentProcessor):
         if not self._initialized:
             return 0
 
-        # Generate a test embedding to determine dimension
-        test_embedding = self._generate_embedding("test")
-        return len(test_embedding)
+        # Run the model once to determine dimension
+        if self._dimension is None:
+            self._dimension = len(self._run_model("test"))
+        return self._dimension
 
     def clear_cache(self) -> None:
         """Clear the embedding cache."""
@@ -286,8 +292,9 @@ class EmbeddingProcessor(DocumentProcessor):
     def get_stats(self) -> Dict[str, Any]:
         """Get embedding processor statistics."""
         cache_hit_rate = 0
-        if self._embeddings_generated > 0:
-            cache_hit_rate = self._cache_hits / self._embeddings_generated
+        lookups = self._cache_hits + self._embeddings_generated
+        if lookups > 0:
+            cache_hit_rate = self._cache_hits / lookups
 
         return {
             "processor_type": "embedding",
-- 
2.43.0


From 10745a887a768759a5feb7eb895da1dd080c3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 78/82] fix: SAQ statistics shared the quantizer's own lists

---
 src/valori/quantization/saq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/valori/quantization/saq.py b/src/valori/quantization/saq.py
index 880914c..375685d 100644
--- a/src/valori/quantization/saq.py
+++ b/src/valori/quantization/saq.py
@@ -5,6 +5,7 @@ Based on the SAQ method from recent research, this quantizer provides
 production-ready quantization for large-scale vector databases.
 """
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -646,7 +647,7 @@ class SAQQuantizer(Quantizer):
                 }
             )
 
-        return stats
+        return deepcopy(stats)
 
     def close(self) -> None:
         """Close the SAQ quantizer and clean up resources."""
-- 
2.43.0


From ff8335adff1c69bc61c0f05c9f02b73029e28569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:03 +0000
Subject: [PATCH 79/82] fix: Annoy trees built by several threads did not
 always load back

---
 src/valori/indices/annoy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index d9bcb72..57766e5 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -226,13 +226,14 @@ class AnnoyIndex(Index):
                 if vector is not None:
                     self._annoy_index.add_item(vector_id, vector.astype(np.float32))
 
+            # Trees built by several threads do not always load back from a file
             if self.build_on_disk:
                 if self._temp_file is None:
                     fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
                     os.close(fd)
 
                 # Build on disk
-                self._annoy_index.build(self.num_trees)
+                self._annoy_index.build(self.num_trees, n_jobs=1)
                 self._annoy_index.save(self._temp_file)
 
                 # Reload from disk
@@ -240,7 +241,7 @@ class AnnoyIndex(Index):
                 self._annoy_index.load(self._temp_file)
             else:
                 # Build in memory
-                self._annoy_index.build(self.num_trees)
+                self._annoy_index.build(self.num_trees, n_jobs=1)
 
         self._built = True
 
-- 
2.43.0


From 7a8d06f495b4578ccc5f39636c62d5d0596a504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 80/82] fix: initializing an Annoy index again left its
 temporary file behind

---
 src/valori/indices/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/valori/indices/annoy.py b/src/valori/indices/annoy.py
index 57766e5..b80d435 100644
--- a/src/valori/indices/annoy.py
+++ b/src/valori/indices/annoy.py
@@ -72,7 +72,7 @@ class AnnoyIndex(Index):
         if storage_backend is not None:
             self.storage_backend = storage_backend
 
-        if self.build_on_disk:
+        if self.build_on_disk and self._temp_file is None:
             # Create temporary file for on-disk building
             fd, self._temp_file = tempfile.mkstemp(suffix=".annoy")
             os.close(fd)
-- 
2.43.0


From 8d8e5ac381bf9fe3b81c9e152c5f28840ea6586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 81/82] fix: setup_logging replaces the handlers and levels of
 get_logger

A logger obtained before setup_logging printed every message twice
afterwards, and none below INFO even when DEBUG was configured.
---
 src/valori/utils/logging.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/valori/utils/logging.py b/src/valori/utils/logging.py
index af6b49d..6f065ab 100644
--- a/src/valori/utils/logging.py
+++ b/src/valori/utils/logging.py
@@ -8,6 +8,11 @@ from pathlib import Path
 from typing import Any, Dict, Optional
 
 
+# Console handlers added by get_logger, removed when setup_logging takes over
+_console_handlers: Dict[str, logging.Handler] = {}
+_configured = False
+
+
 def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     """
     Get a logger instance for the given name.
@@ -21,8 +26,8 @@ def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     """
     logger = logging.getLogger(name)
 
-    # Don't add handlers if they already exist
-    if logger.handlers:
+    # Don't add handlers if they already exist or setup_logging provides them
+    if logger.handlers or _configured:
         return logger
 
     # Set level
@@ -40,6 +45,7 @@ def get_logger(name: str, level: str = "INFO") -> logging.Logger:
     console_handler.setLevel(numeric_level)
     console_handler.setFormatter(formatter)
     logger.addHandler(console_handler)
+    _console_handlers[name] = console_handler
 
     return logger
 
@@ -81,6 +87,15 @@ def setup_logging(config: Optional[Dict[str, Any]] = None) -> None:
     # Clear existing handlers
     root_logger.handlers.clear()
 
+    # From now on the root handlers and level serve the loggers of get_logger too
+    global _configured
+    _configured = True
+    for name, handler in _console_handlers.items():
+        logger = logging.getLogger(name)
+        logger.removeHandler(handler)
+        logger.setLevel(logging.NOTSET)
+    _console_handlers.clear()
+
     # Create console handler
     console_handler = logging.StreamHandler(sys.stdout)
     console_handler.setLevel(level)
-- 
2.43.0


From 8118832c6b5abffd48255ffeb31831fd894e6e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 82/82] fix: repeated debugging.setup_logging does not multiply
 log messages

---
 src/valori/utils/debugging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/valori/utils/debugging.py b/src/valori/utils/debugging.py
index 79a87b6..e584ca7 100644
--- a/src/valori/utils/debugging.py
+++ b/src/valori/utils/debugging.py
@@ -416,6 +416,11 @@ def setup_logging(level: str = "INFO", log_file: Optional[str] = None):
     logger = logging.getLogger("valori")
     logger.setLevel(log_level)
 
+    # Replace the handlers of an earlier setup
+    for handler in logger.handlers[:]:
+        logger.removeHandler(handler)
+        handler.close()
+
     # Console handler
     console_handler = logging.StreamHandler()
     console_handler.setFormatter(formatter)
-- 
2.43.0

