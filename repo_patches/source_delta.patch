From 7421a82e83be1a597c93da806db4b7748784d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 01/30] fix: use builtin object dtype in mat backend (np.object
 was removed from NumPy)

---
 dsch/backends/mat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 8b89110..c9fa766 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -87,7 +87,7 @@ class List(npz.List):
         # If the list layer got squeezed away, we need to re-introduce it here
         if not isinstance(data_storage, np.ndarray) \
                 or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=np.object)
+            data_storage = np.array([data_storage], dtype=object)
 
         for field in data_storage:
             subnode = data.data_node_from_schema(self.schema_node.subnode,
@@ -99,12 +99,12 @@ class List(npz.List):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=numpy.object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
 
         Returns:
             dict: Data storage object with the node's data.
         """
-        data_storage = np.zeros((len(self._subnodes),), dtype=np.object)
+        data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
             data_storage[idx] = node.save()
         return data_storage
-- 
2.43.0


From 1a7d147b0188efe8bc1f1ffff09815b2f603a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 02/30] fix: restore exact array dimensions when loading mat
 files

---
 dsch/backends/mat.py | 99 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 79 insertions(+), 20 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index c9fa766..5225c09 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -4,10 +4,34 @@ import scipy.io as sio
 from . import npz
 from .. import data, schema
 
+# NumPy data types that are converted by scipy.io.savemat, because there is no
+# corresponding type in the mat file format.
+_CONVERTED_DTYPES = {'bool': 'uint8', 'float16': 'float64'}
+
 
 class Array(npz.Array):
     """Array-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        MATLAB arrays always have at least two dimensions, so the number of
+        dimensions is restored according to the schema. The same applies to
+        data types that have no direct equivalent in the mat file format.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        data_storage = np.asarray(data_storage)
+        if self.schema_node.ndim == 1 and data_storage.ndim == 2 \
+                and min(data_storage.shape) <= 1:
+            data_storage = data_storage.ravel()
+        elif self.schema_node.ndim == 0 and data_storage.size == 1:
+            data_storage = data_storage.reshape(())
+        dtype = np.dtype(self.schema_node.dtype)
+        if _CONVERTED_DTYPES.get(dtype.name) == data_storage.dtype.name:
+            data_storage = data_storage.astype(dtype)
+        super()._init_from_storage(data_storage)
 
 
 class Bytes(npz.Bytes):
@@ -37,11 +61,9 @@ class Compilation(npz.Compilation):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # For Compilation inside Compilation, scipy.io.loadmat seems to wrap
-        # the inner Compilation in an additional scalar ndarray with dtype
-        # object. This must be ignored, if present.
-        if data_storage.shape == ():
-            data_storage = data_storage[()]
+        # MATLAB structs are actually arrays of structs, so select the only
+        # element. Structs without any fields are loaded as None.
+        data_storage = data_storage.reshape(-1)[0]
 
         for node_name, subnode in self.schema_node.subnodes.items():
             # Work around the fact that we cannot use
@@ -49,7 +71,7 @@ class Compilation(npz.Compilation):
             # but a numpy.ndarray.
             try:
                 node_storage = data_storage[node_name]
-            except ValueError:
+            except (TypeError, ValueError):
                 node_storage = None
 
             self._subnodes[node_name] = data.data_node_from_schema(
@@ -59,12 +81,26 @@ class Compilation(npz.Compilation):
 
 class Date(npz.Date):
     """Date-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
 
 
 class DateTime(npz.DateTime):
     """DateTime-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
 
 
 class List(npz.List):
@@ -84,12 +120,7 @@ class List(npz.List):
             data_storage (numpy.ndarray): Backend-specific data
                 storage object to load.
         """
-        # If the list layer got squeezed away, we need to re-introduce it here
-        if not isinstance(data_storage, np.ndarray) \
-                or data_storage.shape == ():
-            data_storage = np.array([data_storage], dtype=object)
-
-        for field in data_storage:
+        for field in data_storage.reshape(-1):
             subnode = data.data_node_from_schema(self.schema_node.subnode,
                                                  self.__module__, self,
                                                  data_storage=field)
@@ -112,7 +143,14 @@ class List(npz.List):
 
 class Scalar(npz.Scalar):
     """Scalar-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        super()._init_from_storage(np.asarray(data_storage).reshape(())[()])
 
 
 class Storage(npz.Storage):
@@ -129,8 +167,8 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path, squeeze_me=True)
-        self.schema_node = schema.node_from_json(file_['schema'])
+        file_ = sio.loadmat(self.storage_path)
+        self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
@@ -147,9 +185,30 @@ class Storage(npz.Storage):
 
 class String(npz.String):
     """String-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Empty strings are represented as empty arrays in the mat file format.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        data_storage = np.ravel(data_storage)
+        if data_storage.size:
+            data_storage = data_storage.reshape(())
+        else:
+            data_storage = np.array('', dtype='U')
+        super()._init_from_storage(data_storage)
 
 
 class Time(npz.Time):
     """Time-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        super()._init_from_storage(np.ravel(data_storage))
-- 
2.43.0


From b3ca139ffdea140e45abfaab5d656d74e6dfb1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:10 +0000
Subject: [PATCH 03/30] fix: store bytes in mat files such that they can be
 loaded again

---
 dsch/backends/mat.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 5225c09..75b3ae0 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -36,7 +36,31 @@ class Array(npz.Array):
 
 class Bytes(npz.Bytes):
     """Bytes-type data node for the mat backend."""
-    pass
+
+    def _init_from_storage(self, data_storage):
+        """Create a new data node from a data storage object.
+
+        Args:
+            data_storage (numpy.ndarray): Data storage object to load.
+        """
+        if data_storage.dtype == 'uint8':
+            self.replace(data_storage.tobytes())
+        else:
+            super()._init_from_storage(data_storage)
+
+    def save(self):
+        """Export the node data as a data storage object.
+
+        For the mat backend, the individual bytes are represented as a NumPy
+        array with ``dtype='uint8'``, because the character arrays of the mat
+        file format cannot hold arbitrary bytes.
+
+        Returns:
+            numpy.ndarray: Data storage object with the node's data.
+        """
+        if self.empty:
+            return None
+        return np.frombuffer(self.value, dtype='uint8')
 
 
 class Bool(npz.Bool):
-- 
2.43.0


From de8d409f5ba1d2185d4743f74e7cc97c80703c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:17 +0000
Subject: [PATCH 04/30] fix: keep bytes values of any length in npz and hdf5
 backends

---
 dsch/backends/hdf5.py | 9 ++++-----
 dsch/backends/npz.py  | 4 +++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 1f37986..ad95cd1 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -126,11 +126,10 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        if self._storage:
-            self._storage[()] = np.void(new_value)
-        else:
-            self._storage = self._parent.create_dataset(
-                self._dataset_name, data=np.void(new_value))
+        # The size of the dataset is fixed, so it cannot be re-used for values
+        # of different length. Empty bytes are represented by an empty array.
+        super().replace(np.void(new_value) if new_value
+                        else np.zeros(0, dtype='V1'))
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index b7901c4..572530f 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -60,7 +60,9 @@ class Bytes(_ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self._storage = np.array(new_value, dtype='bytes')
+        # NumPy has no zero-length bytes type, so empty bytes are represented
+        # by an empty array.
+        self._storage = np.array(new_value if new_value else [], dtype='bytes')
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 5ebd64cb7a920eefb2e119ae28130f0ea7fe2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 05/30] fix: always use exactly the given path for npz and mat
 files

---
 dsch/backends/mat.py | 4 ++--
 dsch/backends/npz.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 75b3ae0..16f85a4 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -191,7 +191,7 @@ class Storage(npz.Storage):
 
     def _load(self):
         """Load an existing file from :attr:`storage_path`."""
-        file_ = sio.loadmat(self.storage_path)
+        file_ = sio.loadmat(self.storage_path, appendmat=False)
         self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
         self.data = data.data_node_from_schema(self.schema_node,
@@ -204,7 +204,7 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data)
+        sio.savemat(self.storage_path, store_data, appendmat=False)
 
 
 class String(npz.String):
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 572530f..f2632c7 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -268,8 +268,9 @@ class Storage(storage.FileStorage):
                 store_data = _flatten_dotted({'data': output_data})
             else:
                 store_data = {}
-        np.savez(self.storage_path, _schema=self.schema_node.to_json(),
-                 **store_data)
+        # Use a file object because NumPy might change the given file name.
+        with open(self.storage_path, 'wb') as file_:
+            np.savez(file_, _schema=self.schema_node.to_json(), **store_data)
 
 
 class String(_ItemNode):
-- 
2.43.0


From 0e590dd32ab4c9bc0deeb42ccc465fe8ae940106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 06/30] fix: do not apply set_on_create to empty nodes when
 loading

---
 dsch/backends/hdf5.py | 10 +++++-----
 dsch/backends/mat.py  | 11 +++++------
 dsch/backends/npz.py  |  6 +++---
 dsch/data.py          | 32 +++++++++++++++++++++++++++++---
 4 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index ad95cd1..d240865 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -187,8 +187,8 @@ class Compilation(data.Compilation):
                     data_storage=data_storage[node_name])
             else:
                 new_params_sub = {'name': node_name, 'parent': data_storage}
-                self._subnodes[node_name] = data.data_node_from_schema(
-                    subnode, self.__module__, self, new_params=new_params_sub)
+                self._subnodes[node_name] = data.data_node_from_storage(
+                    subnode, self.__module__, self, None, new_params_sub)
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -380,9 +380,9 @@ class Storage(storage.FileStorage):
                 data_storage = self._storage['dsch_data']
             else:
                 new_params = {'name': 'dsch_data', 'parent': self._storage}
-                self.data = data.data_node_from_schema(self.schema_node,
-                                                       self.__module__, None,
-                                                       new_params=new_params)
+                self.data = data.data_node_from_storage(self.schema_node,
+                                                        self.__module__, None,
+                                                        None, new_params)
                 return
         self.data = data.data_node_from_schema(self.schema_node,
                                                self.__module__, None,
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 16f85a4..940b73d 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -98,9 +98,8 @@ class Compilation(npz.Compilation):
             except (TypeError, ValueError):
                 node_storage = None
 
-            self._subnodes[node_name] = data.data_node_from_schema(
-                subnode, self.__module__, self,
-                data_storage=node_storage)
+            self._subnodes[node_name] = data.data_node_from_storage(
+                subnode, self.__module__, self, node_storage)
 
 
 class Date(npz.Date):
@@ -194,9 +193,9 @@ class Storage(npz.Storage):
         file_ = sio.loadmat(self.storage_path, appendmat=False)
         self.schema_node = schema.node_from_json(file_['schema'].item())
         data_storage = file_.get('data', None)
-        self.data = data.data_node_from_schema(self.schema_node,
-                                               self.__module__, None,
-                                               data_storage=data_storage)
+        self.data = data.data_node_from_storage(self.schema_node,
+                                                self.__module__, None,
+                                                data_storage)
 
     def _save(self):
         """Save the current data to the file in :attr:`storage_path`."""
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index f2632c7..50c35b2 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -247,9 +247,9 @@ class Storage(storage.FileStorage):
             # If the top-level node is not a Compilation, the default name
             # 'data' is used for the node.
             data_storage = stored_data.get('data', None)
-        self.data = data.data_node_from_schema(self.schema_node,
-                                               self.__module__, None,
-                                               data_storage=data_storage)
+        self.data = data.data_node_from_storage(self.schema_node,
+                                                self.__module__, None,
+                                                data_storage)
 
     def _new(self):
         """Create a new file at :attr:`storage_path`."""
diff --git a/dsch/data.py b/dsch/data.py
index 4616bdc..2900d92 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -464,9 +464,8 @@ class Compilation:
         """
         for node_name, subnode in self.schema_node.subnodes.items():
             node_storage = data_storage.get(node_name, None)
-            self._subnodes[node_name] = data_node_from_schema(
-                subnode, self.__module__, self,
-                data_storage=node_storage)
+            self._subnodes[node_name] = data_node_from_storage(
+                subnode, self.__module__, self, node_storage)
 
     def _init_new(self, new_params):
         """Initialize new, empty Compilation.
@@ -952,3 +951,30 @@ def data_node_from_schema(schema_node, module_name, parent, data_storage=None,
     data_node_type = getattr(backend_module, node_type_name)
     return data_node_type(schema_node, parent, data_storage=data_storage,
                           new_params=new_params)
+
+
+def data_node_from_storage(schema_node, module_name, parent, data_storage,
+                           new_params=None):
+    """Create a data node when loading from an existing storage.
+
+    In contrast to :func:`data_node_from_schema`, the data node is left empty
+    when there is no ``data_storage`` for it, i.e. when it was empty when the
+    storage was saved. Specifically, ``set_on_create`` is not applied.
+
+    Args:
+        schema_node: Schema node instance to create a data node for.
+        module_name (str): The full module name of the data storage backend.
+        parent: Parent data node object.
+        data_storage: Backend-specific data storage object to load. ``None`` if
+            there is no stored data for this node.
+        new_params: Backend-specific metadata for data node creation.
+
+    Returns:
+        Data node corresponding to the given schema node.
+    """
+    data_node = data_node_from_schema(schema_node, module_name, parent,
+                                      data_storage=data_storage,
+                                      new_params=new_params)
+    if data_storage is None:
+        data_node.clear()
+    return data_node
-- 
2.43.0


From db0e8872ba6367acb022cda3085bc22ab3498014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 07/30] fix: keep empty list items when saving and loading

---
 dsch/backends/hdf5.py | 11 ++++++++++-
 dsch/backends/mat.py  | 14 +++++++++-----
 dsch/backends/npz.py  | 16 +++++++++++-----
 dsch/data.py          | 15 ++++++++-------
 4 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index d240865..c48efb8 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -291,6 +291,7 @@ class List(data.List):
                                              self.__module__, self,
                                              new_params=new_params)
         self._subnodes.append(subnode)
+        self._storage.attrs['length'] = len(self)
         if value is not None:
             subnode.replace(value)
 
@@ -299,6 +300,7 @@ class List(data.List):
         for name in self._storage.keys():
             del self._storage[name]
         super().clear()
+        self._storage.attrs['length'] = 0
 
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
@@ -309,8 +311,15 @@ class List(data.List):
             data_storage (h5py.Dataset): Data storage object to be
                 imported.
         """
-        super()._init_from_storage(data_storage)
         self._storage = data_storage
+        # Empty items do not have a corresponding storage object.
+        for idx in range(data_storage.attrs.get('length', len(data_storage))):
+            name = 'item_{}'.format(idx)
+            new_params = {'name': name, 'parent': data_storage}
+            subnode = data.data_node_from_storage(
+                self.schema_node.subnode, self.__module__, self,
+                data_storage.get(name), new_params)
+            self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
         """Initialize new, empty List data node.
diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 940b73d..a52ab98 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -144,23 +144,27 @@ class List(npz.List):
                 storage object to load.
         """
         for field in data_storage.reshape(-1):
-            subnode = data.data_node_from_schema(self.schema_node.subnode,
-                                                 self.__module__, self,
-                                                 data_storage=field)
+            if field.dtype == object and field.size and field.flat[0] is None:
+                # Struct without any fields, see save().
+                field = None
+            subnode = data.data_node_from_storage(self.schema_node.subnode,
+                                                  self.__module__, self, field)
             self._subnodes.append(subnode)
 
     def save(self):
         """Export the node data as a data storage object.
 
         For the mat backend, List data is represented as a NumPy object array,
-        i.e. a :class:`numpy.ndarray` with ``dtype=object``.
+        i.e. a :class:`numpy.ndarray` with ``dtype=object``. Empty items are
+        represented by structs without any fields.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = np.zeros((len(self._subnodes),), dtype=object)
         for idx, node in enumerate(self._subnodes):
-            data_storage[idx] = node.save()
+            node_storage = node.save()
+            data_storage[idx] = {} if node_storage is None else node_storage
         return data_storage
 
 
diff --git a/dsch/backends/npz.py b/dsch/backends/npz.py
index 50c35b2..af31c81 100644
--- a/dsch/backends/npz.py
+++ b/dsch/backends/npz.py
@@ -111,9 +111,10 @@ class Compilation(data.Compilation):
             dict: Data storage object with the node's data.
         """
         data_storage = {}
-        for name, node in [(na, no) for na, no in self._subnodes.items()
-                           if not no.empty]:
-            data_storage[name] = node.save()
+        for name, node in self._subnodes.items():
+            node_storage = node.save()
+            if node_storage is not None:
+                data_storage[name] = node_storage
         return data_storage
 
 
@@ -177,14 +178,19 @@ class List(data.List):
 
         For :class:`List`, data is represented as a :class:`dict` containing
         the sub-node's data storage objects as values and keys of the form
-        ``item_X``, where ``X`` is the list index.
+        ``item_X``, where ``X`` is the list index. Empty items cannot be
+        represented by themselves, so ``length`` is added if there are any.
 
         Returns:
             dict: Data storage object with the node's data.
         """
         data_storage = {}
         for idx, node in enumerate(self._subnodes):
-            data_storage['item_{}'.format(idx)] = node.save()
+            if node.empty:
+                data_storage['length'] = len(self._subnodes)
+            node_storage = node.save()
+            if node_storage is not None:
+                data_storage['item_{}'.format(idx)] = node_storage
         return data_storage
 
 
diff --git a/dsch/data.py b/dsch/data.py
index 2900d92..8c34954 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -758,17 +758,18 @@ class List:
 
         The default implementation expects a dict, where keys are of the form
         "item_X", with X the list index, and values are the corresponding data
-        storage objects. Backend-specific subclasses may change this, if
-        required.
+        storage objects. Empty items may be missing, in which case an
+        additional entry "length" is expected. Backend-specific subclasses may
+        change this, if required.
 
         Args:
             data_storage (dict): Backend-specific data storage object to load.
         """
-        for idx in range(len(data_storage)):
-            node_storage = data_storage['item_{}'.format(idx)]
-            subnode = data_node_from_schema(self.schema_node.subnode,
-                                            self.__module__, self,
-                                            data_storage=node_storage)
+        for idx in range(int(data_storage.get('length', len(data_storage)))):
+            node_storage = data_storage.get('item_{}'.format(idx), None)
+            subnode = data_node_from_storage(self.schema_node.subnode,
+                                             self.__module__, self,
+                                             node_storage)
             self._subnodes.append(subnode)
 
     def _init_new(self, new_params):
-- 
2.43.0


From b2edd59e27785c73c4a7132a635b1a996930e0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:28 +0000
Subject: [PATCH 08/30] fix: allow copying from empty data nodes

---
 dsch/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 8c34954..d1aed2d 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -159,7 +159,10 @@ class ItemNode:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
-        self.replace(source_node.value)
+        if source_node.empty:
+            self.clear()
+        else:
+            self.replace(source_node.value)
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From cd757e644681076c7d811f1af4dc0dc62f606095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:35 +0000
Subject: [PATCH 09/30] fix: replace existing list items when copying from
 another list

---
 dsch/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsch/data.py b/dsch/data.py
index d1aed2d..d5558df 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -797,6 +797,7 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
             self[idx].load_from(subnode)
-- 
2.43.0


From a2b42ecbdfb8e572de2ecefecf034cd620d106d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 10/30] fix: do not share array memory between original and
 copied data nodes

---
 dsch/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index d5558df..50194c5 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -11,6 +11,7 @@ implementing the respective functionality. The classes in this module provide
 common functionality and are intended to be used as base classes.
 Different backends are implemented in the :mod:`dsch.backends` package.
 """
+import copy
 import datetime
 import importlib
 
@@ -162,7 +163,7 @@ class ItemNode:
         if source_node.empty:
             self.clear()
         else:
-            self.replace(source_node.value)
+            self.replace(copy.copy(source_node.value))
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From 1f1d84dde6f485b7d391581989f5fdecab02e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 11/30] fix: match independent variables to the correct array
 dimensions

---
 dsch/data.py   | 2 ++
 dsch/schema.py | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index 50194c5..2e6660a 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -318,6 +318,8 @@ class Array(ItemNode):
             if node_name:
                 independent_values.append(getattr(self.parent, node_name)
                                           .value)
+            else:
+                independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
 
 
diff --git a/dsch/schema.py b/dsch/schema.py
index ce3cf71..00a902d 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -234,7 +234,8 @@ class Array(SchemaNode):
         in contrast to other node types, this method requires a second
         argument, supplying a tuple of :class:`numpy.ndarray` representing the
         independent variables. The tuple's length must consequently be equal to
-        :attr:`ndim` and to the length of :attr:`depends_on`.
+        :attr:`ndim` and to the length of :attr:`depends_on`. For dimensions
+        without an independent variable, the value must be ``None``.
 
         If validation succeeds, the method terminates silently. Otherwise, an
         exception is raised.
@@ -276,6 +277,8 @@ class Array(SchemaNode):
 
         if self.depends_on:
             for dim, value in zip(test_data.shape, independent_values):
+                if value is None:
+                    continue
                 if value.ndim > 1:
                     raise ValueError('Independent variable array must be '
                                      'one-dimensional.')
-- 
2.43.0


From b37f503d59ebe9a954c6cb1232de0f384615c145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 12/30] fix: apply maximum length and shape constraints of zero

---
 dsch/schema.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 00a902d..f890245 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -258,7 +258,7 @@ class Array(SchemaNode):
                                   self.ndim, test_data.ndim)
         if self.max_shape:
             for nominal, actual in zip(self.max_shape, test_data.shape):
-                if nominal and actual > nominal:
+                if nominal is not None and actual > nominal:
                     raise ValidationError('Maximum array shape exceeded.',
                                           self.max_shape, test_data.shape)
         if self.min_shape:
@@ -340,7 +340,7 @@ class Bytes(SchemaNode):
         if not isinstance(test_data, bytes):
             raise ValidationError('Invalid type/value.', 'bytes',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum bytes length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -660,7 +660,7 @@ class List(SchemaNode):
         Raises:
             dsch.exceptions.ValidationError: if validation fails.
         """
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum list length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
@@ -818,7 +818,7 @@ class String(SchemaNode):
         if not isinstance(test_data, str):
             raise ValidationError('Invalid type/value.', 'str',
                                   type(test_data))
-        if self.max_length and len(test_data) > self.max_length:
+        if self.max_length is not None and len(test_data) > self.max_length:
             raise ValidationError('Maximum string length exceeded.',
                                   self.max_length, len(test_data))
         if self.min_length and len(test_data) < self.min_length:
-- 
2.43.0


From 6b698e0401207fb69c39a2466d64ff0a93b455ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:29 +0000
Subject: [PATCH 13/30] fix: compare schema nodes independently of JSON
 serialization

---
 dsch/schema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index f890245..3f361dc 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -49,10 +49,10 @@ class SchemaNode:
     def __eq__(self, other):
         """Implement the == operator for schema nodes."""
         try:
-            other_dict = other.to_dict()
+            other_json = other.to_json()
         except AttributeError:
             return False
-        return self.to_dict() == other_dict
+        return self.to_json() == other_json
 
     @classmethod
     def from_dict(cls, node_dict):
-- 
2.43.0


From 57d38683448d10df62bb86a2fb2f165d312fdeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:41 +0000
Subject: [PATCH 14/30] fix: allow serialization of schema nodes with
 numpy.dtype objects

---
 dsch/schema.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsch/schema.py b/dsch/schema.py
index 3f361dc..47995af 100644
--- a/dsch/schema.py
+++ b/dsch/schema.py
@@ -211,7 +211,7 @@ class Array(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_shape': self.max_shape,
             'min_shape': self.min_shape,
@@ -728,7 +728,7 @@ class Scalar(SchemaNode):
             dict: dict-representation of the node.
         """
         config = {
-            'dtype': self.dtype,
+            'dtype': _dtype_name(self.dtype),
             'unit': self.unit,
             'max_value': self.max_value,
             'min_value': self.min_value,
@@ -882,6 +882,11 @@ class Time(SchemaNode):
                                   type(test_data))
 
 
+def _dtype_name(dtype):
+    """Return a serializable representation of the given NumPy dtype."""
+    return dtype if isinstance(dtype, str) else np.dtype(dtype).str
+
+
 def node_from_dict(node_dict):
     """Create a new node from its ``node_dict``.
 
-- 
2.43.0


From 9a13d7e66f0efe6034684332c9d138ad768a87c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 15/30] fix: do not keep storages with an invalid schema in
 PseudoStorage

---
 dsch/frontend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/frontend.py b/dsch/frontend.py
index 0ea1029..239de3d 100644
--- a/dsch/frontend.py
+++ b/dsch/frontend.py
@@ -255,8 +255,9 @@ class PseudoStorage:
             raise RuntimeError('PseudoStorage is already open.')
         if isinstance(self._data_storage, str):
             if os.path.exists(self._data_storage):
-                self.storage = load(self._data_storage)
-                self._verify_schema(self.storage.schema_node)
+                storage = load(self._data_storage)
+                self._verify_schema(storage.schema_node)
+                self.storage = storage
             else:
                 self.storage = create(self._data_storage,
                                       schema_node=self._schema_node)
-- 
2.43.0


From 54c24bfc327cda2edac54d449b7b2fa9addb07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 16/30] fix: raise AttributeError for unknown Compilation
 sub-nodes

---
 dsch/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 2e6660a..136f1da 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -452,6 +452,8 @@ class Compilation:
 
         This returns the entire sub-node object, not just the node value.
         """
+        if attr_name == '_subnodes' or attr_name not in self._subnodes:
+            raise AttributeError(attr_name)
         return self._subnodes[attr_name]
 
     def _init_from_storage(self, data_storage):
-- 
2.43.0


From 7e173272d143c8fa163d9439fd742b1674dda8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 17/30] fix: return zero-dimensional HDF5 array values as
 arrays

---
 dsch/backends/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index c48efb8..482ddd9 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -110,7 +110,8 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        return self._storage[()]
+        # Reading a zero-dimensional dataset gives a scalar, not an array.
+        return np.asarray(self._storage[()])
 
 
 class Bytes(_ItemNode):
-- 
2.43.0


From a812143f0a0fc26661916511340194377d74030c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 18/30] fix: allow resizing arrays that were loaded or are
 referenced elsewhere

---
 dsch/backends/hdf5.py | 8 ++++++++
 dsch/data.py          | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 482ddd9..da35049 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -104,6 +104,14 @@ class Array(data.Array, _ItemNode):
             maxshape=maxshape,
         )
 
+    def resize(self, size):
+        """Resize the array to the desired size.
+
+        Args:
+            size (tuple): Desired array size.
+        """
+        self._storage.resize(size)
+
     def _value(self):
         """Return the actual node data, independent of the backend in use.
 
diff --git a/dsch/data.py b/dsch/data.py
index 136f1da..07fcf28 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -295,7 +295,11 @@ class Array(ItemNode):
         Args:
             size (tuple): Desired array size.
         """
-        self._storage.resize(size)
+        # Arrays can only be resized in place when they own their data and are
+        # not referenced elsewhere. Neither is guaranteed, e.g. after loading.
+        resized = self._storage.copy()
+        resized.resize(size, refcheck=False)
+        self._storage = resized
 
     def __setitem__(self, key, value):
         """Pass slicing/indexing operations directly to NumPy array."""
-- 
2.43.0


From 6f048a569d6283eff4c5fd348ee7e47fd88e10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:39 +0000
Subject: [PATCH 19/30] fix: keep HDF5 arrays exceeding the maximum shape for
 validation

---
 dsch/backends/hdf5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index da35049..bac7cf7 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -87,15 +87,21 @@ class Array(data.Array, _ItemNode):
         """
         self.clear()
 
+        shape = np.shape(new_value)
         if self.schema_node.max_shape:
             if self.schema_node.max_shape == self.schema_node.min_shape:
                 # For equal shape constraints, disable resizing entirely.
                 maxshape = None
             else:
-                maxshape = self.schema_node.max_shape
+                # Arrays exceeding the maximum shape are subject to validation.
+                maxshape = tuple(
+                    max(limit, size) if limit is not None else None
+                    for limit, size in zip(self.schema_node.max_shape, shape))
         else:
             # Make all dimensions arbitrarily resizable by default.
             maxshape = (None,) * self.schema_node.ndim
+        if maxshape is not None and len(maxshape) != len(shape):
+            maxshape = None
 
         self._storage = self._parent.create_dataset(
             self._dataset_name,
-- 
2.43.0


From d5f6f9995dc5f2397a802770429169ec17e33b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:46 +0000
Subject: [PATCH 20/30] fix: copy and validate fields named like data node
 attributes

---
 dsch/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index 07fcf28..9bc87ed 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -320,7 +320,7 @@ class Array(ItemNode):
         node_names = self.schema_node.depends_on or []
         for node_name in node_names:
             if node_name:
-                independent_values.append(getattr(self.parent, node_name)
+                independent_values.append(self.parent._subnodes[node_name]
                                           .value)
             else:
                 independent_values.append(None)
@@ -504,7 +504,7 @@ class Compilation:
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
         for key, subnode in self._subnodes.items():
-            subnode.load_from(getattr(source_node, key))
+            subnode.load_from(source_node._subnodes[key])
 
     def node_tree(self):
         """Return a recursive representation of the (sub)node-tree.
-- 
2.43.0


From c557817e7b25aec59b3a9f5fe8f44db2f80dd065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:36 +0000
Subject: [PATCH 21/30] fix: allow field names of more than 31 characters in
 mat files

---
 dsch/backends/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index a52ab98..46679ed 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -207,7 +207,8 @@ class Storage(npz.Storage):
         output_data = self.data.save()
         if output_data is not None:
             store_data['data'] = output_data
-        sio.savemat(self.storage_path, store_data, appendmat=False)
+        sio.savemat(self.storage_path, store_data, appendmat=False,
+                    long_field_names=True)
 
 
 class String(npz.String):
-- 
2.43.0


From fbd1989074dccb47bee14704982555042e4d85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 22/30] fix: report an empty independent variable as a
 validation error

---
 dsch/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsch/data.py b/dsch/data.py
index 9bc87ed..13ee780 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -320,8 +320,11 @@ class Array(ItemNode):
         node_names = self.schema_node.depends_on or []
         for node_name in node_names:
             if node_name:
-                independent_values.append(self.parent._subnodes[node_name]
-                                          .value)
+                variable = self.parent._subnodes[node_name]
+                if variable.empty:
+                    raise exceptions.ValidationError(
+                        'Independent variable is empty.', node_name, None)
+                independent_values.append(variable.value)
             else:
                 independent_values.append(None)
         self.schema_node.validate(self.value, independent_values)
-- 
2.43.0


From 024aff57710badc51775f23e826cf156474d08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 23/30] fix: keep the items when a list is loaded from itself

---
 dsch/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 13ee780..b2a9442 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -809,6 +809,8 @@ class List:
         if source_node.schema_node.hash() != self.schema_node.hash():
             raise exceptions.IncompatibleNodesError(
                 source_node.schema_node.hash(), self.schema_node.hash())
+        if source_node is self:
+            return
         self.clear()
         for idx, subnode in enumerate(source_node):
             self.append()
-- 
2.43.0


From db84a745d5edb6457cfd0fdff11c4487f1e9b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 24/30] fix: read all new entries of a list before clearing it

---
 dsch/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsch/data.py b/dsch/data.py
index b2a9442..e0209e6 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -845,8 +845,10 @@ class List:
         Args:
             new_value (list): New entries to put into the List.
         """
+        # The new entries may be generated from the current ones.
+        new_items = list(new_value)
         self.clear()
-        for item in new_value:
+        for item in new_items:
             self.append(item)
 
     def __repr__(self):
-- 
2.43.0


From 92020a769d59db01a960a92d1bd976121bf81f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:25 +0000
Subject: [PATCH 25/30] fix: keep the value of an HDF5 node when the new one is
 refused

---
 dsch/backends/hdf5.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index bac7cf7..467d267 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -27,6 +27,20 @@ class _ItemNode(data.ItemNode):
             # If the dataset has not been created yet, that's also okay.
             pass
 
+    def _create_dataset(self, **dataset_params):
+        """Create the dataset of this data node, replacing an existing one.
+
+        The new dataset only gets its name after it was created successfully.
+        If the value is refused, the file and the current value do not change.
+
+        Args:
+            dataset_params: Parameters of the new HDF5 dataset.
+        """
+        dataset = self._parent.create_dataset(None, **dataset_params)
+        self.clear()
+        self._parent[self._dataset_name] = dataset
+        self._storage = self._parent[self._dataset_name]
+
     def _init_from_storage(self, data_storage):
         """Create a new data node from a data storage object.
 
@@ -67,9 +81,7 @@ class _ItemNode(data.ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-        self._storage = self._parent.create_dataset(self._dataset_name,
-                                                    data=new_value)
+        self._create_dataset(data=new_value)
 
 
 class Array(data.Array, _ItemNode):
@@ -85,8 +97,6 @@ class Array(data.Array, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-
         shape = np.shape(new_value)
         if self.schema_node.max_shape:
             if self.schema_node.max_shape == self.schema_node.min_shape:
@@ -103,8 +113,7 @@ class Array(data.Array, _ItemNode):
         if maxshape is not None and len(maxshape) != len(shape):
             maxshape = None
 
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._create_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
             maxshape=maxshape,
@@ -171,8 +180,7 @@ class Bool(_ItemNode):
         if self._storage:
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._create_dataset(data=new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
@@ -361,9 +369,7 @@ class Scalar(data.Scalar, _ItemNode):
             new_value: New value to apply to the node, independent of the
                 backend in use.
         """
-        self.clear()
-        self._storage = self._parent.create_dataset(
-            self._dataset_name,
+        self._create_dataset(
             data=new_value,
             dtype=self.schema_node.dtype,
         )
@@ -447,8 +453,7 @@ class String(_ItemNode):
         if self._storage:
             self._storage[()] = new_value
         else:
-            self._storage = self._parent.create_dataset(self._dataset_name,
-                                                        data=new_value)
+            self._create_dataset(data=new_value)
 
     def _value(self):
         """Return the actual node data, independent of the backend in use.
-- 
2.43.0


From 51d22ab257b9219b30ae8ba8e9ff2bcfe05a7da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 26/30] fix: leave a list unchanged when the appended value is
 refused

---
 dsch/backends/hdf5.py | 10 ++++++++--
 dsch/data.py          |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 467d267..96950d0 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -313,10 +313,16 @@ class List(data.List):
         subnode = data.data_node_from_schema(self.schema_node.subnode,
                                              self.__module__, self,
                                              new_params=new_params)
+        if value is not None:
+            try:
+                subnode.replace(value)
+            except Exception:
+                # Remove what was created for the item before the failure.
+                if new_params['name'] in self._storage:
+                    del self._storage[new_params['name']]
+                raise
         self._subnodes.append(subnode)
         self._storage.attrs['length'] = len(self)
-        if value is not None:
-            subnode.replace(value)
 
     def clear(self):
         """Clear all subnodes."""
diff --git a/dsch/data.py b/dsch/data.py
index e0209e6..91024c1 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -686,9 +686,9 @@ class List:
         """
         subnode = data_node_from_schema(self.schema_node.subnode,
                                         self.__module__, self)
-        self._subnodes.append(subnode)
         if value is not None:
             subnode.replace(value)
+        self._subnodes.append(subnode)
 
     def clear(self):
         """Clear all sub-nodes.
-- 
2.43.0


From 9cf8f74999072d2747f4295109893a566e4af84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 27/30] fix: Keep the byte order of arrays in mat files

MATLAB files are read in native byte order, so arrays with a schema that
prescribes another one could not be loaded again.
---
 dsch/backends/mat.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/mat.py b/dsch/backends/mat.py
index 46679ed..7fafc5b 100644
--- a/dsch/backends/mat.py
+++ b/dsch/backends/mat.py
@@ -29,8 +29,10 @@ class Array(npz.Array):
         elif self.schema_node.ndim == 0 and data_storage.size == 1:
             data_storage = data_storage.reshape(())
         dtype = np.dtype(self.schema_node.dtype)
-        if _CONVERTED_DTYPES.get(dtype.name) == data_storage.dtype.name:
-            data_storage = data_storage.astype(dtype)
+        if data_storage.dtype.name in (dtype.name,
+                                       _CONVERTED_DTYPES.get(dtype.name)):
+            # The names are independent of the byte order, which is not kept.
+            data_storage = data_storage.astype(dtype, copy=False)
         super()._init_from_storage(data_storage)
 
 
-- 
2.43.0


From fba3938c2dae17f71475531ef152abce748ae347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:16 +0000
Subject: [PATCH 28/30] fix: Keep the byte order of zero-dimensional arrays in
 HDF5 files

---
 dsch/backends/hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index 96950d0..aa0d1a2 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -133,8 +133,9 @@ class Array(data.Array, _ItemNode):
         Returns:
             Node data.
         """
-        # Reading a zero-dimensional dataset gives a scalar, not an array.
-        return np.asarray(self._storage[()])
+        # Reading a zero-dimensional dataset gives a scalar, not an array, which
+        # is always in native byte order.
+        return np.asarray(self._storage[()], dtype=self._storage.dtype)
 
 
 class Bytes(_ItemNode):
-- 
2.43.0


From 7c339cf7f8a945a7f70985805f60c7311638bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 29/30] fix: Keep the elements at their position when resizing
 arrays

---
 dsch/data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsch/data.py b/dsch/data.py
index 91024c1..97b60c0 100644
--- a/dsch/data.py
+++ b/dsch/data.py
@@ -16,6 +16,7 @@ import datetime
 import importlib
 
 import asciitree
+import numpy as np
 
 from . import exceptions
 
@@ -299,6 +300,12 @@ class Array(ItemNode):
         # not referenced elsewhere. Neither is guaranteed, e.g. after loading.
         resized = self._storage.copy()
         resized.resize(size, refcheck=False)
+        if resized.ndim == self._storage.ndim:
+            # Keep the elements at their position in every dimension.
+            kept = tuple(slice(min(lengths)) for lengths
+                         in zip(self._storage.shape, resized.shape))
+            resized = np.zeros_like(resized)
+            resized[kept] = self._storage[kept]
         self._storage = resized
 
     def __setitem__(self, key, value):
-- 
2.43.0


From f88a024e2c9bd725e134d7377ea5cbe03d361c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:40 +0000
Subject: [PATCH 30/30] fix: Allow resizing the open dimensions of HDF5 arrays
 with equal shape limits

---
 dsch/backends/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsch/backends/hdf5.py b/dsch/backends/hdf5.py
index aa0d1a2..eb292e5 100644
--- a/dsch/backends/hdf5.py
+++ b/dsch/backends/hdf5.py
@@ -99,7 +99,8 @@ class Array(data.Array, _ItemNode):
         """
         shape = np.shape(new_value)
         if self.schema_node.max_shape:
-            if self.schema_node.max_shape == self.schema_node.min_shape:
+            if (self.schema_node.max_shape == self.schema_node.min_shape
+                    and None not in self.schema_node.max_shape):
                 # For equal shape constraints, disable resizing entirely.
                 maxshape = None
             else:
-- 
2.43.0

