From 5a6d88a38bd02f9b7fd26dd8533e6fe0354f13c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:27 +0000
Subject: [PATCH 01/21] fix: read the last byte of fields spanning nine bytes
 from the right position

read_bytes! already moved the data pointer to the byte containing the first
bit, but added the byte offset again when it fetched the ninth byte. Fields
of up to 64 bits which are not byte-aligned and do not start in the first
byte were read wrongly, possibly from outside of the struct.
---
 src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
-- 
2.43.0


From 85d40c495ae2a2f37d07ec4b618e9097b6b3f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 02/21] fix: write the last byte of fields spanning nine bytes
 to the right position

write_bytes! addressed the ninth byte relative to the beginning of the slice
and not relative to the byte containing the first bit of the field. Setting
such a field lost its high bits and overwrote another field.
---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..7184fd7 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,7 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination = &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From fc46370acdf05334e7b00493a699e1bc27ce25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 03/21] fix: do not let oversized unsigned values spill into
 neighbouring fields

write_bytes! masked the value to the width of the field for signed types
only, so that the surplus bits of a too large unsigned value were written
into the fields behind it.
---
 src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 7184fd7..0522431 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -29,9 +29,7 @@ macro_rules! write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From 4064b627f89de5d9ca84c83ce359622f2ba9dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 04/21] fix: do not overflow when checking the size header of a
 resource

A damaged header with a value close to the maximum overflowed the sum, which
panics with overflow checks and may accept the resource without them. The
length of the data was already checked, so subtract from it instead.
---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..b9ad6f9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From bfce7c2c914959faeccaa1ccbe3e3974c67b5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 05/21] fix: never accept an unfinished resource as a finished
 one

The size header of an open resource was initialized with 0. An unfinished
resource with exactly 8 bytes of data written so far (or with only its
padding written on close) was accepted as a valid empty resource. Use a
placeholder that does not fit to any data.
---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b9ad6f9..622d20b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,11 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then, the size does not match any data, such that an unfinished
+        // resource cannot be mistaken for a finished one.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(u64::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From cc719646e2fa8a115dbc8f090b56bd72d59b5b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 06/21] fix: keep the content of subdirectories of a memory
 storage

MemoryResourceStorage::subdir created a new, empty storage on each call, so
that everything written to a subarchive in memory was lost and an archive
with subarchives could not be read back. Share the data with the subdirectory.
---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..571e582 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,8 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    // Shared with the storages of all subdirectories.
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +46,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::new(MemoryStorage::default()),
             path: path.into(),
         })
     }
@@ -55,7 +56,10 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From c6e654345e9f4691b095a3fab4cdc64b74d9b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 07/21] fix: read what was last written to a memory storage

A resource that was opened once was cached forever, also when it was read
while it was still being written or was rewritten afterwards. Opening an
unfinished archive made it unreadable for good. Besides, creating a resource
anew overwrote the data in place and kept its tail instead of replacing it as
a file storage does.
---
 src/memstorage.rs | 50 ++++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 571e582..0a1ddaf 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -17,6 +17,9 @@ struct MemoryStorage {
     streams: RefCell<BTreeMap<PathBuf, MemoryStorageStream>>,
     // Data of resources that were opened for reading.
     resources: RefCell<BTreeMap<PathBuf, Rc<Vec<u8>>>>,
+    // Outdated data of resources that were opened for reading and changed
+    // afterwards. It might still be in use.
+    outdated_resources: RefCell<Vec<Rc<Vec<u8>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -70,25 +73,34 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.storage.resources.borrow().contains_key(&resource_path) {
-            let streams = self.storage.streams.borrow();
-            let stream = streams.get(&resource_path);
-            match stream {
-                Some(stream) => {
-                    // Resource is not yet opened, but there is a stream it was written to
-                    // => copy the stream as resource data.
-                    let data = Rc::new(stream.borrow().get_ref().clone());
-                    self.storage
+        let streams = self.storage.streams.borrow();
+        match streams.get(&resource_path) {
+            Some(stream) => {
+                let stream = stream.borrow();
+                let is_up_to_date = match self.storage.resources.borrow().get(&resource_path) {
+                    Some(data) => **data == *stream.get_ref(),
+                    None => false,
+                };
+                if !is_up_to_date {
+                    // Resource is not yet opened or has changed since, but there is a stream
+                    // it was written to => copy the stream as resource data.
+                    let data = Rc::new(stream.get_ref().clone());
+                    let outdated = self
+                        .storage
                         .resources
                         .borrow_mut()
                         .insert(resource_path.clone(), data);
+                    self.storage
+                        .outdated_resources
+                        .borrow_mut()
+                        .extend(outdated);
                 }
-                None => {
-                    return Err(io::Error::new(
-                        io::ErrorKind::NotFound,
-                        String::from(resource_path.to_str().unwrap_or(resource_name)),
-                    ));
-                }
+            }
+            None => {
+                return Err(io::Error::new(
+                    io::ErrorKind::NotFound,
+                    String::from(resource_path.to_str().unwrap_or(resource_name)),
+                ));
             }
         }
         let data = &self.storage.resources.borrow()[&resource_path];
@@ -100,13 +112,11 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        let stream = Rc::new(RefCell::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From 6cadce5f70979de0b5f50d6dc3b33b8edf62d975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 08/21] fix: read what was last written to a file storage

A file was mapped once and the map was used forever, also when the file was
read while it was still being written or was rewritten with another size
afterwards. Opening an unfinished archive made it unreadable through the same
storage. Besides, an empty resource could not be read at all, since an empty
file cannot be mapped.
---
 src/filestorage.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..b8d72e8 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -14,14 +14,27 @@ use std::slice;
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: RefCell<BTreeMap<String, Mmap>>,
+    // Maps of files which changed their size after they were mapped. They might
+    // still be in use.
+    outdated_maps: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.borrow().contains_key(path) {
+        let size = fs::metadata(path)?.len();
+        if size == 0 {
+            // an empty file cannot be mapped
+            return Ok(&[]);
+        }
+        let is_up_to_date = match self.maps.borrow().get(path) {
+            Some(file_mmap) => file_mmap.len() as u64 == size,
+            None => false,
+        };
+        if !is_up_to_date {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.borrow_mut().insert(path.into(), file_mmap);
+            let outdated = self.maps.borrow_mut().insert(path.into(), file_mmap);
+            self.outdated_maps.borrow_mut().extend(outdated);
         }
         let data = &self.maps.borrow()[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
-- 
2.43.0


From d76cedfd6adaafb2d0bec396abfbb15619e63207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 09/21] fix: support slash-separated keys in a file storage

Keys of resources are documented to be hierarchical, but creating a resource
with a slash-separated key failed, unless the directory was already there.
Besides, the directory itself was reported as an existing resource, which then
failed to be read with an unexpected error.
---
 src/filestorage.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index b8d72e8..36f035a 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -70,12 +70,12 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        self.path.join(resource_name).is_file()
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !resource_path.exists() {
+        if !resource_path.is_file() {
             return Err(io::Error::new(
                 io::ErrorKind::NotFound,
                 String::from(resource_path.to_str().unwrap_or(resource_name)),
@@ -92,10 +92,12 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        if let Some(dir) = resource_path.parent() {
+            if !dir.exists() {
+                fs::create_dir_all(dir)?;
+            }
+        }
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From 3b63ce08dd104404f3043dbc8bb45049491858b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 10/21] fix: do not panic after an error while writing a
 resource

If writing or closing a streamed resource failed, its handle stayed open, and
dropping the vector, which is all that close() leaves to do, panicked. The
caller never got to see the error. The same happened to the index, if the data
of a multivector could not be created. Close the stream on errors and leave
the resource unfinished.
---
 src/multivector.rs | 30 +++++++++++++++++++++++++-----
 src/storage.rs     | 45 ++++++++++++++++++++++++++++++++-------------
 src/vector.rs      |  5 +++++
 3 files changed, 62 insertions(+), 18 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..44f1ff1 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -163,10 +163,14 @@ where
     ///
     /// [`flush`]: #method.flush
     pub fn grow(&mut self) -> io::Result<<Ts as VariadicStruct>::ItemMut> {
+        let mut res = Ok(());
         if self.data.len() > 1024 * 1024 * 32 {
-            self.flush()?;
+            res = self.flush();
+        }
+        if let Err(e) = res.and_then(|_| self.add_to_index()) {
+            self.abandon();
+            return Err(e);
         }
-        self.add_to_index()?;
         Ok(<Ts as VariadicStruct>::create_mut(&mut self.data))
     }
 
@@ -192,6 +196,12 @@ where
         Ok(())
     }
 
+    /// Closes the multivector and leaves its resources unfinished.
+    fn abandon(&mut self) {
+        self.index.abandon();
+        self.data_handle.abandon();
+    }
+
     /// Flushes the remaining not yet flushed elements in this multivector and
     /// finalizes the data inside the storage.
     ///
@@ -199,9 +209,19 @@ where
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
         let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // sentinel for last item
+        let res = self.add_to_index().and_then(|_| self.flush());
+        if let Err(e) = res {
+            self.abandon();
+            return Err(into_storage_error(e));
+        }
+        let index_view = match self.index.close() {
+            Ok(index_view) => index_view,
+            Err(e) => {
+                self.data_handle.abandon();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 622d20b..e8101e7 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -172,18 +172,25 @@ where
     // create index
     let index_name = format!("{}_index", resource_name);
     let index_schema = format!("index({})", schema);
-    let index = create_external_vector(storage, &index_name, &index_schema)?;
+    let mut index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
-    Ok(MultiVector::new(index, handle))
+    let create_data = || {
+        // write schema
+        let schema_name = format!("{}.schema", resource_name);
+        let stream = storage.create_output_stream(&schema_name)?;
+        stream.borrow_mut().write_all(schema.as_bytes())?;
+
+        // create multi vector
+        let data_writer = storage.create_output_stream(resource_name)?;
+        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
+    };
+    match create_data() {
+        Ok(handle) => Ok(MultiVector::new(index, handle)),
+        Err(e) => {
+            index.abandon();
+            Err(e)
+        }
+    }
 }
 
 /// Creates a new archive in resource storage.
@@ -304,6 +311,9 @@ impl<'a> ResourceHandle<'a> {
     }
 
     /// Writes data to the underlying stream.
+    ///
+    /// If writing fails, the resource stays unfinished and the underlying stream is
+    /// closed, since its content is unknown from there on.
     pub fn write(&mut self, data: &[u8]) -> io::Result<()> {
         let stream = self
             .stream
@@ -313,18 +323,28 @@ impl<'a> ResourceHandle<'a> {
         let res = stream.borrow_mut().write_all(data);
         if res.is_ok() {
             self.size_in_bytes += data.len();
+        } else {
+            self.abandon();
         }
         res
     }
 
+    /// Closes the underlying stream and leaves the resource unfinished.
+    pub(crate) fn abandon(&mut self) {
+        self.stream = None;
+    }
+
     /// Close the underlying stream and write the header containing the size in
     /// bytes of written data.
+    ///
+    /// The underlying stream is closed in any case. If an error occurs, the resource
+    /// stays unfinished.
     pub fn close(&mut self) -> Result<&'a [u8], ResourceStorageError> {
         {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -341,7 +361,6 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
diff --git a/src/vector.rs b/src/vector.rs
index 3300250..1a31723 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -323,6 +323,11 @@ where
         Ok(())
     }
 
+    /// Closes the vector and leaves its resource unfinished.
+    pub(crate) fn abandon(&mut self) {
+        self.resource_handle.abandon();
+    }
+
     /// Returns `true` if this vector was not closed yet and more elements can
     /// be added to it.
     pub fn is_open(&self) -> bool {
-- 
2.43.0


From 0cdc3d7334ad28bc49af282a77c7150bec30e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 11/21] fix: check the index of an element of a vector

Vector::at and at_mut sliced the bytes including the padding from the
beginning of the element and accepted the position behind the last element
(and, for small structs or wrapping offsets, further ones). The handles
returned read and write behind the end of the buffer, in safe code.
---
 src/vector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index 1a31723..1b58a40 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -141,15 +141,25 @@ where
 
     /// Return an accessor handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len(), "index out of bounds");
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
     /// Return a mutable handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len(), "index out of bounds");
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From 8b5cfbc3be86a5218cc6b6ec75b69796c75d75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 12/21] fix: panic when the size of a vector overflows

Without overflow checks, the size in bytes of an absurdly large vector wrapped
around, and with_len returned a vector which is much shorter than asked for.
---
 src/vector.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index 1b58a40..17e346b 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -113,7 +113,9 @@ where
     /// if capacity is already sufficient.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
-        let additional_bytes = Self::calc_size(self.len() + additional) - self.size_in_bytes();
+        let len = self.len().checked_add(additional);
+        let additional_bytes =
+            Self::calc_size(len.expect("capacity overflow")) - self.size_in_bytes();
         self.data.reserve(additional_bytes)
     }
 
@@ -167,7 +169,9 @@ where
     /// elements.
     #[inline]
     fn calc_size(len: usize) -> usize {
-        len * <T as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE
+        len.checked_mul(<T as Struct>::SIZE_IN_BYTES)
+            .and_then(|size| size.checked_add(memory::PADDING_SIZE))
+            .expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From cea7f13f14a18643148c0229203ac4d09587c3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 13/21] fix: reject huge indices into an array view

Without overflow checks, the byte offset of a large index wrapped around, and
ArrayView::at and slice returned elements instead of panicking as documented.
---
 src/arrayview.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..603891c 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -89,8 +89,8 @@ where
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
+        assert!(index < self.len(), "index out of bounds");
         let index = self.data_index(index);
-        assert!(index + <T as Struct>::SIZE_IN_BYTES <= self.data.len());
         T::create(&self.data[index..])
     }
 
@@ -102,11 +102,11 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+            Bound::Excluded(&idx) => self.data_index(idx.saturating_add(1)),
             Bound::Unbounded => 0,
         };
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
+            Bound::Included(&idx) => self.data_index(idx.saturating_add(1)),
             Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
         };
@@ -124,7 +124,8 @@ where
     }
 
     fn data_index(&self, index: usize) -> usize {
-        index * <T as Struct>::SIZE_IN_BYTES
+        // the maximum is not inside of any data
+        index.saturating_mul(<T as Struct>::SIZE_IN_BYTES)
     }
 }
 
-- 
2.43.0


From 464ff5fd399f7b3dfd11039a239cb68706e6cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:51 +0000
Subject: [PATCH 14/21] fix: check ranges passed to slice of a multi array view

---
 src/multiarrayview.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..38ed87f 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -76,16 +76,20 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let index_start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => idx.saturating_add(1),
             Bound::Unbounded => 0,
         };
-        // include one more element (sentinel)
         let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
-            Bound::Unbounded => self.index.len(),
+            Bound::Included(&idx) => idx.saturating_add(1),
+            Bound::Excluded(&idx) => idx,
+            Bound::Unbounded => self.len(),
         };
-        Self::new(self.index.slice(index_start..index_end), self.data)
+        assert!(
+            index_start <= index_end && index_end <= self.len(),
+            "range out of bounds"
+        );
+        // include one more element (sentinel)
+        Self::new(self.index.slice(index_start..=index_end), self.data)
     }
 
     /// Returns an iterator through the indexed items of the array.
-- 
2.43.0


From f3edb7061ec6955299f7f5107066ea34016cbce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:53 +0000
Subject: [PATCH 15/21] fix: report the exact size of iterators over views

---
 src/arrayview.rs      | 5 +++++
 src/multiarrayview.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 603891c..d557ecf 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -227,6 +227,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 38ed87f..4e766fa 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -244,6 +244,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From ddfff095e517a97c5fc014a2f405d66781f95708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 16/21] fix: do not accept struct resources which are shorter
 than the struct

---
 src/archive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..1022c70 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -602,7 +602,14 @@ macro_rules! define_archive {
                             &*storage,
                             stringify!($struct_resource),
                             $struct_schema
-                        ), $is_optional_struct);
+                        ).and_then(|mem_desc: $crate::MemoryDescriptor| {
+                            let size = unsafe { mem_desc.as_bytes() }.len();
+                            if size < <$struct_type as $crate::Struct>::SIZE_IN_BYTES {
+                                Err($crate::ResourceStorageError::UnexpectedDataSize)
+                            } else {
+                                Ok(mem_desc)
+                            }
+                        }), $is_optional_struct);
                     )*
 
                     $($vector_resource = check_resource!(
-- 
2.43.0


From 07502d721d6b63c6729fd75088369ff751897b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 17/21] fix: do not create references to structs from too
 little data

---
 src/archive.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archive.rs b/src/archive.rs
index 1022c70..aead09c 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -224,6 +224,7 @@ macro_rules! define_struct {
             #[inline]
             fn create(data : &'a[u8]) -> Self::Item
             {
+                assert!(data.len() >= $size_in_bytes, "not enough data for a struct");
                 Self::Item{ data : data.as_ptr(), _phantom : $crate::marker::PhantomData }
             }
 
@@ -232,6 +233,7 @@ macro_rules! define_struct {
             #[inline]
             fn create_mut(data: &'a mut[u8]) -> Self::ItemMut
             {
+                assert!(data.len() >= $size_in_bytes, "not enough data for a struct");
                 Self::ItemMut{ data : data.as_mut_ptr(), _phantom : $crate::marker::PhantomData }
             }
         }
-- 
2.43.0


From 0a0084c5f01d2160df8fcf17908fd8a4117a8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:55 +0000
Subject: [PATCH 18/21] fix: read resources below paths that are not UTF-8

Writing to such a path worked, but reading refused it, such that an
archive that was created there could never be opened.
---
 src/filestorage.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 36f035a..1afd92a 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -6,21 +6,21 @@ use std::cell::RefCell;
 use std::collections::BTreeMap;
 use std::fs::{self, File};
 use std::io;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::slice;
 
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, Mmap>>,
+    maps: RefCell<BTreeMap<PathBuf, Mmap>>,
     // Maps of files which changed their size after they were mapped. They might
     // still be in use.
     outdated_maps: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
-    pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
+    pub fn read(&self, path: &Path) -> Result<&[u8], io::Error> {
         let size = fs::metadata(path)?.len();
         if size == 0 {
             // an empty file cannot be mapped
@@ -82,13 +82,7 @@ impl ResourceStorage for FileResourceStorage {
             ));
         }
 
-        match resource_path.to_str() {
-            Some(p) => self.storage.read(p),
-            None => Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                String::from(resource_path.to_str().unwrap_or(resource_name)),
-            )),
-        }
+        self.storage.read(&resource_path)
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-- 
2.43.0


From 5c151ccc7dfae20b323ceee4fccbf8bee381c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:07 +0000
Subject: [PATCH 19/21] fix: show carriage returns in the diff of schemas

---
 src/storage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index e8101e7..68f6b26 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -391,7 +391,10 @@ impl<'a> fmt::Debug for ResourceHandle<'a> {
 }
 
 fn compute_diff(left: &str, right: &str) -> String {
-    diff::lines(left, right)
+    // split only at line feeds: other line ends belong to the schema
+    let left: Vec<&str> = left.split('\n').collect();
+    let right: Vec<&str> = right.split('\n').collect();
+    diff::slice(&left, &right)
         .into_iter()
         .map(|l| match l {
             diff::Result::Left(l) => format!("-{}", l),
-- 
2.43.0


From cec55f73a0eb5543f3f812d8ce99098d287e5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:54 +0000
Subject: [PATCH 20/21] fix: print archives without a leading comma

---
 src/archive.rs | 12 ++++++------
 src/helper.rs  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/archive.rs b/src/archive.rs
index aead09c..50b8298 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -567,12 +567,12 @@ macro_rules! define_archive {
             fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
                 write!(f,
                     concat!(stringify!($name), " {{ ",
-                        intersperse!(""
-                            $(, concat!(stringify!($struct_resource), ": {:?}"))*
-                            $(, concat!(stringify!($vector_resource), ": {:?}"))*
-                            $(, concat!(stringify!($multivector_resource), ": {:?}"))*
-                            $(, concat!(stringify!($raw_data_resource), ": {:?}"))*
-                            $(, concat!(stringify!($subarchive_resource), ": {:?}"))*
+                        intersperse!(
+                            $(concat!(stringify!($struct_resource), ": {:?}"),)*
+                            $(concat!(stringify!($vector_resource), ": {:?}"),)*
+                            $(concat!(stringify!($multivector_resource), ": {:?}"),)*
+                            $(concat!(stringify!($raw_data_resource), ": {:?}"),)*
+                            $(concat!(stringify!($subarchive_resource), ": {:?}"),)*
                         ),
                     " }}"),
                     $(self.$struct_resource(), )*
diff --git a/src/helper.rs b/src/helper.rs
index c80b346..1f50416 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -60,8 +60,8 @@ impl Int for u64 {
 #[macro_export]
 macro_rules! intersperse {
     () => ("");
-    ($head:expr) => ($head);
-    ($head:expr, $($tail:expr),+) => (concat!($head, ", ", intersperse!($($tail),*)));
+    ($head:expr $(,)?) => ($head);
+    ($head:expr, $($tail:expr),+ $(,)?) => (concat!($head, ", ", intersperse!($($tail),*)));
 }
 
 #[doc(hidden)]
-- 
2.43.0


From 728bd7edb5cbed77e46762a8aa4aadb8a871b00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:16 +0000
Subject: [PATCH 21/21] fix: do not truncate the stored size of a resource when
 checking it

---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 68f6b26..c51b337 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -107,8 +107,9 @@ pub trait ResourceStorage {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-        let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
+        // compare as stored: the stored size might not fit into usize
+        let size = data.len() - mem::size_of::<SizeType>() - PADDING_SIZE;
+        if read_bytes!(SizeType, data.as_ptr()) != size as SizeType {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0

