From 735e9c7556186a26a32c2b14da4ce4c3ba545472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 1/8] fix: base58 encode_into must not touch the buffer beyond
 the encoded text

The alphabet was applied to the whole output buffer, so a caller-supplied
buffer larger than the text was clobbered, or the call panicked when it held
bytes above 57.
---
 src/base58/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base58/encode.rs b/src/base58/encode.rs
index b1ffedd..220cad7 100644
--- a/src/base58/encode.rs
+++ b/src/base58/encode.rs
@@ -49,7 +49,7 @@ impl<'a> Encoder<'a> {
             *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0;
             index += 1;
         }
-        for value in &mut output[..] {
+        for value in &mut output[..index] {
             *value = self.alphabet.encode(*value as usize);
         }
         output[0..index].reverse();
-- 
2.43.0


From 7857dcbec5271eed1e23dcb59a9bb34fe8b86b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 2/8] fix: accept block files whose zero padding is shorter
 than 88 bytes

scan_block_file asserted that every read yields 88 bytes before looking at the
magic, so a file whose preallocated zero tail is shorter than one record header
made the import panic although there is no further block in it.
---
 src/block_file_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..6b1d989 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -107,20 +107,20 @@ impl BlockFileReader {
         logger.log(format!("scanning {}...", file_name));
         let file_path = Path::new(&self.path).join(file_name).to_str().unwrap().to_string();
         let mut file = File::open(&file_path).unwrap();
-        let mut buffer = [0u8; 88];
         let mut offset = 0;
         let mut blocks = Vec::new();
         loop {
+            let mut buffer = [0u8; 88];
             let bytes = file.read(&mut buffer).unwrap();
             if bytes == 0 {
                 break;
             }
-            assert!(bytes == 88);
             let mut reader = HashingBufferReader::new(&buffer);
             let magic = reader.read_u32_le(&mut None);
             if magic == 0 {
                 break;
             }
+            assert!(bytes == 88);
             assert!(magic == 3652501241);
             offset += 8;
             let length: usize = reader.read_u32_le(&mut None).try_into().unwrap();
-- 
2.43.0


From e80dd98d28f5bcd43680e50e66551ba17b7323a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 3/8] fix: apply an overlay update when there are no overlays
 yet

With CONFIRMATIONS=1 and the node's tip equal to the stored one, the first
update finds no new block and replaced the last of zero overlays, which
underflowed the index and panicked.
---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..890c7d4 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -64,8 +64,8 @@ impl State {
         let mut augmentations = self.augmentations.write().await;
         match update {
             Update::LastAugmentationUpdate(augmentation) => {
-                let index = augmentations.len() - 1;
-                augmentations[index] = augmentation;
+                augmentations.pop();
+                augmentations.push(augmentation);
                 false
             }
             Update::AugmentationsUpdate(updated_augmentations, blocks) => {
-- 
2.43.0


From 5d6cd3c5c50fe788556a0a68cae940209b9a2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 4/8] fix: refuse malformed query parameters instead of
 dropping them

A query such as confirmations=1=2, or confirmations without a value, was
dropped by the router, so that the request was answered as if it had no
confirmations parameter. Everything after the first = is now the value and a
missing value is empty, which the handlers refuse.
---
 src/server.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..8324342 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -132,10 +132,10 @@ impl<S> Router<S> {
             if let Some(mut parameters) = route.check(&request) {
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
-                        let parts: Vec<&str> = part.split('=').collect();
-                        if parts.len() == 2 {
-                            parameters.insert(parts[0].to_string(), parts[1].to_string());
-                        }
+                        let mut parts = part.splitn(2, '=');
+                        let name = parts.next().unwrap_or("");
+                        let value = parts.next().unwrap_or("");
+                        parameters.insert(name.to_string(), value.to_string());
                     }
                 }
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
-- 
2.43.0


From f1db3a43d650fa1f3d90f825b6fd3384eea88c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 5/8] fix: do not let a query parameter replace the address in
 the path

/addresses/A/balance?address=B answered for B.
---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 8324342..6d51fc8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let mut parts = part.splitn(2, '=');
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         parameters.insert(name.to_string(), value.to_string());
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 37339da4772f4725f9078f51818a5e020441db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 6/8] fix: write the index to a temporary file and rename it

---
 src/store/store.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..fb2d23d 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -140,7 +140,9 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        let temporary_path = format!("{}.tmp", path);
+        std::fs::write(&temporary_path, writer.buffer()).unwrap();
+        std::fs::rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From 97f081077f8e5661ad0331966be1415b33813f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:40 +0000
Subject: [PATCH 7/8] fix: do not stop when a write of the index holds the lock
 as an update begins

---
 src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 890c7d4..89c6d37 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -53,7 +53,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
-- 
2.43.0


From c989bc26f86b5289e300d03a9a6e678eec364722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 8/8] fix: a panic on a worker thread of ThreadPool stops
 whoever reads its results

---
 src/thread_pool.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/thread_pool.rs b/src/thread_pool.rs
index bd02761..c3110f7 100644
--- a/src/thread_pool.rs
+++ b/src/thread_pool.rs
@@ -3,11 +3,12 @@ use std::{
         mpsc::{channel, Receiver},
         Arc, Mutex,
     },
-    thread::spawn,
+    thread::{spawn, JoinHandle},
 };
 
 pub struct ThreadPool<Output> {
     output_receiver: Receiver<Output>,
+    handles: Vec<JoinHandle<()>>,
 }
 
 impl<Output> ThreadPool<Output>
@@ -24,11 +25,12 @@ where
         let (output_sender, output_receiver) = channel();
 
         let process_fn = Arc::new(process_fn);
+        let mut handles = Vec::with_capacity(threads);
         for _ in 0..threads {
             let input_receiver = input_receiver.clone();
             let output_sender = output_sender.clone();
             let process_fn = process_fn.clone();
-            spawn(move || loop {
+            handles.push(spawn(move || loop {
                 let input = input_receiver.lock().unwrap().recv();
                 match input {
                     Ok(input) => {
@@ -39,12 +41,12 @@ where
                         break;
                     }
                 }
-            });
+            }));
         }
         for input in inputs {
             input_sender.send(input).unwrap()
         }
-        Self { output_receiver }
+        Self { output_receiver, handles }
     }
 }
 
@@ -52,6 +54,13 @@ impl<Output> Iterator for ThreadPool<Output> {
     type Item = Output;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.output_receiver.recv().ok()
+        let output = self.output_receiver.recv().ok();
+        if output.is_none() {
+            // a thread that panicked has not delivered its output
+            for handle in self.handles.drain(..) {
+                handle.join().unwrap();
+            }
+        }
+        output
     }
 }
-- 
2.43.0

