From 08872b173e6159477275bb1e2d25962e2add8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 01/17] fix: Request::params of a custom request returns its
 params, not its method

---
 bsp-server/src/request.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index afe6733..cb45ab1 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -112,7 +112,7 @@ impl Request {
             BuildTargetCompile(_, ref params) => serde_json::to_value(params),
             BuildTargetTest(_, ref params) => serde_json::to_value(params),
             BuildTargetCleanCache(_, ref params) => serde_json::to_value(params),
-            Custom(_, ref params, _) => serde_json::to_value(params),
+            Custom(_, _, ref params) => serde_json::to_value(params),
         };
 
         Ok(value?)
-- 
2.43.0


From 6c43ed46a4c400a0f81b1e71958760fa5acdba3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 02/17] fix: accept requests that omit params

build/shutdown, workspace/buildTargets, workspace/reload and custom
requests with null params are written without a params member, but were
read back as an empty response.
---
 bsp-server/src/request.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index cb45ab1..8cfa08a 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -425,18 +425,8 @@ impl<'de> Deserialize<'de> for Request {
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
                 let id = de::<RequestId, _>(id.ok_or_else(|| DeError::missing_field("id"))?)?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/shutdown"
-                            || &method != "workspace/buildTargets"
-                            || &method != "workspace/reload"
-                        {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // JSON-RPC allows params to be omitted
+                let params = params.unwrap_or(Value::Null);
 
                 Ok(match method.as_str() {
                     "build/initialize" => Request::InitializeBuild(id, de(params)?),
-- 
2.43.0


From e3dba280a012cd71b81cb9addccd288c587f9562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 03/17] fix: accept custom notifications that omit params

---
 bsp-server/src/notification.rs | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ac4ee9c..ce0a3ab 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -232,15 +232,8 @@ impl<'de> Deserialize<'de> for Notification {
                 }
 
                 let method = method.ok_or_else(|| DeError::missing_field("method"))?;
-                let params = match params {
-                    Some(v) => v,
-                    None => {
-                        if &method != "build/exit" && &method != "build/initialized" {
-                            return Err(DeError::missing_field("params"));
-                        }
-                        serde_json::Value::Null
-                    }
-                };
+                // JSON-RPC allows params to be omitted
+                let params = params.unwrap_or(Value::Null);
 
                 fn de<'a, T: Deserialize<'a>, E: DeError>(p: serde_json::Value) -> Result<T, E> {
                     T::deserialize(p).map_err(DeError::custom)
-- 
2.43.0


From 611538c1597fff3bf38b968bfe8f2e0ee2e65d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 04/17] fix: skip the value of unknown members when decoding
 requests and notifications

---
 bsp-server/src/notification.rs | 6 ++++--
 bsp-server/src/request.rs      | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index ce0a3ab..f869a53 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -5,7 +5,7 @@ use bsp_types::{
     TaskStart,
 };
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -227,7 +227,9 @@ impl<'de> Deserialize<'de> for Notification {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        _ => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index 8cfa08a..ef2c3f5 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -7,7 +7,7 @@ use bsp_types::*;
 pub use id::*;
 
 use serde::{
-    de::{Error as DeError, MapAccess, Visitor},
+    de::{Error as DeError, IgnoredAny, MapAccess, Visitor},
     ser::SerializeStruct,
     Deserialize, Deserializer, Serialize,
 };
@@ -415,7 +415,9 @@ impl<'de> Deserialize<'de> for Request {
                             }
                             method = Some(map.next_value()?);
                         }
-                        _ => (),
+                        _ => {
+                            map.next_value::<IgnoredAny>()?;
+                        }
                     }
                 }
 
-- 
2.43.0


From 74d0b574f357a3de11794f1b0d28d3e5313fa430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 05/17] fix: task progress notifications use the documented
 method build/taskProgress

---
 bsp-server/src/notification.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index f869a53..04b8c6b 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -38,7 +38,7 @@ impl Notification {
             PublishDiagnostics(_) => "build/publishDiagnostics",
             TaskStart(_) => "build/taskStart",
             TaskFinish(_) => "build/taskFinish",
-            TaskProgress(_) => "build/taskProgressing",
+            TaskProgress(_) => "build/taskProgress",
             BuildTargetDidChange(_) => "buildTarget/didChange",
             Custom(m, _) => m,
         }
@@ -250,7 +250,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/publishDiagnostics" => PublishDiagnostics(de(params)?),
                     "build/taskStart" => TaskStart(de(params)?),
                     "build/taskFinish" => TaskFinish(de(params)?),
-                    "build/taskProgressing" => TaskProgress(de(params)?),
+                    "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
                     _ => Custom(Box::leak(method.into_boxed_str()), params),
                 })
-- 
2.43.0


From bbb83417fd847f928e232cd6dfdd3b6591243a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:15 +0000
Subject: [PATCH 06/17] fix: inverse sources requests use the documented method
 buildTarget/inverseSources

---
 bsp-server/src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index ef2c3f5..e92a9a4 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -63,7 +63,7 @@ impl Request {
             BuildTargetDependencyModules(_, _) => "buildTarget/dependencyModules",
             DebugSessionStart(_, _) => "debugSession/start",
             BuildTargetSources(_, _) => "buildTarget/sources",
-            TextDocumentInverseSources(_, _) => "textDocument/inverseSources",
+            TextDocumentInverseSources(_, _) => "buildTarget/inverseSources",
             BuildTargetDependencySources(_, _) => "buildTarget/dependencySources",
             BuildTargetResources(_, _) => "buildTarget/resources",
             BuildTargetRun(_, _) => "buildTarget/run",
@@ -440,7 +440,7 @@ impl<'de> Deserialize<'de> for Request {
                     }
                     "debugSession/start" => Request::DebugSessionStart(id, de(params)?),
                     "buildTarget/sources" => Request::BuildTargetSources(id, de(params)?),
-                    "textDocument/inverseSources" => {
+                    "buildTarget/inverseSources" => {
                         Request::TextDocumentInverseSources(id, de(params)?)
                     }
                     "buildTarget/dependencySources" => {
-- 
2.43.0


From 72d32921624d6fbc3ce01f9fb74794d910abbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 07/17] fix: drop notifications received before initialize,
 except exit

as documented on InitializeBuild; they used to fail the handshake.
---
 bsp-server/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 77eb46a..380a135 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -135,6 +135,10 @@ impl Connection {
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
                         .unwrap();
                 }
+                // Drop notifications sent before initialize, except for exit
+                Ok(Message::Notification(n)) if !matches!(n, Notification::Exit) => {
+                    tracing::warn!("expected initialize request, dropped {:?}", n);
+                }
                 Ok(msg) => {
                     let msg = format!("expected initialize request, got {:?}", msg);
                     tracing::error!("{}", msg);
-- 
2.43.0


From ad5d38e3c923ba59b876c6fd747419416b0788f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:30 +0000
Subject: [PATCH 08/17] fix: report a peer that disconnects during initialize
 instead of panicking

---
 bsp-server/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/lib.rs b/bsp-server/src/lib.rs
index 380a135..b92b70c 100644
--- a/bsp-server/src/lib.rs
+++ b/bsp-server/src/lib.rs
@@ -133,7 +133,7 @@ impl Connection {
                     tracing::error!("{}", msg);
                     self.sender
                         .send(Response::server_not_initialized(req.id().clone(), msg).into())
-                        .unwrap();
+                        .map_err(|e| ProtocolError(e.to_string()))?;
                 }
                 // Drop notifications sent before initialize, except for exit
                 Ok(Message::Notification(n)) if !matches!(n, Notification::Exit) => {
@@ -161,7 +161,9 @@ impl Connection {
         initialize_result: V,
     ) -> Result<(), ProtocolError> {
         let resp = Response::ok(initialize_id, initialize_result);
-        self.sender.send(resp.into()).unwrap();
+        self.sender
+            .send(resp.into())
+            .map_err(|e| ProtocolError(e.to_string()))?;
         match &self.receiver.recv() {
             Ok(Message::Notification(Notification::Initialized)) => (),
             Ok(msg) => {
-- 
2.43.0


From 8779ad4498385ee660f6086c6719f812501da248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 09/17] fix: don't allocate the declared Content-Length up
 front

A header announcing more memory than there is aborted the process.
---
 bsp-server/src/message.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 13bf3a8..6a7c9f5 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,7 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
-use std::io;
+use std::io::{self, Read};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -83,9 +83,12 @@ fn read_msg_text(inp: &mut dyn io::BufRead) -> io::Result<Option<String>> {
 
     let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
     let mut buf = buf.into_bytes();
+    buf.clear();
 
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    // Don't trust the declared size with an up-front allocation
+    if inp.take(size as u64).read_to_end(&mut buf)? != size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
 
     Ok(Some(String::from_utf8(buf).map_err(invalid_data)?))
 }
-- 
2.43.0


From c7e3cfda5d1d12e924c07e99a391e5aa4e794b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 10/17] fix: socket threads report transport errors through
 join instead of panicking

as the stdio threads do.
---
 bsp-server/src/transporter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 890f89f..4ffdd93 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -50,7 +50,7 @@ impl Transporter {
             let (reader_sender, reader_receiver) = bounded::<Message>(0);
             let reader = thread::spawn(move || {
                 let mut buf_read = io::BufReader::new(stream);
-                while let Some(msg) = Message::read(&mut buf_read).unwrap() {
+                while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
                     reader_sender.send(msg).unwrap();
                     if is_exit {
@@ -68,8 +68,7 @@ impl Transporter {
             let writer = thread::spawn(move || {
                 writer_receiver
                     .into_iter()
-                    .try_for_each(|it| it.write(&mut stream))
-                    .unwrap();
+                    .try_for_each(|it| it.write(&mut stream))?;
                 Ok(())
             });
             (writer_sender, writer)
-- 
2.43.0


From 7280aaf8faafa4e1292a74b42430d75bf7fbda79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 11/17] fix: stop reading instead of panicking once the
 connection is dropped

---
 bsp-server/src/transporter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/transporter.rs b/bsp-server/src/transporter.rs
index 4ffdd93..795d8c4 100644
--- a/bsp-server/src/transporter.rs
+++ b/bsp-server/src/transporter.rs
@@ -31,7 +31,10 @@ impl Transporter {
                     _ => false,
                 };
 
-                reader_sender.send(msg).unwrap();
+                // The connection was dropped, nobody is interested anymore
+                if reader_sender.send(msg).is_err() {
+                    break;
+                }
 
                 if is_exit {
                     break;
@@ -52,7 +55,10 @@ impl Transporter {
                 let mut buf_read = io::BufReader::new(stream);
                 while let Some(msg) = Message::read(&mut buf_read)? {
                     let is_exit = matches!(&msg, Message::Notification(Notification::Exit));
-                    reader_sender.send(msg).unwrap();
+                    // The connection was dropped, nobody is interested anymore
+                    if reader_sender.send(msg).is_err() {
+                        break;
+                    }
                     if is_exit {
                         break;
                     }
-- 
2.43.0


From 2d069b70f01a3e81142ffd299acbc959c7474dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 12/17] fix: keep a null response result when decoding

The response to build/shutdown was read back as having neither a result
nor an error.
---
 bsp-server/src/response.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/bsp-server/src/response.rs b/bsp-server/src/response.rs
index 95023c2..0731550 100644
--- a/bsp-server/src/response.rs
+++ b/bsp-server/src/response.rs
@@ -1,5 +1,5 @@
 use crate::{ErrorCode, Message, RequestId};
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize};
 
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct Response {
@@ -7,12 +7,21 @@ pub struct Response {
     // to decode the request's id. Ignore this special case
     // and just die horribly.
     pub id: RequestId,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    // A null result is a result, only a missing one is None.
+    #[serde(
+        default,
+        deserialize_with = "present",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub result: Option<serde_json::Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub error: Option<ResponseError>,
 }
 
+fn present<'de, D: Deserializer<'de>>(de: D) -> Result<Option<serde_json::Value>, D::Error> {
+    serde_json::Value::deserialize(de).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize, Clone)]
 pub struct ResponseError {
     pub code: i32,
-- 
2.43.0


From 79edb7dd1a318c95ed916a6039fd344a3ba4b693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 13/17] fix: task event times hold milliseconds since Epoch

which do not fit in 32 bits; task notifications with a real timestamp
failed to decode.
---
 bsp-types/src/task/finish.rs   | 2 +-
 bsp-types/src/task/progress.rs | 2 +-
 bsp-types/src/task/start.rs    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/task/finish.rs b/bsp-types/src/task/finish.rs
index c335286..88f2513 100644
--- a/bsp-types/src/task/finish.rs
+++ b/bsp-types/src/task/finish.rs
@@ -12,7 +12,7 @@ pub struct TaskFinish {
 
     /** Timestamp of the event in milliseconds. */
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
diff --git a/bsp-types/src/task/progress.rs b/bsp-types/src/task/progress.rs
index e599886..57c49f8 100644
--- a/bsp-types/src/task/progress.rs
+++ b/bsp-types/src/task/progress.rs
@@ -12,7 +12,7 @@ pub struct TaskProgress {
 
     /// Timestamp of when the progress event was generated in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task progress.
     ///  * Information about the state of the task at the time the event is sent.
diff --git a/bsp-types/src/task/start.rs b/bsp-types/src/task/start.rs
index dd2cfb6..8c93266 100644
--- a/bsp-types/src/task/start.rs
+++ b/bsp-types/src/task/start.rs
@@ -11,7 +11,7 @@ pub struct TaskStart {
 
     /// Timestamp of when the event started in milliseconds since Epoch.
     #[serde(skip_serializing_if = "Option::is_none")]
-    pub event_time: Option<u32>,
+    pub event_time: Option<u64>,
 
     /// Message describing the task.
     #[serde(skip_serializing_if = "String::is_empty")]
-- 
2.43.0


From b6414cb0439f30f744f4c4900daf5f88b9a8ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:51 +0000
Subject: [PATCH 14/17] fix: decode percent-encoded characters of the workspace
 root path

---
 bsp-types/src/initialize_params.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bsp-types/src/initialize_params.rs b/bsp-types/src/initialize_params.rs
index f9ae093..07de29b 100644
--- a/bsp-types/src/initialize_params.rs
+++ b/bsp-types/src/initialize_params.rs
@@ -101,7 +101,9 @@ impl InitializeBuild {
 
     /// Get a reference to the bsp initialize build params's root uri.
     pub fn root_path(&self) -> PathBuf {
-        self.root_uri.path().into()
+        self.root_uri
+            .to_file_path()
+            .unwrap_or_else(|_| self.root_uri.path().into())
     }
 
     /// Set the bsp initialize build params's root uri.
-- 
2.43.0


From 65a9ef43c7d43307d709ba352c97ef40b2ceacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:12 +0000
Subject: [PATCH 15/17] fix: encode build target tags as the strings the
 protocol defines

Library and no-ide were misspelt, custom tags were written as objects,
and a target with any of them was rejected on decoding.
---
 bsp-types/src/bt_tag.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/bsp-types/src/bt_tag.rs b/bsp-types/src/bt_tag.rs
index 125cfab..e9b2bcd 100644
--- a/bsp-types/src/bt_tag.rs
+++ b/bsp-types/src/bt_tag.rs
@@ -1,4 +1,4 @@
-use serde::{Deserialize, Serialize};
+use serde::{Deserialize, Deserializer, Serialize, Serializer};
 /// Free-form string tags to categorize or label this build target.
 /// For example, can be used by the client to:
 ///  - customize how the target should be translated into the client's project model.
@@ -6,8 +6,7 @@ use serde::{Deserialize, Serialize};
 ///  - display icons or colors in the user interface.
 ///  Pre-defined tags are listed in `BuildTargetTag` but clients and servers
 ///  are free to define new tags for custom purposes.
-#[derive(Debug, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[derive(Debug)]
 pub enum BuildTargetTag {
     /// Target contains re-usable functionality for downstream targets. May have
     /// any combination of capabilities.
@@ -37,6 +36,37 @@ pub enum BuildTargetTag {
     Custom(String),
 }
 
+impl Serialize for BuildTargetTag {
+    fn serialize<S: Serializer>(&self, ser: S) -> Result<S::Ok, S::Error> {
+        ser.serialize_str(match self {
+            Self::Libary => "library",
+            Self::Application => "application",
+            Self::Test => "test",
+            Self::IntegrationTest => "integration-test",
+            Self::Benchmark => "benchmark",
+            Self::NoIDE => "no-ide",
+            Self::Manual => "manual",
+            Self::Custom(tag) => tag,
+        })
+    }
+}
+
+impl<'de> Deserialize<'de> for BuildTargetTag {
+    fn deserialize<D: Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
+        let tag = String::deserialize(de)?;
+        Ok(match tag.as_str() {
+            "library" => Self::Libary,
+            "application" => Self::Application,
+            "test" => Self::Test,
+            "integration-test" => Self::IntegrationTest,
+            "benchmark" => Self::Benchmark,
+            "no-ide" => Self::NoIDE,
+            "manual" => Self::Manual,
+            _ => Self::Custom(tag),
+        })
+    }
+}
+
 impl Default for BuildTargetTag {
     fn default() -> Self {
         Self::NoIDE
-- 
2.43.0


From 2a8525e9a4499490c955ab33d48e586b03d01984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:05 +0000
Subject: [PATCH 16/17] fix: decoding a custom method again does not leak its
 name again

---
 bsp-server/src/message.rs      | 16 ++++++++++++++++
 bsp-server/src/notification.rs |  4 ++--
 bsp-server/src/request.rs      |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/bsp-server/src/message.rs b/bsp-server/src/message.rs
index 6a7c9f5..d4d517c 100644
--- a/bsp-server/src/message.rs
+++ b/bsp-server/src/message.rs
@@ -2,7 +2,9 @@ use crate::Notification;
 use crate::Request;
 use crate::Response;
 use serde::{Deserialize, Serialize};
+use std::collections::BTreeSet;
 use std::io::{self, Read};
+use std::sync::{Mutex, PoisonError};
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
 #[serde(untagged)]
@@ -49,6 +51,20 @@ impl Message {
     }
 }
 
+/// The name of a custom method, which lasts as long as the program: allocated once, not for every message.
+pub(crate) fn intern(method: String) -> &'static str {
+    static NAMES: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
+    let mut names = NAMES.lock().unwrap_or_else(PoisonError::into_inner);
+    match names.get(method.as_str()) {
+        Some(name) => name,
+        None => {
+            let name: &'static str = Box::leak(method.into_boxed_str());
+            names.insert(name);
+            name
+        }
+    }
+}
+
 fn invalid_data(error: impl Into<Box<dyn std::error::Error + Send + Sync>>) -> io::Error {
     io::Error::new(io::ErrorKind::InvalidData, error)
 }
diff --git a/bsp-server/src/notification.rs b/bsp-server/src/notification.rs
index 04b8c6b..4fd6390 100644
--- a/bsp-server/src/notification.rs
+++ b/bsp-server/src/notification.rs
@@ -11,7 +11,7 @@ use serde::{
 };
 use serde_json::Value;
 
-use crate::Message;
+use crate::{message::intern, Message};
 
 #[derive(Debug, Clone)]
 pub enum Notification {
@@ -252,7 +252,7 @@ impl<'de> Deserialize<'de> for Notification {
                     "build/taskFinish" => TaskFinish(de(params)?),
                     "build/taskProgress" => TaskProgress(de(params)?),
                     "buildTarget/didChange" => BuildTargetDidChange(de(params)?),
-                    _ => Custom(Box::leak(method.into_boxed_str()), params),
+                    _ => Custom(intern(method), params),
                 })
             }
         }
diff --git a/bsp-server/src/request.rs b/bsp-server/src/request.rs
index e92a9a4..e92edc8 100644
--- a/bsp-server/src/request.rs
+++ b/bsp-server/src/request.rs
@@ -1,6 +1,6 @@
 mod id;
 
-use crate::Message;
+use crate::{message::intern, Message};
 use std::fmt;
 
 use bsp_types::*;
@@ -451,7 +451,7 @@ impl<'de> Deserialize<'de> for Request {
                     "buildTarget/compile" => Request::BuildTargetCompile(id, de(params)?),
                     "buildTarget/test" => Request::BuildTargetTest(id, de(params)?),
                     "buildTarget/cleanCache" => Request::BuildTargetCleanCache(id, de(params)?),
-                    _ => Request::Custom(id, Box::leak(method.into_boxed_str()), params),
+                    _ => Request::Custom(id, intern(method), params),
                 })
             }
         }
-- 
2.43.0


From ff82116039bca67ab52b7122b11dcc0c7ab56953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:38 +0000
Subject: [PATCH 17/17] fix: operations a build server does not implement
 answer with an error instead of panicking

---
 bsp-types/src/server.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/bsp-types/src/server.rs b/bsp-types/src/server.rs
index d02839a..aadd8a4 100644
--- a/bsp-types/src/server.rs
+++ b/bsp-types/src/server.rs
@@ -3,6 +3,11 @@ use super::*;
 use anyhow::Result;
 use serde_json::Value;
 
+/// What an operation answers that a server does not implement.
+fn method_not_found() -> anyhow::Error {
+    anyhow::anyhow!("method not found")
+}
+
 pub trait BuildServer {
     /// Invoked when client sends server "build/initialize"
     ///
@@ -79,8 +84,7 @@ pub trait BuildServer {
         &self,
         params: BuildTargetDependencyModules,
     ) -> Result<BuildTargetDependencyModulesResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(method_not_found())
     }
 
     /// Invoked when client sends server "buildTarget/dependencyModules"
@@ -89,8 +93,7 @@ pub trait BuildServer {
     /// launches a Microsoft DAP server and returns a connection URI for the client to interact with.
     // #[rpc(name = "debugSession/start")]
     fn debug_session_start(&self, params: DebugSessionStart) -> Result<DebugSessionStartResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(method_not_found())
     }
 
     /// Invoked when client sends server "buildTarget/sources"
@@ -148,8 +151,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/run")]
     fn bt_run(&self, params: BuildTargetRun) -> Result<BuildTargetRunResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(method_not_found())
     }
 
     /// Invoked when client sends server "buildTarget/compile"
@@ -158,8 +160,7 @@ pub trait BuildServer {
     /// communicates during the initialize handshake whether this method is supported or not.
     // #[rpc(name = "buildTarget/compile")]
     fn bt_compile(&self, params: BuildTargetCompile) -> Result<BuildTargetCompileResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(method_not_found())
     }
 
     /// Invoked when client sends server "buildTarget/test"
@@ -169,8 +170,7 @@ pub trait BuildServer {
     /// supported or not.
     // #[rpc(name = "buildTarget/test")]
     fn bt_test(&self, params: BuildTargetTest) -> Result<BuildTargetTestResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(method_not_found())
     }
 
     /// Invoked when client sends server "buildTarget/cleanCache"
@@ -185,7 +185,6 @@ pub trait BuildServer {
     /// results in a full compilation.
     // #[rpc(name = "buildTarget/cleanCache")]
     fn bt_clean_cache(&self, params: BuildTargetCleanCache) -> Result<BuildTargetCleanCacheResult> {
-        todo!()
-        // Err(Error::method_not_found())
+        Err(method_not_found())
     }
 }
-- 
2.43.0

