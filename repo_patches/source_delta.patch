From f9c8277e6b50d1f22016ae1b94868ae1f1d803b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 1/4] hook: export FoundInflightMail under --cfg yuubind_sim

---
 smtp-queue/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smtp-queue/src/lib.rs b/smtp-queue/src/lib.rs
index 1641032..eafa2b4 100644
--- a/smtp-queue/src/lib.rs
+++ b/smtp-queue/src/lib.rs
@@ -9,6 +9,9 @@ mod storage;
 mod transport;
 
 pub use mail::{InflightMail, Mail, QueuedMail};
+// Simulation hook: the storage trait cannot be implemented without this name
+#[cfg(yuubind_sim)]
+pub use mail::FoundInflightMail;
 pub use run::run;
 pub use storage::Storage;
 pub use transport::Transport;
-- 
2.43.0


From e7d43c6a63935867ef1402c52f3033eb69269f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 2/4] fix: do not read the input again after it ended during
 DATA

Once the incoming stream has returned None, the Stream contract forbids
polling it again (it may panic or block for ever). When the client
disconnected in the middle of DATA, the DataStream saw the end of the
stream, and the command loop then polled the same stream once more.
---
 smtp-server/src/interact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..a2765e3 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,9 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    // Fuse the stream, as an early end of stream in the middle of DATA would
+    // otherwise get it polled again after it already returned `None`
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0


From 4007ba83ce25fd3cc141cd24f0e7bc9674dd2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 3/4] fix: send a reply also when its text is empty

An empty text was split into zero reply lines, so the command was never
answered and a client waiting for the reply was stuck for ever.
---
 smtp-server/src/sendreply.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..e0dbf0d 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,6 +15,13 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
+    if text.byte_len() == 0 {
+        // `byte_chunks` yields nothing for an empty text, but the client still
+        // waits for a reply
+        let reply = ReplyLine::build(code, IsLastLine::Yes, text).unwrap();
+        return writer.send(reply).await;
+    }
+
     let replies = text
         .byte_chunks(ReplyLine::MAX_LEN)
         .with_position()
-- 
2.43.0


From 51cbb9413c2d8d87db01f9a8d34ce1c4da67dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 4/4] fix: leave found in-progress mails alone for an hour from
 when they are found

The delay was counted from the start of the queue, but mails are looked
for only after the whole queue has been listed. With a slow listing a mail
that some instance (even this one) had just started to send was taken back
at once and delivered a second time.
---
 smtp-queue/src/run.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smtp-queue/src/run.rs b/smtp-queue/src/run.rs
index 2277a6c..d02223f 100644
--- a/smtp-queue/src/run.rs
+++ b/smtp-queue/src/run.rs
@@ -21,7 +21,6 @@ where
     Stor: Storage<M, QM, IM, FIM>,
     Transp: Transport<M>,
 {
-    let startup = Instant::now();
     let storage_copy = storage.clone();
     let transport_copy = transport.clone();
     storage
@@ -42,7 +41,7 @@ where
                 let storage_copy2 = storage.clone();
                 let transport_copy = transport.clone();
                 tokio::spawn(
-                    Delay::new(startup.clone() + Duration::from_secs(3600))
+                    Delay::new(Instant::now() + Duration::from_secs(3600))
                         .map_err(|_| ())
                         .and_then(move |()| storage_copy.cancel_found_inflight(fim))
                         .and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),
-- 
2.43.0

