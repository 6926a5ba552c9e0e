From c799e408bd43ef9be6d385c2b03398ed5d1ced6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 01/10] fix: send a reply line even when the reply text is
 empty

A Config returning an empty text for a reply (eg. a Refusal with an empty
msg) made send_reply send nothing at all, so the client never got an answer
to its command and every later reply was attributed to the wrong command.
---
 smtp-server/src/sendreply.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smtp-server/src/sendreply.rs b/smtp-server/src/sendreply.rs
index 6d8ac5c..fa5d920 100644
--- a/smtp-server/src/sendreply.rs
+++ b/smtp-server/src/sendreply.rs
@@ -15,8 +15,16 @@ pub async fn send_reply<W>(
 where
     W: Sink<ReplyLine>,
 {
-    let replies = text
-        .byte_chunks(ReplyLine::MAX_LEN)
+    // An empty text still needs its (empty) reply line, or the client would be
+    // left waiting for an answer to its command
+    let empty_line = if text.byte_len() == 0 {
+        Some(text.clone())
+    } else {
+        None
+    };
+    let replies = empty_line
+        .into_iter()
+        .chain(text.byte_chunks(ReplyLine::MAX_LEN))
         .with_position()
         .map(move |t| {
             use itertools::Position::*;
-- 
2.43.0


From 23716c3f69d0cf394c3843efff486bd2a22706c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 02/10] fix: do not poll the incoming stream again after it
 ended during DATA

When the client disconnects inside DATA, DataStream consumes the end-of-stream
of the reader, and interact then polls the reader again for the next command,
which panics or hangs for streams that are not fused (eg. stream::unfold).
---
 smtp-server/src/interact.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smtp-server/src/interact.rs b/smtp-server/src/interact.rs
index 5e16a05..a87e963 100644
--- a/smtp-server/src/interact.rs
+++ b/smtp-server/src/interact.rs
@@ -44,7 +44,9 @@ where
     fn randomtest<Writer: Sink<Bytes>, S: Sink<ReplyLine, Error = Writer::Error>>(_: &S) {}
     randomtest::<Writer, _>(&writer);
     let mut writer = unsafe { Pin::new_unchecked(&mut writer) };
-    let mut reader = Prependable::new(incoming);
+    // The incoming stream may end in the middle of DATA, in which case it would
+    // get polled again when looking for the next command
+    let mut reader = Prependable::new(incoming.fuse());
 
     send_reply(writer.as_mut(), cfg.welcome_banner()).await?;
     // TODO: (C) optimize by trying parsing directly and not buffering until crlf
-- 
2.43.0


From 68f58127a702239689108f507911d4a694b7ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 03/10] fix: keep DataStream terminated once it has ended

Polling again a DataStream that ended early polled its source after the end of
the stream and could hand out the held-back bytes as regular data, and polling
it again after complete() swallowed the commands following the message.
---
 smtp-message/src/data/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/data/stream.rs b/smtp-message/src/data/stream.rs
index c495436..abfafdc 100644
--- a/smtp-message/src/data/stream.rs
+++ b/smtp-message/src/data/stream.rs
@@ -95,7 +95,7 @@ where
         use self::DataStreamState::*;
         use Poll::*;
         // First, handle the case when we're done
-        if self.state == Finished {
+        if self.state == Finished || self.state == EarlyFin || self.state == Completed {
             return Ready(None);
         }
         loop {
-- 
2.43.0


From d4922aa0a224ce39ffa0b007d28652758049b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 04/10] fix: refuse reply codes that are not three digits

u16::from_str accepts a leading '+', so "+25 foo" was parsed as a reply with
code 25.
---
 smtp-message/src/reply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smtp-message/src/reply.rs b/smtp-message/src/reply.rs
index 4e2d71a..bbf0642 100644
--- a/smtp-message/src/reply.rs
+++ b/smtp-message/src/reply.rs
@@ -130,7 +130,10 @@ named!(pub reply(ByteSlice) -> ReplyLine, do_parse!(
     code: map!(
         verify!(
             map_res!(
-                map_res!(take!(3), ByteSlice::into_utf8),
+                map_res!(
+                    verify!(take!(3), |x: ByteSlice| x.iter().all(u8::is_ascii_digit)),
+                    ByteSlice::into_utf8
+                ),
                 |utf8| u16::from_str(utf8)
             ),
             |x: u16| x < 1000
-- 
2.43.0


From 755a7e89be1f4968fb0a205bf91b732633637e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 05/10] fix: check sub-slices of a ByteSlice against its own
 length

The bound was compared to the end offset in the underlying buffer, so slicing a
ByteSlice that doesn't start at 0 could expose bytes beyond its end.
---
 smtp-message/src/byteslice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/byteslice.rs b/smtp-message/src/byteslice.rs
index c19971c..894e301 100644
--- a/smtp-message/src/byteslice.rs
+++ b/smtp-message/src/byteslice.rs
@@ -60,7 +60,7 @@ impl<'a> PartialEq for ByteSlice<'a> {
 
 impl<'a> Slice<Range<usize>> for ByteSlice<'a> {
     fn slice(&self, range: Range<usize>) -> Self {
-        assert!(range.start <= range.end && range.end <= self.end);
+        assert!(range.start <= range.end && range.end <= self.len());
         ByteSlice {
             buf: self.buf,
             start: self.start + range.start,
-- 
2.43.0


From 7554f9e8fbe090a68df94b3212a58263cc2c45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 06/10] fix: do not overflow in SmtpString::byte_chunks with
 huge chunk sizes

With a chunk size close to usize::MAX the number of chunks overflowed: a panic
in debug builds, and the whole text silently dropped in release builds.
---
 smtp-message/src/smtpstring.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smtp-message/src/smtpstring.rs b/smtp-message/src/smtpstring.rs
index c70a836..3bc6f90 100644
--- a/smtp-message/src/smtpstring.rs
+++ b/smtp-message/src/smtpstring.rs
@@ -62,8 +62,9 @@ impl SmtpString {
 
     pub fn byte_chunks(&self, bytes: usize) -> impl Iterator<Item = SmtpString> {
         let copy = self.0.clone();
-        (0..(self.byte_len() + bytes - 1) / bytes)
-            .map(move |i| SmtpString(copy.slice(i * bytes, min(copy.len(), (i + 1) * bytes))))
+        (0..self.byte_len()).step_by(bytes).map(move |start| {
+            SmtpString(copy.slice(start, min(copy.len(), start.saturating_add(bytes))))
+        })
     }
 }
 
-- 
2.43.0


From a4c01c39720fac0950df0254b2c703fb1428c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 07/10] fix: require the command verb to be delimited

"HELPfoo", "NOOPfoo", "EHLOfoo" and "HELOfoo" were parsed as HELP, NOOP, EHLO
and HELO commands, and EHLO and HELO accepted blanks after the final CRLF.
---
 smtp-message/src/ehlo/mod.rs | 9 +++++----
 smtp-message/src/helo/mod.rs | 9 +++++----
 smtp-message/src/help/mod.rs | 5 ++---
 smtp-message/src/noop/mod.rs | 4 ++--
 4 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/smtp-message/src/ehlo/mod.rs b/smtp-message/src/ehlo/mod.rs
index 1231a6b..a6409f8 100644
--- a/smtp-message/src/ehlo/mod.rs
+++ b/smtp-message/src/ehlo/mod.rs
@@ -30,14 +30,15 @@ impl EhloCommand {
 }
 
 named!(pub command_ehlo_args(ByteSlice) -> EhloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("EHLO") >>
-        domain: hostname >>
+    do_parse!(
+        eat_spaces >>
+        tag_no_case!("EHLO") >> one_of!(spaces!()) >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (EhloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
diff --git a/smtp-message/src/helo/mod.rs b/smtp-message/src/helo/mod.rs
index 4cc2af5..875ea94 100644
--- a/smtp-message/src/helo/mod.rs
+++ b/smtp-message/src/helo/mod.rs
@@ -30,14 +30,15 @@ impl HeloCommand {
 }
 
 named!(pub command_helo_args(ByteSlice) -> HeloCommand,
-    sep!(eat_spaces, do_parse!(
-        tag_no_case!("HELO") >>
-        domain: hostname >>
+    do_parse!(
+        eat_spaces >>
+        tag_no_case!("HELO") >> one_of!(spaces!()) >> eat_spaces >>
+        domain: hostname >> eat_spaces >>
         tag!("\r\n") >>
         (HeloCommand {
             domain: domain.into(),
         })
-    ))
+    )
 );
 
 #[cfg(test)]
diff --git a/smtp-message/src/help/mod.rs b/smtp-message/src/help/mod.rs
index ca8f39f..4e0704e 100644
--- a/smtp-message/src/help/mod.rs
+++ b/smtp-message/src/help/mod.rs
@@ -24,10 +24,9 @@ impl HelpCommand {
     }
 }
 
-// TODO: (B) this opt!(…) allows HELPfoo, which is wrong, like other commands
 named!(pub command_help_args(ByteSlice) -> HelpCommand, do_parse!(
-    tag_no_case!("HELP") >> opt!(one_of!(spaces!())) >>
-    res: take_until!("\r\n") >>
+    tag_no_case!("HELP") >>
+    res: alt!(preceded!(one_of!(spaces!()), take_until!("\r\n")) | take!(0)) >>
     tag!("\r\n") >>
     (HelpCommand {
         subject: res.promote().into(),
diff --git a/smtp-message/src/noop/mod.rs b/smtp-message/src/noop/mod.rs
index 53dbea9..88c78e2 100644
--- a/smtp-message/src/noop/mod.rs
+++ b/smtp-message/src/noop/mod.rs
@@ -25,8 +25,8 @@ impl NoopCommand {
 }
 
 named!(pub command_noop_args(ByteSlice) -> NoopCommand, do_parse!(
-    tag_no_case!("NOOP") >> opt!(one_of!(spaces!())) >>
-    res: take_until!("\r\n") >>
+    tag_no_case!("NOOP") >>
+    res: alt!(preceded!(one_of!(spaces!()), take_until!("\r\n")) | take!(0)) >>
     tag!("\r\n") >>
     (NoopCommand {
         string: res.promote().into(),
-- 
2.43.0


From a1b86ae04b4e2f1ed50d3115c36f07d788783843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 08/10] verif hook: let external harnesses implement the
 queue's storage (cfg yuubind_verif)

---
 smtp-queue/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smtp-queue/src/lib.rs b/smtp-queue/src/lib.rs
index 1641032..36f1447 100644
--- a/smtp-queue/src/lib.rs
+++ b/smtp-queue/src/lib.rs
@@ -8,6 +8,8 @@ mod send_queued_mail;
 mod storage;
 mod transport;
 
+#[cfg(yuubind_verif)]
+pub use mail::FoundInflightMail;
 pub use mail::{InflightMail, Mail, QueuedMail};
 pub use run::run;
 pub use storage::Storage;
-- 
2.43.0


From 065af5ff176287e356af8e02020369812477b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 09/10] fix: count the hour for mail found in flight from when
 it was found

---
 smtp-queue/src/run.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/smtp-queue/src/run.rs b/smtp-queue/src/run.rs
index 2277a6c..da2c4e7 100644
--- a/smtp-queue/src/run.rs
+++ b/smtp-queue/src/run.rs
@@ -1,8 +1,5 @@
-use std::{
-    sync::Arc,
-    time::{Duration, Instant},
-};
-use tokio::{self, prelude::*, timer::Delay};
+use std::{sync::Arc, time::Duration};
+use tokio::{self, clock, prelude::*, timer::Delay};
 
 use mail::{FoundInflightMail, InflightMail, QueuedMail};
 use send_queued_mail::send_queued_mail;
@@ -21,7 +18,6 @@ where
     Stor: Storage<M, QM, IM, FIM>,
     Transp: Transport<M>,
 {
-    let startup = Instant::now();
     let storage_copy = storage.clone();
     let transport_copy = transport.clone();
     storage
@@ -36,13 +32,15 @@ where
         .and_then(move |()| {
             // TODO: (B) Make this delay configurable
             // The important thing is it must be longer than the time between switching a
-            // mail to inflight and either completing it or returning it to the queue
+            // mail to inflight and either completing it or returning it to the queue.
+            // It is counted from when the mail was found: listing the queue may have taken
+            // long, and the mail may have been switched to inflight during that time
             storage.find_inflight().for_each(move |fim| {
                 let storage_copy = storage.clone();
                 let storage_copy2 = storage.clone();
                 let transport_copy = transport.clone();
                 tokio::spawn(
-                    Delay::new(startup.clone() + Duration::from_secs(3600))
+                    Delay::new(clock::now() + Duration::from_secs(3600))
                         .map_err(|_| ())
                         .and_then(move |()| storage_copy.cancel_found_inflight(fim))
                         .and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),
-- 
2.43.0


From a9897342f9c4350f7078cde777d5c48627781782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:28 +0000
Subject: [PATCH 10/10] fix: accept the IPv6 tag of address literals in any
 case

The literal strings of the RFC 5321 grammar are case-insensitive, and so is
every other keyword here, but [ipv6:::1] was refused.
---
 smtp-message/src/domain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smtp-message/src/domain.rs b/smtp-message/src/domain.rs
index e141d42..2e07e23 100644
--- a/smtp-message/src/domain.rs
+++ b/smtp-message/src/domain.rs
@@ -47,7 +47,7 @@ named!(pub hostname(ByteSlice) -> Domain,
                     preceded!(one_of!(alnum!()),
                               opt!(is_a!(concat!(alnum!(), "-")))))),
              |x| Domain::Host(SmtpString::from(x.promote()))) |
-        map_res!(map_res!(preceded!(tag!("[IPv6:"), take_until_and_consume!("]")),
+        map_res!(map_res!(preceded!(tag_no_case!("[IPv6:"), take_until_and_consume!("]")),
                           ByteSlice::into_utf8),
                  |x| -> Result<Domain, AddrParseError> {
                      Ok(Domain::Addr(Ipv6Addr::from_str(x)?.into()))
-- 
2.43.0

