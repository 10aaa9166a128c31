From f08e6ca8231397cf533c8c2e497b9a23572b6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:45 +0000
Subject: [PATCH 01/16] fix: report a truncated name pointer as an error
 instead of panicking

A message ending in the first byte of a compression pointer made the decoder panic.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index ee710bd..d00b1a2 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -110,7 +110,7 @@ impl<'a> Reader<'a> {
             match length & 0b1100_0000 {
                 0b1100_0000 => {
                     // 16-bit pointer to somewhere else in the UDP message.
-                    let ptr = usize::from(copy.read_u16().unwrap() & 0b0011_1111_1111_1111);
+                    let ptr = usize::from(copy.read_u16()? & 0b0011_1111_1111_1111);
                     if ptr >= min_pos {
                         // We require pointers to point to an earlier part of the message, to
                         // prevent loops. The specification is unclear about what exactly is
-- 
2.43.0


From 25bbce860f1d01d0b118fefcd7ea26d66d81923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 02/16] fix: keep all 15 bits of a question's class

Only the top bit is the mDNS unicast-response bit; masking with 0xff turned e.g.
class 257 into class IN.
---
 src/packet/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index d00b1a2..06ceb4f 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -146,7 +146,7 @@ impl<'a> Reader<'a> {
         let qtype = QType(self.read_u16()?);
         let qclass = self.read_u16()?;
         let prefer_unicast = qclass & 0x8000 != 0;
-        let qclass = QClass(qclass & 0xff);
+        let qclass = QClass(qclass & 0x7fff);
         Ok(Question {
             qname,
             qtype,
-- 
2.43.0


From 8f4f339ddbd3dc865c10ba0ce9ce373e58b947ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 03/16] fix: continue reading behind a name's first pointer

A name whose pointer leads to labels that run past the pointer itself left the reader
somewhere behind the name, so that all later entries were misread.
---
 src/packet/decoder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/packet/decoder.rs b/src/packet/decoder.rs
index 06ceb4f..1538818 100644
--- a/src/packet/decoder.rs
+++ b/src/packet/decoder.rs
@@ -1,7 +1,7 @@
 //! DNS packet decoder.
 
 use core::mem;
-use std::{any::TypeId, cell::Cell, cmp, fmt, marker::PhantomData, mem::size_of};
+use std::{any::TypeId, cell::Cell, fmt, marker::PhantomData, mem::size_of};
 
 use bytemuck::AnyBitPattern;
 
@@ -104,6 +104,8 @@ impl<'a> Reader<'a> {
     pub(crate) fn read_domain_name(&self) -> Result<DomainName, Error> {
         let mut domain_name = DomainName::ROOT;
         let mut min_pos = self.pos.get();
+        // Where the name ends in the message: behind its root label or behind its first pointer.
+        let mut end = None;
         let mut copy = self.clone();
         loop {
             let length = copy.peek_u8()?;
@@ -117,7 +119,7 @@ impl<'a> Reader<'a> {
                         // allowed.
                         return Err(Error::PointerLoop);
                     } else {
-                        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+                        end.get_or_insert(copy.pos.get());
                         min_pos = ptr;
                         copy.pos = ptr.into();
                     }
@@ -137,7 +139,7 @@ impl<'a> Reader<'a> {
             }
         }
 
-        self.pos.set(cmp::max(self.pos.get(), copy.pos.get()));
+        self.pos.set(end.unwrap_or(copy.pos.get()));
         Ok(domain_name)
     }
 
-- 
2.43.0


From 06f6e48776576e8d2822dc829de269a5fb907ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 04/16] fix: recognize multicast resolvers by their server
 address

The local address is never multicast, so add_server did not panic as documented.
---
 src/resolver.rs             | 2 +-
 uwuhi-async/src/resolver.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 6a98bf1..c7b2669 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -42,7 +42,7 @@ impl SyncResolver {
             servers: vec![sock],
             sock: UdpSocket::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: sock.ip().is_multicast(),
         };
         this.set_timeout(Self::DEFAULT_TIMEOUT)?;
         Ok(this)
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index c1221eb..f9301a4 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -33,7 +33,7 @@ impl AsyncResolver {
             servers: vec![server],
             sock: Async::<UdpSocket>::bind(bind_addr)?,
             ip_buf: Vec::new(),
-            is_multicast: bind_addr.ip().is_multicast(),
+            is_multicast: server.ip().is_multicast(),
             timeout: Self::DEFAULT_TIMEOUT,
         })
     }
-- 
2.43.0


From 660ae4307ff1e77432a039cbbc7764c21dbdea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 05/16] fix: receive responses of up to 1500 bytes when
 resolving

Resolvers are used for mDNS as well, whose responses may exceed 512 bytes; those were cut
off and then failed to decode.
---
 src/resolver.rs             | 4 ++--
 uwuhi-async/src/resolver.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index c7b2669..16a8706 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -18,7 +18,7 @@ use crate::{
     Error,
 };
 
-use crate::{DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use crate::MDNS_BUFFER_SIZE;
 
 /// A simple, synchronous, non-recursive (m)DNS stub resolver.
 pub struct SyncResolver {
@@ -128,7 +128,7 @@ impl SyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index f9301a4..9c6a6d2 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -9,7 +9,7 @@ use std::{
 use async_io::{Async, Timer};
 use futures_lite::future;
 pub use uwuhi::resolver::*;
-use uwuhi::{name::DomainName, DNS_BUFFER_SIZE, MDNS_BUFFER_SIZE};
+use uwuhi::{name::DomainName, MDNS_BUFFER_SIZE};
 
 pub struct AsyncResolver {
     servers: Vec<SocketAddr>,
@@ -121,7 +121,7 @@ impl AsyncResolver {
         }
 
         loop {
-            let mut recv_buf = [0; DNS_BUFFER_SIZE];
+            let mut recv_buf = [0; MDNS_BUFFER_SIZE];
             let timeout = async {
                 Timer::after(self.timeout).await;
                 Err(io::ErrorKind::TimedOut.into())
-- 
2.43.0


From 57470824436c20de6ace13c101d94a91f972749e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:47 +0000
Subject: [PATCH 06/16] fix: drop the addresses of a response that fails to
 decode

They were returned along with those of the next valid response.
---
 src/resolver.rs             | 2 ++
 uwuhi-async/src/resolver.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index 16a8706..2e06942 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -141,6 +141,8 @@ impl SyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Don't let the addresses decoded so far leak into a later result.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 9c6a6d2..014fe10 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -138,6 +138,8 @@ impl AsyncResolver {
                     }
                 }
                 Err(e) => {
+                    // Don't let the addresses decoded so far leak into a later result.
+                    self.ip_buf.clear();
                     log::warn!("failed to decode response from {}: {:?}", addr, e);
                 }
             }
-- 
2.43.0


From 22d9c29ca5e704c5c9d323505dfc1d930be3c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 07/16] fix: panic in MessageEncoder::new when the header does
 not fit

The documented panic happened only when the encoder was dropped.
---
 src/packet/encoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index d6a7e6d..5831d15 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -144,6 +144,10 @@ impl<'a> MessageEncoder<'a, section::Question> {
     /// `buf` must be large enough to fit at least the message header (`size_of::<Header>()`),
     /// otherwise this function will panic.
     pub fn new(buf: &'a mut [u8]) -> Self {
+        assert!(
+            buf.len() >= size_of::<Header>(),
+            "buffer is too small for the message header",
+        );
         let mut w = Writer::new(buf);
         w.write_obj(Header::zeroed());
         Self {
-- 
2.43.0


From a19a7cb90e154e56a894ab37d32b9658af6e23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 08/16] fix: ignore TXT entries without a key

The empty string every empty TXT record consists of was presented as a flag with an empty
name.
---
 src/service.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index cb0a898..ffde54d 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -277,6 +277,10 @@ impl TxtRecords {
         for entry in txt.entries() {
             let mut split = entry.splitn(2, |&b| b == b'=');
             let key = split.next().unwrap();
+            if key.is_empty() {
+                // Missing keys must be silently ignored (RFC 6763, section 6.4).
+                continue;
+            }
             let key = match String::from_utf8(key.to_vec()) {
                 Ok(key) => key,
                 Err(e) => {
-- 
2.43.0


From 77fb11531366b0126d62e99320c2b3a7485703ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 09/16] fix: load an instance's TXT records when they follow
 its SRV record

Discovery stopped at the SRV record, losing the metadata of every responder that puts the
TXT record behind it, including our own advertiser.
---
 src/service/discovery.rs             | 16 ++++++++++------
 uwuhi-async/src/service/discovery.rs | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index f1dc031..c7d9349 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -102,9 +102,9 @@ impl SyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            if details.is_none() {
+                                details = Some(det);
+                            }
                         }
                         Err(e) => {
                             log::debug!(
@@ -112,15 +112,19 @@ impl SyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
                 Record::TXT(txt) => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })?;
 
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 0acd1f6..2308f84 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -97,9 +97,9 @@ impl AsyncDiscoverer {
                     match InstanceDetails::from_srv(&srv) {
                         Ok(det) => {
                             // FIXME: respect SRV priority, as required by RFC 6763
-                            details = Some(det);
-                            // FIXME: breaking here ignores any subsequent TXT records!
-                            ControlFlow::Break(())
+                            if details.is_none() {
+                                details = Some(det);
+                            }
                         }
                         Err(e) => {
                             log::debug!(
@@ -107,15 +107,19 @@ impl AsyncDiscoverer {
                                 e,
                                 srv
                             );
-                            ControlFlow::Continue(())
                         }
                     }
                 }
                 Record::TXT(txt) => {
                     txt_records = Some(TxtRecords::from_txt(&txt));
-                    ControlFlow::Continue(())
                 }
-                _ => ControlFlow::Continue(()),
+                _ => {}
+            }
+
+            if details.is_some() && txt_records.is_some() {
+                ControlFlow::Break(())
+            } else {
+                ControlFlow::Continue(())
             }
         })
         .await?;
-- 
2.43.0


From e1816101db286cf0528e9fd0427d42bdc820aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 10/16] fix: report only instances of the service that is being
 discovered

Instances of any other service in the responses (such as answers to somebody else's query)
were passed to the callback as well.
---
 src/service/discovery.rs             | 9 +++++++++
 uwuhi-async/src/service/discovery.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index c7d9349..3e79ee6 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -170,6 +170,15 @@ impl SyncDiscoverer {
             };
 
             // FIXME should probably check that the domain matches ours
+            if instance.service_transport() != service.transport()
+                || !instance
+                    .service_name()
+                    .as_bytes()
+                    .eq_ignore_ascii_case(service.name().as_bytes())
+            {
+                log::trace!("ignoring instance of another service: {}", instance);
+                return ControlFlow::Continue(());
+            }
 
             match instances.entry(instance) {
                 Entry::Vacant(e) => {
diff --git a/uwuhi-async/src/service/discovery.rs b/uwuhi-async/src/service/discovery.rs
index 2308f84..c17cbb1 100644
--- a/uwuhi-async/src/service/discovery.rs
+++ b/uwuhi-async/src/service/discovery.rs
@@ -170,6 +170,15 @@ impl AsyncDiscoverer {
             };
 
             // FIXME should probably check that the domain matches ours
+            if instance.service_transport() != service.transport()
+                || !instance
+                    .service_name()
+                    .as_bytes()
+                    .eq_ignore_ascii_case(service.name().as_bytes())
+            {
+                log::trace!("ignoring instance of another service: {}", instance);
+                return ControlFlow::Continue(());
+            }
 
             match instances.entry(instance) {
                 Entry::Vacant(e) => {
-- 
2.43.0


From d54839f20a9e3b98b4fceec0ec19ef195901d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 11/16] fix: match queried names case-insensitively when
 advertising

Names in DNS are compared without regard to ASCII case (RFC 6762, section 16); queries that
spell a name differently went unanswered.
---
 src/name.rs                | 11 +++++++++++
 src/service/advertising.rs |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/name.rs b/src/name.rs
index 05ca949..88175eb 100644
--- a/src/name.rs
+++ b/src/name.rs
@@ -119,6 +119,17 @@ impl DomainName {
         &self.labels
     }
 
+    /// Returns whether two domain names are equal when the case of ASCII letters is ignored, which
+    /// is how DNS compares names.
+    pub fn eq_ignore_ascii_case(&self, other: &DomainName) -> bool {
+        self.labels.len() == other.labels.len()
+            && self
+                .labels
+                .iter()
+                .zip(&other.labels)
+                .all(|(a, b)| a.bytes.eq_ignore_ascii_case(&b.bytes))
+    }
+
     /// Appends a [`Label`] to the end of this domain name.
     #[inline]
     pub fn push_label(&mut self, label: Label) {
diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 2d97c53..3d3ae16 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -215,7 +215,7 @@ impl Advertiser {
                 if !q.qtype().matches(entry.record.record_type()) {
                     continue;
                 }
-                if q.qname() != &entry.name {
+                if !q.qname().eq_ignore_ascii_case(&entry.name) {
                     continue;
                 }
 
-- 
2.43.0


From 99be56ed8a11c65c234620f0d43d7d349d28cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 12/16] fix: reject over-long domain names when parsing

Domain names are limited to 255 bytes (RFC 1035, section 2.3.4). Resolving a hostname too
long for a packet panicked.
---
 src/error.rs | 7 +++++++
 src/name.rs  | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index e1d2095..6a94367 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -22,6 +22,8 @@ pub enum Error {
     InvalidEmptyLabel,
     /// A label exceeded the maximum allowable length of a label.
     LabelTooLong,
+    /// A domain name exceeded the maximum allowable length of a domain name.
+    DomainNameTooLong,
 }
 
 impl Error {
@@ -33,6 +35,7 @@ impl Error {
             Error::Truncated => "packet truncated",
             Error::InvalidEmptyLabel => "invalid empty label",
             Error::LabelTooLong => "label too long",
+            Error::DomainNameTooLong => "domain name too long",
         }
     }
 }
@@ -62,6 +65,10 @@ impl From<Error> for io::Error {
                 io::ErrorKind::InvalidInput,
                 "domain name label exceeds maximum label length",
             ),
+            Error::DomainNameTooLong => io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "domain name exceeds maximum domain name length",
+            ),
             Error::Truncated => io::ErrorKind::OutOfMemory.into(),
         }
     }
diff --git a/src/name.rs b/src/name.rs
index 88175eb..2f0f1db 100644
--- a/src/name.rs
+++ b/src/name.rs
@@ -101,6 +101,9 @@ impl DomainName {
     /// The empty root domain `.`.
     pub const ROOT: Self = Self { labels: Vec::new() };
 
+    /// The maximum length of an encoded domain name, in bytes.
+    const MAX_LEN: usize = 255;
+
     /// Parses a domain name as a string of `.`-separated labels.
     ///
     /// A trailing `.` is allowed but not required.
@@ -239,6 +242,12 @@ impl FromStr for DomainName {
         for label in s.split_terminator('.') {
             name.labels.push(label.parse()?);
         }
+
+        // Every label is preceded by its length, and the name ends with an empty label.
+        let encoded_len = name.labels.iter().map(|l| l.bytes.len() + 1).sum::<usize>() + 1;
+        if encoded_len > Self::MAX_LEN {
+            return Err(Error::DomainNameTooLong);
+        }
         Ok(name)
     }
 }
-- 
2.43.0


From f7b5c6f235d2bbacf8055358ef09abbee120da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 13/16] fix: don't count entries that did not fit into the
 message

The header of a truncated message announced entries that are missing from it, so that
receivers failed to decode the message instead of getting the entries that do fit.
---
 src/packet/encoder.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet/encoder.rs b/src/packet/encoder.rs
index 5831d15..bf0c6db 100644
--- a/src/packet/encoder.rs
+++ b/src/packet/encoder.rs
@@ -167,7 +167,9 @@ impl<'a> MessageEncoder<'a, section::Question> {
         self.inner.w.write_domain_name(question.name);
         self.inner.w.write_u16(question.ty.0);
         self.inner.w.write_u16(question.class.0);
-        self.inner.qdcount += 1;
+        if !self.inner.w.trunc {
+            self.inner.qdcount += 1;
+        }
     }
 
     /// Moves the encoder to the *Answer* section.
@@ -212,7 +214,9 @@ impl<'a, S: Section> MessageEncoder<'a, S> {
 impl<'a> MessageEncoder<'a, section::Answer> {
     pub fn add_answer(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.ancount += 1;
+        if !self.inner.w.trunc {
+            self.inner.ancount += 1;
+        }
     }
 
     /// Moves the encoder to the *Authority* section.
@@ -228,7 +232,9 @@ impl<'a> MessageEncoder<'a, section::Answer> {
 impl<'a> MessageEncoder<'a, section::Authority> {
     pub fn add_authority(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.nscount += 1;
+        if !self.inner.w.trunc {
+            self.inner.nscount += 1;
+        }
     }
 
     /// Moves the encoder to the *Additional Records* section.
@@ -244,7 +250,9 @@ impl<'a> MessageEncoder<'a, section::Authority> {
 impl<'a> MessageEncoder<'a, section::Additional> {
     pub fn add_additional(&mut self, rr: ResourceRecord<'_>) {
         self.write_rr(rr);
-        self.inner.arcount += 1;
+        if !self.inner.w.trunc {
+            self.inner.arcount += 1;
+        }
     }
 }
 
-- 
2.43.0


From 84149867197459cb0b5b06382ce504b0559ecd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 14/16] fix: ignore packets with a foreign message ID when
 resolving

Packets that don't match the query are documented to be ignored, but any response was
accepted as the answer.
---
 src/resolver.rs             | 5 +++++
 uwuhi-async/src/resolver.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index 2e06942..a97327f 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -133,6 +133,11 @@ impl SyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
+            if recv.get(..2) != data.get(..2) {
+                log::debug!("ignoring packet from {} that doesn't match our query", addr);
+                continue;
+            }
+
             match decode_answer(recv, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
diff --git a/uwuhi-async/src/resolver.rs b/uwuhi-async/src/resolver.rs
index 014fe10..20261d0 100644
--- a/uwuhi-async/src/resolver.rs
+++ b/uwuhi-async/src/resolver.rs
@@ -130,6 +130,11 @@ impl AsyncResolver {
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {:x?}", addr, recv);
 
+            if recv.get(..2) != data.get(..2) {
+                log::debug!("ignoring packet from {} that doesn't match our query", addr);
+                continue;
+            }
+
             match decode_answer(recv, &mut self.ip_buf) {
                 Ok(()) => {
                     if !self.ip_buf.is_empty() {
-- 
2.43.0


From bff6c2843f6afa32180339dd3fd6a0180d1dea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 15/16] fix: keep advertising when a reply cannot be sent

A single query from an unreachable or invalid source address ended the advertiser.
---
 src/service/advertising.rs             | 5 ++++-
 uwuhi-async/src/service/advertising.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 3d3ae16..955860b 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -57,7 +57,10 @@ impl SyncAdvertiser {
 
             match self.adv.handle_packet(packet) {
                 Ok(Some(resp)) => {
-                    sock.send_to(resp, addr)?;
+                    // The source address comes from the network and may not be reachable.
+                    if let Err(e) = sock.send_to(resp, addr) {
+                        log::debug!("failed to reply to {}: {}", addr, e);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
diff --git a/uwuhi-async/src/service/advertising.rs b/uwuhi-async/src/service/advertising.rs
index c97e0f9..4ceb997 100644
--- a/uwuhi-async/src/service/advertising.rs
+++ b/uwuhi-async/src/service/advertising.rs
@@ -51,7 +51,10 @@ impl AsyncAdvertiser {
 
             match self.adv.handle_packet(packet) {
                 Ok(Some(resp)) => {
-                    self.sock.send_to(resp, addr).await?;
+                    // The source address comes from the network and may not be reachable.
+                    if let Err(e) = self.sock.send_to(resp, addr).await {
+                        log::debug!("failed to reply to {}: {}", addr, e);
+                    }
                 }
                 Ok(None) => {}
                 Err(e) => {
-- 
2.43.0


From e88e1eccf04adc9214fea9b5c5e659c68bccab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 16/16] fix: keep waiting when a signal interrupts a blocking
 receive

---
 src/resolver.rs            | 6 +++++-
 src/service/advertising.rs | 6 +++++-
 src/service/discovery.rs   | 1 +
 src/tap.rs                 | 6 +++++-
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index a97327f..d0d24d9 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -129,7 +129,11 @@ impl SyncResolver {
 
         loop {
             let mut recv_buf = [0; MDNS_BUFFER_SIZE];
-            let (b, addr) = self.sock.recv_from(&mut recv_buf)?;
+            let (b, addr) = match self.sock.recv_from(&mut recv_buf) {
+                Ok(res) => res,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
             let recv = &recv_buf[..b];
             log::trace!("recv from {}: {}", addr, Hex(recv));
 
diff --git a/src/service/advertising.rs b/src/service/advertising.rs
index 955860b..223092d 100644
--- a/src/service/advertising.rs
+++ b/src/service/advertising.rs
@@ -50,7 +50,11 @@ impl SyncAdvertiser {
         let sock = self.adv.create_socket()?;
         let mut recv_buf = [0; MDNS_BUFFER_SIZE];
         loop {
-            let (len, addr) = sock.recv_from(&mut recv_buf)?;
+            let (len, addr) = match sock.recv_from(&mut recv_buf) {
+                Ok(res) => res,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
             let packet = &recv_buf[..len];
 
             log::trace!("raw recv from {}: {:x?}", addr, packet);
diff --git a/src/service/discovery.rs b/src/service/discovery.rs
index 3e79ee6..5e24b3c 100644
--- a/src/service/discovery.rs
+++ b/src/service/discovery.rs
@@ -262,6 +262,7 @@ impl SyncDiscoverer {
                     {
                         continue 'retransmit;
                     }
+                    Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
                     Err(e) => return Err(e),
                 };
                 let recv = &recv_buf[..b];
diff --git a/src/tap.rs b/src/tap.rs
index 4628f5c..c02ae14 100644
--- a/src/tap.rs
+++ b/src/tap.rs
@@ -31,7 +31,11 @@ impl SyncTap {
     pub fn listen(self) -> io::Result<()> {
         loop {
             let mut buf = [0; MDNS_BUFFER_SIZE];
-            let (len, addr) = self.sock.recv_from(&mut buf)?;
+            let (len, addr) = match self.sock.recv_from(&mut buf) {
+                Ok(res) => res,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            };
 
             let buf = &buf[..len];
             match self.process(addr, buf) {
-- 
2.43.0

