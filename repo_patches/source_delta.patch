From 9c8b2b00e4ee45283eb6d5743a2a0c389095020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:59 +0000
Subject: [PATCH 01/87] fix: sharded caches pop from a shard that has entries

ShardedSyncCache::pop drew an index among the non-empty shards but used it on
the list of all shards, and ShardedAsyncCache::pop tried one random shard: both
returned None while entries were cached.
---
 common/cache/src/sharded_async_cache.rs | 12 ++++++++++--
 common/cache/src/sharded_sync_cache.rs  |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/common/cache/src/sharded_async_cache.rs b/common/cache/src/sharded_async_cache.rs
index 04f80ea..795fe0f 100644
--- a/common/cache/src/sharded_async_cache.rs
+++ b/common/cache/src/sharded_async_cache.rs
@@ -72,8 +72,16 @@ where
     }
 
     async fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let index = rand::thread_rng().next_u64() as usize % self.shard.len();
-        self.shard.get(index)?.lock().await.pop()
+        // Start from a random shard, and skip the empty ones.
+        let start = rand::thread_rng().next_u64() as usize % self.shard.len();
+        for i in 0..self.shard.len() {
+            let index = (start + i) % self.shard.len();
+            let item = self.shard.get(index)?.lock().await.pop();
+            if item.is_some() {
+                return item;
+            }
+        }
+        None
     }
 
     async fn set_capacity(&self, capacity: NonZeroUsize) {
diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index f6174ab..2da95b5 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -95,7 +95,7 @@ where
         } else {
             let shard_len = none_empty_shard.len();
             let index = rand::thread_rng().next_u64() as usize % shard_len;
-            self.shard.get(index)?.pop()
+            none_empty_shard.get(index)?.pop()
         }
     }
 
-- 
2.43.0


From d3988034590baa8bdc81beeb72159385e17eca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 02/87] fix: token refill of the rate bucket saturates instead
 of overflowing

tokens * refill overflowed when a bucket with a large refill idled for several
intervals: a panic with overflow checks, a wrapped (too small) balance without.
---
 common/limiter_bucket/src/rate_bucket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/limiter_bucket/src/rate_bucket.rs b/common/limiter_bucket/src/rate_bucket.rs
index 72cb477..0ad6001 100644
--- a/common/limiter_bucket/src/rate_bucket.rs
+++ b/common/limiter_bucket/src/rate_bucket.rs
@@ -231,7 +231,9 @@ impl RateBucket {
     fn update_critical(&self, critical: &mut MutexGuard<Critical>) {
         if let Some((tokens, deadline)) = calculate_drain(critical.deadline, self.interval) {
             critical.deadline = deadline;
-            critical.balance = critical.balance.saturating_add(tokens * self.refill);
+            critical.balance = critical
+                .balance
+                .saturating_add(tokens.saturating_mul(self.refill));
 
             if critical.balance > self.max {
                 critical.balance = self.max;
-- 
2.43.0


From a442c3431ccf9e6b21433b876850b4291e0805f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 03/87] fix: U64Average divides by the number of samples

It divided by one more than the number of samples, so every reported average
was too small, and it dropped samples that arrived between its load and clear.
---
 common/metrics/src/average.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 85cb3e1..01d5a51 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -18,16 +18,10 @@ impl U64Average {
     }
 
     pub fn average(&self) -> u64 {
-        let count = self.count.load(Ordering::Relaxed);
-        let total = self.total.load(Ordering::Relaxed);
+        let count = self.count.swap(0, Ordering::Relaxed);
+        let total = self.total.swap(0, Ordering::Relaxed);
 
-        self.clear();
-        total / (count + 1)
-    }
-
-    fn clear(&self) {
-        self.count.store(0, Ordering::Relaxed);
-        self.total.store(0, Ordering::Relaxed);
+        total.checked_div(count).unwrap_or(0)
     }
 }
 
-- 
2.43.0


From 362fce422a37cb3fca563eb846c1c7d11396b89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:31 +0000
Subject: [PATCH 04/87] fix: a Bloom filter read back from its bytes keeps its
 size

---
 common/utils/src/bloom_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils/src/bloom_filter.rs b/common/utils/src/bloom_filter.rs
index 10c1f4e..506c8ec 100644
--- a/common/utils/src/bloom_filter.rs
+++ b/common/utils/src/bloom_filter.rs
@@ -35,7 +35,7 @@ impl BloomFilter {
     /// Similar to `new()`
     pub fn with_data(data: &[u8]) -> Self {
         let mut b = data.to_vec();
-        let l = Self::pow2(b.len() as u64);
+        let l = (b.len() as u64).next_power_of_two();
         if l != b.len() as u64 {
             b.resize(l as usize, 0);
         }
-- 
2.43.0


From d7df65d05011c6da979aff4728d4e8c90b6f948d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:16 +0000
Subject: [PATCH 05/87] fix: byte sizes with non-ASCII text are rejected before
 byte_unit sees them

---
 common/utils/src/byte_nums.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/utils/src/byte_nums.rs b/common/utils/src/byte_nums.rs
index c65970d..76d45b0 100644
--- a/common/utils/src/byte_nums.rs
+++ b/common/utils/src/byte_nums.rs
@@ -1,6 +1,6 @@
 use std::str::FromStr;
 
-use byte_unit::{Byte, ParseError, UnitType};
+use byte_unit::{Byte, ParseError, UnitType, ValueParseError};
 
 pub const YEAR_SECOND: u64 = 31557600; // 356.25 day
 
@@ -10,6 +10,7 @@ pub struct CnosByteNumber {
 
 impl CnosByteNumber {
     pub fn new(text: &str) -> Option<Self> {
+        Self::check_ascii(text).ok()?;
         match Byte::from_str(text) {
             Ok(v) => Some(CnosByteNumber { byte: v }),
             Err(_) => None,
@@ -28,6 +29,16 @@ impl CnosByteNumber {
     pub fn parse_bytes(s: &str) -> Result<u64, ParseError> {
         let mut str = s.to_string();
         str.retain(|c| c != '_');
+        Self::check_ascii(&str)?;
         Byte::parse_str(&str, true).map(|byte| byte.as_u64())
     }
+
+    /// byte_unit builds an invalid `char` (undefined behaviour) when it reports a
+    /// character that is not ASCII.
+    fn check_ascii(text: &str) -> Result<(), ParseError> {
+        match text.chars().find(|c| !c.is_ascii()) {
+            Some(c) => Err(ValueParseError::NotNumber(c).into()),
+            None => Ok(()),
+        }
+    }
 }
-- 
2.43.0


From a85b0603e78ddd4e376d374cd9800a9aa90e5393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:35 +0000
Subject: [PATCH 06/87] fix: byte sizes are written so that they read back
 exactly

---
 common/utils/src/byte_nums.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/utils/src/byte_nums.rs b/common/utils/src/byte_nums.rs
index 76d45b0..d591f39 100644
--- a/common/utils/src/byte_nums.rs
+++ b/common/utils/src/byte_nums.rs
@@ -22,9 +22,14 @@ impl CnosByteNumber {
     }
 
     pub fn format_bytes(bytes: u64) -> String {
-        Byte::from_u64(bytes)
+        let text = Byte::from_u64(bytes)
             .get_appropriate_unit(UnitType::Both)
-            .to_string()
+            .to_string();
+        match Self::parse_bytes(&text) {
+            Ok(v) if v == bytes => text,
+            // the unit's fraction cannot express this number exactly
+            _ => bytes.to_string(),
+        }
     }
     pub fn parse_bytes(s: &str) -> Result<u64, ParseError> {
         let mut str = s.to_string();
-- 
2.43.0


From 5b081f6e43e058630246e3eff2c152740ba6e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 07/87] fix: storage config check accepts the supported
 tsm_meta_compress values

---
 config/src/tskv/storage_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/storage_config.rs b/config/src/tskv/storage_config.rs
index 8162767..24b0a15 100644
--- a/config/src/tskv/storage_config.rs
+++ b/config/src/tskv/storage_config.rs
@@ -233,8 +233,8 @@ impl CheckConfig for StorageConfig {
         }
 
         if self.tsm_meta_compress != "zstd"
-            || self.tsm_meta_compress != "snappy"
-            || self.tsm_meta_compress != "null"
+            && self.tsm_meta_compress != "snappy"
+            && self.tsm_meta_compress != "null"
         {
             ret.add_error(CheckConfigItemResult {
                 config: config_name,
-- 
2.43.0


From 374890a74d66cc5a42e5e0b842f5da6ad928b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:54 +0000
Subject: [PATCH 08/87] fix: security config check reports what it finds

---
 config/src/tskv/security_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/src/tskv/security_config.rs b/config/src/tskv/security_config.rs
index 7a71dd9..e63389e 100644
--- a/config/src/tskv/security_config.rs
+++ b/config/src/tskv/security_config.rs
@@ -21,9 +21,9 @@ impl CheckConfig for SecurityConfig {
         }
 
         if ret.is_empty() {
-            Some(ret)
-        } else {
             None
+        } else {
+            Some(ret)
         }
     }
 }
-- 
2.43.0


From 4098af9b17354adf6d261307d1f79ec177b930ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 09/87] fix: the streamed error body is valid JSON whatever the
 message holds

---
 common/http_protocol/src/response.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/common/http_protocol/src/response.rs b/common/http_protocol/src/response.rs
index 36234a2..5f117e6 100644
--- a/common/http_protocol/src/response.rs
+++ b/common/http_protocol/src/response.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 
 use derive_traits::ErrorCode;
 pub use reqwest::Response;
@@ -34,11 +34,32 @@ impl Display for ErrorResponse {
         write!(
             f,
             "{{\"error_code\": \"{}\", \"error_message\": \"{}\"}}",
-            self.error_code, self.error_message
+            JsonEscaped(&self.error_code),
+            JsonEscaped(&self.error_message)
         )
     }
 }
 
+/// The content of a JSON string.
+struct JsonEscaped<'a>(&'a str);
+
+impl Display for JsonEscaped<'_> {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        for c in self.0.chars() {
+            match c {
+                '"' => f.write_str("\\\"")?,
+                '\\' => f.write_str("\\\\")?,
+                '\n' => f.write_str("\\n")?,
+                '\r' => f.write_str("\\r")?,
+                '\t' => f.write_str("\\t")?,
+                c if c < ' ' => write!(f, "\\u{:04x}", c as u32)?,
+                c => f.write_char(c)?,
+            }
+        }
+        Ok(())
+    }
+}
+
 impl ErrorCode for ErrorResponse {
     fn code(&self) -> &'static str {
         Box::leak(self.error_code.clone().into_boxed_str())
-- 
2.43.0


From b7a6a0c0aba6786898e0047151c2f9aab2eadddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:01 +0000
Subject: [PATCH 10/87] fix: HTTP_HOST and HTTP_PORT instructions set the
 node's address instead of switching protocol

---
 query_server/sqllogicaltests/src/db_request.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query_server/sqllogicaltests/src/db_request.rs b/query_server/sqllogicaltests/src/db_request.rs
index 7669f1d..3ad18b7 100644
--- a/query_server/sqllogicaltests/src/db_request.rs
+++ b/query_server/sqllogicaltests/src/db_request.rs
@@ -132,7 +132,8 @@ impl CnosdbRequest {
                     protocol,
                     RequestBody::OpenTSDBJson(block),
                 ));
-            } else if instruction_match("HTTP", line) {
+            } else if instruction_match("HTTP", line) && !instruction_match("HTTP_", line) {
+                // `HTTP_HOST` and `HTTP_PORT` are connection options, not the protocol switch
                 protocol = Protocol::Http;
             } else if instruction_match("", line) {
                 options.apply_instruction(line)
-- 
2.43.0


From 17227c8352251590063d2d582715a9dd5ebf6ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 11/87] fix: an empty field value of the line protocol is an
 error, not a panic

---
 common/protocol_parser/src/line_protocol/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/protocol_parser/src/line_protocol/parser.rs b/common/protocol_parser/src/line_protocol/parser.rs
index 377d829..17d50be 100644
--- a/common/protocol_parser/src/line_protocol/parser.rs
+++ b/common/protocol_parser/src/line_protocol/parser.rs
@@ -326,11 +326,11 @@ fn escape(s: &[u8], need_unescape: bool) -> Result<Cow<str>> {
 }
 
 fn parse_field_value(buf: &[u8], need_unescape: bool) -> Result<FieldValue> {
-    match buf[0] {
-        b't' | b'T' => parse_boolean_field(buf, true),
-        b'f' | b'F' => parse_boolean_field(buf, false),
-        b'"' => parse_string_field(buf, need_unescape),
-        b'+' | b'-' | b'0'..=b'9' => parse_numeric_field(buf),
+    match buf.first() {
+        Some(b't' | b'T') => parse_boolean_field(buf, true),
+        Some(b'f' | b'F') => parse_boolean_field(buf, false),
+        Some(b'"') => parse_string_field(buf, need_unescape),
+        Some(b'+' | b'-' | b'0'..=b'9') => parse_numeric_field(buf),
         _ => Err(Error::FieldValue {
             content: u8_slice_to_str_unchecked(buf).to_owned(),
         }),
-- 
2.43.0


From 55d0e380d86834b0d2a77e3812e1bfb74393fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 12/87] fix: OpenTSDB values keep their fraction and exponent

---
 common/protocol_parser/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/protocol_parser/src/lib.rs b/common/protocol_parser/src/lib.rs
index fc58010..b95eb02 100644
--- a/common/protocol_parser/src/lib.rs
+++ b/common/protocol_parser/src/lib.rs
@@ -266,10 +266,10 @@ fn next_tag_set(buf: &str) -> NextTagRes {
 fn next_value(buf: &str) -> Option<(&str, usize)> {
     let mut exists_timestamp = false;
     let (mut tok_begin, mut tok_end) = (0, buf.len());
-    for (i, c) in buf.chars().enumerate() {
+    for (i, c) in buf.char_indices() {
         if exists_timestamp {
             // Timestamp end character
-            if !c.is_numeric() {
+            if c.is_ascii_whitespace() {
                 tok_end = i;
                 break;
             }
-- 
2.43.0


From d77b3525eca4b799b698a341dabd8db845bd9316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 13/87] fix: an OpenTSDB write may hold more than one line

---
 common/protocol_parser/src/open_tsdb/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index e1a2327..100e8b7 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -19,11 +19,11 @@ impl Parser {
 
     pub fn parse<'a>(&self, lines: &'a str) -> Result<Vec<Line<'a>>> {
         let mut ret: Vec<Line> = Vec::new();
-        let mut pos = 0_usize;
-        while let Some((mut line, offset)) = self.next_line(lines, pos)? {
-            line.sort_dedup_and_hash();
-            ret.push(line);
-            pos += offset;
+        for line_raw in lines.lines() {
+            if let Some((mut line, _)) = self.next_line(line_raw, 0)? {
+                line.sort_dedup_and_hash();
+                ret.push(line);
+            }
         }
         Ok(ret)
     }
-- 
2.43.0


From ff282f30aefad14bf1568432ba296c9dd4b09451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 14/87] fix: OpenTSDB metric and tag names keep their leading
 punctuation

---
 common/protocol_parser/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/protocol_parser/src/lib.rs b/common/protocol_parser/src/lib.rs
index b95eb02..4a9d5b8 100644
--- a/common/protocol_parser/src/lib.rs
+++ b/common/protocol_parser/src/lib.rs
@@ -160,7 +160,7 @@ fn next_metric(buf: &str) -> Option<(&str, usize)> {
             }
         } else {
             // Measurement begin character
-            if c.is_alphanumeric() {
+            if !c.is_ascii_whitespace() {
                 exists_metric = true;
                 tok_begin = i;
             }
@@ -179,7 +179,7 @@ fn next_metric(buf: &str) -> Option<(&str, usize)> {
 }
 
 fn is_tagset_character(c: char) -> bool {
-    c.is_alphanumeric() || c == '\\'
+    !c.is_ascii_whitespace()
 }
 
 fn next_tag_set(buf: &str) -> NextTagRes {
-- 
2.43.0


From 8a6565bb097324d60ac03342153960974170f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 15/87] fix: a malformed OpenTSDB tag refuses the line instead
 of panicking or losing tags

---
 common/protocol_parser/src/lib.rs | 40 ++++++++++++++-----------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/common/protocol_parser/src/lib.rs b/common/protocol_parser/src/lib.rs
index 4a9d5b8..5411d08 100644
--- a/common/protocol_parser/src/lib.rs
+++ b/common/protocol_parser/src/lib.rs
@@ -182,6 +182,22 @@ fn is_tagset_character(c: char) -> bool {
     !c.is_ascii_whitespace()
 }
 
+/// Take the tag `buf[offsets[0]..offsets[1]] = buf[offsets[2]..end]`.
+fn take_tag(buf: &str, offsets: [usize; 3], end: usize) -> Result<(Cow<str>, Cow<str>)> {
+    if offsets[0] >= offsets[1] || offsets[2] >= end {
+        return Err(Error::Common {
+            content: format!(
+                "tag missing name or value in next_tag_set, buf : {}",
+                buf.get(0..30).unwrap_or(buf)
+            ),
+        });
+    }
+    Ok((
+        Cow::Borrowed(&buf[offsets[0]..offsets[1]]),
+        Cow::Borrowed(&buf[offsets[2]..end]),
+    ))
+}
+
 fn next_tag_set(buf: &str) -> NextTagRes {
     let mut escaped = false;
     let mut exists_tag_set = false;
@@ -204,19 +220,10 @@ fn next_tag_set(buf: &str) -> NextTagRes {
         if exists_tag_set {
             if !escaped && c == '=' {
                 tok_offsets[1] = i;
-                if buf.len() <= i + 1 {
-                    return Ok(None);
-                }
                 tok_offsets[2] = i + 1;
             }
             if !escaped && c == ',' {
-                tag_set.push((
-                    Cow::Borrowed(&buf[tok_offsets[0]..tok_offsets[1]]),
-                    Cow::Borrowed(&buf[tok_offsets[2]..i]),
-                ));
-                if buf.len() <= i + 1 {
-                    return Ok(None);
-                }
+                tag_set.push(take_tag(buf, tok_offsets, i)?);
                 tok_offsets[0] = i + 1;
             }
 
@@ -245,18 +252,7 @@ fn next_tag_set(buf: &str) -> NextTagRes {
                 tok_end -= 1;
             }
         }
-        if tok_offsets[0] == tok_offsets[1] {
-            return Err(Error::Common {
-                content: format!(
-                    "tag missing name in next_tag_set, buf : {}",
-                    buf.get(0..30).unwrap_or(buf)
-                ),
-            });
-        }
-        tag_set.push((
-            Cow::Borrowed(&buf[tok_offsets[0]..tok_offsets[1]]),
-            Cow::Borrowed(&buf[tok_offsets[2]..tok_end]),
-        ));
+        tag_set.push(take_tag(buf, tok_offsets, tok_end)?);
         Ok(Some((tag_set, tok_end + 1)))
     } else {
         Ok(None)
-- 
2.43.0


From 193c3c33b0fee83f27cdd9a2859e94a18e6c3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 16/87] fix: the OpenTSDB telnet feed takes whole lines only
 and consumes exactly them

---
 common/protocol_parser/src/open_tsdb/parser.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/open_tsdb/parser.rs b/common/protocol_parser/src/open_tsdb/parser.rs
index 100e8b7..02d86c3 100644
--- a/common/protocol_parser/src/open_tsdb/parser.rs
+++ b/common/protocol_parser/src/open_tsdb/parser.rs
@@ -113,13 +113,15 @@ impl Parser {
         let lines = std::str::from_utf8(buf).map_err(|e| Error::Common {
             content: format!("Invalid Point: {}", e),
         })?;
-        let lines = lines.split("\r\n").collect::<Vec<&str>>();
-        for line_raw in lines {
+        // Only a terminated line is complete, the rest of it may still be on the way.
+        while let Some(len) = lines[pos..].find('\n') {
+            let line_raw = &lines[pos..pos + len];
+            let line_raw = line_raw.strip_suffix('\r').unwrap_or(line_raw);
             if let Some(mut line) = self.next_tcp_line(line_raw)? {
                 line.sort_dedup_and_hash();
                 ret.push(line);
-                pos += line_raw.len() + 2;
             }
+            pos += len + 1;
         }
         Ok((ret, pos))
     }
-- 
2.43.0


From 7b9917f54e8af1eb736dee153d74a8f4ba3cf31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 17/87] fix: a batch refuses one column used with two types
 instead of corrupting it

---
 common/models/src/mutable_batch.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/common/models/src/mutable_batch.rs b/common/models/src/mutable_batch.rs
index 908cc1c..f33857d 100644
--- a/common/models/src/mutable_batch.rs
+++ b/common/models/src/mutable_batch.rs
@@ -33,7 +33,19 @@ impl<'a> MutableBatch<'a> {
         col_type: PhysicalCType,
     ) -> ModelResult<&mut Column<'a>> {
         let column_idx = match self.column_names.get(name) {
-            Some(column_idx) => *column_idx,
+            Some(column_idx) => {
+                let exists_type = &self.columns[*column_idx].column_type;
+                if *exists_type != col_type {
+                    return Err(CommonSnafu {
+                        msg: format!(
+                            "column '{}' is used as both {:?} and {:?}",
+                            name, exists_type, col_type
+                        ),
+                    }
+                    .build());
+                }
+                *column_idx
+            }
             None => {
                 let column_idx = self.columns.len();
                 self.column_names.insert(name.to_string(), column_idx);
-- 
2.43.0


From 8fadbe7c3a8ca11ddac9035abfde1d63aa5dbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 18/87] fix: out-of-range times of Loki entries and OTLP spans
 do not overflow

---
 common/protocol_parser/src/json_protocol/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 1eb6f63..2aa1194 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -201,7 +201,13 @@ pub fn parse_protobuf_to_lokilog(req: Bytes) -> Result<Vec<JsonProtocol>> {
         );
         for entry in stream.entries {
             let ts = entry.timestamp.unwrap_or_default();
-            let timestamp: i64 = ts.seconds * 1_000_000_000 + ts.nanos as i64;
+            let timestamp = ts
+                .seconds
+                .checked_mul(1_000_000_000)
+                .and_then(|nanos| nanos.checked_add(ts.nanos as i64))
+                .ok_or_else(|| Error::Common {
+                    content: "Out of the time frame that can be saved".to_string(),
+                })?;
 
             fields.insert(
                 "time".to_string(),
@@ -475,7 +481,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                     );
                     prefix.pop();
                 }
-                let duration_nano = span.end_time_unix_nano - span.start_time_unix_nano;
+                let duration_nano = span
+                    .end_time_unix_nano
+                    .saturating_sub(span.start_time_unix_nano);
                 fields.insert(
                     prefix.join("") + "duration_nano",
                     serde_json::Value::Number(duration_nano.into()),
-- 
2.43.0


From d7c85a9d3ef50a82d1233a98cc8f2d28d1a098bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 19/87] fix: JSON tag values are stored as they are, not as
 their JSON escapes

---
 common/protocol_parser/src/json_protocol/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 2aa1194..0e7a194 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -513,7 +513,10 @@ pub fn parse_to_line<'a>(
     let mut fields = vec![];
     for (key, value) in value.get_fields() {
         if tag_columns.contains(&key.as_str()) {
-            let value = value.to_string().trim_matches('"').to_owned();
+            let value = match value {
+                serde_json::Value::String(value) => value.clone(),
+                _ => value.to_string(),
+            };
             tags.push((Cow::Borrowed(key.as_str()), Cow::Owned(value)));
         } else if time_column.eq(key) {
             match value {
-- 
2.43.0


From e2ba4d0d535b9e55ca30bfde5296f9a6816b26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:51 +0000
Subject: [PATCH 20/87] fix: JSON log lines carry their series hash like every
 other protocol

---
 common/protocol_parser/src/json_protocol/parser.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index 0e7a194..f6a4660 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -562,11 +562,5 @@ pub fn parse_to_line<'a>(
         }
     }
 
-    Ok(Line {
-        hash_id: 0,
-        table: Cow::Borrowed(table),
-        tags,
-        fields,
-        timestamp,
-    })
+    Ok(Line::new(Cow::Borrowed(table), tags, fields, timestamp))
 }
-- 
2.43.0


From 9b6ba84187b6fee937ee3f808c23dba72b797c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 21/87] fix: an OTLP span carries the attributes of its own
 resource and scope only

---
 common/protocol_parser/src/json_protocol/parser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/common/protocol_parser/src/json_protocol/parser.rs b/common/protocol_parser/src/json_protocol/parser.rs
index f6a4660..1ecf6b4 100644
--- a/common/protocol_parser/src/json_protocol/parser.rs
+++ b/common/protocol_parser/src/json_protocol/parser.rs
@@ -228,10 +228,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
         })?;
 
     let mut logs = Vec::new();
-    let mut fields = BTreeMap::new();
     for resource_span in export_trace_req.resource_spans {
         let mut prefix = vec!["ResourceSpans/".to_string()];
-        fields.clear();
+        let mut fields = BTreeMap::new();
         if let Some(resource) = resource_span.resource {
             prefix.push("Resource/".to_string());
             for attribute in resource.attributes {
@@ -269,7 +268,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
             prefix.join("") + "schema_url",
             serde_json::Value::String(resource_span.schema_url),
         );
+        let resource_fields = fields;
         for scope_span in resource_span.scope_spans {
+            fields = resource_fields.clone();
             prefix.push("ScopeSpans/".to_string());
             if let Some(scope) = scope_span.scope {
                 prefix.push("InstrumentationScope/".to_string());
@@ -308,7 +309,9 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                 prefix.join("") + "schema_url",
                 serde_json::Value::String(scope_span.schema_url),
             );
+            let scope_fields = fields;
             for span in scope_span.spans {
+                fields = scope_fields.clone();
                 prefix.push("Span/".to_string());
                 fields.insert(
                     prefix.join("") + "trace_id",
@@ -488,7 +491,7 @@ pub fn parse_protobuf_to_otlptrace(req: Bytes) -> Result<Vec<JsonProtocol>> {
                     prefix.join("") + "duration_nano",
                     serde_json::Value::Number(duration_nano.into()),
                 );
-                logs.push(fields.clone());
+                logs.push(fields);
                 prefix.pop();
             }
             prefix.pop();
-- 
2.43.0


From 66084d5a648cc72553b03a98105d3552ef01c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:15 +0000
Subject: [PATCH 22/87] fix: a memory pool over its limit or an enormous
 request is refused without overflow

---
 common/memory_pool/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/common/memory_pool/src/lib.rs b/common/memory_pool/src/lib.rs
index 723f57f..5f9d8a2 100644
--- a/common/memory_pool/src/lib.rs
+++ b/common/memory_pool/src/lib.rs
@@ -47,11 +47,15 @@ impl MemoryPool for GreedyMemoryPool {
     fn try_grow(&self, reservation: &MemoryReservation, additional: usize) -> Result<()> {
         self.used
             .fetch_update(Ordering::Relaxed, Ordering::Relaxed, |used| {
-                let new_used = used + additional;
-                (new_used <= self.pool_size).then_some(new_used)
+                used.checked_add(additional)
+                    .filter(|new_used| *new_used <= self.pool_size)
             })
             .map_err(|used| {
-                insufficient_capacity_err(reservation, additional, self.pool_size - used)
+                insufficient_capacity_err(
+                    reservation,
+                    additional,
+                    self.pool_size.saturating_sub(used),
+                )
             })?;
         // add warn message, for CAICT test
         if self
-- 
2.43.0


From 3483a94f5a3d1ec70426a5ed2c27b95308e2fe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 23/87] fix: range bounds at one value are ordered, so unions
 and intersections keep its inclusion

---
 common/models/src/predicate/domain.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 1b77b13..676634c 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -421,7 +421,7 @@ impl Display for TimeRanges {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
 enum Bound {
     /// lower than the value, but infinitesimally close to the value.
     Below,
@@ -663,7 +663,11 @@ impl Ord for Marker {
         let self_data = self.value.as_ref().unwrap();
         let other_data = other.value.as_ref().unwrap();
 
-        self_data.partial_cmp(other_data).unwrap()
+        // Just below, exactly and just above one value are three points in this order.
+        self_data
+            .partial_cmp(other_data)
+            .unwrap()
+            .then_with(|| self.bound.cmp(&other.bound))
     }
 }
 
@@ -886,13 +890,6 @@ impl Range {
     fn overlaps(&self, other: &Self) -> ModelResult<bool> {
         self.check_type_compatibility(other)?;
         if self.low <= other.high && other.low <= self.high {
-            // like (-∞, 2) and (2, +∞) is not overlap
-            if self.high == other.low
-                && self.high.bound == Bound::Below
-                && other.low.bound == Bound::Above
-            {
-                return Ok(false);
-            }
             return Ok(true);
         }
         Ok(false)
-- 
2.43.0


From 465a3042bda1efc8b8e0c8566b3a07ab131a0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 24/87] fix: a time range beyond the last timestamp is empty,
 not everything

---
 common/models/src/predicate/domain.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 676634c..6fe92ad 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -43,17 +43,21 @@ impl From<(StdBound<i64>, StdBound<i64>)> for TimeRange {
     // TODO: Using TimeRange { min_ts: Bound, max_ts: Bound }
     fn from(range: (StdBound<i64>, StdBound<i64>)) -> Self {
         let min_ts = match range.0 {
-            StdBound::Excluded(v) => v + 1,
-            StdBound::Included(v) => v,
-            _ => Timestamp::MIN,
+            StdBound::Excluded(v) => v.checked_add(1),
+            StdBound::Included(v) => Some(v),
+            _ => Some(Timestamp::MIN),
         };
         let max_ts = match range.1 {
-            StdBound::Excluded(v) => v - 1,
-            StdBound::Included(v) => v,
-            _ => Timestamp::MAX,
+            StdBound::Excluded(v) => v.checked_sub(1),
+            StdBound::Included(v) => Some(v),
+            _ => Some(Timestamp::MAX),
         };
 
-        TimeRange { min_ts, max_ts }
+        match (min_ts, max_ts) {
+            (Some(min_ts), Some(max_ts)) => TimeRange { min_ts, max_ts },
+            // Nothing lies beyond the first or the last timestamp.
+            _ => TimeRange::none(),
+        }
     }
 }
 
-- 
2.43.0


From a6e5fa0e2412c086b773bd5a6dbe0c79053c7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 25/87] fix: excluding a time range up to the last timestamp
 leaves nothing of it

---
 common/models/src/predicate/domain.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 6fe92ad..658f1c1 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -174,7 +174,17 @@ impl TimeRange {
                 if min_ts > tmp_tr_min_ts {
                     remained_ranges.push((tmp_tr_min_ts, min_ts - 1).into());
                 }
-                tmp_tr_min_ts = max_ts.checked_add(1).unwrap_or(max_ts);
+                match max_ts.checked_add(1) {
+                    Some(ts) => tmp_tr_min_ts = ts,
+                    // Nothing remains beyond the last timestamp.
+                    None => {
+                        return if remained_ranges.is_empty() {
+                            None
+                        } else {
+                            Some(TimeRanges::new(remained_ranges))
+                        }
+                    }
+                }
             }
         }
         if tmp_tr_min_ts <= self.max_ts {
-- 
2.43.0


From 32ff08c6ce560f8f2851f64fefef6de1d306d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 26/87] fix: time ranges with a gap are not boundless, and
 empty ones are not kept

---
 common/models/src/predicate/domain.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 658f1c1..102462e 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -248,6 +248,9 @@ pub struct TimeRanges {
 
 impl TimeRanges {
     fn add_time_range(&mut self, time_range: TimeRange) {
+        if time_range.is_none() {
+            return;
+        }
         self.min_ts = min(self.min_ts, time_range.min_ts);
         self.max_ts = max(self.max_ts, time_range.max_ts);
         let timestamps = self
@@ -356,7 +359,7 @@ impl TimeRanges {
     }
 
     pub fn is_boundless(&self) -> bool {
-        self.min_ts == Timestamp::MIN && self.max_ts == Timestamp::MAX
+        self.inner.get(&Timestamp::MIN) == Some(&Timestamp::MAX)
     }
 
     pub fn overlaps(&self, time_range: &TimeRange) -> bool {
-- 
2.43.0


From af841dda3460b2a4c8b5c0cb496beca2034d37bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 27/87] fix: a comparison with a typed NULL is not pushed down

---
 common/models/src/predicate/transformation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 5a47d64..ec4d724 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -71,7 +71,7 @@ impl NormalizedSimpleComparison {
         }
         .and_then(|e| {
             // not support null with column of binary op
-            if matches!(e.value, ScalarValue::Null | ScalarValue::Utf8(None)) {
+            if e.value.is_null() {
                 return None;
             }
             Some(e)
-- 
2.43.0


From a1a30bd76bb2b063680ba830f846c1957de60e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 28/87] fix: a comparison with a casted column is not pushed
 down as one with the column

---
 common/models/src/predicate/transformation.rs | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index ec4d724..9388936 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -335,18 +335,18 @@ impl RowExpressionToDomainsVisitor<'_> {
         op: &Operator,
         right: &Expr,
     ) {
-        let domains_opt = NormalizedSimpleComparison::of(left.clone(), *op, right.clone())
-            .map(|ref nsc| {
-                if nsc.is_orderable() {
-                    return Self::nsc_to_column_domains_with_range(nsc);
-                }
-                Self::nsc_to_domains_with_equtable(nsc)
-            })
-            .or_else(|| Some(ColumnDomains::all()));
+        // The literal is compared with the casted value, which says nothing about the column's own.
+        let domains = if matches!((left, right), (Expr::Cast(_), _) | (_, Expr::Cast(_))) {
+            ColumnDomains::all()
+        } else {
+            match NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
+                Some(ref nsc) if nsc.is_orderable() => Self::nsc_to_column_domains_with_range(nsc),
+                Some(ref nsc) => Self::nsc_to_domains_with_equtable(nsc),
+                None => ColumnDomains::all(),
+            }
+        };
 
-        if let Some(domains) = domains_opt {
-            ctx.current_domain_stack.push_back(domains);
-        }
+        ctx.current_domain_stack.push_back(domains);
     }
 }
 
-- 
2.43.0


From 8c5d732309e87e204adb5edf917ff3a6cf9d7db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 29/87] fix: ordering comparisons of booleans are not pushed
 down as inequality

---
 common/models/src/predicate/transformation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 9388936..05b68fb 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -318,8 +318,13 @@ impl RowExpressionToDomainsVisitor<'_> {
     fn nsc_to_domains_with_equtable(nsc: &NormalizedSimpleComparison) -> ColumnDomains<Column> {
         let col = &nsc.column;
         let value = &nsc.value;
-        let is_eq_op = nsc.is_eq_op();
-        let val_set = Domain::of_values(&value.get_datatype(), is_eq_op, &[value]);
+        let val_set = match nsc.op {
+            Operator::Eq | Operator::NotEq => {
+                Domain::of_values(&value.get_datatype(), nsc.is_eq_op(), &[value])
+            }
+            // Values without an order give no set of values.
+            _ => Domain::All,
+        };
         ColumnDomains::of(col.to_owned(), &val_set)
     }
     /// Construct comparison operations as simple column-value comparison data structures nsc.
-- 
2.43.0


From 4983710e5be5d5eb6c385fbd62412144428f80dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:25 +0000
Subject: [PATCH 30/87] fix: domains of different types of one column no longer
 rule out every row

---
 common/models/src/predicate/domain.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 102462e..972a817 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -1539,7 +1539,10 @@ impl<T: Eq + Hash + Clone> ColumnDomains<T> {
                 map2.iter().for_each(|(k2, v2)| {
                     map1.entry(k2.clone())
                         .and_modify(|v1| {
-                            *v1 = v1.intersect(v2).unwrap_or(Domain::None);
+                            // Domains that cannot be combined leave the wider one.
+                            if let Ok(v) = v1.intersect(v2) {
+                                *v1 = v;
+                            }
                         })
                         .or_insert_with(|| v2.clone());
                 });
@@ -1585,9 +1588,7 @@ impl<T: Eq + Hash + Clone> ColumnDomains<T> {
             .get_or_insert(HashMap::default())
             .entry(col)
             .and_modify(|e| {
-                if let Ok(v) = e.union(domain) {
-                    *e = v;
-                }
+                *e = e.union(domain).unwrap_or(Domain::All);
             })
             .or_insert_with(|| domain.clone());
     }
@@ -1596,7 +1597,9 @@ impl<T: Eq + Hash + Clone> ColumnDomains<T> {
         if let Some(map) = self.column_to_domain.as_mut() {
             map.entry(col)
                 .and_modify(|e| {
-                    *e = e.intersect(domain).unwrap_or(Domain::None);
+                    if let Ok(v) = e.intersect(domain) {
+                        *e = v;
+                    }
                 })
                 .or_insert_with(|| domain.clone());
         }
-- 
2.43.0


From ec7d0ef0fe7fd6cec1bac9cebda0112055452c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:33 +0000
Subject: [PATCH 31/87] fix: a delete selection combines all its comparisons
 and refuses what has no domain

---
 common/models/src/predicate/transformation.rs | 124 +++++++-----------
 1 file changed, 49 insertions(+), 75 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 05b68fb..422bbbe 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashMap, VecDeque};
 use std::result;
 
 use datafusion::arrow::datatypes::DataType;
@@ -355,67 +355,36 @@ impl RowExpressionToDomainsVisitor<'_> {
     }
 }
 
-#[derive(Clone, Default)]
 struct DeleteSelectionExpressionToDomainsVisitorContext {
-    is_time_domain_stack: VecDeque<bool>,
-    tag_domain_stack: VecDeque<ColumnDomains<String>>,
-    time_domain_stack: VecDeque<ColumnDomains<String>>,
+    tag_domains: ColumnDomains<String>,
+    time_domains: ColumnDomains<String>,
+    /// Data types the columns were compared with.
+    value_types: HashMap<String, DataType>,
 }
 
-impl DeleteSelectionExpressionToDomainsVisitorContext {
-    pub fn push_back(&mut self, domain: ColumnDomains<String>, is_time_domain: bool) {
-        self.is_time_domain_stack.push_back(is_time_domain);
-        if is_time_domain {
-            trace::trace!("push time {domain}");
-            self.time_domain_stack.push_back(domain);
-        } else {
-            trace::trace!("push tag {domain}");
-            self.tag_domain_stack.push_back(domain);
+impl Default for DeleteSelectionExpressionToDomainsVisitorContext {
+    fn default() -> Self {
+        Self {
+            tag_domains: ColumnDomains::all(),
+            time_domains: ColumnDomains::all(),
+            value_types: HashMap::new(),
         }
     }
+}
 
-    pub fn try_intersect_top2_domains(&mut self) {
-        let domain1_is_time_opt = self.is_time_domain_stack.pop_back();
-        let domain2_is_time_opt = self.is_time_domain_stack.back();
-        match (domain1_is_time_opt, domain2_is_time_opt) {
-            (Some(domain1_is_time), Some(domain2_is_time)) => {
-                if domain1_is_time == *domain2_is_time {
-                    if domain1_is_time {
-                        // Last two is tag domains
-                        let mut domains1 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.time_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push time {domains1}");
-                        self.time_domain_stack.push_back(domains1);
-                    } else {
-                        // Last two is tag domains
-                        let mut domains1 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains1}");
-                        let domains2 = self.tag_domain_stack.pop_back().unwrap();
-                        println!("pop time {domains2}");
-                        domains1.intersect(&domains2);
-                        println!("push tag {domains1}");
-                        self.tag_domain_stack.push_back(domains1);
-                    }
-                }
-            }
-            (Some(t1), None) => self.is_time_domain_stack.push_back(t1),
-            _ => {}
+impl DeleteSelectionExpressionToDomainsVisitorContext {
+    /// Add a comparison. All of them have to be satisfied, `AND` is the only connective.
+    pub fn intersect(&mut self, nsc: &NormalizedSimpleComparison, domains: &ColumnDomains<String>) {
+        if nsc.column.name == TIME_FIELD_NAME {
+            self.time_domains.intersect(domains);
+        } else {
+            self.tag_domains.intersect(domains);
         }
     }
 
     /// Returns two column domains: tag and time.
-    pub fn into_tag_and_time_domains(mut self) -> (ColumnDomains<String>, ColumnDomains<String>) {
-        (
-            self.tag_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-            self.time_domain_stack
-                .pop_back()
-                .unwrap_or(ColumnDomains::all()),
-        )
+    pub fn into_tag_and_time_domains(self) -> (ColumnDomains<String>, ColumnDomains<String>) {
+        (self.tag_domains, self.time_domains)
     }
 }
 
@@ -481,16 +450,12 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                     | Operator::GtEq => match (left.as_ref(), right.as_ref()) {
                         (Expr::Column(_), Expr::Literal(_))
                         | (Expr::Literal(_), Expr::Column(_)) => {
-                            Self::construct_value_set_and_push_domain_stack(
-                                self.ctx, left, op, right,
-                            );
+                            Self::construct_value_set_and_intersect(self.ctx, left, op, right)?;
                         }
                         (Expr::Literal(_), Expr::Cast(expr))
                         | (Expr::Cast(expr), Expr::Literal(_)) => {
-                            if let Expr::Column(_) = *expr.expr {
-                                Self::construct_value_set_and_push_domain_stack(
-                                    self.ctx, left, op, right,
-                                );
+                            if matches!(*expr.expr, Expr::Column(_)) {
+                                Self::construct_value_set_and_intersect(self.ctx, left, op, right)?;
                             } else {
                                 return Err(DataFusionError::NotImplemented(format!(
                                     "{left} {op} {right} in delete statement"
@@ -503,10 +468,8 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
                             )))
                         }
                     },
-                    // The stack is domain, pop it, and generate a new domain
-                    Operator::And => {
-                        self.ctx.try_intersect_top2_domains();
-                    }
+                    // Both sides are intersected already.
+                    Operator::And => {}
                     _ => {
                         return Err(DataFusionError::NotImplemented(format!(
                             "{expr} in delete statement"
@@ -570,23 +533,34 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
     ///
     /// Convert nsc to ValueSet via NscToValueSet function
     ///
-    /// Push the domain into the stack
-    fn construct_value_set_and_push_domain_stack(
+    /// Intersect the domains with those of the preceding comparisons.
+    fn construct_value_set_and_intersect(
         ctx: &mut DeleteSelectionExpressionToDomainsVisitorContext,
         left: &Expr,
         op: &Operator,
         right: &Expr,
-    ) {
-        if let Some(nsc) = NormalizedSimpleComparison::of(left.clone(), *op, right.clone()) {
-            let domains = if nsc.is_orderable() {
-                Self::nsc_to_string_domains_with_range(&nsc)
-            } else {
-                Self::nsc_to_domains_with_equtable(&nsc)
-            };
-            ctx.push_back(domains, nsc.column.name == TIME_FIELD_NAME);
+    ) -> Result<()> {
+        let nsc = NormalizedSimpleComparison::of(left.clone(), *op, right.clone())
+            // A delete must not affect other rows than the selected, what has no domain is refused.
+            .filter(|nsc| {
+                let value_type = nsc.value.get_datatype();
+                (nsc.is_orderable() || matches!(op, Operator::Eq | Operator::NotEq))
+                    && *ctx
+                        .value_types
+                        .entry(nsc.column.name.clone())
+                        .or_insert_with(|| value_type.clone())
+                        == value_type
+            })
+            .ok_or_else(|| {
+                DataFusionError::NotImplemented(format!("{left} {op} {right} in delete statement"))
+            })?;
+        let domains = if nsc.is_orderable() {
+            Self::nsc_to_string_domains_with_range(&nsc)
         } else {
-            println!("push nothing!");
-        }
+            Self::nsc_to_domains_with_equtable(&nsc)
+        };
+        ctx.intersect(&nsc, &domains);
+        Ok(())
     }
 }
 
-- 
2.43.0


From b3b6cb8279f0056d3b687dde729ab00f595450a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:11 +0000
Subject: [PATCH 32/87] fix: a comparison of comparisons pushes one domain, not
 those of its operands too

---
 common/models/src/predicate/transformation.rs | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 422bbbe..937f047 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -188,9 +188,9 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
             // | Expr::GetIndexedField { .. } => {}
             Expr::Column(_) | Expr::Literal(_) => Ok(VisitRecursion::Continue),
             Expr::BinaryExpr(BinaryExpr {
-                left: _,
+                left,
                 op,
-                right: _,
+                right,
             }) => {
                 match op {
                     Operator::Eq
@@ -198,9 +198,14 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
                     | Operator::Lt
                     | Operator::LtEq
                     | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And
-                    | Operator::Or => {
+                    | Operator::GtEq => {
+                        // One domain for the comparison, whatever its operands contain.
+                        Self::construct_value_set_and_push_current_domain_stack(
+                            self.ctx, left, op, right,
+                        );
+                        Ok(VisitRecursion::Skip)
+                    }
+                    Operator::And | Operator::Or => {
                         // support
                         Ok(VisitRecursion::Continue)
                     }
@@ -239,19 +244,8 @@ impl TreeNodeVisitor for RowExpressionToDomainsVisitor<'_> {
 
     fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
         match expr {
-            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
+            Expr::BinaryExpr(BinaryExpr { op, .. }) => {
                 match op {
-                    // stack中为expr，清空，生成domain
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq => {
-                        Self::construct_value_set_and_push_current_domain_stack(
-                            self.ctx, left, op, right,
-                        );
-                    }
                     // The stack is domain, pop it, and generate a new domain
                     Operator::And => {
                         let domain1_opt = self.ctx.current_domain_stack.pop_back();
-- 
2.43.0


From 32ab60ad8b5ed894f83d1cf447d7cc8aaa544258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 33/87] fix: a set of values in a predicate can be decoded

---
 common/models/src/predicate/domain.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/common/models/src/predicate/domain.rs b/common/models/src/predicate/domain.rs
index 972a817..fd0031b 100644
--- a/common/models/src/predicate/domain.rs
+++ b/common/models/src/predicate/domain.rs
@@ -1000,7 +1000,19 @@ impl<'a> Deserialize<'a> for ValueEntry {
     where
         D: serde::Deserializer<'a>,
     {
-        deserializer.deserialize_struct("ValueEntry", &["data_type", "value"], ValueEntryVisitor)
+        #[derive(Deserialize)]
+        struct ValueEntrySerialize {
+            data_type: DataType,
+            value: Vec<u8>,
+        }
+
+        let ValueEntrySerialize { data_type, value } =
+            ValueEntrySerialize::deserialize(deserializer)?;
+        let value: protobuf::ScalarValue =
+            parse_prost_bytes(&value).map_err(serde::de::Error::custom)?;
+        let value = ScalarValue::try_from(&value).map_err(serde::de::Error::custom)?;
+
+        Ok(ValueEntry { data_type, value })
     }
 }
 
@@ -1010,16 +1022,6 @@ impl Display for ValueEntry {
     }
 }
 
-struct ValueEntryVisitor;
-
-impl<'de> Visitor<'de> for ValueEntryVisitor {
-    type Value = ValueEntry;
-
-    fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-        formatter.write_str("This Visitor expects to receive ValueEntry")
-    }
-}
-
 impl ValueEntry {
     pub fn value(&self) -> &ScalarValue {
         &self.value
-- 
2.43.0


From 03d84b721d7f9b5ec2025f7f4ce9b93b8ba2216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 34/87] fix: a delete selection with a part that has no domain
 is refused, not ignored

---
 common/models/src/predicate/transformation.rs | 97 +++++--------------
 1 file changed, 23 insertions(+), 74 deletions(-)

diff --git a/common/models/src/predicate/transformation.rs b/common/models/src/predicate/transformation.rs
index 937f047..ece9327 100644
--- a/common/models/src/predicate/transformation.rs
+++ b/common/models/src/predicate/transformation.rs
@@ -392,95 +392,34 @@ impl TreeNodeVisitor for DeleteSelectionExpressionToDomainsVisitor<'_> {
     type N = Expr;
 
     fn pre_visit(&mut self, expr: &Expr) -> Result<VisitRecursion> {
-        // Note: expressions that can be used as and/or child nodes need to be processed.
-        // Expressions returning boolean need to be processed, If the expression is not supported, push ColumnDomains::all() onto the stack.
-        // If the expression supports it, return Continue directly.
+        // A selection is a conjunction of comparisons, everything else is refused,
+        // because ignoring it would delete rows that are not selected.
         match expr {
-            Expr::Column(_) | Expr::Literal(_) | Expr::Cast(_) => Ok(VisitRecursion::Continue),
-            e @ Expr::BinaryExpr(BinaryExpr {
-                left: _,
-                op,
-                right: _,
-            }) => {
-                trace::trace!("pre visit binary expr: {e}");
+            Expr::Literal(ScalarValue::Boolean(Some(true))) => Ok(VisitRecursion::Continue),
+            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
+                trace::trace!("pre visit binary expr: {expr}");
                 match op {
                     Operator::Eq
                     | Operator::NotEq
                     | Operator::Lt
                     | Operator::LtEq
                     | Operator::Gt
-                    | Operator::GtEq
-                    | Operator::And => {
-                        // Supported
-                        Ok(VisitRecursion::Continue)
+                    | Operator::GtEq => {
+                        Self::construct_value_set_and_intersect(self.ctx, left, op, right)?;
+                        Ok(VisitRecursion::Skip)
                     }
+                    // Both sides are intersected.
+                    Operator::And => Ok(VisitRecursion::Continue),
                     other => Err(DataFusionError::NotImplemented(format!(
                         "operator {other} in delete statement"
                     ))),
                 }
             }
-            other => {
-                // self.ctx
-                //     .current_domain_stack
-                //     .push_back(ColumnDomains::all());
-                Err(DataFusionError::NotImplemented(format!(
-                    "{other} in delete statement"
-                )))
-            }
+            other => Err(DataFusionError::NotImplemented(format!(
+                "{other} in delete statement"
+            ))),
         }
     }
-
-    fn post_visit(&mut self, expr: &Expr) -> DFResult<VisitRecursion> {
-        match expr {
-            e @ Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
-                trace::trace!("post visit binary expr: {e}");
-                match op {
-                    // The stack is expression, clean and generate a new domain
-                    Operator::Eq
-                    | Operator::NotEq
-                    | Operator::Lt
-                    | Operator::LtEq
-                    | Operator::Gt
-                    | Operator::GtEq => match (left.as_ref(), right.as_ref()) {
-                        (Expr::Column(_), Expr::Literal(_))
-                        | (Expr::Literal(_), Expr::Column(_)) => {
-                            Self::construct_value_set_and_intersect(self.ctx, left, op, right)?;
-                        }
-                        (Expr::Literal(_), Expr::Cast(expr))
-                        | (Expr::Cast(expr), Expr::Literal(_)) => {
-                            if matches!(*expr.expr, Expr::Column(_)) {
-                                Self::construct_value_set_and_intersect(self.ctx, left, op, right)?;
-                            } else {
-                                return Err(DataFusionError::NotImplemented(format!(
-                                    "{left} {op} {right} in delete statement"
-                                )));
-                            }
-                        }
-                        _ => {
-                            return Err(DataFusionError::NotImplemented(format!(
-                                "{left} {op} {right} in delete statement"
-                            )))
-                        }
-                    },
-                    // Both sides are intersected already.
-                    Operator::And => {}
-                    _ => {
-                        return Err(DataFusionError::NotImplemented(format!(
-                            "{expr} in delete statement"
-                        )))
-                    }
-                }
-            }
-            Expr::Column(_) | Expr::Literal(_) | Expr::Cast(_) => {}
-            other => {
-                return Err(DataFusionError::NotImplemented(format!(
-                    "{other} in delete statement"
-                )))
-            }
-        }
-
-        Ok(VisitRecursion::Continue)
-    }
 }
 
 impl DeleteSelectionExpressionToDomainsVisitor<'_> {
@@ -534,7 +473,17 @@ impl DeleteSelectionExpressionToDomainsVisitor<'_> {
         op: &Operator,
         right: &Expr,
     ) -> Result<()> {
+        // The casts type coercion adds keep the value, others say nothing about it.
+        let keeps_value = |expr: &Expr| match expr {
+            Expr::Cast(cast) => match (cast.expr.as_ref(), &cast.data_type) {
+                (Expr::Column(c), DataType::Timestamp(_, _)) => c.name == TIME_FIELD_NAME,
+                (Expr::Column(c), DataType::Utf8) => c.name != TIME_FIELD_NAME,
+                _ => false,
+            },
+            _ => true,
+        };
         let nsc = NormalizedSimpleComparison::of(left.clone(), *op, right.clone())
+            .filter(|_| keeps_value(left) && keeps_value(right))
             // A delete must not affect other rows than the selected, what has no domain is refused.
             .filter(|nsc| {
                 let value_type = nsc.value.get_datatype();
-- 
2.43.0


From a7bc32f7175602787892b331ad8f10d1b2d8232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 35/87] fix: far apart timestamps no longer overflow the delta
 decoders

---
 tskv/src/tsm/codec/timestamp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index 8f463b2..fa0ac0b 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -204,7 +204,7 @@ fn decode_uncompressed_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<Arra
     }
 
     let mut i = 0;
-    let mut prev = 0;
+    let mut prev = 0_i64;
     let mut buf: [u8; 8] = [0; 8];
 
     let mut builder = Int64Builder::new();
@@ -215,7 +215,7 @@ fn decode_uncompressed_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<Arra
         }
         if i < src.len() {
             buf.copy_from_slice(&src[i..i + 8]);
-            prev += i64::from_be_bytes(buf);
+            prev = prev.wrapping_add(i64::from_be_bytes(buf));
             builder.append_value(prev);
             i += 8;
         }
@@ -283,11 +283,11 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     while idx < bit_set.len() {
         if bit_set.is_valid(idx) {
             if let Some(value) = value_iter.next() {
-                next += if scaler > 1 {
+                next = next.wrapping_add(if scaler > 1 {
                     (value * scaler) as i64
                 } else {
                     value as i64
-                };
+                });
                 builder.append_value(next);
             }
         } else {
-- 
2.43.0


From ef3e8b5d7469b83797adaa13b730326ba9b672ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 36/87] fix: the series of table m do not include those of
 table m.n

---
 tskv/src/index/engine2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/index/engine2.rs b/tskv/src/index/engine2.rs
index e86ea7f..967649d 100644
--- a/tskv/src/index/engine2.rs
+++ b/tskv/src/index/engine2.rs
@@ -266,6 +266,12 @@ impl IndexEngine2 {
                 .map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
             for val in it {
                 let val = val.map_err(|e| IndexStorageSnafu { msg: e.to_string() }.build())?;
+                // The prefix of table 'a' is also that of table 'a.b', whose keys have
+                // another '.' in front of the tag key.
+                let mut tag_key = val.0[prefix.len()..].split(|c| *c == b'=');
+                if tag_key.next().is_some_and(|k| k.contains(&b'.')) {
+                    continue;
+                }
                 let rb = RoaringBitmap::deserialize_from(val.1).context(RoaringBitmapSnafu)?;
                 bitmap = bitmap.bitor(rb);
             }
-- 
2.43.0


From 100942c7f54ec89ef783e7e12c290e9081a41bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 37/87] fix: rewriting cached rows keeps the newest value of
 equal timestamps newest

---
 tskv/src/mem_cache/row_data.rs    | 2 +-
 tskv/src/mem_cache/series_data.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 1ba8682..31a05dc 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -259,7 +259,7 @@ impl Clone for OrderedRowsData {
     fn clone(&self) -> Self {
         let mut clone_rows: OrderedSkipList<RowData> = OrderedSkipList::new();
         unsafe { clone_rows.sort_by(|a: &RowData, b: &RowData| a.partial_cmp(b).unwrap()) }
-        self.rows.iter().for_each(|row| {
+        self.rows.iter().rev().for_each(|row| {
             clone_rows.insert(row.clone());
         });
         Self { rows: clone_rows }
diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index c10272d..01ed7de 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -46,7 +46,8 @@ impl SeriesData {
         for item in self.groups.iter_mut().rev() {
             if item.schema.schema_version == group.schema.schema_version {
                 item.range.merge(&group.range);
-                group.rows.get_rows().into_iter().for_each(|row| {
+                // Of rows with the same timestamp the newest goes first.
+                group.rows.get_rows().into_iter().rev().for_each(|row| {
                     item.rows.insert(row);
                 });
                 item.schema = group.schema;
@@ -69,7 +70,7 @@ impl SeriesData {
             };
             let mut rowdata_vec: Vec<RowData> = item.rows.get_ref_rows().iter().cloned().collect();
             item.rows.clear();
-            for row in rowdata_vec.iter_mut() {
+            for row in rowdata_vec.iter_mut().rev() {
                 if index < row.fields.len() {
                     row.fields.remove(index);
                 }
-- 
2.43.0


From 5b3bc13bd3d0506afe0009244c535574f82c81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 38/87] fix: rows are filtered by fields after the chunks
 holding their parts are merged

---
 tskv/src/reader/iterator.rs | 47 ++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index 7afb946..e1efa0d 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -3,7 +3,7 @@ use std::iter;
 use std::ops::Not;
 use std::sync::Arc;
 
-use arrow::datatypes::{Schema, SchemaRef};
+use arrow::datatypes::{Field, Schema, SchemaRef};
 use datafusion::arrow::array::{
     ArrayBuilder, BooleanBuilder, Float64Builder, Int64Builder, StringBuilder,
     TimestampMicrosecondBuilder, TimestampMillisecondBuilder, TimestampNanosecondBuilder,
@@ -42,7 +42,7 @@ use crate::reader::function_register::NoRegistry;
 use crate::reader::paralle_merge::ParallelMergeAdapter;
 use crate::reader::schema_alignmenter::SchemaAlignmenter;
 use crate::reader::trace::TraceCollectorBatcherReaderProxy;
-use crate::reader::utils::group_overlapping_segments;
+use crate::reader::utils::{group_overlapping_segments, reassign_predicate_columns};
 use crate::reader::{BatchReaderRef, CombinedBatchReader};
 use crate::schema::error::{ColumnNotFoundSnafu, SchemaResult};
 use crate::tsfamily::cache_group::CacheGroup;
@@ -429,6 +429,22 @@ impl SeriesGroupBatchReaderFactory {
             projection.fields()
         };
 
+        // Rows of different chunks may be parts or older versions of one row, so before the
+        // merge only the time decides, which is the same in all of them.
+        let time_predicate = if chunks.len() > 1 {
+            predicate
+                .as_ref()
+                .map(|p| self.time_predicate(p))
+                .transpose()?
+        } else {
+            None
+        };
+        let predicate = if chunks.len() > 1 {
+            &time_predicate
+        } else {
+            predicate
+        };
+
         let mut chunk_readers = Vec::new();
         let mut only_tsm = true;
         for data_reference in chunks.into_iter() {
@@ -459,6 +475,18 @@ impl SeriesGroupBatchReaderFactory {
         Ok(chunk_readers)
     }
 
+    /// The part of the predicate that is about the time column only.
+    fn time_predicate(&self, predicate: &PredicateRef) -> TskvResult<PredicateRef> {
+        let time_column = self.query_option.table_schema.time_column();
+        let schema = Arc::new(Schema::new(vec![Field::from(&time_column)]));
+        let expr = reassign_predicate_columns(predicate.clone(), schema)?;
+        Ok(Arc::new(Predicate::new(
+            expr,
+            predicate.schema(),
+            predicate.limit(),
+        )))
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn build_series_reader(
         &self,
@@ -539,7 +567,11 @@ impl SeriesGroupBatchReaderFactory {
             })
             .collect::<TskvResult<Vec<_>>>()?;
 
-        let limit = predicate.as_ref().and_then(|p| p.limit());
+        // The rows are only known to satisfy the whole predicate after the filter below.
+        let limit = predicate
+            .as_ref()
+            .filter(|p| p.expr().is_none())
+            .and_then(|p| p.limit());
         // 根据 series key 补齐对应的 tag 列
         if self.query_option.aggregates.is_none() {
             let series_reader = Arc::new(SeriesReader::new(
@@ -555,6 +587,15 @@ impl SeriesGroupBatchReaderFactory {
                 schema,
                 self.schema_align_reader_metrics_set.clone(),
             ));
+            // The chunks were filtered by what their columns can tell.
+            let reader: BatchReaderRef = match predicate {
+                Some(predicate) => Arc::new(DataFilter::new(
+                    predicate.clone(),
+                    reader,
+                    self.filter_reader_metrics_set.clone(),
+                )),
+                None => reader,
+            };
 
             Ok(Some(reader))
         } else {
-- 
2.43.0


From 91ff061155c79008c4099ceb2aee4617ce5131a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:03 +0000
Subject: [PATCH 39/87] fix: delta data is newer than compacted data whatever
 the file ids are

---
 tskv/src/reader/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tskv/src/reader/mod.rs b/tskv/src/reader/mod.rs
index 45810b7..16f7434 100644
--- a/tskv/src/reader/mod.rs
+++ b/tskv/src/reader/mod.rs
@@ -307,7 +307,9 @@ impl PartialOrd<Self> for DataReference {
 
 impl Ord for DataReference {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.file_id().cmp(&other.file_id())
+        // A file of level 1 to 4 was compacted from data older than what the delta files
+        // and the caches hold, though its id may be greater than theirs.
+        (self.is_delta(), self.file_id()).cmp(&(other.is_delta(), other.file_id()))
     }
 }
 
@@ -319,6 +321,13 @@ impl DataReference {
         }
     }
 
+    fn is_delta(&self) -> bool {
+        match self {
+            DataReference::Chunk(_, _, cf) => cf.is_delta(),
+            DataReference::Memcache(..) => true,
+        }
+    }
+
     pub fn file_id(&self) -> ColumnFileId {
         match self {
             DataReference::Chunk(_, _, cf) => cf.file_id(),
-- 
2.43.0


From 1e48af355d8aa36746b3a820e0545b8b8fe80752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 40/87] fix: a page made of a sliced array keeps its own null
 bits

---
 tskv/src/tsm/page.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/tsm/page.rs b/tskv/src/tsm/page.rs
index 7e5dcda..08f090b 100644
--- a/tskv/src/tsm/page.rs
+++ b/tskv/src/tsm/page.rs
@@ -101,7 +101,7 @@ impl Page {
         let data_len = array.len() as u64;
         let bit_set_buffer = match array.nulls() {
             None => BooleanBuffer::new_set(data_len as usize).values().to_vec(),
-            Some(nulls) => nulls.buffer().to_vec(),
+            Some(nulls) => nulls.inner().sliced().to_vec(),
         };
         let mut buf = vec![];
         let statistics = match array.data_type() {
-- 
2.43.0


From 4e78d3899662019dfa9cc5aabe913869bf4579ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 41/87] fix: integers whose difference does not fit 64 bits are
 decoded as they were encoded

---
 tskv/src/tsm/codec/integer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tskv/src/tsm/codec/integer.rs b/tskv/src/tsm/codec/integer.rs
index 6a15871..f86b157 100644
--- a/tskv/src/tsm/codec/integer.rs
+++ b/tskv/src/tsm/codec/integer.rs
@@ -240,7 +240,7 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
             continue;
         }
         if let Some(v) = iter.next() {
-            next += zig_zag_decode(*v);
+            next = next.wrapping_add(zig_zag_decode(*v));
             builder.append_value(next);
         }
     }
-- 
2.43.0


From 40e40e6dea97f438d81dd602b8f910747dd9a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 42/87] fix: delta timestamps after a leading null are decoded

---
 tskv/src/tsm/codec/timestamp.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tskv/src/tsm/codec/timestamp.rs b/tskv/src/tsm/codec/timestamp.rs
index fa0ac0b..7e02b8f 100644
--- a/tskv/src/tsm/codec/timestamp.rs
+++ b/tskv/src/tsm/codec/timestamp.rs
@@ -271,12 +271,15 @@ fn decode_simple8b_to_array(src: &[u8], bit_set: &NullBuffer) -> Result<ArrayRef
     let mut next = i64::from_be_bytes(buf);
     let mut builder = Int64Builder::with_capacity(bit_set.len());
     let mut idx = 0;
-    if bit_set.is_valid(idx) {
-        builder.append_value(next);
-    } else {
+    // The first valid value is the one stored raw.
+    while idx < bit_set.len() && !bit_set.is_valid(idx) {
         builder.append_null();
+        idx += 1;
+    }
+    if idx < bit_set.len() {
+        builder.append_value(next);
+        idx += 1;
     }
-    idx += 1;
     simple8b::decode(&src[9..], &mut res);
 
     let mut value_iter = res.into_iter();
-- 
2.43.0


From 93e046a8c323bfc2cf91643990b75a52d35cafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 43/87] fix: compaction keeps the columns that only some of the
 merged blocks have

---
 .../compaction/comapcting_block_meta_group.rs | 51 ++++++++++---------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/tskv/src/compaction/comapcting_block_meta_group.rs b/tskv/src/compaction/comapcting_block_meta_group.rs
index 0995bf7..04ccc0e 100644
--- a/tskv/src/compaction/comapcting_block_meta_group.rs
+++ b/tskv/src/compaction/comapcting_block_meta_group.rs
@@ -1,7 +1,8 @@
+use std::collections::HashSet;
 use std::sync::Arc;
 
 use arrow_array::RecordBatch;
-use arrow_schema::SchemaRef;
+use arrow_schema::{Schema, SchemaRef};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use futures::StreamExt;
 use models::predicate::domain::TimeRange;
@@ -209,36 +210,40 @@ impl CompactingBlockMetaGroup {
     pub fn schema_adapt_record_batches(
         record_batches: Vec<RecordBatch>,
     ) -> TskvResult<(Vec<RecordBatch>, SchemaRef)> {
-        let mut potential_error = None;
-        let target_schema = record_batches
+        let mut schemas = record_batches
             .iter()
             .map(|rb| {
                 let schema = rb.schema();
                 let schema_version =
-                    match TskvTableSchema::schema_version_from_arrow_array_schema(schema.clone())
-                        .context(ModelSnafu)
-                    {
-                        Ok(v) => v,
-                        Err(e) => {
-                            potential_error = Some(e);
-                            0
-                        }
-                    };
-                (schema_version, schema)
+                    TskvTableSchema::schema_version_from_arrow_array_schema(schema.clone())
+                        .context(ModelSnafu)?;
+                Ok((schema_version, schema))
             })
-            .collect::<Vec<(_, _)>>()
+            .collect::<TskvResult<Vec<(_, _)>>>()?;
+        schemas.sort_by_key(|(sv, _)| *sv);
+        let newest_schema = schemas.pop().map(|(_, schema)| schema).context(CommonSnafu {
+            reason: "no schema found".to_string(),
+        })?;
+        // A block may hold fewer columns than the schema of its file, which is the newest
+        // of all the series in the file, so no schema alone has the columns of all blocks.
+        let mut target_fields = newest_schema.fields().iter().cloned().collect::<Vec<_>>();
+        let mut target_column_ids = target_fields
             .iter()
-            .max_by_key(|(sv, _)| sv)
-            .map(|(_, schema)| schema.clone())
-            .ok_or_else(|| {
-                CommonSnafu {
-                    reason: "no schema found".to_string(),
+            .map(|f| TableColumn::column_id_from_arrow_field(f.clone()).context(ModelSnafu))
+            .collect::<TskvResult<HashSet<_>>>()?;
+        for (_, schema) in schemas.iter().rev() {
+            for field in schema.fields() {
+                let column_id =
+                    TableColumn::column_id_from_arrow_field(field.clone()).context(ModelSnafu)?;
+                if target_column_ids.insert(column_id) {
+                    target_fields.push(field.clone());
                 }
-                .build()
-            })?;
-        if let Some(e) = potential_error {
-            return Err(e);
+            }
         }
+        let target_schema = Arc::new(Schema::new_with_metadata(
+            target_fields,
+            newest_schema.metadata().clone(),
+        ));
         let mut adapted_record_batches = Vec::with_capacity(record_batches.len());
         for record_batch in record_batches {
             let adapted_record_batch =
-- 
2.43.0


From 496bb94692c37da2c00cc8a36333bfe947ddd530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 44/87] fix: compaction merges all blocks of a series, also if
 the first file starts with another one

---
 tskv/src/compaction/compact.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index 689f2fe..fe7da2a 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -304,6 +304,8 @@ impl CompactState {
             compacting_files.push(f);
             compacting_tsm_file_idx += 1;
         }
+        // All the blocks of a series are merged at once, so the files with the least series go first.
+        compacting_files.sort();
         let mut tsm_reader_to_compacting_file_map = vec![None::<_>; tsm_readers_len];
         for (i, f) in compacting_files.iter().enumerate() {
             tsm_reader_to_compacting_file_map[f.tsm_reader_index] = Some(i);
-- 
2.43.0


From d81ee40982ff4a96d5e05c9959f949d4a0ca593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 45/87] fix: level compaction lets the values of the newest
 file win

---
 tskv/src/compaction/compact.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tskv/src/compaction/compact.rs b/tskv/src/compaction/compact.rs
index fe7da2a..f4a34cb 100644
--- a/tskv/src/compaction/compact.rs
+++ b/tskv/src/compaction/compact.rs
@@ -526,7 +526,10 @@ pub async fn run_normal_compaction_job(
 
     // Buffers all tsm-files and it's indexes for this compaction
     let mut tsm_readers = Vec::new();
-    for file in request.files.iter() {
+    // Files with greater id are newer, their values win.
+    let mut files = request.files.clone();
+    files.sort_by_key(|f| f.file_id());
+    for file in files.iter() {
         tsm_file_metas_will_delete.push(CompactMeta::from(file.as_ref()));
         let tsm_reader = request.version.get_tsm_reader(file.file_path()).await?;
         tsm_readers.push(tsm_reader);
-- 
2.43.0


From 2b84899a015915de965442479835c3d50d451dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 46/87] fix: concurrent flushes of a vnode no longer deadlock

---
 tskv/src/compaction/job.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 60ab266..486eebc 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -354,6 +354,9 @@ impl FlushJob {
             .context(IndexErrSnafu)?;
         request.flush_metrics.write().await.flush_index_time = instant.elapsed().as_millis() as u64;
 
+        // Lock the queue before the ts_family as `process_summary_tasks` does, which holds
+        // the queue while the version edits are applied to the ts_family.
+        let mut queue = job.queue.write().await;
         let ts_family_w = request.ts_family.write().await;
         let mut mems = ts_family_w.im_cache().clone();
         mems.retain(|x| x.read().mark_flushing());
@@ -375,12 +378,10 @@ impl FlushJob {
                 sender,
             );
 
-            job.queue
-                .write()
-                .await
-                .insert(flush_seq, (request.clone(), summary_task));
+            queue.insert(flush_seq, (request.clone(), summary_task));
         }
         drop(ts_family_w);
+        drop(queue);
 
         if let Err(err) = Self::flush_memtables(job, request, mems.clone(), receivers).await {
             for item in mems.iter_mut() {
-- 
2.43.0


From 3212a05f070a2e4db5ed218b30da94444afc62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 47/87] fix: rows deleted from files are dropped, not read with
 all fields null

---
 tskv/src/tsm/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index bd120bf..02d5bf3 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -513,7 +513,13 @@ pub fn decode_pages(
                 reason: "time field not found".to_string(),
             })?;
         let (time_array, time_range, time) = get_time_page_meta(time_page)?;
-        let filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        let mut filters = tomb.get_all_fields_excluded_time_range(&time_range);
+        // A tombstone of the time column means that the rows of the series are deleted.
+        filters.extend(tomb.get_column_overlapped_time_ranges(
+            series_id,
+            time_page.meta.column.id,
+            &time_range,
+        ));
         let time_null_bits = {
             if filters.is_empty() {
                 None
-- 
2.43.0


From 9bf62cab4712f3e67be82a80ec6147d24b48268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:27 +0000
Subject: [PATCH 48/87] fix: flushes and compactions do not bring back what is
 deleted while they run

---
 tskv/src/compaction/job.rs          |  5 +++++
 tskv/src/kvcore.rs                  |  2 ++
 tskv/src/tsfamily/tseries_family.rs |  9 +++++++++
 tskv/src/vnode_store.rs             | 15 ++++++++++++---
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 486eebc..7d068ac 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -200,6 +200,8 @@ impl CompactJobInner {
                             let ctx2 = ctx1.clone();
                             ctx1.runtime.spawn(async move {
                                 let _guard = limit.lock().await;
+                                let rewrite_lock = tsf.read().await.rewrite_lock();
+                                let _rewrite_guard = rewrite_lock.read_owned().await;
                                 // Check enable compaction
                                 if !enable_compaction.load(atomic::Ordering::SeqCst) {
                                     return;
@@ -354,6 +356,9 @@ impl FlushJob {
             .context(IndexErrSnafu)?;
         request.flush_metrics.write().await.flush_index_time = instant.elapsed().as_millis() as u64;
 
+        let rewrite_lock = request.ts_family.read().await.rewrite_lock();
+        let _rewrite_guard = rewrite_lock.read_owned().await;
+
         // Lock the queue before the ts_family as `process_summary_tasks` does, which holds
         // the queue while the version edits are applied to the ts_family.
         let mut queue = job.queue.write().await;
diff --git a/tskv/src/kvcore.rs b/tskv/src/kvcore.rs
index 671cc65..301078e 100644
--- a/tskv/src/kvcore.rs
+++ b/tskv/src/kvcore.rs
@@ -338,6 +338,8 @@ impl Engine for TsKv {
                     error!("Failed to flush vnode {}: {:?}", vnode_id, e);
                 }
 
+                let rewrite_lock = ts_family.read().await.rewrite_lock();
+                let _rewrite_guard = rewrite_lock.read_owned().await;
                 let version = ts_family.read().await.version();
                 if let Some(mut req) = pick_compaction(CompactTask::Manual(vnode_id), version).await
                 {
diff --git a/tskv/src/tsfamily/tseries_family.rs b/tskv/src/tsfamily/tseries_family.rs
index 2307cfd..4aaadfe 100644
--- a/tskv/src/tsfamily/tseries_family.rs
+++ b/tskv/src/tsfamily/tseries_family.rs
@@ -84,6 +84,7 @@ impl TsfFactory {
 
             tsf_metrics,
             status: VnodeStatus::Running,
+            rewrite_lock: Arc::new(TokioRwLock::new(())),
         }));
         let weak_tsfamily = Arc::downgrade(&tsfamily);
         tokio::spawn(TseriesFamily::update_vnode_metrics(weak_tsfamily));
@@ -110,6 +111,10 @@ pub struct TseriesFamily {
     last_modified: Arc<tokio::sync::RwLock<Option<Instant>>>,
     tsf_metrics: TsfMetrics,
     status: VnodeStatus,
+    /// Flushes and compactions, which copy data of this vnode to new files, share this lock
+    /// until the new version is applied. Changes of the existing data, like deletes, hold it
+    /// exclusively, otherwise the copies would bring back what has been changed.
+    rewrite_lock: Arc<TokioRwLock<()>>,
 }
 
 impl TseriesFamily {
@@ -565,6 +570,10 @@ impl TseriesFamily {
         }
     }
 
+    pub fn rewrite_lock(&self) -> Arc<TokioRwLock<()>> {
+        self.rewrite_lock.clone()
+    }
+
     pub fn can_compaction(&self) -> bool {
         self.status == VnodeStatus::Running
     }
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 3a8c255..c50a3e7 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -10,7 +10,7 @@ use models::{ColumnId, SeriesId, SeriesKey};
 use protos::kv_service::{raft_write_command, WritePointsResponse, *};
 use replication::EngineMetrics;
 use snafu::{OptionExt, ResultExt};
-use tokio::sync::RwLock;
+use tokio::sync::{OwnedRwLockWriteGuard, RwLock};
 use trace::span_ext::SpanExt;
 use trace::{debug, error, info, Span, SpanContext};
 use utils::precision::Precision;
@@ -323,7 +323,15 @@ impl VnodeStorage {
         res
     }
 
+    /// Waits for the running flushes and compactions, and prevents new ones until the
+    /// returned guard is dropped.
+    async fn stop_rewrites(&self) -> OwnedRwLockWriteGuard<()> {
+        let rewrite_lock = self.ts_family.read().await.rewrite_lock();
+        rewrite_lock.write_owned().await
+    }
+
     async fn drop_table(&self, table: &str) -> TskvResult<()> {
+        let _rewrite_guard = self.stop_rewrites().await;
         // TODO Create global DropTable flag for droping the same table at the same time.
         let db_owner = self.db.read().await.owner();
         let schemas = self.db.read().await.get_schemas();
@@ -450,6 +458,7 @@ impl VnodeStorage {
             )
             .collect::<Vec<_>>();
 
+        let _rewrite_guard = self.stop_rewrites().await;
         let mut series = Vec::with_capacity(cmd.matched_series.len());
         for key in cmd.matched_series.iter() {
             let ss = SeriesKey::decode(key).map_err(|e| InvalidParamSnafu {
@@ -529,6 +538,7 @@ impl VnodeStorage {
     }
 
     async fn drop_table_columns(&self, table: &str, column_ids: &[ColumnId]) -> TskvResult<()> {
+        let _rewrite_guard = self.stop_rewrites().await;
         // TODO Create global DropTable flag for droping the same table at the same time.
         let db_rlock = self.db.read().await;
         let db_owner = db_rlock.owner();
@@ -576,6 +586,7 @@ impl VnodeStorage {
         series_ids: &[SeriesId],
         time_ranges: &TimeRanges,
     ) -> TskvResult<()> {
+        let _rewrite_guard = self.stop_rewrites().await;
         let vnode = self.ts_family.read().await;
         let db_name = self.db.read().await.db_name();
         vnode.delete_series_by_time_ranges(series_ids, time_ranges);
@@ -594,8 +605,6 @@ impl VnodeStorage {
 
         let version = vnode.super_version();
 
-        // Stop compaction when doing delete TODO
-
         for time_range in time_ranges.time_ranges() {
             version
                 .add_tombstone(series_ids, &column_ids, &time_range)
-- 
2.43.0


From 389d48411de2a66e6e4aa2879943ef48cb389f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 49/87] fix: compactions of a vnode run one at a time, from
 picking the files to applying the version

---
 tskv/src/compaction/job.rs          | 116 ++++++++++++++--------------
 tskv/src/kvcore.rs                  |   2 +
 tskv/src/tsfamily/tseries_family.rs |  11 ++-
 3 files changed, 70 insertions(+), 59 deletions(-)

diff --git a/tskv/src/compaction/job.rs b/tskv/src/compaction/job.rs
index 7d068ac..6735786 100644
--- a/tskv/src/compaction/job.rs
+++ b/tskv/src/compaction/job.rs
@@ -187,67 +187,67 @@ impl CompactJobInner {
                             info!("forbidden compaction on moving vnode {}", vnode_id);
                             return;
                         }
-                        let version = tsf.read().await.version();
-                        let compact_req = pick_compaction(task, version).await;
-                        if let Some(mut req) = compact_req {
-                            req.set_file_id(vnode.get_summary().read().await.file_id());
-                            // Method acquire_owned() will return AcquireError if the semaphore has been closed.
-                            let permit = compaction_limit.clone().acquire_owned().await.unwrap();
-                            let enable_compaction = enable_compaction.clone();
-                            let running_compaction = running_compaction.clone();
-                            let metrics_registry = metrics_registry.clone();
-
-                            let ctx2 = ctx1.clone();
-                            ctx1.runtime.spawn(async move {
-                                let _guard = limit.lock().await;
-                                let rewrite_lock = tsf.read().await.rewrite_lock();
-                                let _rewrite_guard = rewrite_lock.read_owned().await;
-                                // Check enable compaction
-                                if !enable_compaction.load(atomic::Ordering::SeqCst) {
+                        // Method acquire_owned() will return AcquireError if the semaphore has been closed.
+                        let permit = compaction_limit.clone().acquire_owned().await.unwrap();
+                        let enable_compaction = enable_compaction.clone();
+                        let running_compaction = running_compaction.clone();
+                        let metrics_registry = metrics_registry.clone();
+
+                        let ctx2 = ctx1.clone();
+                        ctx1.runtime.spawn(async move {
+                            let _guard = limit.lock().await;
+                            let compaction_lock = tsf.read().await.compaction_lock();
+                            let _compaction_guard = compaction_lock.lock_owned().await;
+                            let rewrite_lock = tsf.read().await.rewrite_lock();
+                            let _rewrite_guard = rewrite_lock.read_owned().await;
+                            // Check enable compaction
+                            if !enable_compaction.load(atomic::Ordering::SeqCst) {
+                                return;
+                            }
+                            let version = tsf.read().await.version();
+                            let mut req = match pick_compaction(task, version).await {
+                                Some(req) => req,
+                                None => {
+                                    info!("There is no need to compact.");
                                     return;
                                 }
-                                // Edit running_compaction
-                                running_compaction.fetch_add(1, atomic::Ordering::SeqCst);
-                                let _sub_running_compaction_guard = DeferGuard(Some(|| {
-                                    running_compaction.fetch_sub(1, atomic::Ordering::SeqCst);
-                                }));
-
-                                let vnode_compaction_metrics = VnodeCompactionMetrics::new(
-                                    &metrics_registry,
-                                    ctx2.options.storage.node_id,
-                                    vnode_id,
-                                    CompactionType::Normal,
-                                    ctx2.options.storage.collect_compaction_metrics,
-                                );
-                                match super::run_compaction_job(req, vnode_compaction_metrics).await
-                                {
-                                    Ok(Some((version_edit, file_metas))) => {
-                                        let request = SummaryRequest {
-                                            version_edit,
-                                            mem_caches: None,
-                                            file_metas: Some(file_metas),
-                                            ts_family: tsf,
-                                        };
-                                        let summary = vnode.get_summary();
-                                        let result = summary
-                                            .write()
-                                            .await
-                                            .apply_version_edit(&request)
-                                            .await;
-                                        info!("vnode compaction apply version edit: {:?}", result);
-                                    }
-                                    Ok(None) => {
-                                        info!("There is nothing to compact.");
-                                    }
-                                    Err(e) => {
-                                        error!("Compaction job failed: {:?}", e);
-                                    }
+                            };
+                            req.set_file_id(vnode.get_summary().read().await.file_id());
+                            // Edit running_compaction
+                            running_compaction.fetch_add(1, atomic::Ordering::SeqCst);
+                            let _sub_running_compaction_guard = DeferGuard(Some(|| {
+                                running_compaction.fetch_sub(1, atomic::Ordering::SeqCst);
+                            }));
+
+                            let vnode_compaction_metrics = VnodeCompactionMetrics::new(
+                                &metrics_registry,
+                                ctx2.options.storage.node_id,
+                                vnode_id,
+                                CompactionType::Normal,
+                                ctx2.options.storage.collect_compaction_metrics,
+                            );
+                            match super::run_compaction_job(req, vnode_compaction_metrics).await {
+                                Ok(Some((version_edit, file_metas))) => {
+                                    let request = SummaryRequest {
+                                        version_edit,
+                                        mem_caches: None,
+                                        file_metas: Some(file_metas),
+                                        ts_family: tsf,
+                                    };
+                                    let summary = vnode.get_summary();
+                                    let result =
+                                        summary.write().await.apply_version_edit(&request).await;
+                                    info!("vnode compaction apply version edit: {:?}", result);
                                 }
-                                drop(permit);
-                            });
-                        } else {
-                            info!("There is no need to compact.");
-                        }
+                                Ok(None) => {
+                                    info!("There is nothing to compact.");
+                                }
+                                Err(e) => {
+                                    error!("Compaction job failed: {:?}", e);
+                                }
+                            }
+                            drop(permit);
+                        });
                     }
                 }
                 info!(
diff --git a/tskv/src/kvcore.rs b/tskv/src/kvcore.rs
index 301078e..1a142c0 100644
--- a/tskv/src/kvcore.rs
+++ b/tskv/src/kvcore.rs
@@ -338,6 +338,8 @@ impl Engine for TsKv {
                     error!("Failed to flush vnode {}: {:?}", vnode_id, e);
                 }
 
+                let compaction_lock = ts_family.read().await.compaction_lock();
+                let _compaction_guard = compaction_lock.lock_owned().await;
                 let rewrite_lock = ts_family.read().await.rewrite_lock();
                 let _rewrite_guard = rewrite_lock.read_owned().await;
                 let version = ts_family.read().await.version();
diff --git a/tskv/src/tsfamily/tseries_family.rs b/tskv/src/tsfamily/tseries_family.rs
index 4aaadfe..8457d97 100644
--- a/tskv/src/tsfamily/tseries_family.rs
+++ b/tskv/src/tsfamily/tseries_family.rs
@@ -12,7 +12,7 @@ use models::schema::database_schema::{split_owner, DatabaseConfig};
 use models::{ColumnId, SeriesId, SeriesKey};
 use parking_lot::RwLock;
 use snafu::ResultExt;
-use tokio::sync::RwLock as TokioRwLock;
+use tokio::sync::{Mutex as TokioMutex, RwLock as TokioRwLock};
 use tokio::time::Instant;
 use trace::{debug, info};
 use utils::id_generator::IDGenerator;
@@ -85,6 +85,7 @@ impl TsfFactory {
             tsf_metrics,
             status: VnodeStatus::Running,
             rewrite_lock: Arc::new(TokioRwLock::new(())),
+            compaction_lock: Arc::new(TokioMutex::new(())),
         }));
         let weak_tsfamily = Arc::downgrade(&tsfamily);
         tokio::spawn(TseriesFamily::update_vnode_metrics(weak_tsfamily));
@@ -115,6 +116,10 @@ pub struct TseriesFamily {
     /// until the new version is applied. Changes of the existing data, like deletes, hold it
     /// exclusively, otherwise the copies would bring back what has been changed.
     rewrite_lock: Arc<TokioRwLock<()>>,
+    /// Held from picking the files of a compaction until its new version is applied.
+    /// Compactions running at the same time could number their output files in another
+    /// order than that of the data.
+    compaction_lock: Arc<TokioMutex<()>>,
 }
 
 impl TseriesFamily {
@@ -574,6 +579,10 @@ impl TseriesFamily {
         self.rewrite_lock.clone()
     }
 
+    pub fn compaction_lock(&self) -> Arc<TokioMutex<()>> {
+        self.compaction_lock.clone()
+    }
+
     pub fn can_compaction(&self) -> bool {
         self.status == VnodeStatus::Running
     }
-- 
2.43.0


From b2093fc539e4e8b3afc9c19bcb0bfd10f1a269e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 50/87] fix: a compaction does not add its range to what an
 unfinished one left behind

---
 tskv/src/tsm/tombstone.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 23be5d4..4cec1c9 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -283,6 +283,9 @@ impl TsmTombstone {
         time_range: TimeRange,
     ) -> TskvResult<TimeRanges> {
         let tmp_path = tombstone_compact_tmp_path(&self.path)?;
+        // There may be a compact_tmp of a compaction that has not been finished.
+        LocalFileSystem::remove_if_exists(&tmp_path)
+            .map_err(|e| TskvError::FileSystemError { source: e })?;
         let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
         let mut cache = self.cache.write().clone();
         cache.insert(TombstoneField::All, time_range);
-- 
2.43.0


From d16dbce5531ad7ddfc27e97719d7385b6fd500c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:00 +0000
Subject: [PATCH 51/87] fix: a scan does not lose the rows that a compaction
 moves while it starts

---
 tskv/src/reader/iterator.rs  | 28 ++++++++++++++++++----------
 tskv/src/tsfamily/summary.rs | 13 ++++++++-----
 tskv/src/tsm/reader.rs       | 14 ++++++++++++--
 tskv/src/tsm/tombstone.rs    | 21 +++++++++++++++------
 4 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/tskv/src/reader/iterator.rs b/tskv/src/reader/iterator.rs
index e1efa0d..e9721de 100644
--- a/tskv/src/reader/iterator.rs
+++ b/tskv/src/reader/iterator.rs
@@ -170,7 +170,7 @@ impl SeriesGroupBatchReaderFactory {
             let _timer = metrics.elapsed_get_tsm_readers_time().timer();
             for f in column_files {
                 let reader = super_version.version.get_tsm_reader(f.file_path()).await?;
-                column_files_with_reader.push((f, reader));
+                column_files_with_reader.push((f, Arc::new(reader.snapshot())));
             }
         }
 
@@ -906,7 +906,7 @@ pub async fn execute(
     vnode_id: VnodeId,
     span: Span,
 ) -> TskvResult<SendableTskvRecordBatchStream> {
-    let super_version = {
+    let get_super_version = || async {
         let span = Span::enter_with_parent("get super version", &span);
         engine
             .get_db_version(
@@ -917,21 +917,29 @@ pub async fn execute(
             .await
             .inspect_err(|err| {
                 span.error(err.to_string());
-            })?
+            })
     };
 
     let schema = query_option.df_schema.clone();
 
-    if let Some(super_version) = super_version {
-        return build_stream(
-            runtime,
-            super_version,
-            engine,
-            query_option,
+    let mut super_version = get_super_version().await?;
+    while let Some(version) = super_version {
+        let stream = build_stream(
+            runtime.clone(),
+            version.clone(),
+            engine.clone(),
+            query_option.clone(),
             vnode_id,
             Span::enter_with_parent("build stream", &span),
         )
-        .await;
+        .await?;
+        // If the version is replaced when opening it's files, the files may already be without
+        // the data that was compacted to the files of the new version.
+        super_version = get_super_version().await?;
+        if matches!(&super_version, Some(v) if !Arc::ptr_eq(&v.version, &version.version)) {
+            continue;
+        }
+        return Ok(stream);
     }
 
     if query_option.aggregates.is_some() {
diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5693016..5d590a7 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -162,6 +162,14 @@ impl Summary {
             .copy_apply_version_edits(request.version_edit.clone(), &mut file_metas);
         let new_version = Arc::new(new_version);
 
+        request
+            .ts_family
+            .write()
+            .await
+            .new_version(new_version.clone(), request.mem_caches.as_ref());
+
+        // The readers of the new version may see both the compacted data and it's copy, but never
+        // none of them.
         let _ = install_tombstones_for_tsm_readers(
             self.ctx.runtime.clone(),
             partly_deleted_file_paths.clone(),
@@ -174,11 +182,6 @@ impl Summary {
             .unmark_compacting_files(&partly_deleted_files)
             .await;
 
-        request
-            .ts_family
-            .write()
-            .await
-            .new_version(new_version, request.mem_caches.as_ref());
         trace::info!("Applied new version for ts_family {}.", self.tsf_id);
 
         if self.writer.file_size() < self.ctx.options.storage.max_summary_size {
diff --git a/tskv/src/tsm/reader.rs b/tskv/src/tsm/reader.rs
index 02d5bf3..8603bcd 100644
--- a/tskv/src/tsm/reader.rs
+++ b/tskv/src/tsm/reader.rs
@@ -112,7 +112,7 @@ impl TsmMetaData {
 
 pub struct TsmReader {
     file_id: ColumnFileId,
-    reader: Box<FileStreamReader>,
+    reader: Arc<FileStreamReader>,
     tsm_meta: Arc<TsmMetaData>,
     tombstone: Arc<TsmTombstone>,
 }
@@ -161,12 +161,22 @@ impl TsmReader {
         Ok(Self {
             // file_location: path,
             file_id,
-            reader,
+            reader: Arc::from(reader),
             tsm_meta,
             tombstone,
         })
     }
 
+    /// A reader of the same file that does not see the tombstones added later.
+    pub fn snapshot(&self) -> Self {
+        Self {
+            file_id: self.file_id,
+            reader: self.reader.clone(),
+            tsm_meta: self.tsm_meta.clone(),
+            tombstone: Arc::new(self.tombstone.snapshot()),
+        }
+    }
+
     pub fn file_id(&self) -> u64 {
         self.file_id
     }
diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index 4cec1c9..a01767e 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -71,7 +71,7 @@ pub struct Tombstone {
 
 pub struct TsmTombstone {
     /// Tombstone caches.
-    cache: RwLock<TsmTombstoneCache>,
+    cache: RwLock<Arc<TsmTombstoneCache>>,
 
     path: PathBuf,
     /// Async record file writer.
@@ -99,7 +99,7 @@ impl TsmTombstone {
         };
 
         Ok(Self {
-            cache: RwLock::new(cache),
+            cache: RwLock::new(Arc::new(cache)),
             path,
             writer: Arc::new(AsyncMutex::new(writer)),
         })
@@ -209,6 +209,15 @@ impl TsmTombstone {
         time_ranges_len
     }
 
+    /// The tombstones of this moment, what is added later is not seen by the returned ones.
+    pub fn snapshot(&self) -> Self {
+        Self {
+            cache: RwLock::new(self.cache.read().clone()),
+            path: self.path.clone(),
+            writer: Arc::new(AsyncMutex::new(None)),
+        }
+    }
+
     pub fn is_empty(&self) -> bool {
         self.cache.read().is_empty()
     }
@@ -252,7 +261,7 @@ impl TsmTombstone {
         if !write_buf.is_empty() {
             write_tombstone_record(writer, &write_buf).await?;
         }
-        self.cache.write().insert_batch(tomb_tmp);
+        Arc::make_mut(&mut *self.cache.write()).insert_batch(tomb_tmp);
         Ok(())
     }
 
@@ -273,7 +282,7 @@ impl TsmTombstone {
         let mut write_buf = Vec::with_capacity(MAX_RECORD_LEN);
         Self::encode_field_time_ranges(&mut write_buf, &TombstoneField::All, &[time_range]);
         write_tombstone_record(writer, &write_buf).await.unwrap();
-        self.cache.write().insert(TombstoneField::All, time_range);
+        Arc::make_mut(&mut *self.cache.write()).insert(TombstoneField::All, time_range);
     }
 
     /// Add a time range to `all_excluded` and then compact tombstones,
@@ -287,7 +296,7 @@ impl TsmTombstone {
         LocalFileSystem::remove_if_exists(&tmp_path)
             .map_err(|e| TskvError::FileSystemError { source: e })?;
         let mut writer = record_file::Writer::open(&tmp_path, TOMBSTONE_BUFFER_SIZE).await?;
-        let mut cache = self.cache.write().clone();
+        let mut cache = self.cache.read().as_ref().clone();
         cache.insert(TombstoneField::All, time_range);
         cache.compact();
         trace::info!(
@@ -320,7 +329,7 @@ impl TsmTombstone {
             file_utils::rename(tmp_path, &self.path).await?;
             let mut reader = record_file::Reader::open(&self.path).await?;
             let cache = TsmTombstoneCache::load_from(&mut reader, false).await?;
-            *self.cache.write() = cache;
+            *self.cache.write() = Arc::new(cache);
         } else {
             debug!("No compact_tmp tombstone file to convert to real tombstone file");
         }
-- 
2.43.0


From 681e77c19ae4df9680836fc39b3f896aeebc3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 52/87] fix: tag updates keep the metadata of compressed files
 readable

---
 tskv/src/tsm/writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tskv/src/tsm/writer.rs b/tskv/src/tsm/writer.rs
index f1a8e66..4dda85b 100644
--- a/tskv/src/tsm/writer.rs
+++ b/tskv/src/tsm/writer.rs
@@ -464,6 +464,11 @@ impl TsmWriter {
         meta: TsmMetaData,
         tsm_meta_encode: Encoding,
     ) -> TskvResult<Self> {
+        let tsm_version = if tsm_meta_encode == Encoding::Null {
+            TsmVersion::V1
+        } else {
+            TsmVersion::V2
+        };
         writer
             .truncate(meta.footer().series().chunk_offset() as usize)
             .await
@@ -480,7 +485,7 @@ impl TsmWriter {
             page_specs: Default::default(),
             chunk_specs: Default::default(),
             chunk_group_specs: Default::default(),
-            footer: Footer::empty(TsmVersion::V1),
+            footer: Footer::empty(tsm_version),
             state: State::Initialised,
             tsm_meta_encode,
         };
-- 
2.43.0


From e437d69f4fcd4503b5828dea0b91dc40423fa6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 53/87] fix: tag updates find series whatever the order of
 their tags, and match each once

---
 tskv/src/index/ts_index.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index 5ddb6aa..fde4411 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -335,10 +335,17 @@ impl TSIndex {
         // Find all matching series ids
         let mut ids = vec![];
         let mut old_keys = vec![];
+        let mut matched_ids = HashSet::new();
         for key in matched_series {
-            if let Some(sid) = self.get_series_id(key).await? {
-                ids.push(sid);
-                old_keys.push(key.clone());
+            // The tags come in the order of the table's columns.
+            let mut key = key.clone();
+            tag::sort_tags(&mut key.tags);
+            if let Some(sid) = self.get_series_id(&key).await? {
+                // The same series of several vnodes is matched several times.
+                if matched_ids.insert(sid) {
+                    ids.push(sid);
+                    old_keys.push(key);
+                }
             }
         }
 
-- 
2.43.0


From 00397e6d424a0a5da7e8b1e327c428b412d3b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 54/87] fix: replaying a tag update after a crash keeps the
 renamed series

---
 tskv/src/index/ts_index.rs | 30 ++++++++++++++++++++++++++++--
 tskv/src/vnode_store.rs    |  2 +-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/tskv/src/index/ts_index.rs b/tskv/src/index/ts_index.rs
index fde4411..b6db915 100644
--- a/tskv/src/index/ts_index.rs
+++ b/tskv/src/index/ts_index.rs
@@ -87,6 +87,10 @@ pub struct TSIndex {
 
     cache: IndexCache,
     storage: IndexEngine2,
+
+    /// Series keys whose update has been replayed: the rows of the log that follow
+    /// belong to a new series, and not to the one in the tombstone.
+    replayed_updates: HashSet<Vec<u8>>,
 }
 
 impl TSIndex {
@@ -116,6 +120,7 @@ impl TSIndex {
             incr_id: AtomicU32::new(incr_id),
             write_count: AtomicU32::new(0),
             cache: IndexCache::new(cap as usize),
+            replayed_updates: HashSet::new(),
         };
 
         trace::info!(
@@ -215,12 +220,17 @@ impl TSIndex {
         series_key: &SeriesKey,
     ) -> IndexResult<()> {
         let key_buf = encode_tombstone_series_key(series_key.table(), series_key.tags());
+        if self.storage.exist(&key_buf)? {
+            // The rows that are replayed first belong to the first series.
+            return Ok(());
+        }
         trace::debug!("Index add tombstone id:{}, key: {}", id, series_key);
         self.storage.set(&key_buf, &id.to_be_bytes())
     }
 
     pub async fn clear_tombstone_series(&mut self) -> IndexResult<()> {
         trace::info!("Index clear all tombstone");
+        self.replayed_updates.clear();
         self.storage.del_prefix(TOMBSTONE_PREFIX.as_bytes())
     }
 
@@ -229,8 +239,13 @@ impl TSIndex {
         series_key: &SeriesKey,
     ) -> IndexResult<Option<u32>> {
         let key_buf = encode_tombstone_series_key(series_key.table(), series_key.tags());
+        if self.replayed_updates.contains(&key_buf) {
+            return Ok(None);
+        }
         if let Some(val) = self.storage.get(&key_buf)? {
             let id = byte_utils::decode_be_u32(&val);
+            // The id may not have been saved yet, it must not be given to another series.
+            self.incr_id.fetch_max(id, Ordering::Relaxed);
             return Ok(Some(id));
         }
 
@@ -267,7 +282,7 @@ impl TSIndex {
         old_series_keys: Vec<SeriesKey>,
         new_series_keys: Vec<SeriesKey>,
         sids: Vec<SeriesId>,
-        _recovering: bool,
+        recovering: bool,
     ) -> IndexResult<()> {
         for ((old_series, new_series), sid) in old_series_keys
             .iter()
@@ -282,6 +297,12 @@ impl TSIndex {
             );
             self.del_series_info(*sid).await?;
             self.add_tombstone_series(*sid, old_series).await?;
+            if recovering {
+                self.replayed_updates.insert(encode_tombstone_series_key(
+                    old_series.table(),
+                    old_series.tags(),
+                ));
+            }
 
             self.cache.write(*sid, new_series.clone());
 
@@ -340,7 +361,12 @@ impl TSIndex {
             // The tags come in the order of the table's columns.
             let mut key = key.clone();
             tag::sort_tags(&mut key.tags);
-            if let Some(sid) = self.get_series_id(&key).await? {
+            let mut sid = self.get_series_id(&key).await?;
+            if sid.is_none() && !check_conflict {
+                // Replaying the log: the index may have been updated already.
+                sid = self.get_tombstone_series_id(&key).await?;
+            }
+            if let Some(sid) = sid {
                 // The same series of several vnodes is matched several times.
                 if matched_ids.insert(sid) {
                     ids.push(sid);
diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index c50a3e7..449f8d8 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -496,7 +496,7 @@ impl VnodeStorage {
             .ts_index
             .write()
             .await
-            .update_series_key(old_series_keys, new_series_keys, sids, false)
+            .update_series_key(old_series_keys, new_series_keys, sids, !check_conflict)
             .await
         {
             error!("Update tags value tag of TSIndex({}): {}", self.id, err);
-- 
2.43.0


From 8d19cd0b5776782d80c63377d2cf39f6e8c14b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 55/87] fix: an update of tags that was refused does not stop
 the recovery

---
 tskv/src/vnode_store.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 449f8d8..11843b3 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -115,7 +115,13 @@ impl VnodeStorage {
             }
 
             raft_write_command::Command::UpdateTags(cmd) => {
-                self.update_tags_value(ctx, &cmd).await?;
+                if let Err(err) = self.update_tags_value(ctx, &cmd).await {
+                    if ctx.apply_type == replication::APPLY_TYPE_WAL {
+                        info!("recover: update tags: {}", err);
+                    } else {
+                        return Err(err);
+                    }
+                }
                 Ok(vec![])
             }
 
-- 
2.43.0


From 4d77b3041724e64589a805cb058a86bd4b210cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 56/87] fix: a pushed down predicate finds the columns of old
 files by id, and stays weaker

---
 tskv/src/reader/column_group/statistics.rs |  34 +++--
 tskv/src/reader/utils.rs                   | 146 +++++++++++----------
 2 files changed, 100 insertions(+), 80 deletions(-)

diff --git a/tskv/src/reader/column_group/statistics.rs b/tskv/src/reader/column_group/statistics.rs
index 8ce9944..8a5e68c 100644
--- a/tskv/src/reader/column_group/statistics.rs
+++ b/tskv/src/reader/column_group/statistics.rs
@@ -4,27 +4,38 @@ use arrow::datatypes::DataType;
 use arrow_array::ArrayRef;
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion::scalar::ScalarValue;
+use models::ColumnId;
 
 use crate::tsm::column_group::ColumnGroup;
 use crate::tsm::page::PageStatistics;
 
 pub struct ColumnGroupsStatisticsWrapper<'a>(pub &'a [Arc<ColumnGroup>]);
 
+impl<'a> ColumnGroupsStatisticsWrapper<'a> {
+    /// The id and the type of the column which has this name in the schema of the chunk, that
+    /// is the schema of the first column group.
+    fn column(&self, name: &str) -> Option<(ColumnId, DataType)> {
+        let page = self
+            .0
+            .first()?
+            .pages()
+            .iter()
+            .find(|e| e.meta.column.name == name)?;
+        let column = &page.meta().column;
+        Some((column.id, DataType::from(column.column_type.clone())))
+    }
+}
+
 impl<'a> PruningStatistics for ColumnGroupsStatisticsWrapper<'a> {
     fn min_values(&self, column: &datafusion::prelude::Column) -> Option<ArrayRef> {
-        let data_type = self.0.first().and_then(|cg| {
-            cg.pages()
-                .iter()
-                .find(|e| e.meta.column.name == column.name)
-                .map(|e| DataType::from(e.meta().column.column_type.clone()))
-        })?;
+        let (column_id, data_type) = self.column(&column.name)?;
 
         let null_value = ScalarValue::try_from(data_type).ok()?;
 
         let values = self.0.iter().map(|cg| {
             cg.pages()
                 .iter()
-                .find(|e| e.meta.column.name == column.name)
+                .find(|e| e.meta.column.id == column_id)
                 .map(|e| match &e.meta().statistics {
                     PageStatistics::Bool(v) => ScalarValue::from(*v.min()),
                     PageStatistics::F64(v) => ScalarValue::from(*v.min()),
@@ -42,19 +53,14 @@ impl<'a> PruningStatistics for ColumnGroupsStatisticsWrapper<'a> {
     }
 
     fn max_values(&self, column: &datafusion::prelude::Column) -> Option<ArrayRef> {
-        let data_type = self.0.first().and_then(|cg| {
-            cg.pages()
-                .iter()
-                .find(|e| e.meta.column.name == column.name)
-                .map(|e| DataType::from(e.meta().column.column_type.clone()))
-        })?;
+        let (column_id, data_type) = self.column(&column.name)?;
 
         let null_value = ScalarValue::try_from(data_type).ok()?;
 
         let values = self.0.iter().map(|cg| {
             cg.pages()
                 .iter()
-                .find(|e| e.meta.column.name == column.name)
+                .find(|e| e.meta.column.id == column_id)
                 .map(|e| match &e.meta().statistics {
                     PageStatistics::Bool(v) => ScalarValue::from(*v.max()),
                     PageStatistics::F64(v) => ScalarValue::from(*v.max()),
diff --git a/tskv/src/reader/utils.rs b/tskv/src/reader/utils.rs
index f8dc075..5f4ef64 100644
--- a/tskv/src/reader/utils.rs
+++ b/tskv/src/reader/utils.rs
@@ -9,12 +9,12 @@ use arrow_array::RecordBatch;
 use datafusion::common::tree_node::{TreeNode, TreeNodeRewriter, TreeNodeVisitor, VisitRecursion};
 use datafusion::error::DataFusionError;
 use datafusion::logical_expr::Operator;
-use datafusion::physical_plan::expressions::{BinaryExpr, Column, Literal};
+use datafusion::physical_plan::expressions::{BinaryExpr, Column};
 use datafusion::physical_plan::metrics::ExecutionPlanMetricsSet;
 use datafusion::physical_plan::PhysicalExpr;
-use datafusion::scalar::ScalarValue;
 use futures::{Stream, StreamExt};
 use models::predicate::domain::TimeRange;
+use models::schema::COLUMN_ID_META_KEY;
 
 use super::metrics::BaselineMetrics;
 use super::{Predicate, SchemableTskvRecordBatchStream, SendableSchemableTskvRecordBatchStream};
@@ -189,56 +189,101 @@ impl Stream for CombinedRecordBatchStream {
     }
 }
 
-/// Re-assign column indices referenced in predicate according to given schema.
-/// If a column is not found in the schema, it will be replaced.
+/// Re-assign the columns referenced in predicate according to given schema.
+/// If a column is not found in the schema, the part of the predicate which depends on it
+/// is left out.
 ///
 /// if we have a file, has [time, c1, c2],
-/// If the filter is 'c3 = 1', then it will be replaced by a expr 'true'.
+/// If the filter is 'c3 = 1', then nothing is left of it.
+/// If the filter is 'c3 = 1 and c1 = 2', then it will be replaced by 'c1 = 2'.
+///
+/// The columns are found by their id, because a file may have been written when the column
+/// had another name, or when another column had its name.
 pub fn reassign_predicate_columns(
     pred: Arc<Predicate>,
     file_schema: SchemaRef,
 ) -> TskvResult<Option<Arc<dyn PhysicalExpr>>, DataFusionError> {
-    let full_schema = pred.schema();
-    let mut rewriter = PredicateColumnsReassigner {
-        file_schema: file_schema.clone(),
-        full_schema,
-    };
-
     match pred.expr() {
         None => Ok(None),
         Some(expr) => {
-            let new_expr = expr.clone().rewrite(&mut rewriter)?;
-            let mut vistor = ColumnVistor {
-                part_schema: file_schema,
-                has_col_not_in_file: false,
+            // the columns must be in the full schema
+            let mut visitor = ColumnVisitor {
+                full_schema: pred.schema(),
+                file_schema: file_schema.clone(),
             };
-            new_expr.visit(&mut vistor)?;
-            if vistor.has_col_not_in_file {
-                return Ok(None);
-            }
-            Ok(Some(new_expr))
+            expr.visit(&mut visitor)?;
+
+            reassign_expr(expr, &pred.schema(), &file_schema)
         }
     }
 }
 
+/// Only goes down through the 'and's and 'or's at the top: there a part can be left out, which
+/// makes the predicate weaker. Inside of other expressions (e.g. not) it could become stronger.
+fn reassign_expr(
+    expr: Arc<dyn PhysicalExpr>,
+    full_schema: &SchemaRef,
+    file_schema: &SchemaRef,
+) -> TskvResult<Option<Arc<dyn PhysicalExpr>>, DataFusionError> {
+    if let Some(b_expr) = expr.as_any().downcast_ref::<BinaryExpr>() {
+        if matches!(b_expr.op(), Operator::And | Operator::Or) {
+            let left = reassign_expr(b_expr.left().clone(), full_schema, file_schema)?;
+            let right = reassign_expr(b_expr.right().clone(), full_schema, file_schema)?;
+            return Ok(match (left, right) {
+                (Some(left), Some(right)) => {
+                    Some(Arc::new(BinaryExpr::new(left, *b_expr.op(), right)))
+                }
+                (left, right) if matches!(b_expr.op(), Operator::And) => left.or(right),
+                _ => None,
+            });
+        }
+    }
+
+    let mut rewriter = PredicateColumnsReassigner {
+        file_schema: file_schema.clone(),
+        full_schema: full_schema.clone(),
+        has_col_not_in_file: false,
+    };
+    let new_expr = expr.rewrite(&mut rewriter)?;
+    if rewriter.has_col_not_in_file {
+        return Ok(None);
+    }
+    Ok(Some(new_expr))
+}
+
+/// The index in the file of the column which has this name in the full schema.
+fn index_in_file(name: &str, full_schema: &SchemaRef, file_schema: &SchemaRef) -> Option<usize> {
+    let column_id = full_schema
+        .field_with_name(name)
+        .ok()
+        .and_then(|f| f.metadata().get(COLUMN_ID_META_KEY));
+    file_schema.fields().iter().position(|f| {
+        match (column_id, f.metadata().get(COLUMN_ID_META_KEY)) {
+            (Some(id), Some(file_id)) => id == file_id,
+            _ => f.name() == name,
+        }
+    })
+}
+
 struct PredicateColumnsReassigner {
     file_schema: SchemaRef,
     full_schema: SchemaRef,
+    has_col_not_in_file: bool,
 }
 
-struct ColumnVistor {
-    part_schema: SchemaRef,
-    has_col_not_in_file: bool,
+struct ColumnVisitor {
+    full_schema: SchemaRef,
+    file_schema: SchemaRef,
 }
 
-impl TreeNodeVisitor for ColumnVistor {
+impl TreeNodeVisitor for ColumnVisitor {
     type N = Arc<dyn PhysicalExpr>;
 
     fn pre_visit(&mut self, node: &Self::N) -> datafusion::common::Result<VisitRecursion> {
         if let Some(column) = node.as_any().downcast_ref::<Column>() {
-            if self.part_schema.index_of(column.name()).is_err() {
-                self.has_col_not_in_file = true;
-                return Ok(VisitRecursion::Stop);
+            if self.file_schema.index_of(column.name()).is_err() {
+                // If the column is not in the full schema, should throw the error
+                self.full_schema.field_with_name(column.name())?;
             }
         }
         Ok(VisitRecursion::Continue)
@@ -253,47 +298,16 @@ impl TreeNodeRewriter for PredicateColumnsReassigner {
         expr: Arc<dyn PhysicalExpr>,
     ) -> TskvResult<Arc<dyn PhysicalExpr>, DataFusionError> {
         if let Some(column) = expr.as_any().downcast_ref::<Column>() {
-            // find the column index in file schema
-            let index = match self.file_schema.index_of(column.name()) {
-                Ok(idx) => idx,
-                Err(_) => {
-                    // the column expr must be in the full schema
-                    return match self.full_schema.field_with_name(column.name()) {
-                        Ok(_) => Ok(expr),
-                        Err(e) => {
-                            // If the column is not in the full schema, should throw the error
-                            Err(DataFusionError::ArrowError(e))
-                        }
-                    };
+            return match index_in_file(column.name(), &self.full_schema, &self.file_schema) {
+                Some(index) => Ok(Arc::new(Column::new(
+                    self.file_schema.field(index).name(),
+                    index,
+                ))),
+                None => {
+                    self.has_col_not_in_file = true;
+                    Ok(expr)
                 }
             };
-            return Ok(Arc::new(Column::new(column.name(), index)));
-        } else if let Some(b_expr) = expr.as_any().downcast_ref::<BinaryExpr>() {
-            let mut visitor = ColumnVistor {
-                part_schema: self.file_schema.clone(),
-                has_col_not_in_file: false,
-            };
-            b_expr.left().visit(&mut visitor)?;
-            let left = visitor.has_col_not_in_file;
-
-            visitor.has_col_not_in_file = false;
-            b_expr.right().visit(&mut visitor)?;
-            let right = visitor.has_col_not_in_file;
-
-            if matches!(b_expr.op(), Operator::And) {
-                return match (left, right) {
-                    (false, false) => Ok(expr),
-                    (true, true) => Ok(Arc::new(Literal::new(ScalarValue::Boolean(Some(true))))),
-                    (true, _) => Ok(b_expr.right().clone()),
-                    (_, true) => Ok(b_expr.left().clone()),
-                };
-            }
-            if matches!(b_expr.op(), Operator::Or) {
-                return match (left, right) {
-                    (false, false) => Ok(expr),
-                    _ => Ok(Arc::new(Literal::new(ScalarValue::Boolean(Some(true))))),
-                };
-            }
         }
 
         Ok(expr)
-- 
2.43.0


From 51586cc4606bd154620b38fe4e82367c2e2927c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 57/87] fix: a write uses the schema that the meta store
 accepted after a conflict

---
 tskv/src/schema/schemas.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 5527f06..88fd954 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -163,11 +163,12 @@ impl DBschemas {
                 .create_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::TableAlreadyExists { .. }) = res.as_ref() {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
-            } else {
-                res?;
+                // This schema was refused, its column ids may be those of other columns.
+                return self
+                    .check_field_type_or_else_add_impl(fb_schema, true)
+                    .await;
             }
+            res?;
             schema
         } else if schema_changed {
             schema.to_mut().schema_version += 1;
@@ -176,11 +177,12 @@ impl DBschemas {
                 .update_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
             if let Err(MetaError::UpdateTableConflict { .. }) = &res {
-                self.check_field_type_or_else_add_impl(fb_schema, true)
-                    .await?;
-            } else {
-                res?;
+                // This schema was refused, its column ids may be those of other columns.
+                return self
+                    .check_field_type_or_else_add_impl(fb_schema, true)
+                    .await;
             }
+            res?;
             schema
         } else {
             // Safety
-- 
2.43.0


From bcc76b4273c974f25f74a085d29ce002d428bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 58/87] fix: rows written with an older schema do not hide the
 columns of newer rows in the cache

---
 tskv/src/mem_cache/series_data.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/tskv/src/mem_cache/series_data.rs b/tskv/src/mem_cache/series_data.rs
index 01ed7de..6192c50 100644
--- a/tskv/src/mem_cache/series_data.rs
+++ b/tskv/src/mem_cache/series_data.rs
@@ -43,8 +43,13 @@ impl SeriesData {
     pub fn write(&mut self, group: RowGroup) {
         self.range.merge(&group.range);
 
-        for item in self.groups.iter_mut().rev() {
-            if item.schema.schema_version == group.schema.schema_version {
+        // Only the newest group: the rows of a group overwrite those of the groups before it.
+        // The columns may differ although the version is the same, if the schema of the group
+        // was altered, or if that of the row is not up to date.
+        if let Some(item) = self.groups.back_mut() {
+            if item.schema.schema_version == group.schema.schema_version
+                && item.schema.fields_id() == group.schema.fields_id()
+            {
                 item.range.merge(&group.range);
                 // Of rows with the same timestamp the newest goes first.
                 group.rows.get_rows().into_iter().rev().for_each(|row| {
@@ -208,11 +213,11 @@ impl SeriesData {
             .collect()
     }
     pub fn get_schema(&self) -> Option<Arc<TskvTableSchema>> {
-        if let Some(item) = self.groups.back() {
-            return Some(item.schema.clone());
-        }
-
-        None
+        // A row may be written with an older schema than the rows before it.
+        self.groups
+            .iter()
+            .max_by_key(|g| g.schema.schema_version)
+            .map(|g| g.schema.clone())
     }
 
     #[allow(clippy::type_complexity)]
-- 
2.43.0


From 1b2e2fc3798fda3a8b9db6a7e5f6a6d02ade5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 59/87] fix: replaying a write skips only the values whose
 column or table is gone

---
 tskv/src/database.rs           |  38 +++++++++---
 tskv/src/mem_cache/row_data.rs | 110 +++++++++++++++++----------------
 2 files changed, 88 insertions(+), 60 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index 6aaaa88..bd64950 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -217,13 +217,19 @@ impl Database {
 
             let fb_schema = FbSchema::from_fb_column(table_name, columns)?;
             let schema = if strict_write {
-                self.schemas
+                let schema = self
+                    .schemas
                     .get_table_schema(fb_schema.table)
                     .await
-                    .context(SchemaSnafu)?
-                    .context(TableNotFoundSnafu {
-                        table: fb_schema.table.to_string(),
-                    })?
+                    .context(SchemaSnafu)?;
+                if schema.is_none() && recover_from_wal {
+                    // The table has been dropped since, the other tables have not.
+                    trace::info!("recover: table {} not found", fb_schema.table);
+                    continue;
+                }
+                schema.context(TableNotFoundSnafu {
+                    table: fb_schema.table.to_string(),
+                })?
             } else {
                 self.schemas
                     .check_field_type_or_else_add(&fb_schema)
@@ -242,7 +248,14 @@ impl Database {
             .await?;
             // every row produces a sid
             debug_assert_eq!(num_rows, sids.len());
-            self.build_row_data(&columns, schema.clone(), &mut map, precision, &sids)?;
+            self.build_row_data(
+                &columns,
+                schema.clone(),
+                &mut map,
+                precision,
+                &sids,
+                recover_from_wal,
+            )?;
         }
         Ok(map)
     }
@@ -254,6 +267,7 @@ impl Database {
         map: &mut HashMap<SeriesId, (SeriesKey, RowGroup)>,
         precision: Precision,
         sids: &[(u32, SeriesKey)],
+        recover_from_wal: bool,
     ) -> TskvResult<()> {
         let mut sid_map: HashMap<u32, (SeriesKey, Vec<usize>)> = HashMap::new();
         for (row_count, (sid, series_key)) in sids.iter().enumerate() {
@@ -264,8 +278,16 @@ impl Database {
             buf_and_row_idx.1.push(row_count);
         }
         for (sid, (series_key_buf, row_idx)) in sid_map.into_iter() {
-            let rows =
-                RowData::point_to_row_data(table_schema.as_ref(), precision, columns, row_idx)?;
+            let rows = RowData::point_to_row_data(
+                table_schema.as_ref(),
+                precision,
+                columns,
+                row_idx,
+                recover_from_wal,
+            )?;
+            if rows.is_empty() {
+                continue;
+            }
             let mut row_group = RowGroup {
                 schema: table_schema.clone(),
                 rows: OrderedRowsData::new(),
diff --git a/tskv/src/mem_cache/row_data.rs b/tskv/src/mem_cache/row_data.rs
index 31a05dc..9635c93 100644
--- a/tskv/src/mem_cache/row_data.rs
+++ b/tskv/src/mem_cache/row_data.rs
@@ -5,7 +5,8 @@ use arrow_buffer::{BooleanBuffer, Buffer};
 use flatbuffers::{ForwardsUOffset, Vector};
 use minivec::MiniVec;
 use models::field_value::FieldVal;
-use models::schema::tskv_table_schema::TskvTableSchema;
+use models::schema::tskv_table_schema::{ColumnType, TskvTableSchema};
+use models::ValueType;
 use protos::models::{Column, FieldType};
 use skiplist::OrderedSkipList;
 use snafu::OptionExt;
@@ -32,6 +33,7 @@ impl RowData {
         from_precision: Precision,
         columns: &Vector<ForwardsUOffset<Column>>,
         row_idx: Vec<usize>,
+        recover_from_wal: bool,
     ) -> TskvResult<Vec<RowData>> {
         let fields_id = schema.fields_id();
         let mut res = Vec::with_capacity(row_idx.len());
@@ -56,16 +58,11 @@ impl RowData {
                                 continue;
                             }
                             let val = column.int_values()?.get(row_count);
-                            match schema.column(column_name) {
-                                None => {
-                                    error!("column {} not found in schema", column_name);
-                                }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Integer(val));
-                                    has_fields = true;
-                                }
+                            if let Some(idx) =
+                                Self::field_index(schema, column_name, ValueType::Integer)
+                            {
+                                fields[idx] = Some(FieldVal::Integer(val));
+                                has_fields = true;
                             }
                         }
                         FieldType::Float => {
@@ -79,16 +76,11 @@ impl RowData {
                                 continue;
                             }
                             let val = column.float_values()?.get(row_count);
-                            match schema.column(column_name) {
-                                None => {
-                                    error!("column {} not found in schema", column_name);
-                                }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Float(val));
-                                    has_fields = true;
-                                }
+                            if let Some(idx) =
+                                Self::field_index(schema, column_name, ValueType::Float)
+                            {
+                                fields[idx] = Some(FieldVal::Float(val));
+                                has_fields = true;
                             }
                         }
                         FieldType::Unsigned => {
@@ -102,16 +94,11 @@ impl RowData {
                                 continue;
                             }
                             let val = column.uint_values()?.get(row_count);
-                            match schema.column(column_name) {
-                                None => {
-                                    error!("column {} not found in schema", column_name);
-                                }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Unsigned(val));
-                                    has_fields = true;
-                                }
+                            if let Some(idx) =
+                                Self::field_index(schema, column_name, ValueType::Unsigned)
+                            {
+                                fields[idx] = Some(FieldVal::Unsigned(val));
+                                has_fields = true;
                             }
                         }
                         FieldType::Boolean => {
@@ -125,16 +112,11 @@ impl RowData {
                                 continue;
                             }
                             let val = column.bool_values()?.get(row_count);
-                            match schema.column(column_name) {
-                                None => {
-                                    error!("column {} not found in schema", column_name);
-                                }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] = Some(FieldVal::Boolean(val));
-                                    has_fields = true;
-                                }
+                            if let Some(idx) =
+                                Self::field_index(schema, column_name, ValueType::Boolean)
+                            {
+                                fields[idx] = Some(FieldVal::Boolean(val));
+                                has_fields = true;
                             }
                         }
                         FieldType::String => {
@@ -148,17 +130,11 @@ impl RowData {
                                 continue;
                             }
                             let val = column.string_values()?.get(row_count);
-                            match schema.column(column_name) {
-                                None => {
-                                    error!("column {} not found in schema", column_name);
-                                }
-                                Some(column) => {
-                                    let field_id = column.id;
-                                    let field_idx = fields_id.get(&field_id).unwrap();
-                                    fields[*field_idx] =
-                                        Some(FieldVal::Bytes(MiniVec::from(val.as_bytes())));
-                                    has_fields = true;
-                                }
+                            if let Some(idx) =
+                                Self::field_index(schema, column_name, ValueType::String)
+                            {
+                                fields[idx] = Some(FieldVal::Bytes(MiniVec::from(val.as_bytes())));
+                                has_fields = true;
                             }
                         }
                         _ => {
@@ -171,6 +147,10 @@ impl RowData {
             }
 
             if !has_fields {
+                if recover_from_wal {
+                    // The columns have been dropped since the row was written.
+                    continue;
+                }
                 return Err(FieldsIsEmptySnafu.build());
             }
 
@@ -192,6 +172,32 @@ impl RowData {
         Ok(res)
     }
 
+    /// The index of the field in the row, if the column exists and has this type.
+    fn field_index(
+        schema: &TskvTableSchema,
+        column_name: &str,
+        value_type: ValueType,
+    ) -> Option<usize> {
+        let column = match schema.column(column_name) {
+            Some(column) => column,
+            None => {
+                error!("column {} not found in schema", column_name);
+                return None;
+            }
+        };
+        if !column
+            .column_type
+            .matches_type(&ColumnType::Field(value_type))
+        {
+            error!(
+                "column {} is of type {}",
+                column_name, column.column_type
+            );
+            return None;
+        }
+        schema.fields_id().get(&column.id).copied()
+    }
+
     pub fn size(&self) -> usize {
         let mut size = 0;
         for i in self.fields.iter() {
-- 
2.43.0


From 1678f3b4ae7219ef1eb579a4793b1a20c2ea36ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 60/87] fix: a strict write refuses columns that the table does
 not have or has with another type

---
 tskv/src/database.rs       | 16 ++++++++++++++--
 tskv/src/schema/schemas.rs | 29 ++++++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/tskv/src/database.rs b/tskv/src/database.rs
index bd64950..1cf8166 100644
--- a/tskv/src/database.rs
+++ b/tskv/src/database.rs
@@ -227,9 +227,21 @@ impl Database {
                     trace::info!("recover: table {} not found", fb_schema.table);
                     continue;
                 }
-                schema.context(TableNotFoundSnafu {
+                let schema = schema.context(TableNotFoundSnafu {
                     table: fb_schema.table.to_string(),
-                })?
+                })?;
+                if !recover_from_wal {
+                    DBschemas::check_columns(&fb_schema, &schema).context(SchemaSnafu)?;
+                } else if !fb_schema
+                    .tag_names
+                    .iter()
+                    .all(|n| schema.column(n).is_some_and(|c| c.column_type.is_tag()))
+                {
+                    // The points were refused, or their series can not be known any more.
+                    trace::info!("recover: tags of table {} not found", fb_schema.table);
+                    continue;
+                }
+                schema
             } else {
                 self.schemas
                     .check_field_type_or_else_add(&fb_schema)
diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 88fd954..68b69fd 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -12,7 +12,7 @@ use models::schema::tskv_table_schema::{
 use snafu::OptionExt;
 
 use crate::database::FbSchema;
-use crate::schema::error::{ColumnTypeSnafu, SchemaResult};
+use crate::schema::error::{ColumnNotFoundSnafu, ColumnTypeSnafu, SchemaResult};
 
 #[derive(Debug)]
 pub struct DBschemas {
@@ -192,6 +192,33 @@ impl DBschemas {
         Ok(schema)
     }
 
+    /// Every column of the points must be a column of the table, and of the same type.
+    pub fn check_columns(fb_schema: &FbSchema<'_>, schema: &TskvTableSchema) -> SchemaResult<()> {
+        let tags = fb_schema
+            .tag_names
+            .iter()
+            .map(|n| (n.to_string(), ColumnType::Tag));
+        let fields = fb_schema
+            .field_names
+            .iter()
+            .zip(fb_schema.field_types.iter())
+            .map(|(n, t)| (n.to_string(), ColumnType::from_proto_field_type(*t)));
+        for (name, column_type) in tags.chain(fields) {
+            let column = schema.column(&name).with_context(|| ColumnNotFoundSnafu {
+                column: name.clone(),
+            })?;
+            if !column.column_type.matches_type(&column_type) {
+                return Err(ColumnTypeSnafu {
+                    column: name,
+                    found: column_type,
+                    expected: column.column_type.clone(),
+                }
+                .build());
+            }
+        }
+        Ok(())
+    }
+
     pub async fn check_field_type_or_else_add(
         &self,
         fb_schema: &FbSchema<'_>,
-- 
2.43.0


From d20694a5315f1afbed8f0c2f4651d794cd65c78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 61/87] fix: replaying a tag update does not bring back the
 series of a table dropped later

---
 tskv/src/vnode_store.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tskv/src/vnode_store.rs b/tskv/src/vnode_store.rs
index 11843b3..a7e3a62 100644
--- a/tskv/src/vnode_store.rs
+++ b/tskv/src/vnode_store.rs
@@ -478,6 +478,16 @@ impl VnodeStorage {
         let mut check_conflict = true;
         if ctx.apply_type == replication::APPLY_TYPE_WAL {
             check_conflict = false;
+
+            // The series of a table that was dropped later must not come back.
+            let db = self.db.read().await;
+            let mut existing = Vec::with_capacity(series.len());
+            for key in series {
+                if db.get_table_schema(key.table()).await?.is_some() {
+                    existing.push(key);
+                }
+            }
+            series = existing;
         }
         let (old_series_keys, new_series_keys, sids) = self
             .ts_index
-- 
2.43.0


From b5e0835e4b08f5decbb4fac5887c6dbaafaac498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:28 +0000
Subject: [PATCH 62/87] fix: updating a dropped table is refused instead of
 bringing the table back

---
 meta/src/store/storage.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index fe1f3ac..a5645a5 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1136,21 +1136,24 @@ impl StateMachine {
         schema: &TableSchema,
     ) -> MetaResult<()> {
         let key = KeyPath::tenant_schema_name(cluster, tenant, schema.db(), schema.name());
-        if let Some(val) = self.get_struct::<TableSchema>(&key)? {
-            match (val, schema) {
-                (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
-                    if val.schema_version + 1 != schema.schema_version {
-                        return Err(MetaError::UpdateTableConflict {
-                            name: schema.name.clone(),
-                        });
-                    }
-                }
-                _ => {
-                    return Err(MetaError::NotSupport {
-                        msg: "update external table".to_string(),
+        let val = self
+            .get_struct::<TableSchema>(&key)?
+            .ok_or_else(|| MetaError::TableNotFound {
+                table: schema.name().to_string(),
+            })?;
+        match (val, schema) {
+            (TableSchema::TsKvTableSchema(val), TableSchema::TsKvTableSchema(schema)) => {
+                if val.schema_version + 1 != schema.schema_version {
+                    return Err(MetaError::UpdateTableConflict {
+                        name: schema.name.clone(),
                     });
                 }
             }
+            _ => {
+                return Err(MetaError::NotSupport {
+                    msg: "update external table".to_string(),
+                });
+            }
         }
 
         self.insert(&key, &value_encode(schema)?)?;
-- 
2.43.0


From 3b02b610f864a8457f1161c8656de87479c880e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 63/87] fix: dropping a user removes its memberships

---
 meta/src/store/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index a5645a5..93dbc62 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1313,7 +1313,7 @@ impl StateMachine {
         if let Some(user) = self.get_struct::<UserDesc>(&user_key)? {
             // first delete member of tenant
             for tenant in self.children_data::<Tenant>(&tenants_key)?.into_values() {
-                let member_key = KeyPath::member(tenant.name(), tenant.name(), user.id());
+                let member_key = KeyPath::member(cluster, tenant.name(), user.id());
                 self.remove(&member_key)?;
             }
             self.remove(&user_key)?;
-- 
2.43.0


From c9474871f063fd5b2eb1cb1f09979a767357300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 64/87] fix: a new bucket does not overlap buckets made with
 another vnode duration

---
 meta/src/store/storage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 93dbc62..2672283 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1231,6 +1231,14 @@ impl StateMachine {
                 .vnode_duration()
                 .to_precision(*db_schema.config.precision()),
         );
+        // the vnode duration may have been altered: do not overlap the buckets already there
+        for val in buckets.values() {
+            if val.end_time <= *ts {
+                bucket.start_time = bucket.start_time.max(val.end_time);
+            } else {
+                bucket.end_time = bucket.end_time.min(val.start_time);
+            }
+        }
         let (group, used) = allocation_replication_set(
             node_list,
             db_schema.options.shard_num() as u32,
-- 
2.43.0


From 3eaac5b8efa9b95e3cee2359220586a3bcb2bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 65/87] fix: after a snapshot is restored, watchers are told to
 synchronise in full

---
 meta/src/store/command.rs | 9 +++++++++
 meta/src/store/storage.rs | 2 ++
 2 files changed, 11 insertions(+)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index fc25f74..a8f1b69 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -374,6 +374,15 @@ impl Watch {
         let _ = self.sender.send(());
     }
 
+    pub fn clear_logs(&self) {
+        {
+            let mut logs = self.logs.write();
+            *logs = CircleBuf::new(logs.capacity);
+        }
+
+        let _ = self.sender.send(());
+    }
+
     pub fn subscribe(&self) -> broadcast::Receiver<()> {
         self.sender.subscribe()
     }
diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 2672283..46d0d50 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -101,6 +101,8 @@ impl ApplyStorage for StateMachine {
             self.db.put(&mut writer, key, val).context(HeedSnafu)?;
         }
         writer.commit().context(HeedSnafu)?;
+        // the change logs do not lead to the restored data
+        self.watch.clear_logs();
 
         Ok(())
     }
-- 
2.43.0


From 2e3957cc1f484b03733e6255a08e33a5395c500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 66/87] fix: the id of a new role is the same on every meta
 replica

---
 meta/src/store/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index 46d0d50..e3fe7a1 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -8,7 +8,7 @@ use models::auth::privilege::DatabasePrivilege;
 use models::auth::role::{CustomTenantRole, SystemTenantRole, TenantRoleIdentifier};
 use models::auth::user::{UserDesc, UserOptions};
 use models::meta_data::*;
-use models::oid::{Identifier, Oid, UuidGenerator};
+use models::oid::{Identifier, Oid};
 use models::schema::database_schema::DatabaseSchema;
 use models::schema::query_info::QueryInfo;
 use models::schema::resource_info::ResourceInfo;
@@ -1543,7 +1543,8 @@ impl StateMachine {
             });
         }
 
-        let oid = UuidGenerator::default().next_id();
+        // the same on every replica
+        let oid = self.fetch_and_add_incr_id(cluster, 1)? as Oid;
         let role = CustomTenantRole::new(
             oid,
             role_name.to_string(),
-- 
2.43.0


From 6c5ee99a84fc784d80ca30c6f1978e02f4e0752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:22 +0000
Subject: [PATCH 67/87] fix: watchers of one tenant are told of changes of the
 tenant itself

---
 meta/src/store/command.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/src/store/command.rs b/meta/src/store/command.rs
index a8f1b69..d603b3b 100644
--- a/meta/src/store/command.rs
+++ b/meta/src/store/command.rs
@@ -428,7 +428,7 @@ impl Watch {
 
             let prefix = KeyPath::tenants(cluster);
             if let Some(sub_str) = entry.key.strip_prefix(&prefix) {
-                if let Some((tenant, _)) = sub_str.split_once('/') {
+                if let Some(tenant) = sub_str.split('/').next() {
                     if tenants.contains(tenant) {
                         return true;
                     }
-- 
2.43.0


From 154b1d5ec69ff2d0150db7299fd0b23e10200bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 68/87] fix: every meta replica places a new bucket on the same
 nodes

---
 meta/src/store/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/meta/src/store/storage.rs b/meta/src/store/storage.rs
index e3fe7a1..eeaa3bc 100644
--- a/meta/src/store/storage.rs
+++ b/meta/src/store/storage.rs
@@ -1179,7 +1179,8 @@ impl StateMachine {
             .filter(|(_, m)| m.is_healthy())
             .collect::<Vec<_>>();
 
-        node_info_list.sort_by_key(|(_, m)| Reverse(m.disk_free));
+        // one order on every replica
+        node_info_list.sort_by_key(|(n, m)| (Reverse(m.disk_free), n.id));
         Ok(node_info_list.into_iter().map(|(n, _)| n).collect())
     }
 
-- 
2.43.0


From 3f61784331853fab45dda43da5b4785475855b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 69/87] fix: the watch of metadata goes back to the version a
 new tenant was read at

fetch_min returns the old value, which was then stored back, so changes of
the tenant made between the reading of its data and the watch's position
were never delivered. The aborted task could store a later version, too.
---
 meta/src/model/meta_admin.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index c5d4475..11148d5 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -298,21 +298,18 @@ impl AdminMeta {
     }
 
     async fn watch_task_manager(admin: Arc<AdminMeta>, mut receiver: Receiver<UseTenantInfo>) {
-        let mut task_handle: Option<tokio::task::JoinHandle<()>>;
-
         loop {
             let handle = tokio::spawn(AdminMeta::watch_data_task(admin.clone()));
-            task_handle = Some(handle);
 
             if let Some(info) = receiver.recv().await {
-                if let Some(handle) = task_handle {
-                    handle.abort();
-                }
+                // until it has ended the task may still store the version it has reached
+                handle.abort();
+                let _ = handle.await;
 
-                let base_ver = admin
+                // the new tenant's changes are wanted since its data were read
+                admin
                     .watch_version
                     .fetch_min(info.version, Ordering::Relaxed);
-                admin.watch_version.store(base_ver, Ordering::Relaxed);
 
                 let mut tenants = admin.watch_tenants.write();
                 if info.name.is_empty() {
-- 
2.43.0


From 911b72d3091c13c1b4fd176f99cd41ad26b013f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 70/87] fix: a tenant's changes reach the nodes that keep it in
 their caches

The cached tenant kept the options it was first read with, so a tenant
dropped (hidden), altered, or removed by another node stayed usable as it
was, with its old limits; and the removal of a limiter was never taken in.
---
 meta/src/limiter/limiter_manager.rs |  8 ++++----
 meta/src/model/meta_admin.rs        | 21 ++++++++++++++++++++-
 meta/src/model/meta_tenant.rs       | 11 +++++++++++
 3 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/meta/src/limiter/limiter_manager.rs b/meta/src/limiter/limiter_manager.rs
index a1a4cf2..70e04d0 100644
--- a/meta/src/limiter/limiter_manager.rs
+++ b/meta/src/limiter/limiter_manager.rs
@@ -86,12 +86,12 @@ impl LimiterManager {
         if entry.tye == ENTRY_LOG_TYPE_NOP {
             return Ok(());
         }
-        let tenant: Tenant =
-            serde_json::from_str(&entry.val).map_err(|err| MetaError::SerdeMsgInvalid {
-                err: err.to_string(),
-            })?;
         let key = LimiterKey::tenant_key(tenant_name.into());
         if entry.tye == ENTRY_LOG_TYPE_SET {
+            let tenant: Tenant =
+                serde_json::from_str(&entry.val).map_err(|err| MetaError::SerdeMsgInvalid {
+                    err: err.to_string(),
+                })?;
             let limiter_config = LimiterConfig::TenantRequestLimiterConfig {
                 tenant: tenant_name.to_string(),
                 config: Box::new(tenant.options().request_config().cloned()),
diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index 11148d5..70a28b8 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -387,8 +387,12 @@ impl AdminMeta {
 
             if len > 3 && strs[2] == key_path::TENANTS {
                 let tenant_name = strs[3];
+                if len == 4 {
+                    let _ = self.limiters.process_watch_log(tenant_name, entry).await;
+                    self.process_tenant_watch_log(tenant_name, entry);
+                    continue;
+                }
                 let opt_client = self.tenants.read().get(tenant_name).cloned();
-                let _ = self.limiters.process_watch_log(tenant_name, entry).await;
                 if let Some(client) = opt_client {
                     let _ = client.process_watch_log(entry).await;
                 }
@@ -404,6 +408,21 @@ impl AdminMeta {
         }
     }
 
+    // the tenant itself was created, altered or dropped
+    fn process_tenant_watch_log(&self, name: &str, entry: &EntryLog) {
+        let mut tenants = self.tenants.write();
+        if entry.tye == command::ENTRY_LOG_TYPE_SET {
+            let Ok(tenant) = serde_json::from_str::<Tenant>(&entry.val) else {
+                return;
+            };
+            if let Some(meta) = tenants.get_mut(name) {
+                *meta = meta.with_tenant(tenant);
+            }
+        } else if entry.tye == command::ENTRY_LOG_TYPE_DEL {
+            tenants.remove(name);
+        }
+    }
+
     pub async fn process_watch_log(&self, entry: &EntryLog) -> MetaResult<()> {
         let strs: Vec<&str> = entry.key.split('/').collect();
 
diff --git a/meta/src/model/meta_tenant.rs b/meta/src/model/meta_tenant.rs
index 8e5d94d..857200f 100644
--- a/meta/src/model/meta_tenant.rs
+++ b/meta/src/model/meta_tenant.rs
@@ -69,6 +69,17 @@ impl TenantMeta {
         Ok(client)
     }
 
+    // the same metadata of the tenant as it is now
+    pub fn with_tenant(&self, tenant: Tenant) -> Arc<Self> {
+        Arc::new(Self {
+            cluster: self.cluster.clone(),
+            tenant,
+            meta_url: self.meta_url.clone(),
+            data: RwLock::new(self.data.read().clone()),
+            client: self.client.clone(),
+        })
+    }
+
     pub async fn sync_all_tenant_metadata(&self) -> MetaResult<()> {
         let req = command::ReadCommand::TenantMetaData(self.cluster.clone(), self.tenant_name());
         let resp = self.client.read::<TenantMetaData>(&req).await?;
-- 
2.43.0


From 423bf27dbfd3925c6d9b77aac0173f5bfa799543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 71/87] fix: a node that moved to another address is not called
 at the old one

---
 meta/src/model/meta_admin.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index 70a28b8..f6e55a8 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -191,21 +191,27 @@ impl AdminMeta {
         }
 
         let info = self.node_info_by_id(node_id).await?;
-        let connector = Endpoint::from_shared(format!("http://{}", info.grpc_addr.clone()))
-            .map_err(|err| MetaError::ConnectServerError {
-                addr: info.grpc_addr.clone(),
+        let addr = info.grpc_addr;
+        let connector = Endpoint::from_shared(format!("http://{}", addr)).map_err(|err| {
+            MetaError::ConnectServerError {
+                addr: addr.clone(),
                 msg: err.to_string(),
-            })?;
+            }
+        })?;
 
         let channel = connector
             .connect()
             .await
             .map_err(|err| MetaError::ConnectServerError {
-                addr: info.grpc_addr,
+                addr: addr.clone(),
                 msg: err.to_string(),
             })?;
 
-        self.conn_map.write().insert(node_id, channel.clone());
+        // unless the node has moved meanwhile
+        let mut conns = self.conn_map.write();
+        if self.data_nodes.read().get(&node_id).map(|n| &n.grpc_addr) == Some(&addr) {
+            conns.insert(node_id, channel.clone());
+        }
 
         Ok(channel)
     }
@@ -227,6 +233,8 @@ impl AdminMeta {
                 nodes.insert(item.id, item.clone());
             }
         }
+        // nodes may have gone or moved
+        self.conn_map.write().clear();
 
         let req = command::ReadCommand::Users(self.cluster());
         let resp = self.client.read::<Vec<UserDesc>>(&req).await?;
@@ -431,7 +439,11 @@ impl AdminMeta {
             if let Ok(node_id) = serde_json::from_str::<u64>(strs[3]) {
                 if entry.tye == command::ENTRY_LOG_TYPE_SET {
                     if let Ok(info) = serde_json::from_str::<NodeInfo>(&entry.val) {
-                        self.data_nodes.write().insert(node_id, info);
+                        let addr = info.grpc_addr.clone();
+                        let old = self.data_nodes.write().insert(node_id, info);
+                        if old.map(|n| n.grpc_addr) != Some(addr) {
+                            self.conn_map.write().remove(&node_id);
+                        }
                     }
                 } else if entry.tye == command::ENTRY_LOG_TYPE_DEL {
                     self.data_nodes.write().remove(&node_id);
-- 
2.43.0


From 315f6e8d2c590fe97d27957fb431a8706440d101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 72/87] fix: a cached tenant is not older than the metadata
 kept with it

The tenant was read (or given by the answer of a change) before its
metadata, and changes of it in between were not told by the watch, which
starts from the version of the metadata. The limiter is made of it too.
---
 meta/src/model/meta_admin.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index f6e55a8..16b00da 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -655,14 +655,6 @@ impl AdminMeta {
     pub async fn create_tenant_meta(&self, tenant_info: Tenant) -> MetaResult<MetaClientRef> {
         let tenant_name = tenant_info.name().to_string();
 
-        let limiter_key = LimiterKey(LimiterType::Tenant, tenant_name.clone());
-        let config = LimiterConfig::TenantRequestLimiterConfig {
-            tenant: tenant_name.clone(),
-            config: Box::new(tenant_info.options().request_config().cloned()),
-        };
-
-        self.limiters.create_limiter(limiter_key, config).await?;
-
         let client = TenantMeta::new(
             self.cluster(),
             tenant_info,
@@ -671,6 +663,26 @@ impl AdminMeta {
         )
         .await?;
 
+        // The watch tells of changes since the version of the metadata just read, so the tenant
+        // must not be older than that.
+        let req = command::ReadCommand::Tenant(self.cluster(), tenant_name.clone(), false);
+        let tenant_info = self
+            .client
+            .read::<Option<Tenant>>(&req)
+            .await?
+            .ok_or_else(|| MetaError::TenantNotFound {
+                tenant: tenant_name.clone(),
+            })?;
+        let client = client.with_tenant(tenant_info);
+
+        let limiter_key = LimiterKey(LimiterType::Tenant, tenant_name.clone());
+        let config = LimiterConfig::TenantRequestLimiterConfig {
+            tenant: tenant_name.clone(),
+            config: Box::new(client.tenant().options().request_config().cloned()),
+        };
+
+        self.limiters.create_limiter(limiter_key, config).await?;
+
         self.tenants
             .write()
             .insert(tenant_name.clone(), client.clone());
@@ -752,8 +764,7 @@ impl AdminMeta {
         let req =
             command::WriteCommand::AlterTenant(self.cluster(), name.to_string(), merged_options);
         let tenant = self.client.write::<Tenant>(&req).await?;
-        let tenant_meta = self.create_tenant_meta(tenant).await?;
-        self.tenants.write().insert(name.to_string(), tenant_meta);
+        self.create_tenant_meta(tenant).await?;
         Ok(())
     }
     // 合并 limiter_config 的辅助函数
@@ -835,8 +846,7 @@ impl AdminMeta {
             tenant_is_hidden,
         );
         let tenant = self.client.write::<Tenant>(&req).await?;
-        let tenant_meta = self.create_tenant_meta(tenant).await?;
-        self.tenants.write().insert(name.to_string(), tenant_meta);
+        self.create_tenant_meta(tenant).await?;
         Ok(())
     }
 
-- 
2.43.0


From 72044498bfc352f5e1c2e4bb832586856477ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 73/87] fix: a node drops a tenant that it does not have in its
 cache

The drop was silently left out, e.g. when the task of a delayed drop was
carried out by a node started since.
---
 meta/src/model/meta_admin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/src/model/meta_admin.rs b/meta/src/model/meta_admin.rs
index 16b00da..4dc0979 100644
--- a/meta/src/model/meta_admin.rs
+++ b/meta/src/model/meta_admin.rs
@@ -851,12 +851,14 @@ impl AdminMeta {
     }
 
     pub async fn drop_tenant(&self, name: &str) -> MetaResult<bool> {
-        // notice: can't move it to if clause
-        let exist = self.tenants.write().remove(name).is_some();
+        // whether or not this node has had to do with the tenant
+        let req = command::ReadCommand::Tenant(self.cluster(), name.to_string(), false);
+        let exist = self.client.read::<Option<Tenant>>(&req).await?.is_some();
         if exist {
             let req = command::WriteCommand::DropTenant(self.cluster(), name.to_string());
 
             self.client.write::<()>(&req).await?;
+            self.tenants.write().remove(name);
             let limiter_key = LimiterKey::tenant_key(name.to_string());
             self.limiters.remove_limiter(&limiter_key);
         }
-- 
2.43.0


From ca665d5b3e878861bba25115acf9a3450f316956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 74/87] fix: a member's privileges are those of its role

The cached role was looked up by the id of the user: a role of that name
gave the user its privileges, and otherwise the cache was of no use.
---
 meta/src/model/meta_tenant.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/meta/src/model/meta_tenant.rs b/meta/src/model/meta_tenant.rs
index 857200f..a67d3df 100644
--- a/meta/src/model/meta_tenant.rs
+++ b/meta/src/model/meta_tenant.rs
@@ -216,12 +216,7 @@ impl TenantMeta {
         let privileges = match role {
             TenantRoleIdentifier::System(sys_role) => sys_role.to_privileges(tenant_id),
             TenantRoleIdentifier::Custom(ref role_name) => {
-                let cache = self
-                    .data
-                    .read()
-                    .roles
-                    .get(&user_desc.id().to_string())
-                    .cloned();
+                let cache = self.data.read().roles.get(role_name).cloned();
                 if let Some(role) = cache {
                     role.to_privileges(tenant_id)
                 } else {
-- 
2.43.0


From 25808016651acc3ea59974d66eb2c1dde5dbc910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 75/87] fix: a membership that has ended does not get back into
 a node's cache

The answer of a read was put into the cache although the watch could have
delivered the removal before.
---
 meta/src/model/meta_tenant.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/meta/src/model/meta_tenant.rs b/meta/src/model/meta_tenant.rs
index a67d3df..39277e0 100644
--- a/meta/src/model/meta_tenant.rs
+++ b/meta/src/model/meta_tenant.rs
@@ -249,12 +249,9 @@ impl TenantMeta {
             *user_id,
         );
 
-        let res = self.client.read::<Option<TenantRoleIdentifier>>(&req).await;
-        if let Ok(Some(role)) = &res {
-            let mut data = self.data.write();
-            data.members.insert(user_id.to_string(), role.clone());
-        }
-        res
+        // The cache is left to the watch: by now the membership may have ended, and nothing would
+        // take it out of there again.
+        self.client.read::<Option<TenantRoleIdentifier>>(&req).await
     }
 
     pub async fn members(&self) -> MetaResult<HashMap<String, TenantRoleIdentifier>> {
-- 
2.43.0


From fbf3085662a3379958b99fec667392a965b5f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 76/87] fix: a table's schema in a node's cache does not go
 back to an earlier one

The answer of a read replaced what the watch had delivered meanwhile, and
brought dropped tables back.
---
 meta/src/model/meta_tenant.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/meta/src/model/meta_tenant.rs b/meta/src/model/meta_tenant.rs
index 39277e0..546d7c5 100644
--- a/meta/src/model/meta_tenant.rs
+++ b/meta/src/model/meta_tenant.rs
@@ -504,26 +504,10 @@ impl TenantMeta {
         db: &str,
         table: &str,
     ) -> MetaResult<Option<TskvTableSchemaRef>> {
-        let req = ReadCommand::TableSchema(
-            self.cluster.clone(),
-            self.tenant.name().to_string(),
-            db.to_string(),
-            table.to_string(),
-        );
-        let rsp = self.client.read::<Option<TableSchema>>(&req).await?;
-        if let Some(TableSchema::TsKvTableSchema(val)) = rsp {
-            let mut data_w = self.data.write();
-            let db = data_w
-                .dbs
-                .get_mut(&val.db)
-                .ok_or_else(|| MetaError::DatabaseNotFound {
-                    database: val.db.clone(),
-                })?;
-            db.tables
-                .insert(val.name.clone(), TableSchema::TsKvTableSchema(val.clone()));
-            return Ok(Some(val));
-        }
-        Ok(None)
+        // With its version, as the watch may already have told of a later schema, or that the table
+        // was dropped, when the answer gets here.
+        self.sync_all_tenant_metadata().await?;
+        self.get_tskv_table_schema(db, table)
     }
 
     pub fn get_external_table_schema(
-- 
2.43.0


From 95859949dfd11f7ed64b6f7a73be8502388d638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 77/87] fix: a limiter of limits read earlier does not replace
 one of later limits

---
 meta/src/limiter/limiter_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meta/src/limiter/limiter_manager.rs b/meta/src/limiter/limiter_manager.rs
index 70e04d0..1c09955 100644
--- a/meta/src/limiter/limiter_manager.rs
+++ b/meta/src/limiter/limiter_manager.rs
@@ -75,8 +75,8 @@ impl LimiterManager {
                             msg: format!("couldn't found factory of {:?}", key.0),
                         })?;
                 let limiter = factories.create_default(key.clone()).await?;
-                self.insert_limiter(key.clone(), limiter.clone());
-                Ok(limiter)
+                // what was put in meanwhile is of later limits
+                Ok(self.limiters.write().entry(key).or_insert(limiter).clone())
             }
             Some(l) => Ok(l.clone()),
         }
-- 
2.43.0


From 9b0b0318d8077c486728756ed8a07d02ef3886eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:34 +0000
Subject: [PATCH 78/87] fix: a write to the name of an external or stream table
 is refused

It asked for the schema and tried to create the table in turns until the
stack overflowed, which ended the process.
---
 tskv/src/schema/schemas.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tskv/src/schema/schemas.rs b/tskv/src/schema/schemas.rs
index 68b69fd..d1df91d 100644
--- a/tskv/src/schema/schemas.rs
+++ b/tskv/src/schema/schemas.rs
@@ -162,7 +162,9 @@ impl DBschemas {
             let res = client
                 .create_table(&TableSchema::TsKvTableSchema(schema.clone()))
                 .await;
-            if let Err(MetaError::TableAlreadyExists { .. }) = res.as_ref() {
+            // When the meta store has just said that there is none, a table of another kind has the
+            // name, and asking again would not help.
+            if matches!(res, Err(MetaError::TableAlreadyExists { .. })) && !get_schema_from_meta {
                 // This schema was refused, its column ids may be those of other columns.
                 return self
                     .check_field_type_or_else_add_impl(fb_schema, true)
-- 
2.43.0


From 9a56495c6e7849cbf8d22876321f771eeb5fdf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 79/87] fix: an average read while values are added is of whole
 values

---
 common/metrics/src/average.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/common/metrics/src/average.rs b/common/metrics/src/average.rs
index 01d5a51..af6d097 100644
--- a/common/metrics/src/average.rs
+++ b/common/metrics/src/average.rs
@@ -1,25 +1,26 @@
-use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 
+use parking_lot::Mutex;
+
 use crate::metric_type::MetricType;
 use crate::metric_value::MetricValue;
 use crate::MetricRecorder;
 
 #[derive(Clone, Default, Debug)]
 pub struct U64Average {
-    count: Arc<AtomicU64>,
-    total: Arc<AtomicU64>,
+    /// The count and the total of the values added since the last read.
+    state: Arc<Mutex<(u64, u64)>>,
 }
 
 impl U64Average {
     pub fn add(&self, value: u64) {
-        self.count.fetch_add(1, Ordering::Relaxed);
-        self.total.fetch_add(value, Ordering::Relaxed);
+        let mut state = self.state.lock();
+        state.0 = state.0.wrapping_add(1);
+        state.1 = state.1.wrapping_add(value);
     }
 
     pub fn average(&self) -> u64 {
-        let count = self.count.swap(0, Ordering::Relaxed);
-        let total = self.total.swap(0, Ordering::Relaxed);
+        let (count, total) = std::mem::take(&mut *self.state.lock());
 
         total.checked_div(count).unwrap_or(0)
     }
-- 
2.43.0


From 3608016825adf0fa7d6a82c68b0cb9b1d0266e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 80/87] fix: a pop of a sharded cache does not give up while
 another shard has entries

ShardedSyncCache::pop chose one of the shards that had entries and popped that
one only: when another thread had emptied it in between, the pop found nothing
although other shards held entries all along.
---
 common/cache/src/sharded_sync_cache.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/common/cache/src/sharded_sync_cache.rs b/common/cache/src/sharded_sync_cache.rs
index 2da95b5..220f150 100644
--- a/common/cache/src/sharded_sync_cache.rs
+++ b/common/cache/src/sharded_sync_cache.rs
@@ -84,19 +84,11 @@ where
     }
 
     fn pop(&self) -> Option<(Self::K, Self::V)> {
-        let none_empty_shard = self
-            .shard
-            .iter()
-            .filter(|s| s.get_usage().ne(&0))
-            .collect::<Vec<_>>();
-
-        if none_empty_shard.is_empty() {
-            None
-        } else {
-            let shard_len = none_empty_shard.len();
-            let index = rand::thread_rng().next_u64() as usize % shard_len;
-            none_empty_shard.get(index)?.pop()
-        }
+        // Start from a random shard, and skip the empty ones.
+        let start = rand::thread_rng().next_u64() as usize % self.shard.len();
+        (0..self.shard.len())
+            .map(|i| &self.shard[(start + i) % self.shard.len()])
+            .find_map(|s| s.pop())
     }
 
     fn set_capacity(&self, capacity: NonZeroUsize) {
-- 
2.43.0


From 0b7accf77de47e31338fc8c77f3016934adbcf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 81/87] fix: a record file that ends within a record header is
 read to its end instead of beyond the buffer

---
 tskv/src/record_file/reader.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index 61af5cd..c8511a0 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -190,10 +190,16 @@ impl Reader {
     async fn find_record_header(&mut self) -> TskvResult<(usize, &[u8])> {
         loop {
             let magic_number_sli = self.read_buf(RECORD_MAGIC_NUMBER_LEN).await?;
+            if magic_number_sli.len() < RECORD_MAGIC_NUMBER_LEN {
+                return Err(TskvError::Eof);
+            }
             let magic_number = decode_be_u32(magic_number_sli);
             if magic_number == RECORD_MAGIC_NUMBER {
                 let pos = self.pos;
                 let header = self.read_buf(RECORD_HEADER_LEN).await?;
+                if header.len() < RECORD_HEADER_LEN {
+                    return Err(TskvError::Eof);
+                }
                 return Ok((pos, header));
             } else {
                 self.set_pos(self.pos + 1).await?;
-- 
2.43.0


From b49930a40a881280362e6449a3aed9e1078673ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 82/87] fix: the log of a vnode knows its last entry after all
 entries in its cache were deleted

---
 tskv/src/wal/wal_store.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 67b2941..f0d35b5 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -378,9 +378,13 @@ impl RaftEntryStorageInner {
 
     async fn wal_last_entry(&mut self) -> ReplicationResult<Option<RaftEntry>> {
         if let Some(entry) = self.entry_cache.last() {
-            Ok(Some(entry.clone()))
-        } else {
-            Ok(None)
+            return Ok(Some(entry.clone()));
+        }
+
+        // The cache holds the newest entries only, it is empty when all of them were deleted.
+        match self.max_sequence() {
+            u64::MAX => Ok(None),
+            index => self.read_raft_entry(index).await,
         }
     }
 
-- 
2.43.0


From ccd21955417fbfc449066df9682e8b74896b8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 83/87] fix: log entries that were overwritten are not read
 from the buffer of an older reader

---
 tskv/src/wal/wal_store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index f0d35b5..55149bb 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -329,6 +329,11 @@ impl RaftEntryStorageInner {
                 let pos = item.del_after(seq_no);
                 if pos > 0 {
                     let _ = self.wal.truncate_wal_file(item.file_id, pos).await;
+                    // The reader may still hold what was cut off in its buffer.
+                    item.reader =
+                        self.wal.wal_reader(item.file_id).await.map_err(|e| {
+                            ReplicationError::RaftInternalErr { msg: e.to_string() }
+                        })?;
                 }
             }
 
-- 
2.43.0


From b232c259a976b8479b6cb0e21b98547c15900228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 84/87] fix: what is left of a torn write at the end of the log
 does not hide the entries written after it

---
 tskv/src/record_file/writer.rs | 3 ++-
 tskv/src/wal/wal_store.rs      | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index 3d8c488..aec6d6c 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -29,8 +29,9 @@ impl Writer {
             .open_file_writer(path, buf_size)
             .await
             .map_err(|e| TskvError::FileSystemError { source: e })?;
-        if file.is_empty() {
+        if file.len() < FILE_MAGIC_NUMBER_LEN {
             // For new file, write file magic number, next write is at 4.
+            file.truncate(0).await.context(IOSnafu)?;
             file.write(&FILE_MAGIC_NUMBER.to_be_bytes())
                 .await
                 .context(error::IOSnafu)?;
diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 55149bb..9549c19 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -453,11 +453,13 @@ impl RaftEntryStorageInner {
             }
 
             let mut record_reader = self.wal.wal_reader(wal_id).await?;
+            let mut end_pos = record_reader.pos();
             loop {
                 let begin_pos = record_reader.pos();
                 let wal_record = record_reader.next_wal_entry().await;
                 match wal_record {
                     Ok(Some(record)) => {
+                        end_pos = record_reader.pos();
                         let res = self
                             .recover_record(wal_id, record, apply_id, vnode_store)
                             .await;
@@ -491,6 +493,12 @@ impl RaftEntryStorageInner {
                     }
                 }
             }
+
+            // Entries written after the remains of a torn write may not be found again.
+            if wal_id == self.wal.current_wal_id() && self.wal.current_wal_size() > end_pos {
+                info!("truncate wal file: {} at: {}", file_name, end_pos);
+                self.wal.truncate_wal_file(wal_id, end_pos).await?;
+            }
         }
 
         Ok(())
-- 
2.43.0


From d375f6297438d1a3c9368ef4548a0e160d8d4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 85/87] fix: a replica keeps log entries that it has not
 applied yet when it restarts

---
 tskv/src/wal/wal_store.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/tskv/src/wal/wal_store.rs b/tskv/src/wal/wal_store.rs
index 9549c19..c3257d7 100644
--- a/tskv/src/wal/wal_store.rs
+++ b/tskv/src/wal/wal_store.rs
@@ -8,7 +8,7 @@ use snafu::IntoError;
 use trace::{error, info};
 
 use super::reader::WalRecordData;
-use crate::error::{DecodeSnafu, WalTruncatedSnafu};
+use crate::error::DecodeSnafu;
 use crate::file_system::async_filesystem::LocalFileSystem;
 use crate::file_system::FileSystem;
 use crate::vnode_store::VnodeStorage;
@@ -60,12 +60,6 @@ impl RaftEntryStorage {
             self.inner.max_sequence(),
         );
 
-        if let Some(apply_id) = apply_id {
-            self.del_after(apply_id.index + 1)
-                .await
-                .map_err(|_| WalTruncatedSnafu.build())?;
-        }
-
         Ok(())
     }
 }
@@ -529,16 +523,23 @@ impl RaftEntryStorageInner {
                     }
                 }
             }
+        }
 
-            if entry.log_id.index > apply_id.index {
-                info!(
-                    "truncate wal file: {}, start at: {} from sequence:{}, got entry index: {}",
-                    wal_id, record.pos, apply_id.index, entry.log_id.index
-                );
-                self.wal.truncate_wal_file(wal_id, record.pos).await?;
+        // Entries that are not applied yet may be what the others count on, keep them;
+        // those after a gap are left of a deletion that was not finished.
+        let index = entry.log_id.index;
+        let last_index = self.max_sequence();
+        if last_index != u64::MAX
+            && index != last_index + 1
+            && apply_id.map_or(true, |apply_id| index > apply_id.index)
+        {
+            info!(
+                "truncate wal file: {}, start at: {} from sequence:{}, got entry index: {}",
+                wal_id, record.pos, last_index, index
+            );
+            self.wal.truncate_wal_file(wal_id, record.pos).await?;
 
-                return Ok(());
-            }
+            return Ok(());
         }
 
         self.mark_write_wal(entry, wal_id, record.pos).await?;
-- 
2.43.0


From 87c88c4e4340afd87a46e4f599041cfecbfe4f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 86/87] fix: a summary file with the remains of a torn write at
 its end can be opened

---
 tskv/src/record_file/writer.rs | 33 +++++++++++++++++++++++++++++++++
 tskv/src/tsfamily/summary.rs   |  2 +-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/tskv/src/record_file/writer.rs b/tskv/src/record_file/writer.rs
index aec6d6c..48e99f6 100644
--- a/tskv/src/record_file/writer.rs
+++ b/tskv/src/record_file/writer.rs
@@ -165,6 +165,39 @@ impl Writer {
         Ok(())
     }
 
+    /// Remove what is left of a torn write at the end of the file, otherwise
+    /// records written after it may not be found.
+    pub async fn truncate_torn_end(&mut self) -> TskvResult<()> {
+        self.sync().await?;
+        let mut reader = Box::new(reader::Reader::open(&self.path).await?);
+        let mut end_pos = reader.pos() as u64;
+        let mut res = reader.read_record().await;
+        loop {
+            res = match res {
+                Ok(_) => {
+                    end_pos = reader.pos() as u64;
+                    reader.read_record().await
+                }
+                Err(TskvError::RecordFileHashCheckFailed { .. }) => reader.read_record().await,
+                // It is not a torn write if there is any record after it.
+                Err(TskvError::RecordFileInvalidDataSize { pos, .. }) => {
+                    reader.read_record_at(pos + 1).await
+                }
+                Err(TskvError::Eof) => break,
+                Err(e) => return Err(e),
+            };
+        }
+        if end_pos < self.file_size() {
+            trace::info!(
+                "Record file: Truncate '{}' from {} to {end_pos}",
+                self.path.display(),
+                self.file_size()
+            );
+            self.truncate(end_pos).await?;
+        }
+        Ok(())
+    }
+
     pub async fn sync(&mut self) -> TskvResult<()> {
         self.file.flush().await.context(error::SyncFileSnafu)
     }
diff --git a/tskv/src/tsfamily/summary.rs b/tskv/src/tsfamily/summary.rs
index 5d590a7..fc3da1b 100644
--- a/tskv/src/tsfamily/summary.rs
+++ b/tskv/src/tsfamily/summary.rs
@@ -40,7 +40,7 @@ impl Summary {
         summary_file: impl AsRef<std::path::Path>,
     ) -> TskvResult<Self> {
         let mut writer = Writer::open(summary_file, SUMMARY_BUFFER_SIZE).await?;
-        writer.sync().await?;
+        writer.truncate_torn_end().await?;
 
         Ok(Self {
             ctx,
-- 
2.43.0


From 7602aedd264704ae3ecf29148079dd03e625b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 87/87] fix: tombstones with the remains of a torn write at
 their end can be loaded, and added to

---
 tskv/src/record_file/reader.rs | 32 +++++++++++++++++++++++++++++++-
 tskv/src/tsm/tombstone.rs      | 23 +++++++++--------------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/tskv/src/record_file/reader.rs b/tskv/src/record_file/reader.rs
index c8511a0..2d29113 100644
--- a/tskv/src/record_file/reader.rs
+++ b/tskv/src/record_file/reader.rs
@@ -70,6 +70,15 @@ pub async fn read_footer_from(
     }
 }
 
+/// Position of the record if it's an error of a broken record.
+fn broken_record_pos(err: &TskvError) -> Option<u64> {
+    match err {
+        TskvError::RecordFileInvalidDataSize { pos, .. } => Some(*pos),
+        TskvError::RecordFileHashCheckFailed { record, .. } => Some(record.pos),
+        _ => None,
+    }
+}
+
 pub struct Reader {
     path: PathBuf,
     file: Box<FileStreamReader>,
@@ -104,7 +113,7 @@ impl Reader {
         let file_len = file.len();
         let records_len = if footer_pos == file_len as u64 {
             // If there is no footer
-            file_len - FILE_MAGIC_NUMBER_LEN
+            file_len.saturating_sub(FILE_MAGIC_NUMBER_LEN)
         } else {
             file_len - FILE_FOOTER_LEN - FILE_MAGIC_NUMBER_LEN
         };
@@ -299,6 +308,27 @@ impl Reader {
         })
     }
 
+    /// Read the next record like `read_record()`, but what is left of a torn write at
+    /// the end of the file is not an error, it's the end of the file.
+    pub async fn read_record_until_torn_end(&mut self) -> TskvResult<Record> {
+        let err = match self.read_record().await {
+            Err(e) if broken_record_pos(&e).is_some() => e,
+            res => return res,
+        };
+        let mut broken_pos = broken_record_pos(&err);
+        while let Some(pos) = broken_pos {
+            broken_pos = match self.read_record_at(pos + 1).await {
+                // It is not a torn write if there is any record after it.
+                Ok(_) => return Err(err),
+                Err(e) => match broken_record_pos(&e) {
+                    Some(p) => Some(p),
+                    None => return Err(e),
+                },
+            };
+        }
+        Err(err)
+    }
+
     pub async fn read_record_at(&mut self, pos: u64) -> TskvResult<Record> {
         self.set_pos(pos as usize).await?;
         self.read_record().await
diff --git a/tskv/src/tsm/tombstone.rs b/tskv/src/tsm/tombstone.rs
index a01767e..a303779 100644
--- a/tskv/src/tsm/tombstone.rs
+++ b/tskv/src/tsm/tombstone.rs
@@ -84,16 +84,9 @@ pub struct TsmTombstone {
 impl TsmTombstone {
     pub async fn open(path: impl AsRef<Path>, tsm_file_id: ColumnFileId) -> TskvResult<Self> {
         let path = file_utils::make_tsm_tombstone_file(path, tsm_file_id);
-        let (mut reader, writer) = if LocalFileSystem::try_exists(&path) {
-            (
-                Some(record_file::Reader::open(&path).await?),
-                Some(record_file::Writer::open(&path, TOMBSTONE_BUFFER_SIZE).await?),
-            )
-        } else {
-            (None, None)
-        };
-        let cache = if let Some(r) = reader.as_mut() {
-            TsmTombstoneCache::load_from(r, false).await?
+        let cache = if LocalFileSystem::try_exists(&path) {
+            let mut reader = record_file::Reader::open(&path).await?;
+            TsmTombstoneCache::load_from(&mut reader, false).await?
         } else {
             TsmTombstoneCache::default()
         };
@@ -101,7 +94,8 @@ impl TsmTombstone {
         Ok(Self {
             cache: RwLock::new(Arc::new(cache)),
             path,
-            writer: Arc::new(AsyncMutex::new(writer)),
+            // Open it when it's needed.
+            writer: Arc::new(AsyncMutex::new(None)),
         })
     }
 
@@ -230,8 +224,9 @@ impl TsmTombstone {
     ) -> TskvResult<()> {
         let mut writer_lock = self.writer.lock().await;
         if writer_lock.is_none() {
-            *writer_lock =
-                Some(record_file::Writer::open(&self.path, TOMBSTONE_BUFFER_SIZE).await?);
+            let mut writer = record_file::Writer::open(&self.path, TOMBSTONE_BUFFER_SIZE).await?;
+            writer.truncate_torn_end().await?;
+            *writer_lock = Some(writer);
         }
         let writer = writer_lock
             .as_mut()
@@ -583,7 +578,7 @@ impl TsmTombstoneCache {
         let mut all_excluded = TimeRanges::empty();
         let mut buffer: Vec<Tombstone> = Vec::new();
         loop {
-            let record = match reader.read_record().await {
+            let record = match reader.read_record_until_torn_end().await {
                 Ok(r) => r,
                 Err(TskvError::Eof) => break,
                 Err(e) => {
-- 
2.43.0

