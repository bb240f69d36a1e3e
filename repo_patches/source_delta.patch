From 61483d8ab0f99c49dfda01ca4afaf22fcc9b00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 01/44] fix: slicing zero bytes off an empty rope is not an
 error

---
 bnl/base/src/base/buffers.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..b7527f5 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -59,6 +59,10 @@ buffers::slice(size_t size)
 {
   assert(size <= this->size());
 
+  if (size == 0) {
+    return base::buffer();
+  }
+
   auto begin = find_first_not_empty(buffers_);
   assert(begin != buffers_.end());
 
-- 
2.43.0


From b19196f64b9f231d7503f600f5a70e492009fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 02/44] fix: skip the length and payload of unknown frames in
 frame::peek

---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..0fe5dbc 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -25,8 +25,17 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::max_push_id:
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
-      default:
+      default: {
+        // Unknown frame => skip its payload as well.
+        uint64_t payload_encoded_size = BNL_TRY(varint::decode(lookahead));
+
+        if (payload_encoded_size > lookahead.size()) {
+          return error::incomplete;
+        }
+
+        lookahead.consume(static_cast<size_t>(payload_encoded_size));
         continue;
+      }
     }
   }
 
-- 
2.43.0


From 9fd2f7b88a9ff0737eab9484ee80785a9bcb842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 03/44] fix: report an overflow for oversized PUSH_PROMISE
 frames

---
 bnl/http3/src/codec/frame/encode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/codec/frame/encode.cpp b/bnl/http3/src/codec/frame/encode.cpp
index 3ed034c..e58b674 100644
--- a/bnl/http3/src/codec/frame/encode.cpp
+++ b/bnl/http3/src/codec/frame/encode.cpp
@@ -53,6 +53,12 @@ payload_size(const frame &frame) noexcept
     case frame::type::push_promise: {
       uint64_t push_id = frame.push_promise.push_id;
       payload_size += BNL_TRY(varint::encoded_size(push_id));
+
+      // Don't let the sum wrap around.
+      if (frame.push_promise.size > varint::max) {
+        return error::varint_overflow;
+      }
+
       payload_size += frame.push_promise.size;
       break;
     }
-- 
2.43.0


From b0f0dc0822901bbabc23c45235ca5b71a22ab0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 04/44] fix: decode prefix integers beyond 32 bits, bound them
 and don't consume incomplete ones

---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..6882717 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -35,8 +35,15 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
     uint64_t offset = 0;
     uint8_t byte = 0;
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+      uint64_t bits = byte & 127U;
+
+      // The value has to fit in 64 bits.
+      if (offset >= 64 || bits > ((UINT64_MAX - result) >> offset)) {
+        return error::qpack_decompression_failed;
+      }
+
+      result += bits << offset;
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From 9c902db34073adf8e94b853497c76c55ab729157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 05/44] fix: initialize the first byte of encoded prefix
 integers and literals

---
 bnl/http3/src/codec/qpack/literal/encode.cpp    | 1 +
 bnl/http3/src/codec/qpack/prefix_int/encode.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..2579efb 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -47,6 +47,7 @@ encode(base::string_view literal, uint8_t prefix)
 {
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
+  encoded[0] = 0;
 
   encode(encoded.data(), literal, prefix);
 
diff --git a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
index 25c0b68..747aaf9 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
@@ -60,6 +60,7 @@ encode(uint64_t value, uint8_t prefix)
 {
   size_t encoded_size = prefix_int::encoded_size(value, prefix);
   base::buffer encoded(encoded_size);
+  encoded[0] = 0;
 
   encode(encoded.data(), value, prefix);
 
-- 
2.43.0


From da36dbff015d93acc14535f8b43aae1ccf1abc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 06/44] fix: huffman-encode symbols that end on a byte boundary
 correctly

---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..ae4f02a 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,7 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      *dest = static_cast<uint8_t>(code >> ((num_bits - 1) / 8 * 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From be0911a88b42ea31f431ba3b9117ada1bcc83254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 07/44] fix: accept the empty huffman string

---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..6dfd4fa 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,7 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  bool accept = true; // The empty string is a valid huffman string.
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From e5813d4c7c7db157aabaf8519b7182edb3998d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 08/44] fix: compare headers with the static table entry their
 hash matches

---
 .../src/codec/qpack/encode_generated.cpp      | 392 ++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  23 +-
 2 files changed, 408 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index 5521d1a..59b8fe7 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -21,357 +21,749 @@ find_index(header_view header)
 
   switch (name_hash) {
     case 16895098521482341206U: // :authority
+      if (header.name() != ":authority") {
+        break;
+      }
       return { type::header_only, uint8_t(0) };
     case 11800921616074793521U: // :method
+      if (header.name() != ":method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 1969084168692057419U: // CONNECT
+          if (header.value() != "CONNECT") {
+            break;
+          }
           return { type::header_value, uint8_t(15) };
         case 3416820684017772195U: // DELETE
+          if (header.value() != "DELETE") {
+            break;
+          }
           return { type::header_value, uint8_t(16) };
         case 3137017853320178759U: // GET
+          if (header.value() != "GET") {
+            break;
+          }
           return { type::header_value, uint8_t(17) };
         case 5077457392360958184U: // HEAD
+          if (header.value() != "HEAD") {
+            break;
+          }
           return { type::header_value, uint8_t(18) };
         case 13449464674369688059U: // OPTIONS
+          if (header.value() != "OPTIONS") {
+            break;
+          }
           return { type::header_value, uint8_t(19) };
         case 1393561109570896241U: // POST
+          if (header.value() != "POST") {
+            break;
+          }
           return { type::header_value, uint8_t(20) };
         case 8278045464579020327U: // PUT
+          if (header.value() != "PUT") {
+            break;
+          }
           return { type::header_value, uint8_t(21) };
       }
       return { type::header_only, uint8_t(15) };
     case 1432527143127418564U: // :path
+      if (header.name() != ":path") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 16761507700594825962U: // /
+          if (header.value() != "/") {
+            break;
+          }
           return { type::header_value, uint8_t(1) };
       }
       return { type::header_only, uint8_t(1) };
     case 16734001141632695329U: // :scheme
+      if (header.name() != ":scheme") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13730016396111666430U: // http
+          if (header.value() != "http") {
+            break;
+          }
           return { type::header_value, uint8_t(22) };
         case 10742537861312705840U: // https
+          if (header.value() != "https") {
+            break;
+          }
           return { type::header_value, uint8_t(23) };
       }
       return { type::header_only, uint8_t(22) };
     case 11145724770861396798U: // :status
+      if (header.name() != ":status") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2891813017576360282U: // 103
+          if (header.value() != "103") {
+            break;
+          }
           return { type::header_value, uint8_t(24) };
         case 2685111111418367100U: // 200
+          if (header.value() != "200") {
+            break;
+          }
           return { type::header_value, uint8_t(25) };
         case 2860949800888200221U: // 304
+          if (header.value() != "304") {
+            break;
+          }
           return { type::header_value, uint8_t(26) };
         case 5957985645556640011U: // 404
+          if (header.value() != "404") {
+            break;
+          }
           return { type::header_value, uint8_t(27) };
         case 12373623763172808772U: // 503
+          if (header.value() != "503") {
+            break;
+          }
           return { type::header_value, uint8_t(28) };
         case 6146904730557115430U: // 100
+          if (header.value() != "100") {
+            break;
+          }
           return { type::header_value, uint8_t(63) };
         case 11759795502426644276U: // 204
+          if (header.value() != "204") {
+            break;
+          }
           return { type::header_value, uint8_t(64) };
         case 17033585193496081404U: // 206
+          if (header.value() != "206") {
+            break;
+          }
           return { type::header_value, uint8_t(65) };
         case 1337354901647857481U: // 302
+          if (header.value() != "302") {
+            break;
+          }
           return { type::header_value, uint8_t(66) };
         case 11111781720710347155U: // 400
+          if (header.value() != "400") {
+            break;
+          }
           return { type::header_value, uint8_t(67) };
         case 14993518005534636743U: // 403
+          if (header.value() != "403") {
+            break;
+          }
           return { type::header_value, uint8_t(68) };
         case 1128097706726417269U: // 421
+          if (header.value() != "421") {
+            break;
+          }
           return { type::header_value, uint8_t(69) };
         case 17924379407345689140U: // 425
+          if (header.value() != "425") {
+            break;
+          }
           return { type::header_value, uint8_t(70) };
         case 12667669577372699657U: // 500
+          if (header.value() != "500") {
+            break;
+          }
           return { type::header_value, uint8_t(71) };
       }
       return { type::header_only, uint8_t(24) };
     case 14776963886974432617U: // accept
+      if (header.name() != "accept") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 285960807216420690U: // */*
+          if (header.value() != "*/*") {
+            break;
+          }
           return { type::header_value, uint8_t(29) };
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(30) };
       }
       return { type::header_only, uint8_t(29) };
     case 14455144075924042224U: // accept-encoding
+      if (header.name() != "accept-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9032900040511447184U: // gzip, deflate, br
+          if (header.value() != "gzip, deflate, br") {
+            break;
+          }
           return { type::header_value, uint8_t(31) };
       }
       return { type::header_only, uint8_t(31) };
     case 12586352021634702904U: // accept-language
+      if (header.name() != "accept-language") {
+        break;
+      }
       return { type::header_only, uint8_t(72) };
     case 14590555536192441974U: // accept-ranges
+      if (header.name() != "accept-ranges") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3279652670845457604U: // bytes
+          if (header.value() != "bytes") {
+            break;
+          }
           return { type::header_value, uint8_t(32) };
       }
       return { type::header_only, uint8_t(32) };
     case 5881923794129529227U: // access-control-allow-credentials
+      if (header.name() != "access-control-allow-credentials") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13702020392090633634U: // FALSE
+          if (header.value() != "FALSE") {
+            break;
+          }
           return { type::header_value, uint8_t(73) };
         case 13992295306875567947U: // TRUE
+          if (header.value() != "TRUE") {
+            break;
+          }
           return { type::header_value, uint8_t(74) };
       }
       return { type::header_only, uint8_t(73) };
     case 3800686319607884068U: // access-control-allow-headers
+      if (header.name() != "access-control-allow-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6792126209451122079U: // cache-control
+          if (header.value() != "cache-control") {
+            break;
+          }
           return { type::header_value, uint8_t(33) };
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(34) };
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(75) };
       }
       return { type::header_only, uint8_t(33) };
     case 10756748986426057606U: // access-control-allow-methods
+      if (header.name() != "access-control-allow-methods") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(76) };
         case 13368036589511723433U: // get, post, options
+          if (header.value() != "get, post, options") {
+            break;
+          }
           return { type::header_value, uint8_t(77) };
         case 16398749137410613924U: // options
+          if (header.value() != "options") {
+            break;
+          }
           return { type::header_value, uint8_t(78) };
       }
       return { type::header_only, uint8_t(76) };
     case 9436417403599124064U: // access-control-allow-origin
+      if (header.name() != "access-control-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(35) };
       }
       return { type::header_only, uint8_t(35) };
     case 6796384088407939286U: // access-control-expose-headers
+      if (header.name() != "access-control-expose-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 17031230962583399322U: // content-length
+          if (header.value() != "content-length") {
+            break;
+          }
           return { type::header_value, uint8_t(79) };
       }
       return { type::header_only, uint8_t(79) };
     case 4242818872217734295U: // access-control-request-headers
+      if (header.name() != "access-control-request-headers") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3910122139284074053U: // content-type
+          if (header.value() != "content-type") {
+            break;
+          }
           return { type::header_value, uint8_t(80) };
       }
       return { type::header_only, uint8_t(80) };
     case 14051338931492133901U: // access-control-request-method
+      if (header.name() != "access-control-request-method") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
+          if (header.value() != "get") {
+            break;
+          }
           return { type::header_value, uint8_t(81) };
         case 3178169103122520677U: // post
+          if (header.value() != "post") {
+            break;
+          }
           return { type::header_value, uint8_t(82) };
       }
       return { type::header_only, uint8_t(81) };
     case 5092756294692198100U: // age
+      if (header.name() != "age") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(2) };
       }
       return { type::header_only, uint8_t(2) };
     case 12092656254601729054U: // alt-svc
+      if (header.name() != "alt-svc") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9623284816163994036U: // clear
+          if (header.value() != "clear") {
+            break;
+          }
           return { type::header_value, uint8_t(83) };
       }
       return { type::header_only, uint8_t(83) };
     case 8846816503791876372U: // authorization
+      if (header.name() != "authorization") {
+        break;
+      }
       return { type::header_only, uint8_t(84) };
     case 6792126209451122079U: // cache-control
+      if (header.name() != "cache-control") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 10032073942971583664U: // max-age=0
+          if (header.value() != "max-age=0") {
+            break;
+          }
           return { type::header_value, uint8_t(36) };
         case 3044507098168884424U: // max-age=2592000
+          if (header.value() != "max-age=2592000") {
+            break;
+          }
           return { type::header_value, uint8_t(37) };
         case 441477139842840241U: // max-age=604800
+          if (header.value() != "max-age=604800") {
+            break;
+          }
           return { type::header_value, uint8_t(38) };
         case 8897988708233174624U: // no-cache
+          if (header.value() != "no-cache") {
+            break;
+          }
           return { type::header_value, uint8_t(39) };
         case 3660001317594812985U: // no-store
+          if (header.value() != "no-store") {
+            break;
+          }
           return { type::header_value, uint8_t(40) };
         case 9509473917879564042U: // public, max-age=31536000
+          if (header.value() != "public, max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(41) };
       }
       return { type::header_only, uint8_t(36) };
     case 17156266451297603303U: // content-disposition
+      if (header.name() != "content-disposition") {
+        break;
+      }
       return { type::header_only, uint8_t(3) };
     case 11860813331948357247U: // content-encoding
+      if (header.name() != "content-encoding") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 12202383188974104177U: // br
+          if (header.value() != "br") {
+            break;
+          }
           return { type::header_value, uint8_t(42) };
         case 12621183860903199653U: // gzip
+          if (header.value() != "gzip") {
+            break;
+          }
           return { type::header_value, uint8_t(43) };
       }
       return { type::header_only, uint8_t(42) };
     case 17031230962583399322U: // content-length
+      if (header.name() != "content-length") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
+          if (header.value() != "0") {
+            break;
+          }
           return { type::header_value, uint8_t(4) };
       }
       return { type::header_only, uint8_t(4) };
     case 18043880115709070015U: // content-security-policy
+      if (header.name() != "content-security-policy") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
                                   // base-uri 'none'
+          if (header.value() !=
+              "script-src 'none'; object-src 'none'; base-uri 'none'") {
+            break;
+          }
           return { type::header_value, uint8_t(85) };
       }
       return { type::header_only, uint8_t(85) };
     case 3910122139284074053U: // content-type
+      if (header.name() != "content-type") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6373961066247414572U: // application/dns-message
+          if (header.value() != "application/dns-message") {
+            break;
+          }
           return { type::header_value, uint8_t(44) };
         case 9423039217905102597U: // application/javascript
+          if (header.value() != "application/javascript") {
+            break;
+          }
           return { type::header_value, uint8_t(45) };
         case 116355269824119741U: // application/json
+          if (header.value() != "application/json") {
+            break;
+          }
           return { type::header_value, uint8_t(46) };
         case 15711274223642436716U: // application/x-www-form-urlencoded
+          if (header.value() != "application/x-www-form-urlencoded") {
+            break;
+          }
           return { type::header_value, uint8_t(47) };
         case 12727226202374957143U: // image/gif
+          if (header.value() != "image/gif") {
+            break;
+          }
           return { type::header_value, uint8_t(48) };
         case 12200045138720289141U: // image/jpeg
+          if (header.value() != "image/jpeg") {
+            break;
+          }
           return { type::header_value, uint8_t(49) };
         case 12092489581388341001U: // image/png
+          if (header.value() != "image/png") {
+            break;
+          }
           return { type::header_value, uint8_t(50) };
         case 6791077934204364231U: // text/css
+          if (header.value() != "text/css") {
+            break;
+          }
           return { type::header_value, uint8_t(51) };
         case 8886412932112875563U: // text/html; charset=utf-8
+          if (header.value() != "text/html; charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(52) };
         case 16588200704567877914U: // text/plain
+          if (header.value() != "text/plain") {
+            break;
+          }
           return { type::header_value, uint8_t(53) };
         case 9119350762400467667U: // text/plain;charset=utf-8
+          if (header.value() != "text/plain;charset=utf-8") {
+            break;
+          }
           return { type::header_value, uint8_t(54) };
       }
       return { type::header_only, uint8_t(44) };
     case 905780767293800022U: // cookie
+      if (header.name() != "cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(5) };
     case 9202271988582577219U: // date
+      if (header.name() != "date") {
+        break;
+      }
       return { type::header_only, uint8_t(6) };
     case 12326157660028381149U: // early-data
+      if (header.name() != "early-data") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(86) };
       }
       return { type::header_only, uint8_t(86) };
     case 6439525432329186999U: // etag
+      if (header.name() != "etag") {
+        break;
+      }
       return { type::header_only, uint8_t(7) };
     case 9568944059520352163U: // expect-ct
+      if (header.name() != "expect-ct") {
+        break;
+      }
       return { type::header_only, uint8_t(87) };
     case 5644212460638603090U: // forwarded
+      if (header.name() != "forwarded") {
+        break;
+      }
       return { type::header_only, uint8_t(88) };
     case 12678664253902784264U: // if-modified-since
+      if (header.name() != "if-modified-since") {
+        break;
+      }
       return { type::header_only, uint8_t(8) };
     case 8836338662272140136U: // if-none-match
+      if (header.name() != "if-none-match") {
+        break;
+      }
       return { type::header_only, uint8_t(9) };
     case 10086758965902305572U: // if-range
+      if (header.name() != "if-range") {
+        break;
+      }
       return { type::header_only, uint8_t(89) };
     case 5803729767262815818U: // last-modified
+      if (header.name() != "last-modified") {
+        break;
+      }
       return { type::header_only, uint8_t(10) };
     case 17841021884467483934U: // link
+      if (header.name() != "link") {
+        break;
+      }
       return { type::header_only, uint8_t(11) };
     case 14592406158319853782U: // location
+      if (header.name() != "location") {
+        break;
+      }
       return { type::header_only, uint8_t(12) };
     case 7034821444952201446U: // origin
+      if (header.name() != "origin") {
+        break;
+      }
       return { type::header_only, uint8_t(90) };
     case 4274379369960325767U: // purpose
+      if (header.name() != "purpose") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 15048569516378897441U: // prefetch
+          if (header.value() != "prefetch") {
+            break;
+          }
           return { type::header_value, uint8_t(91) };
       }
       return { type::header_only, uint8_t(91) };
     case 12715602975004390753U: // range
+      if (header.name() != "range") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6181996873389341388U: // bytes=0-
+          if (header.value() != "bytes=0-") {
+            break;
+          }
           return { type::header_value, uint8_t(55) };
       }
       return { type::header_only, uint8_t(55) };
     case 14154313121195327909U: // referer
+      if (header.name() != "referer") {
+        break;
+      }
       return { type::header_only, uint8_t(13) };
     case 16290507850670895904U: // server
+      if (header.name() != "server") {
+        break;
+      }
       return { type::header_only, uint8_t(92) };
     case 666465872145128107U: // set-cookie
+      if (header.name() != "set-cookie") {
+        break;
+      }
       return { type::header_only, uint8_t(14) };
     case 4179674550753269761U: // strict-transport-security
+      if (header.name() != "strict-transport-security") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13034728143243030830U: // max-age=31536000
+          if (header.value() != "max-age=31536000") {
+            break;
+          }
           return { type::header_value, uint8_t(56) };
         case 11632417432576482556U: // max-age=31536000; includesubdomains
+          if (header.value() != "max-age=31536000; includesubdomains") {
+            break;
+          }
           return { type::header_value, uint8_t(57) };
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
                                     // preload
+          if (header.value() !=
+              "max-age=31536000; includesubdomains; preload") {
+            break;
+          }
           return { type::header_value, uint8_t(58) };
       }
       return { type::header_only, uint8_t(56) };
     case 5374862646944647126U: // timing-allow-origin
+      if (header.name() != "timing-allow-origin") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
+          if (header.value() != "*") {
+            break;
+          }
           return { type::header_value, uint8_t(93) };
       }
       return { type::header_only, uint8_t(93) };
     case 18069291607417813553U: // upgrade-insecure-requests
+      if (header.name() != "upgrade-insecure-requests") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
+          if (header.value() != "1") {
+            break;
+          }
           return { type::header_value, uint8_t(94) };
       }
       return { type::header_only, uint8_t(94) };
     case 16625730634708209664U: // user-agent
+      if (header.name() != "user-agent") {
+        break;
+      }
       return { type::header_only, uint8_t(95) };
     case 8816542506507529547U: // vary
+      if (header.name() != "vary") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 14455144075924042224U: // accept-encoding
+          if (header.value() != "accept-encoding") {
+            break;
+          }
           return { type::header_value, uint8_t(59) };
         case 7034821444952201446U: // origin
+          if (header.value() != "origin") {
+            break;
+          }
           return { type::header_value, uint8_t(60) };
       }
       return { type::header_only, uint8_t(59) };
     case 6196956168349306122U: // x-content-type-options
+      if (header.name() != "x-content-type-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 4306527442339074562U: // nosniff
+          if (header.value() != "nosniff") {
+            break;
+          }
           return { type::header_value, uint8_t(61) };
       }
       return { type::header_only, uint8_t(61) };
     case 1042837635865018085U: // x-forwarded-for
+      if (header.name() != "x-forwarded-for") {
+        break;
+      }
       return { type::header_only, uint8_t(96) };
     case 8598773544412918900U: // x-frame-options
+      if (header.name() != "x-frame-options") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6492545016868164575U: // deny
+          if (header.value() != "deny") {
+            break;
+          }
           return { type::header_value, uint8_t(97) };
         case 13303836962186157521U: // sameorigin
+          if (header.value() != "sameorigin") {
+            break;
+          }
           return { type::header_value, uint8_t(98) };
       }
       return { type::header_only, uint8_t(97) };
     case 15732293358711069708U: // x-xss-protection
+      if (header.name() != "x-xss-protection") {
+        break;
+      }
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7412498726110841680U: // 1; mode=block
+          if (header.value() != "1; mode=block") {
+            break;
+          }
           return { type::header_value, uint8_t(62) };
       }
       return { type::header_only, uint8_t(62) };
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index acc06d3..5e736b8 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -126,22 +126,31 @@ static std::pair<type, uint8_t> find_index(header_view header)
 """
 
 no_values_template = """\
-case {}U: // {}
-  return {{ type::header_only, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_only, uint8_t({2}) }};\
 """
 
 values_template = """\
-case {}U: // {}
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
   value_hash = XXH64(header.value().data(), header.value().size(), 0);
   switch(value_hash) {{
-    {}
+    {2}
   }}
-  return {{ type::header_only, uint8_t({}) }};\
+  return {{ type::header_only, uint8_t({3}) }};\
 """
 
 value_template = """\
-case {}U: // {}
-  return {{ type::header_value, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.value() != "{1}") {{
+    break;
+  }}
+  return {{ type::header_value, uint8_t({2}) }};\
 """
 
 static_table = [line.split() for line in static_table_raw.splitlines()]
-- 
2.43.0


From 28a9ffe7f2da958d81ae0e91028fab4af099b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 09/44] fix: decode indexed headers of static table entries
 with an empty value

---
 .../src/codec/qpack/decode_generated.cpp      | 42 +++++++++++++++++++
 bnl/http3/tools/generate_qpack.py             |  5 +--
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode_generated.cpp b/bnl/http3/src/codec/qpack/decode_generated.cpp
index 2e74ee8..8147402 100644
--- a/bnl/http3/src/codec/qpack/decode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/decode_generated.cpp
@@ -40,6 +40,8 @@ std::pair<bool, header>
 find_header_value(uint8_t index)
 {
   switch (index) {
+    case 0:
+      return { true, { ":authority", "" } };
     case 15:
       return { true, { ":method", "CONNECT" } };
     case 16:
@@ -94,6 +96,8 @@ find_header_value(uint8_t index)
       return { true, { "accept", "application/dns-message" } };
     case 31:
       return { true, { "accept-encoding", "gzip, deflate, br" } };
+    case 72:
+      return { true, { "accept-language", "" } };
     case 32:
       return { true, { "accept-ranges", "bytes" } };
     case 73:
@@ -126,6 +130,8 @@ find_header_value(uint8_t index)
       return { true, { "age", "0" } };
     case 83:
       return { true, { "alt-svc", "clear" } };
+    case 84:
+      return { true, { "authorization", "" } };
     case 36:
       return { true, { "cache-control", "max-age=0" } };
     case 37:
@@ -138,6 +144,8 @@ find_header_value(uint8_t index)
       return { true, { "cache-control", "no-store" } };
     case 41:
       return { true, { "cache-control", "public, max-age=31536000" } };
+    case 3:
+      return { true, { "content-disposition", "" } };
     case 42:
       return { true, { "content-encoding", "br" } };
     case 43:
@@ -170,12 +178,42 @@ find_header_value(uint8_t index)
       return { true, { "content-type", "text/plain" } };
     case 54:
       return { true, { "content-type", "text/plain;charset=utf-8" } };
+    case 5:
+      return { true, { "cookie", "" } };
+    case 6:
+      return { true, { "date", "" } };
     case 86:
       return { true, { "early-data", "1" } };
+    case 7:
+      return { true, { "etag", "" } };
+    case 87:
+      return { true, { "expect-ct", "" } };
+    case 88:
+      return { true, { "forwarded", "" } };
+    case 8:
+      return { true, { "if-modified-since", "" } };
+    case 9:
+      return { true, { "if-none-match", "" } };
+    case 89:
+      return { true, { "if-range", "" } };
+    case 10:
+      return { true, { "last-modified", "" } };
+    case 11:
+      return { true, { "link", "" } };
+    case 12:
+      return { true, { "location", "" } };
+    case 90:
+      return { true, { "origin", "" } };
     case 91:
       return { true, { "purpose", "prefetch" } };
     case 55:
       return { true, { "range", "bytes=0-" } };
+    case 13:
+      return { true, { "referer", "" } };
+    case 92:
+      return { true, { "server", "" } };
+    case 14:
+      return { true, { "set-cookie", "" } };
     case 56:
       return { true, { "strict-transport-security", "max-age=31536000" } };
     case 57:
@@ -190,12 +228,16 @@ find_header_value(uint8_t index)
       return { true, { "timing-allow-origin", "*" } };
     case 94:
       return { true, { "upgrade-insecure-requests", "1" } };
+    case 95:
+      return { true, { "user-agent", "" } };
     case 59:
       return { true, { "vary", "accept-encoding" } };
     case 60:
       return { true, { "vary", "origin" } };
     case 61:
       return { true, { "x-content-type-options", "nosniff" } };
+    case 96:
+      return { true, { "x-forwarded-for", "" } };
     case 97:
       return { true, { "x-frame-options", "deny" } };
     case 98:
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index 5e736b8..e4cfac7 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -232,9 +232,8 @@ case {0}:
 cases = ""
 
 for entry in static_table:
-    if len(entry) > 2:
-        values = str.join(" ", entry[2:])
-        cases += header_value_case_template.format(entry[0], entry[1], values)
+    values = str.join(" ", entry[2:])
+    cases += header_value_case_template.format(entry[0], entry[1], values)
 
 find_header_value = find_header_value_template.format(cases)
 
-- 
2.43.0


From 7b22fcce2c3cd74373155112730339c2a2f28901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 10/44] fix: decode the header block prefix instead of skipping
 two bytes

---
 bnl/http3/src/codec/qpack/decode.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..e124b8e 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -16,19 +16,25 @@ decoder::count() const noexcept
   return count_;
 }
 
-static constexpr size_t QPACK_PREFIX_ENCODED_SIZE = 2;
-
 template<typename Sequence>
 result<header>
 decoder::decode(Sequence &encoded)
 {
   if (state_ == state::prefix) {
-    if (encoded.size() < QPACK_PREFIX_ENCODED_SIZE) {
-      return error::incomplete;
+    typename Sequence::lookahead_type lookahead(encoded);
+
+    uint64_t required_insert_count = BNL_TRY(prefix_int::decode(lookahead, 8));
+    BNL_TRY(prefix_int::decode(lookahead, 7)); // Base
+
+    if (required_insert_count != 0) {
+      BNL_LOG_E("Header block references the dynamic table");
+      return error::qpack_decompression_failed;
     }
 
-    encoded.consume(QPACK_PREFIX_ENCODED_SIZE);
-    count_ += QPACK_PREFIX_ENCODED_SIZE;
+    count_ += lookahead.consumed();
+
+    encoded.consume(lookahead.consumed());
+
     state_ = state::header;
   }
 
-- 
2.43.0


From 2216896cc3d6572a62516f058819e6ad32153a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 11/44] fix: reject static table indices that don't fit in a
 byte

---
 bnl/http3/src/codec/qpack/decode.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index e124b8e..8037f81 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -53,11 +53,13 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
-      std::tie(found, header) = table::fixed::find_header_value(index);
+      if (index <= UINT8_MAX) {
+        std::tie(found, header) =
+          table::fixed::find_header_value(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Indexed header field ({}) not found in static table", index);
@@ -74,12 +76,14 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
-      std::tie(found, name) = table::fixed::find_header_only(index);
+      if (index <= UINT8_MAX) {
+        std::tie(found, name) =
+          table::fixed::find_header_only(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Header name reference ({}) not found in static table",
-- 
2.43.0


From 5269c4cc5b8224fcaacccabd347a4cbbdf3d675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:09 +0000
Subject: [PATCH 12/44] fix: don't wait for more data after an empty DATA frame

---
 bnl/http3/src/codec/body.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..e606c0a 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -95,6 +95,12 @@ decoder::decode(Sequence &encoded)
 
       state_ = state::data;
       remaining_ = frame.data.size;
+
+      // The payload of an empty DATA frame is complete right away.
+      if (remaining_ == 0) {
+        state_ = state::frame;
+        return base::buffer();
+      }
     }
     /* FALLTHRU */
     case state::data: {
-- 
2.43.0


From c4aef36181b8482a775400acc3794620b327acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 13/44] fix: finish a message when its stream ends after its
 last frame was processed

---
 bnl/http3/src/endpoint/stream/request.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..aaaa5cc 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -305,6 +305,17 @@ receiver::process() noexcept
   };
 
   if (error == error::incomplete && fin_received_) {
+    // The end of the stream can arrive after the last frame of the message has
+    // been processed, possibly with unknown frames in between.
+    if (state_ == state::body && !body_.in_progress()) {
+      (void) frame::decode(buffers_); // Skip unknown frames.
+
+      if (buffers_.empty()) {
+        state_ = state::fin;
+        return event::payload::body{ id_, true, base::buffer() };
+      }
+    }
+
     return error::malformed_frame;
   }
 
-- 
2.43.0


From 049ba707344483b135ca55a269cd18679ea604c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 14/44] fix: ignore trailing headers until the end of the
 stream

---
 .../bnl/http3/endpoint/stream/request.hpp       |  2 +-
 bnl/http3/src/endpoint/stream/request.cpp       | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index d0b8a32..4631b53 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,7 +99,7 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, fin };
+  enum class state : uint8_t { closed, headers, body, trailers, fin };
 
   state state_ = state::closed;
   base::buffers buffers_;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index aaaa5cc..c6d4857 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -300,6 +300,18 @@ receiver::process() noexcept
       return event::payload::body{ id_, fin, std::move(r).value() };
     }
 
+    case state::trailers:
+      // Everything up to the end of the stream belongs to the trailing headers.
+      buffers_.consume(buffers_.size());
+
+      if (!fin_received_) {
+        return error::incomplete;
+      }
+
+      state_ = state::fin;
+
+      return event::payload::body{ id_, true, base::buffer() };
+
     case state::fin:
       return event::payload::finished{ id_ };
   };
@@ -327,9 +339,8 @@ receiver::process() noexcept
         // TODO: Implement trailing HEADERS
         if (state_ == receiver::state::body) {
           BNL_LOG_W("Ignoring trailing headers");
-          buffers_.consume(buffers_.size());
-          state_ = state::fin;
-          return event::payload::body{ id_, true, base::buffer() };
+          state_ = receiver::state::trailers;
+          return process();
         }
         break;
       case frame::type::data:
-- 
2.43.0


From 25544aaeee82190c7d6fa951baec9374ada5d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 15/44] fix: end the stream when a message is ended after
 everything was sent

---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index c6d4857..24dca91 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,12 @@ sender::send() noexcept
     }
 
     case state::body: {
+      // The message can be ended after everything else has been sent.
+      if (body_.finished()) {
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From f1bc7eff6d79ebbec11d53da9d425dc6d3d9fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 16/44] fix: keep a stream until both of its directions are
 finished

---
 .../bnl/http3/endpoint/stream/request.hpp     |  9 ++++++++-
 bnl/http3/src/client/connection.cpp           | 10 ++++++++--
 bnl/http3/src/endpoint/stream/request.cpp     |  4 +++-
 bnl/http3/src/server/connection.cpp           | 19 ++++++++++++++++---
 4 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index 4631b53..bccfb4e 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,7 +99,14 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, trailers, fin };
+  enum class state : uint8_t {
+    closed,
+    headers,
+    body,
+    trailers,
+    fin,
+    finished
+  };
 
   state state_ = state::closed;
   base::buffers buffers_;
diff --git a/bnl/http3/src/client/connection.cpp b/bnl/http3/src/client/connection.cpp
index 8979b03..a390f05 100644
--- a/bnl/http3/src/client/connection.cpp
+++ b/bnl/http3/src/client/connection.cpp
@@ -23,6 +23,7 @@ connection::send() noexcept
   }
 
   for (auto &entry : requests_) {
+    uint64_t id = entry.first;
     client::stream::request::sender &sender = entry.second.first;
 
     if (sender.finished()) {
@@ -37,6 +38,10 @@ connection::send() noexcept
         BNL_TRY(receiver.start());
       }
 
+      if (sender.finished() && receiver.finished()) {
+        requests_.erase(id);
+      }
+
       return r;
     }
 
@@ -126,8 +131,9 @@ connection::process(uint64_t id)
 
   event event = BNL_TRY(request.process());
 
-  if (event == event::type::finished) {
-    requests_.erase(id);
+  // The response can finish before the request does.
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
   }
 
   return event;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 24dca91..48ec2b4 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -222,7 +222,7 @@ receiver::closed() const noexcept
 bool
 receiver::finished() const noexcept
 {
-  return state_ == state::fin;
+  return state_ == state::finished;
 }
 
 result<void>
@@ -319,6 +319,8 @@ receiver::process() noexcept
       return event::payload::body{ id_, true, base::buffer() };
 
     case state::fin:
+    case state::finished:
+      state_ = state::finished;
       return event::payload::finished{ id_ };
   };
 
diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..49857cc 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -30,7 +30,8 @@ connection::send() noexcept
 
     result<quic::event> r = request.send();
     if (r) {
-      if (request.finished()) {
+      // The response can finish before the request does.
+      if (request.finished() && entry.second.second.finished()) {
         requests_.erase(id);
       }
 
@@ -105,9 +106,21 @@ connection::process(uint64_t id)
     return event;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  // TODO: Better error
+  if (match == requests_.end()) {
+    return error::internal;
+  }
+
+  server::stream::request::receiver &request = match->second.second;
+
+  event event = BNL_TRY(request.process());
+
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
+  }
 
-  return request.process();
+  return event;
 }
 
 result<response::handle>
-- 
2.43.0


From b3e18b19488ec3d89e54f335a52cfecf107c20d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:54 +0000
Subject: [PATCH 17/44] fix: report a stream that ends inside the header of an
 unexpected frame

---
 bnl/http3/src/endpoint/stream/request.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48ec2b4..cd347f4 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -340,7 +340,15 @@ receiver::process() noexcept
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<http3::frame> r = frame::decode(buffers_);
+    if (!r) {
+      // The stream can end inside a frame we would not have accepted anyway.
+      return r.error() == error::incomplete && fin_received_
+               ? error::malformed_frame
+               : r.error();
+    }
+
+    frame frame = std::move(r).value();
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From f9d4abc669fee03e793351591687bd4c11f50a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 18/44] fix: only skip trailing headers up to their end

---
 .../bnl/http3/endpoint/stream/request.hpp     |  1 +
 bnl/http3/src/endpoint/stream/request.cpp     | 32 ++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index bccfb4e..34648a5 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -114,6 +114,7 @@ private:
 
   headers::decoder headers_;
   body::decoder body_;
+  uint64_t trailers_size_ = 0;
 
   uint64_t id_;
 };
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index cd347f4..48b858f 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -306,17 +306,23 @@ receiver::process() noexcept
       return event::payload::body{ id_, fin, std::move(r).value() };
     }
 
-    case state::trailers:
-      // Everything up to the end of the stream belongs to the trailing headers.
-      buffers_.consume(buffers_.size());
-
-      if (!fin_received_) {
-        return error::incomplete;
+    case state::trailers: {
+      size_t size = trailers_size_ < buffers_.size()
+                      ? static_cast<size_t>(trailers_size_)
+                      : buffers_.size();
+      buffers_.consume(size);
+      trailers_size_ -= size;
+
+      if (trailers_size_ > 0) {
+        error = error::incomplete;
+        break;
       }
 
-      state_ = state::fin;
-
-      return event::payload::body{ id_, true, base::buffer() };
+      // Only unknown frames can follow the trailing headers.
+      result<frame::type> r = frame::peek(buffers_);
+      error = r ? error::delegate : r.error();
+      break;
+    }
 
     case state::fin:
     case state::finished:
@@ -327,7 +333,10 @@ receiver::process() noexcept
   if (error == error::incomplete && fin_received_) {
     // The end of the stream can arrive after the last frame of the message has
     // been processed, possibly with unknown frames in between.
-    if (state_ == state::body && !body_.in_progress()) {
+    bool between_frames = state_ == state::trailers ? trailers_size_ == 0
+                                                    : !body_.in_progress();
+
+    if (state_ != state::headers && between_frames) {
       (void) frame::decode(buffers_); // Skip unknown frames.
 
       if (buffers_.empty()) {
@@ -356,9 +365,10 @@ receiver::process() noexcept
         if (state_ == receiver::state::body) {
           BNL_LOG_W("Ignoring trailing headers");
           state_ = receiver::state::trailers;
+          trailers_size_ = frame.headers.size;
           return process();
         }
-        break;
+        return error::unexpected_frame;
       case frame::type::data:
         return error::unexpected_frame;
       case frame::type::settings:
-- 
2.43.0


From 53b6507b106799a761494a15265862d1380ae0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 19/44] fix: return an error when the control stream has
 another type

---
 bnl/http3/src/endpoint/stream/control.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..7713e13 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -69,8 +69,11 @@ receiver::process() noexcept
     // the control stream until we've decoded the type.
     case state::type: {
       uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+      if (type != control::type) {
+        BNL_LOG_E("Stream {} is not a control stream", id_);
+        return error::not_implemented;
+      }
+
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From 346f2eb22992d9fff3957a79b9d4e20af64c90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:21 +0000
Subject: [PATCH 20/44] fix: ignore unidirectional streams of other kinds on
 the server too

---
 bnl/http3/src/server/connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index 49857cc..d04dbb6 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -71,6 +71,11 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -106,6 +111,11 @@ connection::process(uint64_t id)
     return event;
   }
 
+  // TODO: Actually handle unidirectional streams.
+  if ((id & 0x2U) != 0) {
+    return error::incomplete;
+  }
+
   auto match = requests_.find(id);
   // TODO: Better error
   if (match == requests_.end()) {
-- 
2.43.0


From 833bd639f3b915905690958ac3efa65bb1dc3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 21/44] fix: refuse to start a message without headers

---
 bnl/http3/src/codec/headers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..829131e 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,8 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  // A HEADERS frame carries at least one header.
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From d91db774da2e33a24285dafe84f79ea8c7cb7ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 22/44] fix: keep handles and streams consistent when either is
 replaced

---
 bnl/http3/src/endpoint/stream/request.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48b858f..da83a7f 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -30,6 +30,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -128,6 +132,11 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  // There is one handle per stream: the new one replaces the previous one.
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -141,6 +150,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From 9243a0c517bc2a0ed0a38c15f6c973a1359f923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:58 +0000
Subject: [PATCH 23/44] fix: map local error values to distinct error codes and
 name the QUIC category

---
 bnl/base/src/base/system_error.cpp | 38 ++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/bnl/base/src/base/system_error.cpp b/bnl/base/src/base/system_error.cpp
index 8ea89a2..db49961 100644
--- a/bnl/base/src/base/system_error.cpp
+++ b/bnl/base/src/base/system_error.cpp
@@ -2,6 +2,34 @@
 
 namespace bnl {
 
+// Error values that never go over the wire start at `incomplete`, which does
+// not fit in the `int` of a `std::error_code`. Those are mapped to negative
+// integers.
+
+template<typename Error>
+static int
+to_code(Error error) noexcept
+{
+  if (error < Error::incomplete) {
+    return static_cast<int>(error);
+  }
+
+  return -1 - static_cast<int>(static_cast<uint64_t>(error) -
+                               static_cast<uint64_t>(Error::incomplete));
+}
+
+template<typename Error>
+static Error
+from_code(int code) noexcept
+{
+  if (code >= 0) {
+    return static_cast<Error>(code);
+  }
+
+  return static_cast<Error>(static_cast<uint64_t>(Error::incomplete) +
+                            static_cast<uint64_t>(-(code + 1)));
+}
+
 namespace http3 {
 
 class error_category_impl : public std::error_category {
@@ -20,7 +48,7 @@ error_category_impl::name() const noexcept
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (from_code<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -68,7 +96,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { to_code(error), error_category() };
 }
 
 }
@@ -85,13 +113,13 @@ public:
 const char *
 error_category_impl::name() const noexcept
 {
-  return "bnl-http3";
+  return "bnl-quic";
 }
 
 std::string
 error_category_impl::message(int code) const noexcept
 {
-  switch (static_cast<error>(code)) {
+  switch (from_code<error>(code)) {
     case error::no_error:
       return "no error";
     case error::internal:
@@ -135,7 +163,7 @@ error_category() noexcept
 std::error_code
 make_error_code(error error) noexcept
 {
-  return { static_cast<int>(error), error_category() };
+  return { to_code(error), error_category() };
 }
 
 }
-- 
2.43.0


From 07c9fe8764458c9943363ccc78583587589012b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:53 +0000
Subject: [PATCH 24/44] fix: end console log lines on the stream they were
 written to

---
 bnl/log/src/console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index b46f9f1..77c392c 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -63,7 +63,7 @@ console::log(base::log::level level,
   color = fmt::fg(fmt::color::white);
   fmt::vprint(output, color, format, args);
 
-  fmt::print("\n");
+  fmt::print(output, "\n");
 
   fflush(output);
 }
-- 
2.43.0


From a633068c848ced0f052de89d10d33d9144c87eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 25/44] fix: encode the last header list when no empty line
 follows it

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index b22c71c..f5cc332 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -149,5 +149,15 @@ main(int argc, char *argv[])
     headers.emplace_back(std::move(header));
   }
 
+  // The last header list is not necessarily followed by an empty line.
+
+  if (!headers.empty()) {
+    http3::result<void> r = encode(id, headers, output);
+    if (!r) {
+      BNL_LOG_E("Error encoding headers");
+      return 1;
+    }
+  }
+
   return 0;
 }
-- 
2.43.0


From 64c41d532b3c200875e993f3726405d543d7967b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 26/44] fix: keep QUIC stream data in place until it is
 acknowledged and send its end once, after all of it

---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  8 ++-
 bnl/quic/include/bnl/quic/client/stream.hpp   | 17 +++++-
 bnl/quic/src/client/ngtcp2/connection.cpp     | 10 ++--
 bnl/quic/src/client/stream.cpp                | 56 ++++++++++++++-----
 4 files changed, 67 insertions(+), 24 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index b1905a4..7ce9146 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -70,9 +70,11 @@ public:
 
   result<base::buffer> write_pkt();
 
-  result<std::pair<base::buffer, size_t>> write_stream(uint64_t id,
-                                                       base::buffer_view data,
-                                                       bool fin);
+  // Also returns how many bytes of `data` are in the packet, or -1 if the packet
+  // doesn't contain anything of the stream.
+  result<std::pair<base::buffer, int64_t>> write_stream(uint64_t id,
+                                                        base::buffer_view data,
+                                                        bool fin);
 
   result<void> read_pkt(base::buffer_view packet);
 
diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c5ef5e8..93ddfb5 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
-#include <bnl/base/buffers.hpp>
+#include <bnl/base/buffer.hpp>
 #include <bnl/quic/export.hpp>
 #include <bnl/quic/result.hpp>
 
+#include <list>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -27,9 +29,18 @@ public:
   bool opened() const noexcept;
 
 private:
-  base::buffers buffers_;
-  base::buffers keepalive_;
+  // ngtcp2 refers to the data it was given until the data is acknowledged so a
+  // buffer stays in the same list node (which doesn't move in memory) until all
+  // of it is acknowledged.
+  std::list<base::buffer> unsent_;
+  std::list<base::buffer> unacked_;
+
+  size_t sent_ = 0;     // Bytes of the first unsent buffer which were sent.
+  size_t inflight_ = 0; // Bytes which were sent but not acknowledged.
+  size_t acked_ = 0;    // Acknowledged bytes of buffers which are still stored.
+
   bool fin_ = false;
+  bool fin_sent_ = false;
   bool opened_ = false;
 
   uint64_t id_;
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8661b7b..a8f1481 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1000,7 +1000,7 @@ connection::write_pkt()
   return base::buffer(storage.data(), static_cast<size_t>(rv));
 }
 
-result<std::pair<base::buffer, size_t>>
+result<std::pair<base::buffer, int64_t>>
 connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
 {
   std::array<uint8_t, NGTCP2_MAX_PKTLEN_IPV4> storage = {};
@@ -1024,16 +1024,18 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     return error::stream_data_blocked;
   }
 
+  if (rv == 0) {
+    return error::idle;
+  }
+
   if (rv < 0) {
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
 
-  stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
-
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
 
   return std::make_pair(std::move(packet),
-                        static_cast<size_t>(stream_data_written));
+                        static_cast<int64_t>(stream_data_written));
 }
 
 result<void>
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 81d424f..a78eb3d 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -16,7 +16,7 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
-  if (buffers_.empty()) {
+  if (unsent_.empty() && (!fin_ || fin_sent_)) {
     return error::idle;
   }
 
@@ -30,14 +30,16 @@ stream::send()
     opened_ = true;
   }
 
-  const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first == buffers_.back());
+  base::buffer_view data;
+  if (!unsent_.empty()) {
+    const base::buffer &first = unsent_.front();
+    data = base::buffer_view(first.data() + sent_, first.size() - sent_);
+  }
 
-  base::buffer packet;
-  size_t stream_bytes_written = 0;
+  bool fin = fin_ && unsent_.size() <= 1;
 
-  result<std::pair<base::buffer, size_t>> r =
-    ngtcp2_->write_stream(id_, first, fin);
+  result<std::pair<base::buffer, int64_t>> r =
+    ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
     if (r.error() == error::stream_id_blocked ||
@@ -48,10 +50,28 @@ stream::send()
     return r.error();
   }
 
+  base::buffer packet;
+  int64_t stream_bytes_written = 0;
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  base::buffer sent = buffers_.slice(stream_bytes_written);
-  keepalive_.push(std::move(sent));
+  // The packet doesn't contain any stream data.
+  if (stream_bytes_written == -1) {
+    return packet;
+  }
+
+  size_t size = static_cast<size_t>(stream_bytes_written);
+
+  sent_ += size;
+  inflight_ += size;
+
+  if (size == data.size()) {
+    fin_sent_ = fin;
+
+    if (!unsent_.empty()) {
+      unacked_.splice(unacked_.end(), unsent_, unsent_.begin());
+      sent_ = 0;
+    }
+  }
 
   return packet;
 }
@@ -61,7 +81,9 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  buffers_.push(std::move(buffer));
+  if (!buffer.empty()) {
+    unsent_.push_back(std::move(buffer));
+  }
 
   return base::success();
 }
@@ -79,16 +101,22 @@ stream::fin()
 result<void>
 stream::ack(size_t size)
 {
-  if (size > keepalive_.size()) {
+  if (size > inflight_) {
     BNL_LOG_E(
       "ngtcp2's acked stream ({}) data ({}) exceeds remaining data ({})",
       id_,
       size,
-      keepalive_.size());
+      inflight_);
     return error::internal;
   }
 
-  keepalive_.consume(size);
+  inflight_ -= size;
+  acked_ += size;
+
+  while (!unacked_.empty() && unacked_.front().size() <= acked_) {
+    acked_ -= unacked_.front().size();
+    unacked_.pop_front();
+  }
 
   return base::success();
 }
@@ -96,7 +124,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty() && keepalive_.empty();
+  return fin_sent_ && unacked_.empty();
 }
 
 bool
-- 
2.43.0


From a9ad167b60326be34bde6d6afb2da980c284e193 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 27/44] fix: keep QUIC callbacks and streams valid when a
 connection is moved

---
 .../include/bnl/quic/client/connection.hpp    | 12 ++--
 .../bnl/quic/client/ngtcp2/connection.hpp     | 10 ++-
 bnl/quic/src/client/connection.cpp            | 69 +++++++++++++++----
 bnl/quic/src/client/ngtcp2/connection.cpp     | 59 +++++++++-------
 4 files changed, 103 insertions(+), 47 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/connection.hpp b/bnl/quic/include/bnl/quic/client/connection.hpp
index 03da622..ce83c08 100644
--- a/bnl/quic/include/bnl/quic/client/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/connection.hpp
@@ -13,6 +13,7 @@
 #include <bnl/quic/result.hpp>
 
 #include <map>
+#include <memory>
 #include <random>
 
 namespace bnl {
@@ -40,8 +41,8 @@ public:
              const params &params,
              clock clock) noexcept;
 
-  connection(connection &&) = default;
-  connection &operator=(connection &&) = default;
+  connection(connection &&other) noexcept;
+  connection &operator=(connection &&other) noexcept;
 
   ~connection() = default;
 
@@ -125,8 +126,11 @@ private:
   uint64_t max_remote_bidi_streams_ = 0;
   uint64_t max_remote_uni_streams_ = 0;
 
-  ngtcp2::connection ngtcp2_;
-  handshake handshake_;
+  // ngtcp2, BoringSSL and the streams refer to these so they are not moved in
+  // memory when the connection is moved. The handshake refers to `ngtcp2_` so it
+  // has to be destroyed first.
+  std::unique_ptr<ngtcp2::connection> ngtcp2_;
+  std::unique_ptr<handshake> handshake_;
   quic::path path_;
 };
 
diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index 7ce9146..6ed87f7 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -37,8 +37,12 @@ public:
              clock clock,
              std::mt19937 &prng);
 
-  connection(connection &&) = default;
-  connection &operator=(connection &&) = default;
+  // ngtcp2 refers to this object in its callbacks.
+  connection(connection &&) = delete;
+  connection &operator=(connection &&) = delete;
+
+  // Sets the connection that is called from ngtcp2's callbacks.
+  void context(client::connection *context) noexcept;
 
   static const base::buffer_view INITIAL_SALT;
   static const base::buffer_view ALPN_H3;
@@ -270,6 +274,8 @@ private:
 private:
   std::unique_ptr<ngtcp2_conn, void (*)(ngtcp2_conn *)> connection_;
 
+  client::connection *context_;
+
   path path_;
   clock clock_;
 };
diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index b5bae26..ba2a583 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -29,16 +29,55 @@ connection::connection(const ip::host &host,
                        const params &params,
                        clock clock) noexcept
   : prng_(std::random_device()())
-  , ngtcp2_(path, params, this, std::move(clock), prng_)
-  , handshake_(host, ngtcp2_.dcid(), &ngtcp2_)
+  , ngtcp2_(
+      new ngtcp2::connection(path, params, this, std::move(clock), prng_))
+  , handshake_(new handshake(host, ngtcp2_->dcid(), ngtcp2_.get()))
   , path_(path)
 {}
 
+connection::connection(connection &&other) noexcept
+  : prng_(other.prng_)
+  , streams_(std::move(other.streams_))
+  , event_buffer_(std::move(other.event_buffer_))
+  , max_local_bidi_streams_(other.max_local_bidi_streams_)
+  , max_local_uni_streams_(other.max_local_uni_streams_)
+  , max_remote_bidi_streams_(other.max_remote_bidi_streams_)
+  , max_remote_uni_streams_(other.max_remote_uni_streams_)
+  , ngtcp2_(std::move(other.ngtcp2_))
+  , handshake_(std::move(other.handshake_))
+  , path_(other.path_)
+{
+  if (ngtcp2_ != nullptr) {
+    ngtcp2_->context(this);
+  }
+}
+
+connection &
+connection::operator=(connection &&other) noexcept
+{
+  prng_ = other.prng_;
+  streams_ = std::move(other.streams_);
+  event_buffer_ = std::move(other.event_buffer_);
+  max_local_bidi_streams_ = other.max_local_bidi_streams_;
+  max_local_uni_streams_ = other.max_local_uni_streams_;
+  max_remote_bidi_streams_ = other.max_remote_bidi_streams_;
+  max_remote_uni_streams_ = other.max_remote_uni_streams_;
+  handshake_ = std::move(other.handshake_);
+  ngtcp2_ = std::move(other.ngtcp2_);
+  path_ = other.path_;
+
+  if (ngtcp2_ != nullptr) {
+    ngtcp2_->context(this);
+  }
+
+  return *this;
+}
+
 result<void>
 connection::client_initial()
 {
   BNL_LOG_T("handshake: client initial");
-  return handshake_.send();
+  return handshake_->send();
 }
 
 result<void>
@@ -46,7 +85,7 @@ connection::recv_crypto_data(crypto::level level, base::buffer_view data)
 {
   BNL_LOG_T("handshake: recv crypto data: {}", data.size());
 
-  result<void> r = handshake_.recv(level, data);
+  result<void> r = handshake_->recv(level, data);
 
   if (r || r.error() == error::incomplete) {
     return base::success();
@@ -74,7 +113,7 @@ result<void>
 connection::acked_crypto_offset(crypto::level level, size_t size)
 {
   BNL_LOG_T("handshake: acked crypto offset: {}", size);
-  return handshake_.ack(level, size);
+  return handshake_->ack(level, size);
 }
 
 result<void>
@@ -202,7 +241,7 @@ connection::remove_connection_id(base::buffer_view cid)
 result<void>
 connection::update_key()
 {
-  return handshake_.update_keys();
+  return handshake_->update_keys();
 }
 
 result<void>
@@ -257,10 +296,10 @@ connection::extend_max_stream_data(uint64_t id, uint64_t max_data)
 result<base::buffer>
 connection::send()
 {
-  BNL_TRY(handshake_.send());
+  BNL_TRY(handshake_->send());
 
   {
-    result<base::buffer> r = ngtcp2_.write_pkt();
+    result<base::buffer> r = ngtcp2_->write_pkt();
     if (r) {
       return r;
     }
@@ -270,7 +309,7 @@ connection::send()
     }
   }
 
-  if (!handshake_.completed()) {
+  if (!handshake_->completed()) {
     return error::idle;
   }
 
@@ -295,7 +334,7 @@ connection::send()
 result<generator>
 connection::recv(base::buffer_view data)
 {
-  result<void> r = ngtcp2_.read_pkt(data);
+  result<void> r = ngtcp2_->read_pkt(data);
 
   if (!r) {
     event_buffer_.emplace_back(r.error());
@@ -324,7 +363,7 @@ connection::add(quic::data data) // NOLINT
   auto match = streams_.find(data.id);
 
   if (match == streams_.end()) {
-    stream stream(data.id, &ngtcp2_);
+    stream stream(data.id, ngtcp2_.get());
     streams_.insert(std::make_pair(data.id, std::move(stream)));
   }
 
@@ -341,25 +380,25 @@ connection::add(quic::data data) // NOLINT
 duration
 connection::timeout() const noexcept
 {
-  return ngtcp2_.timeout();
+  return ngtcp2_->timeout();
 }
 
 duration
 connection::expiry() const noexcept
 {
-  return ngtcp2_.expiry();
+  return ngtcp2_->expiry();
 }
 
 result<void>
 connection::expire()
 {
-  return ngtcp2_.expire();
+  return ngtcp2_->expire();
 }
 
 result<crypto>
 connection::crypto() const noexcept
 {
-  return handshake_.negotiated_crypto();
+  return handshake_->negotiated_crypto();
 }
 
 }
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index a8f1481..140a203 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -91,7 +91,7 @@ int
 connection::client_initial(ngtcp2_conn *connection, void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   result<void> r = client->client_initial();
 
@@ -108,7 +108,7 @@ connection::recv_crypto_data(ngtcp2_conn *connection,
 {
   (void) connection;
   (void) offset;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   result<void> r = client->recv_crypto_data(make_crypto_level(level),
                                             base::buffer_view(data, size));
@@ -129,7 +129,7 @@ int
 connection::handshake_completed(ngtcp2_conn *connection, void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->handshake_completed();
 
@@ -212,7 +212,7 @@ connection::encrypt(ngtcp2_conn *connection,
                     void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   crypto crypto = ({
     result<quic::crypto> r = client->crypto();
@@ -249,7 +249,7 @@ connection::decrypt(ngtcp2_conn *connection,
                     void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   crypto crypto = ({
     result<quic::crypto> r = client->crypto();
@@ -305,7 +305,7 @@ connection::hp_mask(ngtcp2_conn *connection,
                     void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   crypto crypto = ({
     result<quic::crypto> r = client->crypto();
@@ -336,7 +336,7 @@ connection::recv_stream_data(ngtcp2_conn *connection,
   (void) connection;
   (void) offset;
   (void) stream_context;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->recv_stream_data(
     static_cast<uint64_t>(id), fin != 0, base::buffer_view(data, size));
@@ -353,7 +353,7 @@ connection::acked_crypto_offset(ngtcp2_conn *connection,
 {
   (void) connection;
   (void) offset;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   result<void> r = client->acked_crypto_offset(make_crypto_level(level), size);
 
@@ -371,7 +371,7 @@ connection::acked_stream_data_offset(ngtcp2_conn *connection,
   (void) connection;
   (void) offset;
   (void) stream_context;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   result<void> r =
     client->acked_stream_data_offset(static_cast<uint64_t>(id), size);
@@ -383,7 +383,7 @@ int
 connection::stream_open(ngtcp2_conn *connection, int64_t id, void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->stream_opened(static_cast<uint64_t>(id));
 
@@ -400,7 +400,7 @@ connection::stream_close(ngtcp2_conn *connection,
   (void) connection;
   (void) id;
   (void) stream_context;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->stream_closed(static_cast<uint64_t>(id), error);
 
@@ -413,7 +413,7 @@ connection::recv_stateless_reset(ngtcp2_conn *connection,
                                  void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   result<void> r = client->recv_stateless_reset(
     base::buffer_view(reset->rand, reset->randlen),
@@ -431,7 +431,7 @@ connection::recv_retry(ngtcp2_conn *connection,
 {
   (void) packet_header;
   (void) retry;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   const ngtcp2_cid *dcid = ngtcp2_conn_get_dcid(connection);
 
@@ -447,7 +447,7 @@ connection::extend_max_local_streams_bidi(ngtcp2_conn *connection,
                                           void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->extend_max_local_streams_bidi(max_streams);
 
@@ -460,7 +460,7 @@ connection::extend_max_local_streams_uni(ngtcp2_conn *connection,
                                          void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->extend_max_local_streams_bidi(max_streams);
 
@@ -476,7 +476,7 @@ connection::rand(ngtcp2_conn *connection,
 {
   (void) connection;
   (void) usage;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->random(base::buffer_view_mut(dest, size));
 
@@ -491,7 +491,7 @@ connection::get_new_connection_id(ngtcp2_conn *connection,
                                   void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->new_connection_id(base::buffer_view_mut(cid->data, cid_size));
   cid->datalen = cid_size;
@@ -507,7 +507,7 @@ connection::remove_connection_id(ngtcp2_conn *connection,
                                  void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->remove_connection_id(base::buffer_view(cid->data, cid->datalen));
 
@@ -518,7 +518,7 @@ int
 connection::update_key(ngtcp2_conn *connection, void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   result<void> r = client->update_key();
 
@@ -532,7 +532,7 @@ connection::path_validation(ngtcp2_conn *connection,
                             void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   base::buffer_view local(path->local.addr, path->local.addrlen);
   base::buffer_view peer(path->local.addr, path->local.addrlen);
@@ -550,7 +550,7 @@ connection::select_preferred_addr(ngtcp2_conn *connection,
                                   void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   ip::endpoint ipv4(ipv4::address(preferred->ipv4_addr), preferred->ipv4_port);
   ip::endpoint ipv6(ipv6::address(preferred->ipv6_addr), preferred->ipv6_port);
@@ -575,7 +575,7 @@ connection::stream_reset(ngtcp2_conn *connection,
 {
   (void) connection;
   (void) stream_context;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->stream_reset(static_cast<uint64_t>(id), final_size, error);
 
@@ -588,7 +588,7 @@ connection::extend_max_remote_streams_bidi(ngtcp2_conn *connection,
                                            void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->extend_max_remote_streams_bidi(max_streams);
 
@@ -601,7 +601,7 @@ connection::extend_max_remote_streams_uni(ngtcp2_conn *connection,
                                           void *context)
 {
   (void) connection;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->extend_max_remote_streams_uni(max_streams);
 
@@ -617,7 +617,7 @@ connection::extend_max_stream_data(ngtcp2_conn *connection,
 {
   (void) connection;
   (void) stream_context;
-  auto client = static_cast<client::connection *>(context);
+  auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   client->extend_max_stream_data(static_cast<uint64_t>(id), max_data);
 
@@ -690,6 +690,7 @@ connection::connection(path path,
                        clock clock,
                        std::mt19937 &prng)
   : connection_(nullptr, ngtcp2_conn_del)
+  , context_(context)
   , path_(path)
   , clock_(std::move(clock))
 {
@@ -746,7 +747,7 @@ connection::connection(path path,
                                   &callbacks,
                                   &settings,
                                   nullptr,
-                                  context);
+                                  this);
   // TODO: re-enable exceptions
   (void) rv;
   assert(rv == 0);
@@ -754,6 +755,12 @@ connection::connection(path path,
   connection_ = decltype(connection_)(connection, ngtcp2_conn_del);
 }
 
+void
+connection::context(client::connection *context) noexcept
+{
+  context_ = context;
+}
+
 const base::buffer_view connection::INITIAL_SALT = NGTCP2_INITIAL_SALT;
 const base::buffer_view connection::ALPN_H3 = NGTCP2_ALPN_H3;
 
-- 
2.43.0


From d49c62653efc3e3a28c05455f81f42a33d0b98d7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 28/44] fix: encode the length in an HKDF label as a 16 bit
 number

---
 bnl/quic/src/crypto.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto.cpp b/bnl/quic/src/crypto.cpp
index 6cf924a..e88575c 100644
--- a/bnl/quic/src/crypto.cpp
+++ b/bnl/quic/src/crypto.cpp
@@ -155,8 +155,8 @@ crypto::hkdf_expand_label(base::buffer_view secret,
   // HkdfLabel
 
   // length (uint16_t)
-  *it++ = static_cast<uint8_t>(size / UINT8_MAX); // MSB
-  *it++ = static_cast<uint8_t>(size % UINT8_MAX); // LSB
+  *it++ = static_cast<uint8_t>(size >> 8U); // MSB
+  *it++ = static_cast<uint8_t>(size);       // LSB
 
   // "tls 13 " + Label
   static const base::buffer_view LABEL = "tls13 ";
-- 
2.43.0


From d78c1f6beea75cd270fd56b60afb85a845be14da Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 29/44] fix: encrypt zeros for the ChaCha20 header protection
 mask

---
 bnl/quic/src/crypto/boringssl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index 0531ec5..2b3f8b1 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -6,6 +6,8 @@
 #include <openssl/evp.h>
 #include <openssl/hkdf.h>
 
+#include <array>
+
 namespace bnl {
 namespace quic {
 
@@ -196,9 +198,11 @@ crypto::hp_mask(base::buffer_view_mut dest,
       nonce[1] = uint32_LE(sample.data() + 8);
       nonce[2] = uint32_LE(sample.data() + 12);
 
+      static const std::array<uint8_t, 5> ZEROS = {};
+
       CRYPTO_chacha_20(dest.data(),
-                       sample.data(),
-                       sample.size(),
+                       ZEROS.data(),
+                       ZEROS.size(),
                        key.data(),
                        reinterpret_cast<uint8_t *>(nonce),
                        counter);
-- 
2.43.0


From a9953169b582dfeb826df3a27540a2127f4a3b0f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 30/44] fix: pass the peer's address to ngtcp2 as the remote
 end of the path

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 140a203..6971c98 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -61,7 +61,7 @@ static ngtcp2_path_storage
 make_path(const path &path)
 {
   base::buffer_view local = path.local().address().bytes();
-  base::buffer_view peer = path.local().address().bytes();
+  base::buffer_view peer = path.peer().address().bytes();
 
   ngtcp2_path_storage storage = {};
   ngtcp2_path_storage_init(&storage,
@@ -535,7 +535,7 @@ connection::path_validation(ngtcp2_conn *connection,
   auto client = static_cast<ngtcp2::connection *>(context)->context_;
 
   base::buffer_view local(path->local.addr, path->local.addrlen);
-  base::buffer_view peer(path->local.addr, path->local.addrlen);
+  base::buffer_view peer(path->remote.addr, path->remote.addrlen);
   bool succeeded = pv_result == NGTCP2_PATH_VALIDATION_RESULT_SUCCESS;
 
   result<void> r = client->path_validation(local, peer, succeeded);
-- 
2.43.0


From 0bf30e1e714c4df312faa631fc0d468adba19690 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 31/44] fix: leave room for the largest QUIC transport
 parameters

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 6971c98..ca8f77c 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -788,7 +788,7 @@ connection::get_local_transport_parameters() noexcept
   ngtcp2_transport_params params;
   ngtcp2_conn_get_local_transport_params(connection_.get(), &params);
 
-  std::array<uint8_t, 64> tp = {};
+  std::array<uint8_t, 256> tp = {};
 
   ssize_t nwrite = ngtcp2_encode_transport_params(
     tp.data(), tp.size(), NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO, &params);
-- 
2.43.0


From 274650f6a47d29fd273e49b7f2d37123e6d76374 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 32/44] fix: log messages of ngtcp2 and BoringSSL as text, not
 as format strings

---
 bnl/quic/src/client/handshake/boringssl.cpp | 2 +-
 bnl/quic/src/client/ngtcp2/connection.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/handshake/boringssl.cpp b/bnl/quic/src/client/handshake/boringssl.cpp
index ee7904e..9225200 100644
--- a/bnl/quic/src/client/handshake/boringssl.cpp
+++ b/bnl/quic/src/client/handshake/boringssl.cpp
@@ -336,7 +336,7 @@ handshake::impl::log_errors()
     std::array<char, 100> string = {};
     ERR_error_string_n(error, string.data(), string.size());
 
-    BNL_LOG_E(string.data());
+    BNL_LOG_E("{}", string.data());
   }
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index ca8f77c..50de92a 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -644,7 +644,7 @@ connection::log(void *context, const char *format, ...) // NOLINT
 
   va_end(args); // NOLINT
 
-  BNL_LOG_T(formatted.data());
+  BNL_LOG_T("{}", formatted.data());
 }
 
 static ngtcp2_cid
-- 
2.43.0


From 617abd47d90c8275570164470a835051ac837c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 33/44] fix: close the descriptor that is replaced by another

---
 bnl/http3/app/endpoint/os/fd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/fd.cpp b/bnl/http3/app/endpoint/os/fd.cpp
index c8ac408..32017b3 100644
--- a/bnl/http3/app/endpoint/os/fd.cpp
+++ b/bnl/http3/app/endpoint/os/fd.cpp
@@ -16,6 +16,10 @@ fd &
 fd::operator=(fd &&other) noexcept
 {
   if (&other != this) {
+    if (fd_ != -1) {
+      close(fd_);
+    }
+
     fd_ = other.fd_;
     other.fd_ = -1;
   }
-- 
2.43.0


From d64083694f1f65ae8ff53c09e7037ac1d7e38dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:40 +0000
Subject: [PATCH 34/44] fix: report the error of a socket

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5f0e718..954b348 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -159,7 +159,7 @@ udp::error() const noexcept
     THROW_SYSTEM(getsockopt, errno);
   }
 
-  return {};
+  return { error, std::system_category() };
 }
 
 result<void>
-- 
2.43.0


From 620bd1e9a2f7548fa7eed1bd38a35f628f10cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 35/44] fix: do not lose a datagram that arrives while
 receiving

---
 bnl/http3/app/endpoint/os/socket/udp.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 954b348..f824333 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -5,7 +5,6 @@
 #include <arpa/inet.h>
 #include <cassert>
 #include <sys/epoll.h>
-#include <sys/ioctl.h>
 
 static sockaddr_storage
 make_sockaddr(ip::endpoint endpoint)
@@ -196,15 +195,22 @@ udp::add(base::buffer buffer)
 result<base::buffer>
 udp::recv()
 {
-  int size = 0;
+  // The size of the next datagram, if there is one. If there is none, we must
+  // not try to receive one that arrives in the meantime as well, because we
+  // would not have room for it.
+  ssize_t rv = ::recv(socket_, nullptr, 0, MSG_PEEK | MSG_TRUNC);
 
-  if ((ioctl(socket_, FIONREAD, &size)) == -1) { // NOLINT
-    THROW_SYSTEM(ioctl, errno);
+  if (rv == -1) {
+    if (errno == EAGAIN) {
+      return { errno, std::system_category() };
+    }
+
+    THROW_SYSTEM(read, errno);
   }
 
-  base::buffer datagram(static_cast<size_t>(size));
+  base::buffer datagram(static_cast<size_t>(rv));
 
-  ssize_t rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
+  rv = ::recv(socket_, datagram.data(), datagram.size(), 0);
   if (rv == -1) {
     if (errno == EAGAIN) {
       return { errno, std::system_category() };
-- 
2.43.0


From 76b9528bd640697a203ab32b308a61e26444efda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 36/44] fix: refuse text that is not an IP address with an
 error

---
 bnl/http3/app/endpoint/os/ip/address.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/ip/address.cpp b/bnl/http3/app/endpoint/os/ip/address.cpp
index 87a0b0e..040da21 100644
--- a/bnl/http3/app/endpoint/os/ip/address.cpp
+++ b/bnl/http3/app/endpoint/os/ip/address.cpp
@@ -21,10 +21,15 @@ make_address(base::string_view address)
 
   std::array<uint8_t, ipv6::address::size> ipv6 = {};
   rv = inet_pton(AF_INET6, string.c_str(), ipv6.data());
-  if (rv != 1) {
+  if (rv == -1) {
     THROW_SYSTEM(inet_pton, errno);
   }
 
+  // inet_pton does not set errno if the text is not an address.
+  if (rv == 0) {
+    return error::invalid_argument;
+  }
+
   return ipv6::address({ ipv6.data(), ipv6.size() });
 }
 
-- 
2.43.0


From a32eec0bf3ff9c51fed19ea01d24cbff9d4a91ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:03 +0000
Subject: [PATCH 37/44] fix: do not report resolver errors as system errors

---
 bnl/http3/app/endpoint/os/dns.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/dns.cpp b/bnl/http3/app/endpoint/os/dns.cpp
index 1977721..fa7a794 100644
--- a/bnl/http3/app/endpoint/os/dns.cpp
+++ b/bnl/http3/app/endpoint/os/dns.cpp
@@ -40,8 +40,13 @@ resolve(const ip::host &host)
   addrinfo *results = nullptr;
 
   int rv = getaddrinfo(name.c_str(), nullptr, &hints, &results);
+  if (rv == EAI_SYSTEM) {
+    THROW_SYSTEM(getaddrinfo, errno);
+  }
+
   if (rv != 0) {
-    THROW_SYSTEM(getaddrinfo, rv == EAI_SYSTEM ? errno : rv);
+    BNL_LOG_E("getaddrinfo: {}", gai_strerror(rv));
+    return error::resolve;
   }
 
   addrinfo *info = nullptr;
-- 
2.43.0


From 53e23c9c3dee83a8fec372f31436c9fbdabcecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:10 +0000
Subject: [PATCH 38/44] fix: do not use the error code for success for a
 timeout

---
 bnl/http3/app/endpoint/os/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index c03e5d5..8c059a3 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -6,7 +6,7 @@
 #include <system_error>
 
 enum class error {
-  timeout,
+  timeout = 1,
   resolve,
   invalid_argument,
   idle,
-- 
2.43.0


From 11e4ef177767ed2da2b49d0fe97f78c53d96b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:24 +0000
Subject: [PATCH 39/44] fix: convert an event source to true if there is one

---
 bnl/http3/app/endpoint/sd/event/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/sd/event/source.cpp b/bnl/http3/app/endpoint/sd/event/source.cpp
index 47ad266..a232780 100644
--- a/bnl/http3/app/endpoint/sd/event/source.cpp
+++ b/bnl/http3/app/endpoint/sd/event/source.cpp
@@ -37,7 +37,7 @@ source::sd() const noexcept
 
 source::operator bool() const noexcept
 {
-  return source_ == nullptr;
+  return source_ != nullptr;
 }
 
 io::io(sd_event_source *source) noexcept
-- 
2.43.0


From 8f3368f8bb4e9b5d600d84f0c47fb03bf926ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:38 +0000
Subject: [PATCH 40/44] fix: keep the clock of an event loop valid when the
 loop is moved

---
 bnl/http3/app/endpoint/sd/event/loop.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bnl/http3/app/endpoint/sd/event/loop.cpp b/bnl/http3/app/endpoint/sd/event/loop.cpp
index cd8414e..db4c9a9 100644
--- a/bnl/http3/app/endpoint/sd/event/loop.cpp
+++ b/bnl/http3/app/endpoint/sd/event/loop.cpp
@@ -24,22 +24,30 @@ loop::loop()
   event_ = decltype(event_)(event, sd_event_unref);
 }
 
-duration
-loop::now() const noexcept
+static duration
+event_now(sd_event *event) noexcept
 {
   uint64_t result = 0;
 
-  int rv = sd_event_now(event_.get(), CLOCK_MONOTONIC, &result);
+  int rv = sd_event_now(event, CLOCK_MONOTONIC, &result);
   (void) rv; // Silence GCC 9 Wunused-variable warning
   assert(rv >= 0);
 
   return duration(result);
 }
 
+duration
+loop::now() const noexcept
+{
+  return event_now(event_.get());
+}
+
 std::function<sd::event::duration()>
 loop::clock() const noexcept
 {
-  return [this]() { return now(); };
+  // The loop might be moved while the clock is in use so we do not refer to it.
+  sd_event *event = event_.get();
+  return [event]() { return event_now(event); };
 }
 
 result<io>
-- 
2.43.0


From 72393ac565547a0a3c310ea6d3b6d31e22b8e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 41/44] fix: handle the loss detection timer at the time it
 expires

---
 bnl/http3/app/endpoint/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 76706fe..ee94c11 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -125,7 +125,7 @@ client::send()
     r = send_once();
   } while (r);
 
-  retransmit_.update(sd_.now() + quic_.expiry());
+  retransmit_.update(quic_.expiry());
   timeout_.update(sd_.now() + quic_.timeout());
 
   if (r.error() == std::errc::resource_unavailable_try_again ||
-- 
2.43.0


From fab4affc3503b24d6848e9d34f2a6c026d71867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 42/44] fix: let the server send more stream data when data was
 received

ngtcp2 doesn't raise its flow control limits on its own. As the client never
did either, a response larger than the initial limits (256 KiB per stream and
1 MiB per connection) stopped halfway until the connection timed out.
---
 bnl/quic/src/client/ngtcp2/connection.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 50de92a..f2c0602 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -333,7 +333,6 @@ connection::recv_stream_data(ngtcp2_conn *connection,
                              void *context,
                              void *stream_context)
 {
-  (void) connection;
   (void) offset;
   (void) stream_context;
   auto client = static_cast<ngtcp2::connection *>(context)->context_;
@@ -341,6 +340,15 @@ connection::recv_stream_data(ngtcp2_conn *connection,
   client->recv_stream_data(
     static_cast<uint64_t>(id), fin != 0, base::buffer_view(data, size));
 
+  // The data has been consumed so allow the server to send that much more.
+
+  int rv = ngtcp2_conn_extend_max_stream_offset(connection, id, size);
+  if (rv != 0) {
+    return NGTCP2_ERR_CALLBACK_FAILURE;
+  }
+
+  ngtcp2_conn_extend_max_offset(connection, size);
+
   return 0;
 }
 
-- 
2.43.0


From d275c99574aef2886e770e572d74b7ef4bf67b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 43/44] fix: accept acknowledgements of the end of a finished
 stream

ngtcp2 reports the acknowledgement of a stream frame that only contains the end
of the stream with size zero. If all data of the stream was acknowledged before,
the stream was removed already and the connection failed.
---
 bnl/quic/src/client/connection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index ba2a583..5a0da36 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -121,6 +121,12 @@ connection::acked_stream_data_offset(uint64_t id, size_t size)
 {
   auto match = streams_.find(id);
   if (match == streams_.end()) {
+    // The end of a stream that was sent in a frame of its own is acked with
+    // size zero, possibly after all of the stream's data was acked.
+    if (size == 0) {
+      return base::success();
+    }
+
     BNL_LOG_E("ngtcp2 acked data for stream {} which does not exist", id);
     return error::internal;
   }
-- 
2.43.0


From 3abe4c09cf3633e87394eccba05926fdf45ab4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:51 +0000
Subject: [PATCH 44/44] fix: do not keep skipped frames until the next known
 frame arrives

---
 bnl/http3/src/endpoint/stream/request.cpp | 34 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index da83a7f..d733c1a 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -343,22 +343,36 @@ receiver::process() noexcept
       return event::payload::finished{ id_ };
   };
 
-  if (error == error::incomplete && fin_received_) {
-    // The end of the stream can arrive after the last frame of the message has
-    // been processed, possibly with unknown frames in between.
-    bool between_frames = state_ == state::trailers ? trailers_size_ == 0
-                                                    : !body_.in_progress();
+  if (error == error::incomplete) {
+    bool between_frames = false;
 
-    if (state_ != state::headers && between_frames) {
-      (void) frame::decode(buffers_); // Skip unknown frames.
+    switch (state_) {
+      case state::headers:
+        between_frames = !headers_.started();
+        break;
+      case state::trailers:
+        between_frames = trailers_size_ == 0;
+        break;
+      default:
+        between_frames = !body_.in_progress();
+        break;
+    }
 
-      if (buffers_.empty()) {
+    // Skip unknown frames so they don't pile up until the next known frame.
+    if (between_frames) {
+      (void) frame::decode(buffers_);
+    }
+
+    if (fin_received_) {
+      // The end of the stream can arrive after the last frame of the message
+      // has been processed, possibly with unknown frames in between.
+      if (state_ != state::headers && between_frames && buffers_.empty()) {
         state_ = state::fin;
         return event::payload::body{ id_, true, base::buffer() };
       }
-    }
 
-    return error::malformed_frame;
+      return error::malformed_frame;
+    }
   }
 
   if (error == error::delegate) {
-- 
2.43.0

