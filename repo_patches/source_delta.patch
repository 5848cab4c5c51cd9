From bd1ddbe21629365919667604981e42d71667726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 01/39] fix: do not read past the end of the input

The end of an in-memory source was taken to be one byte behind its last byte
and the byte at the current position was accessed without checking that it
exists. Offsets are now compared against the number of bytes left, so that
huge length prefixes can not overflow the position.
---
 include/Srl/In.hpp | 18 +++++++++++-------
 src/lib/In.cpp     |  2 +-
 src/lib/PSrl.cpp   |  4 ++--
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..7895370 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -48,7 +48,7 @@ namespace Srl { namespace Lib {
         }
         auto steps = 0U;
 
-        while(Not == this->is_at_token(tokens...)) {
+        while(this->peek(0, error) && Not == this->is_at_token(tokens...)) {
             this->move(1, error);
             steps++;
         }
@@ -72,25 +72,29 @@ namespace Srl { namespace Lib {
     template<size_t N, class... Tail>
     bool In::is_at_token(const std::array<const char, N>& head, const Tail&... tail)
     {
-        return (try_peek(N) && Aux::comp<N>(this->pos, head.data())) || this->is_at_token(tail...);
+        return (try_peek(N - 1) && Aux::comp<N>(this->pos, head.data())) || this->is_at_token(tail...);
     }
 
     inline void In::move(size_t steps, const Error& error)
     {
-        this->pos = this->peek(steps, error) + steps;
+        if(steps > (size_t)(this->end - this->pos)) {
+            this->fetch_data(steps, error);
+        }
+        this->pos += steps;
     }
 
+    /* makes sure that the byte 'steps' bytes ahead can be accessed */
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
-            this->fetch_data(steps, error);
+        if(steps >= (size_t)(this->end - this->pos)) {
+            this->fetch_data(steps + 1, error);
         }
         return this->pos;
     }
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps < (size_t)(this->end - this->pos) || this->try_fetch_data(steps + 1);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -123,7 +127,7 @@ namespace Srl { namespace Lib {
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max - 1) ? max : this->end - this->pos;
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..570aea1 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..d89131f 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,14 +88,14 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
+        uint8_t  block       = *source.peek(0, error);
         uint64_t out_integer = mask_reset_msb & block;
 
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
             source.move(1, error);
-            block = *source.pointer();
+            block = *source.peek(0, error);
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
-- 
2.43.0


From 6dd146edfeec388b55ae35bd96ae6b4068fcb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 02/39] fix: keep the anchored block when more than one chunk
 is read from a stream

The anchor was dropped by the first refill it had to survive. Also read data
chunkwise, so that a forged length can not make the reader reserve memory for
data that never arrives.
---
 src/lib/In.cpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 570aea1..02825e5 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -52,7 +52,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
 
     auto left = this->end - this->pos;
 
-    read_len = (nbytes < read_len ? read_len : nbytes) - left;
+    auto to_read = (nbytes < read_len ? read_len : nbytes) - left;
 
     auto preserve_pos = this->anchor != nullptr
         ? this->anchor - start
@@ -63,21 +63,40 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto margin = preserve_pos < margin_sz ? margin_sz - (margin_sz - preserve_pos) : margin_sz;
 
     auto preserve_sz = this->end - (this->start + preserve_pos - margin);
-    auto bufsz = preserve_sz + read_len;
 
-    if(this->buffer.size() < bufsz) {
-        this->buffer.resize(bufsz);
+    /* don't trust the requested size, data has to arrive before more memory is reserved */
+    const size_t max_chunk = 65536;
+    auto chunk = read_len;
+
+    if(this->buffer.size() < preserve_sz + chunk) {
+        this->buffer.resize(preserve_sz + chunk);
     }
 
     if(preserve_sz > 0) {
         memmove(this->buffer.data(), &this->buffer[preserve_pos - margin], preserve_sz);
     }
 
-    this->stream->read((char*)&this->buffer[preserve_sz], read_len);
-    auto bytes_read = (size_t)this->stream->gcount();
+    size_t bytes_read = 0;
+
+    while(bytes_read < to_read) {
+        if(this->buffer.size() < preserve_sz + bytes_read + chunk) {
+            this->buffer.resize(preserve_sz + bytes_read + chunk);
+        }
+
+        this->stream->read((char*)&this->buffer[preserve_sz + bytes_read], chunk);
+        auto count = (size_t)this->stream->gcount();
+
+        bytes_read += count;
+
+        if(count < chunk) {
+            break;
+        }
+
+        chunk = chunk * 2 < max_chunk ? chunk * 2 : max_chunk;
+    }
 
-    this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    this->pos    = this->buffer.data() + (preserve_sz - left);
+    this->anchor = this->anchor ? this->buffer.data() + margin : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From f0a6129afbf930512ee3ea2a9a86f94e2249c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:46 +0000
Subject: [PATCH 03/39] fix: detect overflow when converting a string to an
 integer

---
 src/lib/ToolsStrConv.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..ac9c302 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -58,7 +58,6 @@ namespace {
             idx = 1;
         }
 
-        uint64_t tmp = 0;
         for(char c = '\0'; idx < str_len; idx++) {
             c = str[idx];
 
@@ -66,12 +65,12 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            uint64_t digit = c - '0';
+            if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + digit;
         }
 
         bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
-- 
2.43.0


From 0d3a5e42bc1a47d6452622c0358797133154c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 04/39] fix: do not convert 2^63 and above to a signed integer
 when formatting numbers

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index ac9c302..1ee66fd 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -98,7 +98,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0 - (uint64_t)value.pblock().i64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
@@ -133,7 +133,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < -(double)numeric_limits<int64_t>::min() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From 386bc651f16eb9287a3e63a8a518894f93059a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 05/39] fix: reject floating point values that don't fit the
 integer they are assigned to

---
 include/Srl/TpTools.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..c4e71d6 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -155,6 +155,11 @@ namespace Srl { namespace TpTools {
                 return false;
             }
 
+            /* NaN, or a value that is not below the upper limit: (double)max<T>() might have been rounded up */
+            if(!std::is_floating_point<T>::value && !(val < (double)max<T>() + 1)) {
+                return false;
+            }
+
             target = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
             return true;
         }
-- 
2.43.0


From fe511d8986e4da79c57816af910b9c957dcb3d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 06/39] fix: MessagePack str and bin lengths are big-endian

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..3786ea8 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -135,12 +135,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes<uint16_t>(block.size);
             out.write_byte(0xC5);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes<uint32_t>(block.size);
             out.write_byte(0xC6);
             out.write(sz);
         }
@@ -162,12 +162,12 @@ namespace {
             out.write_byte(block.size);
 
         } else if (block.size <= 0xFFFE) {
-            uint16_t sz = block.size;
+            uint16_t sz = swap_bytes<uint16_t>(block.size);
             out.write_byte(0xDA);
             out.write(sz);
 
         } else {
-            uint32_t sz = block.size;
+            uint32_t sz = swap_bytes<uint32_t>(block.size);
             out.write_byte(0xDB);
             out.write(sz);
         }
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From c5e6e97fd3eb253113012110f5bab48c007e4a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:12 +0000
Subject: [PATCH 07/39] fix: reject the reserved MessagePack prefix 0xC1

---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 3786ea8..f20ae1c 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From 288ab1085dff185323f27007ba067205bc74bae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 08/39] fix: skip the content of MessagePack map keys that
 aren't strings

---
 src/lib/PMsgPack.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index f20ae1c..5b87f8b 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -434,7 +434,20 @@ pair<MemBlock, Value> PMsgPack::read(In& source)
 
 
     if(this->scope && this->scope->type == Type::Object) {
-        name = prefix_is_str(prefix) ? read_name(prefix, this->buffer, source) : name;
+        if(prefix_is_str(prefix)) {
+            name = read_name(prefix, this->buffer, source);
+
+        /* keys that aren't strings are dropped, but their content has to be skipped */
+        } else if(prefix_is_scalar(prefix)) {
+            read_scalar(prefix, source);
+
+        } else if(prefix_is_bin(prefix)) {
+            read_bin(prefix, source);
+
+        } else {
+            error();
+        }
+
         prefix = source.read_move<uint8_t>(error);
 
     }
-- 
2.43.0


From f8d212c2ed9463b97fe4e53e91b8dc7733ba5c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 09/39] fix: moving a hash table has to move the memory its
 entries live in

---
 include/Srl/Hash.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..3265dc6 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,10 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->heap      = std::move(m.heap);
+
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From ed67804f7558ad780952e75661765eeca4467fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 10/39] fix: don't iterate over the released table of a cleared
 hash table

---
 include/Srl/Hash.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index 3265dc6..da1f48d 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -226,6 +226,7 @@ namespace Srl { namespace Lib {
         this->destroy_all<K, V>();
         this->heap.clear();
         this->mem_cache.clear();
+        this->table    = nullptr;
         this->elements = 0;
         this->limit    = 0;
     }
-- 
2.43.0


From fc292ef7287c34119220f51daca85ecd5a63477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 11/39] fix: keep a copy of the field names that are indexed
 while writing Srl data

---
 src/lib/PSrl.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index d89131f..a2dc819 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -126,15 +126,16 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
     flag |= FNamed;
 
     auto nstrings = this->hashed_strings.num_entries();
+    auto* index   = this->hashed_strings.get(str);
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
-
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the memory of 'str' might be reused after this call */
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From 24af084a276ed8b800520ed0c449f280f1b68d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:28 +0000
Subject: [PATCH 12/39] fix: reject over-long integers before shifting beyond
 64 bits

---
 src/lib/PSrl.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index a2dc819..a94ef3b 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -94,17 +94,17 @@ namespace {
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
+            /* no support for integers > 64 bit */
+            if(shift >= 64) {
+                error();
+            }
+
             source.move(1, error);
             block = *source.peek(0, error);
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
-
         source.move(1, error);
 
         return out_integer;
-- 
2.43.0


From f72eed8e7d51ca5deb4be7872ea5ea670fc6e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:31 +0000
Subject: [PATCH 13/39] fix: avoid overflow when negating the smallest 64 bit
 integer

---
 src/lib/PSrl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index a94ef3b..8c73ad9 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -208,7 +208,7 @@ void PSrl::write(const Value& value, const MemBlock& name, Out& out)
     } else if(TpTools::is_integral(type)) {
 
         uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0
-            ? -value.pblock().i64
+            ? 0 - value.pblock().ui64
             : value.pblock().ui64;
 
         encode_integer(integer, out);
@@ -285,7 +285,7 @@ pair<Lib::MemBlock, Value> PSrl::read_num(Flag flag, const MemBlock& name, In& s
     uint64_t integer = decode_integer(source);
 
     return flag & FSigned
-        ? make_pair(name, Value(-(int64_t)integer))
+        ? make_pair(name, Value((int64_t)(0 - integer)))
         : make_pair(name, Value(integer));
 }
 
-- 
2.43.0


From a2801c9e82e1f3031e0460f718c81557e54bb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:05 +0000
Subject: [PATCH 14/39] fix: patch reserved bytes relative to where the output
 starts in the stream

---
 include/Srl/Out.h   | 1 +
 include/Srl/Out.hpp | 2 +-
 src/lib/Out.cpp     | 6 ++++++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.h b/include/Srl/Out.h
index ba9ac30..8032c75 100644
--- a/include/Srl/Out.h
+++ b/include/Srl/Out.h
@@ -71,6 +71,7 @@ namespace Srl { namespace Lib {
 
         bool streaming;
         std::ostream* stream = nullptr;
+        std::streamoff stream_start = 0;
         std::vector<uint8_t>* buffer = nullptr;
 
         void inc_cap          (size_t nbytes);
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..75de86a 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -49,7 +49,7 @@ namespace Srl { namespace Lib {
         } else {
             auto crr = this->stream->tellp();
 
-            this->stream->seekp(ticket.pos + offset);
+            this->stream->seekp(this->stream_start + ticket.pos + offset);
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..a48d03c 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -13,6 +13,12 @@ void Out::set(Source source)
     this->streaming = source.is_stream;
     this->stream = source.is_stream ? source.stream : nullptr;
     this->buffer = !source.is_stream ? source.buffer : nullptr;
+
+    if(this->streaming) {
+        /* the stream might have been written to before */
+        std::streamoff start = this->stream->tellp();
+        this->stream_start = start > 0 ? start : 0;
+    }
 }
 
 void Out::inc_cap(size_t nbytes)
-- 
2.43.0


From 9ba18997196d9a6f817ef35f81562efe6dc6e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 15/39] fix: throw when an element beyond the end of a node is
 requested

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..7e06be9 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From 2f698b504febd656da03c7398eab9926dc830a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 16/39] fix: skip all remaining items of a scope, not just
 those up to its first nested scope

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 7e06be9..53c8804 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -527,7 +527,7 @@ void Node::consume_scope()
 
         if(tp == Type::Scope_End) {
             depth--;
-            if(depth <= 0) {
+            if(depth < 0) {
                 this->parsed = true;
             }
         }
-- 
2.43.0


From 9d99b30c9395aa0ee683e48ea0c46f8c02136900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:51 +0000
Subject: [PATCH 17/39] fix: don't dereference the missing name of a node

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 53c8804..ca870eb 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From 4ca45a8f1db75e7035eee34be72ae8f11a1edb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 18/39] fix: a ScopeWrap has to own the function it calls

---
 include/Srl/ScopeWrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/ScopeWrap.h b/include/Srl/ScopeWrap.h
index a6b6f6f..e91642d 100644
--- a/include/Srl/ScopeWrap.h
+++ b/include/Srl/ScopeWrap.h
@@ -23,7 +23,7 @@ namespace Srl {
 
     private:
         const Type scope_type;
-        const std::function<void(Node&)>& fn_insert;
+        const std::function<void(Node&)> fn_insert;
 
     };
 }
-- 
2.43.0


From e4ad6cfbf03e68f6b5df491e3cb97ca215150816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:52 +0000
Subject: [PATCH 19/39] fix: keep the elements of an initializer list inside
 their array when storing directly

---
 include/Srl/Node.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Node.hpp b/include/Srl/Node.hpp
index 9dbe0a0..8140311 100644
--- a/include/Srl/Node.hpp
+++ b/include/Srl/Node.hpp
@@ -26,9 +26,20 @@ namespace Srl {
     template<class T>
     Node& Node::insert(const String& field_name, const std::initializer_list<T>& elements)
     {
-        auto& new_node = this->insert_node(Type::Array, field_name);
-        for(auto& e : elements) {
-           new_node.insert(e);
+        if(this->env->parsing) {
+            this->env->write(Value(Type::Array), field_name);
+
+            for(auto& e : elements) {
+                this->insert(e);
+            }
+
+            this->env->write(Value(Type::Scope_End), field_name);
+
+        } else {
+            auto& new_node = this->insert_node(Type::Array, field_name);
+            for(auto& e : elements) {
+               new_node.insert(e);
+            }
         }
         return *this;
     }
-- 
2.43.0


From 9ecfe05b5bd4c1d47aa0b8e4e3529037403aabd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 20/39] fix: length and terminator of wide character arrays

---
 include/Srl/Resolve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..8aeeabd 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From 8e4036a90ecd5bcef618096f685744c831e1dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 21/39] fix: don't skip the fields that follow a dynamically
 typed field

---
 include/Srl/Resolve.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 8aeeabd..9bf6f7d 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -267,7 +267,6 @@ namespace Srl { namespace Lib {
                 u = node.get(id);
             } else {
                 u = node.consume_item(id);
-                node.consume_scope();
             }
         }
     };
-- 
2.43.0


From 3b85ba1dd3a8b466e680cf3fd61e900915f35314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 22/39] fix: reject sources with more elements than the fixed
 size array they are restored to

---
 include/Srl/Resolve.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 9bf6f7d..f69bf00 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -607,6 +607,12 @@ namespace Srl { namespace Lib {
                     count++;
                 }
 
+                if(!node.parsed) {
+                    /* there shouldn't be any elements left */
+                    node.consume_item<E>();
+                    count += !node.parsed;
+                }
+
                 Aux::check_size(len, count, id);
             }
         }
-- 
2.43.0


From d1102b7c7b8b45107b973c7336e2f7c29e021604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 23/39] fix: don't leave a dangling pointer behind when
 restoring its content fails

---
 include/Srl/Resolve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index f69bf00..f7183d8 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -456,6 +456,7 @@ namespace Srl { namespace Lib {
 
             if(o != nullptr) {
                 delete o;
+                o = nullptr;
             }
 
             auto uptr = Lib::registrations()->create<U>(type_id);
@@ -711,12 +712,12 @@ namespace Srl { namespace Lib {
 
             if(p != nullptr) {
                 delete p;
+                p = nullptr;
             }
 
             auto val_type = item.type();
 
             if(val_type == Type::Null) {
-                p = nullptr;
                 return;
             }
 
-- 
2.43.0


From d2e7938944d2ac92a19a23d2bc80caea55447ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 24/39] fix: restore a unique_ptr that was null when it was
 stored

---
 include/Srl/Resolve.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index f7183d8..f5bebca 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -742,7 +742,9 @@ namespace Srl { namespace Lib {
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
             E* content = nullptr;
-            Apply(content, item, id);
+            if(item.type() != Type::Null) {
+                Apply(content, item, id);
+            }
             p = T(content);
         }
 
-- 
2.43.0


From 4fcb097d6f7afdaff32567eddec4f4eefe3a495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:44 +0000
Subject: [PATCH 25/39] fix: reject binary data that doesn't fill the last
 element of a restored vector

---
 include/Srl/BitWrap.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..06d469c 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -4,6 +4,7 @@
 #include "Blocks.h"
 #include "Common.h"
 #include "Srl/Resolve.h"
+#include "Srl/Exception.h"
 
 #include <functional>
 #include <utility>
@@ -42,6 +43,9 @@ namespace Srl {
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
                 [this](size_t sz)
                 {
+                    if(sz % sizeof(T) != 0) {
+                        throw Exception("Unable to restore vector. Size of binary data is not a multiple of the element size.");
+                    }
                     vec->resize(sz / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
-- 
2.43.0


From 255b8f1905d15c888b326f04492f6ff637943853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 26/39] fix: a tree has to remain usable after storing an
 object failed

---
 include/Srl/Environment.h | 12 ++++++++++++
 include/Srl/Tree.hpp      | 12 +++++++-----
 src/lib/Tree.cpp          | 14 ++++++++------
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..37fa73b 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -80,6 +80,18 @@ namespace Lib {
         void clear();
 
     };
+
+    /* active while objects are written directly to a parser */
+    struct StoreScope {
+
+        StoreScope(Environment& env_) : env(&env_) { env->parsing = true; }
+        ~StoreScope() { env->parsing = false; }
+
+        StoreScope(const StoreScope&)             = delete;
+        StoreScope& operator= (const StoreScope&) = delete;
+
+        Environment* env;
+    };
 } }
 
 #endif
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..7f377e9 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,15 +56,17 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
 
-        this->env->write(Value(Type::Object), "");
+        {
+            Lib::StoreScope scope(*this->env);
 
-        this->root_node->insert(items...);
+            this->env->write(Value(Type::Object), "");
 
-        this->env->write(Value(Type::Scope_End), "");
+            this->root_node->insert(items...);
+
+            this->env->write(Value(Type::Scope_End), "");
+        }
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..48c6396 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,16 +55,18 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
 
-    auto& name = this->root_node->name();
-    this->env->write(Value(type), name);
+    {
+        StoreScope scope(*this->env);
 
-    store_switch();
+        auto& name = this->root_node->name();
+        this->env->write(Value(type), name);
 
-    this->env->write(Value(Type::Scope_End), name);
+        store_switch();
+
+        this->env->write(Value(Type::Scope_End), name);
+    }
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From b043a234395b0bbbf2fb8141c322c8dd9463d04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 27/39] fix: every stored document has to contain the shared
 objects it refers to

---
 include/Srl/Environment.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 37fa73b..228ccf3 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -81,16 +81,27 @@ namespace Lib {
 
     };
 
-    /* active while objects are written directly to a parser */
+    /* active while objects are written directly to a parser,
+     * the keys of shared objects are only valid within the written document */
     struct StoreScope {
 
-        StoreScope(Environment& env_) : env(&env_) { env->parsing = true; }
-        ~StoreScope() { env->parsing = false; }
+        StoreScope(Environment& env_)
+            : env(&env_), shared_table(std::move(env_.shared_table_store))
+        {
+            env->parsing = true;
+        }
+
+        ~StoreScope()
+        {
+            env->parsing = false;
+            env->shared_table_store = std::move(this->shared_table);
+        }
 
         StoreScope(const StoreScope&)             = delete;
         StoreScope& operator= (const StoreScope&) = delete;
 
         Environment* env;
+        HTable<const void*, size_t> shared_table;
     };
 } }
 
-- 
2.43.0


From c87919e34793f6066f33e63de1d4482f9b666b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 28/39] fix: reject malformed base64 strings instead of reading
 out of bounds

---
 src/lib/ToolsBtsConv.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..f7bb23d 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -81,6 +81,11 @@ size_t Tools::bytes_to_base64(const uint8_t* bytes, size_t nbytes, vector<uint8_
 
 size_t Tools::get_base64_decoded_size(const char* str, size_t str_len)
 {
+    if(str_len % 4 != 0) {
+        throw Exception("Unable to convert base64 string to binary data." \
+                        " Size of source must be a multiple of 4." );
+    }
+
     if(str_len < 4) {
         return 0;
     }
@@ -105,36 +110,43 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
 {
     Base64Table table;
 
-    if(str_len > 0 && str_len % 4 != 0) {
-        throw Exception("Unable to convert base64 string to binary data." \
-                        " Size of source must be a multiple of 4." );
+    auto decoded_size = get_base64_decoded_size(str, str_len);
+
+    if(dest_size < decoded_size) {
+        throw Exception("Unable to convert base64 string to binary data. Destination buffer too small.");
     }
 
-    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
+    const auto is_fill = [&](size_t idx) {
+        /* only the last two characters can be padding */
+        return str[idx] == '=' && (idx + 1 == str_len || (idx + 2 == str_len && str[idx + 1] == '='));
+    };
+
+    for(size_t in_idx = 0, out_idx = 0; in_idx < str_len;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
-        if(b0 == table.val_invalid || b1 == table.val_invalid ||
-           b2 == table.val_invalid || b3 == table.val_invalid) {
+        if(b0 >= table.val_fill || b1 >= table.val_fill ||
+          (b2 >= table.val_fill && !is_fill(in_idx + 2)) ||
+          (b3 >= table.val_fill && !is_fill(in_idx + 3))) {
             throw Exception("Unable to convert base64 string to binary data. String malformed.");
         }
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
         dest[out_idx] = b0 << 2 | b1 >> 4;
         /* PPPPPP PP[BBBB BBBB]BB BBBBBB */
-        if(out_idx + 1 < dest_size) {
+        if(out_idx + 1 < decoded_size) {
             dest[out_idx + 1] = b1 << 4 | b2 >> 2;
         }
         /* PPPPPP PPPPPP PPPP[BB BBBBBB] */
-        if(out_idx + 2 < dest_size) {
+        if(out_idx + 2 < decoded_size) {
             dest[out_idx + 2] = b2 << 6 | b3;
         }
     }
 
-    return get_base64_decoded_size(str, str_len);
+    return decoded_size;
 }
 
 vector<uint8_t> Tools::bytes_to_hex(const uint8_t* bytes, size_t nbytes)
-- 
2.43.0


From 06ce09e035f0aef9e6e9edfc1012eb0be2015336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 29/39] fix: grow the output of a charset conversion that
 doesn't start at the front of the buffer

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 1ee66fd..69112d3 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -378,8 +378,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
             auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            converted = current - buffer_index - left_out;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From 9830ed1662855fa164eb14fc83670b255b89d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 30/39] fix: escape field names and control characters in JSON
 output

---
 src/lib/PJson.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9832331 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -30,10 +30,24 @@ namespace {
 
     void write_escape(const MemBlock& str, Out& out)
     {
-        out.write_substitute(str,
-            '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
-            '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
-        );
+        const char hex[] = "0123456789abcdef";
+
+        for(size_t i = 0; i < str.size; i++) {
+
+            auto c = str.ptr[i];
+
+            if(c < 0x20 && c != '\n' && c != '\t' && c != '\r' && c != '\b' && c != '\f') {
+                /* control character without a short escape sequence */
+                const uint8_t esc[] { '\\', 'u', '0', '0', (uint8_t)hex[c >> 4], (uint8_t)hex[c & 0xF] };
+                out.write(esc, sizeof(esc));
+                continue;
+            }
+
+            out.write_substitute({ str.ptr + i, 1 },
+                '\"', ar('\"'), '\\', ar('\\'), '/', ar('/'), '\n', ar('n'),
+                '\t', ar('t'), '\r',  ar('r'), '\b',  ar('b'), '\f', ar('f')
+            );
+        }
     }
 
     MemBlock read_unescape(In& in, vector<uint8_t>& buffer)
@@ -107,7 +121,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From f406917d582a17f7fcd6142506b729a6178fffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 31/39] fix: decode JSON unicode escape sequences with the most
 significant digit first

---
 src/lib/PJson.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9832331..4680186 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -14,13 +14,30 @@ namespace {
     };
 
     const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
-        /* skip "\u" and read 4 hex digits */
-        auto block = src.read_block(2 + 4, error);
+        uint8_t utf16[4];
+        size_t size = 0;
 
-        Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+        const auto read_code_unit = [&] {
+            uint8_t hex_buffer[2];
+            /* skip "\u" and read 4 hex digits */
+            auto block = src.read_block(2 + 4, error);
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+            Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+
+            /* most significant digit comes first, String expects little endian */
+            utf16[size++] = hex_buffer[1];
+            utf16[size++] = hex_buffer[0];
+        };
+
+        read_code_unit();
+
+        bool high_surrogate = (utf16[1] & 0xFC) == 0xD8;
+
+        if(high_surrogate && src.try_peek(1) && *src.pointer() == '\\' && *(src.pointer() + 1) == 'u') {
+            read_code_unit();
+        }
+
+        return Tools::conv_charset(Encoding::UTF8, String(utf16, size, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From 22e8d4287800eb54d91feffc0717d0d5f4ff58a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 32/39] fix: read the smallest 64-bit integer as an integer
 instead of a double

---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 69112d3..9e5a109 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -73,7 +73,7 @@ namespace {
             val = val * 10 + digit;
         }
 
-        bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
+        bool success = idx >= str_len && (!is_signed || val <= (uint64_t)numeric_limits<int64_t>::max() + 1);
 
         return make_tuple(val, is_signed, success);
     }
@@ -218,7 +218,7 @@ pair<bool, Value> Tools::str_to_type(const uint8_t* str, size_t str_len, Type hi
         tie(i, is_signed, success) = str_to_int(str, str_len);
 
         if(success) {
-            return is_signed ? make_pair(true, Value(-(int64_t)i)) : make_pair(true, Value(i));
+            return is_signed ? make_pair(true, Value((int64_t)(0 - i))) : make_pair(true, Value(i));
         }
     }
 
-- 
2.43.0


From df642481aed671d36ad81642d08ae1b6517aa21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 33/39] fix: has_node/has_value while restoring miss an item
 whose name is shared with an item of the other kind

---
 include/Srl/Node.h |  2 +-
 src/lib/Node.cpp   | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index 3d69ae0..c946ffd 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -143,7 +143,7 @@ namespace Srl {
         Node  consume_node  (bool throw_ex, size_t idx);
         Value consume_value (bool throw_ex, size_t idx);
 
-        Union consume_item(const String& name, bool throw_err = true);
+        Union consume_item(const String& name, bool throw_err = true, bool nodes_match = true, bool values_match = true);
 
         template<class T>
         typename std::enable_if<!TpTools::is_scope(Lib::Switch<T>::type), Value>::type
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index ca870eb..f82840a 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -276,15 +276,15 @@ void Node::read_source(int scope_depth)
     }
 }
 
-Union Node::consume_item(const String& id, bool throw_err)
+Union Node::consume_item(const String& id, bool throw_err, bool nodes_match, bool values_match)
 {
-    auto* storednode = find_link<Name>(id, this->nodes);
+    auto* storednode = nodes_match ? find_link<Name>(id, this->nodes) : nullptr;
 
     if(storednode) {
         return Union(storednode->field);
     }
 
-    auto* storedvalue = find_link<Name>(id, this->values);
+    auto* storedvalue = values_match ? find_link<Name>(id, this->values) : nullptr;
 
     if(storedvalue) {
         return Union(storedvalue->field);
@@ -307,13 +307,13 @@ Union Node::consume_item(const String& id, bool throw_err)
         if(TpTools::is_scope(tp)) {
             auto* link = this->env->store_node(*this, Node(this->env->tree, tp), seg_name);
             link->field.read_source();
-            if(link->hash == hash && link->field.name() == id) {
+            if(nodes_match && link->hash == hash && link->field.name() == id) {
                 return Union(link->field);
             }
 
         } else {
             auto* link = this->env->store_value(*this, val, seg_name);
-            if(link->hash == hash && link->field.name() == id) {
+            if(values_match && link->hash == hash && link->field.name() == id) {
                 return Union(link->field);
             }
         }
@@ -667,7 +667,7 @@ bool Node::has_node(const String& field_name)
         return find_link<Name>(field_name, this->nodes, field_name) != nullptr;
     }
 
-    auto unn = this->consume_item(field_name, false);
+    auto unn = this->consume_item(field_name, false, true, false);
 
     return unn.node() != nullptr;
 }
@@ -678,7 +678,7 @@ bool Node::has_value(const String& field_name)
         return find_link<Name>(field_name, this->values, field_name) != nullptr;
     }
 
-    auto unn = this->consume_item(field_name, false);
+    auto unn = this->consume_item(field_name, false, false, true);
 
     return unn.value() != nullptr;
 }
-- 
2.43.0


From 0bd28cfacc89a76e7f3689c7f9a705795b6cde70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 34/39] fix: Tree::load_object builds another document than
 storing the object for lists and single values

---
 include/Srl/Tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 7f377e9..bd30ec7 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -15,7 +15,7 @@ namespace Srl {
         template<class T, class = void> struct TypeSwitch {
             static const Type type = Type::Object;
 
-            static void Insert(const T& o, Tree& tree) { tree.root().insert(o); };
+            static void Insert(const T& o, Tree& tree) { tree.root().insert("value", o); };
 
             static std::function<void()> Store(const T& o, Tree& tree) {
                 return [&o, &tree] { tree.root().insert("value", o); };
@@ -163,6 +163,7 @@ namespace Srl {
     void Tree::load_object(const T& type)
     {
         this->clear();
+        this->root().scope_type = Lib::Aux::TypeSwitch<T>::type;
         Lib::Aux::TypeSwitch<T>::Insert(type, *this);
     }
 }
-- 
2.43.0


From a55f54ab24e950d73c2a6a2e40a3d0ec0d09251d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 35/39] fix: convert restored polymorphic objects to the
 requested base, refuse classes of other hierarchies

---
 include/Srl/Registration.h | 54 ++++++++++++++++++++++++++++++++------
 src/lib/Registration.cpp   |  6 ++---
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/include/Srl/Registration.h b/include/Srl/Registration.h
index 86c7a7a..45e74eb 100644
--- a/include/Srl/Registration.h
+++ b/include/Srl/Registration.h
@@ -14,13 +14,22 @@ namespace Srl {
 
         class Registrations {
 
-            typedef std::function<void*(void)> Make;
+            struct Entry {
+                void* (*make)();
+                void  (*destroy)(void*);
+                /* throws the object as a pointer of its registered type */
+                void  (*raise)(void*);
+            };
 
         public:
             template<class T>
             void add(const String& id)
             {
-                bool exists = this->insert(id, [] { return Ctor<T>::Create_New().release(); });
+                bool exists = this->insert(id, Entry {
+                    []() -> void* { return Ctor<T>::Create_New().release(); },
+                    [](void* obj) { delete static_cast<T*>(obj); },
+                    [](void* obj) { throw static_cast<T*>(obj); }
+                });
 
                 if(exists) {
                     throw Exception("Class id " + id.unwrap(false) + " duplicated.");
@@ -30,21 +39,50 @@ namespace Srl {
             template<class T>
             std::unique_ptr<T> create(const String& id)
             {
-                auto* make = this->find(id);
+                auto* entry = this->find(id);
 
-                if(!make) {
+                if(!entry) {
                     throw Exception("Class id " + id.unwrap(false) + " not registered.");
                 }
 
-                auto* ptr = (T*)((*make)());
+                auto* obj = entry->make();
+                auto* ptr = cast<T>(*entry, obj);
+
+                if(!ptr) {
+                    entry->destroy(obj);
+                    throw Exception("Class id " + id.unwrap(false) + " is not of the requested type.");
+                }
+
                 return std::unique_ptr<T>(ptr);
             }
 
+            /* object of the class registered as id -> pointer to its base T, null if T is not a base */
+            template<class T>
+            T* cast(const String& id, void* obj)
+            {
+                auto* entry = this->find(id);
+                return entry ? cast<T>(*entry, obj) : nullptr;
+            }
+
         private:
-            HTable<String, Make> table { 16 };
+            HTable<String, Entry> table { 16 };
 
-            bool  insert (const String& id, Make&& make);
-            Make* find   (const String& id);
+            bool   insert (const String& id, const Entry& entry);
+            Entry* find   (const String& id);
+
+            template<class T>
+            static T* cast(const Entry& entry, void* obj)
+            {
+                try {
+                    entry.raise(obj);
+
+                } catch(T* ptr) {
+                    return ptr;
+
+                } catch(...) { }
+
+                return nullptr;
+            }
         };
 
         Registrations* registrations();
diff --git a/src/lib/Registration.cpp b/src/lib/Registration.cpp
index d23a5f6..b0176f4 100644
--- a/src/lib/Registration.cpp
+++ b/src/lib/Registration.cpp
@@ -12,15 +12,15 @@ Registrations* Lib::registrations()
     return &regs;
 }
 
-bool Registrations::insert(const String& id, Registrations::Make&& make)
+bool Registrations::insert(const String& id, const Registrations::Entry& entry)
 {
     bool exists; void* v;
-    tie(exists, v) = this->table.insert(id, make);
+    tie(exists, v) = this->table.insert(id, entry);
 
     return exists;
 }
 
-Registrations::Make* Registrations::find (const String& id)
+Registrations::Entry* Registrations::find (const String& id)
 {
     return this->table.get(id);
 }
-- 
2.43.0


From 87b1e273d0093acbdf615d933d91233ab8b9db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 36/39] fix: shared objects are identified by type as well as
 address and key, known before their fields are restored

---
 include/Srl/Environment.h |  45 +++++++++++--
 include/Srl/Node.h        |   6 +-
 include/Srl/Resolve.hpp   | 133 ++++++++++++++++++++++++++++++--------
 src/lib/Environment.cpp   |  24 +++++++
 src/lib/Node.cpp          |  28 ++++----
 5 files changed, 185 insertions(+), 51 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 228ccf3..1639578 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -9,6 +9,8 @@
 #include "Out.h"
 
 #include <list>
+#include <memory>
+#include <typeinfo>
 
 namespace Srl {
 
@@ -29,14 +31,45 @@ namespace Lib {
     using Items = std::list<Lib::Link<T>, Lib::HeapAllocator<Lib::Link<T>>>;
 
 
-    template<> struct HashSrl<const void*> {
-        size_t operator()(const void* v) const
+    /* identifies a shared object while storing, objects of different types might have the same address */
+    struct SharedID {
+        const void*           address;
+        const std::type_info* type;
+
+        bool operator== (const SharedID& o) const { return address == o.address && *type == *o.type; }
+    };
+
+    template<> struct HashSrl<SharedID> {
+        size_t operator()(const SharedID& id) const
         {
-            uint64_t addr = (uint64_t)v;
+            uint64_t addr = (uint64_t)id.address;
             return HashSrl<uint64_t>()(addr);
         }
     };
 
+    struct SharedKeys {
+
+        struct Entry {
+            uint64_t            key;
+            std::weak_ptr<void> owner;
+        };
+
+        HTable<SharedID, Entry> table { 16 };
+        uint64_t                next = 0;
+
+        /* fst -> exists? snd -> key */
+        std::pair<bool, uint64_t> insert (const SharedID& id, const std::shared_ptr<void>& owner);
+        void clear();
+    };
+
+    /* a shared object which was restored, or is about to be */
+    struct SharedObject {
+        std::shared_ptr<void> ptr;
+        const std::type_info* type;     /* ptr points to this type */
+        const char*           type_id;  /* name of the registered class, if there is one */
+        void*                 complete; /* pointer to the registered class */
+    };
+
     struct Environment {
 
         static const String EmptyString;
@@ -48,8 +81,8 @@ namespace Lib {
         Heap                   heap;
         HTable<String, String> str_table;
 
-        HTable<const void*, size_t>           shared_table_store   { 16 };
-        HTable<size_t, std::shared_ptr<void>> shared_table_restore { 16 };
+        SharedKeys                     shared_table_store;
+        HTable<uint64_t, SharedObject> shared_table_restore { 16 };
 
         std::vector<uint8_t>  str_buffer;
         std::vector<uint8_t>  type_buffer;
@@ -101,7 +134,7 @@ namespace Lib {
         StoreScope& operator= (const StoreScope&) = delete;
 
         Environment* env;
-        HTable<const void*, size_t> shared_table;
+        SharedKeys   shared_table;
     };
 } }
 
diff --git a/include/Srl/Node.h b/include/Srl/Node.h
index c946ffd..0331014 100644
--- a/include/Srl/Node.h
+++ b/include/Srl/Node.h
@@ -126,8 +126,10 @@ namespace Srl {
         void open_scope (void (*Insert)(Node& node, const Args&... args),
                          Type node_type, const String& name, const Args&... args);
 
-        std::pair<bool, uint64_t> insert_shared (const void* obj);
-        std::pair<bool, std::shared_ptr<void>*>  find_shared (uint64_t key, const std::function<std::shared_ptr<void>(void)>& create);
+        std::pair<bool, uint64_t> insert_shared (const Lib::SharedID& id, const std::shared_ptr<void>& owner);
+        Lib::SharedObject*        find_shared   (uint64_t key);
+        void                      add_shared    (uint64_t key, const Lib::SharedObject& obj);
+        void                      remove_shared (uint64_t key);
 
         Node& insert_node  (const Node& node, const String& name);
         Node& insert_node  (Type type, const String& name);
diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index f5bebca..89ac9fa 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -53,6 +53,12 @@ namespace Srl { namespace Lib {
         template<class T, class ID>
         typename std::enable_if<!is_polymorphic<T*>::value, void>::type
         ptr_insert(T* const p, Node& node, const ID& id);
+
+        template<class E> struct SharedPaste {
+            Node&              node;
+            uint64_t           key;
+            std::shared_ptr<E> ptr;
+        };
     }
 
     template<class TString> std::pair<Encoding, MemBlock> wrap_string(const TString& str)
@@ -423,6 +429,7 @@ namespace Srl { namespace Lib {
     /* polymorphic classes / structs with a srl_type_id method */
     template<class T>
     struct Switch<T, typename std::enable_if<is_polymorphic<T>::value>::type> {
+        typedef typename std::remove_pointer<T>::type U;
         static const Type type = Type::Object;
 
         static void Insert(const T& o, Node& node, const String& name)
@@ -446,22 +453,32 @@ namespace Srl { namespace Lib {
         template<class ID = String>
         static void Paste(T& o, Node& node, const ID& id = Aux::str_empty)
         {
-            typedef typename std::remove_pointer<T>::type U;
+            std::unique_ptr<U> uptr;
+
+            Create(node, id, [&o, &uptr](std::unique_ptr<U>&& created) -> U& {
+
+                if(o != nullptr) {
+                    delete o;
+                    o = nullptr;
+                }
+
+                uptr = std::move(created);
+                return *uptr;
+            });
 
+            o = uptr.release();
+        }
+
+        template<class ID, class Take>
+        static void Create(Node& node, const ID& id, const Take& take)
+        {
             Aux::check_type_scope(node.type(), id);
 
             Context ctx(node, Mode::Paste);
             String type_id;
             ctx(Aux::str_type_id, type_id);
 
-            if(o != nullptr) {
-                delete o;
-                o = nullptr;
-            }
-
-            auto uptr = Lib::registrations()->create<U>(type_id);
-            uptr->srl_resolve(ctx);
-            o = uptr.release();
+            take(Lib::registrations()->create<U>(type_id)).srl_resolve(ctx);
         }
     };
 
@@ -776,7 +793,7 @@ namespace Srl { namespace Lib {
                 Switch<std::nullptr_t>::Insert(nullptr, node, name);
                 return;
             }
-            auto key = node.insert_shared(p.get());
+            auto key = node.insert_shared(Identify(p.get()), std::const_pointer_cast<typename std::remove_const<E>::type>(p));
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
@@ -788,39 +805,101 @@ namespace Srl { namespace Lib {
             }
         }
 
+        /* pointers to different bases of one polymorphic object share it */
+        template<class C>
+        static typename std::enable_if<is_polymorphic<C*>::value && std::is_polymorphic<C>::value, SharedID>::type
+        Identify(const C* p) { return { dynamic_cast<const void*>(p), &typeid(void) }; }
+
+        template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value || !std::is_polymorphic<C>::value, SharedID>::type
+        Identify(const C* p) { return { p, &typeid(C) }; }
+
         template<class ID = String>
-        static void Paste(T& p, Node& node, const ID& = Aux::str_empty)
+        static void Paste(T& p, Node& node, const ID& id = Aux::str_empty)
         {
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
-            bool inserted_new; std::shared_ptr<void>* sptr;
+            auto* obj = node.find_shared(key);
 
-            std::tie(inserted_new, sptr) = node.find_shared(key, [&p, &node] {
-                E* e = nullptr;
-                Apply(e, node);
-                p = std::shared_ptr<E>(e);
-                return p;
-            });
+            if(!obj) {
+                Aux::SharedPaste<E> content { node, key, nullptr };
+
+                try {
+                    node.paste_field(Aux::str_shared_value, content);
+
+                } catch(...) {
+                    if(content.ptr) {
+                        node.remove_shared(key);
+                    }
+                    throw;
+                }
+
+                p = content.ptr;
+
+            } else if(*obj->type == typeid(E)) {
+                p = std::static_pointer_cast<E>(obj->ptr);
 
-            if(!inserted_new) {
-                p = std::static_pointer_cast<E>(*sptr);
+            } else {
+                auto* ptr = Cast<E>(*obj);
+
+                if(!ptr) {
+                    Aux::throw_error("Shared object is of a different type.", id);
+                }
+
+                p = std::shared_ptr<E>(obj->ptr, ptr);
             }
         }
 
         template<class C>
-        static typename std::enable_if<is_polymorphic<C*>::value, void>::type
-        Apply(C*& p, Node& node)
+        static typename std::enable_if<is_polymorphic<C*>::value, C*>::type
+        Cast(const SharedObject& obj)
         {
-            node.paste_field(Aux::str_shared_value, p);
+            return obj.type_id ? Lib::registrations()->cast<C>(obj.type_id, obj.complete) : nullptr;
         }
 
         template<class C>
+        static typename std::enable_if<!is_polymorphic<C*>::value, C*>::type
+        Cast(const SharedObject&) { return nullptr; }
+    };
+
+    /* content of a shared_ptr, known as shared object before its fields are
+     * restored because those might refer to it */
+    template<class E> struct Switch<Aux::SharedPaste<E>> {
+        static const Type type = is_polymorphic<E*>::value ? Type::Object : Switch<E>::type;
+
+        template<class Item, class ID = String>
+        static void Paste(Aux::SharedPaste<E>& content, Item& item, const ID& id = Aux::str_empty)
+        {
+            Apply<E>(content, item, id);
+        }
+
+        template<class C, class Item, class ID>
+        static typename std::enable_if<is_polymorphic<C*>::value, void>::type
+        Apply(Aux::SharedPaste<C>& content, Item& item, const ID& id)
+        {
+            Switch<C*>::Create(item, id, [&content](std::unique_ptr<C>&& created) -> C& {
+                content.ptr = std::move(created);
+                auto* ptr = content.ptr.get();
+                content.node.add_shared(content.key, { content.ptr, &typeid(C), ptr->srl_type_id().name(), Complete(ptr) });
+                return *ptr;
+            });
+        }
+
+        template<class C, class Item, class ID>
         static typename std::enable_if<!is_polymorphic<C*>::value, void>::type
-        Apply(C*& p, Node& node)
+        Apply(Aux::SharedPaste<C>& content, Item& item, const ID& id)
         {
-            auto uptr = Ctor<C>::Create_New();
-            node.paste_field(Aux::str_shared_value, *uptr.get());
-            p = uptr.release();
+            content.ptr = Ctor<C>::Create_New();
+            content.node.add_shared(content.key, { content.ptr, &typeid(C), nullptr, nullptr });
+            Switch<C>::Paste(*content.ptr, item, id);
         }
+
+        template<class C>
+        static typename std::enable_if<std::is_polymorphic<C>::value, void*>::type
+        Complete(C* ptr) { return dynamic_cast<void*>(ptr); }
+
+        template<class C>
+        static typename std::enable_if<!std::is_polymorphic<C>::value, void*>::type
+        Complete(C* ptr) { return ptr; }
     };
 
     /* weak_ptr */
diff --git a/src/lib/Environment.cpp b/src/lib/Environment.cpp
index 3b3013a..3339deb 100644
--- a/src/lib/Environment.cpp
+++ b/src/lib/Environment.cpp
@@ -217,6 +217,30 @@ Value Environment::conv_type(const Value& value)
     return Value( { buffer.data(), data_size }, value.type());
 }
 
+pair<bool, uint64_t> SharedKeys::insert(const SharedID& id, const shared_ptr<void>& owner)
+{
+    bool exists; Entry* entry;
+    tie(exists, entry) = this->table.insert(id, Entry { this->next, owner });
+
+    /* the address belonged to an object which is gone */
+    if(exists && entry->owner.expired()) {
+        *entry = Entry { this->next, owner };
+        exists = false;
+    }
+
+    if(!exists) {
+        this->next++;
+    }
+
+    return { exists, entry->key };
+}
+
+void SharedKeys::clear()
+{
+    this->table.clear();
+    this->next = 0;
+}
+
 void Environment::clear()
 {
     this->heap.clear();
diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index f82840a..92490a6 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -534,28 +534,24 @@ void Node::consume_scope()
     }
 }
 
-pair<bool, uint64_t> Node::insert_shared (const void* obj)
+pair<bool, uint64_t> Node::insert_shared(const SharedID& id, const shared_ptr<void>& owner)
 {
-    bool exists; size_t* key;
-    auto& table = this->env->shared_table_store;
-
-    tie(exists, key) = table.insert(obj, table.num_entries());
-
-    return { exists, *key };
+    return this->env->shared_table_store.insert(id, owner);
 }
 
-pair<bool, shared_ptr<void>*> Node::find_shared (uint64_t key, const function<shared_ptr<void>(void)>& create)
+SharedObject* Node::find_shared(uint64_t key)
 {
-    auto& table = this->env->shared_table_restore;
-    auto* sptr = table.get(key);
-    bool inserted_new = false;
+    return this->env->shared_table_restore.get(key);
+}
 
-    if(!sptr) {
-        sptr = table.insert(key, create()).second;
-        inserted_new = true;
-    }
+void Node::add_shared(uint64_t key, const SharedObject& obj)
+{
+    this->env->shared_table_restore.insert(key, obj);
+}
 
-    return { inserted_new, sptr };
+void Node::remove_shared(uint64_t key)
+{
+    this->env->shared_table_restore.remove(key);
 }
 
 void Node::foreach_node(const function<void(Node&)>& fnc, bool recursive)
-- 
2.43.0


From f8ce1ec78afcd9c93f9d8dacd73d2a2b67014a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:11 +0000
Subject: [PATCH 37/39] fix: null shared and weak pointers could be stored but
 not restored

---
 include/Srl/Resolve.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 89ac9fa..f3c9b05 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -790,13 +790,16 @@ namespace Srl { namespace Lib {
         static void Insert(const T& p, Node& node, const String& name)
         {
             if(!p) {
-                Switch<std::nullptr_t>::Insert(nullptr, node, name);
+                /* restored as scope, a null value would not be found */
+                node.open_scope(&Insert_Null, Type::Object, name);
                 return;
             }
             auto key = node.insert_shared(Identify(p.get()), std::const_pointer_cast<typename std::remove_const<E>::type>(p));
             node.open_scope(&Insert_Key, Type::Object, name, p, !key.first, key.second);
         }
 
+        static void Insert_Null(Node&) { }
+
         static void Insert_Key(Node& node, const T& p, const bool& first, const uint64_t& key)
         {
             node.insert_value(key, Aux::str_shared_key);
@@ -817,6 +820,12 @@ namespace Srl { namespace Lib {
         template<class ID = String>
         static void Paste(T& p, Node& node, const ID& id = Aux::str_empty)
         {
+            if(node.type() == Type::Object && !node.has_value(Aux::str_shared_key) &&
+               node.num_values() == 0 && node.num_nodes() == 0) {
+                p = nullptr;
+                return;
+            }
+
             uint64_t key = node.unwrap_field<uint64_t>(Aux::str_shared_key);
             auto* obj = node.find_shared(key);
 
-- 
2.43.0


From 3e80a45b65e76326c514f8cee7f73bb5cc6b5b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:12 +0000
Subject: [PATCH 38/39] fix: keys of shared objects of a stored document depend
 on what the tree stored before

---
 include/Srl/Environment.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 1639578..5e5b7e5 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -121,6 +121,7 @@ namespace Lib {
         StoreScope(Environment& env_)
             : env(&env_), shared_table(std::move(env_.shared_table_store))
         {
+            env->shared_table_store.clear();
             env->parsing = true;
         }
 
-- 
2.43.0


From f31e69fdefc9440ceda04adc324f8535e49658c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:50 +0000
Subject: [PATCH 39/39] fix: a name which can't be converted isn't equal to the
 empty name

---
 include/Srl/String.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Srl/String.hpp b/include/Srl/String.hpp
index 172dceb..ef6e762 100644
--- a/include/Srl/String.hpp
+++ b/include/Srl/String.hpp
@@ -29,7 +29,8 @@ namespace Srl {
 
         } else {
             auto tmp = Tools::conv_charset(this->block.encoding, a, false);
-            return cmp(tmp.data(), tmp.size());
+            /* a string which can't be converted isn't equal to any other, also not to the empty one */
+            return tmp.size() > 0 && cmp(tmp.data(), tmp.size());
         }
     }
 }
-- 
2.43.0

