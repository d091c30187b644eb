From bfc7ca7e1b598692b3f9d7e53c0a9f1c617f970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:36 +0000
Subject: [PATCH 01/15] fix: choose sysex8 complete/start packet by the size
 that is actually sent

send_sysex8 always writes a two byte manufacturer id, but decided between a
complete and a start packet by total_data_size(), which counts one or three
bytes. A one byte manufacturer with 12 data bytes was sent as 'complete' plus
a stray 'end' packet, a three byte manufacturer with 11 data bytes as a lone
'start' packet that was never ended.
---
 inc/midi/sysex.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/midi/sysex.h b/inc/midi/sysex.h
index 3ade2bd..b691d94 100644
--- a/inc/midi/sysex.h
+++ b/inc/midi/sysex.h
@@ -362,11 +362,13 @@ inline std::vector<data_message> as_sysex7_packets(const sysex7& sysex, group_t
 template<typename Sender>
 void send_sysex8(const sysex8& sysex, uint8_t stream_id, group_t group, Sender&& sender)
 {
-    constexpr size_t max_payload_size = 13;
+    constexpr size_t max_payload_size     = 13;
+    constexpr size_t manufacturer_id_size = 2; // always two bytes in sysex8 packets
 
     // initialize first packet
-    auto p = (sysex.total_data_size() <= max_payload_size) ? make_sysex8_complete_packet(stream_id, group)
-                                                           : make_sysex8_start_packet(stream_id, group);
+    auto p = (sysex.data.size() + manufacturer_id_size <= max_payload_size)
+               ? make_sysex8_complete_packet(stream_id, group)
+               : make_sysex8_start_packet(stream_id, group);
 
     // write manufacturerID bytes
     if (sysex.manufacturerID & 0x00FFFF)
-- 
2.43.0


From dc512182412fce0b2c25a71738d6170b84caeed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:08 +0000
Subject: [PATCH 02/15] fix: sysex collectors enforce the data size limit on
 the data, not on capacity

The limit was compared against the vector's capacity and counted manufacturer
id bytes: a message whose data fits a small limit could be dropped, a limit set
after a larger message was not enforced, and when the overflow happened on the
last packet the collected bytes stayed behind and were prepended to the next
message. Check each data byte against the limit and reset on overflow.
---
 src/sysex_collector.cpp | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index c641553..48e98e4 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -71,20 +71,12 @@ void sysex7_collector::feed(const universal_packet& p)
     const auto numBytes = m.payload_size();
     if (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
-        if (limited_sysex_data_size)
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex7.data.capacity());
+        if (m_max_sysex_data_size > 0)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex7.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex7.data.size() + numBytes > m_sysex7.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = data_status::sysex7_start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -112,6 +104,13 @@ void sysex7_collector::feed(const universal_packet& p)
             m_manufacturerIDBytesRead = 3;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex7.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
+
             // collect data
             m_sysex7.data.push_back(byte);
             break;
@@ -190,20 +189,12 @@ void sysex8_collector::feed(const universal_packet& p)
     const auto numBytes = m.payload_size();
     if (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity())
     {
-        const bool limited_sysex_data_size = (m_max_sysex_data_size > 0);
-        size_t     new_capacity            = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
-        if (limited_sysex_data_size)
+        size_t new_capacity = std::max(size_t{ 128 }, 2 * m_sysex8.data.capacity());
+        if (m_max_sysex_data_size > 0)
         {
             new_capacity = std::min(new_capacity, m_max_sysex_data_size);
         }
         m_sysex8.data.reserve(new_capacity);
-
-        if (limited_sysex_data_size && (m_sysex8.data.size() + numBytes > m_sysex8.data.capacity()))
-        {
-            // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
-            m_state = packet_format::start;
-            return;
-        }
     }
 
     for (unsigned b = 0; b < numBytes; ++b)
@@ -236,6 +227,13 @@ void sysex8_collector::feed(const universal_packet& p)
             m_manufacturer_id_state = done;
             break;
         default:
+            if ((m_max_sysex_data_size > 0) && (m_sysex8.data.size() >= m_max_sysex_data_size))
+            {
+                // panic, data size exceeds m_max_sysex_data_size, wait for start of new sysex message
+                reset();
+                return;
+            }
+
             // collect data
             m_sysex8.data.push_back(byte);
             break;
-- 
2.43.0


From 8427dc3657d9c23e907a74ceaa6410330cf91fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:36 +0000
Subject: [PATCH 03/15] fix: do not mask the 8 bit fourth byte of MIDI 2
 channel voice messages

Note attribute types and per-note controller indices use all 8 bits. Masking made
as_midi1_channel_voice_message() take a note with attribute type 0x80 for one without
attribute and silently drop the attribute.
---
 inc/midi/midi2_channel_voice_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/midi2_channel_voice_message.h b/inc/midi/midi2_channel_voice_message.h
index ffd4d74..d98ff4c 100644
--- a/inc/midi/midi2_channel_voice_message.h
+++ b/inc/midi/midi2_channel_voice_message.h
@@ -92,7 +92,7 @@ struct midi2_channel_voice_message_view
     constexpr status_t  status() const { return p.status() & 0xF0; }
     constexpr channel_t channel() const { return p.status() & 0x0F; }
     constexpr uint7_t   byte3() const { return p.byte3() & 0x7F; }
-    constexpr uint7_t   byte4() const { return p.byte4() & 0x7F; }
+    constexpr uint8_t   byte4() const { return p.byte4(); }
     constexpr uint32_t  data() const { return p.data[1]; }
 
   private:
-- 
2.43.0


From 01772b6c35229c3215541baf2bd48ee0ffae6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:43 +0000
Subject: [PATCH 04/15] fix: operator<< of universal_packet left the fill
 character changed

The zero fill leaked into the stream and words were padded on the wrong side when the
stream was left-adjusted, so that the text did not read back as the same packet.
---
 src/universal_packet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 5089e1d..3522289 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -56,13 +56,15 @@ namespace {
 std::ostream& operator<<(std::ostream& out, const universal_packet& p)
 {
     iobase_restore_flags flag_restorer(out);
+    const auto           fill = out.fill('0');
 
     for (auto w = 0u; w < p.size(); ++w)
     {
         if (w)
             out << ' ';
-        out << std::hex << std::setfill('0') << std::setw(8) << p.data[w];
+        out << std::hex << std::right << std::setw(8) << p.data[w];
     }
+    out.fill(fill);
     return out;
 }
 
-- 
2.43.0


From 3cddbcfbdb4ed5247670948c2b0312b8435a92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:49 +0000
Subject: [PATCH 05/15] fix: operator>> of universal_packet accepted truncated
 text

Reaching the end of the input after the first word of a longer packet ended the loop
without setting failbit, leaving the remaining words as they were.
---
 src/universal_packet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/universal_packet.cpp b/src/universal_packet.cpp
index 3522289..5b8832a 100644
--- a/src/universal_packet.cpp
+++ b/src/universal_packet.cpp
@@ -74,13 +74,13 @@ std::istream& operator>>(std::istream& in, universal_packet& p)
 {
     iobase_restore_flags flag_restorer(in);
     in >> std::hex >> p.data[0];
-    if (in.good())
+    if (!in.fail())
     {
         const auto num_words = p.size();
         for (auto w = 1u; w < num_words; ++w)
         {
             in >> std::hex >> p.data[w];
-            if (!in.good())
+            if (in.fail())
                 break;
         }
     }
-- 
2.43.0


From 55ce87c0bfc1ebf27615876915e4a79cdb59aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:00 +0000
Subject: [PATCH 06/15] fix: function block info messages can span all 16
 groups

The number of groups spanned is 1..16, but make_function_block_info_message
masked it with 0xF, so that a block spanning 16 groups was announced as
spanning none.
---
 inc/midi/stream_message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index 7547027..d7df00d 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -619,7 +619,7 @@ constexpr stream_message make_function_block_info_message(uint7_t function_block
     m.set_byte(2, 0x80u | (function_block & 0x1F));
     m.set_byte(3, ((direction & 0x03u) << 4) | (direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     return m;
 }
 
@@ -640,7 +640,7 @@ constexpr stream_message make_function_block_info_message(uint7_t
                (((options.ui_hint ? options.ui_hint : options.direction) & 0x03u) << 4) |
                  ((options.midi1 & 0x03u) << 2) | (options.direction & 0x03u));
     m.set_byte(4, first_group & 0xF);
-    m.set_byte(5, num_groups_spanned & 0xF);
+    m.set_byte(5, num_groups_spanned & 0x1F);
     m.set_byte(6, options.ci_message_version);
     m.set_byte(7, options.max_num_sysex8_streams);
     return m;
-- 
2.43.0


From 6fd9608e925f61f288b64fdca330390ae3107799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:56 +0000
Subject: [PATCH 07/15] fix: keep the eighth bit of names in stream messages

Endpoint and function block names are UTF-8. payload_as_string masked every
byte with 0x7F, so any name with non-ASCII characters came back corrupted.
---
 inc/midi/stream_message.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/stream_message.h b/inc/midi/stream_message.h
index d7df00d..a181c86 100644
--- a/inc/midi/stream_message.h
+++ b/inc/midi/stream_message.h
@@ -63,7 +63,7 @@ struct stream_message : universal_packet
         result.reserve(16 - offset);
         for (uint8_t b = offset; b < 16; ++b)
         {
-            if (auto c = char(p.get_byte_7bit(b)))
+            if (auto c = char(p.get_byte(b)))
             {
                 result.push_back(c);
             }
-- 
2.43.0


From f1dd4a566902c2effd2737ae18de06074db5e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:01 +0000
Subject: [PATCH 08/15] fix: discovery views read the message version of too
 short messages

discovery_inquiry_view::validate and discovery_reply_view::validate looked at
data[3] to compute the required size before knowing that the message has that
many bytes; an empty or very short universal SysEx made them read outside of
the data (a null pointer for an empty message).
---
 inc/midi/capability_inquiry.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 87a00e6..5005f3d 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1072,6 +1072,7 @@ inline uint7_t discovery::message_view::output_path_id() const
 inline bool discovery_inquiry_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 1u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_inquiry);
 }
@@ -1107,6 +1108,7 @@ inline uint7_t discovery_reply_view::function_block() const
 inline bool discovery_reply_view::validate(const sysex7& sx)
 {
     return (sx.manufacturerID == manufacturer::universal_non_realtime) &&
+           (sx.data.size() >= field_offsets::output_path_id) &&
            (sx.data.size() >= field_offsets::output_path_id + ((sx.data[3] > 1) ? 2u : 0u)) && (sx.data[1] == 0x0D) &&
            (sx.data[2] == subtype::discovery_reply);
 }
-- 
2.43.0


From 463057fd7cb5f81c318cc399638c17aec2c27c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:10 +0000
Subject: [PATCH 09/15] fix: profile specific data of more than 65535 bytes was
 truncated

The vector overload of make_profile_specific_data_message converted the size
to a 16 bit integer although the message has a 28 bit size field.
---
 inc/midi/capability_inquiry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/capability_inquiry.h b/inc/midi/capability_inquiry.h
index 5005f3d..70d3163 100644
--- a/inc/midi/capability_inquiry.h
+++ b/inc/midi/capability_inquiry.h
@@ -1729,7 +1729,7 @@ inline message make_profile_specific_data_message(
   muid_t source_muid, muid_t destination_muid, const profile_id& p, const std::vector<uint7_t>& data, uint7_t device_id)
 {
     return make_profile_specific_data_message(
-      source_muid, destination_muid, p, data.data(), static_cast<uint14_t>(data.size()), device_id);
+      source_muid, destination_muid, p, data.data(), data.size(), device_id);
 }
 
 //-----------------------------------------------
-- 
2.43.0


From 6f7dfbc7c7b2f5b677f3284879eb7648b6441266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:17 +0000
Subject: [PATCH 10/15] fix: empty, "-" and zero padded header options gave
 invalid JSON

is_number read s[0] of an empty string view and took "", "-" and numbers with
leading zeros for JSON numbers, so make_rjson emitted them without quotes.
---
 src/capability_inquiry.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/capability_inquiry.cpp b/src/capability_inquiry.cpp
index d99f6ee..1b557cd 100644
--- a/src/capability_inquiry.cpp
+++ b/src/capability_inquiry.cpp
@@ -289,8 +289,10 @@ message property_exchange::make_property_data_message(subtype_t     subtype,
 namespace {
     bool is_number(std::string_view s)
     {
-        if (s[0] == '-')
+        if (!s.empty() && (s[0] == '-'))
             s.remove_prefix(1);
+        if (s.empty() || ((s[0] == '0') && (s.size() > 1)))
+            return false; // no digits or leading zero: not a JSON number
         while (!s.empty())
         {
             if ((s[0] < '0') || (s[0] > '9'))
-- 
2.43.0


From 623dec2748b2141a927fd12655af0b39d1423d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:01 +0000
Subject: [PATCH 11/15] fix: JR clock follower could schedule messages out of
 order

After an early clock had moved the reference time back, the next clock that was
not early set the message time to its own receive time even when a message had
already been scheduled later than that, so a later message could be scheduled
before an earlier one.
---
 src/jitter_reduction_timestamps.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/jitter_reduction_timestamps.cpp b/src/jitter_reduction_timestamps.cpp
index 79d96c9..f18ac10 100644
--- a/src/jitter_reduction_timestamps.cpp
+++ b/src/jitter_reduction_timestamps.cpp
@@ -86,15 +86,14 @@ void jr_clock_follower::process_clock(time_point received, jr_timestamp_t jr_tim
     {
         // use received as new reference time
         m_clock_time = received;
-
-        if (received > m_message_time) // ensure that message order is preserved
-        {
-            m_message_time = received;
-        }
     }
     else
     {
-        m_clock_time   = expected_receive_time;
+        m_clock_time = expected_receive_time;
+    }
+
+    if (received > m_message_time) // ensure that message order is preserved
+    {
         m_message_time = received;
     }
 
-- 
2.43.0


From d78336ae11bac988315262b55633ea03ca75d3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:06 +0000
Subject: [PATCH 12/15] fix: parser reset from a packet callback inside a SysEx
 had no effect

---
 src/midi1_byte_stream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/midi1_byte_stream.cpp b/src/midi1_byte_stream.cpp
index 5c4bf9d..5d20ed0 100644
--- a/src/midi1_byte_stream.cpp
+++ b/src/midi1_byte_stream.cpp
@@ -314,14 +314,17 @@ void midi1_byte_stream_parser::sysex_continue_packet(uint8_t byte)
     m_packet.set_byte(m_packet_byte, byte);
     if (++m_packet_byte == 8)
     {
-        if (m_invoke_callbacks)
-        {
-            m_packet.set_byte(1, (m_packet.status() & 0xF0) + 6);
-            m_packet_callback(m_packet);
-        }
+        auto full_packet = m_packet;
+        full_packet.set_byte(1, (full_packet.status() & 0xF0) + 6);
 
+        // prepare the next packet first, the callback might reset the parser
         m_packet      = make_sysex7_continue_packet(m_group);
         m_packet_byte = 2;
+
+        if (m_invoke_callbacks)
+        {
+            m_packet_callback(full_packet);
+        }
     }
 }
 
-- 
2.43.0


From ff95289c0f80aed4057480a6c4ed542d20cc5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:08 +0000
Subject: [PATCH 13/15] fix: control_change::poly_mode_off is 126 (Mono Mode On
 / Poly Mode Off), not 127

---
 inc/midi/universal_packet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/midi/universal_packet.h b/inc/midi/universal_packet.h
index e9fc308..1d7d191 100644
--- a/inc/midi/universal_packet.h
+++ b/inc/midi/universal_packet.h
@@ -258,7 +258,7 @@ namespace control_change {
     constexpr controller_t omni_mode_off         = 124;
     constexpr controller_t omni_mode_on          = 125;
     constexpr controller_t mono_mode_on          = 126;
-    constexpr controller_t poly_mode_off         = 127;
+    constexpr controller_t poly_mode_off         = 126;
     constexpr controller_t mono_mode_off         = 127;
     constexpr controller_t poly_mode_on          = 127;
 } // namespace control_change
-- 
2.43.0


From 192637cd76ee69b49ba97f09d06eb68b0a94c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:19 +0000
Subject: [PATCH 14/15] fix: never deliver a SysEx exceeding a limit that was
 lowered while it was collected

A SysEx7/SysEx8 message in progress with more data than a limit set in the
meantime was still delivered if its end packet carried no further data.
---
 src/sysex_collector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sysex_collector.cpp b/src/sysex_collector.cpp
index 48e98e4..d0916fe 100644
--- a/src/sysex_collector.cpp
+++ b/src/sysex_collector.cpp
@@ -121,7 +121,8 @@ void sysex7_collector::feed(const universal_packet& p)
     {
     case data_status::sysex7_complete:
     case data_status::sysex7_end:
-        if (m_cb)
+        // the limit might have been lowered while the message was collected
+        if (m_cb && ((m_max_sysex_data_size == 0) || (m_sysex7.data.size() <= m_max_sysex_data_size)))
         {
             m_cb(m_sysex7);
         }
@@ -244,7 +245,8 @@ void sysex8_collector::feed(const universal_packet& p)
     {
     case packet_format::complete:
     case packet_format::end:
-        if (m_cb)
+        // the limit might have been lowered while the message was collected
+        if (m_cb && ((m_max_sysex_data_size == 0) || (m_sysex8.data.size() <= m_max_sysex_data_size)))
         {
             m_cb(m_sysex8, m_stream_id);
         }
-- 
2.43.0


From 1b424c8f535887bd43fb105ef55e0ce8c1b5a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:33 +0000
Subject: [PATCH 15/15] fix: undefined negation in pitch_increment(double) for
 values rounding to -64

---
 inc/midi/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/midi/types.h b/inc/midi/types.h
index b5f9457..36793f2 100644
--- a/inc/midi/types.h
+++ b/inc/midi/types.h
@@ -645,7 +645,8 @@ constexpr pitch_increment::pitch_increment(double d)
     }
     else
     {
-        value = -static_cast<int32_t>(pitch_7_25(-d).value);
+        // might round to the minimum, which has no positive counterpart
+        value = static_cast<int32_t>(-static_cast<int64_t>(pitch_7_25(-d).value));
     }
 }
 
-- 
2.43.0

