From fe5abe93c17faff6e8a2ce0e192cd8d681a05eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 01/54] fix: EbNo/BER and SNR default to the 0x7FFF code

---
 include/vrtgen/packing/cif1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..0fc5552 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -233,8 +233,8 @@ public:
      */
     EbNoBER()
     {
-        ebno(0x7FFF);
-        ber(0x7FFF);
+        ebno(vrtgen::fixed::to_fp<16,7>(0x7FFF));
+        ber(vrtgen::fixed::to_fp<16,7>(0x7FFF));
     }
 
     /**
@@ -429,7 +429,7 @@ public:
      */
     SNRNoise()
     {
-        snr(0x7FFF);
+        snr(vrtgen::fixed::to_fp<16,7>(0x7FFF));
     }
 
     /**
-- 
2.43.0


From 82d67ae6a1806f515f169b78f0e0b78c3b75608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:40 +0000
Subject: [PATCH 02/54] fix: pointing vector azimuth of 256 degrees and above
 under optimisation

---
 include/vrtgen/packing/cif1.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 0fc5552..6f481cb 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -151,7 +151,8 @@ public:
      */
     void azimuthal_angle(double value) noexcept
     {
-        subfield_15(value);
+        // Unsigned subfield: 256 degrees and above do not fit a 16-bit signed integer
+        m_packed.set<15,16>(static_cast<uint16_t>(vrtgen::fixed::to_int<32,7>(value)));
     }
 
 }; // end class PointingVector
-- 
2.43.0


From 9a2db55425ba8c66b22aca9ac9719691977c1743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 03/54] fix: pad GPS ASCII sentences to a whole number of words

---
 include/vrtgen/packing/cif0.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..2215831 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1090,7 +1090,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
+        m_ascii_sentences.resize((m_ascii_sentences.size() + 3) / 4 * 4);
         number_of_words(m_ascii_sentences.size()/4);
     }
 
-- 
2.43.0


From 86ff578049f88a924eec59c6b681efbc76f89222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 04/54] fix: context association list entries are big-endian
 words

---
 include/vrtgen/packing/cif0.hpp | 45 ++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 2215831..03fcd34 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1466,24 +1466,29 @@ public:
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const auto elem : m_source_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto word = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &word, sizeof(word));
+            buffer_ptr += sizeof(word);
         }
         for (const auto elem : m_system_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto word = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &word, sizeof(word));
+            buffer_ptr += sizeof(word);
         }
         for (const auto elem : m_vector_component_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto word = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &word, sizeof(word));
+            buffer_ptr += sizeof(word);
         }
         for (const auto elem : m_async_channel_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto word = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &word, sizeof(word));
+            buffer_ptr += sizeof(word);
         }
         for (const auto elem : m_async_channel_tag_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto word = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &word, sizeof(word));
+            buffer_ptr += sizeof(word);
         }
     }
 
@@ -1498,27 +1503,37 @@ public:
         ptr += m_packed.size();
         m_source_list.resize(source_list_size());
         for (std::size_t i=0; i<m_source_list.size(); ++i) {
-            std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
+            uint32_t word{};
+            std::memcpy(&word, ptr, sizeof(word));
+            m_source_list[i] = vrtgen::swap::from_be(word);
             ptr += sizeof(uint32_t);
         }
         m_system_list.resize(system_list_size());
         for (std::size_t i=0; i<m_system_list.size(); ++i) {
-            std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
+            uint32_t word{};
+            std::memcpy(&word, ptr, sizeof(word));
+            m_system_list[i] = vrtgen::swap::from_be(word);
             ptr += sizeof(uint32_t);
         }
         m_vector_component_list.resize(vector_component_list_size());
         for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
-            std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
+            uint32_t word{};
+            std::memcpy(&word, ptr, sizeof(word));
+            m_vector_component_list[i] = vrtgen::swap::from_be(word);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
-            std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
+            uint32_t word{};
+            std::memcpy(&word, ptr, sizeof(word));
+            m_async_channel_list[i] = vrtgen::swap::from_be(word);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_tag_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
-            std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
+            uint32_t word{};
+            std::memcpy(&word, ptr, sizeof(word));
+            m_async_channel_tag_list[i] = vrtgen::swap::from_be(word);
             ptr += sizeof(uint32_t);
         }
     }
-- 
2.43.0


From b15fc983a4b4655ffcfae1f7c49058835184b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 05/54] fix: context association tag list present only when its
 indicator says so

---
 include/vrtgen/packing/cif0.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 03fcd34..47625c7 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1463,6 +1463,7 @@ public:
         system_list_size(m_system_list.size());
         vector_component_list_size(m_vector_component_list.size());
         async_channel_list_size(m_async_channel_list.size());
+        async_channel_tag_list_enable(!m_async_channel_tag_list.empty());
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const auto elem : m_source_list) {
@@ -1529,7 +1530,7 @@ public:
             m_async_channel_list[i] = vrtgen::swap::from_be(word);
             ptr += sizeof(uint32_t);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
+        m_async_channel_tag_list.resize(async_channel_tag_list_enable() ? async_channel_list_size() : 0);
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             uint32_t word{};
             std::memcpy(&word, ptr, sizeof(word));
-- 
2.43.0


From c7611af648e17c9705f3f3962d4daec6866b7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 06/54] fix: index list entries are big-endian

---
 include/vrtgen/packing/cif1.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 6f481cb..4d6a5b2 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1144,8 +1144,9 @@ public:
         buffer_ptr += m_packed.size();
         for (const auto elem : m_entries) {
             static_assert(std::is_trivially_copyable_v<decltype(elem)>);
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
-            buffer_ptr += sizeof(elem);
+            const auto be = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &be, sizeof(be));
+            buffer_ptr += sizeof(be);
         }
     }
 
@@ -1158,7 +1159,9 @@ public:
         ptr += m_packed.size();
         m_entries.resize(num_entries());
         for (size_t i=0; i<m_entries.size(); ++i) {
-            std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
+            T be{};
+            std::memcpy(&be, ptr, sizeof(be));
+            m_entries[i] = vrtgen::swap::from_be(be);
             ptr += sizeof(m_entries[i]);
         }
     }
-- 
2.43.0


From 5e066327c59188706ff89258736c281caea070a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 07/54] fix: index list entries occupy whole words

---
 include/vrtgen/packing/cif1.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 4d6a5b2..42e1061 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1131,7 +1131,7 @@ public:
         retval += sizeof(m_total_size);
         retval += m_packed.size();
         if (!m_entries.empty()) {
-            retval += m_entries.size() * sizeof(T);
+            retval += padded_entries_size();
         }
         return retval;
     }
@@ -1148,6 +1148,8 @@ public:
             std::memcpy(buffer_ptr, &be, sizeof(be));
             buffer_ptr += sizeof(be);
         }
+        // 8- and 16-bit entries fill the last 32-bit word with zeros
+        std::memset(buffer_ptr, 0, padded_entries_size() - m_entries.size() * sizeof(T));
     }
 
     void unpack_from(const uint8_t* buffer_ptr)
@@ -1167,6 +1169,11 @@ public:
     }
 
 private:
+    std::size_t padded_entries_size() const noexcept
+    {
+        return (m_entries.size() * sizeof(T) + 3) / 4 * 4;
+    }
+
     uint32_t m_total_size{ 0 };
     vrtgen::packed<uint32_t> m_packed;
     std::vector<T> m_entries;
-- 
2.43.0


From 9c84940544ffbd4eb0f407c58df047b2fe8741bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 08/54] fix: default constructed spectrum field holds
 indeterminate words

---
 include/vrtgen/packing/cif1.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 42e1061..2c9ed2c 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -805,15 +805,15 @@ public:
 private:
     vrtgen::packed<uint32_t> m_spectrum_type;
     vrtgen::packed<uint32_t> m_window_type;
-    uint32_t m_num_transform_points;
-    uint32_t m_num_window_points;
-    uint64_t m_resolution;
-    uint64_t m_span;
-    uint32_t m_num_averages;
-    uint32_t m_weighting_factor;
-    int32_t m_f1_index;
-    int32_t m_f2_index;
-    uint32_t m_window_time_delta;
+    uint32_t m_num_transform_points{ 0 };
+    uint32_t m_num_window_points{ 0 };
+    uint64_t m_resolution{ 0 };
+    uint64_t m_span{ 0 };
+    uint32_t m_num_averages{ 0 };
+    uint32_t m_weighting_factor{ 0 };
+    int32_t m_f1_index{ 0 };
+    int32_t m_f2_index{ 0 };
+    uint32_t m_window_time_delta{ 0 };
 
 }; // class Spectrum
 
-- 
2.43.0


From 4d740175d5be8ab9381911d6073f10ef5e4fe601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:46 +0000
Subject: [PATCH 09/54] fix: every constituent of a user-defined stream ID
 keeps its own name and size

---
 src/vrtgen/parser/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..a4eb07b 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -116,7 +116,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
             val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
             val.is_extension_type =  True
             val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
+            fields.append((val.name, type(val), field(default_factory=lambda val=val: val)))
         fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
         packed_stream_id_type = make_dataclass(
             cls_name='StreamIdentifier',
-- 
2.43.0


From cafb24bbe2b0f2d83a17eaf176fd71d78fca9c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 10/54] fix: variable length fields keep the packet consistent
 when their length changes

---
 .../cpp/templates/ack_packet.hpp.jinja2       |  1 +
 .../templates/macros/function_defs/cif.jinja2 | 71 +++++++++++++++++--
 .../macros/function_defs/constructors.jinja2  | 27 +++++++
 .../cpp/templates/macros/packet/decls.jinja2  |  1 +
 src/vrtgen/backend/cpp/type_helpers.py        | 10 ++-
 5 files changed, 102 insertions(+), 8 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..01547b0 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -136,6 +136,7 @@ auto reset_{{ func_name }}() -> void;
 {{ members.command(packet, type_helper) | trim }}
 std::vector<uint8_t> m_data;
 std::map<std::string, std::size_t> m_positions;
+std::map<std::string, std::size_t> m_lengths; // of the variable length fields, as stored in m_data
 {% endmacro %}
 
 {%- macro ackvx_members(packet, type_helper) %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..136da94 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -19,6 +19,30 @@
 
 {%- import "macros/function_defs/common.jinja2" as common %}
 
+{#- Makes the bytes stored for a variable length field as long as its present value -#}
+{%- macro resize_stored(field) %}
+if (const auto length{ m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size() }; length != m_lengths["{{ field.name }}"]) {
+    const auto start{ m_data.begin() + m_positions.at("{{ field.name }}") };
+    const auto stored{ m_lengths.at("{{ field.name }}") };
+    if (length > stored) {
+        m_data.insert(start + stored, length - stored, 0);
+    } else {
+        m_data.erase(start + length, start + stored);
+    }
+    m_lengths.at("{{ field.name }}") = length;
+    update_positions();
+    update_packet_size();
+}
+{% endmacro %}
+
+{%- macro stored_size(field, type_helper) %}
+{% if type_helper.is_variable_length(field) %}
+m_lengths.at("{{ field.name }}")
+{%- else %}
+m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size()
+{%- endif %}
+{% endmacro %}
+
 {%- macro function_defs(packet_name, cif, type_helper, cif7=none) %}
 {% for field in cif.fields if field.enabled %}
 {% if type_helper.is_scalar(field) %}
@@ -112,6 +136,9 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {%       endif %}
 {%     else %}
         m_data.insert(m_data.begin() + pos, m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size(), 0);
+{%       if type_helper.is_variable_length(field) %}
+        m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{%       endif %}
 {%     endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(true);
         update_positions();
@@ -125,6 +152,9 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
     std::memcpy(m_data.data() + pos, &swapped, sizeof(swapped));
 {%     endif %}
 {%   else %}
+{%     if type_helper.is_variable_length(field) %}
+    {{ resize_stored(field) | indent(4) | trim }}
+{%     endif %}
     m_{{ field.name }}{{ '->' if field.is_optional else '.' }}pack_into(m_data.data() + pos);
 {%   endif %}
 {% else %}
@@ -152,7 +182,7 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%     endif %}
 {%   else %}
 {%     if field.is_optional %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ stored_size(field, type_helper) | trim }});
         m_{{ field.name }}.reset();
 {%     else %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
@@ -259,14 +289,23 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 if (m_{{ field.name }}.has_value()) {
     if (!m_{{ packet.cif0.name }}.{{ field.name }}()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{% if type_helper.is_variable_length(field) %}
+        m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{% endif %}
         m_{{ packet.cif0.name }}.{{ field.name }}(true);
         m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
         update_positions();
         update_packet_size();
     }
+{% if type_helper.is_variable_length(field) %}
+    {{ resize_stored(field) | indent(4) | trim }}
+{% endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 }
 {%     else %}
+{% if type_helper.is_variable_length(field) %}
+{{ resize_stored(field) | trim }}
+{% endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -298,14 +337,23 @@ if (m_{{ field.name }}.has_value()) {
 {%       endif %}
     if (!m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{% if type_helper.is_variable_length(field) %}
+        m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{% endif %}
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
         update_positions();
         update_packet_size();
     }
+{% if type_helper.is_variable_length(field) %}
+    {{ resize_stored(field) | indent(4) | trim }}
+{% endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
     }
 {%     else %}
+{% if type_helper.is_variable_length(field) %}
+{{ resize_stored(field) | trim }}
+{% endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -333,14 +381,23 @@ if (m_{{ field.name }}.has_value()) {
 {%       endif %}
     if (!m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}()) {
         m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{% if type_helper.is_variable_length(field) %}
+        m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{% endif %}
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
         update_positions();
         update_packet_size();
     }
+{% if type_helper.is_variable_length(field) %}
+    {{ resize_stored(field) | indent(4) | trim }}
+{% endif %}
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
     }
 {%     else %}
+{% if type_helper.is_variable_length(field) %}
+{{ resize_stored(field) | trim }}
+{% endif %}
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -398,7 +455,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         endif %}
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    curr_pos += m_{{ field.name }}->size();
+    curr_pos += {{ stored_size(field, type_helper) | trim }};
 {%       endif %}
 }
 {%     else %}
@@ -408,7 +465,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-curr_pos += m_{{ field.name }}.size();
+curr_pos += {{ stored_size(field, type_helper) | trim }};
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -427,7 +484,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += {{ stored_size(field, type_helper) | trim }};
 {%       endif %}
 {{ '    ' if packet.cif1.is_optional }}}
 {%     else %}
@@ -437,7 +494,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-{{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
+{{ '    ' if packet.cif1.is_optional }}curr_pos += {{ stored_size(field, type_helper) | trim }};
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -459,7 +516,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += {{ stored_size(field, type_helper) | trim }};
 {%       endif %}
 {{ '    ' if packet.cif2.is_optional }}}
 {%     else %}
@@ -469,7 +526,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
 {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-{{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.size();
+{{ '    ' if packet.cif2.is_optional }}curr_pos += {{ stored_size(field, type_helper) | trim }};
 {%       endif %}
 {%     endif %}
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..3b0efc7 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -143,6 +143,9 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
+{% if type_helper.is_variable_length(field) %}
+m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
+{% endif %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -184,6 +187,9 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+{% if type_helper.is_variable_length(field) %}
+m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
+{% endif %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -216,6 +222,9 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+{% if type_helper.is_variable_length(field) %}
+m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
+{% endif %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -369,6 +378,9 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% if type_helper.is_variable_length(field) %}
+    m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{% endif %}
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
@@ -391,6 +403,9 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% if type_helper.is_variable_length(field) %}
+m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
+{% endif %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
@@ -418,6 +433,9 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% if type_helper.is_variable_length(field) %}
+    m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{% endif %}
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
@@ -429,6 +447,9 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% if type_helper.is_variable_length(field) %}
+m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
+{% endif %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -451,6 +472,9 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% if type_helper.is_variable_length(field) %}
+    m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
+{% endif %}
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
@@ -462,6 +486,9 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% if type_helper.is_variable_length(field) %}
+m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
+{% endif %}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2 b/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
index b4d0984..3ede0f7 100644
--- a/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
@@ -112,4 +112,5 @@ std::string m_name{ "{{ packet.name }}" };
 {% endif %}
 std::vector<uint8_t> m_data;
 std::map<std::string, std::size_t> m_positions;
+std::map<std::string, std::size_t> m_lengths; // of the variable length fields, as stored in m_data
 {% endmacro %}
\ No newline at end of file
diff --git a/src/vrtgen/backend/cpp/type_helpers.py b/src/vrtgen/backend/cpp/type_helpers.py
index a292dda..fc5ecaa 100644
--- a/src/vrtgen/backend/cpp/type_helpers.py
+++ b/src/vrtgen/backend/cpp/type_helpers.py
@@ -20,7 +20,7 @@ import inspect
 from vrtgen.parser.model.types import *
 from vrtgen.parser.model.command import ControlIdentifier, WarningErrorFields
 from vrtgen.parser.model.data import Trailer
-from vrtgen.parser.model.cif0 import ReferenceLevel
+from vrtgen.parser.model.cif0 import ContextAssociationLists, GPS_ASCII, ReferenceLevel
 from vrtgen.parser.model.cif1 import DiscreteIO, BufferSize
 from vrtgen.parser.model.cif7 import CIF7, CIF7Attributes
 from vrtgen.parser.model.aor import ArrayOfRecords
@@ -211,6 +211,14 @@ class TypeHelper:
             return '0'
         return None
 
+    def is_variable_length(self, field):
+        """
+        Returns whether the packed size of a field depends on its contents.
+        """
+        if isinstance(field, CIFEnableType):
+            return self.is_variable_length(field.type_)
+        return isinstance(field, (GPS_ASCII, ContextAssociationLists, TemplateArrayStruct))
+
     def is_scalar(self, field):
         if isinstance(field, BooleanType):
             return True
-- 
2.43.0


From 8968ae21fbb005f459dc6dce7e64fc4167a51e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:21 +0000
Subject: [PATCH 11/54] fix: pad bytes of a payload are zero whatever the
 packet held before

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..1f57579 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From 37162514e8f0e489ed19d713e3c070fb9f811bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:30 +0000
Subject: [PATCH 12/54] fix: reset drops a structured field that was assigned
 through its reference

---
 .../cpp/templates/macros/function_defs/cif.jinja2      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 136da94..c37b5a1 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -183,7 +183,6 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   else %}
 {%     if field.is_optional %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ stored_size(field, type_helper) | trim }});
-        m_{{ field.name }}.reset();
 {%     else %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
 {%     endif %}
@@ -191,6 +190,9 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         update_positions();
         update_packet_size();
     }
+{%   if not type_helper.is_scalar(field) %}
+    m_{{ field.name }}.reset();
+{%   endif %}
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
@@ -260,12 +262,10 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {
 {% if cif.is_optional%}
-    if (m_{{ cif.name }}.has_value()) {
 {%   for field in cif.fields if field.is_optional %}
-        if (m_{{ cif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}();
-        }
+    reset_{{ field.name }}();
 {%   endfor %}
+    if (m_{{ cif.name }}.has_value()) {
 {%   if cif.name == 'cif_1' %}
         m_{{ packet.cif0.name }}.cif1_enable(false);
 {%   elif cif.name == 'cif_2' %}
-- 
2.43.0


From af3c1275e8ba374ff290cf2e1360f4bed7a7c70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 13/54] fix: packed subfields that fill the whole integer

---
 include/vrtgen/types/packed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8ce0524..5f97964 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -43,7 +43,7 @@ template <typename T, std::size_t pos, std::size_t bits>
 struct field_traits
 {
     static constexpr T shift{ pos - bits + 1 };
-    static constexpr T mask{ ((static_cast<T>(1) << bits) - 1) << shift };
+    static constexpr T mask{ (static_cast<T>(-1) >> (sizeof(T) * 8 - bits)) << shift };
 }; // end struct field_traits
 
 } // end namespace detail
-- 
2.43.0


From 0f4984286497e5dc700f5e4917f25fbd8c83281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 14/54] fix: two-valued user-defined trailer enumerations
 compile

---
 .../backend/cpp/templates/macros/types/user_class.jinja2      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..4d3d18a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -77,7 +77,7 @@ private:
 auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type }}>
 {
     if ({{ field.name }}_enable()) {
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
         return {{ value_type }}{ m_packed.get<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>() };
 {%   else %}
         return m_packed.get<{{ field.packed_tag.position }}>();
@@ -89,7 +89,7 @@ auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type
 auto {{ class.type_ }}::{{ field.name }}(const {{ value_type }} value) -> void
 {
     {{ field.name }}_enable(true);
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
     m_packed.set<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>(static_cast<int>(value));
 {%   else %}
     m_packed.set<{{ field.packed_tag.position }}>(value);
-- 
2.43.0


From 210b67433b1bcc408eac01954e4a10f718dbb5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:02 +0000
Subject: [PATCH 15/54] fix: warnings and errors for frequency offset,
 ephemeris reference and operator fields

---
 src/vrtgen/parser/model/command.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..86ec096 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
-- 
2.43.0


From 91201e14a9c3390a0ab201abf03ff8ffec78acf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:02 +0000
Subject: [PATCH 16/54] fix: generate state acknowledgements of control packets
 with required fields

---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
-- 
2.43.0


From 59579e7d8c7952c197826de61634c4011d20f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 17/54] fix: acknowledgements match whatever the timestamp type
 and pad bits the definition leaves open

---
 .../cpp/templates/macros/function_defs/match.jinja2       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..f48065b 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -132,6 +132,12 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
+{%   endif %}
+{%   if field.name == 'tsi' and field.value.value == 0b111 %}
+{%     continue %}
+{%   endif %}
+{%   if field.name == 'tsf' and field.value.value == 0b111 %}
+{%     continue %}
 {%   endif %}
     if (header.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
@@ -152,7 +158,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
-{%     for field in packet.class_id.fields if not field.is_packed_type %}
+{%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
         msg << "Failed to match class_id field {{ field.name }}."
-- 
2.43.0


From 36d8092943fb8ed9e5ecf4766c01fe42b506b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:32 +0000
Subject: [PATCH 18/54] fix: acknowledgements with warnings only or errors only
 compile

---
 .../cpp/templates/ack_packet.hpp.jinja2       |  6 +++---
 .../cpp/templates/macros/types/weif.jinja2    | 19 ++++---------------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 01547b0..73dbdbd 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -173,17 +173,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..0118346 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -47,21 +47,10 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
         const auto pos{ m_positions.at("{{ weif.name }}") };
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
         m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
-        if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
-        }
-{% else %}
-        if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
+{% set weif0 = packet.wif0 if is_warning else packet.eif0 %}
+{% if weif.name != weif0.name %}
+        if (m_{{ weif0.name }}.has_value()) {
+            m_{{ weif0.name }}->{{ 'wif' if is_warning else 'eif' }}{{ weif.name[-1] }}_enable(false);
         }
 {% endif %}
         update_positions();
-- 
2.43.0


From 03df709dc2f581a90b8cdd164516974becfbb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 19/54] fix: warnings and errors assigned through their
 reference land in their place

---
 src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..87e4e76 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -146,6 +146,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif0.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -175,6 +176,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif1.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -194,7 +196,7 @@ auto {{ packet_name }}::sync() -> void
     if (m_{{ field_name }}.has_value()) {
         if (!m_{{ packet.wif0.name }}.has_value()) {
             m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
+            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
             update_positions();
             update_packet_size();
         }
@@ -206,11 +208,12 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.wif2.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
         m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
+        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
         m_{{ packet.wif2.name }}->{{ field.name }}(true);
         m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
         m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
@@ -231,6 +234,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif0.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -260,6 +264,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif1.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
@@ -291,6 +296,7 @@ auto {{ packet_name }}::sync() -> void
         }
         if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
+            m_{{ packet.eif2.name }}->{{ field.name }}(true);
             update_positions();
             update_packet_size();
         }
-- 
2.43.0


From 5f2cbad5f53be86935ab5a6c2926902082cbcfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:32 +0000
Subject: [PATCH 20/54] fix: resetting warnings and errors updates the
 indicator words and the CAM

---
 .../cpp/templates/macros/types/weif.jinja2    | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 0118346..c60e849 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -38,12 +38,10 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
     reset_{{ packet.eif2.name }}();
 {%   endif %}
 {% endif %}
-    if (m_{{ weif.name }}.has_value()) {
 {% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+    reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
 {% endfor %}
+    if (m_{{ weif.name }}.has_value()) {
         const auto pos{ m_positions.at("{{ weif.name }}") };
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
         m_{{ weif.name }}.reset();
@@ -51,7 +49,11 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
 {% if weif.name != weif0.name %}
         if (m_{{ weif0.name }}.has_value()) {
             m_{{ weif0.name }}->{{ 'wif' if is_warning else 'eif' }}{{ weif.name[-1] }}_enable(false);
+            m_{{ weif0.name }}->pack_into(m_data.data() + m_positions.at("{{ weif0.name }}"));
         }
+{% else %}
+        m_{{ packet.cam.name }}.{{ 'ack_w' if is_warning else 'ack_er' }}(false);
+        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
         update_positions();
         update_packet_size();
@@ -103,12 +105,17 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
-    m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
+    if (m_{{ weif.name }}.has_value() && m_{{ weif.name }}->{{ field.name }}()) {
+        m_{{ weif.name }}->{{ field.name }}(false);
+        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
+        const auto pos{ m_positions.at("{{ func_name }}") };
+        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + {{ type_helper.member_type(field) }}{}.size());
+        m_{{ func_name }}.reset();
+        update_positions();
+        update_packet_size();
+    } else {
+        m_{{ func_name }}.reset();
+    }
 }
 
 {% endfor %}
-- 
2.43.0


From 5938cb522db8cad16c3d4c7205d562fead057c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 21/54] fix: received acknowledgements accept further warnings
 and errors

---
 .../macros/function_defs/constructors.jinja2  | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 3b0efc7..be15d90 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -530,17 +530,7 @@ curr_pos += m_{{ field.name }}.size();
 }
 {% endmacro %}
 
-{%- macro ackvx_constructor(packet, packet_name, type_helper) %}
-{{ packet_name }}::{{ packet_name }}()
-{
-    m_name = "{{ packet_name }}";
-{% set last_field = packet.last_prologue_field %}
-    [[maybe_unused]]
-{% if type_helper.is_scalar(last_field) %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + sizeof({{ type_helper.member_type(last_field) }});
-{% else %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
-{% endif %}
+{%- macro ackvx_initial_positions(packet) %}
 {% if packet.warnings_enabled %}
     m_positions["{{ packet.wif0.name }}"] = curr_pos;
 {%   if packet.wif1.enabled %}
@@ -589,6 +579,20 @@ curr_pos += m_{{ field.name }}.size();
 {%     endfor %}
 {%   endif %}
 {% endif %}
+{%- endmacro %}
+
+{%- macro ackvx_constructor(packet, packet_name, type_helper) %}
+{{ packet_name }}::{{ packet_name }}()
+{
+    m_name = "{{ packet_name }}";
+{% set last_field = packet.last_prologue_field %}
+    [[maybe_unused]]
+{% if type_helper.is_scalar(last_field) %}
+    auto curr_pos = m_positions.at("{{ last_field.name }}") + sizeof({{ type_helper.member_type(last_field) }});
+{% else %}
+    auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
+{% endif %}
+    {{ ackvx_initial_positions(packet) | trim }}
 }
 {% endmacro %}
 
@@ -604,6 +608,7 @@ curr_pos += m_{{ field.name }}.size();
 {% else %}
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
+    {{ ackvx_initial_positions(packet) | trim }}
 {% if packet.warnings_enabled %}
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_positions["{{ packet.wif0.name }}"] = curr_pos;
@@ -724,6 +729,7 @@ curr_pos += m_{{ field.name }}.size();
     }
 {%   endif %}
 {% endif %}
+    update_positions();
 }
 {% endmacro %}
 
-- 
2.43.0


From e8e5ea4dd980e1b1169f4c0b20f93b6695d28157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:41 +0000
Subject: [PATCH 22/54] fix: a fresh state acknowledgement reports its size in
 the header

---
 .../cpp/templates/macros/function_defs/constructors.jinja2       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index be15d90..f4f8ffb 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -738,6 +738,7 @@ curr_pos += m_{{ field.name }}.size();
 {
     m_name = "{{ packet_name }}";
     m_data.resize(this->min_bytes());
+    update_packet_size();
     m_{{ packet.cam.name }}.{{ packet.cam.ack_s.name }}(true);
     m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 {% set last_field = packet.last_prologue_field %}
-- 
2.43.0


From 78a8567f87ca721e3156a17cba566b1633e34ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:46 +0000
Subject: [PATCH 23/54] fix: state acknowledgements declare the enumerations of
 their discrete I/O fields

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 3dd727d..ae0c31d 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -304,7 +304,7 @@ class CppPacket:
     @property
     def enums(self):
         retval = []
-        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_query):
+        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.requires_cif_functions):
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-- 
2.43.0


From e92d0da4740285f36003184c89b7be78cd732d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 24/54] fix: the CAM of an acknowledgement follows its warnings
 and errors when serialised

---
 src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 87e4e76..04c8a24 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -340,6 +340,13 @@ auto {{ packet_name }}::sync() -> void
         reset_{{ packet.eif0.name }}();
     }
 {% endif %}
+{% if packet.wif0.enabled and packet.warnings_enabled %}
+    m_{{ packet.cam.name }}.ack_w(m_{{ packet.wif0.name }}.has_value());
+{% endif %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
+    m_{{ packet.cam.name }}.ack_er(m_{{ packet.eif0.name }}.has_value());
+{% endif %}
+    m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 }
 {% endmacro %}
 
-- 
2.43.0


From b812c041e2b365539760b52c830fcddd6a6fba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:19 +0000
Subject: [PATCH 25/54] fix: acknowledgements of control packets without fields
 compile

---
 src/vrtgen/parser/model/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 86ec096..d3171b7 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -496,11 +496,11 @@ class AcknowledgePacket(CommandPacket):
 
     @property
     def warnings_enabled(self):
-        return self.cam.ack_w.value
+        return self.wif_0.enabled and self.cam.ack_w.value
 
     @property
     def errors_enabled(self):
-        return self.cam.ack_er.value
+        return self.eif_0.enabled and self.cam.ack_er.value
 
 @dataclass
 class ExtensionAcknowledgePacket(AcknowledgePacket):
-- 
2.43.0


From d0b2124f747b8c2c72e451189e37dde14a4fc6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 26/54] fix: writing a value wider than its bit field leaves
 the neighbouring fields alone

---
 include/vrtgen/types/packed.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 5f97964..1895759 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -87,7 +87,8 @@ public:
         using traits = detail::field_traits<T,Pos,Bits>;
         // Fetch the current value in host order, then mask off the field bits
         value_type old_value = vrtgen::swap::from_be(m_value) & ~traits::mask;
-        value_type field_value = static_cast<value_type>(value) << traits::shift;
+        // Only the bits of the field itself may be written, even if the value is wider
+        value_type field_value = (static_cast<value_type>(value) << traits::shift) & traits::mask;
         // Combine the new value with the existing bits, then store back in network order
         m_value = vrtgen::swap::to_be(static_cast<value_type>(old_value | field_value));
     }
-- 
2.43.0


From 2451fa397b2bc4d1536aae445ba05c77c879c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 27/54] fix: the rules of action mode none hold whatever the
 order of the entries

---
 src/vrtgen/parser/model/command.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index d3171b7..8bad2af 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -94,20 +94,20 @@ class ControlAcknowledgeMode(PackedStruct):
                     self.__dict__[key].value = parse_action_mode(val)
                     self.__dict__[key].enabled = True
                     self.__dict__[key].required = True
-                    # Check for valid combinations of action_mode and acknowledge requests
-                    if self.action_mode.value == enums.ActionMode.NO_ACTION:
-                        if not self.req_s.value:
-                            raise ValueError('When action_mode set to none, req_s must be true')
-                        elif self.req_x.value or self.req_v.value:
-                            raise ValueError('When action_mode set to none, req_x and req_v must be false')
-                        elif self.req_w.value or self.req_er.value:
-                            raise ValueError('When action_mode set to none, req_w and req_er must be false')
-                        
             # elif key == 'timing_control':
             #     self.__dict__[key].value = parse_timing_control(val)
             #     self.__dict__[key].enabled = True
             #     self.__dict__[key].required = True
 
+        # Check for valid combinations of action_mode and acknowledge requests
+        if self.action_mode.required and self.action_mode.value == enums.ActionMode.NO_ACTION:
+            if not self.req_s.value:
+                raise ValueError('When action_mode set to none, req_s must be true')
+            elif self.req_x.value or self.req_v.value:
+                raise ValueError('When action_mode set to none, req_x and req_v must be false')
+            elif self.req_w.value or self.req_er.value:
+                raise ValueError('When action_mode set to none, req_w and req_er must be false')
+
     def validate_and_parse_mapping(self, **mapping):
         self._validate(mapping)
         self._parse_mapping(mapping)
-- 
2.43.0


From 8acaae008212c2d6e1aa253c223947ab08f2320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 28/54] fix: the reserved OUI is refused in any letter case

---
 src/vrtgen/parser/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 049db64..d35572e 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -97,7 +97,7 @@ def parse_oui(value):
     OUIs are specified as hex literals in the form 'XX-XX-XX', where each
     octet is separated by a dash. Case is ignored.
     """
-    if str(value) == '00-12-A2':
+    if str(value).upper() == '00-12-A2':
         raise ValueError('The 00-12-A2 OUI is reserved for VITA49.2-2017 Extension Classes. This is not currently supported')
     match = _OUI_RE.match(str(value))
     if not match:
-- 
2.43.0


From d278d328cfb79ec7ed6a9737086e03f32b34efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 29/54] fix: responds_to has to name a control packet

---
 src/vrtgen/parser/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/parser/__init__.py b/src/vrtgen/parser/__init__.py
index 2aa83d4..831a022 100644
--- a/src/vrtgen/parser/__init__.py
+++ b/src/vrtgen/parser/__init__.py
@@ -17,7 +17,7 @@
 
 import yaml, logging
 
-from vrtgen.parser.model.command import AcknowledgePacket
+from vrtgen.parser.model.command import AcknowledgePacket, ControlPacket
 from vrtgen.parser.model.information import InformationClass
 
 __all__ = (
@@ -71,7 +71,7 @@ def parse_stream(stream, loader):
             parsed_packets[name] = value
             if isinstance(value, AcknowledgePacket):
                 ctrl_packet = parsed_packets.get(value.responds_to, None)
-                if not ctrl_packet:
+                if not isinstance(ctrl_packet, ControlPacket):
                     raise ValueError('Unknown control packet provided in responds_to for', name)
                 value.update_from_control(ctrl_packet)
             if not has_information_class:
-- 
2.43.0


From e06e150e6384df58bc67fe4b17e4b848d002be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 30/54] fix: a duplicate packet ends the command with an error
 status

---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index ae0c31d..d8bca3d 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -499,7 +499,7 @@ class CppGenerator(Generator):
                 logging.info('Duplicate packet name detected: %s', name)
                 if existing_packet.config.class_id.information_code.value == packet.class_id.information_code.value:
                     logging.error('Attempt to add duplicate packet type %s to Information Class %s', name, packet.class_id.information_code.value)
-                    raise SystemExit()
+                    raise SystemExit(1)
                 else: # Set flag and do not add packet
                     existing_packet.supports_multiple_information_codes = True
                     return
-- 
2.43.0


From e1fb506ac003bae80553c2d61a6e2fc0e8a858b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:57 +0000
Subject: [PATCH 31/54] fix: the choices of a generator option are enforced

---
 src/vrtgen/backend/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/generator.py b/src/vrtgen/backend/generator.py
index 0fe3c05..f34902f 100644
--- a/src/vrtgen/backend/generator.py
+++ b/src/vrtgen/backend/generator.py
@@ -89,7 +89,7 @@ class GeneratorOption:
         self.type = dtype
         self.default = defval
         self.attr = None
-        self.choices = None
+        self.choices = choices
 
     def __set_name__(self, owner, name):
         self.attr = '_' + name
-- 
2.43.0


From 8a926df3a4c7437a2ac1812645f6205e0e44379f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 32/54] fix: every definition file on the command line is read

---
 src/vrtgen/main.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 9ff3fa3..640ac39 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -56,13 +56,7 @@ def main():
         epilog="Run '%(prog)s GENERATOR --help' for more information on a generator.",
     )
     arg_parser.add_argument('--version', action='version', version='%(prog)s '+__version__)
-    sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR')
-    arg_parser.add_argument(
-        'filename',
-        nargs='+',
-        help='VRT YAML definition file',
-        metavar='FILENAME'
-    )
+    sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR', required=True)
 
     def _add_backend_parser(name, version, generator):
         backend_parser = sub_parser.add_parser(
@@ -74,7 +68,7 @@ def main():
         )
         backend_parser.add_argument(
             'filename',
-            nargs='*',
+            nargs='+',
             help='VRT YAML definition file',
             metavar='FILENAME'
         )
-- 
2.43.0


From 1ff9bcf7565acee02df8eb8992b6836a82d086ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 33/54] fix: files included by an included file belong to the
 project

---
 src/vrtgen/parser/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vrtgen/parser/__init__.py b/src/vrtgen/parser/__init__.py
index 831a022..bce24db 100644
--- a/src/vrtgen/parser/__init__.py
+++ b/src/vrtgen/parser/__init__.py
@@ -53,6 +53,9 @@ def parse_stream(stream, loader):
             for filename in value:
                 parsed_files.append(filename)
                 for inc_name, inc_value in parse_file(filename, loader):
+                    if inc_name == 'files':
+                        parsed_files.extend(inc_value)
+                        continue
                     parsed_packets[inc_name] = inc_value
                     if not has_information_class:
                         yield inc_name,inc_value
-- 
2.43.0


From f7265646937ab3bac7bf26be18b9c872133f6ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 34/54] fix: the generated files refer to each other by the
 chosen extensions

---
 src/vrtgen/backend/cpp/generator.py                         | 5 ++++-
 src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2  | 2 +-
 src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2      | 2 +-
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 src/vrtgen/backend/cpp/templates/controller.hpp.jinja2      | 2 +-
 src/vrtgen/backend/cpp/templates/main.cpp.jinja2            | 2 +-
 6 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index d8bca3d..ccb114c 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -403,7 +403,9 @@ class CppGenerator(Generator):
             'namespace_': self.namespace_,
             'project_name': self.output_dir,
             'project_version': '0.1.0',
-            'cmd_socket': self.cmd_socket
+            'cmd_socket': self.cmd_socket,
+            'header_ext': self.header_ext,
+            'source_ext': self.source_ext
         }
 
         self.include_dir = self.output_dir
@@ -474,6 +476,7 @@ class CppGenerator(Generator):
             context['information_class'] = self.information_class[1]
             context['controller_name'] = 'Controller' # self.information_class[0] + 'Controller'
             context['cmd_socket'] = self.cmd_socket
+            context['header_ext'] = self.header_ext
             template = self.env.get_template('controller.hpp.jinja2')
             self.controller_file = '{}.{}'.format(context['controller_name'], self.header_ext)
             with open(os.path.join(self.include_dir, self.controller_file), 'w') as fp:
diff --git a/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2 b/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
index 638df95..145c51a 100644
--- a/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
+++ b/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
@@ -1,6 +1,6 @@
 add_library(packetlib
 {% for packet in packets %}
-    {{ packet.name | to_snake }}.cpp
+    {{ packet.name | to_snake }}.{{ source_ext }}
 {% endfor %}
 )
 target_include_directories(packetlib PUBLIC
diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index ca47a3f..38fa701 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -73,7 +73,7 @@ auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packe
 {%- macro define_controllee(class_name, base_class_name) %}
 #pragma once
 
-#include <{{ base_class_name }}.hpp>
+#include <{{ base_class_name }}.{{ header_ext }}>
 {% if namespace_ %}
 
 namespace {{ namespace_ }}::controllee {
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 0919cb6..f8ea432 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -160,7 +160,7 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 {% endif %}
 
 {% for packet in packets if packet.is_command %}
-#include <{{ packet.name | to_snake }}.hpp>
+#include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 519865d..f7103d6 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -25,7 +25,7 @@
 #include <vrtgen/socket.hpp>
 {% endif %}
 {% for packet in packets %}
-#include <{{ packet.name | to_snake }}.hpp>
+#include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
diff --git a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
index c83f8b4..8211f0d 100644
--- a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
@@ -17,7 +17,7 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 {% for packet in packets %}
-#include <{{packet.name | to_snake}}.hpp>
+#include <{{packet.name | to_snake}}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
-- 
2.43.0


From ff12238e767e58af7d2085804a2cce5e41adbffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:46 +0000
Subject: [PATCH 35/54] fix: a section is refused when its tag is that of
 another section

---
 src/vrtgen/parser/model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 3f0df0d..0fde0d1 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -90,6 +90,7 @@ class Packet:
 
     def validate_and_parse_mapping(self, **mapping):
         self._validate(mapping)
+        self._validate_types(mapping)
         self._parse_mapping(mapping)
         self._update_header()
 
@@ -98,6 +99,11 @@ class Packet:
             if not field in [f.name for f in self.fields]:
                 raise ValueError('invalid field provided: ' + field)
 
+    def _validate_types(self, mapping):
+        for key,value in mapping.items():
+            if isinstance(value, Field) and value.name != key:
+                raise ValueError('invalid type provided for {}: {}'.format(key, value.name))
+
     def _parse_mapping(self, mapping):
         for key,value in mapping.items():
             self.__dict__[key] = value
-- 
2.43.0


From f90479158b64f09cea29f328a1d7a2f6e1c409ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:02 +0000
Subject: [PATCH 36/54] fix: the controllee has its command socket with or
 without controller IDs

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index f8ea432..f32fb1d 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -349,7 +349,7 @@ public:
 {% endif %}
 {% endfor %}
 protected:
-{% for packet in packets if (packet.is_control and packet.controller_id.enabled) %}
+{% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
-- 
2.43.0


From e84d37c442e13f0e0ddaee5dd1480e828e11e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:47 +0000
Subject: [PATCH 37/54] fix: acknowledgements carry a user-defined stream ID
 back

---
 .../cpp/templates/controllee_base.hpp.jinja2  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index f32fb1d..3354acd 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -141,6 +141,18 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 }
 {% endmacro %}
 
+{%- macro set_stream_id(packet, ack) %}
+{% if packet.stream_id.user_defined %}
+{
+    auto stream_id = std::array<uint8_t, sizeof(uint32_t)>{};
+    packet.stream_id().pack_into(stream_id.data());
+    {{ ack }}.stream_id().unpack_from(stream_id.data());
+}
+{% else %}
+{{ ack }}.stream_id(packet.stream_id());
+{% endif %}
+{% endmacro %}
+
 {%- macro define_controllee_base(class_name) %}
 #pragma once
 
@@ -407,7 +419,7 @@ private:
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
-                    ack_v.stream_id(packet.stream_id());
+                    {{ set_stream_id(packet, 'ack_v') | indent(20) | trim }}
                     ack_v.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_v.controllee_id(packet.controllee_id());
@@ -435,7 +447,7 @@ private:
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
                     ack_x.ack_x(true);
-                    ack_x.stream_id(packet.stream_id());
+                    {{ set_stream_id(packet, 'ack_x') | indent(20) | trim }}
                     ack_x.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_x.controllee_id(packet.controllee_id());
@@ -455,7 +467,7 @@ private:
 {%     endif %}
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
-                        ack_s.stream_id(packet.stream_id());
+                        {{ set_stream_id(packet, 'ack_s') | indent(24) | trim }}
                         ack_s.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                         ack_s.controllee_id(packet.controllee_id());
@@ -480,7 +492,7 @@ private:
 {%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
-                    ack_s.stream_id(packet.stream_id());
+                    {{ set_stream_id(packet, 'ack_s') | indent(20) | trim }}
                     ack_s.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_s.controllee_id(packet.controllee_id());
-- 
2.43.0


From 8cff413057b15383f07abd6297263771bdb183ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:35 +0000
Subject: [PATCH 38/54] fix: a query of the state is answered when no execution
 acknowledgement is requested with it

---
 .../cpp/templates/controllee_base.hpp.jinja2  | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 3354acd..56ab1e2 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -440,31 +440,33 @@ private:
                 }
 {%   endif %}
 {%   if packet.cam.req_x.enabled %}
-                if (packet.cam().req_x()) {
+                if (packet.cam().req_x(){{ ' || packet.cam().req_s()' if packet.cam.req_s.enabled }}) {
 {%     if packet.cam.req_s.enabled %}
                     auto [ack_x, ack_s] = this->execute_{{ packet.name | to_snake }}(packet);
 {%     else %}
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
-                    ack_x.ack_x(true);
-                    {{ set_stream_id(packet, 'ack_x') | indent(20) | trim }}
-                    ack_x.message_id(packet.message_id());
+                    if (packet.cam().req_x()) {
+                        ack_x.ack_x(true);
+                        {{ set_stream_id(packet, 'ack_x') | indent(24) | trim }}
+                        ack_x.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
-                    ack_x.controllee_id(packet.controllee_id());
+                        ack_x.controllee_id(packet.controllee_id());
 {%     endif %}
 {%     if packet.controller_id.enabled %}
-                    ack_x.controller_id(packet.controller_id());
+                        ack_x.controller_id(packet.controller_id());
 {%     endif %}
-                    auto packed_data = ack_x.data();
+                        auto packed_data = ack_x.data();
 {%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
+                        if (auto reply = message->reply_subject(); !reply.empty()) {
+                            m_client.publish(reply, packed_data);
+                        }
 {%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
+                        m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
 {%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
+                        m_cmd_socket.write_some(packed_data.data(), packed_data.size());
 {%     endif %}
+                    }
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
                         {{ set_stream_id(packet, 'ack_s') | indent(24) | trim }}
-- 
2.43.0


From c7529907944681cd4d336a485a5b299ab0443b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:38 +0000
Subject: [PATCH 39/54] fix: packets on a TCP command connection end where
 their header says, not where a read ends

---
 include/vrtgen/utility.hpp                    | 68 +++++++++++++------
 .../cpp/templates/controllee_base.hpp.jinja2  |  8 ++-
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 542c85e..4b1d070 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -22,6 +22,7 @@
 #include <string>
 #include <stdexcept>
 #include <array>
+#include <vector>
 #include <future>
 #include <sstream>
 #include <utility>
@@ -86,44 +87,71 @@ void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
     (recv_ack(acks), ...);
 }
 
+/**
+ * @brief Largest packet that the header can announce, in bytes
+ */
+inline constexpr std::size_t MAX_PACKET_SIZE{ 65535 * sizeof(uint32_t) };
+
+/**
+ * @brief Read one packet off a stream socket
+ * @param socket Stream socket
+ * @param message Buffer of at least MAX_PACKET_SIZE bytes where the packet will be written
+ * @param received Number of bytes of the packet that have been read so far
+ * @return true when the buffer holds a whole packet, false when none or only a part of one arrived before
+ *         the socket's timeout. Call again with the same buffer and count to read the rest.
+ *
+ * A stream does not keep the boundaries of what was written to it, so a read may return a part of a packet
+ * or several packets. The packet ends where its header says.
+ */
+template <class SockT>
+auto read_packet(SockT& socket, std::span<uint8_t> message, std::size_t& received) -> bool
+{
+    auto packet_size = sizeof(uint32_t);
+    while (true) {
+        if (received >= sizeof(uint32_t)) {
+            packet_size = ((message[2] << 8) | message[3]) * sizeof(uint32_t);
+            if (received >= packet_size) {
+                return true;
+            }
+        }
+        const auto length = socket.read_some(message.data() + received, packet_size - received);
+        if (length == 0) { // connection closed
+            received = 0;
+        }
+        if (length <= 0) {
+            return false;
+        }
+        received += static_cast<std::size_t>(length);
+    }
+}
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::tcp::v4>)
 auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
     socket.write_some(packed_data.data(), packed_data.size());
-    auto message = std::array<uint8_t, 65536>{ 0 };
-    auto reply_length = 0;
-    auto read_idx = std::size_t{};
-    const auto recv_ack = [&message, &socket, &reply_length, &read_idx](auto& ack)
+    const auto recv_ack = [&socket](auto& ack)
     {
         if (!ack.has_value()) { return; }
         using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (reply_length > 0) {
-            auto span = std::span<const uint8_t>{ message.data()+read_idx, static_cast<std::size_t>(reply_length) };
-            if (auto match_err = ack_t::match(span)) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ span });
-            reply_length -= ack->size();
-            read_idx += ack->size();
-            return;
-        }
-        auto read_fut = std::async(std::launch::async, [&socket, &message]
+        auto message = std::vector<uint8_t>(MAX_PACKET_SIZE);
+        auto reply_length = std::size_t{};
+        auto read_fut = std::async(std::launch::async, [&socket, &message, &reply_length]
         {
-            return socket.read_some(message.data(), message.size());
+            return read_packet(socket, message, reply_length);
         });
         using namespace std::chrono_literals;
         if (auto status = read_fut.wait_for(2s); status == std::future_status::timeout) {
             throw std::runtime_error("timed out waiting for acknowledgement packet");
         }
-        reply_length = read_fut.get();
+        if (!read_fut.get()) {
+            throw std::runtime_error("no acknowledgement packet received");
+        }
         if (auto match_err = ack_t::match(message)) {
             throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
-        reply_length -= ack->size();
-        read_idx = ack->size();
+        ack = std::move(ack_t{ { message.data(), reply_length } });
     };
     (recv_ack(acks), ...);
 }
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 56ab1e2..1bd88e3 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -197,7 +197,7 @@ class {{ class_name }}
 {% endfor %}
 {% if ns.has_control and cmd_socket != 'nats' %}
     using cmd_socket_type = vrtgen::socket::{{ cmd_socket }}::v4;
-    using message_buffer = std::array<uint8_t, 65536>;
+    using message_buffer = std::array<uint8_t, {{ 'vrtgen::MAX_PACKET_SIZE' if cmd_socket == 'tcp' else '65536' }}>;
 {% endif %}
 {% if ns.has_datactxt %}
     using data_ctxt_socket_type = vrtgen::socket::udp::v4;
@@ -397,7 +397,11 @@ private:
 {%     else %}
             auto message = message_buffer{};
 {%       if cmd_socket == 'tcp' %}
-            auto recv_length = m_cmd_socket.read_some(message.data(), message.size());
+            auto recv_length = std::size_t{};
+            while (m_listening && !vrtgen::read_packet(m_cmd_socket, message, recv_length)) {}
+            if (!m_listening) {
+                break;
+            }
 {%       elif cmd_socket == 'udp' %}
             cmd_endpoint_type endpoint;
             auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
-- 
2.43.0


From 2e1e84b2226411ab7c39e94d65a4e7e9cf093b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:35 +0000
Subject: [PATCH 40/54] fix: a datagram received as acknowledgement does not
 redirect the commands that follow

---
 include/vrtgen/utility.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 4b1d070..63f036b 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -72,13 +72,17 @@ void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
         std::array<uint8_t, 65536> message{ 0 };
         std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
         {
-            return socket.receive_from(message.data(), message.size(), socket.dst());
+            typename SockT::endpoint_type endpoint;
+            return socket.receive_from(message.data(), message.size(), endpoint);
         });
         auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
         if (status == std::future_status::timeout) {
             throw std::runtime_error("timed out waiting for acknowledgement");
         }
         auto reply_length = recv_from_fut.get();
+        if (reply_length < 0) {
+            throw std::runtime_error("no acknowledgement packet received");
+        }
         if (auto match_err = ack_t::match(message)) {
             throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
         }
-- 
2.43.0


From c28a1216b69a79bb67a533a764b1f66623987d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 41/54] fix: packets shorter than their contents are refused
 instead of read past their end

---
 include/vrtgen/packing/cif0.hpp               | 29 +++++++++
 include/vrtgen/packing/cif1.hpp               | 31 ++++++++++
 include/vrtgen/types.hpp                      |  1 +
 include/vrtgen/types/bounds.hpp               | 40 +++++++++++++
 .../macros/function_defs/constructors.jinja2  | 60 +++++++++++++++++++
 .../macros/function_defs/match.jinja2         | 22 +++++++
 6 files changed, 183 insertions(+)
 create mode 100644 include/vrtgen/types/bounds.hpp

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 47625c7..ab7848a 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <span>
 #include <vrtgen/types.hpp>
 #include "indicator_fields.hpp"
 #include "state_event_indicators.hpp"
@@ -1128,6 +1129,19 @@ public:
         std::copy(ptr, ptr + number_of_words()*4, m_ascii_sentences.data());
     }
 
+    /**
+     * @brief Unpack received bytes into GPS_ASCII
+     * @param data Received bytes, starting with the GPS_ASCII
+     * @throw std::length_error if there are fewer bytes than the GPS_ASCII takes
+     */
+    void unpack_from(std::span<const uint8_t> data)
+    {
+        vrtgen::require_bytes(data.size(), m_packed.size());
+        m_packed.unpack_from(data.data());
+        vrtgen::require_bytes(data.size(), m_packed.size() + std::size_t{ number_of_words() } * sizeof(uint32_t));
+        unpack_from(data.data());
+    }
+
 private:
     /**
      * @brief Sets the Number of Words subfield value
@@ -1539,6 +1553,21 @@ public:
         }
     }
 
+    /**
+     * @brief Unpack received bytes into ContextAssociationLists
+     * @param data Received bytes, starting with the ContextAssociationLists
+     * @throw std::length_error if there are fewer bytes than the ContextAssociationLists takes
+     */
+    void unpack_from(std::span<const uint8_t> data)
+    {
+        vrtgen::require_bytes(data.size(), m_packed.size());
+        m_packed.unpack_from(data.data());
+        const auto num_words = std::size_t{ source_list_size() } + system_list_size() + vector_component_list_size()
+            + async_channel_list_size() * (async_channel_tag_list_enable() ? 2 : 1);
+        vrtgen::require_bytes(data.size(), m_packed.size() + num_words * sizeof(uint32_t));
+        unpack_from(data.data());
+    }
+
 private:
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint32_t> m_source_list;
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 2c9ed2c..2585478 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -22,6 +22,7 @@
 #include <vrtgen/types.hpp>
 #include <vrtgen/packing/enums.hpp>
 #include <vrtgen/packing/indicator_fields.hpp>
+#include <span>
 #include <vector>
 #include <type_traits>
 
@@ -1065,6 +1066,23 @@ public:
         }
     }
 
+    /**
+     * @brief Unpack received bytes into SectorStepScan
+     * @param data Received bytes, starting with the SectorStepScan
+     * @throw std::length_error if there are fewer bytes than the SectorStepScan takes
+     */
+    void unpack_from(std::span<const uint8_t> data)
+    {
+        auto pos = sizeof(m_array_size) + m_packed.size() + m_subfield_cif.size();
+        vrtgen::require_bytes(data.size(), pos);
+        m_packed.unpack_from(data.data() + sizeof(m_array_size));
+        for (auto i = num_records(); i > 0; --i) {
+            pos += T{}.size();
+        }
+        vrtgen::require_bytes(data.size(), pos);
+        unpack_from(data.data());
+    }
+
 private:
     uint32_t m_array_size{ 0 };
     vrtgen::packed<uint32_t> m_packed;
@@ -1168,6 +1186,19 @@ public:
         }
     }
 
+    /**
+     * @brief Unpack received bytes into IndexList
+     * @param data Received bytes, starting with the IndexList
+     * @throw std::length_error if there are fewer bytes than the IndexList takes
+     */
+    void unpack_from(std::span<const uint8_t> data)
+    {
+        vrtgen::require_bytes(data.size(), sizeof(m_total_size) + m_packed.size());
+        m_packed.unpack_from(data.data() + sizeof(m_total_size));
+        vrtgen::require_bytes(data.size(), sizeof(m_total_size) + m_packed.size() + num_entries() * sizeof(T));
+        unpack_from(data.data());
+    }
+
 private:
     std::size_t padded_entries_size() const noexcept
     {
diff --git a/include/vrtgen/types.hpp b/include/vrtgen/types.hpp
index 33affca..0aa08a3 100644
--- a/include/vrtgen/types.hpp
+++ b/include/vrtgen/types.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include "types/bounds.hpp"
 #include "types/fixed.hpp"
 #include "types/packed.hpp"
 #include "types/swap.hpp"
diff --git a/include/vrtgen/types/bounds.hpp b/include/vrtgen/types/bounds.hpp
new file mode 100644
index 0000000..f8743c6
--- /dev/null
+++ b/include/vrtgen/types/bounds.hpp
@@ -0,0 +1,40 @@
+/*
+ * Copyright (C) 2023 Geon Technologies, LLC
+ *
+ * This file is part of vrtgen.
+ *
+ * vrtgen is free software: you can redistribute it and/or modify it under the
+ * terms of the GNU Lesser General Public License as published by the Free
+ * Software Foundation, either version 3 of the License, or (at your option)
+ * any later version.
+ *
+ * vrtgen is distributed in the hope that it will be useful, but WITHOUT ANY
+ * WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
+ * FOR A PARTICULAR PURPOSE.  See the GNU Lesser General Public License for
+ * more details.
+ *
+ * You should have received a copy of the GNU Lesser General Public License
+ * along with this program.  If not, see http://www.gnu.org/licenses/.
+ */
+
+#pragma once
+
+#include <cstddef>
+#include <stdexcept>
+
+namespace vrtgen {
+
+/**
+ * @brief Refuse to read past the end of received bytes
+ * @param available Number of bytes there are
+ * @param needed Number of bytes that the contents take
+ * @throw std::length_error if there are fewer bytes than needed
+ */
+inline void require_bytes(std::size_t available, std::size_t needed)
+{
+    if (available < needed) {
+        throw std::length_error("packet is shorter than its contents");
+    }
+}
+
+} // end namespace vrtgen
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index f4f8ffb..fb9dd39 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -260,13 +260,17 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 {% endmacro %}
 
 {%- macro unpack_prologue(packet, type_helper) %}
+vrtgen::require_bytes(data.size(), m_{{ packet.header.name }}.size());
 m_{{ packet.header.name }}.unpack_from(data.data());
+vrtgen::require_bytes(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t), m_{{ packet.header.name }}.size());
+vrtgen::require_bytes(data.size(), m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
 m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
 std::memcpy(m_data.data(), data.data(), m_data.size());
 auto curr_pos = m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
 {%   if packet.stream_id.user_defined %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.stream_id.name }}.size());
 m_{{ packet.stream_id.name }}.unpack_from(m_data.data() + curr_pos);
 curr_pos += m_{{ packet.stream_id.name }}.size();
 {%   else %}
@@ -275,6 +279,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packe
 {% endif %}
 {% if packet.class_id.enabled %}
 m_positions["{{ packet.class_id.name }}"] = curr_pos;
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.class_id.name }}.size());
 m_{{ packet.class_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.class_id.name }}"));
 curr_pos += m_{{ packet.class_id.name }}.size();
 {% endif %}
@@ -290,6 +295,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.timestamp.fractional) }});
 {% endif %}
 {% if packet.cam.enabled %}
 m_positions["{{ packet.cam.name }}"] = curr_pos;
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cam.name }}.size());
 curr_pos += m_{{ packet.cam.name }}.size();
 m_{{ packet.cam.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
@@ -302,6 +308,7 @@ m_positions["{{ packet.controllee_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controllee_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controllee_id) }}); // {{ packet.controllee_id.name }}
 {%   else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.controllee_id.name }}.size());
 m_{{ packet.controllee_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controllee_id.name }}"));
 curr_pos += m_{{ packet.controllee_id.name }}.size();
 {%   endif %}
@@ -311,15 +318,18 @@ m_positions["{{ packet.controller_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controller_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controller_id) }}); // {{ packet.controller_id.name }}
 {%   else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.controller_id.name }}.size());
 m_{{ packet.controller_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
 curr_pos += m_{{ packet.controller_id.name }}.size();
 {%   endif %}
 {% endif %}
+vrtgen::require_bytes(m_data.size(), curr_pos);
 {% endmacro%}
 
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif0.name }}.size());
 m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
@@ -328,10 +338,12 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif1.name }}->size());
     m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif1.name }}.size());
 m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
 {%   endif %}
@@ -341,10 +353,12 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif2.name }}->size());
     m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif2.name }}.size());
 m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
 {%   endif %}
@@ -354,10 +368,12 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif7.name }}->size());
     m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif7.name }}.size());
 m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
@@ -377,7 +393,12 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}->size());
+{% if type_helper.is_variable_length(field) %}
+    m_{{ field.name }}->unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
+{% else %}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% endif %}
 {% if type_helper.is_variable_length(field) %}
     m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
 {% endif %}
@@ -402,7 +423,12 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}.size());
+{% if type_helper.is_variable_length(field) %}
+m_{{ field.name }}.unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
+{% else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% endif %}
 {% if type_helper.is_variable_length(field) %}
 m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
 {% endif %}
@@ -432,7 +458,12 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}->size());
+{% if type_helper.is_variable_length(field) %}
+    m_{{ field.name }}->unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
+{% else %}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% endif %}
 {% if type_helper.is_variable_length(field) %}
     m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
 {% endif %}
@@ -446,7 +477,12 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}.size());
+{% if type_helper.is_variable_length(field) %}
+m_{{ field.name }}.unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
+{% else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% endif %}
 {% if type_helper.is_variable_length(field) %}
 m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
 {% endif %}
@@ -471,7 +507,12 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}->size());
+{% if type_helper.is_variable_length(field) %}
+    m_{{ field.name }}->unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
+{% else %}
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% endif %}
 {% if type_helper.is_variable_length(field) %}
     m_lengths["{{ field.name }}"] = m_{{ field.name }}->size();
 {% endif %}
@@ -485,7 +526,12 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}.size());
+{% if type_helper.is_variable_length(field) %}
+m_{{ field.name }}.unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
+{% else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{% endif %}
 {% if type_helper.is_variable_length(field) %}
 m_lengths["{{ field.name }}"] = m_{{ field.name }}.size();
 {% endif %}
@@ -494,6 +540,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     endif %}
 {%   endfor %}
 {% endif %}
+vrtgen::require_bytes(m_data.size(), curr_pos);
 {% endmacro %}
 
 {%- macro unpack_constructor(packet, type_helper) %}
@@ -506,6 +553,7 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.is_data %}
     m_positions["payload"] = curr_pos;
 {%   if packet.trailer.enabled %}
+    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.trailer.name }}.size());
     m_positions["{{ packet.trailer.name }}"] = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_{{ packet.trailer.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {%   endif %}
@@ -613,12 +661,14 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
+        vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.wif0.name }}->size());
         m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
             m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.wif1.name }}->size());
             m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
         }
@@ -627,6 +677,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
             m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.wif2.name }}->size());
             m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
         }
@@ -637,12 +688,14 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_er()) {
         m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
+        vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.eif0.name }}->size());
         m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
             m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.eif1.name }}->size());
             m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
         }
@@ -651,6 +704,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
             m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.eif2.name }}->size());
             m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
         }
@@ -663,6 +717,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -674,6 +729,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -686,6 +742,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}_warnings->size());
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
@@ -699,6 +756,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -710,6 +768,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
@@ -722,6 +781,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
+            vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}_errors->size());
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index f48065b..916bee8 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -21,6 +21,9 @@
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < {{ packet.header.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
@@ -57,6 +60,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    if (data.size() < curr_pos + {{ packet.class_id.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -84,6 +90,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    if (data.size() < curr_pos + {{ packet.cam.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
@@ -105,6 +114,10 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.trailer.enabled and packet.trailer.user_defined %}
     auto {{ packet.trailer.name }} = {{ type_helper.value_type(packet.trailer) }}{};
+    const auto packet_bytes = header.packet_size() * sizeof(uint32_t);
+    if (data.size() < packet_bytes || packet_bytes < curr_pos + {{ packet.trailer.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.trailer.name }}.unpack_from(data.data() + (header.packet_size() * sizeof(uint32_t)) - {{ packet.trailer.name }}.size());
 {%   for field in packet.trailer.fields if field.enabled and not field.is_optional %}
     if ({{ packet.trailer.name }}.{{ field.name }}_enable() != true) {
@@ -124,6 +137,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < {{ packet.header.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
@@ -157,6 +173,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    if (data.size() < curr_pos + {{ packet.class_id.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -184,6 +203,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    if (data.size() < curr_pos + {{ packet.cam.name }}.size()) {
+        return { "Packet is too short." };
+    }
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
 {%   if is_vx %}
     if (({{ packet.cam.name }}.{{ packet.cam.ack_v.name }}() != true) && ({{ packet.cam.name }}.{{ packet.cam.ack_x.name }}() != true)) {
-- 
2.43.0


From 944dcaad48e7040bac2a8c27fb2e54cdc25d326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 42/54] fix: a controller that is receiving can be destroyed

---
 src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index f7103d6..ac512df 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -92,6 +92,16 @@ public:
      */
     {{ controller_name }}() = default;
 {% endif %}
+{% if ns.has_datactxt %}
+
+    /**
+     * @brief Destructor
+     */
+    ~{{ controller_name }}()
+    {
+        disable_receive();
+    }
+{% endif %}
 
     {{ controller.socket_functions(packets, cmd_socket) | indent(4) | trim }}
 
-- 
2.43.0


From a8d376924742951d1014e44f1bcd5df0e347c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:59 +0000
Subject: [PATCH 43/54] fix: what is received is handled as a packet only if it
 is a whole one

---
 include/vrtgen/utility.hpp                    | 20 +++++++++++++++++++
 .../cpp/templates/controllee_base.hpp.jinja2  |  7 +++----
 .../cpp/templates/controller.hpp.jinja2       |  5 ++---
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 63f036b..4850bc6 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -24,6 +24,7 @@
 #include <array>
 #include <vector>
 #include <future>
+#include <optional>
 #include <sstream>
 #include <utility>
 #include <span>
@@ -59,6 +60,25 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
     return true;
 }
 
+/**
+ * @brief Parse received bytes as a packet of a class
+ * @tparam PacketT Packet class
+ * @param message Bytes received
+ * @return The packet, nothing if the bytes are not a whole packet of the class
+ */
+template <class PacketT>
+auto parse_packet(std::span<const uint8_t> message) -> std::optional<PacketT>
+{
+    if (PacketT::match(message)) {
+        return std::nullopt;
+    }
+    try {
+        return PacketT{ message };
+    } catch (const std::length_error&) {
+        return std::nullopt;
+    }
+}
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 1bd88e3..7b656eb 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -413,12 +413,11 @@ private:
 
 {%   endif %}
 {%   if cmd_socket == 'nats' %}
-            if (auto err = {{ packet.name }}::match(message->data()); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message->data() };
+            if (auto received = vrtgen::parse_packet<{{ packet.name }}>(message->data())) {
 {%   else %}
-            if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message };
+            if (auto received = vrtgen::parse_packet<{{ packet.name }}>({ message.data(), static_cast<std::size_t>(recv_length) })) {
 {%   endif %}
+                auto& packet = *received;
 {%   if packet.cam.req_v.enabled %}
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index ac512df..7555246 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -132,10 +132,9 @@ private:
             }
 
 {%   endif %}
-            if (!{{ packet.name }}::match(message)) {
-                auto packet = {{ packet.name }}{ message };
+            if (auto packet = vrtgen::parse_packet<{{ packet.name }}>({ message.data(), static_cast<std::size_t>(recv_length) })) {
                 if (m_{{ packet.name | to_snake }}_listener) {
-                    m_{{ packet.name | to_snake }}_listener(packet);
+                    m_{{ packet.name | to_snake }}_listener(*packet);
                 }
             }
 {%   if loop.last %}
-- 
2.43.0


From 4082691a044e00507c5badac96a9c51751a183f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 44/54] fix: the acknowledgement of an earlier packet is not
 returned as the answer to a later one

---
 include/vrtgen/nats/utility.hpp |  23 ++++---
 include/vrtgen/utility.hpp      | 109 ++++++++++++++++++++++----------
 2 files changed, 88 insertions(+), 44 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index 93b94cb..a9c8541 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -19,10 +19,13 @@
 
 #pragma once
 
+#include <algorithm>
 #include <string>
 #include <chrono>
 #include <stdexcept>
 
+#include <vrtgen/utility.hpp>
+
 #include "client.hpp"
 
 namespace vrtgen {
@@ -33,18 +36,20 @@ auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT
     // Send packet
     client.publish(subject, packet.data(), client.inbox());
     // Receive acks on unique reply subject
-    const auto recv_ack = [&client](auto& ack)
+    const auto recv_ack = [&client, &packet](auto& ack)
     {
         if (!ack.has_value()) { return; }
-        using namespace std::chrono_literals;
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (auto msg = client.next_inbox_msg(2s)) {
-            if (auto match_err = ack_t::match(msg->data())) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        auto error = std::string{ "timed out waiting for acknowledgement packet" };
+        const auto deadline = std::chrono::steady_clock::now() + ACK_TIMEOUT;
+        while (true) {
+            const auto remaining = deadline - std::chrono::steady_clock::now();
+            auto msg = client.next_inbox_msg(std::max(std::chrono::milliseconds(0), std::chrono::duration_cast<std::chrono::milliseconds>(remaining)));
+            if (msg == nullptr) {
+                throw std::runtime_error(error);
+            }
+            if (accept_ack(msg->data(), packet, ack, error)) {
+                return;
             }
-            ack = std::move(ack_t{ msg->data() });
-        } else {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
         }
     };
     (recv_ack(acks), ...);
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 4850bc6..8103bd8 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -22,6 +22,7 @@
 #include <string>
 #include <stdexcept>
 #include <array>
+#include <chrono>
 #include <vector>
 #include <future>
 #include <optional>
@@ -79,34 +80,71 @@ auto parse_packet(std::span<const uint8_t> message) -> std::optional<PacketT>
     }
 }
 
+/**
+ * @brief How long to wait for each acknowledgement
+ */
+inline constexpr auto ACK_TIMEOUT{ std::chrono::seconds(2) };
+
+/**
+ * @brief Take received bytes as the acknowledgement of a packet
+ * @param message Bytes received
+ * @param packet Packet to be acknowledged
+ * @param ack Set to the acknowledgement if the bytes are one of that packet
+ * @param error Set to what the bytes are otherwise
+ * @return Whether the bytes are an acknowledgement of the packet
+ *
+ * An acknowledgement of an earlier packet may arrive after the wait for it timed out.
+ */
+template <class CtrlT, class AckT>
+auto accept_ack(std::span<const uint8_t> message, const CtrlT& packet, std::optional<AckT>& ack, std::string& error) -> bool
+{
+    if (auto match_err = AckT::match(message)) {
+        error = "incorrect acknowledgement type: " + match_err.value();
+        return false;
+    }
+    auto received = parse_packet<AckT>(message);
+    if (!received) {
+        error = "incomplete acknowledgement packet";
+        return false;
+    }
+    if (received->message_id() != packet.message_id()) {
+        error = "acknowledgement of another packet";
+        return false;
+    }
+    ack = std::move(received);
+    return true;
+}
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
     socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
-    const auto recv_ack = [&socket](auto& ack)
+    const auto recv_ack = [&socket, &packet](auto& ack)
     {
         if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
         std::array<uint8_t, 65536> message{ 0 };
-        std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            typename SockT::endpoint_type endpoint;
-            return socket.receive_from(message.data(), message.size(), endpoint);
-        });
-        auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
-        if (status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement");
-        }
-        auto reply_length = recv_from_fut.get();
-        if (reply_length < 0) {
-            throw std::runtime_error("no acknowledgement packet received");
-        }
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        auto error = std::string{ "timed out waiting for acknowledgement" };
+        const auto deadline = std::chrono::steady_clock::now() + ACK_TIMEOUT;
+        while (true) {
+            std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
+            {
+                typename SockT::endpoint_type endpoint;
+                return socket.receive_from(message.data(), message.size(), endpoint);
+            });
+            auto status = recv_from_fut.wait_until(deadline);
+            if (status == std::future_status::timeout) {
+                throw std::runtime_error(error);
+            }
+            auto reply_length = recv_from_fut.get();
+            if (reply_length < 0) {
+                throw std::runtime_error("no acknowledgement packet received");
+            }
+            if (accept_ack({ message.data(), static_cast<std::size_t>(reply_length) }, packet, ack, error)) {
+                return;
+            }
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
     };
     (recv_ack(acks), ...);
 }
@@ -155,27 +193,28 @@ auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
     socket.write_some(packed_data.data(), packed_data.size());
-    const auto recv_ack = [&socket](auto& ack)
+    const auto recv_ack = [&socket, &packet](auto& ack)
     {
         if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
         auto message = std::vector<uint8_t>(MAX_PACKET_SIZE);
-        auto reply_length = std::size_t{};
-        auto read_fut = std::async(std::launch::async, [&socket, &message, &reply_length]
-        {
-            return read_packet(socket, message, reply_length);
-        });
-        using namespace std::chrono_literals;
-        if (auto status = read_fut.wait_for(2s); status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
-        }
-        if (!read_fut.get()) {
-            throw std::runtime_error("no acknowledgement packet received");
-        }
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        auto error = std::string{ "timed out waiting for acknowledgement packet" };
+        const auto deadline = std::chrono::steady_clock::now() + ACK_TIMEOUT;
+        while (true) {
+            auto reply_length = std::size_t{};
+            auto read_fut = std::async(std::launch::async, [&socket, &message, &reply_length]
+            {
+                return read_packet(socket, message, reply_length);
+            });
+            if (auto status = read_fut.wait_until(deadline); status == std::future_status::timeout) {
+                throw std::runtime_error(error);
+            }
+            if (!read_fut.get()) {
+                throw std::runtime_error("no acknowledgement packet received");
+            }
+            if (accept_ack({ message.data(), reply_length }, packet, ack, error)) {
+                return;
+            }
         }
-        ack = std::move(ack_t{ { message.data(), reply_length } });
     };
     (recv_ack(acks), ...);
 }
-- 
2.43.0


From a9dca4642144bf32745dc71e6ad7c0e40b2a23b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 45/54] fix: the NATS inbox queue is guarded by its own mutex

---
 include/vrtgen/nats/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index b1eb393..904df53 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -268,7 +268,7 @@ public:
     auto next_inbox_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
         using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
+        std::unique_lock<std::mutex> lock(m_inbox_msg_mtx);
         if (timeout == BLOCKING) {
             m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
         } else {
-- 
2.43.0


From a9e0fd4312f599d6ae96674da84dfbe085f10dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 46/54] fix: the NATS server URL ends where the URL ends

---
 include/vrtgen/nats/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 904df53..27ba898 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -98,7 +98,7 @@ public:
         std::array<char, 256> url_str;
         auto res = natsConnection_GetConnectedUrl(m_connection, url_str.data(), sizeof(url_str));
         if (res == NATS_OK) {
-            retval = std::string{ url_str.begin(), url_str.end() };
+            retval = std::string{ url_str.data() };
         }
         return retval;
     }
-- 
2.43.0


From 0c65a974a0910177df9c773b40cafed474adf9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:48 +0000
Subject: [PATCH 47/54] fix: an indicator word that the packet does not
 announce reads as zero where the packet ends

---
 .../templates/macros/function_defs/constructors.jinja2   | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index fb9dd39..c86be79 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -343,6 +343,9 @@ if (m_{{ packet.cif0.name}}.cif1_enable()) {
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
+if (!m_{{ packet.cif0.name }}.cif1_enable() && m_data.size() < curr_pos + m_{{ packet.cif1.name }}.size()) {
+    m_data.resize(curr_pos + m_{{ packet.cif1.name }}.size()); // not in the packet, reads as zero
+}
 vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif1.name }}.size());
 m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
@@ -358,6 +361,9 @@ if (m_{{ packet.cif0.name}}.cif2_enable()) {
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
+if (!m_{{ packet.cif0.name }}.cif2_enable() && m_data.size() < curr_pos + m_{{ packet.cif2.name }}.size()) {
+    m_data.resize(curr_pos + m_{{ packet.cif2.name }}.size()); // not in the packet, reads as zero
+}
 vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif2.name }}.size());
 m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
@@ -373,6 +379,9 @@ if (m_{{ packet.cif7.name}}.cif7_enable()) {
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
+if (!m_{{ packet.cif0.name }}.cif7_enable() && m_data.size() < curr_pos + m_{{ packet.cif7.name }}.size()) {
+    m_data.resize(curr_pos + m_{{ packet.cif7.name }}.size()); // not in the packet, reads as zero
+}
 vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif7.name }}.size());
 m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
-- 
2.43.0


From 1af66fb08ac82dff43c6b7c18c09385ae62217a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:24 +0000
Subject: [PATCH 48/54] fix: fields of an indicator word that is not announced
 read as zero where the packet ends

---
 .../macros/function_defs/constructors.jinja2  | 49 ++++++++++---------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index c86be79..f5b59fc 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -333,20 +333,31 @@ vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif0.name }}.size())
 m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
+{% set unannounced = [] %}
+{% for cif in [packet.cif1, packet.cif2, packet.cif7] if cif.enabled and not cif.all_optional_fields %}
+{%   do unannounced.append('!m_' + packet.cif0.name + '.' + cif.name.replace('_', '') + '_enable()') %}
+{% endfor %}
+const auto require = [this](std::size_t needed)
+{
+{% if unannounced %}
+    // An indicator word that is not announced, and its fields, read as zero where the packet ends
+    if (m_data.size() < needed && ({{ unannounced | join(' || ') }})) {
+        m_data.resize(needed);
+    }
+{% endif %}
+    vrtgen::require_bytes(m_data.size(), needed);
+};
 {% if packet.cif1.enabled %}
 m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
-    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif1.name }}->size());
+    require(curr_pos + m_{{ packet.cif1.name }}->size());
     m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
-if (!m_{{ packet.cif0.name }}.cif1_enable() && m_data.size() < curr_pos + m_{{ packet.cif1.name }}.size()) {
-    m_data.resize(curr_pos + m_{{ packet.cif1.name }}.size()); // not in the packet, reads as zero
-}
-vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif1.name }}.size());
+require(curr_pos + m_{{ packet.cif1.name }}.size());
 m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
 {%   endif %}
@@ -356,15 +367,12 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
-    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif2.name }}->size());
+    require(curr_pos + m_{{ packet.cif2.name }}->size());
     m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
-if (!m_{{ packet.cif0.name }}.cif2_enable() && m_data.size() < curr_pos + m_{{ packet.cif2.name }}.size()) {
-    m_data.resize(curr_pos + m_{{ packet.cif2.name }}.size()); // not in the packet, reads as zero
-}
-vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif2.name }}.size());
+require(curr_pos + m_{{ packet.cif2.name }}.size());
 m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
 {%   endif %}
@@ -374,15 +382,12 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
-    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif7.name }}->size());
+    require(curr_pos + m_{{ packet.cif7.name }}->size());
     m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
-if (!m_{{ packet.cif0.name }}.cif7_enable() && m_data.size() < curr_pos + m_{{ packet.cif7.name }}.size()) {
-    m_data.resize(curr_pos + m_{{ packet.cif7.name }}.size()); // not in the packet, reads as zero
-}
-vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ packet.cif7.name }}.size());
+require(curr_pos + m_{{ packet.cif7.name }}.size());
 m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
@@ -402,7 +407,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}->size());
+    require(curr_pos + m_{{ field.name }}->size());
 {% if type_helper.is_variable_length(field) %}
     m_{{ field.name }}->unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
 {% else %}
@@ -432,7 +437,7 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}.size());
+require(curr_pos + m_{{ field.name }}.size());
 {% if type_helper.is_variable_length(field) %}
 m_{{ field.name }}.unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
 {% else %}
@@ -467,7 +472,7 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}->size());
+    require(curr_pos + m_{{ field.name }}->size());
 {% if type_helper.is_variable_length(field) %}
     m_{{ field.name }}->unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
 {% else %}
@@ -486,7 +491,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}.size());
+require(curr_pos + m_{{ field.name }}.size());
 {% if type_helper.is_variable_length(field) %}
 m_{{ field.name }}.unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
 {% else %}
@@ -516,7 +521,7 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}->size());
+    require(curr_pos + m_{{ field.name }}->size());
 {% if type_helper.is_variable_length(field) %}
     m_{{ field.name }}->unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
 {% else %}
@@ -535,7 +540,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-vrtgen::require_bytes(m_data.size(), curr_pos + m_{{ field.name }}.size());
+require(curr_pos + m_{{ field.name }}.size());
 {% if type_helper.is_variable_length(field) %}
 m_{{ field.name }}.unpack_from(std::span<const uint8_t>{ m_data }.subspan(curr_pos));
 {% else %}
@@ -549,7 +554,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     endif %}
 {%   endfor %}
 {% endif %}
-vrtgen::require_bytes(m_data.size(), curr_pos);
+require(curr_pos);
 {% endmacro %}
 
 {%- macro unpack_constructor(packet, type_helper) %}
-- 
2.43.0


From e8bbe5f3c2531a93e9c408d43f9e7ccb2c609d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:22 +0000
Subject: [PATCH 49/54] fix: a socket closes its file descriptor once

---
 include/vrtgen/socket/socket_base.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..e987554 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -54,12 +54,19 @@ public:
         close();
     }
 
+    // The socket owns its file descriptor
+    socket_base(const socket_base&) = delete;
+    socket_base& operator=(const socket_base&) = delete;
+
     /**
      * @brief Close the socket
      */
     void close()
     {
-        ::close(m_socket);
+        if (is_open()) {
+            ::close(m_socket);
+            m_socket = INVALID_SOCKET;
+        }
     }
 
     /**
-- 
2.43.0


From 0ab8dbb8c56c345c763146d63ead7a467e434513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:22 +0000
Subject: [PATCH 50/54] fix: an accepted connection is closed with its socket
 and when another is accepted

---
 include/vrtgen/socket/tcp.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..f5ee3ab 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -53,7 +53,19 @@ public:
     /**
      * @brief Destructor
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        close();
+    }
+
+    /**
+     * @brief Close the socket and the accepted connection
+     */
+    void close()
+    {
+        m_disconnect();
+        base_type::close();
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +93,7 @@ public:
         if (res < 0) {
             return false;
         }
+        m_disconnect();
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -122,6 +135,14 @@ private:
         return m_connected_socket != this->INVALID_SOCKET;
     }
 
+    void m_disconnect() noexcept
+    {
+        if (m_is_connected()) {
+            ::close(m_connected_socket);
+            m_connected_socket = this->INVALID_SOCKET;
+        }
+    }
+
 }; // end class stream_socket
 
 namespace tcp {
-- 
2.43.0


From 41ebed0154c55876e10b195d6cb26b622d01190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:35 +0000
Subject: [PATCH 51/54] fix: IPv6 endpoints and sockets compile

---
 include/vrtgen/socket/socket_endpoint.hpp | 64 +++++++++++++++++++++--
 1 file changed, 60 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..502a251 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -62,6 +62,33 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    /**
+     * @brief Extract the address family member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get address family from
+     * @return Reference to the address family from the given sockaddr
+     */
+    static sa_family_t& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_family;
+    }
+    /**
+     * @brief Extract the port number member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return Reference to the port number from the given sockaddr, in network byte order
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
+    /**
+     * @brief Extract the port number member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return Port number from the given sockaddr, in network byte order
+     */
+    static in_port_t port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +120,33 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    /**
+     * @brief Extract the address family member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get address family from
+     * @return Reference to the address family from the given sockaddr
+     */
+    static sa_family_t& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_family;
+    }
+    /**
+     * @brief Extract the port number member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return Reference to the port number from the given sockaddr, in network byte order
+     */
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
+    /**
+     * @brief Extract the port number member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get port number from
+     * @return Port number from the given sockaddr, in network byte order
+     */
+    static in_port_t port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -138,8 +192,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        traits_type::family(m_sockaddr) = domain_type;
+        traits_type::port(m_sockaddr) = htons(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +249,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+	    return ntohs(traits_type::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +258,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        traits_type::port(m_sockaddr) = htons(port);
     }
 
     /**
@@ -265,6 +319,8 @@ public:
     }
 
 private:
+    using traits_type = endpoint::detail::endpoint_traits<domain_type>;
+
     sockaddr_type m_sockaddr;
     socklen_t m_socklen;
 
-- 
2.43.0


From 0e4b625c226e97623968a8444949541acc9c291e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:35 +0000
Subject: [PATCH 52/54] fix: writing to a TCP peer that has gone fails instead
 of ending the process

---
 include/vrtgen/socket/tcp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index f5ee3ab..b06713d 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -108,9 +108,9 @@ public:
     ssize_t write_some(const void* data, const size_t len)
     {
         if (m_is_connected()) {
-            return write(m_connected_socket, data, len);
+            return ::send(m_connected_socket, data, len, MSG_NOSIGNAL);
         }
-        return write(this->m_socket, data, len);
+        return ::send(this->m_socket, data, len, MSG_NOSIGNAL);
     }
 
     /**
-- 
2.43.0


From da371e2f5f9aab51dbd7cb1c86d82d119f131a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:54 +0000
Subject: [PATCH 53/54] fix: the Controllee header of an information class
 without commands compiles on its own

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 7b656eb..cb4e0e1 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -171,7 +171,7 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 #include <vrtgen/socket.hpp>
 {% endif %}
 
-{% for packet in packets if packet.is_command %}
+{% for packet in packets %}
 #include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
-- 
2.43.0


From a061505e1e5a1a83c7f990a4a289a2fc8ea82e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:44 +0000
Subject: [PATCH 54/54] fix: a project generated into a directory given as a
 path configures

---
 src/vrtgen/backend/cpp/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index ccb114c..5e55ba2 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -401,7 +401,8 @@ class CppGenerator(Generator):
             'packets': self.packets,
             'type_helper': self.type_helper,
             'namespace_': self.namespace_,
-            'project_name': self.output_dir,
+            # CMake names the program after it, so it can be no path
+            'project_name': os.path.basename(os.path.abspath(self.output_dir)),
             'project_version': '0.1.0',
             'cmd_socket': self.cmd_socket,
             'header_ext': self.header_ext,
-- 
2.43.0

