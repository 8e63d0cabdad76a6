From 4365c085e5e070c49c9b26ac65cfb005ba64dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 01/37] fix: keep a packed subfield value inside its own bits

---
 include/vrtgen/types/packed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8ce0524..fbb3b34 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -43,7 +43,7 @@ template <typename T, std::size_t pos, std::size_t bits>
 struct field_traits
 {
     static constexpr T shift{ pos - bits + 1 };
-    static constexpr T mask{ ((static_cast<T>(1) << bits) - 1) << shift };
+    static constexpr T mask = static_cast<T>(static_cast<T>(~static_cast<T>(0)) >> (sizeof(T) * 8 - bits)) << shift;
 }; // end struct field_traits
 
 } // end namespace detail
@@ -87,7 +87,7 @@ public:
         using traits = detail::field_traits<T,Pos,Bits>;
         // Fetch the current value in host order, then mask off the field bits
         value_type old_value = vrtgen::swap::from_be(m_value) & ~traits::mask;
-        value_type field_value = static_cast<value_type>(value) << traits::shift;
+        value_type field_value = (static_cast<value_type>(value) << traits::shift) & traits::mask;
         // Combine the new value with the existing bits, then store back in network order
         m_value = vrtgen::swap::to_be(static_cast<value_type>(old_value | field_value));
     }
-- 
2.43.0


From ca74ec2e423e92747179a41f1f267818b8b0878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 02/37] fix: default Eb/No, BER and SNR to the code 0x7FFF, not
 the value 32767

---
 include/vrtgen/packing/cif1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..d13282b 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -233,8 +233,8 @@ public:
      */
     EbNoBER()
     {
-        ebno(0x7FFF);
-        ber(0x7FFF);
+        m_packed.set<31,16>(uint16_t{ 0x7FFF });
+        m_packed.set<15,16>(uint16_t{ 0x7FFF });
     }
 
     /**
@@ -429,7 +429,7 @@ public:
      */
     SNRNoise()
     {
-        snr(0x7FFF);
+        m_packed.set<31,16>(uint16_t{ 0x7FFF });
     }
 
     /**
-- 
2.43.0


From 4746e03218a2b9e1415b875df78fee900bd5ad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 03/37] fix: initialise Spectrum's quantities and read back
 negative ones

---
 include/vrtgen/packing/cif1.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index d13282b..ed0f28f 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -804,15 +804,15 @@ public:
 private:
     vrtgen::packed<uint32_t> m_spectrum_type;
     vrtgen::packed<uint32_t> m_window_type;
-    uint32_t m_num_transform_points;
-    uint32_t m_num_window_points;
-    uint64_t m_resolution;
-    uint64_t m_span;
-    uint32_t m_num_averages;
-    uint32_t m_weighting_factor;
-    int32_t m_f1_index;
-    int32_t m_f2_index;
-    uint32_t m_window_time_delta;
+    uint32_t m_num_transform_points{ 0 };
+    uint32_t m_num_window_points{ 0 };
+    int64_t m_resolution{ 0 };
+    int64_t m_span{ 0 };
+    uint32_t m_num_averages{ 0 };
+    uint32_t m_weighting_factor{ 0 };
+    int32_t m_f1_index{ 0 };
+    int32_t m_f2_index{ 0 };
+    uint32_t m_window_time_delta{ 0 };
 
 }; // class Spectrum
 
-- 
2.43.0


From 6bdeab9ad6510e7dbbbed79567ab6ec5cbe4de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:49 +0000
Subject: [PATCH 04/37] fix: pad GPS ASCII sentences to whole words

---
 include/vrtgen/packing/cif0.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..2215831 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1090,7 +1090,7 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
+        m_ascii_sentences.resize((m_ascii_sentences.size() + 3) / 4 * 4);
         number_of_words(m_ascii_sentences.size()/4);
     }
 
-- 
2.43.0


From 61149d66ecdf7771c6bde39a1552c1633356dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 05/37] fix: keep list entries of context association and index
 lists in network order

---
 include/vrtgen/packing/cif0.hpp | 22 ++++++++++++++++------
 include/vrtgen/packing/cif1.hpp |  6 ++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 2215831..739255e 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1465,23 +1465,28 @@ public:
         async_channel_list_size(m_async_channel_list.size());
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        for (const auto elem : m_source_list) {
+        for (const auto value : m_source_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_system_list) {
+        for (const auto value : m_system_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_vector_component_list) {
+        for (const auto value : m_vector_component_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_async_channel_list) {
+        for (const auto value : m_async_channel_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
-        for (const auto elem : m_async_channel_tag_list) {
+        for (const auto value : m_async_channel_tag_list) {
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
@@ -1499,26 +1504,31 @@ public:
         m_source_list.resize(source_list_size());
         for (std::size_t i=0; i<m_source_list.size(); ++i) {
             std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
+            m_source_list[i] = vrtgen::swap::from_be(m_source_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_system_list.resize(system_list_size());
         for (std::size_t i=0; i<m_system_list.size(); ++i) {
             std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
+            m_system_list[i] = vrtgen::swap::from_be(m_system_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_vector_component_list.resize(vector_component_list_size());
         for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
             std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
+            m_vector_component_list[i] = vrtgen::swap::from_be(m_vector_component_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
             std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_list[i] = vrtgen::swap::from_be(m_async_channel_list[i]);
             ptr += sizeof(uint32_t);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
+        m_async_channel_tag_list.resize(async_channel_tag_list_enable() ? async_channel_list_size() : 0);
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_tag_list[i] = vrtgen::swap::from_be(m_async_channel_tag_list[i]);
             ptr += sizeof(uint32_t);
         }
     }
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index ed0f28f..5015bcc 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1141,8 +1141,9 @@ public:
         buffer_ptr += sizeof(m_total_size);
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
-        for (const auto elem : m_entries) {
-            static_assert(std::is_trivially_copyable_v<decltype(elem)>);
+        for (const auto value : m_entries) {
+            static_assert(std::is_trivially_copyable_v<decltype(value)>);
+            const auto elem = vrtgen::swap::to_be(value);
             std::memcpy(buffer_ptr, &elem, sizeof(elem));
             buffer_ptr += sizeof(elem);
         }
@@ -1158,6 +1159,7 @@ public:
         m_entries.resize(num_entries());
         for (size_t i=0; i<m_entries.size(); ++i) {
             std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
+            m_entries[i] = vrtgen::swap::from_be(m_entries[i]);
             ptr += sizeof(m_entries[i]);
         }
     }
-- 
2.43.0


From e410b58cf1263e47ec885068dde4d7677ab9c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:44 +0000
Subject: [PATCH 06/37] fix: store azimuthal angles of 256 degrees and more
 without overflow

---
 include/vrtgen/packing/cif1.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 5015bcc..d8033f8 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -151,7 +151,7 @@ public:
      */
     void azimuthal_angle(double value) noexcept
     {
-        subfield_15(value);
+        m_packed.set<15,16>(vrtgen::fixed::to_int<32,7>(value));
     }
 
 }; // end class PointingVector
-- 
2.43.0


From 785e9d4f2bf8e0172e2469d81187ef1f00af2a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 07/37] fix: honour context fields reset or assigned through
 their reference

An optional structured field reset through the returned reference kept its
indicator bit and bytes; one assigned through it survived its reset function.
---
 .../templates/macros/function_defs/cif.jinja2 | 68 +++++++++++++++----
 1 file changed, 55 insertions(+), 13 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..ceca982 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -73,6 +73,9 @@ auto {{ packet_name }}::{{ field.name }}() const -> {{ type_helper.value_type(fi
 auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field) }}{{ '&' if not type_helper.is_scalar(field) }} value) -> void
 {
 {% if not field.indicator_only %}
+{%   if field.is_optional %}
+    sync();
+{%   endif %}
 {%   if cif.is_optional and cif.type_ == 'CIF1' %}
     if (!m_{{ cif.name }}.has_value()) {
         m_{{ cif.name }} = {{ type_helper.member_type(cif) }}{};
@@ -136,6 +139,7 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 
 auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {
+    sync();
 {%   if cif.is_optional %}
     if (m_{{ cif.name }}.has_value() && m_{{ cif.name }}->{{ field.name }}()) {
 {%   else %}
@@ -226,33 +230,71 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {% endfor %}
 {% endmacro %}
 
+{%- macro erase_cif(packet, cif) %}
+{% if cif.name == 'cif_1' %}
+m_{{ packet.cif0.name }}.cif1_enable(false);
+{% elif cif.name == 'cif_2' %}
+m_{{ packet.cif0.name }}.cif2_enable(false);
+{% endif %}
+m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
+const auto pos{ m_positions.at("{{ cif.name }}") };
+m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ cif.name }}->size());
+m_{{ cif.name }}.reset();
+update_positions();
+update_packet_size();
+{% endmacro %}
+
 {%- macro reset_cif(packet, packet_name, cif, type_helper) %}
 auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {
 {% if cif.is_optional%}
+{%   if packet.requires_cif_functions %}
+    sync();
+{%   endif %}
     if (m_{{ cif.name }}.has_value()) {
 {%   for field in cif.fields if field.is_optional %}
         if (m_{{ cif.name }}->{{ field.name }}()) {
             reset_{{ field.name }}();
         }
 {%   endfor %}
-{%   if cif.name == 'cif_1' %}
-        m_{{ packet.cif0.name }}.cif1_enable(false);
-{%   elif cif.name == 'cif_2' %}
-        m_{{ packet.cif0.name }}.cif2_enable(false);
-{%   endif %}
-        m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
-        const auto pos{ m_positions.at("{{ cif.name }}") };
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ cif.name }}->size());
-        m_{{ cif.name }}.reset();
-        update_positions();
-        update_packet_size();
+        {{ erase_cif(packet, cif) | indent(8) | trim }}
     }
 {% endif %}
 }
 {% endmacro %}
 
+{%- macro remove_reset_fields(packet, cif, type_helper) %}
+{% for field in cif.fields | reverse if field.enabled and not type_helper.is_scalar(field) and field.is_optional %}
+if ({{ 'm_' ~ cif.name ~ '.has_value() && ' if cif.is_optional }}m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}() && !m_{{ field.name }}.has_value()) {
+    {{ type_helper.member_type(field) }} removed{};
+    const auto pos{ m_positions.at("{{ field.name }}") };
+    removed.unpack_from(m_data.data() + pos);
+    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + removed.size());
+    m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
+    m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
+    layout_changed = true;
+}
+{% endfor %}
+{% endmacro %}
+
 {%- macro sync_cifs(packet, type_helper) %}
+{% if packet.requires_cif_functions %}
+// Fields reset through their reference: remove from last to first, so that the positions stay valid
+[[maybe_unused]] bool layout_changed{ false };
+{%   if packet.cif2.enabled %}
+{{ remove_reset_fields(packet, packet.cif2, type_helper) | trim }}
+{%   endif %}
+{%   if packet.cif1.enabled %}
+{{ remove_reset_fields(packet, packet.cif1, type_helper) | trim }}
+{%   endif %}
+{%   if packet.cif0.enabled %}
+{{ remove_reset_fields(packet, packet.cif0, type_helper) | trim }}
+{%   endif %}
+if (layout_changed) {
+    update_positions();
+    update_packet_size();
+}
+{% endif %}
 {% if packet.cif0.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif0.fields if field.enabled and not type_helper.is_scalar(field) %}
 {%     if field.is_optional %}
@@ -312,7 +354,7 @@ m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"))
 {% endif %}
 {% if packet.cif1.enabled and packet.cif1.is_optional %}
 if (m_{{ packet.cif1.name }}.has_value() && m_{{ packet.cif1.name }}->none()) {
-    reset_{{ packet.cif1.name }}();
+    {{ erase_cif(packet, packet.cif1) | indent(4) | trim }}
 }
 {% endif %}
 {% if packet.cif2.enabled and packet.requires_cif_functions %}
@@ -347,7 +389,7 @@ m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"))
 {% endif %}
 {% if packet.cif2.enabled and packet.cif2.is_optional %}
 if (m_{{ packet.cif2.name }}.has_value() && m_{{ packet.cif2.name }}->none()) {
-    reset_{{ packet.cif2.name }}();
+    {{ erase_cif(packet, packet.cif2) | indent(4) | trim }}
 }
 {% endif %}
 {% endmacro %}
-- 
2.43.0


From f907ec63f1067ba2555a51f7418a03d87c38cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 08/37] fix: zero the padding behind a shrunken payload

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..1f57579 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From b37f58cfdc9b9be2e3ef70ff2bf5ceda212123f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:59 +0000
Subject: [PATCH 09/37] fix: generate, size and recognise acknowledges of every
 described command

State acknowledges of required fields crashed the generator and announced the
size of their prologue only; acknowledges with any timestamp kind or a class
identifier with pad bits did not compile or were not recognised.
---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 .../cpp/templates/macros/function_defs/constructors.jinja2  | 1 +
 .../backend/cpp/templates/macros/function_defs/match.jinja2 | 5 ++++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..e723873 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -717,6 +717,7 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.cif0.enabled %}
     {{ construct_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..9e0d6cd 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -132,6 +132,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
+{%   endif %}
+{%   if field.name in ('tsi', 'tsf') and field.value.value == 0b111 %}
+{%     continue %}
 {%   endif %}
     if (header.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
@@ -152,7 +155,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
-{%     for field in packet.class_id.fields if not field.is_packed_type %}
+{%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
         msg << "Failed to match class_id field {{ field.name }}."
-- 
2.43.0


From 181880228d2cf75332454b95a767912ca168bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:42 +0000
Subject: [PATCH 10/37] fix: rebuild warning and error responses from what is
 set

Warnings and errors of validation and execution acknowledges were inserted
repeatedly, kept stale indicator words and flags, could not be reset or set on
a decoded acknowledge, and did not compile with only one of them enabled. Three
response names did not match their fields.
---
 .../cpp/templates/ack_packet.cpp.jinja2       | 343 +++---------------
 .../cpp/templates/ack_packet.hpp.jinja2       |  10 +-
 .../macros/function_defs/constructors.jinja2  |  67 ----
 .../cpp/templates/macros/types/weif.jinja2    |  56 +--
 src/vrtgen/parser/model/command.py            |   6 +-
 5 files changed, 67 insertions(+), 415 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..effc6ab 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -25,104 +25,35 @@
 {%- import "macros/function_defs/constructors.jinja2" as constructors %}
 {%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos %}
 
-{%- macro ackvx_update_positions(packet, packet_name, type_helper) %}
-auto {{ packet_name }}::update_positions() -> void
-{
-{% set last_field = packet.last_prologue_field %}
-    [[maybe_unused]]
-{% if type_helper.is_scalar(last_field) %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + sizeof({{ type_helper.member_type(last_field) }});
-{% else %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
-{% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif0.name }}") = curr_pos;
-    if (m_{{ packet.wif0.name }}.has_value()) {
-        curr_pos += m_{{ packet.wif0.name }}->size();
-    }
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif1.name }}") = curr_pos;
-    if (m_{{ packet.wif1.name }}.has_value()) {
-        curr_pos += m_{{ packet.wif1.name }}->size();
-    }
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif2.name }}") = curr_pos;
-    if (m_{{ packet.wif2.name }}.has_value()) {
-        curr_pos += m_{{ packet.wif2.name }}->size();
-    }
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif0.name }}") = curr_pos;
-    if (m_{{ packet.eif0.name }}.has_value()) {
-        curr_pos += m_{{ packet.eif0.name }}->size();
-    }
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif1.name }}") = curr_pos;
-    if (m_{{ packet.eif1.name }}.has_value()) {
-        curr_pos += m_{{ packet.eif1.name }}->size();
-    }
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif2.name }}") = curr_pos;
-    if (m_{{ packet.eif2.name }}.has_value()) {
-        curr_pos += m_{{ packet.eif2.name }}->size();
-    }
-{% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
-    if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
-    if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
-    if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
-    if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-{%   for field in packet.eif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
-    if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+{%- macro collect_responses(weif_0, weif, suffix) %}
+m_{{ weif.name }}.reset();
+{% for field in weif.fields if field.enabled %}
+if (m_{{ field.name }}_{{ suffix }}.has_value()) {
+    if (!m_{{ weif.name }}.has_value()) {
+        m_{{ weif.name }}.emplace();
     }
-{%   endfor %}
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-{%   for field in packet.eif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
-    if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+    m_{{ weif.name }}->{{ field.name }}(true);
+}
+{% endfor %}
+{% if weif.name != weif_0.name %}
+if (m_{{ weif.name }}.has_value()) {
+    if (!m_{{ weif_0.name }}.has_value()) {
+        m_{{ weif_0.name }}.emplace();
     }
-{%   endfor %}
-{% endif %}
+    m_{{ weif_0.name }}->{{ weif.name | replace('_', '') }}_enable(true);
 }
+{% endif %}
+{% endmacro %}
+
+{%- macro append_responses(weif, suffix) %}
+{% for field in weif.fields if field.enabled %}
+append(m_{{ field.name }}_{{ suffix }});
+{% endfor %}
 {% endmacro %}
 
 {%- macro ackvx_sync(packet, packet_name, type_helper) %}
+{% set wifs = [packet.wif0, packet.wif1, packet.wif2] | selectattr('enabled') | list if packet.warnings_enabled else [] %}
+{% set eifs = [packet.eif0, packet.eif1, packet.eif2] | selectattr('enabled') | list if packet.errors_enabled else [] %}
 auto {{ packet_name }}::sync() -> void
 {
 {% if packet.stream_id.enabled and packet.stream_id.user_defined %}
@@ -134,205 +65,45 @@ auto {{ packet_name }}::sync() -> void
 {% if packet.controller_id.enabled and not type_helper.is_scalar(packet.controller_id) %}
     m_{{ packet.controller_id.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
 {% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->{{ field.name }}(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
+{% if wifs or eifs %}
+    // The indicator words announce exactly the responses that are set
+{%   for wif in wifs %}
+    {{ collect_responses(packet.wif0, wif, 'warnings') | indent(4) | trim }}
 {%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif1.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}.has_value()) {
-            m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif1.name }}"), m_{{ packet.wif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif1_enable(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ packet.wif1.name }}->{{ field.name }}(true);
-        m_{{ packet.wif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
+{%   for eif in eifs %}
+    {{ collect_responses(packet.eif0, eif, 'errors') | indent(4) | trim }}
 {%   endfor %}
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif2.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}.has_value()) {
-            m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif2.name }}"), m_{{ packet.wif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
+{%   if wifs %}
+    m_{{ packet.cam.name }}.ack_w(m_{{ packet.wif0.name }}.has_value());
+{%   endif %}
+{%   if eifs %}
+    m_{{ packet.cam.name }}.ack_er(m_{{ packet.eif0.name }}.has_value());
+{%   endif %}
+    m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    // Everything behind the prologue follows from them
+{%   set last_field = packet.last_prologue_field %}
+{%   if type_helper.is_scalar(last_field) %}
+    m_data.resize(m_positions.at("{{ last_field.name }}") + sizeof({{ type_helper.member_type(last_field) }}));
+{%   else %}
+    m_data.resize(m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size());
+{%   endif %}
+    const auto append = [this](const auto& element) {
+        if (element.has_value()) {
+            const auto pos{ m_data.size() };
+            m_data.resize(pos + element->size());
+            element->pack_into(m_data.data() + pos);
         }
-        if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-        m_{{ packet.wif2.name }}->{{ field.name }}(true);
-        m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
+    };
+{%   for weif in wifs + eifs %}
+    append(m_{{ weif.name }});
 {%   endfor %}
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->{{ field.name }}(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
+{%   for wif in wifs %}
+    {{ append_responses(wif, 'warnings') | indent(4) | trim }}
 {%   endfor %}
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-{%   for field in packet.eif1.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}.has_value()) {
-            m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif1.name }}"), m_{{ packet.eif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif1_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif1.name }}->{{ field.name }}(true);
-        m_{{ packet.eif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
+{%   for eif in eifs %}
+    {{ append_responses(eif, 'errors') | indent(4) | trim }}
 {%   endfor %}
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-{%   for field in packet.eif2.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}.has_value()) {
-            m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif2.name }}"), m_{{ packet.eif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif2_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif2.name }}->{{ field.name }}(true);
-        m_{{ packet.eif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->none()) {
-        reset_{{ packet.wif1.name }}();
-    }
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->none()) {
-        reset_{{ packet.wif2.name }}();
-    }
-{% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->none()) {
-        reset_{{ packet.wif0.name }}();
-    }
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->none()) {
-        reset_{{ packet.eif1.name }}();
-    }
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->none()) {
-        reset_{{ packet.eif2.name }}();
-    }
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->none()) {
-        reset_{{ packet.eif0.name }}();
-    }
+    update_packet_size();
 {% endif %}
 }
 {% endmacro %}
@@ -470,8 +241,6 @@ auto {{ packet.name }}::update_packet_size() -> void
 {{ weif.weif_functions(packet, packet_name, packet.eif2, false, type_helper) | trim }}
 
 {% endif %}
-{{ ackvx_update_positions(packet, packet_name, type_helper) | trim }}
-
 {{ ackvx_sync(packet, packet_name, type_helper) | trim }}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..7f644e1 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -172,17 +172,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
@@ -214,7 +214,6 @@ public:
 protected:
     auto update_packet_size() -> void;
     auto min_bytes() const -> std::size_t;
-    virtual auto update_positions() -> void = 0;
     virtual auto sync() -> void = 0;
 
     {{ base_ack_class_members(packet, type_helper) | indent(4) | trim }}
@@ -247,7 +246,6 @@ public:
     {{ ackvx_public_function_declarations(packet, type_helper) | indent(4) | trim }}
 
 private:
-    auto update_positions() -> void override;
     auto sync() -> void override;
 
     {{ ackvx_members(packet, type_helper) | indent(4) | trim }}
@@ -281,7 +279,7 @@ public:
 
 private:
     auto min_bytes() const -> std::size_t;
-    auto update_positions() -> void override;
+    auto update_positions() -> void;
     auto sync() -> void override;
 
     {{ acks_members(packet, type_helper) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index e723873..a69bf77 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -507,61 +507,6 @@ curr_pos += m_{{ field.name }}.size();
 {{ packet_name }}::{{ packet_name }}()
 {
     m_name = "{{ packet_name }}";
-{% set last_field = packet.last_prologue_field %}
-    [[maybe_unused]]
-{% if type_helper.is_scalar(last_field) %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + sizeof({{ type_helper.member_type(last_field) }});
-{% else %}
-    auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
-{% endif %}
-{% if packet.warnings_enabled %}
-    m_positions["{{ packet.wif0.name }}"] = curr_pos;
-{%   if packet.wif1.enabled %}
-    m_positions["{{ packet.wif1.name }}"] = curr_pos;
-{%   endif %}
-{%   if packet.wif2.enabled %}
-    m_positions["{{ packet.wif2.name }}"] = curr_pos;
-{%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-    m_positions["{{ packet.eif0.name }}"] = curr_pos;
-{%   if packet.eif1.enabled %}
-    m_positions["{{ packet.eif1.name }}"] = curr_pos;
-{%   endif %}
-{%   if packet.eif2.enabled %}
-    m_positions["{{ packet.eif2.name }}"] = curr_pos;
-{%   endif %}
-{% endif %}
-{% if packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%   endfor %}
-{%   if packet.wif1.enabled %}
-{%     for field in packet.wif1.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{%   if packet.wif2.enabled %}
-{%     for field in packet.wif2.fields if field.enabled %}
-    m_positions["{{ field.name }}_warnings"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{% endif %}
-{% if packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%   endfor %}
-{%   if packet.eif1.enabled %}
-{%     for field in packet.eif1.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{%   if packet.eif2.enabled %}
-{%     for field in packet.eif2.fields if field.enabled %}
-    m_positions["{{ field.name }}_errors"] = curr_pos;
-{%     endfor %}
-{%   endif %}
-{% endif %}
 }
 {% endmacro %}
 
@@ -579,13 +524,11 @@ curr_pos += m_{{ field.name }}.size();
 {% endif %}
 {% if packet.warnings_enabled %}
     if (m_{{ packet.cam.name }}.ack_w()) {
-        m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
         m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
-            m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
             m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
@@ -593,7 +536,6 @@ curr_pos += m_{{ field.name }}.size();
 {%   endif %}
 {%   if packet.wif2.enabled %}
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
-            m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
             m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
@@ -603,13 +545,11 @@ curr_pos += m_{{ field.name }}.size();
 {% endif %}
 {% if packet.errors_enabled %}
     if (m_{{ packet.cam.name }}.ack_er()) {
-        m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
         m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
-            m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
             m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
@@ -617,7 +557,6 @@ curr_pos += m_{{ field.name }}.size();
 {%   endif %}
 {%   if packet.eif2.enabled %}
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
-            m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
             m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
@@ -629,7 +568,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.wif0.name }}.has_value()) {
 {%   for field in packet.wif0.fields if field.enabled %}
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
@@ -640,7 +578,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.wif1.name }}.has_value()) {
 {%     for field in packet.wif1.fields if field.enabled %}
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
@@ -652,7 +589,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.wif2.name }}.has_value()) {
 {%     for field in packet.wif2.fields if field.enabled %}
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
             m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
@@ -665,7 +601,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.eif0.name }}.has_value()) {
 {%   for field in packet.eif0.fields if field.enabled %}
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
@@ -676,7 +611,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.eif1.name }}.has_value()) {
 {%     for field in packet.eif1.fields if field.enabled %}
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
@@ -688,7 +622,6 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.eif2.name }}.has_value()) {
 {%     for field in packet.eif2.fields if field.enabled %}
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
             m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..04b5185 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -38,35 +38,10 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
     reset_{{ packet.eif2.name }}();
 {%   endif %}
 {% endif %}
-    if (m_{{ weif.name }}.has_value()) {
 {% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+    m_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}.reset();
 {% endfor %}
-        const auto pos{ m_positions.at("{{ weif.name }}") };
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
-        m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
-        if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
-        }
-{% else %}
-        if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
-        }
-{% endif %}
-        update_positions();
-        update_packet_size();
-    }
+    sync();
 }
 
 {% for field in weif.fields if field.enabled %}
@@ -87,26 +62,7 @@ auto {{ packet_name }}::{{ func_name }}() -> std::optional<{{ type_helper.member
 auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field) }}& value) -> void
 {
     m_{{ func_name }} = value;
-    if (!m_{{ weif.name }}.has_value()) {
-        m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-        m_data.insert(m_data.begin() + m_positions.at("{{ weif.name }}"), m_{{ weif.name }}->size(), 0);
-        update_positions();
-        update_packet_size();
-    }
-    if (!m_{{ weif.name }}->{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ func_name }}"), m_{{ func_name }}->size(), 0);
-        m_{{ weif.name }}->{{ field.name }}(true);
-        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
-        update_positions();
-        update_packet_size();
-    }
-    m_{{ func_name }}->pack_into(m_data.data() + m_positions.at("{{ func_name }}"));
-{% if is_warning %}
-    m_{{ packet.cam.name }}.ack_w(true);
-{% else %}
-    m_{{ packet.cam.name }}.ack_er(true);
-{% endif %}
-    m_cam.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    sync();
 }
 
 /**
@@ -114,12 +70,8 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
     m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
+    sync();
 }
 
 {% endfor %}
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..86ec096 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
-- 
2.43.0


From ebf295e0560c9ef11c7b54d221a91e8d374d5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 11/37] fix: leave out timestamp words described as none

---
 src/vrtgen/parser/model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 3f0df0d..811b888 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -110,10 +110,16 @@ class Packet:
             self.header.tsi.enabled = True
             self.header.tsi.required = True
             self.header.tsi.value = self.timestamp.tsi.value
+            if self.timestamp.tsi.value == TSI.NONE:
+                self.timestamp.integer.enabled = False
+                self.timestamp.integer.required = False
         if self.timestamp.fractional.enabled:
             self.header.tsf.enabled = True
             self.header.tsf.required = True
             self.header.tsf.value = self.timestamp.tsf.value
+            if self.timestamp.tsf.value == TSF.NONE:
+                self.timestamp.fractional.enabled = False
+                self.timestamp.fractional.required = False
 
 @dataclass
 class StateEventIndicators(PackedStruct):
-- 
2.43.0


From 873906bee55b1024d1695f94d5ac6bc9d90eeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 12/37] fix: check the action mode against all requests,
 whatever their order

---
 src/vrtgen/parser/model/command.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 86ec096..6122f9b 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -94,20 +94,20 @@ class ControlAcknowledgeMode(PackedStruct):
                     self.__dict__[key].value = parse_action_mode(val)
                     self.__dict__[key].enabled = True
                     self.__dict__[key].required = True
-                    # Check for valid combinations of action_mode and acknowledge requests
-                    if self.action_mode.value == enums.ActionMode.NO_ACTION:
-                        if not self.req_s.value:
-                            raise ValueError('When action_mode set to none, req_s must be true')
-                        elif self.req_x.value or self.req_v.value:
-                            raise ValueError('When action_mode set to none, req_x and req_v must be false')
-                        elif self.req_w.value or self.req_er.value:
-                            raise ValueError('When action_mode set to none, req_w and req_er must be false')
-                        
             # elif key == 'timing_control':
             #     self.__dict__[key].value = parse_timing_control(val)
             #     self.__dict__[key].enabled = True
             #     self.__dict__[key].required = True
 
+        # Check for valid combinations of action_mode and acknowledge requests
+        if mapping.get('action_mode', 'optional') not in ('required', 'optional') and self.action_mode.value == enums.ActionMode.NO_ACTION:
+            if not self.req_s.value:
+                raise ValueError('When action_mode set to none, req_s must be true')
+            elif self.req_x.value or self.req_v.value:
+                raise ValueError('When action_mode set to none, req_x and req_v must be false')
+            elif self.req_w.value or self.req_er.value:
+                raise ValueError('When action_mode set to none, req_w and req_er must be false')
+
     def validate_and_parse_mapping(self, **mapping):
         self._validate(mapping)
         self._parse_mapping(mapping)
-- 
2.43.0


From 5e301e0218f149b121d41dc3a1e63dc29b282fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:53 +0000
Subject: [PATCH 13/37] fix: find packets named by acknowledges and information
 classes anywhere in the file

---
 src/vrtgen/parser/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/__init__.py b/src/vrtgen/parser/__init__.py
index 2aa83d4..97e1cef 100644
--- a/src/vrtgen/parser/__init__.py
+++ b/src/vrtgen/parser/__init__.py
@@ -17,7 +17,7 @@
 
 import yaml, logging
 
-from vrtgen.parser.model.command import AcknowledgePacket
+from vrtgen.parser.model.command import AcknowledgePacket, ControlPacket
 from vrtgen.parser.model.information import InformationClass
 
 __all__ = (
@@ -44,7 +44,8 @@ def parse_stream(stream, loader):
         if isinstance(value, InformationClass):
             has_information_class = True
             break
-    for name, value in parsed.items():
+    # included files come first and information classes last: packets are referred to by name, wherever they are
+    for name, value in sorted(parsed.items(), key=lambda item: (item[0] != 'include', isinstance(item[1], InformationClass))):
         if name.startswith('.'):
             logging.debug("Skipping hidden entry %s", name)
         elif name == 'include':
@@ -70,8 +71,8 @@ def parse_stream(stream, loader):
             logging.info('Processing YAML class definition: %s', name)
             parsed_packets[name] = value
             if isinstance(value, AcknowledgePacket):
-                ctrl_packet = parsed_packets.get(value.responds_to, None)
-                if not ctrl_packet:
+                ctrl_packet = parsed_packets.get(value.responds_to, parsed.get(value.responds_to, None))
+                if not isinstance(ctrl_packet, ControlPacket):
                     raise ValueError('Unknown control packet provided in responds_to for', name)
                 value.update_from_control(ctrl_packet)
             if not has_information_class:
-- 
2.43.0


From 002b498b49abc622109ea0de4cba0c4b7d197025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:30 +0000
Subject: [PATCH 14/37] fix: reject packet elements of the wrong kind

---
 src/vrtgen/parser/model/base.py    | 9 ++++++++-
 src/vrtgen/parser/model/command.py | 2 +-
 src/vrtgen/parser/model/context.py | 2 +-
 src/vrtgen/parser/model/data.py    | 2 +-
 4 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 811b888..b46c982 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -100,7 +100,14 @@ class Packet:
 
     def _parse_mapping(self, mapping):
         for key,value in mapping.items():
-            self.__dict__[key] = value
+            self._set_element(key, value)
+
+    def _set_element(self, key, value):
+        # a user-defined stream ID is a packed structure of its own
+        user_defined = key == 'stream_id' and isinstance(value, PackedStruct) and value.user_defined
+        if key not in self.__dict__ or not (isinstance(value, type(self.__dict__[key])) or user_defined):
+            raise ValueError('invalid value provided for field: ' + key)
+        self.__dict__[key] = value
 
     def _update_header(self):
         if self.class_id.enabled:
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 6122f9b..b386359 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -172,7 +172,7 @@ class CommandPacket(Packet):
                 elif key == 'controller_id':
                     self.controller_id._parse_mapping(val)
                 else:
-                    self.__dict__[key] = val
+                    self._set_element(key, val)
         except:
             raise
 
diff --git a/src/vrtgen/parser/model/context.py b/src/vrtgen/parser/model/context.py
index 6a8ff3d..4dee384 100644
--- a/src/vrtgen/parser/model/context.py
+++ b/src/vrtgen/parser/model/context.py
@@ -50,7 +50,7 @@ class ContextPacket(Packet):
                 except:
                     raise
             else:
-                self.__dict__[key] = val
+                self._set_element(key, val)
 
     def _update_header(self):
         if self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled:
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 59030c1..fb856e0 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -136,4 +136,4 @@ class DataPacket(Packet):
                 except:
                     raise
             else:
-                self.__dict__[key] = val
+                self._set_element(key, val)
-- 
2.43.0


From ddb251b4cc889f930242d8a33416108c0ea09431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 15/37] fix: reject field descriptions of the wrong kind

---
 src/vrtgen/parser/model/cif0.py |  2 ++
 src/vrtgen/parser/model/cif1.py | 13 ++++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/cif0.py b/src/vrtgen/parser/model/cif0.py
index 90651df..12d1223 100644
--- a/src/vrtgen/parser/model/cif0.py
+++ b/src/vrtgen/parser/model/cif0.py
@@ -237,6 +237,8 @@ class CIF0(CIF):
                     mode = parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
+                elif not isinstance(val, ReferenceLevel):
+                    raise ValueError('Reference level not of the correct type')
                 else:
                     self.__dict__[key].enabled = val.enabled
                     self.__dict__[key].required = val.required
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 5922ee4..78ea3f4 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -256,8 +256,9 @@ class SectorStepScan(ArrayOfRecords):
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
-            if key == 'subfield_cif':
-                self.__dict__[key] = val
+            if key != 'subfield_cif' or not isinstance(val, SectorStepScanCIF):
+                raise ValueError('invalid field provided: ' + key)
+            self.__dict__[key] = val
 
 @dataclass
 class IndexList(TemplateArrayStruct):
@@ -278,7 +279,7 @@ class IndexList(TemplateArrayStruct):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
+            if field != 'entry_size':
                 raise ValueError('invalid field provided: ' + field)
 
     def _parse_mapping(self, mapping):
@@ -505,6 +506,12 @@ class CIF1(CIF):
                 raise ValueError('Sector Step Scan not of the correct type')
             elif key == 'index_list' and not isinstance(val, IndexList):
                 raise ValueError('Index list not of the correct type')
+            elif key == 'discrete_io_32' and not isinstance(val, (str, DiscreteIO32)):
+                raise ValueError('Discrete I/O 32 not of the correct type')
+            elif key == 'discrete_io_64' and not isinstance(val, (str, DiscreteIO64)):
+                raise ValueError('Discrete I/O 64 not of the correct type')
+            elif key == 'buffer_size' and not isinstance(val, (str, BufferSize)):
+                raise ValueError('Buffer size not of the correct type')
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
-- 
2.43.0


From 9d8d0ba32b9d72ba5182502d679954686f29680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:41 +0000
Subject: [PATCH 16/37] fix: do not accept the names of packing words as fields

---
 src/vrtgen/parser/model/base.py    | 2 +-
 src/vrtgen/parser/model/cif1.py    | 4 ++--
 src/vrtgen/parser/model/cif7.py    | 2 +-
 src/vrtgen/parser/model/command.py | 2 +-
 src/vrtgen/parser/model/data.py    | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index b46c982..4008e37 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -58,7 +58,7 @@ class CIF(PackedStruct):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not f.is_packed]:
                 raise ValueError('invalid field provided: ' + field)
 
     def _parse_mapping(self, mapping):
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 78ea3f4..2b09fa1 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -216,7 +216,7 @@ class SectorStepScanCIF(CIF):
 
     def _validate(self, mapping):
         for key, val in mapping.items():
-            if not key in [f.name for f in self.fields]:
+            if not key in [f.name for f in self.fields if not f.is_packed]:
                 raise ValueError('invalid field provided: {}'.format(key))
             elif key == 'sector_number' or key == 'f1_start_frequency':
                 raise ValueError('invalid field provided: {} already required by default'.format(key))
@@ -500,7 +500,7 @@ class CIF1(CIF):
 
     def _validate(self, mapping):
         for key, val in mapping.items():
-            if not key in [f.name for f in self.fields]:
+            if not key in [f.name for f in self.fields if not f.is_packed]:
                 raise ValueError('invalid field provided: ' + key)
             elif key == 'sector_step_scan' and not isinstance(val, SectorStepScan):
                 raise ValueError('Sector Step Scan not of the correct type')
diff --git a/src/vrtgen/parser/model/cif7.py b/src/vrtgen/parser/model/cif7.py
index 8a31364..7e313ea 100644
--- a/src/vrtgen/parser/model/cif7.py
+++ b/src/vrtgen/parser/model/cif7.py
@@ -101,7 +101,7 @@ class CIF7(CIF):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.attributes.fields]:
+            if not field in [f.name for f in self.attributes.fields if not f.is_packed]:
                 raise ValueError('invalid field provided: ' + field)
 
     @property
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index b386359..0cc143b 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -58,7 +58,7 @@ class ControlAcknowledgeMode(PackedStruct):
     def _validate(self, mapping):
         for field in mapping:
             error_msg = 'invalid cam field provided: ' + field  
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not f.is_packed]:
                 raise ValueError(error_msg)
             else:
                 for cls_field in self.fields:
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index fb856e0..5a3daf8 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -41,7 +41,7 @@ class Trailer(StateEventIndicators):
         for field in mapping:
             if 'user_defined' in field:
                 continue
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not f.is_packed]:
                 raise ValueError('invalid field provided: ' + field)
 
     @property
-- 
2.43.0


From 073a62e975ffd9416ade342fc6cda35ffb2876a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 17/37] fix: reject class and stream identifiers that do not
 fit their bits

---
 src/vrtgen/parser/loader.py         |  3 ++-
 src/vrtgen/parser/model/prologue.py |  4 ++--
 src/vrtgen/parser/value.py          | 18 ++++++++++++++++--
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..fbc5ea5 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -22,6 +22,7 @@ from vrtgen.parser.model import data, context, command
 from vrtgen.parser.model.types import packing
 from vrtgen.parser.model import prologue, cif0, cif1, cif2, cif7
 from vrtgen.parser.model import information
+from vrtgen.parser.value import parse_integer
 
 def data_packet_constructor(loader, node) -> data.DataPacket:
     """
@@ -102,7 +103,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
                 raise
             if not isinstance(node_scalar_value, int):
                 raise ValueError('stream_id value must be an int, not',type(node_scalar_value))
-            stream_id.value = node_scalar_value
+            stream_id.value = parse_integer(node_scalar_value, stream_id.bits)
     else:
         pos = 0
         fields = [('name',str,'stream_id')]
diff --git a/src/vrtgen/parser/model/prologue.py b/src/vrtgen/parser/model/prologue.py
index d4c570b..caf0210 100644
--- a/src/vrtgen/parser/model/prologue.py
+++ b/src/vrtgen/parser/model/prologue.py
@@ -25,9 +25,9 @@ class ClassIdentifier(PackedStruct):
                 if key == 'oui':
                     self.oui.value = value.parse_oui(val)
                 elif key == 'packet_code':
-                    self.packet_code.value = val
+                    self.packet_code.value = value.parse_integer(val, self.packet_code.bits)
                 elif key == 'information_code':
-                    self.information_code.value = val
+                    self.information_code.value = value.parse_integer(val, self.information_code.bits)
                 else:
                     raise KeyError(val)
             except:
diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 049db64..81d8396 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -97,13 +97,27 @@ def parse_oui(value):
     OUIs are specified as hex literals in the form 'XX-XX-XX', where each
     octet is separated by a dash. Case is ignored.
     """
-    if str(value) == '00-12-A2':
+    if str(value).upper() == '00-12-A2':
         raise ValueError('The 00-12-A2 OUI is reserved for VITA49.2-2017 Extension Classes. This is not currently supported')
-    match = _OUI_RE.match(str(value))
+    match = _OUI_RE.fullmatch(str(value))
     if not match:
         raise ValueError('OUI format must be XX-XX-XX')
     return int(''.join(match.groups()), 16)
 
+def parse_integer(value, bits):
+    """
+    Parses an unsigned integer of the given number of bits.
+
+    None leaves the value open.
+    """
+    if value is None:
+        return value
+    if not isinstance(value, int) or isinstance(value, bool):
+        raise TypeError('invalid integer value: {}'.format(value))
+    if not 0 <= value < 2**bits:
+        raise ValueError('integer value does not fit in {} bits: {}'.format(bits, value))
+    return value
+
 _IDENTIFIER_FORMAT_VALUES = {
     'word': enums.IdentifierFormat.WORD,
     'uuid': enums.IdentifierFormat.UUID,
-- 
2.43.0


From dc77d4c8181814b9a9c0d53bcae2e31fa292d1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:37 +0000
Subject: [PATCH 18/37] fix: accept only stream identifier layouts as stream
 identifiers

---
 src/vrtgen/parser/model/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 4008e37..01bb315 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -104,7 +104,7 @@ class Packet:
 
     def _set_element(self, key, value):
         # a user-defined stream ID is a packed structure of its own
-        user_defined = key == 'stream_id' and isinstance(value, PackedStruct) and value.user_defined
+        user_defined = key == 'stream_id' and isinstance(value, PackedStruct) and value.type_ == self.stream_id.type_
         if key not in self.__dict__ or not (isinstance(value, type(self.__dict__[key])) or user_defined):
             raise ValueError('invalid value provided for field: ' + key)
         self.__dict__[key] = value
-- 
2.43.0


From 4a537872cb99799d3388ad853383da1cfeb106a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:15 +0000
Subject: [PATCH 19/37] fix: give index lists without an entry size the default
 one

---
 src/vrtgen/parser/model/cif1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 2b09fa1..311e754 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -276,6 +276,8 @@ class IndexList(TemplateArrayStruct):
         super().__post_init__()
         self.entries.linked_size = self.num_entries
         self.total_size_field = self.total_size
+        self.entries.type_.bits = 8
+        self.template_type = 'uint8_t'
 
     def _validate(self, mapping):
         for field in mapping:
-- 
2.43.0


From 7c0a98d1c85ea23f753eb20c0b4eb519c24af167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 20/37] fix: resize packets when fields of variable length
 change their size

Setting GPS ASCII sentences, context association lists or index lists on a
packet that already had them wrote past the packet's bytes, or left bytes
of the earlier value behind.
---
 .../templates/macros/function_defs/cif.jinja2 | 45 ++++++++++++++++---
 .../macros/function_defs/constructors.jinja2  | 18 ++++++++
 src/vrtgen/backend/cpp/type_helpers.py        |  6 +++
 3 files changed, 64 insertions(+), 5 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index ceca982..95d958a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -72,7 +72,10 @@ auto {{ packet_name }}::{{ field.name }}() const -> {{ type_helper.value_type(fi
 
 auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field) }}{{ '&' if not type_helper.is_scalar(field) }} value) -> void
 {
-{% if not field.indicator_only %}
+{% if type_helper.is_variable_length(field) %}
+    m_{{ field.name }} = value;
+    sync();
+{% elif not field.indicator_only %}
 {%   if field.is_optional %}
     sync();
 {%   endif %}
@@ -133,7 +136,9 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {% else %}
     m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(value);
 {% endif %}
+{% if not type_helper.is_variable_length(field) %}
     m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
+{% endif %}
 }
 {% if field.is_optional %}
 
@@ -264,22 +269,43 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {% endmacro %}
 
 {%- macro remove_reset_fields(packet, cif, type_helper) %}
-{% for field in cif.fields | reverse if field.enabled and not type_helper.is_scalar(field) and field.is_optional %}
-if ({{ 'm_' ~ cif.name ~ '.has_value() && ' if cif.is_optional }}m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}() && !m_{{ field.name }}.has_value()) {
-    {{ type_helper.member_type(field) }} removed{};
+{% for field in cif.fields | reverse if field.enabled and not type_helper.is_scalar(field) and (field.is_optional or type_helper.is_variable_length(field)) %}
+{%   set announced = ('m_' ~ cif.name ~ '.has_value() && ' if cif.is_optional else '') ~ 'm_' ~ cif.name ~ ('->' if cif.is_optional else '.') ~ field.name ~ '()' %}
+{%   if field.is_optional %}
+if ({{ announced }} && !m_{{ field.name }}.has_value()) {
     const auto pos{ m_positions.at("{{ field.name }}") };
+{%     if type_helper.is_variable_length(field) %}
+    m_data.erase(m_data.begin() + pos, m_data.begin() + m_positions.at("{{ field.name }}_end"));
+{%     else %}
+    {{ type_helper.member_type(field) }} removed{};
     removed.unpack_from(m_data.data() + pos);
     m_data.erase(m_data.begin() + pos, m_data.begin() + pos + removed.size());
+{%     endif %}
     m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
     m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
     layout_changed = true;
 }
+{%   endif %}
+{%   if type_helper.is_variable_length(field) %}
+if ({{ announced }}) {
+    const auto size{ m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size() };
+    const auto pos{ m_positions.at("{{ field.name }}") };
+    const auto end{ m_positions.at("{{ field.name }}_end") };
+    if (end - pos > size) {
+        m_data.erase(m_data.begin() + pos + size, m_data.begin() + end);
+        layout_changed = true;
+    } else if (end - pos < size) {
+        m_data.insert(m_data.begin() + end, size - (end - pos), 0);
+        layout_changed = true;
+    }
+}
+{%   endif %}
 {% endfor %}
 {% endmacro %}
 
 {%- macro sync_cifs(packet, type_helper) %}
 {% if packet.requires_cif_functions %}
-// Fields reset through their reference: remove from last to first, so that the positions stay valid
+// Fields reset or resized through their reference: remove or resize from last to first, so that the positions stay valid
 [[maybe_unused]] bool layout_changed{ false };
 {%   if packet.cif2.enabled %}
 {{ remove_reset_fields(packet, packet.cif2, type_helper) | trim }}
@@ -453,6 +479,9 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
@@ -482,6 +511,9 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+{{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {%   if packet.cif1.is_optional %}
 }
@@ -514,6 +546,9 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+{{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {%   if packet.cif2.is_optional %}
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index a69bf77..7e1f19e 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -155,6 +155,9 @@ curr_pos += m_{{ field.name }}_attributes.size();
 {%     if loop.last and ns.has_cif0_field %}
 m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% elif packet.cif0.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif0.fields if field.enabled and not field.indicator_only %}
@@ -187,6 +190,9 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% elif packet.cif1.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
@@ -219,6 +225,9 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% elif packet.cif2.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
@@ -399,6 +408,9 @@ m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ fie
 curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
@@ -432,6 +444,9 @@ m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% endif %}
 {% if packet.cif2.enabled and packet.requires_cif_functions %}
@@ -465,6 +480,9 @@ m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
+{%     if type_helper.is_variable_length(field) %}
+m_positions["{{ field.name }}_end"] = curr_pos;
+{%     endif %}
 {%   endfor %}
 {% endif %}
 {% endmacro %}
diff --git a/src/vrtgen/backend/cpp/type_helpers.py b/src/vrtgen/backend/cpp/type_helpers.py
index a292dda..b94fa95 100644
--- a/src/vrtgen/backend/cpp/type_helpers.py
+++ b/src/vrtgen/backend/cpp/type_helpers.py
@@ -211,6 +211,12 @@ class TypeHelper:
             return '0'
         return None
 
+    def is_variable_length(self, field):
+        """
+        Returns whether the encoded size of a field depends on its value.
+        """
+        return getattr(field.type_, 'type_', None) in ('GPS_ASCII', 'ContextAssociationLists', 'IndexList')
+
     def is_scalar(self, field):
         if isinstance(field, BooleanType):
             return True
-- 
2.43.0


From 36b1afdcf6e715322220efc64d0aacdc142eb585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 21/37] fix: do not read beyond the bytes given to a packet's
 constructor

Decoding checks the header, the announced size and every field against the
bytes at hand and throws std::out_of_range when they are missing.  Required
fields a packet leaves out are not read from the bytes of others.
---
 include/vrtgen/packing.hpp                    |   1 +
 include/vrtgen/packing/bounds.hpp             |  61 ++++++++++
 include/vrtgen/packing/cif0.hpp               |  29 +++++
 include/vrtgen/packing/cif1.hpp               |  12 ++
 .../macros/function_defs/constructors.jinja2  | 105 ++++++++++++------
 .../templates/macros/types/user_class.jinja2  |   6 +-
 6 files changed, 175 insertions(+), 39 deletions(-)
 create mode 100644 include/vrtgen/packing/bounds.hpp

diff --git a/include/vrtgen/packing.hpp b/include/vrtgen/packing.hpp
index 0a03f59..fd7e97e 100644
--- a/include/vrtgen/packing.hpp
+++ b/include/vrtgen/packing.hpp
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <vrtgen/packing/bounds.hpp>
 #include <vrtgen/packing/cif0.hpp>
 #include <vrtgen/packing/cif1.hpp>
 #include <vrtgen/packing/cif2.hpp>
diff --git a/include/vrtgen/packing/bounds.hpp b/include/vrtgen/packing/bounds.hpp
new file mode 100644
index 0000000..36a537b
--- /dev/null
+++ b/include/vrtgen/packing/bounds.hpp
@@ -0,0 +1,61 @@
+/*
+ * Copyright (C) 2023 Geon Technologies, LLC
+ *
+ * This file is part of vrtgen.
+ *
+ * vrtgen is free software: you can redistribute it and/or modify it under the
+ * terms of the GNU Lesser General Public License as published by the Free
+ * Software Foundation, either version 3 of the License, or (at your option)
+ * any later version.
+ *
+ * vrtgen is distributed in the hope that it will be useful, but WITHOUT ANY
+ * WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
+ * FOR A PARTICULAR PURPOSE.  See the GNU Lesser General Public License for
+ * more details.
+ *
+ * You should have received a copy of the GNU Lesser General Public License
+ * along with this program.  If not, see http://www.gnu.org/licenses/.
+ */
+
+#pragma once
+
+#include <cstddef>
+#include <cstdint>
+#include <span>
+#include <stdexcept>
+
+namespace vrtgen::packing {
+
+/**
+ * @brief Check that a buffer holds a number of bytes
+ * @param data Buffer to check
+ * @param pos Position of the first byte in the buffer
+ * @param size Number of bytes the buffer must hold from pos on
+ * @throw std::out_of_range if the buffer is too short
+ */
+inline void require_bytes(std::span<const uint8_t> data, std::size_t pos, std::size_t size)
+{
+    if (pos > data.size() || size > data.size() - pos) {
+        throw std::out_of_range("Packet is too short for its contents");
+    }
+}
+
+/**
+ * @brief Unpack a default constructed field from a buffer
+ * @param field Field to unpack
+ * @param data Buffer to unpack from
+ * @param pos Position of the field in the buffer
+ * @throw std::out_of_range if the buffer does not hold the whole field
+ */
+template <typename T>
+void unpack_field(T& field, std::span<const uint8_t> data, std::size_t pos)
+{
+    require_bytes(data, pos, field.size());
+    if constexpr (requires { T::packed_size(data.data()); }) {
+        // The leading words tell the size of the field
+        require_bytes(data, pos, T::packed_size(data.data() + pos));
+    }
+    field.unpack_from(data.data() + pos);
+}
+
+} // end namespace vrtgen::packing
diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 739255e..8a9132a 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1115,6 +1115,18 @@ public:
         std::copy(m_ascii_sentences.data(), m_ascii_sentences.data() + m_ascii_sentences.size(), buffer_ptr);
     }
 
+    /**
+     * @brief Get the size of a packed GPS_ASCII from its leading words
+     * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer, at least 8 bytes
+     * @return Size in bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        GPS_ASCII leading{};
+        leading.m_packed.unpack_from(buffer_ptr);
+        return leading.m_packed.size() + std::size_t{4} * leading.number_of_words();
+    }
+
     /**
      * @brief Unpack buffer bytes into GPS_ASCII
      * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer
@@ -1492,6 +1504,23 @@ public:
         }
     }
 
+    /**
+     * @brief Get the size of a packed ContextAssociationLists from its leading words
+     * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer, at least 8 bytes
+     * @return Size in bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        ContextAssociationLists leading{};
+        leading.m_packed.unpack_from(buffer_ptr);
+        const std::size_t async_lists = leading.async_channel_tag_list_enable() ? 2 : 1;
+        return leading.m_packed.size() +
+               sizeof(uint32_t) * (leading.source_list_size() +
+                                   leading.system_list_size() +
+                                   leading.vector_component_list_size() +
+                                   async_lists * leading.async_channel_list_size());
+    }
+
     /**
      * @brief Unpack buffer bytes into ContextAssociationLists
      * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index d8033f8..1e2df4a 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1149,6 +1149,18 @@ public:
         }
     }
 
+    /**
+     * @brief Get the size of a packed IndexList from its leading words
+     * @param buffer_ptr Pointer to beginning of IndexList bytes in the buffer, at least 8 bytes
+     * @return Size in bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        IndexList leading{};
+        leading.m_packed.unpack_from(buffer_ptr + sizeof(leading.m_total_size));
+        return sizeof(leading.m_total_size) + leading.m_packed.size() + sizeof(T) * leading.num_entries();
+    }
+
     void unpack_from(const uint8_t* buffer_ptr)
     {
         auto* ptr = buffer_ptr;
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 7e1f19e..aa7dad7 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -260,67 +260,81 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 {% endmacro %}
 
 {%- macro unpack_prologue(packet, type_helper) %}
-m_{{ packet.header.name }}.unpack_from(data.data());
-m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
-std::memcpy(m_data.data(), data.data(), m_data.size());
+vrtgen::packing::unpack_field(m_{{ packet.header.name }}, data, 0);
+vrtgen::packing::require_bytes(data, 0, m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
+m_data.assign(data.begin(), data.begin() + m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
+vrtgen::packing::require_bytes(m_data, 0, m_{{ packet.header.name }}.size());
 auto curr_pos = m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
 {%   if packet.stream_id.user_defined %}
-m_{{ packet.stream_id.name }}.unpack_from(m_data.data() + curr_pos);
+vrtgen::packing::unpack_field(m_{{ packet.stream_id.name }}, m_data, curr_pos);
 curr_pos += m_{{ packet.stream_id.name }}.size();
 {%   else %}
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(packet.stream_id) }}));
 curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
 {%   endif %}
 {% endif %}
 {% if packet.class_id.enabled %}
 m_positions["{{ packet.class_id.name }}"] = curr_pos;
-m_{{ packet.class_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.class_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.class_id.name }}, m_data, m_positions.at("{{ packet.class_id.name }}"));
 curr_pos += m_{{ packet.class_id.name }}.size();
 {% endif %}
 {% if packet.timestamp.enabled %}
 {%   if packet.timestamp.integer.enabled %}
 m_positions["{{ packet.timestamp.integer.name }}"] = curr_pos;
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(packet.timestamp.integer) }}));
 curr_pos += sizeof({{ type_helper.member_type(packet.timestamp.integer) }}); // {{ packet.timestamp.integer.name }}
 {%   endif %}
 {%   if packet.timestamp.fractional.enabled %}
 m_positions["{{ packet.timestamp.fractional.name }}"] = curr_pos;
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(packet.timestamp.fractional) }}));
 curr_pos += sizeof({{ type_helper.member_type(packet.timestamp.fractional) }}); // {{ packet.timestamp.fractional.name }}
 {%   endif %}
 {% endif %}
 {% if packet.cam.enabled %}
 m_positions["{{ packet.cam.name }}"] = curr_pos;
 curr_pos += m_{{ packet.cam.name }}.size();
-m_{{ packet.cam.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.cam.name }}, m_data, m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
 {% if packet.message_id.enabled %}
 m_positions["{{ packet.message_id.name }}"] = curr_pos;
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(packet.message_id) }}));
 curr_pos += sizeof({{ type_helper.member_type(packet.message_id) }}); // {{ packet.message_id.name }}
 {% endif %}
 {% if packet.controllee_id.enabled %}
 m_positions["{{ packet.controllee_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controllee_id) %}
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(packet.controllee_id) }}));
 curr_pos += sizeof({{ type_helper.member_type(packet.controllee_id) }}); // {{ packet.controllee_id.name }}
 {%   else %}
-m_{{ packet.controllee_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controllee_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.controllee_id.name }}, m_data, m_positions.at("{{ packet.controllee_id.name }}"));
 curr_pos += m_{{ packet.controllee_id.name }}.size();
 {%   endif %}
 {% endif %}
 {% if packet.controller_id.enabled %}
 m_positions["{{ packet.controller_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controller_id) %}
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(packet.controller_id) }}));
 curr_pos += sizeof({{ type_helper.member_type(packet.controller_id) }}); // {{ packet.controller_id.name }}
 {%   else %}
-m_{{ packet.controller_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.controller_id.name }}, m_data, m_positions.at("{{ packet.controller_id.name }}"));
 curr_pos += m_{{ packet.controller_id.name }}.size();
 {%   endif %}
 {% endif %}
 {% endmacro%}
 
+{%- macro insert_missing(announced, size) %}
+if (!{{ announced }}) {
+    // Required, but missing from the packet
+    m_data.insert(m_data.begin() + curr_pos, {{ size }}, 0);
+}
+{% endmacro %}
+
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
-m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.cif0.name }}, m_data, m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
 {% if packet.cif1.enabled %}
@@ -328,11 +342,12 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
-    m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
+{{ insert_missing('m_' ~ packet.cif0.name ~ '.cif1_enable()', 'm_' ~ packet.cif1.name ~ '.size()') | trim }}
+vrtgen::packing::unpack_field(m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
 curr_pos += m_{{ packet.cif1.name }}.size();
 {%   endif %}
 {% endif %}
@@ -341,11 +356,12 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
-    m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
+{{ insert_missing('m_' ~ packet.cif0.name ~ '.cif2_enable()', 'm_' ~ packet.cif2.name ~ '.size()') | trim }}
+vrtgen::packing::unpack_field(m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
 curr_pos += m_{{ packet.cif2.name }}.size();
 {%   endif %}
 {% endif %}
@@ -354,11 +370,12 @@ m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
 if (m_{{ packet.cif7.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
-    m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+{{ insert_missing('m_' ~ packet.cif0.name ~ '.cif7_enable()', 'm_' ~ packet.cif7.name ~ '.size()') | trim }}
+vrtgen::packing::unpack_field(m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
 curr_pos += m_{{ packet.cif7.name }}.size();
 {%   endif %}
 {% endif %}
@@ -374,10 +391,11 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         if field.type_.reserved_bits > 0 %}
     curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+    vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(field) }}));
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
@@ -388,23 +406,27 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         else %}
     m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
 {%         endif %}
-    m_{{ field.name }}_attributes->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}_attributes->size();
 {%       endif %}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
+{%         set reserved = 'sizeof(int' ~ field.type_.reserved_bits ~ '_t) + ' if field.type_.reserved_bits > 0 else '' %}
+{{ insert_missing('m_' ~ packet.cif0.name ~ '.' ~ field.name ~ '()', reserved ~ 'sizeof(' ~ type_helper.member_type(field) ~ ')') | trim }}
 {%         if field.type_.reserved_bits > 0 %}
 curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(field) }}));
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{{ insert_missing('m_' ~ packet.cif0.name ~ '.' ~ field.name ~ '()', 'm_' ~ field.name ~ '.size()') | trim }}
+vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
-m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+vrtgen::packing::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
 curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
 {%     endif %}
@@ -426,21 +448,26 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
 {%         if field.type_.reserved_bits > 0 %}
     curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+    vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(field) }}));
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
+{%         set reserved = 'sizeof(int' ~ field.type_.reserved_bits ~ '_t) + ' if field.type_.reserved_bits > 0 else '' %}
+{{ insert_missing('m_' ~ packet.cif1.name ~ '.' ~ field.name ~ '()', reserved ~ 'sizeof(' ~ type_helper.member_type(field) ~ ')') | trim }}
 {%         if field.type_.reserved_bits > 0 %}
 curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(field) }}));
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{{ insert_missing('m_' ~ packet.cif1.name ~ '.' ~ field.name ~ '()', 'm_' ~ field.name ~ '.size()') | trim }}
+vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -462,21 +489,26 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
 {%         if field.type_.reserved_bits > 0 %}
     curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+    vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(field) }}));
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
+{%         set reserved = 'sizeof(int' ~ field.type_.reserved_bits ~ '_t) + ' if field.type_.reserved_bits > 0 else '' %}
+{{ insert_missing('m_' ~ packet.cif2.name ~ '.' ~ field.name ~ '()', reserved ~ 'sizeof(' ~ type_helper.member_type(field) ~ ')') | trim }}
 {%         if field.type_.reserved_bits > 0 %}
 curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
+vrtgen::packing::require_bytes(m_data, curr_pos, sizeof({{ type_helper.member_type(field) }}));
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+{{ insert_missing('m_' ~ packet.cif2.name ~ '.' ~ field.name ~ '()', 'm_' ~ field.name ~ '.size()') | trim }}
+vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -497,8 +529,9 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {% if packet.is_data %}
     m_positions["payload"] = curr_pos;
 {%   if packet.trailer.enabled %}
+    vrtgen::packing::require_bytes(m_data, curr_pos, m_{{ packet.trailer.name }}.size());
     m_positions["{{ packet.trailer.name }}"] = m_data.size() - m_{{ packet.trailer.name }}.size();
-    m_{{ packet.trailer.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
+    vrtgen::packing::unpack_field(m_{{ packet.trailer.name }}, m_data, m_positions.at("{{ packet.trailer.name }}"));
 {%   endif %}
 {% endif %}
 }
@@ -543,19 +576,19 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {% if packet.warnings_enabled %}
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-        m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::packing::unpack_field(*m_{{ packet.wif0.name }}, m_data, curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.wif1.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
         }
 {%   endif %}
 {%   if packet.wif2.enabled %}
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.wif2.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
         }
 {%   endif %}
@@ -564,19 +597,19 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {% if packet.errors_enabled %}
     if (m_{{ packet.cam.name }}.ack_er()) {
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-        m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::packing::unpack_field(*m_{{ packet.eif0.name }}, m_data, curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.eif1.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
         }
 {%   endif %}
 {%   if packet.eif2.enabled %}
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.eif2.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
         }
 {%   endif %}
@@ -587,7 +620,7 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {%   for field in packet.wif0.fields if field.enabled %}
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%   endfor %}
@@ -597,7 +630,7 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {%     for field in packet.wif1.fields if field.enabled %}
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%     endfor %}
@@ -608,7 +641,7 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {%     for field in packet.wif2.fields if field.enabled %}
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%     endfor %}
@@ -620,7 +653,7 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {%   for field in packet.eif0.fields if field.enabled %}
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%   endfor %}
@@ -630,7 +663,7 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {%     for field in packet.eif1.fields if field.enabled %}
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%     endfor %}
@@ -641,7 +674,7 @@ m_positions["{{ field.name }}_end"] = curr_pos;
 {%     for field in packet.eif2.fields if field.enabled %}
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%     endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..162a2f3 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -215,7 +215,7 @@ public:
      * @brief Unpack buffer bytes into {{ class.type_ }}
      * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void
+    auto unpack_from(const uint8_t* buffer_ptr) -> void
     {
         if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
@@ -281,7 +281,7 @@ public:
      * @brief Unpack buffer bytes into {{ class.type_ }}
      * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void;
+    auto unpack_from(const uint8_t* buffer_ptr) -> void;
 {% endif %}
 
 private:
@@ -318,7 +318,7 @@ auto {{ class.type_ }}::pack_into(uint8_t* buffer_ptr) const -> void
     m_packed.pack_into(buffer_ptr);
 }
 
-auto {{ class.type_ }}::unpack_from(uint8_t* buffer_ptr) -> void
+auto {{ class.type_ }}::unpack_from(const uint8_t* buffer_ptr) -> void
 {
     m_packed.unpack_from(buffer_ptr);
 }
-- 
2.43.0


From 0519af7d825d57c3016ffae6c613a123c5066510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 22/37] fix: match packets only when complete and with all
 required fields

The matcher read beyond short packets, and accepted packets without the
fields that decoding them relies on.
---
 .../macros/function_defs/match.jinja2         | 101 +++++++++++++++---
 1 file changed, 88 insertions(+), 13 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9e0d6cd..d09149a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -17,15 +17,52 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 
+{%- macro check_size(size) %}
+if (data.size() < curr_pos{{ ' + ' ~ size if size }}) {
+    return { "Packet is too short" };
+}
+{% endmacro %}
+
+{%- macro match_required_fields(cif) %}
+{% for field in cif.fields if field.enabled and field.required and not field.indicator_only %}
+if (!{{ cif.name }}.{{ field.name }}()) {
+    return { "Failed to match {{ cif.name }} field {{ field.name }}. Required field is missing" };
+}
+{% endfor %}
+{% endmacro %}
+
+{%- macro match_cifs(packet, type_helper) %}
+auto {{ packet.cif0.name }} = {{ type_helper.value_type(packet.cif0) }}{};
+{{ check_size(packet.cif0.name ~ '.size()') | trim }}
+{{ packet.cif0.name }}.unpack_from(data.data() + curr_pos);
+curr_pos += {{ packet.cif0.name }}.size();
+{{ match_required_fields(packet.cif0) | trim }}
+{% for cif, enable in [(packet.cif1, 'cif1_enable'), (packet.cif2, 'cif2_enable')] if cif.enabled %}
+{%   if not cif.all_optional_fields %}
+if (!{{ packet.cif0.name }}.{{ enable }}()) {
+    return { "Failed to match {{ packet.cif0.name }} field {{ enable }}. Required field is missing" };
+}
+{%   endif %}
+if ({{ packet.cif0.name }}.{{ enable }}()) {
+    auto {{ cif.name }} = {{ type_helper.value_type(cif) }}{};
+    {{ check_size(cif.name ~ '.size()') | indent(4) | trim }}
+    {{ cif.name }}.unpack_from(data.data() + curr_pos);
+    curr_pos += {{ cif.name }}.size();
+    {{ match_required_fields(cif) | indent(4) | trim }}
+}
+{% endfor %}
+{% endmacro %}
+
 {%- macro match(packet, type_helper) %}
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    auto curr_pos = std::size_t{};
+    {{ check_size(packet.header.name ~ '.size()') | indent(4) | trim }}
     {{ packet.header.name }}.unpack_from(data.data());
-{% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
-    [[maybe_unused]]
-    auto curr_pos = {{ packet.header.name }}.size();
-{% endif %}
+    {{ check_size(packet.header.name ~ '.packet_size() * sizeof(uint32_t)') | indent(4) | trim }}
+    data = data.first({{ packet.header.name }}.packet_size() * sizeof(uint32_t));
+    curr_pos += {{ packet.header.name }}.size();
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
@@ -52,11 +89,12 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {% endfor %}
-{% if packet.stream_id.enabled and (packet.class_id.enabled or packet.cam.enabled) %}
+{% if packet.stream_id.enabled %}
     curr_pos += sizeof({{ type_helper.value_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    {{ check_size(packet.class_id.name ~ '.size()') | indent(4) | trim }}
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -74,7 +112,7 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {%     endfor %}
     curr_pos += {{ packet.class_id.name }}.size();
 {% endif %}
-{% if packet.timestamp.enabled and packet.cam.enabled %}
+{% if packet.timestamp.enabled %}
 {%   if packet.timestamp.integer.enabled %}
     curr_pos += sizeof({{ type_helper.value_type(packet.timestamp.integer) }}); // {{ packet.timestamp.integer.name }}
 {%   endif %}
@@ -84,7 +122,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    {{ check_size(packet.cam.name ~ '.size()') | indent(4) | trim }}
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
+    curr_pos += {{ packet.cam.name }}.size();
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
@@ -103,9 +143,26 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
     }
 {%   endfor %}
 {% endif %}
+{% if packet.message_id.enabled %}
+    curr_pos += sizeof({{ type_helper.value_type(packet.message_id) }}); // {{ packet.message_id.name }}
+{% endif %}
+{% for identifier in [packet.controllee_id, packet.controller_id] if identifier.enabled %}
+{%   if type_helper.is_scalar(identifier) %}
+    curr_pos += sizeof({{ type_helper.value_type(identifier) }}); // {{ identifier.name }}
+{%   else %}
+    curr_pos += {{ type_helper.value_type(identifier) }}{}.size(); // {{ identifier.name }}
+{%   endif %}
+{% endfor %}
+{% if packet.trailer.enabled %}
+    curr_pos += {{ type_helper.value_type(packet.trailer) }}{}.size(); // {{ packet.trailer.name }}
+{% endif %}
+    {{ check_size('') | indent(4) | trim }}
+{% if packet.cif0.enabled and (packet.requires_cif_functions or packet.requires_cif_enable_functions) %}
+    {{ match_cifs(packet, type_helper) | indent(4) | trim }}
+{% endif %}
 {% if packet.trailer.enabled and packet.trailer.user_defined %}
     auto {{ packet.trailer.name }} = {{ type_helper.value_type(packet.trailer) }}{};
-    {{ packet.trailer.name }}.unpack_from(data.data() + (header.packet_size() * sizeof(uint32_t)) - {{ packet.trailer.name }}.size());
+    {{ packet.trailer.name }}.unpack_from(data.data() + data.size() - {{ packet.trailer.name }}.size());
 {%   for field in packet.trailer.fields if field.enabled and not field.is_optional %}
     if ({{ packet.trailer.name }}.{{ field.name }}_enable() != true) {
         std::ostringstream msg;
@@ -124,11 +181,12 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    auto curr_pos = std::size_t{};
+    {{ check_size(packet.header.name ~ '.size()') | indent(4) | trim }}
     {{ packet.header.name }}.unpack_from(data.data());
-{% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
-    [[maybe_unused]]
-    auto curr_pos = {{ packet.header.name }}.size();
-{% endif %}
+    {{ check_size(packet.header.name ~ '.packet_size() * sizeof(uint32_t)') | indent(4) | trim }}
+    data = data.first({{ packet.header.name }}.packet_size() * sizeof(uint32_t));
+    curr_pos += {{ packet.header.name }}.size();
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
@@ -149,11 +207,12 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {% endfor %}
-{% if packet.stream_id.enabled and (packet.class_id.enabled or packet.cam.enabled) %}
+{% if packet.stream_id.enabled %}
     curr_pos += sizeof({{ type_helper.value_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
 {% endif %}
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
+    {{ check_size(packet.class_id.name ~ '.size()') | indent(4) | trim }}
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
 {%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
@@ -171,7 +230,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {%     endfor %}
     curr_pos += {{ packet.class_id.name }}.size();
 {% endif %}
-{% if packet.timestamp.enabled and packet.cam.enabled %}
+{% if packet.timestamp.enabled %}
 {%   if packet.timestamp.integer.enabled %}
     curr_pos += sizeof({{ type_helper.value_type(packet.timestamp.integer) }}); // {{ packet.timestamp.integer.name }}
 {%   endif %}
@@ -181,7 +240,9 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% endif %}
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
+    {{ check_size(packet.cam.name ~ '.size()') | indent(4) | trim }}
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
+    curr_pos += {{ packet.cam.name }}.size();
 {%   if is_vx %}
     if (({{ packet.cam.name }}.{{ packet.cam.ack_v.name }}() != true) && ({{ packet.cam.name }}.{{ packet.cam.ack_x.name }}() != true)) {
         std::ostringstream msg;
@@ -217,6 +278,20 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {%   endfor %}
+{% endif %}
+{% if packet.message_id.enabled %}
+    curr_pos += sizeof({{ type_helper.value_type(packet.message_id) }}); // {{ packet.message_id.name }}
+{% endif %}
+{% for identifier in [packet.controllee_id, packet.controller_id] if identifier.enabled %}
+{%   if type_helper.is_scalar(identifier) %}
+    curr_pos += sizeof({{ type_helper.value_type(identifier) }}); // {{ identifier.name }}
+{%   else %}
+    curr_pos += {{ type_helper.value_type(identifier) }}{}.size(); // {{ identifier.name }}
+{%   endif %}
+{% endfor %}
+    {{ check_size('') | indent(4) | trim }}
+{% if not is_vx and packet.cif0.enabled and packet.requires_cif_functions %}
+    {{ match_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
     return std::nullopt;
 }
-- 
2.43.0


From 7a256bf4e7071d77f5d574f89e81c0b03a2501bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:11 +0000
Subject: [PATCH 23/37] fix: match control packets only with the identifiers
 they are configured with

---
 .../cpp/templates/macros/function_defs/match.jinja2    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index d09149a..ceefeef 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -31,6 +31,14 @@ if (!{{ cif.name }}.{{ field.name }}()) {
 {% endfor %}
 {% endmacro %}
 
+{%- macro match_identifiers(packet) %}
+{% for identifier in ['controllee', 'controller'] if not packet[identifier ~ '_id'].enabled %}
+if ({{ packet.cam.name }}.{{ identifier }}_enable()) {
+    return { "Failed to match cam field {{ identifier }}_enable. Unexpected {{ identifier }} identifier" };
+}
+{% endfor %}
+{% endmacro %}
+
 {%- macro match_cifs(packet, type_helper) %}
 auto {{ packet.cif0.name }} = {{ type_helper.value_type(packet.cif0) }}{};
 {{ check_size(packet.cif0.name ~ '.size()') | trim }}
@@ -125,6 +133,7 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
     {{ check_size(packet.cam.name ~ '.size()') | indent(4) | trim }}
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
     curr_pos += {{ packet.cam.name }}.size();
+    {{ match_identifiers(packet) | indent(4) | trim }}
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
@@ -243,6 +252,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
     {{ check_size(packet.cam.name ~ '.size()') | indent(4) | trim }}
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
     curr_pos += {{ packet.cam.name }}.size();
+    {{ match_identifiers(packet) | indent(4) | trim }}
 {%   if is_vx %}
     if (({{ packet.cam.name }}.{{ packet.cam.ack_v.name }}() != true) && ({{ packet.cam.name }}.{{ packet.cam.ack_x.name }}() != true)) {
         std::ostringstream msg;
-- 
2.43.0


From bcae942f798ec0f56b1db585e36786fe93efe456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 24/37] fix: do not write a required list of a packet decoded
 without it over other bytes

---
 .../backend/cpp/templates/macros/function_defs/cif.jinja2       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 95d958a..4300567 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -287,7 +287,7 @@ if ({{ announced }} && !m_{{ field.name }}.has_value()) {
 }
 {%   endif %}
 {%   if type_helper.is_variable_length(field) %}
-if ({{ announced }}) {
+{{ 'if (' ~ announced ~ ') {' if field.is_optional else '{' }}
     const auto size{ m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size() };
     const auto pos{ m_positions.at("{{ field.name }}") };
     const auto end{ m_positions.at("{{ field.name }}_end") };
-- 
2.43.0


From 622c71515537583dbe516727360530c4d5335f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 25/37] fix: give every user-defined stream identifier
 constituent its own bits and declared value

---
 .../macros/function_defs/constructors.jinja2  |  6 ++-
 .../macros/function_defs/stream_id.jinja2     |  7 ++-
 src/vrtgen/parser/loader.py                   | 25 +---------
 src/vrtgen/parser/model/prologue.py           | 46 +++++++++++++++++++
 4 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index aa7dad7..fbeecc4 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -38,7 +38,11 @@ m_{{ packet.header.name }}.pack_into(m_data.data());
 curr_pos += m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
-{%   if packet.stream_id.value %}
+{%   if packet.stream_id.user_defined %}
+{%     for field in packet.stream_id.fields if field.value %}
+m_{{ packet.stream_id.name }}.{{ field.name }}({{ type_helper.literal_value(field) }});
+{%     endfor %}
+{%   elif packet.stream_id.value %}
 {{ packet.stream_id.name }}({{ type_helper.literal_value(packet.stream_id) }});
 {%   endif %}
 curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
index 32ca6a6..8f99ba5 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
@@ -34,7 +34,12 @@ auto {{ packet.name }}::{{ packet.stream_id.name }}() const -> {{ type_helper.me
 {% endif %}
 }
 
-{% if not packet.stream_id.user_defined %}
+{% if packet.stream_id.user_defined %}
+auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }}& value) -> void
+{
+    m_{{ packet.stream_id.name }} = value;
+}
+{% else %}
 auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }} value) -> void
 {
     auto swapped{ vrtgen::swap::to_be(value) };
diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index fbc5ea5..66619e6 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -16,7 +16,6 @@
 # along with this program.  If not, see http://www.gnu.org/licenses/. 
 
 import yaml
-from dataclasses import make_dataclass, field
 
 from vrtgen.parser.model import data, context, command
 from vrtgen.parser.model.types import packing
@@ -105,28 +104,8 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
                 raise ValueError('stream_id value must be an int, not',type(node_scalar_value))
             stream_id.value = parse_integer(node_scalar_value, stream_id.bits)
     else:
-        pos = 0
-        fields = [('name',str,'stream_id')]
-        for key,val in loader.construct_mapping(node, deep=True).items():
-            if type(val) != packing.IntegerType:
-                raise TypeError('stream_id constituents must be of type !IntegerType')
-            val.name = key
-            pos += val.bits
-            if pos > 32:
-                raise ValueError('stream_id constituent bits cannot be greater than 32')
-            val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
-            val.is_extension_type =  True
-            val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
-        fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
-        packed_stream_id_type = make_dataclass(
-            cls_name='StreamIdentifier',
-            fields=fields,
-            bases=(packing.PackedStruct,)
-        )
-        packed_stream_id_type.__doc__ = '''Custom Packed Stream Identifier'''
-        stream_id = packed_stream_id_type(enabled=True, required=True, user_defined=True)
-        stream_id.bits = 32
+        stream_id = prologue.PackedStreamIdentifier(enabled=True, required=True)
+        stream_id.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return stream_id
 
 def class_id_constructor(loader, node) -> prologue.ClassIdentifier:
diff --git a/src/vrtgen/parser/model/prologue.py b/src/vrtgen/parser/model/prologue.py
index caf0210..b64a079 100644
--- a/src/vrtgen/parser/model/prologue.py
+++ b/src/vrtgen/parser/model/prologue.py
@@ -1,8 +1,54 @@
 from dataclasses import dataclass, field
+from typing import List
 
 from vrtgen.parser import value
 from vrtgen.parser.model.types import *
 
+@dataclass
+class PackedStreamIdentifier(PackedStruct):
+    """
+    Custom Packed Stream Identifier
+    """
+    name : str = 'stream_id'
+    subfields : List[Field] = field(default_factory=list)
+    packed : PackedType = field(default_factory=lambda: PackedType('packed', bits=32, enabled=True, required=True, packed_tag=PackedTag(0,32,0)))
+
+    def __post_init__(self):
+        super().__post_init__()
+        self.type_ = 'StreamIdentifier'
+        self.user_defined = True
+        self.bits = 32
+
+    @property
+    def fields(self):
+        return [field for field in self.subfields] + [self.packed]
+
+    def _validate(self, mapping):
+        for key,val in mapping.items():
+            if type(val) != IntegerType:
+                raise TypeError('stream_id constituents must be of type !IntegerType')
+            if val.bits < 1:
+                raise ValueError('stream_id constituents must have at least one bit: {}'.format(key))
+        if sum(val.bits for val in mapping.values()) > self.bits:
+            raise ValueError('stream_id constituent bits cannot be greater than 32')
+
+    def _parse_mapping(self, mapping):
+        pos = 0
+        for key,val in mapping.items():
+            pos += val.bits
+            val.name = key
+            val.value = value.parse_integer(val.value, val.bits)
+            val.packed_tag = PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
+            val.is_extension_type = True
+            val.user_defined = True
+            self.subfields.append(val)
+            # Constituents are attributes, too, unless that hides a property of the field itself
+            self.__dict__.setdefault(key, val)
+
+    def validate_and_parse_mapping(self, **mapping):
+        self._validate(mapping)
+        self._parse_mapping(mapping)
+
 @dataclass
 class ClassIdentifier(PackedStruct):
     """
-- 
2.43.0


From a6bf5aabf44d2d15eab5ca383bc01082a61593e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:54 +0000
Subject: [PATCH 26/37] fix: user-defined trailer parts are limited to their
 bits, two-valued enumerations compile

---
 .../cpp/templates/macros/types/user_class.jinja2   |  4 ++--
 src/vrtgen/parser/model/data.py                    | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index 162a2f3..d7c30cf 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -77,7 +77,7 @@ private:
 auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type }}>
 {
     if ({{ field.name }}_enable()) {
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
         return {{ value_type }}{ m_packed.get<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>() };
 {%   else %}
         return m_packed.get<{{ field.packed_tag.position }}>();
@@ -89,7 +89,7 @@ auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type
 auto {{ class.type_ }}::{{ field.name }}(const {{ value_type }} value) -> void
 {
     {{ field.name }}_enable(true);
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
     m_packed.set<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>(static_cast<int>(value));
 {%   else %}
     m_packed.set<{{ field.packed_tag.position }}>(value);
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 5a3daf8..8cda228 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -58,7 +58,6 @@ class Trailer(StateEventIndicators):
 
     def _parse_mapping(self, mapping):
         packed_tag_pos = 8
-        greater_than_two = False
         try:
             for key,val in mapping.items():
                 if not key in [f.name for f in self.fields]:
@@ -78,21 +77,22 @@ class Trailer(StateEventIndicators):
                             member_val += 1
                         user_defined_enum = BinaryEnum(key, enum_members)
                         user_defined_enum.bits = bits
-                        if bits > 2:
-                            greater_than_two = True
                         pos = packed_tag_pos + bits - 1
                         self.subfields.append(EnumType(key, enabled=True, required=True, user_defined=True, type_=user_defined_enum, packed_tag=PackedTag(pos,bits,0,0)))
                         self.subfields.append(EnableIndicatorType(key+'_enable', bits=bits, enabled=True, required=True, user_defined=True, is_enable=True, is_enum=True, packed_tag=PackedTag(pos+12,bits,0,0)))
                         packed_tag_pos += bits
+                    else:
+                        raise ValueError('invalid user_defined trailer type: {}'.format(val))
                 else:
                     mode = value.parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
 
-            if len(self.subfields) > 4 and self.sample_frame.enabled:
-                raise ValueError('Cannot have user_defined_higher and sample_frame')
-            if greater_than_two and self.sample_frame.enabled:
-                raise ValueError('Cannot have user_defined_higher and sample_frame')
+            # sample_frame occupies the upper two of the four user-defined bits
+            if packed_tag_pos > (10 if self.sample_frame.enabled else 12):
+                if self.sample_frame.enabled:
+                    raise ValueError('Cannot have user_defined_higher and sample_frame')
+                raise ValueError('too many user_defined bits for trailer')
         except:
             raise
 
-- 
2.43.0


From 3f554e94bb3c6031a3b9955bc8e27792f11d92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:54 +0000
Subject: [PATCH 27/37] fix: discrete I/O parts have at least one bit,
 enumerations shared by both fields are declared once

---
 src/vrtgen/backend/cpp/generator.py |  5 ++++-
 src/vrtgen/parser/model/cif1.py     | 13 ++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 3dd727d..9fa5ed9 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -314,7 +314,10 @@ class CppPacket:
                 for field in self.cif1.discrete_io_64.type_.fields:
                     if isinstance(field, EnumType):
                         field.packet_name = name_to_snake(self.name)
-                        retval.append(format_enum(field.type_))
+                        enum = format_enum(field.type_)
+                        # Both discrete I/O fields may share an enumeration
+                        if enum not in retval:
+                            retval.append(enum)
         if self.trailer and len(self.trailer.enums) > 0:
             for enum in self.trailer.enums:
                 enum.packet_name = name_to_snake(self.name)
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 311e754..df5366a 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -324,7 +324,7 @@ class DiscreteIO(PackedStruct):
                 continue
             elif val == 'enable_indicator':
                 continue
-            elif isinstance(val, int):
+            elif isinstance(val, int) and val > 0:
                 continue
             elif isinstance(val, list):
                 continue
@@ -515,7 +515,18 @@ class CIF1(CIF):
             elif key == 'buffer_size' and not isinstance(val, (str, BufferSize)):
                 raise ValueError('Buffer size not of the correct type')
 
+    def _validate_enums(self, mapping):
+        # Enumerations of both discrete I/O fields are declared side by side
+        members = {}
+        for val in mapping.values():
+            if isinstance(val, DiscreteIO):
+                for enum in [f.type_ for f in val.subfields if isinstance(f, EnumType)]:
+                    names = [e.name for e in enum]
+                    if members.setdefault(enum.__name__, names) != names:
+                        raise ValueError('conflicting definitions of enumeration: ' + enum.__name__)
+
     def _parse_mapping(self, mapping):
+        self._validate_enums(mapping)
         for key,val in mapping.items():
             if key in ('sector_step_scan', 'index_list'):
                 self.__dict__[key].enabled = True
-- 
2.43.0


From e0e624423b0494dd7a81cbf41aad1d60e6a5962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 28/37] fix: declare the command transport of every controllee,
 not only those with controller identifiers

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 0919cb6..5171ac6 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -349,7 +349,7 @@ public:
 {% endif %}
 {% endfor %}
 protected:
-{% for packet in packets if (packet.is_control and packet.controller_id.enabled) %}
+{% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
-- 
2.43.0


From 47ebbddc6927f833103b4a4e8ecd754aceff50ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:40 +0000
Subject: [PATCH 29/37] fix: generate every file named on the command line;
 acknowledge names, file extensions, namespaces and name clashes in generated
 controllers

---
 src/vrtgen/backend/cpp/generator.py           | 44 ++++++++++---
 .../cpp/templates/CMakeLists.packets.jinja2   |  2 +-
 .../cpp/templates/CMakeLists.src.bin.jinja2   |  2 +-
 .../cpp/templates/controllee.hpp.jinja2       | 20 +++---
 .../cpp/templates/controllee_base.hpp.jinja2  | 65 ++++++++-----------
 .../cpp/templates/controller.hpp.jinja2       |  2 +-
 .../macros/controller/controller.jinja2       | 12 ++--
 .../backend/cpp/templates/main.cpp.jinja2     |  2 +-
 .../cpp/templates/packet_header.hpp.jinja2    |  2 +-
 src/vrtgen/main.py                            | 11 +---
 10 files changed, 87 insertions(+), 75 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 9fa5ed9..6ac23db 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -59,6 +59,7 @@ class CppPacket:
         self.helper = name + 'Helper'
         self.namespace = ''
         self.config = packet
+        self.ack_name = name + 'Ack'
         self.supports_multiple_information_codes = False
 
     @property
@@ -400,11 +401,15 @@ class CppGenerator(Generator):
 
     def end_file(self):
         os.makedirs(self.output_dir, exist_ok=True)
+        if self.information_class:
+            self.resolve_acknowledges()
         main_context = {
             'packets': self.packets,
             'type_helper': self.type_helper,
             'namespace_': self.namespace_,
-            'project_name': self.output_dir,
+            'source_ext': self.source_ext,
+            'header_ext': self.header_ext,
+            'project_name': os.path.basename(os.path.abspath(self.output_dir)),
             'project_version': '0.1.0',
             'cmd_socket': self.cmd_socket
         }
@@ -427,7 +432,7 @@ class CppGenerator(Generator):
                 shutil.copy2(yaml, self.yaml_dir)
 
             template = self.env.get_template('main.cpp.jinja2')
-            with open(os.path.join(f'{self.src_dir}/bin', 'main.cpp'), 'w') as fp:
+            with open(os.path.join(f'{self.src_dir}/bin', 'main.' + self.source_ext), 'w') as fp:
                 fp.write(template.render(main_context))
 
             template = self.env.get_template('CMakeLists.txt.jinja2')
@@ -477,6 +482,7 @@ class CppGenerator(Generator):
             context['information_class'] = self.information_class[1]
             context['controller_name'] = 'Controller' # self.information_class[0] + 'Controller'
             context['cmd_socket'] = self.cmd_socket
+            context['header_ext'] = self.header_ext
             template = self.env.get_template('controller.hpp.jinja2')
             self.controller_file = '{}.{}'.format(context['controller_name'], self.header_ext)
             with open(os.path.join(self.include_dir, self.controller_file), 'w') as fp:
@@ -495,17 +501,39 @@ class CppGenerator(Generator):
                 fp.write(template.render(context))
 
 
+    def resolve_acknowledges(self):
+        # Controllers and controllees refer to the acknowledge packets of their control packets
+        id_formats = set()
+        for control in self.packets:
+            if not control.is_control:
+                continue
+            acks = [packet for packet in self.packets if packet.is_ack and name_to_identifier(packet.config.responds_to) == control.name]
+            if acks:
+                control.ack_name = acks[0].name
+            elif control.cam.req_v.enabled or control.cam.req_x.enabled or control.cam.req_s.enabled:
+                raise SystemExit(f'control packet {control.name} requests acknowledges but no acknowledge packet responds to it')
+            if control.controller_id.enabled:
+                id_formats.add(control.controller_id.format)
+        if len(id_formats) > 1:
+            raise SystemExit('the control packets of an information class must use one controller_id format')
+
     def generate_packet(self, name, packet):
         # Loop over existing packets to check for duplicates
         for existing_packet in self.packets:
             if existing_packet.name == name:
                 logging.info('Duplicate packet name detected: %s', name)
-                if existing_packet.config.class_id.information_code.value == packet.class_id.information_code.value:
-                    logging.error('Attempt to add duplicate packet type %s to Information Class %s', name, packet.class_id.information_code.value)
-                    raise SystemExit()
-                else: # Set flag and do not add packet
-                    existing_packet.supports_multiple_information_codes = True
-                    return
+                code = packet.class_id.information_code.value
+                if existing_packet.config.class_id.information_code.value == code:
+                    raise SystemExit(f'Attempt to add duplicate packet type {name} to Information Class {code}')
+                # Only the information code may differ
+                existing = copy.deepcopy(existing_packet.config)
+                existing.class_id.information_code.value = code
+                if existing != packet:
+                    raise SystemExit(f'Packet type {name} is defined more than once')
+                existing_packet.supports_multiple_information_codes = True
+                return
+            if name_to_snake(existing_packet.name) == name_to_snake(name):
+                raise SystemExit(f'Packet types {existing_packet.name} and {name} share the file name {name_to_snake(name)}')
         model = CppPacket(name, packet)
         self.packets.append(copy.deepcopy(model))
 
diff --git a/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2 b/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
index 638df95..145c51a 100644
--- a/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
+++ b/src/vrtgen/backend/cpp/templates/CMakeLists.packets.jinja2
@@ -1,6 +1,6 @@
 add_library(packetlib
 {% for packet in packets %}
-    {{ packet.name | to_snake }}.cpp
+    {{ packet.name | to_snake }}.{{ source_ext }}
 {% endfor %}
 )
 target_include_directories(packetlib PUBLIC
diff --git a/src/vrtgen/backend/cpp/templates/CMakeLists.src.bin.jinja2 b/src/vrtgen/backend/cpp/templates/CMakeLists.src.bin.jinja2
index 461f3e0..a4635bd 100644
--- a/src/vrtgen/backend/cpp/templates/CMakeLists.src.bin.jinja2
+++ b/src/vrtgen/backend/cpp/templates/CMakeLists.src.bin.jinja2
@@ -1,4 +1,4 @@
-add_executable({{ project_name }} main.cpp)
+add_executable({{ project_name }} main.{{ source_ext }})
 target_link_libraries({{ project_name }} PUBLIC packetlib)
 target_include_directories({{ project_name }} PUBLIC
     ${CMAKE_SOURCE_DIR}/include/packets
diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index ca47a3f..516f115 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -27,9 +27,9 @@ virtual void send_{{ packet.name | to_snake }}({{ packet.name }}& value)
 
 {%- macro handle_packet_callback(packet) %}
 {% if packet.cam.req_v.enabled %}
-auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX override
+auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX override
 {
-    auto ack = {{ packet.name }}AckVX{};
+    auto ack = {{ packet.ack_name }}VX{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return ack;
@@ -38,19 +38,19 @@ auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ pack
 {% endif %}
 {% if packet.cam.req_x.enabled %}
 {%   if packet.cam.req_s.enabled %}
-auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.name }}AckVX, {{ packet.name }}AckS> override
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.ack_name }}VX, {{ packet.ack_name }}S> override
 {
-    auto ack_x = {{ packet.name }}AckVX{};
-    auto ack_s = {{ packet.name }}AckS{};
+    auto ack_x = {{ packet.ack_name }}VX{};
+    auto ack_s = {{ packet.ack_name }}S{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return { ack_x, ack_s };
 }
 
 {%   else %}
-auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX override
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX override
 {
-    auto ack = {{ packet.name }}AckVX{};
+    auto ack = {{ packet.ack_name }}VX{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return ack;
@@ -59,9 +59,9 @@ auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packe
 {%   endif %}
 {% endif %}
 {% if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
-auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name}}AckS override
+auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}S override
 {
-    auto ack = {{ packet.name }}AckS{};
+    auto ack = {{ packet.ack_name }}S{};
     // AUTO-GENERATED FUNCTION STUB
     // IMPLEMENT PACKET HANDLING FUNCTIONALITY HERE
     return ack;
@@ -73,7 +73,7 @@ auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packe
 {%- macro define_controllee(class_name, base_class_name) %}
 #pragma once
 
-#include <{{ base_class_name }}.hpp>
+#include <{{ base_class_name }}.{{ header_ext }}>
 {% if namespace_ %}
 
 namespace {{ namespace_ }}::controllee {
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 5171ac6..cb40a8e 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -141,6 +141,25 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 }
 {% endmacro %}
 
+{%- macro copy_identifiers(packet, ack) %}
+{% if packet.stream_id.user_defined %}
+{
+    std::array<uint8_t, sizeof(uint32_t)> stream_id;
+    packet.stream_id().pack_into(stream_id.data());
+    {{ ack }}.stream_id().unpack_from(stream_id.data());
+}
+{% else %}
+{{ ack }}.stream_id(packet.stream_id());
+{% endif %}
+{{ ack }}.message_id(packet.message_id());
+{% if packet.controllee_id.enabled %}
+{{ ack }}.controllee_id(packet.controllee_id());
+{% endif %}
+{% if packet.controller_id.enabled %}
+{{ ack }}.controller_id(packet.controller_id());
+{% endif %}
+{% endmacro %}
+
 {%- macro define_controllee_base(class_name) %}
 #pragma once
 
@@ -160,7 +179,7 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 {% endif %}
 
 {% for packet in packets if packet.is_command %}
-#include <{{ packet.name | to_snake }}.hpp>
+#include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
@@ -332,17 +351,17 @@ public:
 
 {%   endif %}
 {%   if packet.cam.req_v.enabled %}
-    virtual auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX = 0;
+    virtual auto validate_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX = 0;
 {%   endif %}
 {%   if packet.cam.req_x.enabled %}
 {%     if packet.cam.req_s.enabled %}
-    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.name }}AckVX, {{ packet.name }}AckS> = 0;
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> std::tuple<{{ packet.ack_name }}VX, {{ packet.ack_name }}S> = 0;
 {%     else %}
-    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckVX = 0;
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}VX = 0;
 {%     endif %}
 {%   endif %}
 {%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
-    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.name }}AckS = 0;
+    virtual auto execute_{{ packet.name | to_snake }}({{ packet.name }}& packet) -> {{ packet.ack_name }}S = 0;
 {%   endif %}
 {% if loop.last %}
 
@@ -407,14 +426,7 @@ private:
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
-                    ack_v.stream_id(packet.stream_id());
-                    ack_v.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_v.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_v.controller_id(packet.controller_id());
-{%     endif %}
+                    {{ copy_identifiers(packet, 'ack_v') | indent(20) | trim }}
                     auto packed_data = ack_v.data();
 {%     if cmd_socket == 'nats' %}
                     if (auto reply = message->reply_subject(); !reply.empty()) {
@@ -435,14 +447,7 @@ private:
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
                     ack_x.ack_x(true);
-                    ack_x.stream_id(packet.stream_id());
-                    ack_x.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_x.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_x.controller_id(packet.controller_id());
-{%     endif %}
+                    {{ copy_identifiers(packet, 'ack_x') | indent(20) | trim }}
                     auto packed_data = ack_x.data();
 {%     if cmd_socket == 'nats' %}
                     if (auto reply = message->reply_subject(); !reply.empty()) {
@@ -455,14 +460,7 @@ private:
 {%     endif %}
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
-                        ack_s.stream_id(packet.stream_id());
-                        ack_s.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                        ack_s.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                        ack_s.controller_id(packet.controller_id());
-{%     endif %}
+                        {{ copy_identifiers(packet, 'ack_s') | indent(24) | trim }}
                         auto packed_data = ack_s.data();
 {%     if cmd_socket == 'nats' %}
                         if (auto reply = message->reply_subject(); !reply.empty()) {
@@ -480,14 +478,7 @@ private:
 {%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
-                    ack_s.stream_id(packet.stream_id());
-                    ack_s.message_id(packet.message_id());
-{%     if packet.controllee_id.enabled %}
-                    ack_s.controllee_id(packet.controllee_id());
-{%     endif %}
-{%     if packet.controller_id.enabled %}
-                    ack_s.controller_id(packet.controller_id());
-{%     endif %}
+                    {{ copy_identifiers(packet, 'ack_s') | indent(20) | trim }}
                     auto packed_data = ack_s.data();
 {%     if cmd_socket == 'nats' %}
                     if (auto reply = message->reply_subject(); !reply.empty()) {
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 519865d..f7103d6 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -25,7 +25,7 @@
 #include <vrtgen/socket.hpp>
 {% endif %}
 {% for packet in packets %}
-#include <{{ packet.name | to_snake }}.hpp>
+#include <{{ packet.name | to_snake }}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index b28b60d..df42a70 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -70,11 +70,11 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
     auto acks = std::tuple<
 {%   endif %}
 {%   if ack_t == 'ack_v'%}
-        std::optional<{{ packet.name }}AckVX>{{ ',' if not loop.last }}
+        std::optional<{{ packet.ack_name }}VX>{{ ',' if not loop.last }}
 {%   elif ack_t == 'ack_x' %}
-        std::optional<{{ packet.name }}AckVX>{{ ',' if not loop.last }}
+        std::optional<{{ packet.ack_name }}VX>{{ ',' if not loop.last }}
 {%   elif ack_t == 'ack_s' %}
-        std::optional<{{ packet.name }}AckS>
+        std::optional<{{ packet.ack_name }}S>
 {%   endif %}
 {%   if loop.last %}
     >{};
@@ -93,11 +93,11 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 {% for req_t in req_list %}
     if (packet.cam().{{ req_t }}()) {
 {%   if req_t == 'req_v' %}
-        ack_v = {{ packet.name }}AckVX{};
+        ack_v = {{ packet.ack_name }}VX{};
 {%   elif req_t == 'req_x' %}
-        ack_x = {{ packet.name }}AckVX{};
+        ack_x = {{ packet.ack_name }}VX{};
 {%   elif req_t == 'req_s' %}
-        ack_s = {{ packet.name }}AckS{};
+        ack_s = {{ packet.ack_name }}S{};
 {%   endif %}
     }
 {% endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
index c83f8b4..8211f0d 100644
--- a/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/main.cpp.jinja2
@@ -17,7 +17,7 @@
  * along with this program.  If not, see http://www.gnu.org/licenses/.
 #*/
 {% for packet in packets %}
-#include <{{packet.name | to_snake}}.hpp>
+#include <{{packet.name | to_snake}}.{{ header_ext }}>
 {% endfor %}
 {% if namespace_ %}
 
diff --git a/src/vrtgen/backend/cpp/templates/packet_header.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet_header.hpp.jinja2
index d574988..b6b0c19 100644
--- a/src/vrtgen/backend/cpp/templates/packet_header.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet_header.hpp.jinja2
@@ -19,5 +19,5 @@
 #pragma once
 
 {% for packet in packets %}
-#include "{{packet.name | to_snake}}.hpp"
+#include "{{packet.name | to_snake}}.{{ header_ext }}"
 {% endfor %}
diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 9ff3fa3..ec1ab60 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -57,13 +57,6 @@ def main():
     )
     arg_parser.add_argument('--version', action='version', version='%(prog)s '+__version__)
     sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR')
-    arg_parser.add_argument(
-        'filename',
-        nargs='+',
-        help='VRT YAML definition file',
-        metavar='FILENAME'
-    )
-
     def _add_backend_parser(name, version, generator):
         backend_parser = sub_parser.add_parser(
             name,
@@ -74,7 +67,7 @@ def main():
         )
         backend_parser.add_argument(
             'filename',
-            nargs='*',
+            nargs='+',
             help='VRT YAML definition file',
             metavar='FILENAME'
         )
@@ -105,7 +98,7 @@ def main():
     try:
         generator = generators[args.generator]()
     except KeyError:
-        raise SystemExit("invalid backend '"+args.backend+"'")
+        raise SystemExit("invalid backend '"+str(args.generator)+"'")
 
     if args.project:
         if hasattr(generator, 'project'):
-- 
2.43.0


From 93a82bf27b4971412625ddf2ce2268c55bc6aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:35 +0000
Subject: [PATCH 30/37] fix: NATS client waits on the right queue and tears
 down safely

Inbox waiters locked the mutex of the other queue; shutdown could lose the
wakeup of a waiter, ignored timed waiters and inbox waiters, and freed the
client while waiters and library callbacks were still using it; the reply
subscription and replaced subscriptions and connections were never destroyed;
a failed new_inbox left a dangling subscription; url() returned the whole
buffer; a copied message was destroyed twice.
---
 include/vrtgen/nats/client.hpp  | 137 ++++++++++++++++++++++++++------
 include/vrtgen/nats/message.hpp |   4 +
 2 files changed, 116 insertions(+), 25 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index b1eb393..df5bc51 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -30,6 +30,7 @@
 #include <condition_variable>
 #include <thread>
 #include <random>
+#include <span>
 #include <nats/nats.h>
 
 #include "message.hpp"
@@ -60,14 +61,12 @@ public:
      */
     ~client()
     {
-        m_done = true;
-        stop();
-        if (m_sub != nullptr) {
-            natsSubscription_Destroy(m_sub);
-        }
-        if (m_connection != nullptr) {
-            natsConnection_Destroy(m_connection);
-        }
+        release_waiters(m_msg_mtx, m_msg_cv, m_msg_waiters);
+        release_waiters(m_inbox_msg_mtx, m_inbox_msg_cv, m_inbox_msg_waiters);
+        disconnect();
+        // The library may still be running a callback of a destroyed subscription
+        std::unique_lock<std::mutex> lock(m_active_mtx);
+        m_active_cv.wait(lock, [this]{ return m_active == 0; });
     }
 
     /**
@@ -85,7 +84,13 @@ public:
      */
     auto connect(const std::string& url) -> natsStatus
     {
-        return natsConnection_ConnectTo(&m_connection, url.c_str());
+        natsConnection* connection{ nullptr };
+        auto res = natsConnection_ConnectTo(&connection, url.c_str());
+        if (res == NATS_OK) {
+            disconnect();
+            m_connection = connection;
+        }
+        return res;
     }
 
     /**
@@ -98,7 +103,7 @@ public:
         std::array<char, 256> url_str;
         auto res = natsConnection_GetConnectedUrl(m_connection, url_str.data(), sizeof(url_str));
         if (res == NATS_OK) {
-            retval = std::string{ url_str.begin(), url_str.end() };
+            retval = std::string{ url_str.data() };
         }
         return retval;
     }
@@ -127,7 +132,8 @@ public:
         if (subject.empty()) {
             return NATS_INVALID_SUBJECT;
         }
-        m_is_sync = create_sync;
+        stop();
+        destroy(m_sub);
         auto res = NATS_OK;
         if (create_sync) {
             res = natsConnection_SubscribeSync(&m_sub, m_connection, subject.c_str());
@@ -142,6 +148,9 @@ public:
                 &client::on_msg,
                 this
             );
+            if (res == NATS_OK) {
+                track(m_sub);
+            }
         }
         return res;
     }
@@ -161,7 +170,8 @@ public:
         if (queue_group.empty()) {
             return NATS_INVALID_QUEUE_NAME;
         }
-        m_is_sync = create_sync;
+        stop();
+        destroy(m_sub);
         auto res = NATS_OK;
         if (create_sync) {
             res = natsConnection_QueueSubscribeSync(
@@ -181,6 +191,9 @@ public:
                 &client::on_msg,
                 this
             );
+            if (res == NATS_OK) {
+                track(m_sub);
+            }
         }
         return res;
     }
@@ -208,10 +221,11 @@ public:
     {
         using namespace std::chrono_literals;
         std::unique_lock<std::mutex> lock(m_msg_mtx);
+        const auto waiter = waiter_count{ m_msg_waiters, m_msg_cv };
         if (timeout == BLOCKING) {
-            m_msg_cv.wait(lock, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
+            m_msg_cv.wait(lock, [this]{ return !m_msg_queue.empty() || m_done; });
         } else {
-            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running); });
+            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || m_done; });
         }
         if (!m_msg_queue.empty()) {
             auto retval = std::move(m_msg_queue.front());
@@ -241,9 +255,7 @@ public:
      */
     auto new_inbox() -> natsStatus
     {
-        if (m_reply_sub != nullptr) {
-            natsSubscription_Destroy(m_reply_sub);
-        }
+        destroy(m_reply_sub);
 
         // Generate a unique subject
         auto inbox_str = std::string{ "INBOX_" };
@@ -252,13 +264,17 @@ public:
             inbox_str += DIGITS.at(random_index);
         }
 
-        return natsConnection_Subscribe(
+        auto res = natsConnection_Subscribe(
             &m_reply_sub,
             m_connection,
             inbox_str.c_str(),
             &client::on_reply_msg,
             this
         );
+        if (res == NATS_OK) {
+            track(m_reply_sub);
+        }
+        return res;
     }
 
     /**
@@ -268,11 +284,12 @@ public:
     auto next_inbox_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
         using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
+        std::unique_lock<std::mutex> lock(m_inbox_msg_mtx);
+        const auto waiter = waiter_count{ m_inbox_msg_waiters, m_inbox_msg_cv };
         if (timeout == BLOCKING) {
-            m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
+            m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || m_done; });
         } else {
-            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running); });
+            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || m_done; });
         }
         if (!m_inbox_msg_queue.empty()) {
             auto retval = std::move(m_inbox_msg_queue.front());
@@ -287,18 +304,23 @@ private:
     natsSubscription* m_sub{ nullptr };
     natsSubscription* m_reply_sub{ nullptr };
     // Sync
-    bool m_is_sync{ false };
     std::atomic_bool m_running{ false };
-    bool m_done{ false };
+    std::atomic_bool m_done{ false };
     std::thread m_thread;
     // Subscription
     std::queue<message_ptr> m_msg_queue;
     std::mutex m_msg_mtx;
     std::condition_variable m_msg_cv;
+    std::size_t m_msg_waiters{ 0 };
     // Reply subscription
     std::queue<message_ptr> m_inbox_msg_queue;
     std::mutex m_inbox_msg_mtx;
     std::condition_variable m_inbox_msg_cv;
+    std::size_t m_inbox_msg_waiters{ 0 };
+    // Asynchronous subscriptions whose callbacks may still run
+    std::size_t m_active{ 0 };
+    std::mutex m_active_mtx;
+    std::condition_variable m_active_cv;
     const std::size_t INBOX_LEN{ 32 };
     inline static const std::string DIGITS{
         "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
@@ -312,6 +334,72 @@ private:
     };
     inline static std::uniform_int_distribution m_random{ std::size_t{ 0 }, DIGITS.size()-1 };
     
+    /**
+     * @brief Counts a thread waiting for a message. The destructor waits until all have left.
+     */
+    struct waiter_count
+    {
+        waiter_count(std::size_t& count, std::condition_variable& cv) : m_count(count), m_cv(cv)
+        {
+            ++m_count;
+        }
+        ~waiter_count()
+        {
+            --m_count;
+            // Wakes the destructor, and passes on a notification this thread did not use
+            m_cv.notify_all();
+        }
+        std::size_t& m_count;
+        std::condition_variable& m_cv;
+    };
+
+    auto release_waiters(std::mutex& mtx, std::condition_variable& cv, const std::size_t& waiters) -> void
+    {
+        std::unique_lock<std::mutex> lock(mtx);
+        m_done = true;
+        cv.notify_all();
+        cv.wait(lock, [&waiters]{ return waiters == 0; });
+    }
+
+    auto disconnect() -> void
+    {
+        stop();
+        destroy(m_sub);
+        destroy(m_reply_sub);
+        if (m_connection != nullptr) {
+            natsConnection_Destroy(m_connection);
+            m_connection = nullptr;
+        }
+    }
+
+    auto destroy(natsSubscription*& sub) -> void
+    {
+        if (sub != nullptr) {
+            natsSubscription_Destroy(sub);
+            sub = nullptr;
+        }
+    }
+
+    auto track(natsSubscription* sub) -> void
+    {
+        {
+            const auto lock = std::lock_guard<std::mutex>{ m_active_mtx };
+            ++m_active;
+        }
+        if (natsSubscription_SetOnCompleteCB(sub, &client::on_complete, this) != NATS_OK) {
+            on_complete(this);
+        }
+    }
+
+    static
+    auto on_complete(void* ctx) -> void
+    {
+        auto self = static_cast<client*>(ctx);
+        const auto lock = std::lock_guard<std::mutex>{ self->m_active_mtx };
+        --self->m_active;
+        self->m_active_cv.notify_all();
+    }
+
     auto start() -> void
     {
         if (!m_running) {
@@ -323,7 +411,6 @@ private:
     auto stop() -> void
     {
         m_running = false;
-        m_msg_cv.notify_all();
         if (m_thread.joinable()) {
             m_thread.join();
         }
@@ -331,7 +418,7 @@ private:
 
     auto thread_func() -> void
     {
-        while (m_is_sync && m_running) {
+        while (m_running) {
             if (m_sub != nullptr) {
                 natsMsg* msg{ nullptr };
                 auto res = natsSubscription_NextMsg(&msg, m_sub, 1000);
diff --git a/include/vrtgen/nats/message.hpp b/include/vrtgen/nats/message.hpp
index c780670..6361e7e 100644
--- a/include/vrtgen/nats/message.hpp
+++ b/include/vrtgen/nats/message.hpp
@@ -50,6 +50,10 @@ public:
         }
     }
 
+    // The NATS message has a single owner
+    message(const message&) = delete;
+    auto operator=(const message&) -> message& = delete;
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From 0a3b6046474b660c07dace97a7525674b20fc001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 31/37] fix: IPv6 socket endpoints did not compile

---
 include/vrtgen/socket/socket_endpoint.hpp | 49 +++++++++++++++++++++--
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..f2a1a61 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -22,6 +22,10 @@
 
 #include <functional>
 #include <algorithm>
+#include <cstring>
+#include <iostream>
+#include <stdexcept>
+#include <string>
 #include <arpa/inet.h>
 
 namespace vrtgen {
@@ -62,6 +66,24 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    /**
+     * @brief Set the address family of the given sockaddr object
+     * @param sockaddr The sockaddr object to set the address family of
+     */
+    static void family(sockaddr_type& sockaddr)
+    {
+        sockaddr.sin_family = AF_INET;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Reference to the port (in network byte order) of the given sockaddr
+     */
+    template <typename T>
+    static auto& port(T& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +115,24 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    /**
+     * @brief Set the address family of the given sockaddr object
+     * @param sockaddr The sockaddr object to set the address family of
+     */
+    static void family(sockaddr_type& sockaddr)
+    {
+        sockaddr.sin6_family = AF_INET6;
+    }
+    /**
+     * @brief Extract the port member from the given sockaddr object
+     * @param sockaddr The sockaddr object to get the port from
+     * @return Reference to the port (in network byte order) of the given sockaddr
+     */
+    template <typename T>
+    static auto& port(T& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -108,6 +148,7 @@ class socket_endpoint
 public:
     using sockaddr_type = typename endpoint::detail::endpoint_traits<domain_type>::sockaddr_type;
     using address_type = typename endpoint::detail::endpoint_traits<domain_type>::address_type;
+    using traits_type = endpoint::detail::endpoint_traits<domain_type>;
 
     /**
      * @brief Default constructor.
@@ -138,8 +179,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        traits_type::family(m_sockaddr);
+        traits_type::port(m_sockaddr) = htons(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +236,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+        return ntohs(traits_type::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +245,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        traits_type::port(m_sockaddr) = htons(port);
     }
 
     /**
-- 
2.43.0


From 3d5c2f2c68dc9bf29a0e40c0b3ef39d637d6f507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 32/37] fix: sockets close each descriptor once

close() did not forget the descriptor, which was closed again on destruction;
copies shared it; accepted connections were never closed; writing to a closed
connection raised SIGPIPE.
---
 include/vrtgen/socket/socket_base.hpp | 26 ++++++++++++++++++++++----
 include/vrtgen/socket/tcp.hpp         | 19 ++++++++++++++++---
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..c84cf68 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -25,6 +25,8 @@
 #include <netinet/ip.h>
 #include <arpa/inet.h>
 #include <cstring>
+#include <iostream>
+#include <string>
 #include <stdexcept>
 #include <sys/time.h>
 #include <sstream>
@@ -51,15 +53,19 @@ public:
      */
     virtual ~socket_base()
     {
-        close();
+        socket_base::close();
     }
 
+    // The descriptor has a single owner
+    socket_base(const socket_base&) = delete;
+    socket_base& operator=(const socket_base&) = delete;
+
     /**
      * @brief Close the socket
      */
-    void close()
+    virtual void close()
     {
-        ::close(m_socket);
+        close_descriptor(m_socket);
     }
 
     /**
@@ -221,7 +227,19 @@ protected:
         }
         this->timeout(TIMEOUT);
     }
-    
+
+    /**
+     * @brief Close a descriptor if it is open
+     * @param descriptor Descriptor to close, set to INVALID_SOCKET
+     */
+    static void close_descriptor(int& descriptor)
+    {
+        if (descriptor != INVALID_SOCKET) {
+            ::close(descriptor);
+            descriptor = INVALID_SOCKET;
+        }
+    }
+
     int m_socket{ INVALID_SOCKET }; /**< Socket file descriptor */
     int m_domain; /**< Communication domain */
     int m_type; /**< Socket type */
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..7bc0ed9 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -53,7 +53,19 @@ public:
     /**
      * @brief Destructor
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        this->close_descriptor(m_connected_socket);
+    }
+
+    /**
+     * @brief Close the socket and its accepted connection
+     */
+    void close() override
+    {
+        this->close_descriptor(m_connected_socket);
+        base_type::close();
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +93,7 @@ public:
         if (res < 0) {
             return false;
         }
+        this->close_descriptor(m_connected_socket);
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -95,9 +108,9 @@ public:
     ssize_t write_some(const void* data, const size_t len)
     {
         if (m_is_connected()) {
-            return write(m_connected_socket, data, len);
+            return ::send(m_connected_socket, data, len, MSG_NOSIGNAL);
         }
-        return write(this->m_socket, data, len);
+        return ::send(this->m_socket, data, len, MSG_NOSIGNAL);
     }
 
     /**
-- 
2.43.0


From a666bc8f7cefcb99a2e34d22ccdf01a34699f08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 33/37] fix: sending a command writes all of it, reads whole
 acknowledges and reports every failure

Short writes lost the rest of a command and write errors were ignored; a
TCP acknowledge was taken from whatever one read returned, so segmented or
coalesced replies were rejected or read beyond what was received; a UDP
reply changed the socket's destination; a failed receive was decoded as a
packet of huge size; late acknowledges of an earlier command were taken
for the current one's; and a failed publish went unnoticed.
---
 include/vrtgen/nats/utility.hpp       |  30 ++--
 include/vrtgen/socket/socket_base.hpp |  36 +++++
 include/vrtgen/socket/tcp.hpp         |  10 ++
 include/vrtgen/utility.hpp            | 209 ++++++++++++++++++++------
 4 files changed, 224 insertions(+), 61 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index 93b94cb..d961c85 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -19,10 +19,15 @@
 
 #pragma once
 
+#include <algorithm>
 #include <string>
 #include <chrono>
+#include <memory>
+#include <span>
 #include <stdexcept>
 
+#include <vrtgen/utility.hpp>
+
 #include "client.hpp"
 
 namespace vrtgen {
@@ -31,23 +36,22 @@ template <class CtrlT, class ...AckT>
 auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT& packet, AckT&... acks)
 {
     // Send packet
-    client.publish(subject, packet.data(), client.inbox());
+    if (client.publish(subject, packet.data(), client.inbox()) != NATS_OK) {
+        throw std::runtime_error("failed to publish packet");
+    }
     // Receive acks on unique reply subject
-    const auto recv_ack = [&client](auto& ack)
+    auto message = std::unique_ptr<vrtgen::nats::message>{};
+    const auto receive = [&client, &message](const auto deadline)
     {
-        if (!ack.has_value()) { return; }
-        using namespace std::chrono_literals;
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (auto msg = client.next_inbox_msg(2s)) {
-            if (auto match_err = ack_t::match(msg->data())) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ msg->data() });
-        } else {
+        using namespace std::chrono;
+        const auto left = ceil<milliseconds>(deadline - steady_clock::now());
+        message = client.next_inbox_msg(std::max(left, milliseconds{ 0 }));
+        if (!message) {
             throw std::runtime_error("timed out waiting for acknowledgement packet");
         }
+        return std::span<const uint8_t>{ message->data() };
     };
-    (recv_ack(acks), ...);
+    receive_acks(packet, receive, acks...);
 }
 
-} // end namespace vrtgen
\ No newline at end of file
+} // end namespace vrtgen
diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index c84cf68..3968911 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -22,8 +22,11 @@
 
 #include <sys/socket.h>
 #include <unistd.h>
+#include <poll.h>
 #include <netinet/ip.h>
 #include <arpa/inet.h>
+#include <cerrno>
+#include <chrono>
 #include <cstring>
 #include <iostream>
 #include <string>
@@ -205,6 +208,16 @@ public:
         setsockopt(m_socket, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
     }
 
+    /**
+     * @brief Wait until there is something to receive
+     * @param deadline Latest time to wait for
+     * @return true if receiving does not block, false if the deadline has passed
+     */
+    bool wait_readable(const std::chrono::steady_clock::time_point deadline) const
+    {
+        return wait_readable(m_socket, deadline);
+    }
+
 protected:
     static constexpr int INVALID_SOCKET = -1;
     static constexpr int STANDARD_PROTOCOL = 0;
@@ -240,6 +253,29 @@ protected:
         }
     }
 
+    /**
+     * @brief Wait until there is something to receive on a descriptor
+     * @param descriptor Descriptor to wait for
+     * @param deadline Latest time to wait for
+     * @return true if receiving does not block, false if the deadline has passed
+     */
+    static bool wait_readable(const int descriptor, const std::chrono::steady_clock::time_point deadline)
+    {
+        using namespace std::chrono;
+        while (true) {
+            auto left = ceil<milliseconds>(deadline - steady_clock::now());
+            if (left.count() < 0) {
+                left = milliseconds{ 0 };
+            }
+            auto descriptors = pollfd{ descriptor, POLLIN, 0 };
+            auto res = ::poll(&descriptors, 1, static_cast<int>(left.count()));
+            if (res < 0 && errno == EINTR) {
+                continue;
+            }
+            return res != 0;
+        }
+    }
+
     int m_socket{ INVALID_SOCKET }; /**< Socket file descriptor */
     int m_domain; /**< Communication domain */
     int m_type; /**< Socket type */
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 7bc0ed9..98ba278 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -127,6 +127,16 @@ public:
         return read(this->m_socket, data, len);
     }
 
+    /**
+     * @brief Wait until there is something to read
+     * @param deadline Latest time to wait for
+     * @return true if reading does not block, false if the deadline has passed
+     */
+    bool wait_readable(const std::chrono::steady_clock::time_point deadline) const
+    {
+        return base_type::wait_readable(m_is_connected() ? m_connected_socket : this->m_socket, deadline);
+    }
+
 private:
     int m_connected_socket = this->INVALID_SOCKET;
 
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 542c85e..c6bf77d 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -22,10 +22,15 @@
 #include <string>
 #include <stdexcept>
 #include <array>
+#include <chrono>
+#include <concepts>
+#include <cstdint>
 #include <future>
 #include <sstream>
 #include <utility>
 #include <span>
+#include <type_traits>
+#include <vector>
 #include <vrtgen/socket.hpp>
 
 namespace vrtgen {
@@ -58,74 +63,182 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
     return true;
 }
 
+/**
+ * @class stream_packet
+ * @brief A packet received from a stream, which neither keeps packets apart nor together
+ */
+class stream_packet
+{
+public:
+    /**
+     * @brief Read more of the packet, but nothing of what follows it
+     * @param socket Stream socket to read from
+     * @return Number of bytes read on success, 0 at the end of the stream, otherwise -1 for error
+     */
+    template <class SockT>
+    auto read_some(SockT& socket) -> ssize_t
+    {
+        const auto received = m_data.size();
+        const auto expected = m_expected();
+        m_data.resize(expected);
+        const auto length = socket.read_some(m_data.data() + received, expected - received);
+        m_data.resize(received + (length > 0 ? static_cast<std::size_t>(length) : 0));
+        return length;
+    }
+
+    /**
+     * @brief Determine whether all of the packet has been read
+     */
+    auto complete() const -> bool
+    {
+        return m_data.size() >= HEADER_BYTES && m_data.size() == m_expected();
+    }
+
+    /**
+     * @brief Determine whether nothing of the packet has been read
+     */
+    auto empty() const -> bool
+    {
+        return m_data.empty();
+    }
+
+    /**
+     * @brief Forget the packet to read the next one
+     */
+    auto clear() -> void
+    {
+        m_data.clear();
+    }
+
+    /**
+     * @brief Get the bytes read
+     */
+    auto data() const -> std::span<const uint8_t>
+    {
+        return m_data;
+    }
+
+private:
+    static constexpr std::size_t HEADER_BYTES = 4;
+
+    std::vector<uint8_t> m_data;
+
+    auto m_expected() const -> std::size_t
+    {
+        if (m_data.size() < HEADER_BYTES) {
+            return HEADER_BYTES;
+        }
+        const auto words = static_cast<std::size_t>(m_data[2] << 8 | m_data[3]);
+        return words > 1 ? words * sizeof(uint32_t) : HEADER_BYTES;
+    }
+};
+
+/**
+ * @brief Write all data to a stream socket
+ * @return true if everything has been written, otherwise false
+ */
+template <class SockT>
+inline auto write_all(SockT& socket, std::span<const uint8_t> data) -> bool
+{
+    while (!data.empty()) {
+        auto length = socket.write_some(data.data(), data.size());
+        if (length < 0) {
+            return false;
+        }
+        data = data.subspan(static_cast<std::size_t>(length));
+    }
+    return true;
+}
+
+/**
+ * @brief Wait for every requested acknowledgement
+ * @param packet Command that has been sent
+ * @param receive Function that receives one message before a deadline and throws if none arrives
+ * @param acks Acknowledgements, of which those with a value are requested
+ */
+template <class CtrlT, class ReceiveT, class ...AckT>
+void receive_acks(CtrlT& packet, ReceiveT&& receive, AckT&... acks)
+{
+    const auto recv_ack = [&packet, &receive](auto& ack)
+    {
+        if (!ack.has_value()) { return; }
+        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
+        const auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(2);
+        while (true) {
+            auto&& message = receive(deadline);
+            if (auto match_err = ack_t::match(message)) {
+                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+            }
+            auto received = ack_t{ message };
+            // Ignore what comes late for an earlier command
+            if (received.message_id() == packet.message_id()) {
+                ack = std::move(received);
+                return;
+            }
+        }
+    };
+    (recv_ack(acks), ...);
+}
+
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
-    const auto recv_ack = [&socket](auto& ack)
+    auto sent = socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
+    if (sent != static_cast<ssize_t>(packed_data.size())) {
+        throw std::runtime_error("failed to send packet");
+    }
+    auto message = std::vector<uint8_t>(65536);
+    const auto receive = [&socket, &message](const auto deadline)
     {
-        if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        std::array<uint8_t, 65536> message{ 0 };
-        std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.receive_from(message.data(), message.size(), socket.dst());
-        });
-        auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
-        if (status == std::future_status::timeout) {
+        if (!socket.wait_readable(deadline)) {
             throw std::runtime_error("timed out waiting for acknowledgement");
         }
-        auto reply_length = recv_from_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        auto sender = typename SockT::endpoint_type{};
+        auto length = socket.receive_from(message.data(), message.size(), sender);
+        if (length < 0) {
+            throw std::runtime_error("failed to receive acknowledgement");
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
+        return std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(length) };
     };
-    (recv_ack(acks), ...);
+    receive_acks(packet, receive, acks...);
 }
 
 template <class SockT, class CtrlT, class ...AckT>
 requires (std::same_as<SockT, socket::tcp::v4>)
 auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
-    auto packed_data = packet.data();
-    socket.write_some(packed_data.data(), packed_data.size());
-    auto message = std::array<uint8_t, 65536>{ 0 };
-    auto reply_length = 0;
-    auto read_idx = std::size_t{};
-    const auto recv_ack = [&message, &socket, &reply_length, &read_idx](auto& ack)
+    if (!write_all(socket, packet.data())) {
+        throw std::runtime_error("failed to send packet");
+    }
+    auto message = stream_packet{};
+    const auto fail = [&socket, &message](const std::string& reason)
     {
-        if (!ack.has_value()) { return; }
-        using ack_t = typename std::remove_reference_t<decltype(ack)>::value_type;
-        if (reply_length > 0) {
-            auto span = std::span<const uint8_t>{ message.data()+read_idx, static_cast<std::size_t>(reply_length) };
-            if (auto match_err = ack_t::match(span)) {
-                throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
-            }
-            ack = std::move(ack_t{ span });
-            reply_length -= ack->size();
-            read_idx += ack->size();
-            return;
+        // The rest of an incomplete packet cannot be told from the next one
+        if (!message.empty()) {
+            socket.close();
         }
-        auto read_fut = std::async(std::launch::async, [&socket, &message]
-        {
-            return socket.read_some(message.data(), message.size());
-        });
-        using namespace std::chrono_literals;
-        if (auto status = read_fut.wait_for(2s); status == std::future_status::timeout) {
-            throw std::runtime_error("timed out waiting for acknowledgement packet");
-        }
-        reply_length = read_fut.get();
-        if (auto match_err = ack_t::match(message)) {
-            throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
+        throw std::runtime_error(reason);
+    };
+    const auto receive = [&socket, &message, &fail](const auto deadline)
+    {
+        message.clear();
+        while (!message.complete()) {
+            if (!socket.wait_readable(deadline)) {
+                fail("timed out waiting for acknowledgement packet");
+            }
+            auto length = message.read_some(socket);
+            if (length < 0) {
+                fail("failed to receive acknowledgement packet");
+            }
+            if (length == 0) {
+                fail("connection closed before acknowledgement packet");
+            }
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
-        reply_length -= ack->size();
-        read_idx = ack->size();
+        return message.data();
     };
-    (recv_ack(acks), ...);
+    receive_acks(packet, receive, acks...);
 }
 
 } // end namespace vrtgen
-- 
2.43.0


From 47339d10be893ecf21ff76809399f90727b8534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:09 +0000
Subject: [PATCH 34/37] fix: generated controllees survive malformed messages,
 late and repeated starts and their own destruction

---
 include/vrtgen/utility.hpp                    |  19 +++
 .../cpp/templates/controllee.hpp.jinja2       |   7 +
 .../cpp/templates/controllee_base.hpp.jinja2  | 154 +++++++++---------
 3 files changed, 105 insertions(+), 75 deletions(-)

diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index c6bf77d..319b243 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -25,7 +25,9 @@
 #include <chrono>
 #include <concepts>
 #include <cstdint>
+#include <exception>
 #include <future>
+#include <optional>
 #include <sstream>
 #include <utility>
 #include <span>
@@ -63,6 +65,23 @@ inline bool in_range(const T value, const std::pair<T,T>& min_max)
     return true;
 }
 
+/**
+ * @brief Decode a message if it is a packet of the given type
+ * @return The packet, or nothing if the message is something else
+ */
+template <class PacketT>
+auto decode(std::span<const uint8_t> message) -> std::optional<PacketT>
+{
+    if (PacketT::match(message)) {
+        return std::nullopt;
+    }
+    try {
+        return std::optional<PacketT>{ std::in_place, message };
+    } catch (const std::exception&) {
+        return std::nullopt;
+    }
+}
+
 /**
  * @class stream_packet
  * @brief A packet received from a stream, which neither keeps packets apart nor together
diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index 516f115..bae8558 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -122,7 +122,14 @@ public:
     /**
      * @brief Destructor
      */
+{% if ns.has_control %}
+    ~{{ class_name }}() override
+    {
+        this->stop_listening();
+    }
+{% else %}
     ~{{ class_name }}() override = default;
+{% endif %}
 
 {% for packet in packets if packet.is_control %}
     {{ handle_packet_callback(packet) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index cb40a8e..d3b67ae 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -166,13 +166,16 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 #include <array>
 #include <thread>
 #include <atomic>
+#include <cerrno>
+#include <chrono>
 #include <map>
 #include <memory>
 #include <optional>
+#include <span>
 #include <tuple>
+#include <utility>
 #include <vrtgen/vrtgen.hpp>
 {% if cmd_socket == 'nats' %}
-#include <chrono>
 #include <vrtgen/nats.hpp>
 {% else %}
 #include <vrtgen/socket.hpp>
@@ -257,10 +260,7 @@ public:
     virtual ~{{ class_name }}()
     {
 {% if ns.has_control %}
-        m_listening = false;
-        if (m_recv_thread.joinable()) {
-            m_recv_thread.join();
-        }
+        stop_listening();
 {% endif %}
     }
 {% if ns.has_datactxt %}
@@ -343,8 +343,7 @@ public:
      */
     auto vrt_listen() -> void
     {
-        if (!m_listening) {
-            m_listening = true;
+        if (!m_listening.exchange(true)) {
             m_recv_thread = std::thread(&{{ class_name }}::m_listener_func, this);
         }
     }
@@ -368,6 +367,20 @@ public:
 {% endif %}
 {% endfor %}
 protected:
+{% if ns.has_control %}
+    /**
+     * @brief Stop the listener thread. A class that handles packets has to stop it in its destructor,
+     *        because the listener must not call the handlers of an object under destruction.
+     */
+    auto stop_listening() -> void
+    {
+        m_listening = false;
+        if (m_recv_thread.joinable()) {
+            m_recv_thread.join();
+        }
+    }
+
+{% endif %}
 {% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
@@ -394,101 +407,92 @@ private:
 
     auto m_listener_func() -> void
     {
+{%     if cmd_socket == 'tcp' %}
+        auto received = vrtgen::stream_packet{};
+{%     elif cmd_socket == 'udp' %}
+        auto received = message_buffer{};
+{%     endif %}
         while (m_listening) {
-{%     if cmd_socket == 'nats' %}
             using namespace std::chrono_literals;
-            auto message = m_client.next_msg(1s);
-            if (message == nullptr) {
+{%     if cmd_socket == 'nats' %}
+            auto received = m_client.next_msg(1s);
+            if (received == nullptr) {
                 continue;
             }
-{%     else %}
-            auto message = message_buffer{};
-{%       if cmd_socket == 'tcp' %}
-            auto recv_length = m_cmd_socket.read_some(message.data(), message.size());
-{%       elif cmd_socket == 'udp' %}
+            const std::span<const uint8_t> message = received->data();
+            [[maybe_unused]] const auto reply = [this, &received](std::span<const uint8_t> data)
+            {
+                if (auto subject = received->reply_subject(); !subject.empty()) {
+                    m_client.publish(subject, data);
+                }
+            };
+{%     elif cmd_socket == 'tcp' %}
+            if (auto length = received.read_some(m_cmd_socket); length <= 0) {
+                // What was read is kept unless there is no connection anymore
+                if (length == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
+                    received.clear();
+                    std::this_thread::sleep_for(10ms);
+                }
+                continue;
+            }
+            if (!received.complete()) {
+                continue;
+            }
+            const auto complete = std::exchange(received, vrtgen::stream_packet{});
+            const auto message = complete.data();
+            [[maybe_unused]] const auto reply = [this](std::span<const uint8_t> data)
+            {
+                vrtgen::write_all(m_cmd_socket, data);
+            };
+{%     elif cmd_socket == 'udp' %}
             cmd_endpoint_type endpoint;
-            auto recv_length = m_cmd_socket.receive_from(message.data(), message.size(), endpoint);
-{%       endif %}
+            auto recv_length = m_cmd_socket.receive_from(received.data(), received.size(), endpoint);
             if (recv_length <= 0) {
                 continue;
             }
+            const auto message = std::span<const uint8_t>{ received.data(), static_cast<std::size_t>(recv_length) };
+            [[maybe_unused]] const auto reply = [this, &endpoint](std::span<const uint8_t> data)
+            {
+                m_cmd_socket.send_to(data.data(), data.size(), endpoint);
+            };
 {%     endif %}
 
 {%   endif %}
-{%   if cmd_socket == 'nats' %}
-            if (auto err = {{ packet.name }}::match(message->data()); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message->data() };
-{%   else %}
-            if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message };
-{%   endif %}
+            if (auto decoded = vrtgen::decode<{{ packet.name }}>(message)) {
+                [[maybe_unused]] auto& packet = *decoded;
 {%   if packet.cam.req_v.enabled %}
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
                     {{ copy_identifiers(packet, 'ack_v') | indent(20) | trim }}
-                    auto packed_data = ack_v.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                    reply(ack_v.data());
                 }
 {%   endif %}
-{%   if packet.cam.req_x.enabled %}
-                if (packet.cam().req_x()) {
-{%     if packet.cam.req_s.enabled %}
+{%   if packet.cam.req_x.enabled and packet.cam.req_s.enabled %}
+                if (packet.cam().req_x() || packet.cam().req_s()) {
                     auto [ack_x, ack_s] = this->execute_{{ packet.name | to_snake }}(packet);
-{%     else %}
-                    auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
-{%     endif %}
-                    ack_x.ack_x(true);
-                    {{ copy_identifiers(packet, 'ack_x') | indent(20) | trim }}
-                    auto packed_data = ack_x.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
+                    if (packet.cam().req_x()) {
+                        ack_x.ack_x(true);
+                        {{ copy_identifiers(packet, 'ack_x') | indent(24) | trim }}
+                        reply(ack_x.data());
                     }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
-{%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
                         {{ copy_identifiers(packet, 'ack_s') | indent(24) | trim }}
-                        auto packed_data = ack_s.data();
-{%     if cmd_socket == 'nats' %}
-                        if (auto reply = message->reply_subject(); !reply.empty()) {
-                            m_client.publish(reply, packed_data);
-                        }
-{%     elif cmd_socket == 'udp' %}
-                        m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                        m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                        reply(ack_s.data());
                     }
-{%     endif %}
                 }
-{%   endif %}
-{%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
+{%   elif packet.cam.req_x.enabled %}
+                if (packet.cam().req_x()) {
+                    auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
+                    ack_x.ack_x(true);
+                    {{ copy_identifiers(packet, 'ack_x') | indent(20) | trim }}
+                    reply(ack_x.data());
+                }
+{%   elif packet.cam.req_s.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
                     {{ copy_identifiers(packet, 'ack_s') | indent(20) | trim }}
-                    auto packed_data = ack_s.data();
-{%     if cmd_socket == 'nats' %}
-                    if (auto reply = message->reply_subject(); !reply.empty()) {
-                        m_client.publish(reply, packed_data);
-                    }
-{%     elif cmd_socket == 'udp' %}
-                    m_cmd_socket.send_to(packed_data.data(), packed_data.size(), endpoint);
-{%     else %}
-                    m_cmd_socket.write_some(packed_data.data(), packed_data.size());
-{%     endif %}
+                    reply(ack_s.data());
                 }
 {%   endif %}
             }
-- 
2.43.0


From da24805deefcfe9c700446d0439496d9d7b3e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:09 +0000
Subject: [PATCH 35/37] fix: generated controllers dispatch whole received
 packets only and stop receiving safely

---
 .../cpp/templates/controller.hpp.jinja2       | 42 +++++++++++++++----
 .../macros/controller/controller.jinja2       |  5 ++-
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index f7103d6..4939879 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -19,6 +19,16 @@
 {%- import "macros/controller/controller.jinja2" as controller %}
 #pragma once 
 
+#include <array>
+#include <atomic>
+#include <functional>
+#include <mutex>
+#include <optional>
+#include <span>
+#include <string>
+#include <thread>
+#include <tuple>
+#include <vrtgen/vrtgen.hpp>
 {% if cmd_socket == 'nats' %}
 #include <vrtgen/nats.hpp>
 {% else %}
@@ -72,7 +82,9 @@ public:
         if (auto res = m_client.connect(nats_url); res != NATS_OK) {
             throw std::runtime_error("Failed to connect to NATS url during {{ controller_name }} construction");
         }
-        m_client.new_inbox();
+        if (auto res = m_client.new_inbox(); res != NATS_OK) {
+            throw std::runtime_error("Failed to create NATS inbox during {{ controller_name }} construction");
+        }
     }
 {%   else %}
     /**
@@ -92,6 +104,16 @@ public:
      */
     {{ controller_name }}() = default;
 {% endif %}
+{% if ns.has_datactxt %}
+
+    /**
+     * @brief Destructor
+     */
+    ~{{ controller_name }}()
+    {
+        disable_receive();
+    }
+{% endif %}
 
     {{ controller.socket_functions(packets, cmd_socket) | indent(4) | trim }}
 
@@ -113,19 +135,25 @@ private:
 {%  if loop.first %}
     void m_receiver_func()
     {
-        message_buffer message;
+        message_buffer buffer;
         while(m_receiving) {
             data_ctxt_endpoint_type endpoint;
-            auto recv_length = m_data_ctxt_recv_socket.receive_from(message.data(), message.size(), endpoint);
+            auto recv_length = m_data_ctxt_recv_socket.receive_from(buffer.data(), buffer.size(), endpoint);
             if (recv_length <= 0) {
                 continue;
             }
+            const auto message = std::span<const uint8_t>{ buffer.data(), static_cast<std::size_t>(recv_length) };
 
 {%   endif %}
-            if (!{{ packet.name }}::match(message)) {
-                auto packet = {{ packet.name }}{ message };
-                if (m_{{ packet.name | to_snake }}_listener) {
-                    m_{{ packet.name | to_snake }}_listener(packet);
+            if (auto packet = vrtgen::decode<{{ packet.name }}>(message)) {
+                // The listener may be replaced while it is called
+                auto listener = [this]
+                {
+                    std::lock_guard<std::mutex> lock(m_listener_mtx);
+                    return m_{{ packet.name | to_snake }}_listener;
+                }();
+                if (listener) {
+                    listener(*packet);
                 }
             }
 {%   if loop.last %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index df42a70..1871b4b 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -119,6 +119,7 @@ auto send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
  */
 void register_{{ packet.name | to_snake }}_listener(const std::function<void({{ packet.name }}&)>&& func)
 {
+    std::lock_guard<std::mutex> lock(m_listener_mtx);
     m_{{ packet.name | to_snake }}_listener = std::move(func);
 }
 {% endmacro %}
@@ -161,8 +162,7 @@ void send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
  */
 void enable_receive()
 {
-    if (!m_receiving) {
-        m_receiving = true;
+    if (!m_receiving.exchange(true)) {
         m_recv_thread = std::thread(&{{ class_name }}::m_receiver_func, this);
     }
 }
@@ -205,6 +205,7 @@ data_ctxt_socket_type m_data_ctxt_recv_socket;
 data_ctxt_socket_type m_data_ctxt_send_socket;
 std::thread m_recv_thread;
 std::atomic_bool m_receiving{ false };
+std::mutex m_listener_mtx;
 {%   endif %}
 std::function<void({{ packet.name }}&)> m_{{ packet.name | to_snake }}_listener;
 {% endfor %}
-- 
2.43.0


From d35eb3646cdbfd898138ea6d717c75f914f6e7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:15 +0000
Subject: [PATCH 36/37] fix: attributes of information fields (CIF7) are
 encoded, decoded and removed with their field

---
 include/vrtgen/packing/cif7.hpp               |   1 +
 .../templates/macros/function_decls.jinja2    |   7 +-
 .../function_defs/bytes_required.jinja2       |   3 +
 .../templates/macros/function_defs/cif.jinja2 | 145 +++++++++++++-----
 .../macros/function_defs/constructors.jinja2  |  61 ++++----
 .../cpp/templates/macros/members.jinja2       |  13 +-
 .../templates/macros/types/user_class.jinja2  |  91 +++++++----
 src/vrtgen/backend/cpp/type_helpers.py        |  14 ++
 8 files changed, 226 insertions(+), 109 deletions(-)

diff --git a/include/vrtgen/packing/cif7.hpp b/include/vrtgen/packing/cif7.hpp
index a3f5d21..e25514c 100644
--- a/include/vrtgen/packing/cif7.hpp
+++ b/include/vrtgen/packing/cif7.hpp
@@ -32,6 +32,7 @@ namespace cif7 {
 template <typename T, typename V, std::size_t N, std::size_t R>
 concept is_scalar =
     (std::is_integral_v<V> && std::same_as<T,V>) ||
+    (std::is_integral_v<T> && std::is_enum_v<V>) ||
     (std::is_floating_point_v<V> && (N>0) && (N>R));
 
 } // end namespace cif7
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2
index e3566f2..7c22a81 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_decls.jinja2
@@ -67,18 +67,13 @@ auto {{ field.name }}(const {{ type_helper.value_type(field) }}{{ '&' if not typ
 
 {{ setters(field, type_helper) | trim }}
 {% if cif7.enabled and not field.indicator_only %}
-{%   set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
 
 /**
  * @brief Returns a reference to {{ field.name }} attributes
  * @return A reference to {{ field.name }} attributes
  */
 [[nodiscard]]
-{%     if field.is_fixed_point %}
-auto {{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{{ '>' if field.is_optional }}&;
-{%     else %}
-auto {{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }}>{{ '>' if field.is_optional }}&;
-{%     endif %}
+auto {{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.attributes_type(cif7.attributes, field) }}{{ '>' if field.is_optional }}&;
 {% endif %}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index 0a06f45..15fa9aa 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -182,6 +182,9 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
+{% endif %}
+{% if packet.cif7.enabled  %}
+    bytes += m_{{ packet.cif7.name }}.size();
 {% endif %}
     return bytes;
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 4300567..3c30dac 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -19,6 +19,18 @@
 
 {%- import "macros/function_defs/common.jinja2" as common %}
 
+{%- macro insert_attributes(cif7, field) %}
+{% if cif7.enabled %}
+if (!m_{{ field.name }}_attributes.has_value()) {
+    m_{{ field.name }}_attributes.emplace();
+}
+{% endif %}
+{%- endmacro %}
+
+{%- macro attributes_size(cif7, field) %}
+{{ '+ m_' ~ field.name ~ '_attributes->size()' if cif7.enabled }}
+{%- endmacro %}
+
 {%- macro function_defs(packet_name, cif, type_helper, cif7=none) %}
 {% for field in cif.fields if field.enabled %}
 {% if type_helper.is_scalar(field) %}
@@ -110,14 +122,18 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
     {{ 'const ' if not field.type_.reserved_bits > 0 }}auto pos{ m_positions.at("{{ field.name }}") };
 {%   if field.is_optional %}
     if (!m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}()) {
+{%     if cif7.enabled %}
+        {{ insert_attributes(cif7, field) | indent(8) | trim }}
+{%     endif %}
+{%     set attributes = attributes_size(cif7, field) | trim %}
 {%     if type_helper.is_scalar(field) %}
 {%       if field.type_.reserved_bits > 0 %}
-        m_data.insert(m_data.begin() + pos, sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/ + sizeof(swapped), 0);
+        m_data.insert(m_data.begin() + pos, sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/ + sizeof(swapped){{ ' ' ~ attributes if attributes }}, 0);
 {%       else %}
-        m_data.insert(m_data.begin() + pos, sizeof(swapped), 0);
+        m_data.insert(m_data.begin() + pos, sizeof(swapped){{ ' ' ~ attributes if attributes }}, 0);
 {%       endif %}
 {%     else %}
-        m_data.insert(m_data.begin() + pos, m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size(), 0);
+        m_data.insert(m_data.begin() + pos, m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size(){{ ' ' ~ attributes if attributes }}, 0);
 {%     endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(true);
         update_positions();
@@ -153,7 +169,13 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
         const auto pos{ m_positions.at("{{ field.name }}") };
-{%   if type_helper.is_scalar(field) %}
+{%   if cif7.enabled %}
+        m_data.erase(m_data.begin() + pos, m_data.begin() + m_positions.at("{{ field.name }}_attributes_end"));
+        m_{{ field.name }}_attributes.reset();
+{%     if not type_helper.is_scalar(field) %}
+        m_{{ field.name }}.reset();
+{%     endif %}
+{%   elif type_helper.is_scalar(field) %}
 {%     if field.type_.reserved_bits > 0 %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/ + sizeof({{ type_helper.member_type(field) }}));
 {%     else %}
@@ -173,13 +195,8 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 }
 {% endif %}
 {% if cif7.enabled and not field.indicator_only %}
-{%   set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
 
-{%     if field.is_fixed_point %}
-auto {{ packet_name }}::{{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{{ '>' if field.is_optional }}&
-{%     else %}
-auto {{ packet_name }}::{{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.value_type(cif7.attributes) }}<{{ ns.member_type }}>{{ '>' if field.is_optional }}&
-{%     endif %}
+auto {{ packet_name }}::{{ field.name }}_attributes() -> {{ 'std::optional<' if field.is_optional }}{{ type_helper.attributes_type(cif7.attributes, field) }}{{ '>' if field.is_optional }}&
 {
     return m_{{ field.name }}_attributes;
 }
@@ -268,13 +285,31 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 }
 {% endmacro %}
 
+{%- macro resize_field(announced, name, member) %}
+{{ 'if (' ~ announced ~ ') {' if announced else '{' }}
+    const auto size{ {{ member }}size() };
+    const auto pos{ m_positions.at("{{ name }}") };
+    const auto end{ m_positions.at("{{ name }}_end") };
+    if (end - pos > size) {
+        m_data.erase(m_data.begin() + pos + size, m_data.begin() + end);
+        layout_changed = true;
+    } else if (end - pos < size) {
+        m_data.insert(m_data.begin() + end, size - (end - pos), 0);
+        layout_changed = true;
+    }
+}
+{%- endmacro %}
+
 {%- macro remove_reset_fields(packet, cif, type_helper) %}
 {% for field in cif.fields | reverse if field.enabled and not type_helper.is_scalar(field) and (field.is_optional or type_helper.is_variable_length(field)) %}
 {%   set announced = ('m_' ~ cif.name ~ '.has_value() && ' if cif.is_optional else '') ~ 'm_' ~ cif.name ~ ('->' if cif.is_optional else '.') ~ field.name ~ '()' %}
 {%   if field.is_optional %}
 if ({{ announced }} && !m_{{ field.name }}.has_value()) {
     const auto pos{ m_positions.at("{{ field.name }}") };
-{%     if type_helper.is_variable_length(field) %}
+{%     if packet.cif7.enabled %}
+    m_data.erase(m_data.begin() + pos, m_data.begin() + m_positions.at("{{ field.name }}_attributes_end"));
+    m_{{ field.name }}_attributes.reset();
+{%     elif type_helper.is_variable_length(field) %}
     m_data.erase(m_data.begin() + pos, m_data.begin() + m_positions.at("{{ field.name }}_end"));
 {%     else %}
     {{ type_helper.member_type(field) }} removed{};
@@ -287,23 +322,41 @@ if ({{ announced }} && !m_{{ field.name }}.has_value()) {
 }
 {%   endif %}
 {%   if type_helper.is_variable_length(field) %}
-{{ 'if (' ~ announced ~ ') {' if field.is_optional else '{' }}
-    const auto size{ m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size() };
-    const auto pos{ m_positions.at("{{ field.name }}") };
-    const auto end{ m_positions.at("{{ field.name }}_end") };
-    if (end - pos > size) {
-        m_data.erase(m_data.begin() + pos + size, m_data.begin() + end);
-        layout_changed = true;
-    } else if (end - pos < size) {
-        m_data.insert(m_data.begin() + end, size - (end - pos), 0);
-        layout_changed = true;
-    }
-}
+{%     if packet.cif7.enabled %}
+{{ resize_field(announced if field.is_optional, field.name ~ '_attributes', 'm_' ~ field.name ~ '_attributes' ~ ('->' if field.is_optional else '.')) | trim }}
+{%     endif %}
+{{ resize_field(announced if field.is_optional, field.name, 'm_' ~ field.name ~ ('->' if field.is_optional else '.')) | trim }}
 {%   endif %}
 {% endfor %}
 {% endmacro %}
 
+{%- macro emplace_attributes(packet, cif) %}
+{% for field in cif.fields if field.enabled and field.is_optional and not field.indicator_only %}
+if ({{ 'm_' ~ cif.name ~ '.has_value() && ' if cif.is_optional }}m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}() && !m_{{ field.name }}_attributes.has_value()) {
+    m_{{ field.name }}_attributes.emplace();
+}
+{% endfor %}
+{%- endmacro %}
+
+{%- macro pack_attributes(packet, cif) %}
+{% for field in cif.fields if field.enabled and not field.indicator_only %}
+{%   if field.is_optional %}
+if ({{ 'm_' ~ cif.name ~ '.has_value() && ' if cif.is_optional }}m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}()) {
+    m_{{ field.name }}_attributes->pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+}
+{%   else %}
+m_{{ field.name }}_attributes.pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
+{%   endif %}
+{% endfor %}
+{%- endmacro %}
+
 {%- macro sync_cifs(packet, type_helper) %}
+{% if packet.requires_cif_functions and packet.cif7.enabled %}
+// Every field present has attributes
+{%   for cif in [packet.cif0, packet.cif1, packet.cif2] if cif.enabled %}
+{{ emplace_attributes(packet, cif) | trim }}
+{%   endfor %}
+{% endif %}
 {% if packet.requires_cif_functions %}
 // Fields reset or resized through their reference: remove or resize from last to first, so that the positions stay valid
 [[maybe_unused]] bool layout_changed{ false };
@@ -326,7 +379,10 @@ if (layout_changed) {
 {%     if field.is_optional %}
 if (m_{{ field.name }}.has_value()) {
     if (!m_{{ packet.cif0.name }}.{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{%       if packet.cif7.enabled %}
+        {{ insert_attributes(packet.cif7, field) | indent(8) | trim }}
+{%       endif %}
+        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(){{ ' ' ~ (attributes_size(packet.cif7, field) | trim) if packet.cif7.enabled }}, 0);
         m_{{ packet.cif0.name }}.{{ field.name }}(true);
         m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
         update_positions();
@@ -338,15 +394,6 @@ if (m_{{ field.name }}.has_value()) {
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
-{%   for field in packet.cif0.fields if field.enabled and packet.cif7.enabled and not field.indicator_only %}
-{%     if field.is_optional %}
-if (m_{{ field.name }}_attributes.has_value()) {
-    m_{{ field.name }}_attributes->pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-}
-{%     else %}
-m_{{ field.name }}_attributes.pack_into(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-{%     endif %}
-{%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not type_helper.is_scalar(field) %}
@@ -365,7 +412,10 @@ if (m_{{ field.name }}.has_value()) {
     }
 {%       endif %}
     if (!m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{%       if packet.cif7.enabled %}
+        {{ insert_attributes(packet.cif7, field) | indent(8) | trim }}
+{%       endif %}
+        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(){{ ' ' ~ (attributes_size(packet.cif7, field) | trim) if packet.cif7.enabled }}, 0);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
         update_positions();
@@ -400,7 +450,10 @@ if (m_{{ field.name }}.has_value()) {
     }
 {%       endif %}
     if (!m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
+{%       if packet.cif7.enabled %}
+        {{ insert_attributes(packet.cif7, field) | indent(8) | trim }}
+{%       endif %}
+        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(){{ ' ' ~ (attributes_size(packet.cif7, field) | trim) if packet.cif7.enabled }}, 0);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
         update_positions();
@@ -418,8 +471,27 @@ if (m_{{ packet.cif2.name }}.has_value() && m_{{ packet.cif2.name }}->none()) {
     {{ erase_cif(packet, packet.cif2) | indent(4) | trim }}
 }
 {% endif %}
+{% if packet.requires_cif_functions and packet.cif7.enabled %}
+{%   for cif in [packet.cif0, packet.cif1, packet.cif2] if cif.enabled %}
+{{ pack_attributes(packet, cif) | trim }}
+{%   endfor %}
+{% endif %}
 {% endmacro %}
 
+{%- macro update_attributes_pos(packet, cif, field) %}
+{% if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%   if field.is_optional %}
+if (m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}()) {
+    curr_pos += m_{{ field.name }}_attributes->size();
+}
+{%   else %}
+curr_pos += m_{{ field.name }}_attributes.size();
+{%   endif %}
+m_positions["{{ field.name }}_attributes_end"] = curr_pos;
+{% endif %}
+{%- endmacro %}
+
 {%- macro update_cif_pos(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 [[maybe_unused]]
@@ -482,6 +554,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ update_attributes_pos(packet, packet.cif0, field) | trim }}
 {%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
@@ -514,6 +587,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%     if type_helper.is_variable_length(field) %}
 {{ '    ' if packet.cif1.is_optional }}m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ update_attributes_pos(packet, packet.cif1, field) | trim }}
 {%   endfor %}
 {%   if packet.cif1.is_optional %}
 }
@@ -549,6 +623,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%     if type_helper.is_variable_length(field) %}
 {{ '    ' if packet.cif2.is_optional }}m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ update_attributes_pos(packet, packet.cif2, field) | trim }}
 {%   endfor %}
 {%   if packet.cif2.is_optional %}
 }
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index fbeecc4..355e088 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -97,6 +97,16 @@ curr_pos += m_{{ packet.controller_id.name }}.size();
 {% endif %}
 {% endmacro %}
 
+{%- macro construct_attributes(packet, field) %}
+{% if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%   if not field.is_optional %}
+curr_pos += m_{{ field.name }}_attributes.size();
+{%   endif %}
+m_positions["{{ field.name }}_attributes_end"] = curr_pos;
+{% endif %}
+{%- endmacro %}
+
 {%- macro construct_cifs(packet, type_helper) %}
 {% set ns = namespace(has_cif0_field=false,has_cif1_field=false,has_cif2_field=false) %}
 {% if packet.cif0.enabled %}
@@ -150,18 +160,13 @@ curr_pos += sizeof({{ type_helper.member_type(field) }});
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
-{%     if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-{%       if not field.is_optional %}
-curr_pos += m_{{ field.name }}_attributes.size();
-{%       endif %}
-{%     endif %}
 {%     if loop.last and ns.has_cif0_field %}
 m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
 {%     endif %}
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ construct_attributes(packet, field) | trim }}
 {%   endfor %}
 {% elif packet.cif0.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif0.fields if field.enabled and not field.indicator_only %}
@@ -197,6 +202,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ construct_attributes(packet, field) | trim }}
 {%   endfor %}
 {% elif packet.cif1.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
@@ -232,6 +238,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ construct_attributes(packet, field) | trim }}
 {%   endfor %}
 {% elif packet.cif2.enabled and packet.requires_cif_enable_functions %}
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
@@ -335,6 +342,24 @@ if (!{{ announced }}) {
 }
 {% endmacro %}
 
+{%- macro unpack_attributes(packet, cif, field, type_helper) %}
+{% if packet.cif7.enabled %}
+m_positions["{{ field.name }}_attributes"] = curr_pos;
+{%   if field.is_optional %}
+if ({{ 'm_' ~ cif.name ~ '.has_value() && ' if cif.is_optional }}m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}()) {
+    m_{{ field.name }}_attributes.emplace();
+    m_{{ field.name }}_attributes->unpack_from(m_data, curr_pos);
+    curr_pos += m_{{ field.name }}_attributes->size();
+}
+{%   else %}
+{{ insert_missing('m_' ~ cif.name ~ '.' ~ field.name ~ '()', 'm_' ~ field.name ~ '_attributes.size()') | trim }}
+m_{{ field.name }}_attributes.unpack_from(m_data, curr_pos);
+curr_pos += m_{{ field.name }}_attributes.size();
+{%   endif %}
+m_positions["{{ field.name }}_attributes_end"] = curr_pos;
+{% endif %}
+{%- endmacro %}
+
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
@@ -372,7 +397,7 @@ curr_pos += m_{{ packet.cif2.name }}.size();
 {% if packet.cif7.enabled %}
 m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
-if (m_{{ packet.cif7.name}}.cif7_enable()) {
+if (m_{{ packet.cif0.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
     vrtgen::packing::unpack_field(*m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
@@ -387,9 +412,6 @@ curr_pos += m_{{ packet.cif7.name }}.size();
 {%   for field in packet.cif0.fields if field.enabled and not field.indicator_only %}
 m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
-{%       if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-{%       endif %}
 if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
@@ -402,17 +424,6 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
-{%       if packet.cif7.enabled %}
-{%         set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
-    m_positions.at("{{ field.name }}_attributes") = curr_pos;
-{%         if field.is_fixed_point %}
-    m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>{};
-{%         else %}
-    m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
-{%         endif %}
-    vrtgen::packing::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
-    curr_pos += m_{{ field.name }}_attributes->size();
-{%       endif %}
 }
 {%     else %}
 {%       if type_helper.is_scalar(field) %}
@@ -428,15 +439,11 @@ curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
-{%       if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-vrtgen::packing::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
-curr_pos += m_{{ field.name }}_attributes.size();
-{%       endif %}
 {%     endif %}
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ unpack_attributes(packet, packet.cif0, field, type_helper) | trim }}
 {%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
@@ -478,6 +485,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ unpack_attributes(packet, packet.cif1, field, type_helper) | trim }}
 {%   endfor %}
 {% endif %}
 {% if packet.cif2.enabled and packet.requires_cif_functions %}
@@ -519,6 +527,7 @@ curr_pos += m_{{ field.name }}.size();
 {%     if type_helper.is_variable_length(field) %}
 m_positions["{{ field.name }}_end"] = curr_pos;
 {%     endif %}
+{{ unpack_attributes(packet, packet.cif2, field, type_helper) | trim }}
 {%   endfor %}
 {% endif %}
 {% endmacro %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/members.jinja2 b/src/vrtgen/backend/cpp/templates/macros/members.jinja2
index 02e76bc..61b46c6 100644
--- a/src/vrtgen/backend/cpp/templates/macros/members.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/members.jinja2
@@ -32,19 +32,10 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }};
 {% endmacro %}
 
 {%- macro attributes_member(attrs_field, field, type_helper) %}
-{% set ns = namespace(member_type=type_helper.member_type(field), value_type=type_helper.value_type(field)) %}
 {%   if field.is_optional %}
-{%     if field.is_fixed_point %}
-std::optional<{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}>> m_{{ field.name }}_attributes;
-{%     else %}
-std::optional<{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }}>> m_{{ field.name }}_attributes;
-{%     endif %}
+std::optional<{{ type_helper.attributes_type(attrs_field, field) }}> m_{{ field.name }}_attributes;
 {%   else %}
-{%     if field.is_fixed_point %}
-{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }},{{ ns.value_type }},{{ field.type_.bits }},{{ field.type_.radix }}> m_{{ field.name }}_attributes;
-{%     else %}
-{{ type_helper.member_type(attrs_field) }}<{{ ns.member_type }}> m_{{ field.name }}_attributes;
-{%     endif %}
+{{ type_helper.attributes_type(attrs_field, field) }} m_{{ field.name }}_attributes;
 {%   endif %}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index d7c30cf..df985cf 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -134,19 +134,33 @@ auto {{ class.type_ }}::{{ field.name }}(const bool value) -> void
 {% endmacro %}
 
 {%- macro template_class(class, type_helper) %}
-template <typename T, typename V=T, std::size_t N=0, std::size_t R=0>
+template <typename T, typename V=T, std::size_t N=0, std::size_t R=0, std::size_t P=0>
 class {{ class.type_ }}
 {
 public:
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
+{%   if not field.template_type %}
+    [[nodiscard]]
+    auto {{ field.name }}() -> {{ type_helper.value_type(field) }}&
+    {
+        return m_{{ field.name }};
+    }
+
+    auto {{ field.name }}(const {{ type_helper.value_type(field) }}& value) -> void
+    {
+        m_{{ field.name }} = value;
+    }
+
+{%   else %}
     auto {{ field.name }}() -> V
     requires vrtgen::packing::cif7::is_scalar<T,V,N,R>
     {
         auto swapped{ vrtgen::swap::from_be(m_{{ field.name }}) };
         if constexpr (std::is_floating_point_v<V>) {
             return vrtgen::fixed::to_fp<N,R>(swapped);
+        } else {
+            return static_cast<V>(swapped);
         }
-        return swapped;
     }
 
     [[nodiscard]]
@@ -162,7 +176,7 @@ public:
         if constexpr (std::is_floating_point_v<V>) {
             m_{{ field.name }} = vrtgen::swap::to_be(static_cast<T>(vrtgen::fixed::to_int<N,R>(value)));
         } else {
-            m_{{ field.name }} = vrtgen::swap::to_be(value);
+            m_{{ field.name }} = vrtgen::swap::to_be(static_cast<T>(value));
         }
     }
 
@@ -172,6 +186,7 @@ public:
         m_{{ field.name }} = value;
     }
 
+{%   endif %}
 {% endfor %}
     /**
      * @brief Returns the number of {{ class.type_ }} bytes
@@ -180,15 +195,9 @@ public:
     auto size() const -> size_t
     {
         std::size_t retval{ 0 };
-        if constexpr (std::is_integral_v<T>) {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += sizeof(m_{{ field.name }});
-{% endfor %}
-        } else {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            retval += m_{{ field.name }}.size();
+        retval += size(m_{{ field.name }});
 {% endfor %}
-        }
         return retval;
     }
 
@@ -196,43 +205,63 @@ public:
      * @brief Pack {{ class.type_ }} as bytes into the buffer
      * @param buffer_ptr Pointer to buffer location to add {{ class.type_ }} bytes
      */
-    auto pack_into(uint8_t* buffer_ptr) const -> void
+    auto pack_into([[maybe_unused]] uint8_t* buffer_ptr) -> void
     {
-        if constexpr (std::is_integral_v<T>) {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            std::memcpy(buffer_ptr, &m_{{ field.name }}, sizeof(m_{{ field.name }}));
-            buffer_ptr += sizeof({{ type_helper.member_type(field) }});
-{% endfor %}
-        } else {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            m_{{ field.name }}.pack_into(buffer_ptr);
-            buffer_ptr += m_{{ field.name }}.size();
+        pack_into(m_{{ field.name }}, buffer_ptr);
+        buffer_ptr += size(m_{{ field.name }});
 {% endfor %}
-        }
     }
 
     /**
      * @brief Unpack buffer bytes into {{ class.type_ }}
-     * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
+     * @param data Buffer to unpack from
+     * @param pos Position of the {{ class.type_ }} bytes in the buffer
+     * @throw std::out_of_range if the buffer does not hold all attributes
      */
-    auto unpack_from(const uint8_t* buffer_ptr) -> void
+    auto unpack_from([[maybe_unused]] std::span<const uint8_t> data, [[maybe_unused]] std::size_t pos) -> void
     {
-        if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            std::memcpy(&m_{{ field.name }}, buffer_ptr, sizeof(m_{{ field.name }}));
-            buffer_ptr += sizeof({{ type_helper.member_type(field) }});
+        unpack_from(m_{{ field.name }}, data, pos);
+        pos += size(m_{{ field.name }});
 {% endfor %}
+    }
+
+private:
+    // Scalars are held as packed, behind their P reserved bytes
+    template <typename F>
+    static auto size(const F& field) -> std::size_t
+    {
+        if constexpr (std::is_integral_v<F>) {
+            return P + sizeof(F);
         } else {
-{% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-            m_{{ field.name }}.unpack_from(buffer_ptr);
-            buffer_ptr += m_{{ field.name }}.size();
-{% endfor %}
+            return field.size();
+        }
+    }
+
+    template <typename F>
+    static auto pack_into(F& field, uint8_t* buffer_ptr) -> void
+    {
+        if constexpr (std::is_integral_v<F>) {
+            std::memcpy(buffer_ptr + P, &field, sizeof(F));
+        } else {
+            field.pack_into(buffer_ptr);
+        }
+    }
+
+    template <typename F>
+    static auto unpack_from(F& field, std::span<const uint8_t> data, std::size_t pos) -> void
+    {
+        if constexpr (std::is_integral_v<F>) {
+            vrtgen::packing::require_bytes(data, pos, P + sizeof(F));
+            std::memcpy(&field, data.data() + pos + P, sizeof(F));
+        } else {
+            vrtgen::packing::unpack_field(field, data, pos);
         }
     }
 
-private:
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
-    T m_{{ field.name }};
+    {{ type_helper.value_type(field) }} m_{{ field.name }}{};
 {% endfor %}
 
 }; // end class {{ class.type_ }}
diff --git a/src/vrtgen/backend/cpp/type_helpers.py b/src/vrtgen/backend/cpp/type_helpers.py
index b94fa95..480bfaa 100644
--- a/src/vrtgen/backend/cpp/type_helpers.py
+++ b/src/vrtgen/backend/cpp/type_helpers.py
@@ -179,6 +179,20 @@ class TypeHelper:
         else:
             return self.value_type(field)
 
+    def attributes_type(self, attributes, field):
+        """
+        Returns the type of the attributes of a field.
+        """
+        args = [self.member_type(field)]
+        if field.is_enum:
+            args = ['int{}_t'.format(field.type_.bits), self.value_type(field)]
+        elif field.is_fixed_point:
+            args += [self.value_type(field), str(field.type_.bits), str(field.type_.radix)]
+        if self.is_scalar(field) and field.type_.reserved_bits > 0:
+            args += [args[0], '0', '0'][len(args) - 1:]
+            args.append(str(field.type_.reserved_bits // 8))
+        return '{}<{}>'.format(self.value_type(attributes), ','.join(args))
+
     def requires_get_set(self, field):
         return False
 
-- 
2.43.0


From 622d6d690cb2769113d1c676f490dae2ba1b3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:04 +0000
Subject: [PATCH 37/37] fix: declare the enumerations of discrete I/O fields
 for state acknowledges

The header of an acknowledge whose control packet has a discrete I/O field
with an enumeration used the enumeration without declaring it: CppPacket.enums
asked packets for is_query, which they do not have, so that it was undefined
for acknowledges.
---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 6ac23db..9f1cd6e 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -305,7 +305,7 @@ class CppPacket:
     @property
     def enums(self):
         retval = []
-        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_query):
+        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_ack):
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-- 
2.43.0

