From 6234d96c7b9931ff75f11693137ff1263d45b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:58 +0000
Subject: [PATCH 01/22] fix: parse arrays and sets of char-sized integers,
 enumerations and optional or pointed-to numbers

---
 include/persistence/parse_items.hpp  | 41 ++++++++++++++++++++++++++++
 include/persistence/parse_set.hpp    |  9 ++++--
 include/persistence/parse_vector.hpp |  9 ++++--
 3 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/include/persistence/parse_items.hpp b/include/persistence/parse_items.hpp
index 9641fd5..c069b77 100644
--- a/include/persistence/parse_items.hpp
+++ b/include/persistence/parse_items.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "parse_base.hpp"
+#include <type_traits>
 
 namespace persistence
 {
@@ -8,5 +9,45 @@ namespace persistence
     struct JsonArrayItemParseHandler : JsonParseHandler<typename JsonParser<T>::json_type, JsonArrayEnd>
     {
         using JsonParseHandler<typename JsonParser<T>::json_type, JsonArrayEnd>::JsonParseHandler;
+
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number_item(n);
+        }
+
+    protected:
+        /** Appends a new item and installs the handler that parses the item. */
+        virtual JsonParseEvent& emplace_item() = 0;
+
+    private:
+        template<typename FoundToken>
+        bool parse_number_item(const FoundToken& n)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return emplace_item().parse(n);
+            } else {
+                return this->template fail<FoundToken>();
+            }
+        }
     };
 }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..5023d4f 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -32,12 +32,17 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return emplace_item().parse(json_item);
+        }
+
+    protected:
+        JsonParseEvent& emplace_item() override
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
             ReaderContext& ctx = this->context;
-            auto&& handler = ctx.emplace<JsonParser<T>>(ctx, storage.back());
-            return handler.parse(json_item);
+            return ctx.emplace<JsonParser<T>>(ctx, storage.back());
         }
 
     private:
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..9519f4e 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -25,11 +25,16 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return emplace_item().parse(json_item);
+        }
+
+    protected:
+        JsonParseEvent& emplace_item() override
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
-            auto&& handler = ctx.emplace<JsonParser<T>>(ctx, container.back());
-            return handler.parse(json_item);
+            return ctx.emplace<JsonParser<T>>(ctx, container.back());
         }
 
     private:
-- 
2.43.0


From 0183030112b824c3d8f3e99cf3a922346b277ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:58 +0000
Subject: [PATCH 02/22] fix: deserializing an object fails if any member fails,
 not only the last one

---
 include/persistence/deserialize_object.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..420bd1e 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -37,7 +37,7 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
+                result = deserialize<Exception>(it->value, value, value_context) && result;
                 member.ref(object) = std::move(value);
             } else {
                 member.ref(object) = std::nullopt;
@@ -53,7 +53,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +76,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
         }
-- 
2.43.0


From ac7e94bb6aab0c16ec1653dbe31222d3495e838f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:29 +0000
Subject: [PATCH 03/22] fix: reject numbers out of range of single-precision
 when deserializing from a document

---
 include/persistence/deserialize_fundamental.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..ad98d52 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,7 +291,19 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            auto double_value = json.GetDouble();
+            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(double_value)) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "floating-point number out of range",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
+            value = static_cast<T>(double_value);
             return true;
         }
     };
-- 
2.43.0


From ae89066ff667a222d5b6c47847cbf6028a8bfb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:56 +0000
Subject: [PATCH 04/22] fix: keep object keys with embedded NUL characters when
 deserializing maps

---
 include/persistence/deserialize_map.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..1d2a3f9 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -3,6 +3,8 @@
 #include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include <map>
+#include <string>
+#include <string_view>
 #include <unordered_map>
 
 namespace persistence
@@ -23,11 +25,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view key(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(key));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(key)] = std::move(item);
             }
             return true;
         }
-- 
2.43.0


From 0d7af4d51b86b922e158fa852b897784b80e5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:23 +0000
Subject: [PATCH 05/22] fix: do not read past the end of the input when
 encoding Base64

---
 include/persistence/base64.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..9d76c78 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -2,6 +2,8 @@
 #include "bytes.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <cstdint>
+#include <cstring>
 
 namespace persistence
 {
@@ -100,7 +102,7 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() > 2 ? (input.size() - 2) / 24 * 4 : 0;  // each sextet reads 8 bytes, leave out last 2 bytes to ensure pointer stays in addressable range
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
@@ -112,7 +114,8 @@ namespace persistence
 
         // iterate over data with 64-bit words, processing full sextets
         for (std::size_t i = 0; i < fast_sextets; ++i) {
-            uint64_t value = *reinterpret_cast<const uint64_t*>(p);
+            std::uint64_t value;
+            std::memcpy(&value, p, sizeof(value));
             if constexpr (detail::endianness::native == detail::endianness::little) {
                 detail::encode_sextet_little_endian(value, r);
             } else if constexpr (detail::endianness::native == detail::endianness::big) {
-- 
2.43.0


From 09d2deb8c9c3df4b711edd3c496ebaf03370e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:43 +0000
Subject: [PATCH 06/22] fix: reject date-time values outside the range of the
 system clock instead of wrapping around

---
 include/persistence/datetime.hpp | 53 ++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..651918a 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -35,22 +35,53 @@ namespace persistence
 {
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
+    namespace detail
+    {
+        /**
+         * Converts a Gregorian calendar date and UTC time into a POSIX timestamp (seconds since epoch).
+         */
+        inline std::time_t calendar_to_posix(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            return utc_to_posix(&tm);
+        }
+    }
+
     /**
      * Creates a chrono time point from a Gregorian calendar date and UTC time.
      */
     inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
-        std::tm tm{};
-        tm.tm_year = year - 1900;
-        tm.tm_mon = month - 1;
-        tm.tm_mday = day;
-        tm.tm_hour = hour;
-        tm.tm_min = minute;
-        tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
+        std::time_t t = detail::calendar_to_posix(year, month, day, hour, minute, second);
         return std::chrono::system_clock::from_time_t(t);
     }
 
+    namespace detail
+    {
+        /**
+         * Creates a chrono time point from a Gregorian calendar date and UTC time.
+         *
+         * @return True if the time point is in the range of the system clock.
+         */
+        inline bool make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second, timestamp& value)
+        {
+            using std::chrono::system_clock;
+            std::time_t t = calendar_to_posix(year, month, day, hour, minute, second);
+            PERSISTENCE_IF_UNLIKELY(t < system_clock::to_time_t(timestamp::min()) || t > system_clock::to_time_t(timestamp::max())) {
+                return false;
+            }
+
+            value = system_clock::from_time_t(t);
+            return true;
+        }
+    }
+
     inline constexpr bool is_leap_year(unsigned year)
     {
         return (year % 4 == 0 && year % 100 != 0) || (year % 400 == 0);
@@ -125,8 +156,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
-        return true;
+        return detail::make_datetime(year, month, day, 0, 0, 0, value);
     }
 
     /**
@@ -166,8 +196,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
-        return true;
+        return detail::make_datetime(year, month, day, hour, minute, second, value);
     }
 
     namespace detail
-- 
2.43.0


From e4546f6640804bb1f4d9b22c60ba8f03ae34889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:43 +0000
Subject: [PATCH 07/22] fix: read and write calendar dates outside the range of
 the system clock

---
 include/persistence/datetime.hpp         | 62 ++++++++++++++++++++----
 include/persistence/deserialize_date.hpp |  6 +--
 include/persistence/parse_date.hpp       |  6 +--
 include/persistence/serialize_date.hpp   |  6 ++-
 include/persistence/write_date.hpp       |  6 ++-
 5 files changed, 68 insertions(+), 18 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 651918a..d7a8447 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -130,9 +130,9 @@ namespace persistence
     }
 
     /**
-     * Parses a chrono time point from an ISO 8601 date string.
+     * Parses the parts of a Gregorian calendar date from an ISO 8601 date string.
      */
-    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    inline bool parse_date(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
     {
         PERSISTENCE_IF_UNLIKELY(len != 10) {
             return false;
@@ -143,7 +143,6 @@ namespace persistence
         }
 
         using detail::from_digits;
-        unsigned year, month, day;
         PERSISTENCE_IF_UNLIKELY(
             !from_digits(text, text + 4, year) ||
             !from_digits(text + 5, text + 7, month) ||
@@ -156,6 +155,19 @@ namespace persistence
             return false;
         }
 
+        return true;
+    }
+
+    /**
+     * Parses a chrono time point from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    {
+        unsigned year, month, day;
+        PERSISTENCE_IF_UNLIKELY(!parse_date(text, len, year, month, day)) {
+            return false;
+        }
+
         return detail::make_datetime(year, month, day, 0, 0, 0, value);
     }
 
@@ -270,6 +282,20 @@ namespace persistence
         constexpr static std::size_t length() { return 20; }
     };
 
+    /**
+     * Converts a Gregorian calendar date to an ISO 8601 date string.
+     */
+    inline iso_date to_iso_date(int year, int month, int day)
+    {
+        iso_date dt;
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(dt.year(), year);
+        to_aligned_digits<2>(dt.month(), month);
+        to_aligned_digits<2>(dt.day(), day);
+
+        return dt;
+    }
+
     /**
      * Converts a chrono time point to an ISO 8601 date string.
      */
@@ -284,15 +310,31 @@ namespace persistence
         int month = calendar_time->tm_mon + 1;
         int day = calendar_time->tm_mday;
 
-        // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
-        iso_date dt;
-        using detail::to_aligned_digits;
-        to_aligned_digits<4>(dt.year(), year);
-        to_aligned_digits<2>(dt.month(), month);
-        to_aligned_digits<2>(dt.day(), day);
+        return to_iso_date(year, month, day);
+    }
 
-        return dt;
+#if __cplusplus >= 202002L
+    /**
+     * Converts a Gregorian calendar date to an ISO 8601 date string.
+     *
+     * @return True if the date has an ISO 8601 representation with a 4-digit year.
+     */
+    inline bool to_iso_date(std::chrono::year_month_day value, iso_date& dt)
+    {
+        // normalize dates such as February 30
+        std::chrono::year_month_day date{std::chrono::sys_days(value)};
+        PERSISTENCE_IF_UNLIKELY(date.year() < std::chrono::year(0) || date.year() > std::chrono::year(9999)) {
+            return false;
+        }
+
+        dt = to_iso_date(
+            static_cast<int>(date.year()),
+            static_cast<int>(static_cast<unsigned>(date.month())),
+            static_cast<int>(static_cast<unsigned>(date.day()))
+        );
+        return true;
     }
+#endif
 
     /**
      * Converts a chrono time point to an ISO 8601 date-time string.
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..bdd5e2c 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,8 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            unsigned year, month, day;
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), year, month, day)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +33,7 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
+            value = std::chrono::year(static_cast<int>(year)) / std::chrono::month(month) / std::chrono::day(day);
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..31a02f7 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,13 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            unsigned year, month, day;
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), year, month, day)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
+            ref = std::chrono::year(static_cast<int>(year)) / std::chrono::month(month) / std::chrono::day(day);
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..11f408c 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -15,7 +15,11 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
+
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..8f4dc47 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -12,7 +12,11 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            iso_date dt;
+            PERSISTENCE_IF_UNLIKELY(!to_iso_date(value, dt)) {
+                return false;
+            }
+
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From fb405f2c41aaa3bbb8090ecdcf4c2f3aa68f5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:20 +0000
Subject: [PATCH 08/22] fix: parse enumerations with string values inside
 arrays, maps and objects

---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From cd86f2adf4076addde6163ff8adb4fc132f9c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:47 +0000
Subject: [PATCH 09/22] fix: reject described enumeration names followed by a
 NUL character

---
 include/persistence/deserialize_enum.hpp | 4 +++-
 include/persistence/parse_enum.hpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..1fced55 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,9 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            // names are compared as null-terminated strings
+            bool has_null = view.find('\0') != std::string_view::npos;
+            PERSISTENCE_IF_UNLIKELY(has_null || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..0c87591 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,9 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            // names are compared as null-terminated strings
+            bool has_null = s.literal.find('\0') != std::string_view::npos;
+            PERSISTENCE_IF_UNLIKELY(has_null || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From e0b7ade224b5b31e80124f30f1f7bf9653706c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:55 +0000
Subject: [PATCH 10/22] fix: report failures in members that a derived class
 adds to its base class

---
 include/persistence/deserialize_object.hpp | 4 ++--
 include/persistence/serialize_object.hpp   | 4 ++--
 include/persistence/write_object.hpp       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index 420bd1e..af764ea 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -130,8 +130,8 @@ namespace persistence
             }
 
             JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
-            value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            // derived classes may continue with a copy of the deserializer, hence use the returned object
+            return static_cast<bool>(value.persist(deserializer));
         }
     };
 }
diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..3e0995a 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -108,8 +108,8 @@ namespace persistence
             JsonObjectSerializer<T> serializer(context, value, json);
 
             json.SetObject();
-            const_cast<T&>(value).persist(serializer);
-            return static_cast<bool>(serializer);
+            // derived classes may continue with a copy of the serializer, hence use the returned object
+            return static_cast<bool>(const_cast<T&>(value).persist(serializer));
         }
     };
 }
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..6bf0008 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -105,8 +105,8 @@ namespace persistence
             JsonObjectWriter serializer(context, value, writer);
 
             writer.StartObject();
-            const_cast<T&>(value).persist(serializer);
-            if (!serializer) {
+            // derived classes may continue with a copy of the serializer, hence use the returned object
+            if (!const_cast<T&>(value).persist(serializer)) {
                 return false;
             }
             writer.EndObject();
-- 
2.43.0


From b1df97747730b205a8a8e3fb9579492d8e08f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 11/22] fix: serializing an object to a document fails if any
 member fails

---
 include/persistence/serialize_object.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 3e0995a..188add6 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -63,6 +63,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
-- 
2.43.0


From 732b2b4a10d272383208574fb15737eb28edb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 12/22] fix: write JSON pointers with escaped special
 characters, empty names and long indices

---
 include/persistence/detail/path.hpp    | 13 +++++++++++--
 include/persistence/detail/segment.hpp |  7 ++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..fe6af54 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -24,10 +24,19 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    // escape characters with a special meaning in a JSON pointer
+                    for (char c : it->name) {
+                        if (c == '~') {
+                            path.append("~0");
+                        } else if (c == '/') {
+                            path.append("~1");
+                        } else {
+                            path.push_back(c);
+                        }
+                    }
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
-                    constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
+                    constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10 + 1;
                     std::size_t size = path.size();
                     path.resize(size + max_len);
 
diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..3f300f0 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,18 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
+        bool named = false;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From e4e0521a66bf0f3bf4711a046309ad3543af2442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 13/22] fix: reference objects in a set by the position of the
 element

---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 0c90cab9529c7a614b42f4cc265b10c1807644b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:07 +0000
Subject: [PATCH 14/22] fix: resolve references to the object of the variant
 alternative that was matched

---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0


From 406a654a89f2b2ba62922560e1b39440f6ede8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:59 +0000
Subject: [PATCH 15/22] fix: reject unresolved, malformed and mistyped object
 references

---
 include/persistence/deserialize_pointer.hpp   | 33 +++++++++++++++----
 .../detail/deserialize_context.hpp            | 15 +++++++--
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..b52fe74 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,9 +1,13 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "deserialize_check.hpp"
+#include "exception.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
 #include <memory>
+#include <typeinfo>
 
 namespace persistence
 {
@@ -40,18 +44,22 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
+                    PERSISTENCE_IF_UNLIKELY(!detail::check_string<Exception>(it->value, context)) {
+                        return false;
+                    }
+
                     rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
+                    rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
                     PERSISTENCE_IF_UNLIKELY(!object) {
-                        return false;
+                        return fail();
                     }
 
                     auto ref = context.get(object);
-                    PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
+                    PERSISTENCE_IF_UNLIKELY(!ref.has_value() || *ref->type != typeid(T)) {
+                        return fail();
                     }
 
-                    pointer = std::reinterpret_pointer_cast<T>(ref.value());
+                    pointer = std::static_pointer_cast<T>(ref->object);
                     return true;
                 }
             }
@@ -61,8 +69,21 @@ namespace persistence
                 return false;
             }
 
-            context.put(&json, pointer);
+            context.put(&json, DeserializerReference{ pointer, &typeid(T) });
             return true;
         }
+
+    private:
+        bool fail() const
+        {
+            if constexpr (Exception) {
+                throw JsonDeserializationError(
+                    "reference to an object that has not been encountered before",
+                    Path(context.segments()).str()
+                );
+            } else {
+                return false;
+            }
+        }
     };
 }
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..1e949e3 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,15 +2,24 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeinfo>
 
 namespace persistence
 {
+    /** An object that may be referenced by a subsequent JSON pointer. */
+    struct DeserializerReference
+    {
+        std::shared_ptr<void> object;
+        const std::type_info* type;
+    };
+
     /** Context for de-serializing an object from a JSON DOM document. */
     struct GlobalDeserializerContext : DocumentContext
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        ReferenceTable<const rapidjson::Value*, DeserializerReference> references;
     };
 
     struct DeserializerContext
@@ -26,12 +35,12 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
+        std::optional<DeserializerReference> get(const rapidjson::Value* pointer) const
         {
             return global.references.get(pointer);
         }
 
-        void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
+        void put(const rapidjson::Value* pointer, DeserializerReference object)
         {
             global.references.put(std::move(pointer), std::move(object));
         }
-- 
2.43.0


From 9cbefed8f55c81b737d0b191110842844509f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:25 +0000
Subject: [PATCH 16/22] fix: a document parsed from a temporary string does not
 refer to that string

---
 include/persistence/utility.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..5d7d969 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -35,7 +35,8 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        // the document outlives the source string, which rules out in-situ parsing
+        doc.Parse(str.data());
         return doc;
     }
 }
-- 
2.43.0


From 9d19bc0479e4ef43b3821b635649d7213f2198ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:54 +0000
Subject: [PATCH 17/22] fix: look up members of classes whose names differ only
 in high-order bits

---
 include/persistence/detail/perfect_hash.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..003b2a6 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -23,6 +23,10 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+                // spread octet differences such that a remainder depends on all bits
+                d = (d ^ (d >> 16)) * 0x85ebca6b;
+                d = (d ^ (d >> 13)) * 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -36,6 +40,10 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+                // spread octet differences such that a remainder depends on all bits
+                d = (d ^ (d >> 33)) * 0xff51afd7ed558ccd;
+                d = (d ^ (d >> 33)) * 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From a21601ca62ab1402d3f0a2189611d2e54b417126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:16 +0000
Subject: [PATCH 18/22] fix: emit a schema for enumerations that admits their
 values

The schema of an enumeration listed no enumerators (enum: []), which no value
satisfies, and declared enumerations without names as objects although they are
written as integers.
---
 include/persistence/schema.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 5f9e398..d137080 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -157,11 +157,11 @@ namespace persistence
         {}
 
         std::string_view type;
-        std::variant<
+        std::optional<std::variant<
             std::vector<long long>,
             std::vector<unsigned long long>,
             std::vector<std::string>
-        > enum_values;
+        >> enum_values;
 
         template <typename Archive>
         constexpr auto persist(Archive& ar)
@@ -332,10 +332,8 @@ namespace persistence
         {
             if constexpr (detect<T, enum_to_string_function>::value) {
                 return JsonSchemaEnumType("string");
-            } else if constexpr (std::is_integral_v<T>) {
-                return JsonSchemaEnumType("integer");
             } else {
-                return JsonSchemaEnumType("object");
+                return JsonSchema<std::underlying_type_t<T>>::type();
             }
         }
     };
-- 
2.43.0


From 573a81d55a1f48fba6cf246dee489a5af47960fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:34 +0000
Subject: [PATCH 19/22] fix: generate a schema for classes that contain
 themselves

Building the definition of a class visited its members before the definition was
registered, and recursed without end when a member referred to the class itself.
---
 include/persistence/schema.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index d137080..940ff27 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -388,13 +388,11 @@ namespace persistence
     JsonSchemaType make_schema(JsonSchemaContext& context)
     {
         if constexpr (is_schema_traversable_v<T>) {
-            // save sub-schema in context
-            context.definitions.insert(
-                std::make_pair(
-                    std::string_view(typeid(T).name()),
-                    JsonSchema<T>::type(context)
-                )
-            );
+            // save sub-schema in context; reserve the name first for types that (indirectly) contain themselves
+            const std::string_view name = typeid(T).name();
+            if (context.definitions.emplace(name, JsonSchemaReferenceType()).second) {
+                context.definitions.insert_or_assign(name, JsonSchema<T>::type(context));
+            }
 
             // use alias to refer to sub-schema
             return JsonSchemaReferenceType(
-- 
2.43.0


From 3d6fd5d8c68e4f855ca90f3817ef8ab1bf56b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:33 +0000
Subject: [PATCH 20/22] fix: do not destroy a parser twice when constructing
 the next one throws

The stack of parsers counted an element before its constructor had run; if the
constructor threw (e.g. when allocating the object behind a smart pointer), the
element below was destroyed twice.
---
 include/persistence/detail/polymorphic_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..1f23d06 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,13 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
+                // register the object only when its constructor has succeeded
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From 5f8c62b9bef2ee687cc4b3bd440d5fe7c5ca564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:33 +0000
Subject: [PATCH 21/22] fix: report a parse failure for JSON data that is
 nested too deeply

The parser let std::out_of_range escape to the caller, even from the function
that returns whether parsing succeeded, when recursive data exhausted its stack.
---
 include/persistence/detail/polymorphic_stack.hpp | 8 +++++++-
 include/persistence/parse.hpp                    | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 1f23d06..6e05fce 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -8,6 +8,12 @@ namespace persistence
 {
     namespace detail
     {
+        /** Thrown when an object does not fit on the stack. */
+        struct StackExhausted : std::out_of_range
+        {
+            using std::out_of_range::out_of_range;
+        };
+
         /**
          * A stack for storing polymorphic objects deriving from a common base class.
          *
@@ -24,7 +30,7 @@ namespace persistence
                 static_assert(std::is_base_of<Base, Class>::value, "newly constructed class must derive from base class");
 
                 PERSISTENCE_IF_UNLIKELY(count >= Capacity || (next - memory) >= static_cast<std::ptrdiff_t>(MemorySize - alignof(Class) - sizeof(Class))) {
-                    throw std::out_of_range("stack space exhausted");
+                    throw StackExhausted("stack space exhausted");
                 }
 
                 // ensure proper alignment for newly constructed object
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..9194c89 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,12 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            try {
+                return reader.Parse(stream, context.dispatcher);
+            } catch (const StackExhausted&) {
+                context.fail("JSON data is nested too deeply");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From fb941fc68a61f5532efe25fbd7fe73a3cc8a67cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:58 +0000
Subject: [PATCH 22/22] fix: forget shared objects read by a variant
 alternative that does not match

A JSON pointer could name an object that was read by an alternative of a variant
that failed afterwards, and resolve to an object that is not part of the result.
---
 include/persistence/deserialize_variant.hpp   |  3 +++
 .../detail/deserialize_context.hpp            | 12 ++++++++++++
 include/persistence/detail/references.hpp     | 19 +++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/include/persistence/deserialize_variant.hpp b/include/persistence/deserialize_variant.hpp
index 485e60c..7d916eb 100644
--- a/include/persistence/deserialize_variant.hpp
+++ b/include/persistence/deserialize_variant.hpp
@@ -33,7 +33,10 @@ namespace persistence
         bool deserialize_variant(const rapidjson::Value& json, std::variant<Ts...>& value) const
         {
             T var;
+            std::size_t reference_count = context.reference_count();
             if (!deserialize<false>(json, var, context)) {
+                // objects read by an alternative that does not match are not part of the result
+                context.forget(reference_count);
                 return false;
             }
 
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 1e949e3..cf39eb1 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -45,6 +45,18 @@ namespace persistence
             global.references.put(std::move(pointer), std::move(object));
         }
 
+        /** Number of objects that may be referenced. */
+        std::size_t reference_count() const
+        {
+            return global.references.count();
+        }
+
+        /** Forgets objects that have been registered since there were as many as specified. */
+        void forget(std::size_t reference_count)
+        {
+            global.references.rollback(reference_count);
+        }
+
         rapidjson::Document& document()
         {
             return global.document();
diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 54c6d3f..1e53157 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <map>
 #include <optional>
+#include <vector>
 
 namespace persistence
 {
@@ -20,14 +21,32 @@ namespace persistence
         void put(const K& key, const V& value)
         {
             references.insert_or_assign(key, value);
+            history.push_back(key);
         }
 
         void put(K&& key, V&& value)
         {
+            history.push_back(key);
             references.insert_or_assign(std::move(key), std::move(value));
         }
 
+        /** Number of entries made so far. */
+        std::size_t count() const
+        {
+            return history.size();
+        }
+
+        /** Drops all entries but the first few. */
+        void rollback(std::size_t count)
+        {
+            while (history.size() > count) {
+                references.erase(history.back());
+                history.pop_back();
+            }
+        }
+
     private:
         std::map<K, V> references;
+        std::vector<K> history;
     };
 }
-- 
2.43.0

