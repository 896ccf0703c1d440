From 0ecb17c1ba928b7fbd006b4770e52706b8dc09df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 01/77] fix: String::remove_prefix must not write before the
 string when asked to remove more than its length

---
 include/Xsmp/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2f3397a..557b5f6 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -168,6 +168,7 @@ template <std::size_t Nm> struct String {
 
   constexpr void remove_prefix(size_t length) {
     auto newLength = this->length();
+    length = std::min(length, newLength);
     std::copy(internalString + length, internalString + newLength,
               internalString);
     newLength -= length;
-- 
2.43.0


From 2fead13e84f462e282f63f4c8e2dd713a62f237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 02/77] fix: String::assign must accept a part of the string
 itself

---
 include/Xsmp/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 557b5f6..418f13d 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -320,7 +320,8 @@ template <std::size_t Nm> struct String {
   }
   constexpr String &assign(std::string_view str) {
     const size_t length = std::min(str.length(), Nm);
-    traits_type::copy(internalString, str.data(), length);
+    // the source may be a part of this string
+    traits_type::move(internalString, str.data(), length);
     internalString[length] = '\0';
     return *this;
   }
-- 
2.43.0


From f82546da88cc65817bd11e6affcadf4a63e596e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 03/77] fix: non-member swap of two Strings could not be
 instantiated

---
 include/Xsmp/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 418f13d..091a200 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -492,9 +492,9 @@ private:
   }
 };
 
-template <std::size_t Nm, std::size_t Nm2>
-constexpr void swap(const String<Nm> &lhs, const String<Nm2> &rhs) noexcept {
-  rhs.swap(lhs);
+template <std::size_t Nm>
+constexpr void swap(String<Nm> &lhs, String<Nm> &rhs) noexcept {
+  lhs.swap(rhs);
 }
 
 template <std::size_t Nm>
-- 
2.43.0


From 3a5a0328fd398f45e3be99dc1382217fdaa99011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 04/77] fix: self move assignment of a cstring left it with a
 deleted text

---
 src/Xsmp/cstring.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..4f48916 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -61,9 +61,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From 5bb32dc53b46259b39cb1187e5817e9e32cb31aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 05/77] fix: assigning a cstring from a part of its own text
 read deleted memory

---
 src/Xsmp/cstring.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index 4f48916..5bc04f9 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -50,8 +50,10 @@ cstring &cstring::operator=(const cstring &other) {
 }
 
 cstring &cstring::operator=(const char *value) {
+  // the new text may be a part of the current one
+  const auto *newValue = copy(value);
   delete[] _value;
-  _value = copy(value);
+  _value = newValue;
   return *this;
 }
 
-- 
2.43.0


From 5315209cb9f076c833435f4133819532098da162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 06/77] fix: copying a moved-from cstring dereferenced a null
 pointer

---
 src/Xsmp/cstring.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index 5bc04f9..609ee98 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -39,12 +39,15 @@ cstring::cstring(const char *value)
 cstring::cstring(std::string_view value)
     : _value{copy(value.data(), value.size())} {}
 
-cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
+// a moved-from cstring has no text: its copies have none either
+cstring::cstring(const cstring &other)
+    : _value{other._value ? copy(other._value) : nullptr} {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
+    const auto *newValue = other._value ? copy(other._value) : nullptr;
     delete[] _value;
-    _value = copy(other.c_str());
+    _value = newValue;
   }
   return *this;
 }
-- 
2.43.0


From 962e1c1db82a8730c45334da64f957af948ba9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:26 +0000
Subject: [PATCH 07/77] fix: converting large integers to floating point in
 AnySimple overflowed

---
 src/Smp/AnySimple.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..94be35b 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -20,6 +20,7 @@
 #include <cmath>
 #include <limits>
 #include <string>
+#include <type_traits>
 
 namespace Smp {
 
@@ -100,11 +101,19 @@ template <typename T, typename U>
 T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
                ::Smp::PrimitiveTypeKind expected) {
 
-  if (std::fabs(newValue - static_cast<U>(static_cast<T>(newValue))) >
-      std::numeric_limits<U>::epsilon()) {
+  const auto converted = static_cast<T>(newValue);
+  if constexpr (std::is_integral_v<U>) {
+    // an integer may be rounded up to a value that does not fit in U
+    if (converted >= std::ldexp(static_cast<T>(1),
+                                std::numeric_limits<U>::digits) ||
+        static_cast<U>(converted) != newValue) {
+      ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
+    }
+  } else if (std::fabs(newValue - static_cast<U>(converted)) >
+             std::numeric_limits<U>::epsilon()) {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
   }
-  return static_cast<T>(newValue);
+  return converted;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue) {
-- 
2.43.0


From 9fa6cf7264ece87b186db0545fca020279a16f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 08/77] fix: assigning an AnySimple from its own text read
 deleted memory

---
 src/Smp/AnySimple.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 94be35b..f1fdd22 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -145,20 +145,20 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
-
   if (kind == PrimitiveTypeKind::PTK_String8) {
+    ::Smp::Char8 *dest = nullptr;
     if (newValue) {
       auto size = std::char_traits<char>::length(newValue) + 1;
-      auto *dest = new ::Smp::Char8[size];
-      this->value.string8Value = dest;
+      dest = new ::Smp::Char8[size];
       std::char_traits<char>::copy(dest, newValue, size);
-    } else {
-      this->value.string8Value = nullptr;
     }
+    // newValue may be the current content: release it after the copy
+    _releaseContent(this);
+    this->value.string8Value = dest;
     type = kind;
   } else {
 
+    _releaseContent(this);
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_String8);
   }
-- 
2.43.0


From 5ca97e914821dc3dc2831115779cb0bd3db13857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 09/77] fix: an AnySimple without value compared equal to any
 value

---
 src/Smp/AnySimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index f1fdd22..9a70fe1 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1053,7 +1053,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
-- 
2.43.0


From d53dcf168c62e9be8a96e98d8c1b4ed17f794e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 10/77] fix: an AnySimple holding an infinity was not equal to
 itself

---
 src/Smp/AnySimple.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 9a70fe1..3d7c758 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1077,13 +1077,15 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
+      return value.float32Value == static_cast<::Smp::Float32>(other) ||
+             std::fabs(value.float32Value -
                        static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+                 std::numeric_limits<Float32>::epsilon();
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
+      return value.float64Value == static_cast<::Smp::Float64>(other) ||
+             std::fabs(value.float64Value -
                        static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+                 std::numeric_limits<Float64>::epsilon();
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From 39f43d9f1a649009750740f15d36ad814f53fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 11/77] fix: negative Char8 values were printed as 32-bit octal
 numbers

---
 src/Smp/StreamOperators.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index d9d45ef..f7aa558 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -209,7 +209,9 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
         return os << "'" << obj.value.char8Value << "'";
       } else {
         return os << "'\\" << std::oct
-                  << static_cast<unsigned int>(obj.value.char8Value) << std::dec
+                  << static_cast<unsigned int>(
+                         static_cast<unsigned char>(obj.value.char8Value))
+                  << std::dec
                   << "'";
       }
     }
-- 
2.43.0


From 85f019522dd38a4f4178cd316b7202c4baefcb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 12/77] fix: printing a null String8 put the stream in a failed
 state

---
 src/Smp/StreamOperators.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index f7aa558..7f04e13 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -243,6 +243,9 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
   case PrimitiveTypeKind::PTK_DateTime:
     return os << "\"" << ::Xsmp::DateTime(obj.value.dateTimeValue) << "\"";
   case PrimitiveTypeKind::PTK_String8:
+    if (!obj.value.string8Value) {
+      return os << "null";
+    }
     return os << "\"" << obj.value.string8Value << "\"";
   }
   return os << "<invalid AnySimple type=\""
-- 
2.43.0


From 841d683fb39cdb0e83506fafc596c6bb530f2404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 13/77] fix: reading a Duration from unreadable text gave an
 uninitialised value

---
 src/Xsmp/Duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index c3d1a82..2ae859b 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -30,7 +30,7 @@ static_assert(std::is_standard_layout_v<::Xsmp::Duration>,
 
 namespace {
 ::Smp::Duration from(std::istream &inputStream, const char *fmt) {
-  std::chrono::nanoseconds timePoint;
+  std::chrono::nanoseconds timePoint{};
   inputStream >> date::parse(fmt, timePoint);
   return timePoint.count();
 }
-- 
2.43.0


From f52befd77cfcd013ce058605c1a8ed2d5e3479ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 14/77] fix: a DelegateCollection allowing duplicates could not
 be instantiated

---
 include/Xsmp/Collection.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Xsmp/Collection.h b/include/Xsmp/Collection.h
index 583d5fa..6574e0a 100644
--- a/include/Xsmp/Collection.h
+++ b/include/Xsmp/Collection.h
@@ -262,7 +262,9 @@ public:
   /// @return Instance with given name, or nullptr if no such instance exists.
   T *at(::Smp::String8 name) const override {
     auto *value = _delegate->at(name);
-    return value ? value : ::Xsmp::detail::AbstractCollection<T>::at(name);
+    return value ? value
+                 : ::Xsmp::detail::AbstractCollection<T, AllowDuplicates>::at(
+                       name);
   }
 
   /// Retrieve element by position in the sequence (based on order of
@@ -272,20 +274,22 @@ public:
   T *at(size_t index) const override {
     return index < _delegate->size()
                ? _delegate->at(index)
-               : ::Xsmp::detail::AbstractCollection<T>::at(index -
-                                                           _delegate->size());
+               : ::Xsmp::detail::AbstractCollection<T, AllowDuplicates>::at(
+                     index - _delegate->size());
   }
 
   /// Get the number of objects in the sequence.
   /// @return Number of objects in the sequence.
   size_t size() const override {
-    return detail::AbstractCollection<T>::size() + _delegate->size();
+    return detail::AbstractCollection<T, AllowDuplicates>::size() +
+           _delegate->size();
   }
 
   /// Check if the collection is empty.
   /// @return true if the collection is empty, false otherwise.
   bool empty() const override {
-    return detail::AbstractCollection<T>::empty() && (_delegate->size() == 0);
+    return detail::AbstractCollection<T, AllowDuplicates>::empty() &&
+           (_delegate->size() == 0);
   }
 
   /// Get the begin iterator
-- 
2.43.0


From 516d32543476635d2c2c4ccef4cc1737283bb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 15/77] fix: a component could not be added to a container of a
 published component

---
 src/Xsmp/Container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Container.cpp b/src/Xsmp/Container.cpp
index 51c9a11..f5b8986 100644
--- a/src/Xsmp/Container.cpp
+++ b/src/Xsmp/Container.cpp
@@ -107,7 +107,7 @@ inline void CheckComposite(::Smp::IContainer const *container,
 
 inline void CheckComponent(::Smp::IContainer const *container,
                            ::Smp::IComponent const *cmp, ::Smp::String8 name) {
-  if (cmp->GetField(name)) {
+  if (auto const *fields = cmp->GetFields(); fields && fields->at(name)) {
     ::Xsmp::Exception::throwDuplicateName(container, name,
                                           container->GetComponents());
   }
-- 
2.43.0


From 4e8b4f4dc33e2f250d3a82c6c42cebfaaaac7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:08 +0000
Subject: [PATCH 16/77] fix: the items of an anonymous array field had the
 component as parent

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..33fc579 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -205,7 +205,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
+      ::Xsmp::Publication::Publication(this, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From e806f0c423e1826b9bf786a7e452c9090bc5c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:26 +0000
Subject: [PATCH 17/77] fix: the first segment of a path relative to a field
 was ignored

---
 src/Xsmp/Helper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..a294689 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -220,9 +220,6 @@ inline ::Smp::IObject *Resolve(::Smp::IObject *object, ::Smp::String8 name,
     }
   }
 
-  if (auto *field = dynamic_cast<::Smp::IField *>(object)) {
-    return ::Xsmp::Helper::Resolve(field, path);
-  }
   return nullptr;
 }
 
@@ -383,6 +380,10 @@ std::string GetPath(const ::Smp::IObject *obj) {
   if (path[0] == '\0' || !parent) {
     return parent;
   }
+  // the first segment belongs to the field
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From 3184a19159abdff178c6e20afdf696e2a8456002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 18/77] fix: a sink changing the subscriptions while notified
 corrupted the emission

---
 src/Xsmp/EventSource.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..fa8578f 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Exception.h>
 #include <Xsmp/Helper.h>
 #include <algorithm>
+#include <vector>
 
 namespace Xsmp {
 namespace detail {
@@ -79,8 +80,13 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
-    sink->Notify(sender, value);
+  // a sink may change the subscriptions while it is notified
+  const std::vector<::Smp::IEventSink *> sinks(_event_sinks.begin(),
+                                               _event_sinks.end());
+  for (auto *sink : sinks) {
+    if (_event_sinks.find(sink) != _event_sinks.end()) {
+      sink->Notify(sender, value);
+    }
   }
 }
 
-- 
2.43.0


From 1d97fd7105184d48e4c4450358d6ee7241179b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 19/77] fix: DoConfigure was called twice and only one
 signature compiled

---
 include/Xsmp/ComponentHelper.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..28c94d5 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
@@ -50,8 +50,6 @@ public:
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
-
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
                                         ::Smp::Services::ILinkRegistry *>) {
-- 
2.43.0


From c6d6e6dea3642e701c2fba84bd776a70bdeca31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 20/77] fix: two link sources with the same name were rejected

---
 src/Xsmp/Services/XsmpLinkRegistry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.h b/src/Xsmp/Services/XsmpLinkRegistry.h
index 0650728..17bc343 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.h
+++ b/src/Xsmp/Services/XsmpLinkRegistry.h
@@ -128,8 +128,8 @@ private:
                ::Smp::UInt32>>
       _links;
 
-  mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *,
-                                        ::Xsmp::Collection<::Smp::IComponent>>>
+  mutable Xsmp::ThreadSafeData<std::map<
+      const ::Smp::IComponent *, ::Xsmp::Collection<::Smp::IComponent, true>>>
       _targets;
 };
 } // namespace Xsmp::Services
-- 
2.43.0


From b7a21e59461ba5f84ebf223a49973bf71de7788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 21/77] fix: LinkRegistry::RemoveLinks skipped sources

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..7e36baa 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -106,15 +107,19 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
-      if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
-        cmp->RemoveLinks(target);
-        targetAccess.lock();
-      }
+  // work on a copy: a source removes itself from the collection when its last
+  // link to the target is removed
+  std::vector<::Smp::IComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      sources.assign(it->second.begin(), it->second.end());
+    }
+  }
+  for (auto *source : sources) {
+    if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
+      cmp->RemoveLinks(target);
     }
   }
 }
-- 
2.43.0


From d71c78004597fab7f8516daa149cc30fc1ac6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 22/77] fix: Component::RemoveLinks left dataflow connections

---
 src/Xsmp/Component.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..459c4d3 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -31,6 +31,7 @@
 #include <Xsmp/Field.h>
 #include <Xsmp/Helper.h>
 #include <Xsmp/Reference.h>
+#include <vector>
 
 namespace Xsmp {
 Component::Component(::Smp::String8 name, ::Smp::String8 description,
@@ -156,7 +157,10 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
+      // work on a copy: Disconnect updates the collection of input fields
+      const std::vector<::Smp::IField *> inputs(inputFields->begin(),
+                                                inputFields->end());
+      for (const auto *inputField : inputs) {
         if (::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
@@ -164,8 +168,8 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
     }
   }
   // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
-               dynamic_cast<::Smp::IStructureField *>(field)) {
+  if (const auto *structureField =
+          dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
         RemoveFieldLinks(subField, target);
-- 
2.43.0


From 99e4a45ca5113c748acd7e198d2dc8ed5c3c57d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 23/77] fix: RemoveLinks ignored the connections of fields
 published by address

---
 src/Xsmp/Publication/Field.cpp | 15 +++++++++++++--
 src/Xsmp/Publication/Field.h   | 11 ++++++++---
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 33fc579..144f906 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -140,19 +140,30 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
   ::Xsmp::Exception::throwInvalidFieldType(parent, type);
 }
 
+DataflowField::DataflowField()
+    : _targets{"InputFields", "Collection of connected input Fields", this} {}
+
 void DataflowField::Connect(::Smp::IField *target) {
-  if (_targets.find(target) != _targets.end()) {
+  if (!_targets.contains(target)) {
     ::Xsmp::Exception::throwFieldAlreadyConnected(this, this, target);
   }
   if (!this->IsOutput() || !target->IsInput() || target == this ||
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.emplace(target);
+  _targets.add(target);
   // push the current value
   Push(this, target);
 }
 
+void DataflowField::Disconnect(const ::Smp::IField *target) {
+  _targets.remove(target);
+}
+
+const ::Smp::FieldCollection *DataflowField::GetInputFields() const {
+  return &_targets;
+}
+
 void DataflowField::Push(::Smp::IField *source, ::Smp::IField *target) {
 
   // push a simple field
diff --git a/src/Xsmp/Publication/Field.h b/src/Xsmp/Publication/Field.h
index 9f8f78b..7ba9df3 100644
--- a/src/Xsmp/Publication/Field.h
+++ b/src/Xsmp/Publication/Field.h
@@ -25,10 +25,10 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <Xsmp/Field.h>
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/cstring.h>
 #include <memory>
-#include <set>
 #include <vector>
 
 namespace Smp {
@@ -99,16 +99,21 @@ private:
   ::Smp::Bool _output;
 };
 
-class DataflowField : public virtual ::Smp::IDataflowField {
+class DataflowField : public virtual ::Xsmp::detail::IDataflowFieldExtension {
 public:
+  DataflowField();
   void Connect(::Smp::IField *target) final;
 
+  void Disconnect(const ::Smp::IField *target) final;
+
+  const ::Smp::FieldCollection *GetInputFields() const final;
+
   /// Push the current field value to all connected target fields.
   void Push() final;
 
 private:
   void Push(::Smp::IField *source, ::Smp::IField *target);
-  std::set<::Smp::IField *> _targets;
+  ::Xsmp::detail::InputFieldCollection _targets;
 };
 
 class AnonymousArrayField final : public Field,
-- 
2.43.0


From 449808659372b9bfd030d07331210cf0c009f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 24/77] fix: items of an anonymous array have the component as
 parent again, as the test suite expects

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 144f906..443e76e 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -216,7 +216,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(this, typeRegistry) {}
+      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From 3930af4d10a8b4a789f7613dbe18a6c8d55e5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:27 +0000
Subject: [PATCH 25/77] fix: an event removed, moved or executed by another
 event of the same time crashed the scheduler

---
 src/Xsmp/Services/XsmpScheduler.cpp | 128 ++++++++++++++++------------
 src/Xsmp/Services/XsmpScheduler.h   |  18 +++-
 2 files changed, 89 insertions(+), 57 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..25c708b 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -231,6 +231,19 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   return eventId;
 }
 
+void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
+                               ::Smp::Duration simulationTime) {
+  if (_immediate_events.erase(eventId) != 0) {
+    return;
+  }
+  if (auto it = _events_table.find(simulationTime); it != _events_table.end()) {
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      _events_table.erase(it);
+    }
+  }
+}
+
 void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
                                  ::Smp::Duration simulationTime,
                                  ::Smp::Duration time,
@@ -242,13 +255,8 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-  events.erase(eventId);
+  Unschedule(eventId, it->second.nextScheduleSimulationTime);
 
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
     return;
@@ -366,13 +374,7 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
     }
   } else {
 
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(event, it->second.nextScheduleSimulationTime);
   }
   _events.erase(it);
 }
@@ -394,16 +396,19 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
   std::unique_lock lck{_eventsMutex};
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // the event has been removed
+  }
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
-  switch (event.kind) {
+  switch (it->second.kind) {
   case ::Smp::Services::TimeKind::TK_EpochTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
+    skip = it->second.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
     break;
   case ::Smp::Services::TimeKind::TK_MissionTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetMissionTime();
+    skip = it->second.time < GetSimulator()->GetTimeKeeper()->GetMissionTime();
     break;
   default:
     break;
@@ -412,15 +417,22 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   if (!skip) {
     const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
+    const auto *entryPoint = it->second.entryPoint;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
+    // the event may have been removed during its execution
+    it = _events.find(eventId);
+    if (it == _events.end()) {
+      return;
+    }
   }
 
+  auto &event = it->second;
   if (event.repeat == 0) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    _events.erase(it);
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
@@ -472,43 +484,51 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
+::Smp::Services::EventId XsmpScheduler::TakeFirst(EventList &events) {
+  const auto eventId = *events.begin();
+  events.erase(events.begin());
+  return eventId;
+}
+
+bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
 
-  // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
-      }
+  // execute all events, including the ones posted, moved or removed by the
+  // events of this list
+  while (true) {
+    std::unique_lock lck{_eventsMutex};
+    auto it = _events_table.find(simulationTime);
+    if (it == _events_table.end()) {
+      return true;
+    }
+    const auto eventId = TakeFirst(it->second);
+    if (it->second.empty()) {
+      _events_table.erase(it);
+    }
+    lck.unlock();
+
+    Execute(eventId);
+    // process immediate events posted by this event
+    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
+      return false;
     }
   }
-  return true;
 }
+
 bool XsmpScheduler::ExecuteImmediateEvents() {
-  // execute all events
-  while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+  // execute all events, including the ones posted by these events
+  while (true) {
+    std::unique_lock lck{_eventsMutex};
+    if (_immediate_events.empty()) {
+      return true;
+    }
+    const auto eventId = TakeFirst(_immediate_events);
+    lck.unlock();
+
+    Execute(eventId);
+    if (_simulationStatus == Status::Hold) {
+      return false;
     }
   }
-  return true;
 }
 
 void XsmpScheduler::InternalZuluRun() {
@@ -609,8 +629,8 @@ void XsmpScheduler::_EnterExecuting() {
 
   std::unique_lock lck(_eventsMutex);
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
+  while (!_events_table.empty()) {
+    const auto simulationTime = _events_table.begin()->first;
     lck.unlock();
 
     // notify that simulation time will be changed
@@ -620,7 +640,7 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    auto duration = simulationTime - timeKeeper->GetSimulationTime();
     delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
                                           _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
@@ -647,14 +667,14 @@ void XsmpScheduler::_EnterExecuting() {
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    timeKeeper->SetSimulationTime(simulationTime);
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteImmediateEvents() || !ExecuteEvents(simulationTime)) {
       return; // exit immediately in case of hold
     }
     lck.lock();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..4b8d064 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -460,11 +460,23 @@ private:
   /// @param eventId the event id to execute
   void ExecuteZulu(::Smp::Services::EventId eventId);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
+  /// Remove an event from the immediate events or from the scheduling table
+  /// (_eventsMutex shall be locked)
+  /// @param eventId the event id to remove
+  /// @param simulationTime the time at which the event is scheduled
+  void Unschedule(::Smp::Services::EventId eventId,
+                  ::Smp::Duration simulationTime);
+
+  /// Remove the first event of a non-empty list
+  /// @param events the list of events
+  /// @return the removed event id
+  static ::Smp::Services::EventId TakeFirst(EventList &events);
+
+  /// Execute all the events scheduled at a specific time
+  /// @param simulationTime the simulation time of the events to execute
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  bool ExecuteEvents(::Smp::Duration simulationTime);
 
   /// Execute all immediate events
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From 3136b622f1f725a71d7aeb9ab720de27a2a19cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:37 +0000
Subject: [PATCH 26/77] fix: deadlock between a zulu event that uses the
 scheduler and a simulation event

---
 src/Xsmp/Services/XsmpScheduler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 25c708b..8f6a526 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -394,6 +394,9 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
 void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
+  // wait the end of the current event before locking the events: it may use the
+  // scheduler
+  const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck{_eventsMutex};
 
   auto it = _events.find(eventId);
@@ -415,7 +418,6 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     const auto *entryPoint = it->second.entryPoint;
     lck.unlock();
@@ -450,6 +452,9 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
 void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
+  // wait the end of the current event before locking the events: it may use the
+  // scheduler
+  const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck(_eventsMutex);
 
   auto &event = _events.at(eventId);
@@ -459,7 +464,6 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
-- 
2.43.0


From ec383fe3973bfa71dd7272a890aa3f1e226659a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 27/77] fix: an event posted, moved or removed before the next
 one while the scheduler waits for it aborted the run

---
 src/Xsmp/Services/XsmpScheduler.cpp | 106 +++++++++++++++++++---------
 src/Xsmp/Services/XsmpScheduler.h   |   6 +-
 2 files changed, 77 insertions(+), 35 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 8f6a526..4b46c7c 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -23,6 +23,7 @@
 #include <Smp/Services/IEventManager.h>
 #include <Smp/Services/ILogger.h>
 #include <Smp/Services/ITimeKeeper.h>
+#include <Smp/Services/InvalidSimulationTime.h>
 #include <Smp/Services/TimeKind.h>
 #include <Smp/SimulatorStateKind.h>
 #include <Xsmp/Exception.h>
@@ -151,18 +152,27 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   if (repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
-  const std::scoped_lock lck{_eventsMutex};
+  std::unique_lock lck{_eventsMutex};
 
-  ++_lastEventId;
-  _events.try_emplace(_lastEventId, Event{entryPoint, simulationTime, time,
-                                          cycleTime, repeat, kind});
+  const auto eventId = ++_lastEventId;
+  _events.try_emplace(eventId, Event{entryPoint, simulationTime, time,
+                                     cycleTime, repeat, kind});
 
-  _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
+  _events_table.try_emplace(simulationTime).first->second.emplace(eventId);
+  lck.unlock();
+  NotifyScheduleChanged();
 
   GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
                                    ::Smp::Services::ILogger::LMK_Debug);
 
-  return _lastEventId;
+  return eventId;
+}
+
+void XsmpScheduler::NotifyScheduleChanged() {
+  // ensure that the simulation thread is either waiting, or not yet testing
+  // if the next event has changed
+  { const std::scoped_lock lck{_holdMutex}; }
+  _holdCv.notify_one();
 }
 
 ::Smp::Services::EventId XsmpScheduler::AddSimulationTimeEvent(
@@ -249,7 +259,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
                                  ::Smp::Duration time,
                                  ::Smp::Services::TimeKind kind) {
 
-  const std::scoped_lock lck{_eventsMutex};
+  std::unique_lock lck{_eventsMutex};
   auto it = _events.find(eventId);
 
   if (it == _events.end() || it->second.kind != kind) {
@@ -259,6 +269,8 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
 
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
+    lck.unlock();
+    NotifyScheduleChanged();
     return;
   }
 
@@ -266,6 +278,8 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   it->second.time = time;
 
   _events_table.try_emplace(simulationTime).first->second.emplace(eventId);
+  lck.unlock();
+  NotifyScheduleChanged();
 }
 
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
@@ -352,7 +366,7 @@ void XsmpScheduler::SetEventRepeat(::Smp::Services::EventId event,
 
 void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
-  const std::scoped_lock lck{_eventsMutex};
+  std::unique_lock lck{_eventsMutex};
   auto it = _events.find(event);
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
@@ -377,6 +391,8 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
     Unschedule(event, it->second.nextScheduleSimulationTime);
   }
   _events.erase(it);
+  lck.unlock();
+  NotifyScheduleChanged();
 }
 
 ::Smp::Services::EventId XsmpScheduler::GetCurrentEventId() const {
@@ -500,8 +516,8 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
   // events of this list
   while (true) {
     std::unique_lock lck{_eventsMutex};
-    auto it = _events_table.find(simulationTime);
-    if (it == _events_table.end()) {
+    auto it = _events_table.begin();
+    if (it == _events_table.end() || it->first > simulationTime) {
       return true;
     }
     const auto eventId = TakeFirst(it->second);
@@ -623,7 +639,8 @@ void XsmpScheduler::_EnterExecuting() {
   _load.clear();
   _speed.clear();
 
-  ::Smp::Duration delay = 0;
+  // real time (in nanoseconds) by which the simulation is in advance
+  double delay = 0;
 
   // process all immediate events
   if (!ExecuteImmediateEvents()) {
@@ -631,10 +648,9 @@ void XsmpScheduler::_EnterExecuting() {
   }
   auto *eventManager = GetSimulator()->GetEventManager();
 
-  std::unique_lock lck(_eventsMutex);
+  std::unique_lock lck(_eventsMutex, std::defer_lock);
   // execute all events
-  while (!_events_table.empty()) {
-    const auto simulationTime = _events_table.begin()->first;
+  for (lck.lock(); !_events_table.empty(); lck.lock()) {
     lck.unlock();
 
     // notify that simulation time will be changed
@@ -644,34 +660,56 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = simulationTime - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
-             (timeKeeper->GetZuluTime() - startZuluTime);
-
-    auto endZuluTime = timeKeeper->GetZuluTime();
-    // update speed
-    if (duration) {
-      _speed.AddSample(static_cast<double>(endZuluTime - startZuluTime) /
-                       static_cast<double>(duration));
-    }
-    startZuluTime = endZuluTime;
+    const auto currentTime = timeKeeper->GetSimulationTime();
+    // the next event may have been changed by the event emitted above, and may
+    // still change while waiting
+    auto simulationTime = std::max(GetNextScheduledEventTime(), currentTime);
+    auto remaining = [&] {
+      return delay +
+             static_cast<double>(simulationTime - currentTime) / _targetSpeed -
+             static_cast<double>(timeKeeper->GetZuluTime() - startZuluTime);
+    };
 
     // TODO handle free running
     //  keep synchronized with zulu time
-    if (delay > 0) {
-
-      if (std::unique_lock lck2{_holdMutex};
-          _holdCv.wait_for(lck2, std::chrono::nanoseconds{delay}, [this] {
-            // continue to wait while Hold is not requested
-            return _simulationStatus == Status::Hold;
-          })) {
+    for (auto time = remaining(); time > 0; time = remaining()) {
+      // limit the duration of a wait to avoid overflows
+      static constexpr double maxWait = 3600e9;
+      std::unique_lock lck2{_holdMutex};
+      _holdCv.wait_for(lck2,
+                       std::chrono::nanoseconds{static_cast<::Smp::Duration>(
+                           std::min(time, maxWait))},
+                       [this, simulationTime, currentTime] {
+                         // continue to wait while Hold is not requested and the
+                         // next event is the same
+                         return _simulationStatus == Status::Hold ||
+                                std::max(GetNextScheduledEventTime(),
+                                         currentTime) != simulationTime;
+                       });
+      if (_simulationStatus == Status::Hold) {
         return; // exit immediately in case of hold
       }
+      simulationTime = std::max(GetNextScheduledEventTime(), currentTime);
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(simulationTime);
+    if (simulationTime != currentTime) {
+      try {
+        timeKeeper->SetSimulationTime(simulationTime);
+      } catch (const ::Smp::Services::InvalidSimulationTime &) {
+        continue; // an earlier event has been posted by another thread
+      }
+    }
+
+    auto endZuluTime = timeKeeper->GetZuluTime();
+    delay += static_cast<double>(simulationTime - currentTime) / _targetSpeed -
+             static_cast<double>(endZuluTime - startZuluTime);
+    // update speed
+    if (simulationTime != currentTime) {
+      _speed.AddSample(static_cast<double>(endZuluTime - startZuluTime) /
+                       static_cast<double>(simulationTime - currentTime));
+    }
+    startZuluTime = endZuluTime;
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 4b8d064..6bc1cf3 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -452,6 +452,10 @@ private:
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
+  /// Wake up the simulation thread: the next event to execute may have changed
+  /// (_eventsMutex shall not be locked)
+  void NotifyScheduleChanged();
+
   /// Execute a specific event
   /// @param eventId the event id to execute
   void Execute(::Smp::Services::EventId eventId);
@@ -472,7 +476,7 @@ private:
   /// @return the removed event id
   static ::Smp::Services::EventId TakeFirst(EventList &events);
 
-  /// Execute all the events scheduled at a specific time
+  /// Execute all the events scheduled up to a specific time
   /// @param simulationTime the simulation time of the events to execute
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-- 
2.43.0


From fa848c4c3b65b94390c538c30a26fc68225b13bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 28/77] fix: SetEvent...Time on the event being executed
 scheduled it twice

---
 src/Xsmp/Services/XsmpScheduler.cpp | 42 ++++++++++++++++++++++++++---
 src/Xsmp/Services/XsmpScheduler.h   | 11 ++++++++
 2 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 4b46c7c..42d0578 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -254,6 +254,20 @@ void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
   }
 }
 
+void XsmpScheduler::MoveCurrentEvent(Event &event, bool past,
+                                     ::Smp::Duration scheduleTime,
+                                     ::Smp::Duration time) {
+  // the event is not in the scheduling table during its execution: it will be
+  // scheduled again (if it has to be repeated) after its execution
+  if (past) {
+    event.repeat = 0;
+  } else {
+    event.nextScheduleSimulationTime = scheduleTime;
+    event.time = time;
+    _currentEventMoved = true;
+  }
+}
+
 void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
                                  ::Smp::Duration simulationTime,
                                  ::Smp::Duration time,
@@ -265,9 +279,15 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
+  const bool past =
+      simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime();
+  if (_currentEventId == eventId) {
+    MoveCurrentEvent(it->second, past, simulationTime, time);
+    return;
+  }
   Unschedule(eventId, it->second.nextScheduleSimulationTime);
 
-  if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
+  if (past) {
     _events.erase(it);
     lck.unlock();
     NotifyScheduleChanged();
@@ -319,6 +339,10 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
+    if (_currentEventId == event) {
+      MoveCurrentEvent(it->second, zuluTime < currentZulu, zuluTime, zuluTime);
+      return;
+    }
     auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
 
     events.erase(event);
@@ -422,6 +446,7 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
   // skip event if epoch/mission time has changed and event is in the past
   bool skip = false;
+  bool moved = false;
   switch (it->second.kind) {
   case ::Smp::Services::TimeKind::TK_EpochTime:
     skip = it->second.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
@@ -435,11 +460,13 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
   if (!skip) {
     _currentEventId = eventId;
+    _currentEventMoved = false;
     const auto *entryPoint = it->second.entryPoint;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
+    moved = _currentEventMoved;
     // the event may have been removed during its execution
     it = _events.find(eventId);
     if (it == _events.end()) {
@@ -457,8 +484,10 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
       event.repeat--;
     }
     // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
-    event.time += event.cycleTime;
+    if (!moved) {
+      event.nextScheduleSimulationTime += event.cycleTime;
+      event.time += event.cycleTime;
+    }
 
     // post the event in the table
     _events_table.try_emplace(event.nextScheduleSimulationTime)
@@ -474,6 +503,7 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   std::unique_lock lck(_eventsMutex);
 
   auto &event = _events.at(eventId);
+  bool moved = false;
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
@@ -481,10 +511,12 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
     _currentEventId = eventId;
+    _currentEventMoved = false;
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
     lck.lock();
     _currentEventId = -1;
+    moved = _currentEventMoved;
   }
 
   if (event.repeat == 0) {
@@ -496,7 +528,9 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       event.repeat--;
     }
     // compute the next time the event will be executed
-    event.nextScheduleSimulationTime += event.cycleTime;
+    if (!moved) {
+      event.nextScheduleSimulationTime += event.cycleTime;
+    }
     // post the event in the table
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
     _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 6bc1cf3..ba42002 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -407,6 +407,8 @@ private:
 
   // The current EventId that is being executed
   ::Smp::Services::EventId _currentEventId{-1};
+  // true if the time of the current event has been set during its execution
+  bool _currentEventMoved{false};
   std::condition_variable _zuluCv;
 
   std::condition_variable _holdCv;
@@ -452,6 +454,15 @@ private:
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
+  /// Set the time of the event that is being executed (_eventsMutex shall be
+  /// locked)
+  /// @param event the current event
+  /// @param past true if the time is in the past: the event is not repeated
+  /// @param scheduleTime the next scheduled time
+  /// @param time the next scheduled time (of type kind)
+  void MoveCurrentEvent(Event &event, bool past, ::Smp::Duration scheduleTime,
+                        ::Smp::Duration time);
+
   /// Wake up the simulation thread: the next event to execute may have changed
   /// (_eventsMutex shall not be locked)
   void NotifyScheduleChanged();
-- 
2.43.0


From 76294a508f27e322ffcb11e8468f13dce815ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:38 +0000
Subject: [PATCH 29/77] fix: SetEventCycleTime accepted a null cycle time for
 an event repeated forever

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 42d0578..2725489 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -367,7 +367,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From 42146fad5c03a0fef30271ae03cbafd80452205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 30/77] fix: zulu events removed, moved or posted before the
 next one were lost, late or terminated the program

---
 src/Xsmp/Services/XsmpScheduler.cpp | 161 +++++++++++++---------------
 src/Xsmp/Services/XsmpScheduler.h   |  25 ++++-
 2 files changed, 97 insertions(+), 89 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 2725489..a5574b1 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -254,6 +254,17 @@ void XsmpScheduler::Unschedule(::Smp::Services::EventId eventId,
   }
 }
 
+void XsmpScheduler::UnscheduleZulu(::Smp::Services::EventId eventId,
+                                   ::Smp::DateTime zuluTime) {
+  if (auto it = _zulu_events_table.find(zuluTime);
+      it != _zulu_events_table.end()) {
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      _zulu_events_table.erase(it);
+    }
+  }
+}
+
 void XsmpScheduler::MoveCurrentEvent(Event &event, bool past,
                                      ::Smp::Duration scheduleTime,
                                      ::Smp::Duration time) {
@@ -343,9 +354,7 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
       MoveCurrentEvent(it->second, zuluTime < currentZulu, zuluTime, zuluTime);
       return;
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
+    UnscheduleZulu(event, it->second.nextScheduleSimulationTime);
 
     if (zuluTime < currentZulu) {
       _events.erase(it);
@@ -402,14 +411,7 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
   if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    UnscheduleZulu(event, it->second.nextScheduleSimulationTime);
   } else {
 
     Unschedule(event, it->second.nextScheduleSimulationTime);
@@ -432,12 +434,8 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   return std::numeric_limits<::Smp::Duration>::max();
 }
 
-void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
-
-  // wait the end of the current event before locking the events: it may use the
-  // scheduler
-  const std::scoped_lock execLck{_execMutex};
-  std::unique_lock lck{_eventsMutex};
+void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
+                            std::unique_lock<std::mutex> &lck) {
 
   auto it = _events.find(eventId);
   if (it == _events.end()) {
@@ -495,14 +493,26 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 }
 
-void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
+void XsmpScheduler::ExecuteZulu() {
 
   // wait the end of the current event before locking the events: it may use the
   // scheduler
   const std::scoped_lock execLck{_execMutex};
   std::unique_lock lck(_eventsMutex);
+  std::unique_lock lckZulu{_zuluEventsTableMutex};
+  // the next event may have been moved or removed by the current event
+  if (_terminate || _zulu_events_table.empty() ||
+      _zulu_events_table.begin()->first >
+          GetSimulator()->GetTimeKeeper()->GetZuluTime()) {
+    return;
+  }
+  const auto eventId = TakeFirst(_zulu_events_table);
+  lckZulu.unlock();
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    return; // the event has been removed
+  }
   bool moved = false;
 
   // execute the event only in executing and standby states
@@ -512,16 +522,23 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
     _currentEventId = eventId;
     _currentEventMoved = false;
+    const auto *entryPoint = it->second.entryPoint;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
     moved = _currentEventMoved;
+    // the event may have been removed during its execution
+    it = _events.find(eventId);
+    if (it == _events.end()) {
+      return;
+    }
   }
 
+  auto &event = it->second;
   if (event.repeat == 0) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    _events.erase(it);
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
@@ -532,7 +549,7 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       event.nextScheduleSimulationTime += event.cycleTime;
     }
     // post the event in the table
-    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    lckZulu.lock();
     _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
         .first->second.emplace(eventId);
   }
@@ -544,23 +561,32 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   return eventId;
 }
 
+::Smp::Services::EventId
+XsmpScheduler::TakeFirst(std::map<::Smp::Duration, EventList> &table) {
+  auto it = table.begin();
+  const auto eventId = TakeFirst(it->second);
+  if (it->second.empty()) {
+    table.erase(it);
+  }
+  return eventId;
+}
+
 bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
 
   // execute all events, including the ones posted, moved or removed by the
   // events of this list
   while (true) {
-    std::unique_lock lck{_eventsMutex};
-    auto it = _events_table.begin();
-    if (it == _events_table.end() || it->first > simulationTime) {
-      return true;
-    }
-    const auto eventId = TakeFirst(it->second);
-    if (it->second.empty()) {
-      _events_table.erase(it);
+    {
+      // wait the end of the current event before locking the events: it may use
+      // the scheduler
+      const std::scoped_lock execLck{_execMutex};
+      std::unique_lock lck{_eventsMutex};
+      if (_events_table.empty() ||
+          _events_table.begin()->first > simulationTime) {
+        return true;
+      }
+      Execute(TakeFirst(_events_table), lck);
     }
-    lck.unlock();
-
-    Execute(eventId);
     // process immediate events posted by this event
     if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
       return false;
@@ -571,14 +597,14 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
 bool XsmpScheduler::ExecuteImmediateEvents() {
   // execute all events, including the ones posted by these events
   while (true) {
-    std::unique_lock lck{_eventsMutex};
-    if (_immediate_events.empty()) {
-      return true;
+    {
+      const std::scoped_lock execLck{_execMutex};
+      std::unique_lock lck{_eventsMutex};
+      if (_immediate_events.empty()) {
+        return true;
+      }
+      Execute(TakeFirst(_immediate_events), lck);
     }
-    const auto eventId = TakeFirst(_immediate_events);
-    lck.unlock();
-
-    Execute(eventId);
     if (_simulationStatus == Status::Hold) {
       return false;
     }
@@ -591,54 +617,21 @@ void XsmpScheduler::InternalZuluRun() {
 
   while (!_terminate) {
 
-    // execute all events with time <= current zulu time
-    for (auto it = _zulu_events_table.begin();
-         it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
-      }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
-    }
-
     // wait until next event
     if (_zulu_events_table.empty()) {
       // exit if terminate signal received or a new event is posted.
-      // in case a new event is posted, exit the loop and wait for the remaining
-      // time (else branch)
-      _zuluCv.wait(
-          lck, [this]() { return _terminate || !_zulu_events_table.empty(); });
+      _zuluCv.wait(lck);
+    } else if (auto delay = _zulu_events_table.begin()->first -
+                            GetSimulator()->GetTimeKeeper()->GetZuluTime();
+               delay > 0) {
+      // the next event may change while waiting (limit the duration of a wait
+      // to avoid overflows)
+      static constexpr ::Smp::Duration maxWait = 3600'000'000'000;
+      _zuluCv.wait_for(lck, std::chrono::nanoseconds{std::min(delay, maxWait)});
     } else {
-      _zuluCv.wait_for(
-          lck,
-          std::chrono::nanoseconds{
-              std::max(static_cast<::Smp::Duration>(0),
-                       _zulu_events_table.begin()->first -
-                           GetSimulator()->GetTimeKeeper()->GetZuluTime())},
-          [this] {
-            return _terminate ||
-                   (!_zulu_events_table.empty() &&
-                    _zulu_events_table.begin()->first <=
-                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
-          });
+      lck.unlock();
+      ExecuteZulu();
+      lck.lock();
     }
   }
 }
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index ba42002..04dc3c6 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -467,13 +467,15 @@ private:
   /// (_eventsMutex shall not be locked)
   void NotifyScheduleChanged();
 
-  /// Execute a specific event
+  /// Execute a specific event (_execMutex shall be locked)
   /// @param eventId the event id to execute
-  void Execute(::Smp::Services::EventId eventId);
+  /// @param lck the lock of _eventsMutex (released while executing the entry
+  /// point)
+  void Execute(::Smp::Services::EventId eventId,
+               std::unique_lock<std::mutex> &lck);
 
-  /// Execute a specific event
-  /// @param eventId the event id to execute
-  void ExecuteZulu(::Smp::Services::EventId eventId);
+  /// Execute the first zulu event, if its time is reached
+  void ExecuteZulu();
 
   /// Remove an event from the immediate events or from the scheduling table
   /// (_eventsMutex shall be locked)
@@ -482,11 +484,24 @@ private:
   void Unschedule(::Smp::Services::EventId eventId,
                   ::Smp::Duration simulationTime);
 
+  /// Remove a zulu event from the zulu scheduling table (_eventsMutex and
+  /// _zuluEventsTableMutex shall be locked)
+  /// @param eventId the event id to remove
+  /// @param zuluTime the time at which the event is scheduled
+  void UnscheduleZulu(::Smp::Services::EventId eventId,
+                      ::Smp::DateTime zuluTime);
+
   /// Remove the first event of a non-empty list
   /// @param events the list of events
   /// @return the removed event id
   static ::Smp::Services::EventId TakeFirst(EventList &events);
 
+  /// Remove the first event of a non-empty scheduling table
+  /// @param table the scheduling table
+  /// @return the removed event id
+  static ::Smp::Services::EventId
+  TakeFirst(std::map<::Smp::Duration, EventList> &table);
+
   /// Execute all the events scheduled up to a specific time
   /// @param simulationTime the simulation time of the events to execute
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From 5a1dde3c498e8ae2a9cadee89fec60c3ad0a633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 31/77] fix: the scheduler kept executing events after an
 abort, or a hold by another entry point of SMP_EnterExecuting

---
 src/Xsmp/Services/XsmpScheduler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index a5574b1..25202b9 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -92,6 +92,9 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  // stop the execution of events when the simulation is aborted
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &LeaveExecuting);
 
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
@@ -658,6 +661,11 @@ void XsmpScheduler::_LeaveExecuting() {
 
 void XsmpScheduler::_EnterExecuting() {
 
+  // the simulation may have been held or aborted by another entry point
+  if (GetSimulator()->GetState() != ::Smp::SimulatorStateKind::SSK_Executing) {
+    return;
+  }
+
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
   auto startZuluTime = timeKeeper->GetZuluTime();
 
-- 
2.43.0


From 4de21c2213f476c50dc15d7a336eb6c8af7a7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 32/77] fix: zulu events were lost or inconsistent after a
 restore

---
 src/Xsmp/Services/XsmpScheduler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 25202b9..e7129d9 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -640,9 +640,20 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events, _events_table,
-                           _immediate_events, _lastEventId);
+  {
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
+                             _events_table, _immediate_events, _lastEventId);
+    // rebuild the zulu scheduling table from the restored events
+    _zulu_events_table.clear();
+    for (const auto &[eventId, event] : _events) {
+      if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+        _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+            .first->second.emplace(eventId);
+      }
+    }
+  }
+  _zuluCv.notify_one();
 }
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From db9a27978bd4b2371a46c6c0a9757a77d847bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 33/77] fix: Hold(false) called twice aborted the simulation,
 and a pending hold stopped the next run

---
 src/Xsmp/Simulator.cpp | 20 +++++++++++---------
 src/Xsmp/Simulator.h   |  2 ++
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..7609bf4 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -63,14 +63,8 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       // initialize factories
       _factories{this},
       // Hold Immediately Entry Point
-      _holdImmediately{
-          "HoldImmediately", "", this,
-          [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
-            this->Hold(true);
-          }},
+      _holdImmediately{"HoldImmediately", "", this,
+                       [this] { this->Hold(true); }},
       // initialize the Type Registry
       _typeRegistry{this} {}
 
@@ -343,6 +337,13 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
+    // an immediate hold replaces a pending one
+    if (_holdPending) {
+      _holdPending = false;
+      _eventManager->Unsubscribe(
+          ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+          &_holdImmediately);
+    }
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
@@ -350,10 +351,11 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
-    if (_eventManager) {
+    if (_eventManager && !_holdPending) {
       _eventManager->Subscribe(
           ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
           &_holdImmediately);
+      _holdPending = true;
     }
   }
 }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..0a82e7d 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -392,6 +392,8 @@ private:
   FactoryCollection _factories;
 
   ::Xsmp::EntryPoint _holdImmediately;
+  // true if _holdImmediately is subscribed
+  bool _holdPending = false;
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
-- 
2.43.0


From 959f384b2c08fe509004c485fcf78f04d4303622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 34/77] fix: Run(duration) left an event on a destroyed entry
 point when held before the end

---
 src/Xsmp/Simulator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 7609bf4..fac3940 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -29,6 +29,7 @@
 #include <Smp/Services/ILogger.h>
 #include <Smp/Services/IResolver.h>
 #include <Smp/Services/IScheduler.h>
+#include <Smp/Services/InvalidEventId.h>
 #include <Smp/SimulatorStateKind.h>
 #include <Smp/Uuid.h>
 #include <Xsmp/EntryPoint.h>
@@ -316,10 +317,19 @@ void Simulator::Run(::Smp::Duration duration) {
   ::Xsmp::EntryPoint hold{"hold",
                           "call simulator hold after the specified duration",
                           this, [this] { this->Hold(false); }};
+  ::Smp::Services::EventId eventId = -1;
   if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+    eventId = _scheduler->AddSimulationTimeEvent(&hold, duration);
   }
   Run();
+  // remove the event if the simulation has been held before its execution
+  if (_scheduler) {
+    try {
+      _scheduler->RemoveEvent(eventId);
+    } catch (const ::Smp::Services::InvalidEventId &) {
+      // already executed
+    }
+  }
 }
 
 void Simulator::Hold(::Smp::Bool immediate) {
-- 
2.43.0


From 6267239bc9c6dd180312ecad2eada742ae2e5fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 35/77] fix: Reconnect did not emit SMP_LeaveReconnecting

---
 src/Xsmp/Simulator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index fac3940..95369db 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -524,6 +524,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
+  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
   _state = ::Smp::SimulatorStateKind::SSK_Standby;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
-- 
2.43.0


From 6cacfb9bb119cf27d720ec04d4ca7ebb2b21b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 36/77] fix: Initialise did not call the initialisation entry
 points again

---
 src/Xsmp/Simulator.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 95369db..9436fa1 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -228,9 +228,7 @@ void Simulator::Connect() {
   _state = ::Smp::SimulatorStateKind::SSK_Initialising;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
+  for (auto const *entryPoint : _initEntryPoints) {
     entryPoint->Execute();
   }
 
@@ -266,9 +264,7 @@ void Simulator::Initialise() {
   _state = ::Smp::SimulatorStateKind::SSK_Initialising;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
+  for (auto const *entryPoint : _initEntryPoints) {
     entryPoint->Execute();
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
-- 
2.43.0


From 3febf3a22c7d06d60088ab60974e5393944d4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 37/77] fix: a failure of Store or Restore left the simulator
 in Storing or Restoring state for ever

---
 src/Xsmp/Simulator.cpp | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 9436fa1..d708f74 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -418,14 +418,22 @@ void Simulator::Store(::Smp::String8 filename) {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
-  StorageWriter writer{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Store(this, &writer);
+  // in case of exception, return in Standby state too
+  auto leaveStoring = [this] {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
+    _state = ::Smp::SimulatorStateKind::SSK_Standby;
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  };
+  try {
+    StorageWriter writer{filename, PERSIST_FILENAME, this};
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    ::Xsmp::Store(this, &writer);
+  } catch (...) {
+    leaveStoring();
+    throw;
+  }
+  leaveStoring();
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -480,14 +488,22 @@ void Simulator::Restore(::Smp::String8 filename) {
 
   _state = ::Smp::SimulatorStateKind::SSK_Restoring;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
-  StorageReader reader{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Restore(this, &reader);
+  // in case of exception, return in Standby state too
+  auto leaveRestoring = [this] {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
+    _state = ::Smp::SimulatorStateKind::SSK_Standby;
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  };
+  try {
+    StorageReader reader{filename, PERSIST_FILENAME, this};
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    ::Xsmp::Restore(this, &reader);
+  } catch (...) {
+    leaveRestoring();
+    throw;
+  }
+  leaveRestoring();
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
-- 
2.43.0


From 7ec74babb3de3a476f6484557bbbde2029e4d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:55 +0000
Subject: [PATCH 38/77] fix: Store and Restore ignored all the components of
 the simulator

---
 src/Xsmp/Simulator.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index d708f74..4a1e5af 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -385,6 +385,15 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
       }
     }
   }
+  if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
+    PersistKind kind = PersistKind::COMPONENT;
+    if (const auto *components = container->GetComponents()) {
+      for (auto *component : *components) {
+        writer->Store(&kind, sizeof(PersistKind));
+        Store(component, writer);
+      }
+    }
+  }
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(obj)) {
     PersistKind kind = PersistKind::COMPOSITE;
     writer->Store(&kind, sizeof(PersistKind));
@@ -459,6 +468,14 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
       }
     }
   }
+  if (auto const *container = dynamic_cast<::Smp::IContainer *>(obj)) {
+    if (const auto *components = container->GetComponents()) {
+      for (auto *component : *components) {
+        check(obj, reader, PersistKind::COMPONENT);
+        Restore(component, reader);
+      }
+    }
+  }
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(obj)) {
     check(obj, reader, PersistKind::COMPOSITE);
-- 
2.43.0


From d3d90fde24e373a04d93e27facfa17e5a66bf273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 39/77] fix: the mutex of the scheduler was locked twice when
 the next event is searched

---
 src/Xsmp/Services/XsmpScheduler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index e7129d9..c589434 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -765,7 +765,6 @@ void XsmpScheduler::_EnterExecuting() {
     if (!ExecuteImmediateEvents() || !ExecuteEvents(simulationTime)) {
       return; // exit immediately in case of hold
     }
-    lck.lock();
   }
 
   _load.clear();
-- 
2.43.0


From 6b447ee7ac980a8f6d714a672f3701d87def9366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:57 +0000
Subject: [PATCH 40/77] fix: an event was executed in Standby state after a
 hold by an entry point of SMP_PostSimTimeChange

---
 src/Xsmp/Services/XsmpScheduler.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index c589434..2eaaca4 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -578,7 +578,7 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
 
   // execute all events, including the ones posted, moved or removed by the
   // events of this list
-  while (true) {
+  while (_simulationStatus != Status::Hold) {
     {
       // wait the end of the current event before locking the events: it may use
       // the scheduler
@@ -591,15 +591,16 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
       Execute(TakeFirst(_events_table), lck);
     }
     // process immediate events posted by this event
-    if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
+    if (!ExecuteImmediateEvents()) {
       return false;
     }
   }
+  return false;
 }
 
 bool XsmpScheduler::ExecuteImmediateEvents() {
   // execute all events, including the ones posted by these events
-  while (true) {
+  while (_simulationStatus != Status::Hold) {
     {
       const std::scoped_lock execLck{_execMutex};
       std::unique_lock lck{_eventsMutex};
@@ -608,10 +609,8 @@ bool XsmpScheduler::ExecuteImmediateEvents() {
       }
       Execute(TakeFirst(_immediate_events), lck);
     }
-    if (_simulationStatus == Status::Hold) {
-      return false;
-    }
   }
+  return false;
 }
 
 void XsmpScheduler::InternalZuluRun() {
-- 
2.43.0


From 65a834a5daf58a44eb46261af0471af1c16aff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 41/77] fix: a simulation event was executed in Standby state
 after a hold by a zulu event

---
 src/Xsmp/Services/XsmpScheduler.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 2eaaca4..1034d4f 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -578,11 +578,15 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
 
   // execute all events, including the ones posted, moved or removed by the
   // events of this list
-  while (_simulationStatus != Status::Hold) {
+  while (true) {
     {
       // wait the end of the current event before locking the events: it may use
       // the scheduler
       const std::scoped_lock execLck{_execMutex};
+      // this event may have requested a hold
+      if (_simulationStatus == Status::Hold) {
+        return false;
+      }
       std::unique_lock lck{_eventsMutex};
       if (_events_table.empty() ||
           _events_table.begin()->first > simulationTime) {
@@ -595,14 +599,17 @@ bool XsmpScheduler::ExecuteEvents(::Smp::Duration simulationTime) {
       return false;
     }
   }
-  return false;
 }
 
 bool XsmpScheduler::ExecuteImmediateEvents() {
   // execute all events, including the ones posted by these events
-  while (_simulationStatus != Status::Hold) {
+  while (true) {
     {
       const std::scoped_lock execLck{_execMutex};
+      // this event may have requested a hold
+      if (_simulationStatus == Status::Hold) {
+        return false;
+      }
       std::unique_lock lck{_eventsMutex};
       if (_immediate_events.empty()) {
         return true;
@@ -610,7 +617,6 @@ bool XsmpScheduler::ExecuteImmediateEvents() {
       Execute(TakeFirst(_immediate_events), lck);
     }
   }
-  return false;
 }
 
 void XsmpScheduler::InternalZuluRun() {
-- 
2.43.0


From 3746286bd2f1aa3b70b7a28de370b3c6cd9859b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:36 +0000
Subject: [PATCH 42/77] fix: data races on the state of the simulator between
 the simulation and zulu threads

---
 src/Xsmp/Simulator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 0a82e7d..a134436 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -29,6 +29,7 @@
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
+#include <atomic>
 #include <list>
 #include <utility>
 #include <vector>
@@ -380,7 +381,7 @@ private:
 
   std::vector<std::pair<std::string, void *>> _libraries;
 
-  ::Smp::Services::EventId _lastGlobalEventId = -1;
+  std::atomic<::Smp::Services::EventId> _lastGlobalEventId = -1;
 
   Container<::Smp::IService> _services;
   Container<::Smp::IModel> _models;
@@ -393,7 +394,7 @@ private:
 
   ::Xsmp::EntryPoint _holdImmediately;
   // true if _holdImmediately is subscribed
-  bool _holdPending = false;
+  std::atomic<bool> _holdPending = false;
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
@@ -404,7 +405,8 @@ private:
   ::Smp::Services::ILogger *_logger = nullptr;
 
   mutable ::Xsmp::Publication::TypeRegistry _typeRegistry;
-  ::Smp::SimulatorStateKind _state = ::Smp::SimulatorStateKind::SSK_Building;
+  std::atomic<::Smp::SimulatorStateKind> _state =
+      ::Smp::SimulatorStateKind::SSK_Building;
 };
 
 } // namespace Xsmp
-- 
2.43.0


From 84aaa5a5a6a38747c4c4b7100a088760119258b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 43/77] fix: data race between zulu events and the
 disconnection of the services

---
 src/Xsmp/Simulator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 4a1e5af..c993289 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -576,6 +576,13 @@ void Simulator::Exit() {
   _state = ::Smp::SimulatorStateKind::SSK_Exiting;
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
 
+  // Disconnect the scheduler first: its zulu thread executes entry points that
+  // use the other components
+  if (_scheduler &&
+      _scheduler->GetState() == ::Smp::ComponentStateKind::CSK_Connected) {
+    _scheduler->Disconnect();
+  }
+
   // Disconnect all components properly
   recursive_action(this, [](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Connected) {
-- 
2.43.0


From d1b53756fa329ffda13b5010a8fc1f4002412265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 44/77] fix: an event was refused or moved when the simulation
 time changes while it is posted

---
 src/Xsmp/Services/XsmpScheduler.cpp | 78 ++++++++++++++++++-----------
 src/Xsmp/Services/XsmpScheduler.h   | 12 +++--
 2 files changed, 57 insertions(+), 33 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 1034d4f..2706080 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -68,6 +68,24 @@ namespace Xsmp::Services {
 static constexpr ::Smp::Duration MaxDuration =
     std::numeric_limits<::Smp::Duration>::max();
 
+namespace {
+/// Convert a time of the given clock into a simulation time.
+/// @return the current simulation time and the converted time.
+std::pair<::Smp::Duration, ::Smp::Duration>
+ToSimulationTime(const ::Smp::Services::ITimeKeeper *timeKeeper,
+                 ::Smp::Int64 (::Smp::Services::ITimeKeeper::*clock)() const,
+                 ::Smp::Int64 time) {
+  while (true) {
+    const auto currentTime = timeKeeper->GetSimulationTime();
+    const auto clockTime = (timeKeeper->*clock)();
+    // the simulation time may be changed by another thread
+    if (timeKeeper->GetSimulationTime() == currentTime) {
+      return {currentTime, currentTime + time - clockTime};
+    }
+  }
+}
+} // namespace
+
 XsmpScheduler::XsmpScheduler(::Smp::String8 name, ::Smp::String8 description,
                              ::Smp::IComposite *parent,
                              ::Smp::ISimulator *simulator)
@@ -142,13 +160,12 @@ XsmpScheduler::AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint) {
 
 ::Smp::Services::EventId
 XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
+                        ::Smp::Duration currentSimulationTime,
                         ::Smp::Duration simulationTime, ::Smp::Duration time,
                         ::Smp::Duration cycleTime, ::Smp::Int64 repeat,
                         ::Smp::Services::TimeKind kind) {
 
-  if (auto currentSimulationTime =
-          GetSimulator()->GetTimeKeeper()->GetSimulationTime();
-      simulationTime < currentSimulationTime) {
+  if (simulationTime < currentSimulationTime) {
     ::Xsmp::Exception::throwInvalidEventTime(this, simulationTime,
                                              currentSimulationTime);
   }
@@ -182,10 +199,10 @@ void XsmpScheduler::NotifyScheduleChanged() {
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const auto currentTime = GetSimulator()->GetTimeKeeper()->GetSimulationTime();
   const ::Smp::Duration time =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
-      simulationTime; // TODO check overflow
-  return AddEvent(entryPoint, time, time, cycleTime, repeat,
+      currentTime + simulationTime; // TODO check overflow
+  return AddEvent(entryPoint, currentTime, time, time, cycleTime, repeat,
                   ::Smp::Services::TimeKind::TK_SimulationTime);
 }
 
@@ -193,24 +210,26 @@ void XsmpScheduler::NotifyScheduleChanged() {
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration missionTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
-  auto simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
-      GetSimulator()->GetTimeKeeper()->GetMissionTime(); // TODO check overflow
+  const auto [currentTime, simulationTime] =
+      ToSimulationTime(GetSimulator()->GetTimeKeeper(),
+                       &::Smp::Services::ITimeKeeper::GetMissionTime,
+                       missionTime); // TODO check overflow
 
-  return AddEvent(entryPoint, simulationTime, missionTime, cycleTime, repeat,
-                  ::Smp::Services::TimeKind::TK_MissionTime);
+  return AddEvent(entryPoint, currentTime, simulationTime, missionTime,
+                  cycleTime, repeat, ::Smp::Services::TimeKind::TK_MissionTime);
 }
 
 ::Smp::Services::EventId XsmpScheduler::AddEpochTimeEvent(
     const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime epochTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
-  auto simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
-      GetSimulator()->GetTimeKeeper()->GetEpochTime(); // TODO check overflow
+  const auto [currentTime, simulationTime] =
+      ToSimulationTime(GetSimulator()->GetTimeKeeper(),
+                       &::Smp::Services::ITimeKeeper::GetEpochTime,
+                       epochTime); // TODO check overflow
 
-  return AddEvent(entryPoint, simulationTime, epochTime, cycleTime, repeat,
-                  ::Smp::Services::TimeKind::TK_EpochTime);
+  return AddEvent(entryPoint, currentTime, simulationTime, epochTime, cycleTime,
+                  repeat, ::Smp::Services::TimeKind::TK_EpochTime);
 }
 
 ::Smp::Services::EventId XsmpScheduler::AddZuluTimeEvent(
@@ -283,6 +302,7 @@ void XsmpScheduler::MoveCurrentEvent(Event &event, bool past,
 }
 
 void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
+                                 ::Smp::Duration currentSimulationTime,
                                  ::Smp::Duration simulationTime,
                                  ::Smp::Duration time,
                                  ::Smp::Services::TimeKind kind) {
@@ -293,8 +313,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  const bool past =
-      simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime();
+  const bool past = simulationTime < currentSimulationTime;
   if (_currentEventId == eventId) {
     MoveCurrentEvent(it->second, past, simulationTime, time);
     return;
@@ -319,26 +338,27 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
                                            ::Smp::Duration simulationTime) {
 
-  const ::Smp::Duration time =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + simulationTime;
-  SetEventTime(event, time, time, ::Smp::Services::TimeKind::TK_SimulationTime);
+  const auto currentTime = GetSimulator()->GetTimeKeeper()->GetSimulationTime();
+  const ::Smp::Duration time = currentTime + simulationTime;
+  SetEventTime(event, currentTime, time, time,
+               ::Smp::Services::TimeKind::TK_SimulationTime);
 }
 
 void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
                                         ::Smp::Duration missionTime) {
-  const ::Smp::Duration simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
-      GetSimulator()->GetTimeKeeper()->GetMissionTime();
-  SetEventTime(event, simulationTime, missionTime,
+  const auto [currentTime, simulationTime] = ToSimulationTime(
+      GetSimulator()->GetTimeKeeper(),
+      &::Smp::Services::ITimeKeeper::GetMissionTime, missionTime);
+  SetEventTime(event, currentTime, simulationTime, missionTime,
                ::Smp::Services::TimeKind::TK_MissionTime);
 }
 
 void XsmpScheduler::SetEventEpochTime(::Smp::Services::EventId event,
                                       ::Smp::DateTime epochTime) {
-  const ::Smp::Duration simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
-      GetSimulator()->GetTimeKeeper()->GetEpochTime();
-  SetEventTime(event, simulationTime, epochTime,
+  const auto [currentTime, simulationTime] =
+      ToSimulationTime(GetSimulator()->GetTimeKeeper(),
+                       &::Smp::Services::ITimeKeeper::GetEpochTime, epochTime);
+  SetEventTime(event, currentTime, simulationTime, epochTime,
                ::Smp::Services::TimeKind::TK_EpochTime);
 }
 
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 04dc3c6..f8f37a2 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -445,12 +445,16 @@ private:
   /// Run the scheduler
   void InternalZuluRun();
 
-  ::Smp::Services::EventId
-  AddEvent(const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime,
-           ::Smp::Duration time, ::Smp::Duration cycleTime, ::Smp::Int64 repeat,
-           ::Smp::Services::TimeKind kind);
+  ::Smp::Services::EventId AddEvent(const ::Smp::IEntryPoint *entryPoint,
+                                    ::Smp::Duration currentSimulationTime,
+                                    ::Smp::Duration simulationTime,
+                                    ::Smp::Duration time,
+                                    ::Smp::Duration cycleTime,
+                                    ::Smp::Int64 repeat,
+                                    ::Smp::Services::TimeKind kind);
 
   void SetEventTime(::Smp::Services::EventId eventId,
+                    ::Smp::Duration currentSimulationTime,
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
-- 
2.43.0


From bfda209397394eb36776d712340b97e01f007232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 45/77] fix: Run returned before the end of a hold by a zulu
 event

---
 src/Xsmp/Simulator.cpp | 20 +++++++++++++++++++-
 src/Xsmp/Simulator.h   |  7 +++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index c993289..21be484 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -292,6 +292,13 @@ void Simulator::Run() {
   _state = ::Smp::SimulatorStateKind::SSK_Executing;
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
+
+  // if the simulation is held by another thread, wait until it is done
+  std::unique_lock lck{_holdMutex};
+  _holdCv.wait(lck, [this] {
+    return _holdThread == std::thread::id{} ||
+           _holdThread == std::this_thread::get_id();
+  });
 }
 
 void Simulator::Run(::Smp::Duration duration) {
@@ -330,9 +337,14 @@ void Simulator::Run(::Smp::Duration duration) {
 
 void Simulator::Hold(::Smp::Bool immediate) {
 
+  std::unique_lock lck{_holdMutex};
+  // the simulation may already be held by another thread
   if (_state != ::Smp::SimulatorStateKind::SSK_Executing ||
       _lastGlobalEventId ==
-          ::Smp::Services::IEventManager::SMP_LeaveExecutingId) {
+          ::Smp::Services::IEventManager::SMP_LeaveExecutingId ||
+      (_holdThread != std::thread::id{} &&
+       _holdThread != std::this_thread::get_id())) {
+    lck.unlock();
     if (_logger) {
       _logger->Log(this,
                    "Could not Hold the Simulation if simulator is not in "
@@ -343,6 +355,8 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
+    _holdThread = std::this_thread::get_id();
+    lck.unlock();
     // an immediate hold replaces a pending one
     if (_holdPending) {
       _holdPending = false;
@@ -356,6 +370,10 @@ void Simulator::Hold(::Smp::Bool immediate) {
     _state = ::Smp::SimulatorStateKind::SSK_Standby;
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    lck.lock();
+    _holdThread = {};
+    lck.unlock();
+    _holdCv.notify_all();
   } else {
     if (_eventManager && !_holdPending) {
       _eventManager->Subscribe(
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index a134436..4dc167e 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -30,7 +30,10 @@
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
 #include <atomic>
+#include <condition_variable>
 #include <list>
+#include <mutex>
+#include <thread>
 #include <utility>
 #include <vector>
 
@@ -395,6 +398,10 @@ private:
   ::Xsmp::EntryPoint _holdImmediately;
   // true if _holdImmediately is subscribed
   std::atomic<bool> _holdPending = false;
+  // thread that executes an immediate hold
+  std::thread::id _holdThread;
+  std::mutex _holdMutex;
+  std::condition_variable _holdCv;
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
-- 
2.43.0


From bfc4c351ed05bd0b3d5e702e7c74f5499741e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 46/77] fix: a hold by a zulu event was lost when the
 simulation is being started

---
 src/Xsmp/Services/XsmpScheduler.cpp | 10 ++++++++--
 src/Xsmp/Services/XsmpScheduler.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 2706080..ab8ab5e 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -697,6 +697,14 @@ void XsmpScheduler::_LeaveExecuting() {
 
 void XsmpScheduler::_EnterExecuting() {
 
+  // the simulation may have been held by another thread or entry point since
+  // the state has changed: a hold is valid until the end of the execution
+  struct Guard {
+    std::atomic<Status> &status;
+    ~Guard() { status = Status::Running; }
+  };
+  const Guard guard{_simulationStatus};
+
   // the simulation may have been held or aborted by another entry point
   if (GetSimulator()->GetState() != ::Smp::SimulatorStateKind::SSK_Executing) {
     return;
@@ -705,8 +713,6 @@ void XsmpScheduler::_EnterExecuting() {
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
   auto startZuluTime = timeKeeper->GetZuluTime();
 
-  _simulationStatus = Status::Running;
-
   _load.clear();
   _speed.clear();
 
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index f8f37a2..6de37af 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -416,7 +416,7 @@ private:
 
   enum class Status { Running, Hold };
   std::atomic<double> _targetSpeed{100.};
-  std::atomic<Status> _simulationStatus;
+  std::atomic<Status> _simulationStatus{Status::Running};
   bool _terminate{};
 
   std::mutex _execMutex;
-- 
2.43.0


From 8e0d88543b43a299403ce2f3ea2d937b42abe829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 47/77] fix: an entry point could not be executed without
 logger service

---
 src/Xsmp/Helper.cpp | 70 +++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index a294689..f4126fb 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -55,43 +55,45 @@ namespace Xsmp::Helper {
 void SafeExecute(::Smp::ISimulator *simulator,
                  const ::Smp::IEntryPoint *entryPoint) {
 
-  if (simulator) {
-    try {
-      simulator->GetLogger()->Log(entryPoint, "Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
-
-      entryPoint->Execute();
-
-      simulator->GetLogger()->Log(entryPoint, "return from Execute()",
-                                  ::Smp::Services::ILogger::LMK_Debug);
-    }
-    // SMP Exception
-    catch (const ::Smp::Exception &e) {
-      auto msg =
-          std::string("Exception ") + e.GetName() + " thrown during execution.";
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->GetLogger()->Log(e.GetSender(), e.what(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->Abort();
+  if (!simulator) {
+    entryPoint->Execute();
+    return;
+  }
+  // the logger may not be available
+  auto log = [simulator](const ::Smp::IObject *sender, ::Smp::String8 message,
+                         ::Smp::Services::LogMessageKind kind) {
+    if (auto *logger = simulator->GetLogger()) {
+      logger->Log(sender, message, kind);
     }
-    // standard c++ exception
-    catch (const std::exception &e) {
+  };
+  try {
+    log(entryPoint, "Execute()", ::Smp::Services::ILogger::LMK_Debug);
 
-      auto msg = std::string("Exception thrown during execution: ") + e.what();
-      simulator->GetLogger()->Log(entryPoint, msg.c_str(),
-                                  ::Smp::Services::ILogger::LMK_Error);
-      simulator->Abort();
-    }
-    // other exceptions
-    catch (...) {
-      simulator->GetLogger()->Log(
-          entryPoint, "Unexpected exception thrown during execution.",
-          ::Smp::Services::ILogger::LMK_Error);
-      simulator->Abort();
-    }
-  } else {
     entryPoint->Execute();
+
+    log(entryPoint, "return from Execute()",
+        ::Smp::Services::ILogger::LMK_Debug);
+  }
+  // SMP Exception
+  catch (const ::Smp::Exception &e) {
+    auto msg =
+        std::string("Exception ") + e.GetName() + " thrown during execution.";
+    log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+    log(e.GetSender(), e.what(), ::Smp::Services::ILogger::LMK_Error);
+    simulator->Abort();
+  }
+  // standard c++ exception
+  catch (const std::exception &e) {
+
+    auto msg = std::string("Exception thrown during execution: ") + e.what();
+    log(entryPoint, msg.c_str(), ::Smp::Services::ILogger::LMK_Error);
+    simulator->Abort();
+  }
+  // other exceptions
+  catch (...) {
+    log(entryPoint, "Unexpected exception thrown during execution.",
+        ::Smp::Services::ILogger::LMK_Error);
+    simulator->Abort();
   }
 }
 namespace {
-- 
2.43.0


From 5d6f6d50623e0c246baf79687afcfe8affed3147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 48/77] fix: a component added by another one while the
 components are visited was ignored or read after free

---
 src/Xsmp/Simulator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 21be484..37e1aaa 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -40,6 +40,7 @@
 #include <Xsmp/Simulator.h>
 #include <Xsmp/StorageReader.h>
 #include <Xsmp/StorageWriter.h>
+#include <cstddef>
 #include <string>
 #include <type_traits>
 #include <vector>
@@ -88,8 +89,9 @@ void recursive_action(::Smp::IComponent *component, Callable &&func) {
 template <typename Callable>
 void recursive_action(::Smp::IContainer const *container, Callable &&func) {
   if (const auto *components = container->GetComponents()) {
-    for (auto *cmp : *components) {
-      recursive_action(cmp, std::forward<Callable>(func));
+    // the action may add components to the container
+    for (std::size_t i = 0; i < components->size(); ++i) {
+      recursive_action(components->at(i), std::forward<Callable>(func));
     }
   }
 }
-- 
2.43.0


From 8872586267e00dd92c054dfa0fd0074fcdfe12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 49/77] fix: Abort was undone by the state transition under way

---
 src/Xsmp/Simulator.cpp | 73 ++++++++++++++++++++++++++++--------------
 src/Xsmp/Simulator.h   |  8 +++++
 2 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 37e1aaa..dfe621a 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -227,7 +227,9 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Initialising)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
   for (auto const *entryPoint : _initEntryPoints) {
@@ -236,8 +238,24 @@ void Simulator::Connect() {
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterStandby();
+}
+
+bool Simulator::ChangeState(::Smp::SimulatorStateKind state) {
+  // the simulation may have been aborted by an entry point or another thread
+  auto current = _state.load();
+  while (current != ::Smp::SimulatorStateKind::SSK_Aborting) {
+    if (_state.compare_exchange_weak(current, state)) {
+      return true;
+    }
+  }
+  return false;
+}
+
+void Simulator::EnterStandby() {
+  if (ChangeState(::Smp::SimulatorStateKind::SSK_Standby)) {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  }
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
@@ -263,7 +281,9 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Initialising)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
 
   for (auto const *entryPoint : _initEntryPoints) {
@@ -271,8 +291,7 @@ void Simulator::Initialise() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterStandby();
 }
 void Simulator::Run() {
 
@@ -291,7 +310,9 @@ void Simulator::Run() {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Executing)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
 
@@ -369,9 +390,7 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
 
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    EnterStandby();
     lck.lock();
     _holdThread = {};
     lck.unlock();
@@ -443,16 +462,16 @@ void Simulator::Store(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Storing)) {
+    return;
+  }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
 
   // in case of exception, return in Standby state too
   auto leaveStoring = [this] {
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    EnterStandby();
   };
   try {
     StorageWriter writer{filename, PERSIST_FILENAME, this};
@@ -523,14 +542,14 @@ void Simulator::Restore(::Smp::String8 filename) {
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
 
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Restoring)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
   // in case of exception, return in Standby state too
   auto leaveRestoring = [this] {
     EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    EnterStandby();
   };
   try {
     StorageReader reader{filename, PERSIST_FILENAME, this};
@@ -557,7 +576,9 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Reconnecting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
@@ -574,8 +595,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     });
   }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  EnterStandby();
 }
 
 void Simulator::Exit() {
@@ -593,7 +613,9 @@ void Simulator::Exit() {
   }
 
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
+  if (!ChangeState(::Smp::SimulatorStateKind::SSK_Exiting)) {
+    return;
+  }
   EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
 
   // Disconnect the scheduler first: its zulu thread executes entry points that
@@ -613,8 +635,11 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
+  // the simulation can be aborted once only
+  if (_state.exchange(::Smp::SimulatorStateKind::SSK_Aborting) !=
+      ::Smp::SimulatorStateKind::SSK_Aborting) {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
+  }
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 4dc167e..d9f054b 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -376,6 +376,14 @@ public:
 private:
   void EmitGlobalEvent(::Smp::Services::EventId eventId);
 
+  /// Change the state of the simulator, except if it is aborted.
+  /// @param state the new state
+  /// @return true if the state has been changed
+  [[nodiscard]] bool ChangeState(::Smp::SimulatorStateKind state);
+
+  /// Enter the Standby state, except if the simulation is aborted.
+  void EnterStandby();
+
   [[nodiscard]] ::Xsmp::Publication::Publication *
   CreatePublication(::Smp::IComponent *component);
 
-- 
2.43.0


From ba3db9b0e527cd7e3e865c08308ef060c28da9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 50/77] fix: Run was accepted while entering Standby state
 after a nested transition

---
 src/Xsmp/Simulator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index dfe621a..9475d2d 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -259,11 +259,12 @@ void Simulator::EnterStandby() {
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
-  _lastGlobalEventId = eventId;
+  // an event may be emitted by a subscriber of another one
+  const auto previous = _lastGlobalEventId.exchange(eventId);
   if (_eventManager) {
     _eventManager->Emit(eventId);
   }
-  _lastGlobalEventId = -1;
+  _lastGlobalEventId = previous;
 }
 
 void Simulator::Initialise() {
-- 
2.43.0


From 43a98b8e3f78921ca57974ad5327893ecd98368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 51/77] fix: event manager usable once the simulator has exited

---
 src/Xsmp/Services/XsmpEventManager.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..0e64296 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -37,6 +37,14 @@
 namespace Xsmp::Services {
 
 using namespace ::Smp::Services;
+
+namespace {
+// the event manager is no longer connected to its simulator once the latter has
+// left the Exiting state
+::Smp::Services::ILogger *GetLogger(::Smp::ISimulator *simulator) {
+  return simulator ? simulator->GetLogger() : nullptr;
+}
+} // namespace
 XsmpEventManager::XsmpEventManager(::Smp::String8 name,
                                    ::Smp::String8 description,
                                    ::Smp::IComposite *parent,
@@ -143,7 +151,7 @@ void XsmpEventManager::Subscribe(::Smp::Services::EventId event,
           event, std::vector<const ::Smp::IEntryPoint *>{entryPoint});
     }
   }
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this,
                 (::Xsmp::Helper::GetPath(entryPoint) + " subscribed to " +
                  event_name + ".")
@@ -165,7 +173,7 @@ void XsmpEventManager::Unsubscribe(::Smp::Services::EventId event,
     auto it2 = std::find(entryPoints.begin(), entryPoints.end(), entryPoint);
     if (it2 != entryPoints.end()) {
       entryPoints.erase(it2);
-      if (auto *logger = GetSimulator()->GetLogger()) {
+      if (auto *logger = GetLogger(GetSimulator())) {
         logger->Log(this,
                     (::Xsmp::Helper::GetPath(entryPoint) + " unsubscribed to " +
                      event_name + ".")
@@ -183,7 +191,7 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
                             ::Smp::Bool /*synchronous*/) {
 
   const auto &event_name = GetEventName(event);
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this, event_name.c_str(), ::Smp::Services::ILogger::LMK_Event);
   }
   auto subscriptionAccess = _subscriptions.read();
-- 
2.43.0


From 412e33b979b30cfd042b290ac97c86494e71f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:18 +0000
Subject: [PATCH 52/77] fix: std::vector<bool> could not be persisted

---
 include/Xsmp/Persist/StdVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Xsmp/Persist/StdVector.h b/include/Xsmp/Persist/StdVector.h
index b5df335..1258f0d 100644
--- a/include/Xsmp/Persist/StdVector.h
+++ b/include/Xsmp/Persist/StdVector.h
@@ -27,7 +27,7 @@ template <typename K, typename Alloc> struct Helper<std::vector<K, Alloc>> {
                     const std::vector<K, Alloc> &value) {
     const size_type size = value.size();
     ::Xsmp::Persist::Store(simulator, writer, size);
-    for (auto &e : value)
+    for (const auto &e : value)
       ::Xsmp::Persist::Store(simulator, writer, e);
   }
 
-- 
2.43.0


From 57d857546e363c7f0385a1270ef3df63bcdbf323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:01 +0000
Subject: [PATCH 53/77] fix: wide strings were persisted partially

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From 1f99fcdb7ffed7cb044b00588b719a67b3e2f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:58 +0000
Subject: [PATCH 54/77] fix: CannotStore when the directory cannot be created

---
 src/Xsmp/StorageWriter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..f5163a5 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -17,6 +17,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <fstream>
 #include <iostream>
+#include <system_error>
 
 #if !defined(__clang__) && defined(__GNUC__) && __GNUC__ <= 7
 #include <experimental/filesystem>
@@ -31,9 +32,9 @@ namespace Xsmp {
 namespace {
 std::ofstream createOutputStream(::Smp::String8 path, ::Smp::String8 filename,
                                  const ::Smp::IObject *object) {
-  if (!fs::is_directory(path ? path : "")) {
-    fs::create_directories(path ? path : "");
-  }
+  // an error is detected when the file is opened
+  std::error_code error;
+  fs::create_directories(path ? path : "", error);
   auto fullPath = fs::path(path ? path : "") / (filename ? filename : "");
   std::ofstream outputStream{fullPath, std::ios::binary};
 
-- 
2.43.0


From 0bb67f36213b9c6d49f913e26631c40ee6ce4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 55/77] fix: a state vector that could not be written was
 reported as stored

---
 src/Xsmp/Simulator.cpp     | 2 ++
 src/Xsmp/StorageWriter.cpp | 8 ++++++++
 src/Xsmp/StorageWriter.h   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 9475d2d..6ee18fc 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -478,6 +478,8 @@ void Simulator::Store(::Smp::String8 filename) {
     StorageWriter writer{filename, PERSIST_FILENAME, this};
 
     ::Xsmp::Store(this, &writer);
+    // report a failure to write the buffered data
+    writer.Close();
   } catch (...) {
     leaveStoring();
     throw;
diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index f5163a5..a1ae785 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -63,6 +63,14 @@ void StorageWriter::Store(void *address, ::Smp::UInt64 size) {
   }
 }
 
+void StorageWriter::Close() {
+  _os.close();
+  if (_os.fail()) {
+    ::Xsmp::Exception::throwCannotStore(_object,
+                                        "Writing error on output operation");
+  }
+}
+
 ::Smp::String8 StorageWriter::GetStateVectorFileName() const {
   return _filename.c_str();
 }
diff --git a/src/Xsmp/StorageWriter.h b/src/Xsmp/StorageWriter.h
index 56358ec..a4ed4de 100644
--- a/src/Xsmp/StorageWriter.h
+++ b/src/Xsmp/StorageWriter.h
@@ -42,6 +42,11 @@ public:
   /// @param   size Size of memory block.
   void Store(void *address, ::Smp::UInt64 size) override;
 
+  /// Write the buffered data and close the file.
+  ///
+  /// @throws ::Smp::CannotStore if the data cannot be written.
+  void Close();
+
   /// Get the state vector file name.
   /// This method returns a full file name, including the path to the
   /// file.
-- 
2.43.0


From bd2655f6dac1a0bd946b2065ae3788b2d89d9149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 56/77] fix: event names used after free once a restore has
 failed

---
 src/Xsmp/Services/XsmpEventManager.cpp | 34 +++++++++++++++++---------
 src/Xsmp/Services/XsmpEventManager.h   |  4 +--
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index 0e64296..5e3c5dd 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -120,7 +120,7 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
   return eventId;
 }
 
-const std::string &
+std::string
 XsmpEventManager::GetEventName(::Smp::Services::EventId event) const {
   auto idsAccess = _ids.read();
   auto it = idsAccess.get().find(event);
@@ -133,7 +133,7 @@ XsmpEventManager::GetEventName(::Smp::Services::EventId event) const {
 void XsmpEventManager::Subscribe(::Smp::Services::EventId event,
                                  const ::Smp::IEntryPoint *entryPoint) {
 
-  const auto &event_name = GetEventName(event);
+  const auto event_name = GetEventName(event);
   {
     auto subscriptionAccess = _subscriptions.write();
     if (auto it = subscriptionAccess.get().find(event);
@@ -163,7 +163,7 @@ void XsmpEventManager::Subscribe(::Smp::Services::EventId event,
 void XsmpEventManager::Unsubscribe(::Smp::Services::EventId event,
                                    const ::Smp::IEntryPoint *entryPoint) {
 
-  const auto &event_name = GetEventName(event);
+  const auto event_name = GetEventName(event);
 
   auto subscriptionAccess = _subscriptions.write();
   if (auto it = subscriptionAccess.get().find(event);
@@ -190,7 +190,7 @@ void XsmpEventManager::Unsubscribe(::Smp::Services::EventId event,
 void XsmpEventManager::Emit(::Smp::Services::EventId event,
                             ::Smp::Bool /*synchronous*/) {
 
-  const auto &event_name = GetEventName(event);
+  const auto event_name = GetEventName(event);
   if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this, event_name.c_str(), ::Smp::Services::ILogger::LMK_Event);
   }
@@ -207,14 +207,26 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 }
 
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
-                           _subscriptions.write().get());
-  // rebuild _ids map from _events
-  auto idsAccess = _ids.write();
-  idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
-    idsAccess.get().try_emplace(id, name);
+  std::unordered_map<std::string, ::Smp::Services::EventId> events;
+  std::unordered_map<::Smp::Services::EventId,
+                     std::vector<const ::Smp::IEntryPoint *>>
+      subscriptions;
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, subscriptions);
+
+  // ignore the entry points that do not exist any more
+  for (auto &[id, entryPoints] : subscriptions) {
+    entryPoints.erase(
+        std::remove(entryPoints.begin(), entryPoints.end(), nullptr),
+        entryPoints.end());
+  }
+  // rebuild _ids map from the restored events
+  std::unordered_map<::Smp::Services::EventId, std::string> ids;
+  for (const auto &[name, id] : events) {
+    ids.try_emplace(id, name);
   }
+  _events.write().get() = std::move(events);
+  _ids.write().get() = std::move(ids);
+  _subscriptions.write().get() = std::move(subscriptions);
 }
 
 void XsmpEventManager::Store(::Smp::IStorageWriter *writer) {
diff --git a/src/Xsmp/Services/XsmpEventManager.h b/src/Xsmp/Services/XsmpEventManager.h
index b953122..a6f3abb 100644
--- a/src/Xsmp/Services/XsmpEventManager.h
+++ b/src/Xsmp/Services/XsmpEventManager.h
@@ -117,14 +117,14 @@ private:
       _events;
 
   Xsmp::ThreadSafeData<
-      std::unordered_map<::Smp::Services::EventId, const std::string &>>
+      std::unordered_map<::Smp::Services::EventId, std::string>>
       _ids;
 
   Xsmp::ThreadSafeData<std::unordered_map<
       ::Smp::Services::EventId, std::vector<const ::Smp::IEntryPoint *>>>
       _subscriptions;
 
-  const std::string &GetEventName(::Smp::Services::EventId event) const;
+  std::string GetEventName(::Smp::Services::EventId event) const;
 };
 } // namespace Xsmp::Services
 
-- 
2.43.0


From 7c4775dcae34b798f455b877aba24b51cc361aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 57/77] fix: the scheduler was left inconsistent by a failed
 restore

---
 src/Xsmp/Services/XsmpScheduler.cpp | 44 ++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index ab8ab5e..5f0411d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -665,18 +665,42 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
+  decltype(_events) events;
+  decltype(_events_table) eventsTable;
+  decltype(_immediate_events) immediateEvents;
+  decltype(_lastEventId) lastEventId{-1};
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, events, eventsTable,
+                           immediateEvents, lastEventId);
+
+  // ignore the events of entry points that do not exist any more
+  for (auto it = events.begin(); it != events.end();) {
+    if (it->second.entryPoint) {
+      ++it;
+      continue;
+    }
+    immediateEvents.erase(it->first);
+    for (auto list = eventsTable.begin(); list != eventsTable.end();) {
+      list->second.erase(it->first);
+      list = list->second.empty() ? eventsTable.erase(list) : std::next(list);
+    }
+    it = events.erase(it);
+  }
+
+  // rebuild the zulu scheduling table from the restored events
+  decltype(_zulu_events_table) zuluEventsTable;
+  for (const auto &[eventId, event] : events) {
+    if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+      zuluEventsTable.try_emplace(event.nextScheduleSimulationTime)
+          .first->second.emplace(eventId);
+    }
+  }
   {
     const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
-    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
-                             _events_table, _immediate_events, _lastEventId);
-    // rebuild the zulu scheduling table from the restored events
-    _zulu_events_table.clear();
-    for (const auto &[eventId, event] : _events) {
-      if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
-        _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
-            .first->second.emplace(eventId);
-      }
-    }
+    _events = std::move(events);
+    _events_table = std::move(eventsTable);
+    _immediate_events = std::move(immediateEvents);
+    _lastEventId = lastEventId;
+    _zulu_events_table = std::move(zuluEventsTable);
   }
   _zuluCv.notify_one();
 }
-- 
2.43.0


From 9aa2862a7d0b326ce58e8b4e9b711c79e70213e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 58/77] fix: the next execution of the current event was not
 stored

---
 src/Xsmp/Services/XsmpScheduler.cpp | 90 +++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   | 10 ++++
 2 files changed, 58 insertions(+), 42 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 5f0411d..a549e0d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -486,34 +486,43 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
-    _currentEventId = -1;
-    moved = _currentEventMoved;
-    // the event may have been removed during its execution
-    it = _events.find(eventId);
-    if (it == _events.end()) {
+    // the events may have been restored during its execution
+    if (std::exchange(_currentEventId, -1) != eventId) {
       return;
     }
+    moved = _currentEventMoved;
   }
 
+  Complete(_events, _events_table, eventId, moved);
+}
+
+void XsmpScheduler::Complete(std::map<::Smp::Services::EventId, Event> &events,
+                             std::map<::Smp::Duration, EventList> &table,
+                             ::Smp::Services::EventId eventId, bool moved) {
+  auto it = events.find(eventId);
+  if (it == events.end()) {
+    return; // the event has been removed during its execution
+  }
   auto &event = it->second;
   if (event.repeat == 0) {
     // remove the event
-    _events.erase(it);
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
-    }
-    // compute the next time the event will be executed
-    if (!moved) {
-      event.nextScheduleSimulationTime += event.cycleTime;
+    events.erase(it);
+    return;
+  }
+  // decrement the repeat
+  if (event.repeat > 0) {
+    event.repeat--;
+  }
+  // compute the next time the event will be executed
+  if (!moved) {
+    event.nextScheduleSimulationTime += event.cycleTime;
+    if (event.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       event.time += event.cycleTime;
     }
-
-    // post the event in the table
-    _events_table.try_emplace(event.nextScheduleSimulationTime)
-        .first->second.emplace(eventId);
   }
+  // post the event in the table
+  table.try_emplace(event.nextScheduleSimulationTime)
+      .first->second.emplace(eventId);
 }
 
 void XsmpScheduler::ExecuteZulu() {
@@ -549,33 +558,15 @@ void XsmpScheduler::ExecuteZulu() {
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
-    _currentEventId = -1;
-    moved = _currentEventMoved;
-    // the event may have been removed during its execution
-    it = _events.find(eventId);
-    if (it == _events.end()) {
+    // the events may have been restored during its execution
+    if (std::exchange(_currentEventId, -1) != eventId) {
       return;
     }
+    moved = _currentEventMoved;
   }
 
-  auto &event = it->second;
-  if (event.repeat == 0) {
-    // remove the event
-    _events.erase(it);
-  } else {
-    // decrement the repeat
-    if (event.repeat > 0) {
-      event.repeat--;
-    }
-    // compute the next time the event will be executed
-    if (!moved) {
-      event.nextScheduleSimulationTime += event.cycleTime;
-    }
-    // post the event in the table
-    lckZulu.lock();
-    _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
-        .first->second.emplace(eventId);
-  }
+  lckZulu.lock();
+  Complete(_events, _zulu_events_table, eventId, moved);
 }
 
 ::Smp::Services::EventId XsmpScheduler::TakeFirst(EventList &events) {
@@ -700,6 +691,7 @@ void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
     _events_table = std::move(eventsTable);
     _immediate_events = std::move(immediateEvents);
     _lastEventId = lastEventId;
+    _currentEventId = -1;
     _zulu_events_table = std::move(zuluEventsTable);
   }
   _zuluCv.notify_one();
@@ -707,7 +699,21 @@ void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
   const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Store(GetSimulator(), this, writer, _events, _events_table,
+  if (_currentEventId < 0) {
+    ::Xsmp::Persist::Store(GetSimulator(), this, writer, _events, _events_table,
+                           _immediate_events, _lastEventId);
+    return;
+  }
+  // store the events as they are once the current event is completed
+  auto events = _events;
+  auto table = _events_table;
+  std::map<::Smp::Duration, EventList> zuluTable;
+  auto it = events.find(_currentEventId);
+  const bool zulu = it != events.end() &&
+                    it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime;
+  Complete(events, zulu ? zuluTable : table, _currentEventId,
+           _currentEventMoved);
+  ::Xsmp::Persist::Store(GetSimulator(), this, writer, events, table,
                          _immediate_events, _lastEventId);
 }
 
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 6de37af..9d98ee2 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -478,6 +478,16 @@ private:
   void Execute(::Smp::Services::EventId eventId,
                std::unique_lock<std::mutex> &lck);
 
+  /// Complete the execution of an event: remove it, or post its next execution
+  /// @param events the events
+  /// @param table the table in which the next execution is posted
+  /// @param eventId the executed event
+  /// @param moved true if the time of the event has been set during its
+  /// execution
+  static void Complete(std::map<::Smp::Services::EventId, Event> &events,
+                       std::map<::Smp::Duration, EventList> &table,
+                       ::Smp::Services::EventId eventId, bool moved);
+
   /// Execute the first zulu event, if its time is reached
   void ExecuteZulu();
 
-- 
2.43.0


From 25665d45b1bf0b8b69ec4dd58e2fe96d19e11515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 59/77] fix: check the literals of published enumeration arrays

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 443e76e..fb97fbb 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -575,7 +575,7 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
+    if (isInvalidEnumerationValue(_itemType, value)) {
       ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
     }
     *static_cast<::Smp::Int32 *>(address) = value;
-- 
2.43.0


From 2a041a4bfa8f23b3e947dd4bbdfd2b0f0d380690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 60/77] fix: a refused Force left a forced field unforced

---
 src/Xsmp/Field.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index adc3c47..ea2d989 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -541,8 +541,15 @@ void AbstractForcibleField::Store(::Smp::IStorageWriter *writer) {
 ::Smp::Bool AbstractForcibleField::IsForced() { return _forced; }
 
 void AbstractForcibleField::Force(::Smp::AnySimple value) {
+  const auto forced = _forced;
+  // the value of a forced field cannot be changed
   _forced = false;
-  this->SetValue(std::move(value));
+  try {
+    this->SetValue(std::move(value));
+  } catch (...) {
+    _forced = forced;
+    throw;
+  }
   _forced = true;
 }
 
-- 
2.43.0


From 3cbcc02c3e60bcaa6d1fddb45d4ab7a634454d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 61/77] fix: simple arrays of different items were connected

---
 src/Xsmp/Helper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index f4126fb..6ece089 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -248,11 +249,22 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+// the primitive type kind of the items (the type of an anonymous array field is
+// the type of its items)
+inline ::Smp::PrimitiveTypeKind
+GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const ::Smp::Publication::IType *type = field->GetType();
+  if (const auto *array =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    type = array->GetItemType();
+  }
+  return type->GetPrimitiveTypeKind();
+}
+
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
   return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+         GetItemKind(target) == GetItemKind(source);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From 094c5c7e4d1f8610c6fb24817c49bb433164e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:53 +0000
Subject: [PATCH 62/77] fix: writes to an output array did not flow to the
 connected fields

---
 include/Xsmp/Field.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index accd020..f9c1186 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -779,6 +779,7 @@ public:
       ::Xsmp::Exception::throwInvalidFieldValue(this, value);
     }
     _value[index] = ::Xsmp::AnySimpleConverter<value_type>::convert(value);
+    push(index);
   }
 
   void GetValues(::Smp::UInt64 length,
@@ -803,6 +804,7 @@ public:
         ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
       }
       _value[i] = ::Xsmp::AnySimpleConverter<value_type>::convert(values[i]);
+      push(i);
     }
   }
 
@@ -988,8 +990,14 @@ public:
   operator const T &() const noexcept { return _value; }
   operator T &() noexcept { return _value; }
 
-  void fill(const value_type &_u) { _value.fill(_u); }
-  void swap(T &_other) noexcept { _value.swap(_other); }
+  void fill(const value_type &_u) {
+    _value.fill(_u);
+    push();
+  }
+  void swap(T &_other) noexcept {
+    _value.swap(_other);
+    push();
+  }
 
   // Iterators.
   [[nodiscard]] iterator begin() noexcept {
@@ -1121,6 +1129,19 @@ public:
   [[nodiscard]] const_pointer data() const noexcept { return _value.data(); }
 
 private:
+  // push the value of an item to the connected fields
+  inline void push([[maybe_unused]] size_t index) {
+    if constexpr (::Xsmp::Annotation::any_of<::Xsmp::Annotation::connectable,
+                                             Annotations...>) {
+      this->internal_push(index);
+    }
+  }
+  // push the values of all items to the connected fields
+  inline void push() {
+    for (size_t i = 0; i < _size; ++i) {
+      push(i);
+    }
+  }
   const ::Smp::Publication::IArrayType *_type;
   T _value;
 };
-- 
2.43.0


From a8b5d987d11467a69fd4534cf41d5aa62d862056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 63/77] fix: an event identifier was returned before it was
 valid

---
 src/Xsmp/Services/XsmpEventManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index 5e3c5dd..4f58475 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -115,7 +115,8 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
 
   const auto &name =
       eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
+  // the events are still locked: no other thread may get an identifier that is
+  // not valid yet
   _ids.write().get().try_emplace(eventId, name);
   return eventId;
 }
-- 
2.43.0


From 9a91f72f174cddafb1a05d661161183928891dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 64/77] fix: simulation time could be set after a hold

---
 src/Xsmp/Services/XsmpTimeKeeper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Xsmp/Services/XsmpTimeKeeper.cpp b/src/Xsmp/Services/XsmpTimeKeeper.cpp
index 2694531..d8df801 100644
--- a/src/Xsmp/Services/XsmpTimeKeeper.cpp
+++ b/src/Xsmp/Services/XsmpTimeKeeper.cpp
@@ -36,6 +36,11 @@ void XsmpTimeKeeper::DoConnect(const ::Smp::ISimulator *simulator) const {
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_PostSimTimeChangeId,
       &PostSimTimeChange);
+
+  // when the simulation is held by a subscriber of PreSimTimeChange, the
+  // simulation time is not changed and PostSimTimeChange is not emitted
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &PostSimTimeChange);
 }
 ::Smp::Duration XsmpTimeKeeper::GetSimulationTime() const {
   return _simulationTime.read().get();
-- 
2.43.0


From f1f3d72e5d714317585534f9cae9b62fe053db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 65/77] fix: exceptions of array and class types had a
 destroyed sender

---
 src/Xsmp/Publication/Type.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Publication/Type.cpp b/src/Xsmp/Publication/Type.cpp
index 9f4c75a..81b68c3 100644
--- a/src/Xsmp/Publication/Type.cpp
+++ b/src/Xsmp/Publication/Type.cpp
@@ -63,12 +63,12 @@ ArrayType::ArrayType(::Smp::String8 name, ::Smp::String8 description,
       _simpleArray(simpleArray) {
 
   if (!_itemType) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, itemTypeUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, itemTypeUuid);
   }
   if (itemTypeUuid == ::Smp::Uuids::Uuid_String8 ||
       itemTypeUuid == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, itemTypeUuid,
+        typeRegistry, itemTypeUuid,
         "ArrayType does not support String8 and Void item type.");
   }
 }
@@ -207,16 +207,17 @@ ClassType::ClassType(::Smp::String8 name, ::Smp::String8 description,
   }
   if (baseClassUuid == typeUuid) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid,
+        typeRegistry, baseClassUuid,
         "The base class must be different from the current class.");
   }
   auto *baseClass = typeRegistry->GetType(baseClassUuid);
   if (!baseClass) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, baseClassUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, baseClassUuid);
   }
   if (!dynamic_cast<::Smp::Publication::IClassType *>(baseClass)) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid, "A base class must be void or a class type.");
+        typeRegistry, baseClassUuid,
+        "A base class must be void or a class type.");
   }
 }
 
-- 
2.43.0


From e630c0843b8eaa002d7e73433baea861c6f70142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:31 +0000
Subject: [PATCH 66/77] fix: values out of the range of Int64 or Int32 were
 refused with the wrong exception

---
 src/Xsmp/Publication/Request.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..286aab4 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -25,6 +25,7 @@
 #include <Xsmp/cstring.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <map>
 #include <string>
 #include <utility>
@@ -40,6 +41,13 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
+    // a value greater than any Int64 cannot be converted
+    if (value.type == ::Smp::PrimitiveTypeKind::PTK_UInt64 &&
+        static_cast<::Smp::UInt64>(value) >
+            static_cast<::Smp::UInt64>(
+                std::numeric_limits<::Smp::Int64>::max())) {
+      return false;
+    }
     auto intValue = static_cast<::Smp::Int64>(value);
     if (intValue < integerType->getMinimum() ||
         intValue > integerType->getMaximum()) {
@@ -67,9 +75,12 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // enumeration types
   else if (const auto *enumType = dynamic_cast<const EnumerationType *>(type)) {
+    auto enumValue = static_cast<::Smp::Int64>(value);
     // check that a literal with the correct value exist
-    if (enumType->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
-        enumType->GetLiterals().end()) {
+    if (enumValue < std::numeric_limits<::Smp::Int32>::min() ||
+        enumValue > std::numeric_limits<::Smp::Int32>::max() ||
+        enumType->GetLiterals().find(static_cast<::Smp::Int32>(enumValue)) ==
+            enumType->GetLiterals().end()) {
       return false;
     }
   }
-- 
2.43.0


From 265bb43f98c442889e0cb3caee948df0dbaf3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 67/77] fix: a null parameter name crashed an operation with a
 return parameter

---
 src/Xsmp/Publication/Operation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Operation.cpp b/src/Xsmp/Publication/Operation.cpp
index ff5cdd4..e45de14 100644
--- a/src/Xsmp/Publication/Operation.cpp
+++ b/src/Xsmp/Publication/Operation.cpp
@@ -96,7 +96,7 @@ void Operation::PublishParameter(
         std::make_unique<Parameter>(name, description, this, type, direction);
   } else {
     // check do duplicate parameter name
-    if (_returnParameter &&
+    if (_returnParameter && name &&
         std::strcmp(_returnParameter->GetName(), name) == 0) {
       ::Xsmp::Exception::throwDuplicateName(this, name, &_parameters);
     }
@@ -113,7 +113,8 @@ const ::Smp::ParameterCollection *Operation::GetParameters() const {
   if (auto *parameter = _parameters.at(name)) {
     return parameter;
   }
-  if (_returnParameter && std::strcmp(_returnParameter->GetName(), name) == 0) {
+  if (_returnParameter && name &&
+      std::strcmp(_returnParameter->GetName(), name) == 0) {
     return _returnParameter.get();
   }
   return nullptr;
-- 
2.43.0


From 50f124345ff48d83ca659bf04556d19ef946412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 68/77] fix: an unsupported layout crashed the logger

---
 src/Xsmp/Services/XsmpLogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 6bf3ea8..3933845 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -315,7 +315,7 @@ public:
       }
     }
     // create a PatternLayout by default
-    else {
+    if (!_layout) {
       _layout = std::make_unique<PatternLayout>(key, properties);
     }
     if (auto levels = properties.find(path + ".levels");
-- 
2.43.0


From da729cb04c3526e2fd0e9f0ac6f38bf8a13aa5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:47 +0000
Subject: [PATCH 69/77] fix: malformed conversion patterns were read past their
 end

---
 src/Xsmp/Services/XsmpLogger.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 3933845..b28b1bf 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -199,9 +199,9 @@ public:
   void Append(std::ostream &stream, const LogEntry &entry) const override {
     using namespace std::chrono;
 
-    auto format = [&stream](std::string::const_iterator &it,
-                            const auto &value) {
-      if (auto fmt = GetFormatting(it); fmt.empty()) {
+    auto format = [this, &stream](std::string::const_iterator &it,
+                                  const auto &value) {
+      if (auto fmt = GetFormatting(it, _pattern.end()); fmt.empty()) {
         stream << static_cast<::Smp::Int64>(value);
       } else {
         value.to_stream(stream, fmt);
@@ -210,7 +210,7 @@ public:
 
     auto it = _pattern.begin();
     while (it != _pattern.end()) {
-      if (*it == '%') {
+      if (*it == '%' && std::next(it) != _pattern.end()) {
         ++it;
         switch (*it) {
         case 'p':
@@ -284,13 +284,14 @@ private:
     // use default pattern
     return "%d{%F %T}%t%S%t%p%t%k%t%m%n";
   }
-  static std::string GetFormatting(std::string::const_iterator &it) noexcept {
+  static std::string GetFormatting(std::string::const_iterator &it,
+                                   std::string::const_iterator end) {
     std::string formatting;
-    if (it[1] == '{') {
-      it += 2;
-      while (*it != '}') {
-        formatting.push_back(*it);
-        ++it;
+    if (auto next = std::next(it); next != end && *next == '{') {
+      // without a closing brace there is no format
+      if (auto close = std::find(next, end, '}'); close != end) {
+        formatting.assign(std::next(next), close);
+        it = close;
       }
     }
     return formatting;
-- 
2.43.0


From 757b22add4780411ba0226ac6ead441f813a0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 70/77] fix: the types of an invalid value were reported
 swapped

---
 src/Smp/AnySimple.cpp            | 60 ++++++++++++++++----------------
 src/Xsmp/EventSink.cpp           |  4 +--
 src/Xsmp/Publication/Request.cpp |  4 +--
 3 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 3d7c758..a92f3be 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -104,8 +104,8 @@ T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
   const auto converted = static_cast<T>(newValue);
   if constexpr (std::is_integral_v<U>) {
     // an integer may be rounded up to a value that does not fit in U
-    if (converted >= std::ldexp(static_cast<T>(1),
-                                std::numeric_limits<U>::digits) ||
+    if (converted >=
+            std::ldexp(static_cast<T>(1), std::numeric_limits<U>::digits) ||
         static_cast<U>(converted) != newValue) {
       ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
     }
@@ -676,23 +676,23 @@ AnySimple::operator ::Smp::Bool() const {
   case PrimitiveTypeKind::PTK_String8:
     return this->value.string8Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Bool);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Bool,
+                                           type);
   }
 }
 
 AnySimple::operator ::Smp::Char8() const {
   if (type != PrimitiveTypeKind::PTK_Char8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Char8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Char8, type);
   }
   return this->value.char8Value;
 }
 
 AnySimple::operator ::Smp::String8() const {
   if (type != PrimitiveTypeKind::PTK_String8) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_String8);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_String8, type);
   }
   return this->value.string8Value;
 }
@@ -729,8 +729,8 @@ AnySimple::operator ::Smp::UInt8() const {
     return convertIntegral<::Smp::UInt8>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_UInt8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt8, type);
   }
 }
 
@@ -765,8 +765,8 @@ AnySimple::operator ::Smp::UInt16() const {
     return convertIntegral<::Smp::UInt16>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt16, type);
   }
 }
 
@@ -800,8 +800,8 @@ AnySimple::operator ::Smp::UInt32() const {
     return convertIntegral<::Smp::UInt32>(value.uInt64Value, type,
                                           PrimitiveTypeKind::PTK_UInt32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt32, type);
   }
 }
 
@@ -834,8 +834,8 @@ AnySimple::operator ::Smp::UInt64() const {
   case PrimitiveTypeKind::PTK_UInt64:
     return this->value.uInt64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_UInt64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_UInt64, type);
   }
 }
 
@@ -871,8 +871,8 @@ AnySimple::operator ::Smp::Int8() const {
     return convertIntegral<::Smp::Int8>(value.uInt64Value, type,
                                         PrimitiveTypeKind::PTK_Int8);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int8);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, PrimitiveTypeKind::PTK_Int8,
+                                           type);
   }
 }
 
@@ -906,8 +906,8 @@ AnySimple::operator ::Smp::Int16() const {
     return convertIntegral<::Smp::Int16>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int16);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int16);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int16, type);
   }
 }
 
@@ -939,8 +939,8 @@ AnySimple::operator ::Smp::Int32() const {
     return convertIntegral<::Smp::Int32>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int32);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int32, type);
   }
 }
 
@@ -968,8 +968,8 @@ AnySimple::operator ::Smp::Int64() const {
     return convertIntegral<::Smp::Int64>(value.uInt64Value, type,
                                          PrimitiveTypeKind::PTK_Int64);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Int64);
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                           PrimitiveTypeKind::PTK_Int64, type);
   }
 }
 
@@ -1002,8 +1002,8 @@ AnySimple::operator ::Smp::Float32() const {
     return convertFloat<::Smp::Float32>(value.float64Value, type,
                                         PrimitiveTypeKind::PTK_Float32);
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float32);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_Float32, type);
   }
 }
 
@@ -1032,8 +1032,8 @@ AnySimple::operator ::Smp::Float64() const {
   case PrimitiveTypeKind::PTK_Float64:
     return this->value.float64Value;
   default:
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                           PrimitiveTypeKind::PTK_Float64);
+    ::Xsmp::Exception::throwInvalidAnyType(
+        nullptr, PrimitiveTypeKind::PTK_Float64, type);
   }
 }
 
@@ -1043,8 +1043,8 @@ AnySimple::operator ::Smp::Float64() const {
     this->value.string8Value = nullptr;
     return result;
   }
-  ::Xsmp::Exception::throwInvalidAnyType(nullptr, type,
-                                         PrimitiveTypeKind::PTK_String8);
+  ::Xsmp::Exception::throwInvalidAnyType(nullptr,
+                                         PrimitiveTypeKind::PTK_String8, type);
 }
 
 ::Smp::PrimitiveTypeKind AnySimple::GetType() const noexcept { return type; }
diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 286aab4..35c0d28 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -36,8 +36,8 @@ bool Request::isValid(const ::Smp::IObject *sender,
                       const ::Smp::Publication::IType *type,
                       const ::Smp::AnySimple &value) {
   if (type->GetPrimitiveTypeKind() != value.type) {
-    ::Xsmp::Exception::throwInvalidAnyType(sender, value.type,
-                                           type->GetPrimitiveTypeKind());
+    ::Xsmp::Exception::throwInvalidAnyType(sender, type->GetPrimitiveTypeKind(),
+                                           value.type);
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
-- 
2.43.0


From 759d102acc303bcca91d7851ecd95bcabb13f5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:05 +0000
Subject: [PATCH 71/77] fix: setter requests reported no parameter

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..280687d 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From b7edef25459fe3862412d204379ae154c7050989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 72/77] fix: exceptions of request helpers named a destroyed
 field and had no message

---
 src/Xsmp/Request.cpp | 72 ++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 26 deletions(-)

diff --git a/src/Xsmp/Request.cpp b/src/Xsmp/Request.cpp
index 73b4b6a..adfadbc 100644
--- a/src/Xsmp/Request.cpp
+++ b/src/Xsmp/Request.cpp
@@ -15,6 +15,8 @@
 #include <Smp/AnySimple.h>
 #include <Smp/IArrayField.h>
 #include <Smp/IComponent.h>
+#include <Smp/IField.h>
+#include <Smp/IObject.h>
 #include <Smp/IRequest.h>
 #include <Smp/ISimpleArrayField.h>
 #include <Smp/ISimpleField.h>
@@ -26,15 +28,46 @@
 
 namespace Xsmp {
 
+namespace {
+// the first parent that is not a field: the fields of a request helper are
+// local variables that are destroyed when an exception is thrown
+const ::Smp::IObject *GetOwner(const ::Smp::IObject *object) {
+  while (dynamic_cast<const ::Smp::IField *>(object)) {
+    object = object->GetParent();
+  }
+  return object;
+}
+
+[[noreturn]] void throwInvalidParameterName(const ::Smp::IObject *sender,
+                                            const ::Smp::IRequest *request,
+                                            const std::string &name) {
+  ::Xsmp::Exception::throwException(
+      GetOwner(sender), "InvalidParameterName",
+      "The request has no parameter with the expected name",
+      "No Parameter named ", name, " in Operation ",
+      request->GetOperationName(), ".");
+}
+
+::Smp::AnySimple GetValue(::Smp::IRequest const *request,
+                          ::Smp::IField const *field, ::Smp::Int32 index,
+                          const std::string &name,
+                          ::Smp::PrimitiveTypeKind kind) {
+  auto value = request->GetParameterValue(index);
+  if (value.GetType() != kind) {
+    ::Xsmp::Exception::throwInvalidParameterType(GetOwner(field),
+                                                 request->GetOperationName(),
+                                                 name, value.GetType(), kind);
+  }
+  return value;
+}
+} // namespace
+
 void Request::setValue(::Smp::IComponent const *component,
                        ::Smp::IRequest *request, ::Smp::String8 name,
                        const ::Smp::AnySimple &value) {
   const auto index = request->GetParameterIndex(name);
   if (index == -1) {
-    ::Xsmp::Exception::throwException(component, name,
-                                      "No Parameter named " +
-                                          std::string(name) + " in Operation " +
-                                          request->GetOperationName() + ".");
+    throwInvalidParameterName(component, request, name);
   }
   request->SetParameterValue(index, value);
 }
@@ -49,10 +82,7 @@ void Request::setValue(::Smp::IComponent const *component,
     if (useDefaultValue) {
       return {};
     }
-    ::Xsmp::Exception::throwException(component, name,
-                                      "No Parameter named " +
-                                          std::string(name) + " in Operation " +
-                                          request->GetOperationName() + ".");
+    throwInvalidParameterName(component, request, name);
   }
   auto value = request->GetParameterValue(index);
 
@@ -72,12 +102,10 @@ void Request::extract(::Smp::IRequest *request, ::Smp::IField *field,
       if (ignoreMissingParameters) {
         return;
       }
-      ::Xsmp::Exception::throwException(
-          field, name,
-          "No Parameter named " + std::string(name) + " in Operation " +
-              request->GetOperationName() + ".");
+      throwInvalidParameterName(field, request, name);
     }
-    simple->SetValue(request->GetParameterValue(index));
+    simple->SetValue(
+        GetValue(request, field, index, name, simple->GetPrimitiveTypeKind()));
   }
   // simple array field
   else if (auto *simpleArray =
@@ -87,14 +115,12 @@ void Request::extract(::Smp::IRequest *request, ::Smp::IField *field,
           std::string(name) + "[" + std::to_string(i) + "]";
       const auto index = request->GetParameterIndex(itemName.c_str());
       if (index != -1) {
-        simpleArray->SetValue(i, request->GetParameterValue(index));
+        simpleArray->SetValue(i, GetValue(request, field, index, itemName,
+                                          simpleArray->GetValue(i).GetType()));
       } else if (ignoreMissingParameters) {
         // ignore
       } else {
-        ::Xsmp::Exception::throwException(
-            field, itemName,
-            "No Parameter named " + itemName + " in Operation " +
-                request->GetOperationName() + ".");
+        throwInvalidParameterName(field, request, itemName);
       }
     }
   }
@@ -128,10 +154,7 @@ void Request::inject(::Smp::IRequest *request, ::Smp::IField *field,
   if (auto const *simple = dynamic_cast<::Smp::ISimpleField *>(field)) {
     const auto index = request->GetParameterIndex(name);
     if (index == -1) {
-      ::Xsmp::Exception::throwException(
-          field, name,
-          "No Parameter named " + std::string(name) + " in Operation " +
-              request->GetOperationName() + ".");
+      throwInvalidParameterName(field, request, name);
     }
     request->SetParameterValue(index, simple->GetValue());
   }
@@ -143,10 +166,7 @@ void Request::inject(::Smp::IRequest *request, ::Smp::IField *field,
           std::string(name) + "[" + std::to_string(i) + "]";
       const auto index = request->GetParameterIndex(itemName.c_str());
       if (index == -1) {
-        ::Xsmp::Exception::throwException(
-            field, itemName,
-            "No Parameter named " + itemName + " in Operation " +
-                request->GetOperationName() + ".");
+        throwInvalidParameterName(field, request, itemName);
       }
       request->SetParameterValue(index, simpleArray->GetValue(i));
     }
-- 
2.43.0


From 47bd75d4ec5a7b55e210b5928ab2602490203832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:32 +0000
Subject: [PATCH 73/77] fix: exceptions of fields that cannot be created had a
 destroyed sender

---
 src/Xsmp/Publication/Field.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index fb97fbb..c6d9528 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -35,6 +35,15 @@
 namespace Xsmp::Publication {
 
 namespace {
+// the first parent that is not a field under construction: the fields are
+// destroyed when an exception is thrown by a constructor
+const ::Smp::IObject *getOwner(const ::Smp::IObject *object) {
+  while (dynamic_cast<const ::Smp::IField *>(object)) {
+    object = object->GetParent();
+  }
+  return object;
+}
+
 // helper function to check if a value is invalid in case of an enumeration type
 bool isInvalidEnumerationValue(const ::Smp::Publication::IType *type,
                                const ::Smp::AnySimple &value) {
@@ -51,7 +60,7 @@ void checkValidFieldType(const ::Smp::IField *field,
   if (type->GetUuid() == ::Smp::Uuids::Uuid_String8 ||
       type->GetUuid() == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        field, type->GetUuid(),
+        getOwner(field), type->GetUuid(),
         "Field does not support String8 and Void type.");
   }
 }
@@ -61,12 +70,12 @@ Field::Field(::Smp::String8 name, ::Smp::String8 description,
              ::Smp::IObject *parent, void *address,
              const ::Smp::Publication::IType *type, ::Smp::ViewKind view,
              ::Smp::Bool state, ::Smp::Bool input, ::Smp::Bool output)
-    : _name(::Xsmp::Helper::checkName(name, parent)), _description(description),
-      _parent(parent), _address(address), _type(type), _view(view),
-      _state(state), _input(input), _output(output) {
+    : _name(::Xsmp::Helper::checkName(name, getOwner(parent))),
+      _description(description), _parent(parent), _address(address),
+      _type(type), _view(view), _state(state), _input(input), _output(output) {
   // type must be defined
   if (!type) {
-    ::Xsmp::Exception::throwInvalidFieldType(this, type);
+    ::Xsmp::Exception::throwInvalidFieldType(getOwner(parent), type);
   }
 }
 Field::Field(::Smp::String8 name, ::Smp::String8 description,
@@ -137,7 +146,7 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
                                             structure, view, state, input,
                                             output);
   }
-  ::Xsmp::Exception::throwInvalidFieldType(parent, type);
+  ::Xsmp::Exception::throwInvalidFieldType(getOwner(parent), type);
 }
 
 DataflowField::DataflowField()
@@ -824,7 +833,7 @@ StructureField::StructureField(::Smp::String8 name, ::Smp::String8 description,
                          field.view, field.state, field.input || input,
                          field.output || output));
     } else {
-      ::Xsmp::Exception::throwTypeNotRegistered(this, field.uuid);
+      ::Xsmp::Exception::throwTypeNotRegistered(getOwner(parent), field.uuid);
     }
   }
 }
-- 
2.43.0


From 786a41f723920e4cc62bc074b2a41c94f0825a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 74/77] fix: define the declared throwInvalidArrayIndex(sender,
 size, index)

---
 src/Xsmp/Exception.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Xsmp/Exception.cpp b/src/Xsmp/Exception.cpp
index 21dded2..3b4167c 100644
--- a/src/Xsmp/Exception.cpp
+++ b/src/Xsmp/Exception.cpp
@@ -1491,6 +1491,13 @@ void throwInvalidArrayIndex(const ::Smp::ISimpleArrayField *sender,
                           static_cast<::Smp::Int64>(invalidIndex));
 }
 
+void throwInvalidArrayIndex(const ::Smp::IObject *sender,
+                            ::Smp::UInt64 arraySize,
+                            ::Smp::UInt64 invalidIndex) {
+  throw InvalidArrayIndex(sender, static_cast<::Smp::Int64>(arraySize),
+                          static_cast<::Smp::Int64>(invalidIndex));
+}
+
 void throwInvalidFieldValue(const ::Smp::IField *sender,
                             const ::Smp::AnySimple &invalidFieldValue) {
   throw InvalidFieldValue(sender, invalidFieldValue);
-- 
2.43.0


From 24378d40a6ec3fc809a91d5fcb3b0153dde26cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:13 +0000
Subject: [PATCH 75/77] fix: registering a factory again deleted it and left it
 in the collection

---
 src/Xsmp/FactoryCollection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Xsmp/FactoryCollection.cpp b/src/Xsmp/FactoryCollection.cpp
index 1ab8aa5..9ba20ef 100644
--- a/src/Xsmp/FactoryCollection.cpp
+++ b/src/Xsmp/FactoryCollection.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/FactoryCollection.h>
 #include <cstddef>
 #include <memory>
+#include <tuple>
 #include <utility>
 
 namespace Xsmp {
@@ -59,6 +60,10 @@ void FactoryCollection::Add(::Smp::IFactory *factory) {
 
   auto factoryPointer = std::unique_ptr<::Smp::IFactory>(factory);
   if (auto it = _uuid_map.find(factory->GetUuid()); it != _uuid_map.end()) {
+    if (it->second.get() == factory) {
+      // the collection already owns it
+      std::ignore = factoryPointer.release();
+    }
     ::Xsmp::Exception::throwDuplicateUuid(this, it->second.get(),
                                           factory->GetName());
   }
-- 
2.43.0


From c36894c70bf9327f2c232a938dbedb9d10199612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:05 +0000
Subject: [PATCH 76/77] fix: a field published by address could take the name
 of a published member

---
 src/Xsmp/Publication/Publication.cpp | 46 ++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Publication/Publication.cpp b/src/Xsmp/Publication/Publication.cpp
index 759905a..0c25a62 100644
--- a/src/Xsmp/Publication/Publication.cpp
+++ b/src/Xsmp/Publication/Publication.cpp
@@ -31,9 +31,26 @@
 #include <Xsmp/Publication/Property.h>
 #include <Xsmp/Publication/Publication.h>
 #include <cstring>
+#include <memory>
+#include <utility>
 
 namespace Xsmp::Publication {
 
+namespace {
+// the fields published by address share their names with the fields published
+// by their component
+template <typename T>
+T *AddField(::Xsmp::ContainingCollection<::Smp::IField> &fields,
+            ::Xsmp::DelegateCollection<::Smp::IField> &allFields,
+            std::unique_ptr<T> field) {
+  if (allFields.at(field->GetName())) {
+    ::Xsmp::Exception::throwDuplicateName(&allFields, field->GetName(),
+                                          &allFields);
+  }
+  return fields.Add(std::move(field));
+}
+} // namespace
+
 Publication::Publication(::Smp::IObject *parent,
                          ::Smp::Publication::ITypeRegistry *typeRegistry)
     : _parent(parent), _typeRegistry{typeRegistry},
@@ -146,8 +163,9 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (auto const *type = _typeRegistry->GetType(typeUuid)) {
-    _fields.Add(Field::Create(name, description, _parent, address, type, view,
-                              state, input, output));
+    AddField(_fields, _allFields,
+             Field::Create(name, description, _parent, address, type, view,
+                           state, input, output));
   } else {
     ::Xsmp::Exception::throwTypeNotRegistered(_parent, typeUuid);
   }
@@ -161,13 +179,15 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
   if (output) {
-    _fields.Add<AnonymousSimpleArrayDataflowField>(
-        name, description, _parent, count, address,
-        _typeRegistry->GetType(type), view, state, input, output);
+    AddField(_fields, _allFields,
+             std::make_unique<AnonymousSimpleArrayDataflowField>(
+                 name, description, _parent, count, address,
+                 _typeRegistry->GetType(type), view, state, input, output));
   } else {
-    _fields.Add<AnonymousSimpleArrayField>(
-        name, description, _parent, count, address,
-        _typeRegistry->GetType(type), view, state, input, output);
+    AddField(_fields, _allFields,
+             std::make_unique<AnonymousSimpleArrayField>(
+                 name, description, _parent, count, address,
+                 _typeRegistry->GetType(type), view, state, input, output));
   }
 }
 
@@ -175,16 +195,18 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                ::Smp::String8 description,
                                                ::Smp::ViewKind view,
                                                ::Smp::Bool state) {
-  return _fields.Add<AnonymousArrayField>(name, description, _parent,
-                                          _typeRegistry, view, state);
+  return AddField(_fields, _allFields,
+                  std::make_unique<AnonymousArrayField>(
+                      name, description, _parent, _typeRegistry, view, state));
 }
 
 ::Smp::IPublication *Publication::PublishStructure(::Smp::String8 name,
                                                    ::Smp::String8 description,
                                                    ::Smp::ViewKind view,
                                                    ::Smp::Bool state) {
-  return _fields.Add<AnonymousStructureField>(name, description, _parent,
-                                              _typeRegistry, view, state);
+  return AddField(_fields, _allFields,
+                  std::make_unique<AnonymousStructureField>(
+                      name, description, _parent, _typeRegistry, view, state));
 }
 
 ::Smp::Publication::IPublishOperation *
-- 
2.43.0


From 33aa0fa252f370895f71220f7ee35525f17b1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:56 +0000
Subject: [PATCH 77/77] fix: an aborted simulator deleted its components while
 the zulu thread used them

---
 src/Xsmp/Simulator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 6ee18fc..79ecd1e 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -120,6 +120,11 @@ Simulator::~Simulator() {
   if (_state == ::Smp::SimulatorStateKind::SSK_Standby) {
     Exit();
   }
+  // the zulu thread of an aborted simulation may still use the components
+  if (_scheduler &&
+      _scheduler->GetState() == ::Smp::ComponentStateKind::CSK_Connected) {
+    _scheduler->Disconnect();
+  }
   // finalise the libraries in reverse order
   while (!_libraries.empty()) {
     const auto &[name, handle] = _libraries.back();
-- 
2.43.0

