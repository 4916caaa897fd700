From ab29c856f42a803d7b095a11abc402f4ef655339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 01/38] fix: RLock/WLock move assignment releases the lock it
 held

---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From 7432df4473e7eaad4d5de4c69e90f1e9b49f300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:09 +0000
Subject: [PATCH 02/38] fix: pipe reads return the available bytes instead of
 waiting for all

---
 src/io.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..9f905c2 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -42,20 +42,16 @@ class Pipe : public dap::ReaderWriter {
   size_t read(void* buffer, size_t bytes) override {
     std::unique_lock<std::mutex> lock(mutex);
     auto out = reinterpret_cast<uint8_t*>(buffer);
+    cv.wait(lock, [&] { return closed || data.size() > 0; });
+    if (closed) {
+      return 0;
+    }
     size_t n = 0;
-    while (true) {
-      cv.wait(lock, [&] { return closed || data.size() > 0; });
-      if (closed) {
-        return n;
-      }
-      for (; n < bytes && data.size() > 0; n++) {
-        out[n] = data.front();
-        data.pop_front();
-      }
-      if (n == bytes) {
-        return n;
-      }
+    for (; n < bytes && data.size() > 0; n++) {
+      out[n] = data.front();
+      data.pop_front();
     }
+    return n;
   }
 
   bool write(const void* buffer, size_t bytes) override {
-- 
2.43.0


From 910df9205355c928639a402166f1044ea7020503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 03/38] fix: any transfers ownership on move and survives
 aliased assignment

Moving an any whose value lived on the heap did not transfer the heap block, so
it leaked and was never tied to its new owner; moving an in-buffer value did
not destruct the source; assigning an any to itself, or from a value held by
itself, destroyed the value before it was copied.
---
 include/dap/any.h | 60 +++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..6321841 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -68,6 +68,7 @@ class any {
   static inline void* alignUp(void* val, size_t alignment);
   inline void alloc(size_t size, size_t align);
   inline void free();
+  inline void take(any& other);
   inline bool isInBuffer(void* ptr) const;
 
   void* value = nullptr;
@@ -92,15 +93,8 @@ any::any(const any& other) noexcept : type(other.type) {
   }
 }
 
-any::any(any&& other) noexcept : type(other.type) {
-  if (other.isInBuffer(other.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, other.value);
-  } else {
-    value = other.value;
-  }
-  other.value = nullptr;
-  other.type = nullptr;
+any::any(any&& other) noexcept {
+  take(other);
 }
 
 void any::reset() {
@@ -113,36 +107,31 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  // Copy first: rhs may be this, or be held (indirectly) by this.
+  any tmp(rhs);
   reset();
-  type = rhs.type;
-  if (rhs.value != nullptr) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  }
+  take(tmp);
   return *this;
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  // Move out first: rhs may be this, or be held (indirectly) by this.
+  any tmp(static_cast<any&&>(rhs));
   reset();
-  type = rhs.type;
-  if (rhs.isInBuffer(rhs.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  } else {
-    value = rhs.value;
-  }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
+  take(tmp);
   return *this;
 }
 
 template <typename T>
 any& any::operator=(const T& val) {
   if (!is<T>()) {
+    // Copy first: val may be held (indirectly) by this.
+    any tmp;
+    tmp.type = TypeOf<T>::type();
+    tmp.alloc(tmp.type->size(), tmp.type->alignment());
+    tmp.type->copyConstruct(tmp.value, &val);
     reset();
-    type = TypeOf<T>::type();
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, &val);
+    take(tmp);
   } else {
 #ifdef __clang_analyzer__
     assert(value != nullptr);
@@ -200,6 +189,25 @@ void any::free() {
   value = nullptr;
 }
 
+// take() moves the content of other to this (which must be null), leaving other
+// null.
+void any::take(any& other) {
+  assert(value == nullptr);
+  if (other.isInBuffer(other.value)) {
+    type = other.type;
+    alloc(type->size(), type->alignment());
+    type->copyConstruct(value, other.value);
+    other.reset();
+  } else {
+    value = other.value;
+    type = other.type;
+    heap = other.heap;
+    other.value = nullptr;
+    other.type = nullptr;
+    other.heap = nullptr;
+  }
+}
+
 bool any::isInBuffer(void* ptr) const {
   auto addr = reinterpret_cast<uintptr_t>(ptr);
   return addr >= reinterpret_cast<uintptr_t>(buffer) &&
-- 
2.43.0


From bc9c0c67ab0dd125245892734d79c6a3b4e17001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 04/38] fix: report handler table errors under the error
 handler's lock

errorfLocked() called the error handler while holding the lock of a handler
table, but not errorMutex, which races with onError() and with other reports.
---
 src/session.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..abdac53 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -182,9 +182,10 @@ class Impl : public dap::Session {
           requestMap
               .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Request handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Request handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -193,8 +194,7 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto responseIt = responseMap.find(seq);
       if (responseIt == responseMap.end()) {
-        errorfLocked("Unknown response with sequence %d", seq);
-        return {};
+        return {};  // Reported by the caller.
       }
       auto out = std::move(responseIt->second);
       responseMap.erase(seq);
@@ -207,9 +207,9 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto added =
           responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response handler for sequence %d already registered",
-                     seq);
+        error("Response handler for sequence %d already registered", seq);
       }
     }
 
@@ -226,9 +226,10 @@ class Impl : public dap::Session {
       auto added =
           eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Event handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Event handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -243,20 +244,14 @@ class Impl : public dap::Session {
              const GenericResponseSentHandler& handler) {
       std::unique_lock<std::mutex> lock(responseSentMutex);
       auto added = responseSentMap.emplace(typeinfo, handler).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response sent handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Response sent handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
    private:
-    void errorfLocked(const char* format, ...) {
-      va_list vararg;
-      va_start(vararg, format);
-      errorLocked(format, vararg);
-      va_end(vararg);
-    }
-
     void errorLocked(const char* format, va_list args) {
       char buf[2048];
       vsnprintf(buf, sizeof(buf), format, args);
-- 
2.43.0


From d4c080e6f4f73632c9ca567b68b94f8030ddfc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 05/38] fix: deliver the complete message of a failure response

The message was passed through a 2048 byte formatting buffer and truncated.
---
 src/session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index abdac53..4e5d0c4 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -463,7 +463,7 @@ class Impl : public dap::Session {
         handlers.error("Failed to deserialize message");
         return;
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 9fc612fc7381d2569fd41ab8fee205623b701b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 06/38] fix: failure responses without a message resolve the
 request with an error

The handler of a response with no (or an empty) message, or without 'success',
was dropped and never called, or called with an error that means success, so
the request's future never became ready, or reported success.
---
 src/session.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index 4e5d0c4..c96de4f 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -443,6 +443,8 @@ class Impl : public dap::Session {
     dap::boolean success = false;
     if (!d->field("success", &success)) {
       handlers.error("Response missing int 'success' field");
+      auto error = dap::Error("Response missing int 'success' field");
+      handler(nullptr, &error);
       return;
     }
 
@@ -461,7 +463,10 @@ class Impl : public dap::Session {
       std::string message;
       if (!d->field("message", &message)) {
         handlers.error("Failed to deserialize message");
-        return;
+      }
+      if (message.empty()) {
+        // An empty error represents success.
+        message = "Request failed";
       }
       auto error = dap::Error(message);
       handler(nullptr, &error);
-- 
2.43.0


From 8df1a618f2c15c29d44530312d209b669aed9206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 07/38] fix: a response with a malformed body is an error, not
 a partial success

---
 src/session.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index c96de4f..145a632 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -19,6 +19,7 @@
 
 #include "chan.h"
 #include "json_serializer.h"
+#include "null_json_serializer.h"
 #include "socket.h"
 
 #include <stdarg.h>
@@ -453,11 +454,20 @@ class Impl : public dap::Session {
       typeinfo->construct(data.get());
 
       // "body" field in Response is an optional field.
+      bool body_ok = true;
       d->field("body", [&](const dap::Deserializer* d) {
-        return typeinfo->deserialize(d, data.get());
+        body_ok = d == &dap::json::NullDeserializer::instance ||
+                  typeinfo->deserialize(d, data.get());
+        return true;
       });
 
-      handler(data.get(), nullptr);
+      if (body_ok) {
+        handler(data.get(), nullptr);
+      } else {
+        handlers.error("Failed to deserialize response body");
+        auto error = dap::Error("Failed to deserialize response body");
+        handler(nullptr, &error);
+      }
       typeinfo->destruct(data.get());
     } else {
       std::string message;
-- 
2.43.0


From e344fd8cf142fe58140d2008f857f6fdbd21850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 08/38] fix: accept requests and events that omit their
 optional arguments or body

An omitted object was rejected even if none of its fields are required.
---
 src/session.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 145a632..efdbab1 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -312,6 +312,18 @@ class Impl : public dap::Session {
     return {};
   }
 
+  // deserializeObject() deserializes the (possibly omitted) object d to data.
+  // An omitted object is treated as an object with no fields.
+  static bool deserializeObject(const dap::TypeInfo* typeinfo,
+                                const dap::Deserializer* d,
+                                void* data) {
+    if (d == &dap::json::NullDeserializer::instance) {
+      auto empty = dap::json::Deserializer("{}");
+      return typeinfo->deserialize(&empty, data);
+    }
+    return typeinfo->deserialize(d, data);
+  }
+
   Payload processRequest(dap::json::Deserializer* d, dap::integer sequence) {
     dap::string command;
     if (!d->field("command", &command)) {
@@ -331,8 +343,9 @@ class Impl : public dap::Session {
     auto data = new uint8_t[typeinfo->size()];
     typeinfo->construct(data);
 
+    // "arguments" may be omitted if it holds no required fields.
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
+          return deserializeObject(typeinfo, d, data);
         })) {
       handlers.error("Failed to deserialize request");
       typeinfo->destruct(data);
@@ -406,7 +419,7 @@ class Impl : public dap::Session {
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
+      if (!deserializeObject(typeinfo, d, data)) {
         body_ok = false;
       }
       return true;
-- 
2.43.0


From 70f1712fb44024f1855bd78ecebfd0926833d8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 09/38] fix: release the data of messages that are never
 dispatched

The data of a payload was freed only by running it, so messages still queued
when the session is destroyed, and payloads dropped by a caller of getPayload(),
leaked.
---
 src/session.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index efdbab1..260598b 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -312,6 +312,17 @@ class Impl : public dap::Session {
     return {};
   }
 
+  // construct() returns a new object of the given type, which is destructed and
+  // freed with the last reference to it.
+  static std::shared_ptr<uint8_t> construct(const dap::TypeInfo* typeinfo) {
+    auto data = new uint8_t[typeinfo->size()];
+    typeinfo->construct(data);
+    return std::shared_ptr<uint8_t>(data, [typeinfo](uint8_t* data) {
+      typeinfo->destruct(data);
+      delete[] data;
+    });
+  }
+
   // deserializeObject() deserializes the (possibly omitted) object d to data.
   // An omitted object is treated as an object with no fields.
   static bool deserializeObject(const dap::TypeInfo* typeinfo,
@@ -340,22 +351,19 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     // "arguments" may be omitted if it holds no required fields.
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return deserializeObject(typeinfo, d, data);
+          return deserializeObject(typeinfo, d, data.get());
         })) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -392,8 +400,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -413,13 +419,12 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!deserializeObject(typeinfo, d, data)) {
+      if (!deserializeObject(typeinfo, d, data.get())) {
         body_ok = false;
       }
       return true;
@@ -427,16 +432,10 @@ class Impl : public dap::Session {
 
     if (!body_ok) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
-    return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
-    };
+    return [=] { handler(data.get()); };
   }
 
   void processResponse(const dap::Deserializer* d) {
-- 
2.43.0


From e75a0ec0495c13797889f0c5eb237a082cdfe37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 10/38] fix: ContentReader is no longer open once its stream
 has ended

A stream that reached its end without being closed (the peer's end of a socket,
a file) left the reader open, so a session's receive thread spun forever and
never called its close handler. A truncated message could also be rescanned for
messages inside of it.
---
 src/content_stream.cpp | 8 +++++++-
 src/content_stream.h   | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..1e99021 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -33,11 +33,12 @@ ContentReader& ContentReader::operator=(ContentReader&& rhs) noexcept {
   buf = std::move(rhs.buf);
   reader = std::move(rhs.reader);
   on_invalid_data = std::move(rhs.on_invalid_data);
+  ended = rhs.ended;
   return *this;
 }
 
 bool ContentReader::isOpen() {
-  return reader ? reader->isOpen() : false;
+  return (reader && !ended) ? reader->isOpen() : false;
 }
 
 void ContentReader::close() {
@@ -47,6 +48,9 @@ void ContentReader::close() {
 }
 
 std::string ContentReader::read() {
+  if (ended) {
+    return "";
+  }
   // Find Content-Length header prefix
   if (on_invalid_data == kClose) {
     if (!match("Content-Length:")) {
@@ -150,6 +154,7 @@ bool ContentReader::buffer(size_t bytes) {
     auto numWant = std::min(sizeof(chunk), bytes);
     auto numGot = reader->read(chunk, numWant);
     if (numGot == 0) {
+      ended = true;  // The stream was closed, or reached its end.
       return false;
     }
     for (size_t i = 0; i < numGot; i++) {
@@ -163,6 +168,7 @@ bool ContentReader::buffer(size_t bytes) {
 std::string ContentReader::badHeader() {
   if (on_invalid_data == kClose) {
     close();
+    ended = true;
   }
   return "";
 }
diff --git a/src/content_stream.h b/src/content_stream.h
index eee998e..cff4115 100644
--- a/src/content_stream.h
+++ b/src/content_stream.h
@@ -52,6 +52,7 @@ class ContentReader {
   std::shared_ptr<Reader> reader;
   std::deque<uint8_t> buf;
   OnInvalidData on_invalid_data;
+  bool ended = false;  // No more messages can be read.
 };
 
 class ContentWriter {
-- 
2.43.0


From df5b7fd37dc05fe3d264803e7f8dbd75dd575dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 11/38] fix: a NUL byte is not part of a message header

---
 src/content_stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 1e99021..8c5649c 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -137,6 +137,9 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  if (c == 0) {
+    return 0;  // strchr() would match the terminator of chars.
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From 50869718b264040e8fbb7017431a08941ca4e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 12/38] fix: missing and overflowing content lengths are
 invalid headers

They did not close the reader as requested with kClose, and a length that does
not fit a size_t wrapped around to an arbitrary one.
---
 src/content_stream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 8c5649c..6a4c62f 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -18,6 +18,7 @@
 
 #include <string.h>   // strlen
 #include <algorithm>  // std::min
+#include <limits>
 
 namespace dap {
 
@@ -71,11 +72,15 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
+    auto digit = size_t(c) - size_t('0');
+    if (len > (std::numeric_limits<size_t>::max() - digit) / 10) {
+      return badHeader();
+    }
     len *= 10;
-    len += size_t(c) - size_t('0');
+    len += digit;
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
-- 
2.43.0


From dcbbcd266d3c4138835431988ddea5684f15eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 13/38] fix: requests that can no longer be answered resolve
 with an error

The futures of requests outstanding when the connection ended or the session
was destroyed never became ready, and the response handler of a request that
could not be sent stayed registered.
---
 src/session.cpp | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 260598b..0d1fa06 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -63,6 +63,8 @@ class Impl : public dap::Session {
       if (auto payload = processMessage(request)) {
         return payload;
       }
+    } else if (!reader.isOpen()) {
+      handlers.closeResponses();
     }
     return {};
   }
@@ -90,6 +92,7 @@ class Impl : public dap::Session {
           inbox.put(std::move(payload));
         }
       }
+      handlers.closeResponses();
       if (onClose) {
         onClose();
       }
@@ -108,7 +111,9 @@ class Impl : public dap::Session {
             const GenericResponseHandler& responseHandler) override {
     int seq = nextSeq++;
 
-    handlers.put(seq, responseTypeInfo, responseHandler);
+    if (!handlers.put(seq, responseTypeInfo, responseHandler)) {
+      return false;
+    }
 
     dap::json::Serializer s;
     if (!s.object([&](dap::FieldSerializer* fs) {
@@ -119,9 +124,10 @@ class Impl : public dap::Session {
                    return requestTypeInfo->serialize(s, request);
                  });
         })) {
-      return false;
+      return !handlers.remove(seq);
     }
-    return send(s.dump());
+    // If the handler was already taken, then it has the outcome.
+    return send(s.dump()) || !handlers.remove(seq);
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
@@ -149,6 +155,7 @@ class Impl : public dap::Session {
     if (dispatchThread.joinable()) {
       dispatchThread.join();
     }
+    handlers.closeResponses();
   }
 
  private:
@@ -202,16 +209,44 @@ class Impl : public dap::Session {
       return out;
     }
 
-    void put(int seq,
+    // put() returns false if no more responses can be received.
+    bool put(int seq,
              const dap::TypeInfo* typeinfo,
              const GenericResponseHandler& handler) {
       std::unique_lock<std::mutex> lock(responseMutex);
+      if (responsesClosed) {
+        lock.unlock();
+        error("Send failed as the connection has ended");
+        return false;
+      }
       auto added =
           responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;
       lock.unlock();
       if (!added) {
         error("Response handler for sequence %d already registered", seq);
       }
+      return true;
+    }
+
+    // remove() removes the response handler for the given sequence number,
+    // returning true if it was registered.
+    bool remove(int seq) {
+      std::unique_lock<std::mutex> lock(responseMutex);
+      return responseMap.erase(seq) > 0;
+    }
+
+    // closeResponses() fails all the outstanding requests, and all those to
+    // come, as no more responses can be received.
+    void closeResponses() {
+      std::unique_lock<std::mutex> lock(responseMutex);
+      responsesClosed = true;
+      auto outstanding = std::move(responseMap);
+      responseMap.clear();
+      lock.unlock();
+      auto error = dap::Error("Connection ended before the response arrived");
+      for (auto& it : outstanding) {
+        it.second.second(nullptr, &error);
+      }
     }
 
     std::pair<const dap::TypeInfo*, GenericEventHandler> event(
@@ -273,6 +308,7 @@ class Impl : public dap::Session {
     std::unordered_map<int64_t,
                        std::pair<const dap::TypeInfo*, GenericResponseHandler>>
         responseMap;
+    bool responsesClosed = false;
 
     std::mutex eventMutex;
     std::unordered_map<std::string,
-- 
2.43.0


From 021ade169d448d0d9211cb0a5c684f567abac784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 14/38] fix: invalid JSON does not abort with the JsonCpp back
 end

It is reported like with the other back ends: as a null document.
---
 src/jsoncpp_json_serializer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..cc90519 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,6 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
 #include <memory>
 
 namespace dap {
@@ -148,12 +147,16 @@ Json::Value JsonCppDeserializer::parse(const std::string& text) {
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+  // cppdap expects that the JSON layer does not throw exceptions.
+  try {
+    if (jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                          &error)) {
+      return json;
+    }
+  } catch (const Json::Exception&) {
+    // Nested too deeply.
   }
-  return json;
+  return Json::Value();
 }
 
 JsonCppSerializer::JsonCppSerializer()
-- 
2.43.0


From 7722748484e870c1a810b5169d7bb1d496ae8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 15/38] fix: RapidJSON back end checks the type before reading
 arrays and objects

RapidJSON asserts (or, without asserts, reads arbitrary memory) otherwise.
---
 src/rapid_json_serializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..607a1db 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -75,6 +75,9 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
@@ -117,7 +120,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From 18eca851a41b0dbd926f835b57815dd05966e037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 16/38] fix: only objects decode as objects

Scalars, arrays and null decoded as a dap::object, and with the nlohmann back
end an array was accepted in place of any structure with no required fields.
---
 src/jsoncpp_json_serializer.cpp  | 3 +++
 src/nlohmann_json_serializer.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index cc90519..e18e429 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -67,6 +67,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..2538b4f 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -70,6 +70,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
@@ -132,7 +135,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
-- 
2.43.0


From 5d08936b1abb9e678aded4a20a8714069b53e468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 17/38] fix: RapidJSON back end decodes 64-bit integers held by
 an any

---
 src/rapid_json_serializer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 607a1db..859557b 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -95,8 +95,10 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
+  } else if (json()->IsUint64()) {
+    *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
   } else if (json()->IsString()) {
     *v = dap::string(json()->GetString());
   } else if (json()->IsNull()) {
-- 
2.43.0


From c45e377981d2e6a4c45f09ffc34c1c91a6a00547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 18/38] fix: RapidJSON back end keeps strings and member names
 with NULs whole

---
 src/rapid_json_serializer.cpp | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 859557b..301cb5d 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,12 +19,21 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+namespace {
+
+// stringRef() returns a reference to all of str, including any NULs.
+rapidjson::Value stringRef(const std::string& str) {
+  return rapidjson::Value(rapidjson::StringRef(str.data(), str.size()));
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
@@ -70,7 +79,7 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  *v = dap::string(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
@@ -85,7 +94,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[dap::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -100,7 +110,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
   } else if (json()->IsUint64()) {
     *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -145,7 +155,7 @@ bool RapidDeserializer::field(
   if (!json()->IsObject()) {
     return false;
   }
-  auto it = json()->FindMember(name.c_str());
+  auto it = json()->FindMember(stringRef(name));
   if (it == json()->MemberEnd()) {
     return cb(&NullDeserializer::instance);
   }
@@ -197,11 +207,13 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    auto name = stringRef(it.first);
+    if (!json()->HasMember(name)) {
+      rapidjson::Value name_value(it.first.data(), name.GetStringLength(),
+                                  allocator);
       json()->AddMember(name_value, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[name];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
@@ -265,15 +277,17 @@ bool RapidSerializer::object(
     FS(rapidjson::Value* json, rapidjson::Document::AllocatorType& allocator)
         : json(json), allocator(allocator) {}
     bool field(const std::string& name, const SerializeFunc& cb) override {
-      if (!json->HasMember(name.c_str())) {
-        rapidjson::Value name_value{name.c_str(), allocator};
+      auto key = stringRef(name);
+      if (!json->HasMember(key)) {
+        rapidjson::Value name_value(name.data(), key.GetStringLength(),
+                                    allocator);
         json->AddMember(name_value, rapidjson::Value(), allocator);
       }
-      rapidjson::Value& member = (*json)[name.c_str()];
+      rapidjson::Value& member = (*json)[key];
       RapidSerializer s(&member, allocator);
       auto res = cb(&s);
       if (s.removed) {
-        json->RemoveMember(name.c_str());
+        json->RemoveMember(key);
       }
       return res;
     }
-- 
2.43.0


From 4fdb3123fe3ec4bb36c989a45efc0c672312ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 19/38] fix: RapidJSON back end decodes numbers exactly

---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 301cb5d..9700d89 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -33,7 +33,7 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.data(), str.size());
+  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 1574f267859f913ee8ba3b83c2405c3676d1ebc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 20/38] fix: strings that are not valid UTF-8 do not abort the
 nlohmann back end

---
 src/nlohmann_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 2538b4f..f020992 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -160,7 +160,8 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Without exceptions, dump() aborts on invalid UTF-8 by default.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From 4cedca6aead15d8b0e9ab5d6ecb96f7f1c428c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 21/38] fix: a serializer that is used again holds only the
 last value

Members and elements of an earlier object or array, or an earlier value in
place of a null, were kept.
---
 src/jsoncpp_json_serializer.cpp  |  5 ++---
 src/nlohmann_json_serializer.cpp |  5 ++---
 src/rapid_json_serializer.cpp    | 13 ++++---------
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index e18e429..dc6b6f4 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -200,9 +200,7 @@ bool JsonCppSerializer::serialize(const dap::string& v) {
 }
 
 bool JsonCppSerializer::serialize(const dap::object& v) {
-  if (!json->isObject()) {
-    *json = Json::Value(Json::objectValue);
-  }
+  *json = Json::Value(Json::objectValue);
   for (auto& it : v) {
     JsonCppSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -225,6 +223,7 @@ bool JsonCppSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = Json::Value();
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index f020992..6e68f07 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -185,9 +185,7 @@ bool NlohmannSerializer::serialize(const dap::string& v) {
 }
 
 bool NlohmannSerializer::serialize(const dap::object& v) {
-  if (!json->is_object()) {
-    *json = nlohmann::json::object();
-  }
+  *json = nlohmann::json::object();
   for (auto& it : v) {
     NlohmannSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -210,6 +208,7 @@ bool NlohmannSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = nullptr;
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 9700d89..e9c92a2 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -203,9 +203,7 @@ bool RapidSerializer::serialize(const dap::string& v) {
 }
 
 bool RapidSerializer::serialize(const dap::object& v) {
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   for (auto& it : v) {
     auto name = stringRef(it.first);
     if (!json()->HasMember(name)) {
@@ -236,6 +234,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
@@ -251,9 +250,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
 
 bool RapidSerializer::array(size_t count,
                             const std::function<bool(dap::Serializer*)>& cb) {
-  if (!json()->IsArray()) {
-    json()->SetArray();
-  }
+  json()->SetArray();
 
   while (count > json()->Size()) {
     json()->PushBack(rapidjson::Value(), allocator);
@@ -293,9 +290,7 @@ bool RapidSerializer::object(
     }
   };
 
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   FS fs{json(), allocator};
   return cb(&fs);
 }
-- 
2.43.0


From 1c4edf3f6f0aaf31ce91c662806b672c21afc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 22/38] fix: deeply nested JSON does not overflow the stack

The documents of the nlohmann and RapidJSON back ends are decoded recursively
with no limit to the depth. The JsonCpp back end has a limit of its own.
---
 src/json_depth.h                 | 54 ++++++++++++++++++++++++++++++++
 src/nlohmann_json_serializer.cpp |  5 ++-
 src/rapid_json_serializer.cpp    |  5 ++-
 3 files changed, 62 insertions(+), 2 deletions(-)
 create mode 100644 src/json_depth.h

diff --git a/src/json_depth.h b/src/json_depth.h
new file mode 100644
index 0000000..6a03db7
--- /dev/null
+++ b/src/json_depth.h
@@ -0,0 +1,54 @@
+// Copyright 2023 Google LLC
+//
+// Licensed under the Apache License, Version 2.0 (the "License");
+// you may not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     https://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing, software
+// distributed under the License is distributed on an "AS IS" BASIS,
+// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+// See the License for the specific language governing permissions and
+// limitations under the License.
+
+#ifndef dap_json_depth_h
+#define dap_json_depth_h
+
+#include <stddef.h>
+#include <string>
+
+namespace dap {
+namespace json {
+
+// exceedsMaxDepth() returns true if the arrays and objects of the JSON text are
+// nested too deeply to be decoded recursively.
+inline bool exceedsMaxDepth(const std::string& text) {
+  constexpr size_t maxDepth = 512;
+  size_t depth = 0;
+  bool inString = false;
+  for (size_t i = 0; i < text.size(); i++) {
+    auto c = text[i];
+    if (inString) {
+      if (c == '\\') {
+        i++;  // Skip the escaped character.
+      } else if (c == '"') {
+        inString = false;
+      }
+    } else if (c == '"') {
+      inString = true;
+    } else if (c == '[' || c == '{') {
+      if (++depth > maxDepth) {
+        return true;
+      }
+    } else if ((c == ']' || c == '}') && depth > 0) {
+      depth--;
+    }
+  }
+  return false;
+}
+
+}  // namespace json
+}  // namespace dap
+
+#endif  // dap_json_depth_h
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 6e68f07..845e159 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -14,6 +14,7 @@
 
 #include "nlohmann_json_serializer.h"
 
+#include "json_depth.h"
 #include "null_json_serializer.h"
 
 // Disable JSON exceptions. We should be guarding against any exceptions being
@@ -25,7 +26,9 @@ namespace dap {
 namespace json {
 
 NlohmannDeserializer::NlohmannDeserializer(const std::string& str)
-    : json(new nlohmann::json(nlohmann::json::parse(str, nullptr, false))),
+    : json(new nlohmann::json(
+          exceedsMaxDepth(str) ? nlohmann::json()
+                               : nlohmann::json::parse(str, nullptr, false))),
       ownsJson(true) {}
 
 NlohmannDeserializer::NlohmannDeserializer(const nlohmann::json* json)
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index e9c92a2..2e5314f 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -14,6 +14,7 @@
 
 #include "rapid_json_serializer.h"
 
+#include "json_depth.h"
 #include "null_json_serializer.h"
 
 #include <rapidjson/document.h>
@@ -33,7 +34,9 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
+  if (!exceedsMaxDepth(str)) {
+    doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
+  }
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 8f57e7951002231529e0ea9e0ca34ef00d391952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 23/38] fix: failing to bind or listen does not deadlock

The shared state was destructed inside its own lock, which waits forever for
the reader lock to be released before closing the socket.
---
 src/socket.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..63ddb27 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,15 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
-      if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
-        return;
-      }
-
-      if (listen(socket, 0) != 0) {
-        shared.reset();
-        return;
-      }
+      listening = bind(socket, info->ai_addr, (int)info->ai_addrlen) == 0 &&
+                  listen(socket, 0) == 0;
     });
+    if (!listening) {
+      // Must not be done with the lock held, as this closes the socket.
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From 167f4c5dc83ccb2ae684993ab61f451a10417d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 24/38] fix: socket writes send everything or fail, and do not
 raise SIGPIPE

A partial send was reported as success, losing the rest of the message. Writing
to a connection closed by the peer terminated the process. A read interrupted
by a signal looked like the end of the stream.
---
 src/socket.cpp | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 63ddb27..230ea8d 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -34,6 +34,7 @@ namespace {
 std::atomic<int> wsaInitCount = {0};
 }  // anonymous namespace
 #else
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 namespace {
@@ -43,6 +44,14 @@ using SOCKET = int;
 
 namespace {
 constexpr SOCKET InvalidSocket = static_cast<SOCKET>(-1);
+
+// Writing to a socket closed by the peer must fail, not raise SIGPIPE.
+#if defined(MSG_NOSIGNAL)
+constexpr int SendFlags = MSG_NOSIGNAL;
+#else
+constexpr int SendFlags = 0;
+#endif
+
 void init() {
 #if defined(_WIN32)
   if (wsaInitCount++ == 0) {
@@ -74,6 +83,16 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+// interrupted() returns true if the last call failed as it was interrupted by a
+// signal.
+bool interrupted() {
+#if defined(_WIN32)
+  return false;
+#else
+  return errno == EINTR;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -149,6 +168,10 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     setsockopt(s, SOL_SOCKET, SO_LINGER, (char*)&linger, sizeof(linger));
 #endif  // !defined(_WIN32)
 
+#if defined(SO_NOSIGPIPE)
+    setsockopt(s, SOL_SOCKET, SO_NOSIGPIPE, (char*)&enable, sizeof(enable));
+#endif
+
     // Enable TCP_NODELAY.
     // DAP usually consists of small packet requests, with small packet
     // responses. When there are many frequent, blocking requests made,
@@ -205,9 +228,14 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return 0;
     }
-    auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
-    return (len < 0) ? 0 : len;
+    while (true) {
+      auto len =
+          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      return (len < 0) ? 0 : len;
+    }
   }
 
   bool write(const void* buffer, size_t bytes) {
@@ -218,8 +246,19 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (bytes == 0) {
       return true;
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto len = ::send(s, data, static_cast<int>(bytes), SendFlags);
+      if (len <= 0) {
+        if (len < 0 && interrupted()) {
+          continue;
+        }
+        return false;
+      }
+      data += len;
+      bytes -= static_cast<size_t>(len);
+    }
+    return true;
   }
 
  private:
-- 
2.43.0


From 57b63ae63cf1e3c833fdcc25c1f0561923ea1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 25/38] fix: isOpen() of a failed socket does not leak the
 descriptor

---
 src/socket.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 230ea8d..bd37f2c 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -187,8 +187,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    close();
     return false;
   }
 
-- 
2.43.0


From 82566011eaf13d2c74ab73a501ea511828fbb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 26/38] fix: connect timeouts of more than 71 minutes are not
 cut short

The conversion to microseconds overflowed.
---
 src/socket.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index bd37f2c..57ee6f9 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -344,15 +344,13 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
-      const auto microseconds = timeoutMillis * 1000;
-
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
 
       timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
+      tv.tv_sec = timeoutMillis / 1000;
+      tv.tv_usec = (timeoutMillis % 1000) * 1000;
       res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
       if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
         out = shared;
-- 
2.43.0


From a8e79523f6f869240a14c2cd1c839e2e6310a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 27/38] fix: connect does not overflow the fd_set with large
 descriptors

---
 src/socket.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/socket.cpp b/src/socket.cpp
index 57ee6f9..b2fa5ea 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -344,6 +344,11 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
+#if !defined(_WIN32)
+      if (socket >= FD_SETSIZE) {
+        return;  // Cannot be put in a fd_set.
+      }
+#endif
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
-- 
2.43.0


From 708827261b508b07eaad46d386cf43067132d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 28/38] fix: reading or writing a closed file fails

It used the FILE after it was closed.
---
 src/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 9f905c2..3ca1840 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -118,6 +118,9 @@ class File : public dap::ReaderWriter {
   }
   size_t read(void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(readMutex);
+    if (closed) {
+      return 0;
+    }
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
       int c = fgetc(f);
@@ -130,6 +133,9 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
+    if (closed) {
+      return false;
+    }
     if (fwrite(buffer, 1, n, f) == n) {
       fflush(f);
       return true;
-- 
2.43.0


From ec92d1a9cd1c6546b8bfaeb19a33fa7225a2b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 29/38] fix: writing to a file fails if the data cannot be
 flushed

---
 src/io.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 3ca1840..9694caf 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -136,11 +136,7 @@ class File : public dap::ReaderWriter {
     if (closed) {
       return false;
     }
-    if (fwrite(buffer, 1, n, f) == n) {
-      fflush(f);
-      return true;
-    }
-    return false;
+    return fwrite(buffer, 1, n, f) == n && fflush(f) == 0;
   }
 
  private:
-- 
2.43.0


From 80faf9080908bb5f159f46d8306fc12b1a78d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 30/38] fix: writef() does not truncate long messages

---
 src/io.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 9694caf..c84d165 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -18,7 +18,6 @@
 #include <condition_variable>
 #include <cstdarg>
 #include <cstdio>
-#include <cstring>  // strlen
 #include <deque>
 #include <mutex>
 #include <string>
@@ -243,14 +242,20 @@ std::shared_ptr<Writer> spy(const std::shared_ptr<Writer>& w,
 }
 
 bool writef(const std::shared_ptr<Writer>& w, const char* msg, ...) {
-  char buf[2048];
-
   va_list vararg;
   va_start(vararg, msg);
-  vsnprintf(buf, sizeof(buf), msg, vararg);
+  auto len = vsnprintf(nullptr, 0, msg, vararg);
+  va_end(vararg);
+  if (len < 0) {
+    return false;
+  }
+
+  std::string buf(static_cast<size_t>(len) + 1, '\0');
+  va_start(vararg, msg);
+  vsnprintf(&buf[0], buf.size(), msg, vararg);
   va_end(vararg);
 
-  return w->write(buf, strlen(buf));
+  return w->write(buf.data(), static_cast<size_t>(len));
 }
 
 }  // namespace dap
-- 
2.43.0


From b4745e8853eb78241e5dad562a61d9bbec1424e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 31/38] fix: first use of different types on different threads
 is not a data race

The list of types to delete on exit was not synchronised.
---
 src/typeof.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..da20ac4 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -60,6 +61,12 @@ struct TypeInfos {
     }
   };
 
+  // own() transfers the ownership of ti to the TypeInfos.
+  inline void own(dap::TypeInfo* ti) {
+    std::unique_lock<std::mutex> lock(typesMutex);
+    types.emplace_back(std::unique_ptr<dap::TypeInfo>(ti));
+  }
+
   dap::BasicTypeInfo<dap::boolean> boolean = {"boolean"};
   dap::BasicTypeInfo<dap::string> string = {"string"};
   dap::BasicTypeInfo<dap::integer> integer = {"integer"};
@@ -67,9 +74,10 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
-  std::vector<std::unique_ptr<dap::TypeInfo>> types;
 
  private:
+  std::mutex typesMutex;
+  std::vector<std::unique_ptr<dap::TypeInfo>> types;
   TypeInfos() = default;
   ~TypeInfos() = default;
   std::atomic<uint64_t> refcount = {1};
@@ -130,7 +138,7 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  TypeInfos::get()->own(ti);
 }
 
 void initialize() {
-- 
2.43.0


From 48fb04804ebb4b128cef4f79f03c5a9fed58a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:21 +0000
Subject: [PATCH 32/38] fix: decoding a variant yields one of its alternatives,
 or fails

Any value was accepted, leaving a value in the variant that it cannot hold, and
alternatives like arrays of structures could not be decoded at all.
---
 include/dap/serialization.h | 35 ++++++++++++++++++++++++++++++++++-
 include/dap/variant.h       | 18 ++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/include/dap/serialization.h b/include/dap/serialization.h
index c7d4c5e..d64a0d9 100644
--- a/include/dap/serialization.h
+++ b/include/dap/serialization.h
@@ -83,6 +83,20 @@ class Deserializer {
   // deserialize() decodes the struct field f with the given name.
   template <typename T>
   inline bool field(const std::string& name, T* f) const;
+
+ private:
+  // deserializeAs() decodes to the first of the alternatives of the variant
+  // that the stored object can be decoded as.
+  template <typename V>
+  inline bool deserializeAs(V*) const;
+  template <typename V, typename T, typename... Types>
+  inline bool deserializeAs(V*) const;
+  template <typename T>
+  inline bool deserializeAlternative(T* v) const {
+    return deserialize(v);
+  }
+  // null is only ever decoded as an any.
+  inline bool deserializeAlternative(null*) const { return false; }
 };
 
 template <typename T, typename>
@@ -112,7 +126,26 @@ bool Deserializer::deserialize(dap::optional<T>* opt) const {
 
 template <typename T0, typename... Types>
 bool Deserializer::deserialize(dap::variant<T0, Types...>* var) const {
-  return deserialize(&var->value);
+  any value;
+  if (deserialize(&value) && var->assign(value)) {
+    return true;
+  }
+  return deserializeAs<dap::variant<T0, Types...>, T0, Types...>(var);
+}
+
+template <typename V>
+bool Deserializer::deserializeAs(V*) const {
+  return false;
+}
+
+template <typename V, typename T, typename... Types>
+bool Deserializer::deserializeAs(V* var) const {
+  T value;
+  if (deserializeAlternative(&value)) {
+    *var = value;
+    return true;
+  }
+  return deserializeAs<V, Types...>(var);
 }
 
 template <typename T>
diff --git a/include/dap/variant.h b/include/dap/variant.h
index 96e57c2..33e0424 100644
--- a/include/dap/variant.h
+++ b/include/dap/variant.h
@@ -17,6 +17,8 @@
 
 #include "any.h"
 
+#include <initializer_list>
+
 namespace dap {
 
 // internal functionality
@@ -64,6 +66,11 @@ class variant {
  private:
   friend class Serializer;
   friend class Deserializer;
+
+  // assign() replaces the contained value with val, if val holds a value of one
+  // of the types of the variant. Returns true on success.
+  inline bool assign(const any& val);
+
   any value;
 };
 
@@ -103,6 +110,17 @@ constexpr bool variant<T0, Types...>::accepts() {
   return detail::TypeIsIn<T, T0, Types...>::value;
 }
 
+template <typename T0, typename... Types>
+bool variant<T0, Types...>::assign(const any& val) {
+  for (bool accepted : {val.is<T0>(), val.is<Types>()...}) {
+    if (accepted) {
+      value = val;
+      return true;
+    }
+  }
+  return false;
+}
+
 }  // namespace dap
 
 #endif  // dap_variant_h
-- 
2.43.0


From 03f18b809284c72715617dcbbeed0ab5afdb22d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:38 +0000
Subject: [PATCH 33/38] fix: a timed connect() that fails at once must not be
 reported as connected

If the non-blocking connect call failed for good (for example as the network is
unreachable) select() reports the unconnected socket as writable with no error
pending, and connect() returned it as a connected stream.
---
 src/socket.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index b2fa5ea..1c70218 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -93,6 +93,16 @@ bool interrupted() {
 #endif
 }
 
+// connecting() returns true if the last (non-blocking) connect call failed only
+// because the connection is still being established.
+bool connecting() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS || errno == EINTR;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -343,7 +353,7 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       if (setBlocking(socket, true)) {
         out = shared;
       }
-    } else {
+    } else if (connecting()) {
 #if !defined(_WIN32)
       if (socket >= FD_SETSIZE) {
         return;  // Cannot be put in a fd_set.
-- 
2.43.0


From 15ab58a8405474ca2749e92aa8384ed62ae9e2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:53 +0000
Subject: [PATCH 34/38] fix: jsoncpp: refuse text after the JSON value

---
 src/jsoncpp_json_serializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index dc6b6f4..265e0e2 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -147,6 +147,8 @@ bool JsonCppDeserializer::field(
 
 Json::Value JsonCppDeserializer::parse(const std::string& text) {
   Json::CharReaderBuilder builder;
+  // Nothing may follow the JSON value.
+  builder["failIfExtra"] = true;
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-- 
2.43.0


From 3e54c0e377f1ec130b8aeb6b68469a3295dbf632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:58 +0000
Subject: [PATCH 35/38] fix: DAP_STRUCT_TYPEINFO_EXT: serialize the fields of
 all the bases

A struct that extends an extended struct lost the fields of its
grandparent, both when encoded and when decoded. A base that is not the
first base of the struct was accessed at the wrong address.
---
 include/dap/typeof.h | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..213866f 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -159,11 +159,18 @@ M member_type(M T::*);
 // and serializeFields() static methods of a TypeOf<> specialization. Used
 // internally by DAP_IMPLEMENT_STRUCT_TYPEINFO() and
 // DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT().
+// DESERIALIZE_BASE and SERIALIZE_BASE are evaluated before the fields of the
+// struct are (de)serialized, returning false if they evaluate to false.
 // You probably do not want to use this directly.
-#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, ...)           \
+#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, DESERIALIZE_BASE,    \
+                                                 SERIALIZE_BASE, ...)         \
   bool TypeOf<STRUCT>::deserializeFields(const Deserializer* fd, void* obj) { \
     using StructTy = STRUCT;                                                  \
     (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    bool ok = DESERIALIZE_BASE;                                               \
+    if (!ok) {                                                                \
+      return false;                                                           \
+    }                                                                         \
     for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \
       if (!fd->field(field.name, [&](Deserializer* d) {                       \
             auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \
@@ -177,6 +184,10 @@ M member_type(M T::*);
   bool TypeOf<STRUCT>::serializeFields(FieldSerializer* fs, const void* obj) {\
     using StructTy = STRUCT;                                                  \
     (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    bool ok = SERIALIZE_BASE;                                                 \
+    if (!ok) {                                                                \
+      return false;                                                           \
+    }                                                                         \
     for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \
       if (!fs->field(field.name, [&](Serializer* s) {                         \
             auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \
@@ -196,7 +207,7 @@ M member_type(M T::*);
 // DAP_FIELD()s, one for each field of the struct.
 // Must be used within the 'dap' namespace.
 #define DAP_IMPLEMENT_STRUCT_TYPEINFO(STRUCT, NAME, ...)                    \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)       \
+  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, true, true, __VA_ARGS__) \
   const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                           \
     struct TI : BasicTypeInfo<STRUCT> {                                     \
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                                 \
@@ -230,22 +241,22 @@ M member_type(M T::*);
 #define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)        \
   static_assert(std::is_base_of<BASE, STRUCT>::value,                     \
                 #STRUCT " does not derive from " #BASE);                  \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)     \
+  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(                               \
+      STRUCT,                                                             \
+      TypeOf<BASE>::deserializeFields(                                    \
+          fd, static_cast<BASE*>(static_cast<STRUCT*>(obj))),             \
+      TypeOf<BASE>::serializeFields(                                      \
+          fs, static_cast<const BASE*>(static_cast<const STRUCT*>(obj))), \
+      __VA_ARGS__)                                                        \
   const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                         \
     struct TI : BasicTypeInfo<STRUCT> {                                   \
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
       bool deserialize(const Deserializer* d, void* obj) const override { \
-        auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(obj);                              \
-        return TypeOf<BASE>::deserializeFields(d, base) &&                \
-               deserializeFields(d, derived);                             \
+        return deserializeFields(d, obj);                                 \
       }                                                                   \
       bool serialize(Serializer* s, const void* obj) const override {     \
         return s->object([&](FieldSerializer* fs) {                       \
-          auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(obj);                      \
-          return TypeOf<BASE>::serializeFields(fs, base) &&               \
-                 serializeFields(fs, derived);                            \
+          return serializeFields(fs, obj);                                \
         });                                                               \
       }                                                                   \
     };                                                                    \
-- 
2.43.0


From ab7b23f6d0bd4b882016fb5b50b389a24f81e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:50 +0000
Subject: [PATCH 36/38] fix: any: assigning an array found inside the any's own
 array

The element being assigned from was destroyed (or overwritten) while it was
being copied when both were of the same type.
---
 include/dap/any.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index 6321841..c22e781 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -136,7 +136,9 @@ any& any::operator=(const T& val) {
 #ifdef __clang_analyzer__
     assert(value != nullptr);
 #endif
-    *reinterpret_cast<T*>(value) = val;
+    // Copy first: val may be held (indirectly) by this.
+    T tmp(val);
+    *reinterpret_cast<T*>(value) = static_cast<T&&>(tmp);
   }
   return *this;
 }
-- 
2.43.0


From ca4cdc86ae073bf4879b70f41e05a2eca3be403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:36 +0000
Subject: [PATCH 37/38] fix: assigning an optional of another type

The converting assignment operators accessed private members of the other
optional type and so could not be instantiated.
---
 include/dap/optional.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/dap/optional.h b/include/dap/optional.h
index 9a3d216..6ac5f05 100644
--- a/include/dap/optional.h
+++ b/include/dap/optional.h
@@ -161,17 +161,13 @@ optional<T>& optional<T>::operator=(U&& value) {
 template <typename T>
 template <typename U>
 optional<T>& optional<T>::operator=(const optional<U>& other) {
-  val = other.val;
-  set = other.set;
-  return *this;
+  return *this = optional(other);
 }
 
 template <typename T>
 template <typename U>
 optional<T>& optional<T>::operator=(optional<U>&& other) {
-  val = std::move(other.val);
-  set = other.set;
-  return *this;
+  return *this = optional(std::move(other));
 }
 
 template <typename T>
-- 
2.43.0


From be0fcaa394cada26067b36fb7c2e4e8dc3e3edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:02 +0000
Subject: [PATCH 38/38] fix: a response that cannot be serialized is answered
 with an error

It was sent in part, as a success.
---
 src/session.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 0d1fa06..abea1e2 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -403,7 +403,7 @@ class Impl : public dap::Session {
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
-            s.object([&](dap::FieldSerializer* fs) {
+            auto ok = s.object([&](dap::FieldSerializer* fs) {
               return fs->field("seq", dap::integer(nextSeq++)) &&
                      fs->field("type", "response") &&
                      fs->field("request_seq", sequence) &&
@@ -413,10 +413,21 @@ class Impl : public dap::Session {
                        return typeinfo->serialize(s, data);
                      });
             });
+            auto error = dap::Error("Failed to serialize response");
+            if (!ok) {
+              s.object([&](dap::FieldSerializer* fs) {
+                return fs->field("seq", dap::integer(nextSeq++)) &&
+                       fs->field("type", "response") &&
+                       fs->field("request_seq", sequence) &&
+                       fs->field("success", dap::boolean(false)) &&
+                       fs->field("command", command) &&
+                       fs->field("message", error.message);
+              });
+            }
             send(s.dump());
 
             if (auto handler = handlers.responseSent(typeinfo)) {
-              handler(data, nullptr);
+              handler(ok ? data : nullptr, ok ? nullptr : &error);
             }
           },
           [=](const dap::TypeInfo* typeinfo, const dap::Error& error) {
-- 
2.43.0

