From 16586fcce6f11960cd7041fb00b52af087ef3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:13 +0000
Subject: [PATCH 01/39] fix: any moves release and transfer storage, and
 assignment may alias

Moving an any did not transfer the heap allocation (leaking it, and freeing it
while in use when the moved-from any was reused), did not destroy a moved-from
in-place value, and assigning an any to itself or to a part of itself read
destroyed values.
---
 include/dap/any.h | 62 ++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..52f8218 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -68,6 +68,7 @@ class any {
   static inline void* alignUp(void* val, size_t alignment);
   inline void alloc(size_t size, size_t align);
   inline void free();
+  inline void take(any& other);
   inline bool isInBuffer(void* ptr) const;
 
   void* value = nullptr;
@@ -92,15 +93,8 @@ any::any(const any& other) noexcept : type(other.type) {
   }
 }
 
-any::any(any&& other) noexcept : type(other.type) {
-  if (other.isInBuffer(other.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, other.value);
-  } else {
-    value = other.value;
-  }
-  other.value = nullptr;
-  other.type = nullptr;
+any::any(any&& other) noexcept {
+  take(other);
 }
 
 void any::reset() {
@@ -113,41 +107,37 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  // Copy before resetting, as rhs may be this, or held by the contained value.
+  any copy(rhs);
   reset();
-  type = rhs.type;
-  if (rhs.value != nullptr) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  }
+  take(copy);
   return *this;
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  // Move before resetting, as rhs may be this, or held by the contained value.
+  any moved(static_cast<any&&>(rhs));
   reset();
-  type = rhs.type;
-  if (rhs.isInBuffer(rhs.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  } else {
-    value = rhs.value;
-  }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
+  take(moved);
   return *this;
 }
 
 template <typename T>
 any& any::operator=(const T& val) {
   if (!is<T>()) {
+    // Copy before resetting, as val may be held by the contained value.
+    any copy;
+    copy.type = TypeOf<T>::type();
+    copy.alloc(copy.type->size(), copy.type->alignment());
+    copy.type->copyConstruct(copy.value, &val);
     reset();
-    type = TypeOf<T>::type();
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, &val);
+    take(copy);
   } else {
 #ifdef __clang_analyzer__
     assert(value != nullptr);
 #endif
-    *reinterpret_cast<T*>(value) = val;
+    T copy(val);
+    *reinterpret_cast<T*>(value) = static_cast<T&&>(copy);
   }
   return *this;
 }
@@ -200,6 +190,24 @@ void any::free() {
   value = nullptr;
 }
 
+// take() moves the value held by other to this any, which must hold no value.
+// other holds no value after the call.
+void any::take(any& other) {
+  assert(value == nullptr);
+  type = other.type;
+  if (other.isInBuffer(other.value)) {
+    alloc(type->size(), type->alignment());
+    type->copyConstruct(value, other.value);
+    other.reset();
+  } else {
+    value = other.value;
+    heap = other.heap;
+    other.value = nullptr;
+    other.heap = nullptr;
+    other.type = nullptr;
+  }
+}
+
 bool any::isInBuffer(void* ptr) const {
   auto addr = reinterpret_cast<uintptr_t>(ptr);
   return addr >= reinterpret_cast<uintptr_t>(buffer) &&
-- 
2.43.0


From dbfc3fe23cc8b3d0acb733a7aaab9f7bf3826286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:45 +0000
Subject: [PATCH 02/39] fix: do not deadlock when a server socket cannot be
 bound

The socket was destroyed (which takes its writer lock) while its reader lock was
held, so starting a server on an occupied port never returned.
---
 src/socket.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..735212f 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,18 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
       if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
         return;
       }
 
-      if (listen(socket, 0) != 0) {
-        shared.reset();
-        return;
-      }
+      listening = listen(socket, 0) == 0;
     });
+    if (!listening) {
+      // Must not be released while holding its lock.
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From a7acba71827c537399e7ee3e33eead80475e8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:58 +0000
Subject: [PATCH 03/39] fix: complete partial socket transfers and report
 closed peers

Writing to a connection closed by the peer killed the process with SIGPIPE, a
partial send() was reported as success losing the remaining bytes, and calls
interrupted by a signal were reported as failures or end of stream.
---
 src/socket.cpp | 55 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 735212f..2f9dab7 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -34,6 +34,7 @@ namespace {
 std::atomic<int> wsaInitCount = {0};
 }  // anonymous namespace
 #else
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 namespace {
@@ -74,6 +75,26 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+// interrupted() returns true if the last socket call failed because it was
+// interrupted by a signal, and should be repeated.
+bool interrupted() {
+#if defined(_WIN32)
+  return false;
+#else
+  return errno == EINTR;
+#endif
+}
+
+// The largest number of bytes passed to a single send() or recv().
+constexpr size_t MaxChunk = 0x40000000;
+
+// Sending to a connection closed by the peer must not raise SIGPIPE.
+#if defined(MSG_NOSIGNAL)
+constexpr int SendFlags = MSG_NOSIGNAL;
+#else
+constexpr int SendFlags = 0;
+#endif
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -147,6 +168,9 @@ class dap::Socket::Shared : public dap::ReaderWriter {
       int l_linger; /* how many seconds to linger for */
     } linger = {false, 0};
     setsockopt(s, SOL_SOCKET, SO_LINGER, (char*)&linger, sizeof(linger));
+#if defined(SO_NOSIGPIPE)
+    setsockopt(s, SOL_SOCKET, SO_NOSIGPIPE, (char*)&enable, sizeof(enable));
+#endif
 #endif  // !defined(_WIN32)
 
     // Enable TCP_NODELAY.
@@ -205,9 +229,14 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return 0;
     }
-    auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
-    return (len < 0) ? 0 : len;
+    auto chunk = static_cast<int>(bytes < MaxChunk ? bytes : MaxChunk);
+    while (true) {
+      auto len = recv(s, reinterpret_cast<char*>(buffer), chunk, 0);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      return (len < 0) ? 0 : len;
+    }
   }
 
   bool write(const void* buffer, size_t bytes) {
@@ -215,11 +244,20 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return false;
     }
-    if (bytes == 0) {
-      return true;
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto chunk = static_cast<int>(bytes < MaxChunk ? bytes : MaxChunk);
+      auto len = ::send(s, data, chunk, SendFlags);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      if (len <= 0) {
+        return false;
+      }
+      data += len;
+      bytes -= static_cast<size_t>(len);
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    return true;
   }
 
  private:
@@ -255,6 +293,9 @@ std::shared_ptr<ReaderWriter> Socket::accept() const {
       if (socket != InvalidSocket && !errored(socket)) {
         init();
         auto accepted = ::accept(socket, 0, 0);
+        while (accepted == InvalidSocket && interrupted()) {
+          accepted = ::accept(socket, 0, 0);
+        }
         if (accepted != InvalidSocket) {
           out = std::make_shared<Shared>(accepted);
           out->setOptions();
-- 
2.43.0


From bde73f85e05bf5e9616838569b8fc3b4a4a2a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 04/39] fix: release the descriptor of an errored socket

isOpen() forgot the descriptor of a connection that was reset by its peer
without closing it.
---
 src/socket.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 2f9dab7..a2a7769 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -188,8 +188,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    close();
     return false;
   }
 
-- 
2.43.0


From cfb83b2cc18bb8e69db27fcd3ac796eeecad2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:35 +0000
Subject: [PATCH 05/39] fix: honour connect timeouts of any length, and failed
 connect attempts

The timeout in microseconds overflowed for timeouts above 71 minutes, select()
corrupted memory for descriptors above FD_SETSIZE, and an attempt that failed
immediately (unreachable network) was taken for an established connection.
---
 src/socket.cpp | 69 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index a2a7769..9650a15 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,6 +16,9 @@
 
 #include "rwmutex.h"
 
+#include <algorithm>
+#include <chrono>
+
 #if defined(_WIN32)
 #include <winsock2.h>
 #include <ws2tcpip.h>
@@ -23,7 +26,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
@@ -39,6 +42,8 @@ std::atomic<int> wsaInitCount = {0};
 #include <unistd.h>
 namespace {
 using SOCKET = int;
+// The longest single wait for a connection to be established.
+constexpr int64_t MaxPollMillis = 60 * 60 * 1000;
 }  // anonymous namespace
 #endif
 
@@ -85,6 +90,53 @@ bool interrupted() {
 #endif
 }
 
+// connecting() returns true if the last non-blocking ::connect() call is still
+// in progress.
+bool connecting() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS;
+#endif
+}
+
+// waitUntilConnected() waits until the non-blocking connection attempt of the
+// given socket has completed, returning false if it is still in progress after
+// timeoutMillis milliseconds.
+bool waitUntilConnected(SOCKET s, uint32_t timeoutMillis) {
+#if defined(_WIN32)
+  fd_set writable;
+  FD_ZERO(&writable);
+  FD_SET(s, &writable);
+  fd_set failed = writable;
+
+  timeval tv;
+  tv.tv_sec = static_cast<long>(timeoutMillis / 1000);
+  tv.tv_usec = static_cast<long>((timeoutMillis % 1000) * 1000);
+  return select(0, nullptr, &writable, &failed, &tv) > 0;
+#else
+  // Note: select() cannot be used, as it does not support descriptors greater
+  // or equal to FD_SETSIZE.
+  using Clock = std::chrono::steady_clock;
+  const auto deadline =
+      Clock::now() + std::chrono::milliseconds(timeoutMillis);
+  while (true) {
+    const auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(
+        deadline - Clock::now() + std::chrono::microseconds(999));
+    const auto wait = std::max<int64_t>(
+        0, std::min<int64_t>(remaining.count(), MaxPollMillis));
+    pollfd fd = {s, POLLOUT, 0};
+    const auto res = poll(&fd, 1, static_cast<int>(wait));
+    if (res > 0) {
+      return true;
+    }
+    if ((res < 0 && !interrupted()) || (res == 0 && Clock::now() >= deadline)) {
+      return false;
+    }
+  }
+#endif
+}
+
 // The largest number of bytes passed to a single send() or recv().
 constexpr size_t MaxChunk = 0x40000000;
 
@@ -348,18 +400,9 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       if (setBlocking(socket, true)) {
         out = shared;
       }
-    } else {
-      const auto microseconds = timeoutMillis * 1000;
-
-      fd_set fdset;
-      FD_ZERO(&fdset);
-      FD_SET(socket, &fdset);
-
-      timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
-      res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
-      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
+    } else if (connecting()) {
+      if (waitUntilConnected(socket, timeoutMillis) && !errored(socket) &&
+          setBlocking(socket, true)) {
         out = shared;
       }
     }
-- 
2.43.0


From a111307991210eb5a4baf0064538ed350de8789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:25 +0000
Subject: [PATCH 06/39] fix: treat the end of the input stream as a closed
 session

Once a TCP peer closed its connection, or an input file reached its end, the
receive thread kept polling the exhausted stream at full speed and the session's
close handler was never called.
---
 src/content_stream.cpp | 5 ++++-
 src/content_stream.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..6af899b 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -33,11 +33,12 @@ ContentReader& ContentReader::operator=(ContentReader&& rhs) noexcept {
   buf = std::move(rhs.buf);
   reader = std::move(rhs.reader);
   on_invalid_data = std::move(rhs.on_invalid_data);
+  eof = rhs.eof;
   return *this;
 }
 
 bool ContentReader::isOpen() {
-  return reader ? reader->isOpen() : false;
+  return (reader && !eof) ? reader->isOpen() : false;
 }
 
 void ContentReader::close() {
@@ -150,6 +151,8 @@ bool ContentReader::buffer(size_t bytes) {
     auto numWant = std::min(sizeof(chunk), bytes);
     auto numGot = reader->read(chunk, numWant);
     if (numGot == 0) {
+      // Reader::read() only returns no data once the stream has ended.
+      eof = true;
       return false;
     }
     for (size_t i = 0; i < numGot; i++) {
diff --git a/src/content_stream.h b/src/content_stream.h
index eee998e..5cd95e2 100644
--- a/src/content_stream.h
+++ b/src/content_stream.h
@@ -52,6 +52,7 @@ class ContentReader {
   std::shared_ptr<Reader> reader;
   std::deque<uint8_t> buf;
   OnInvalidData on_invalid_data;
+  bool eof = false;
 };
 
 class ContentWriter {
-- 
2.43.0


From db486d7f02eb089e86435f32babe0cb69c0c637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:40 +0000
Subject: [PATCH 07/39] fix: reject content headers with a NUL, zero or
 overflowing length

A NUL byte was skipped as if it were a blank or digit, a length above SIZE_MAX
wrapped around, and a header without a length did not close the stream when
closing on invalid data was requested.
---
 src/content_stream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 6af899b..57ecdb0 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -68,11 +68,14 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
+    if (len > (SIZE_MAX - 9) / 10) {
+      return badHeader();
+    }
     len *= 10;
     len += size_t(c) - size_t('0');
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
@@ -134,7 +137,8 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
-  if (auto p = strchr(chars, c)) {
+  auto p = (c != 0) ? strchr(chars, c) : nullptr;
+  if (p != nullptr) {
     buf.pop_front();
     return *p;
   }
-- 
2.43.0


From 967c5f44bf953ff869cac5c905d9dbac56149221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:44 +0000
Subject: [PATCH 08/39] fix: do not abort on malformed JSON with JsonCpp

Any peer could terminate the process by sending a message that is not valid
JSON. The message is now treated as an empty one, as with the other JSON
libraries, which also reject comments, trailing commas and trailing data.
---
 src/jsoncpp_json_serializer.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..75a7b1b 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,7 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
+#include <exception>
 #include <memory>
 
 namespace dap {
@@ -145,15 +145,22 @@ bool JsonCppDeserializer::field(
 
 Json::Value JsonCppDeserializer::parse(const std::string& text) {
   Json::CharReaderBuilder builder;
+  builder["allowComments"] = false;
+  builder["allowTrailingCommas"] = false;
+  builder["failIfExtra"] = true;
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+  // cppdap expects that the JSON layer does not throw exceptions. JsonCpp throws
+  // an exception if the document is nested too deeply.
+  try {
+    if (jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                          &error)) {
+      return json;
+    }
+  } catch (const std::exception&) {
   }
-  return json;
+  return Json::Value();
 }
 
 JsonCppSerializer::JsonCppSerializer()
-- 
2.43.0


From f0a6d67b0339d2b2040557b9f8095d38e5c37b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:54 +0000
Subject: [PATCH 09/39] fix: RapidJSON: check value types, keep 64-bit integers
 and NULs

Decoding an object or array from a value of another type failed an assertion
(or read invalid memory), integers that do not fit 32 bits could not be decoded
to an any, and strings and keys were truncated at the first NUL.
---
 src/rapid_json_serializer.cpp | 51 ++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..3a4c997 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,12 +19,22 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+namespace {
+
+// stringRef() returns a value that references the string s.
+rapidjson::Value stringRef(const std::string& s) {
+  return rapidjson::Value(
+      rapidjson::StringRef(s.data(), static_cast<uint32_t>(s.size())));
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
@@ -70,11 +80,14 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  v->assign(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
@@ -82,7 +95,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[dap::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -92,10 +106,12 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
+  } else if (json()->IsUint64()) {
+    *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -117,7 +133,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
@@ -140,7 +156,7 @@ bool RapidDeserializer::field(
   if (!json()->IsObject()) {
     return false;
   }
-  auto it = json()->FindMember(name.c_str());
+  auto it = json()->FindMember(stringRef(name));
   if (it == json()->MemberEnd()) {
     return cb(&NullDeserializer::instance);
   }
@@ -164,7 +180,7 @@ std::string RapidSerializer::dump() const {
   rapidjson::StringBuffer sb;
   rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(sb);
   json()->Accept(writer);
-  return sb.GetString();
+  return std::string(sb.GetString(), sb.GetSize());
 }
 
 bool RapidSerializer::serialize(dap::boolean v) {
@@ -192,11 +208,13 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    if (!json()->HasMember(stringRef(it.first))) {
+      rapidjson::Value name_value{it.first.data(),
+                                  static_cast<uint32_t>(it.first.size()),
+                                  allocator};
       json()->AddMember(name_value, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[stringRef(it.first)];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
@@ -260,15 +278,16 @@ bool RapidSerializer::object(
     FS(rapidjson::Value* json, rapidjson::Document::AllocatorType& allocator)
         : json(json), allocator(allocator) {}
     bool field(const std::string& name, const SerializeFunc& cb) override {
-      if (!json->HasMember(name.c_str())) {
-        rapidjson::Value name_value{name.c_str(), allocator};
+      if (!json->HasMember(stringRef(name))) {
+        rapidjson::Value name_value{
+            name.data(), static_cast<uint32_t>(name.size()), allocator};
         json->AddMember(name_value, rapidjson::Value(), allocator);
       }
-      rapidjson::Value& member = (*json)[name.c_str()];
+      rapidjson::Value& member = (*json)[stringRef(name)];
       RapidSerializer s(&member, allocator);
       auto res = cb(&s);
       if (s.removed) {
-        json->RemoveMember(name.c_str());
+        json->RemoveMember(stringRef(name));
       }
       return res;
     }
-- 
2.43.0


From f4c307d8d459b72617a9a4bbcfd1ba60a2fd0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:31 +0000
Subject: [PATCH 10/39] fix: RapidJSON: keep full number precision and complete
 documents

Numbers were decoded with an error of up to 3 ULP, and a NaN or infinity
truncated the encoded document at that value.
---
 src/rapid_json_serializer.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 3a4c997..ac51c1d 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,6 +19,8 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+#include <cmath>
+
 namespace {
 
 // stringRef() returns a value that references the string s.
@@ -34,7 +36,7 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.data(), str.size());
+  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
@@ -194,7 +196,13 @@ bool RapidSerializer::serialize(dap::integer v) {
 }
 
 bool RapidSerializer::serialize(dap::number v) {
-  json()->SetDouble(v);
+  const double value = v;
+  if (std::isfinite(value)) {
+    json()->SetDouble(value);
+  } else {
+    // Not representable in JSON, and would end the document.
+    json()->SetNull();
+  }
   return true;
 }
 
@@ -229,7 +237,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
   } else if (v.is<dap::integer>()) {
     json()->SetInt64(v.get<dap::integer>());
   } else if (v.is<dap::number>()) {
-    json()->SetDouble((double)v.get<dap::number>());
+    return serialize(v.get<dap::number>());
   } else if (v.is<dap::string>()) {
     auto s = v.get<dap::string>();
     json()->SetString(s.data(), static_cast<uint32_t>(s.length()), allocator);
-- 
2.43.0


From 66c09d390595b1b1558a51aa7a173ab1edb86e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:48 +0000
Subject: [PATCH 11/39] fix: nlohmann: do not abort when encoding a string with
 invalid UTF-8

---
 src/nlohmann_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..e29f190 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -157,7 +157,8 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Replace invalid UTF-8 sequences, as JSON exceptions are disabled.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From b01c961085554c9ae09a98229d55ac6a83e1fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:07 +0000
Subject: [PATCH 12/39] fix: reject values of the wrong JSON type when decoding
 objects and integers

nlohmann decoded any value as an object, and an array as a struct; JsonCpp
decoded null and arrays as an object and real numbers as integers, unlike the
other JSON libraries.
---
 src/jsoncpp_json_serializer.cpp  | 6 +++++-
 src/nlohmann_json_serializer.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 75a7b1b..71e8297 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -44,7 +44,8 @@ bool JsonCppDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::integer* v) const {
-  if (!json->isInt64()) {
+  // json->isInt64() returns true for integral real values as well.
+  if (json->type() == Json::ValueType::realValue || !json->isInt64()) {
     return false;
   }
   *v = json->asInt64();
@@ -68,6 +69,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index e29f190..504936c 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -70,6 +70,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
@@ -132,7 +135,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
-- 
2.43.0


From 098bd2c7c73f2bea3a39098e3595d6833f69ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:27 +0000
Subject: [PATCH 13/39] fix: a serializer that is assigned again stores only
 the last value

Encoding a null kept, and encoding an object or array extended, the value
previously stored in the serializer.
---
 src/jsoncpp_json_serializer.cpp  |  5 ++---
 src/nlohmann_json_serializer.cpp |  5 ++---
 src/rapid_json_serializer.cpp    | 13 ++++---------
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 71e8297..87377e0 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -205,9 +205,7 @@ bool JsonCppSerializer::serialize(const dap::string& v) {
 }
 
 bool JsonCppSerializer::serialize(const dap::object& v) {
-  if (!json->isObject()) {
-    *json = Json::Value(Json::objectValue);
-  }
+  *json = Json::Value(Json::objectValue);
   for (auto& it : v) {
     JsonCppSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -230,6 +228,7 @@ bool JsonCppSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = Json::Value(Json::nullValue);
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 504936c..8dcb281 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -185,9 +185,7 @@ bool NlohmannSerializer::serialize(const dap::string& v) {
 }
 
 bool NlohmannSerializer::serialize(const dap::object& v) {
-  if (!json->is_object()) {
-    *json = nlohmann::json::object();
-  }
+  *json = nlohmann::json::object();
   for (auto& it : v) {
     NlohmannSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -210,6 +208,7 @@ bool NlohmannSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = nullptr;
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index ac51c1d..257e766 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -212,9 +212,7 @@ bool RapidSerializer::serialize(const dap::string& v) {
 }
 
 bool RapidSerializer::serialize(const dap::object& v) {
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   for (auto& it : v) {
     if (!json()->HasMember(stringRef(it.first))) {
       rapidjson::Value name_value{it.first.data(),
@@ -245,6 +243,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
@@ -260,9 +259,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
 
 bool RapidSerializer::array(size_t count,
                             const std::function<bool(dap::Serializer*)>& cb) {
-  if (!json()->IsArray()) {
-    json()->SetArray();
-  }
+  json()->SetArray();
 
   while (count > json()->Size()) {
     json()->PushBack(rapidjson::Value(), allocator);
@@ -301,9 +298,7 @@ bool RapidSerializer::object(
     }
   };
 
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   FS fs{json(), allocator};
   return cb(&fs);
 }
-- 
2.43.0


From 1ab5f26cc09ff3f898357e7e1ceb61d75bf3e3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:02 +0000
Subject: [PATCH 14/39] fix: guard the error handler when reporting
 registration errors

The error handler was read and called without its mutex, racing with onError()
and with errors reported by other threads. Sequence numbers are 64 bit.
---
 src/session.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..c7166b7 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -193,7 +193,8 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto responseIt = responseMap.find(seq);
       if (responseIt == responseMap.end()) {
-        errorfLocked("Unknown response with sequence %d", seq);
+        errorfLocked("Unknown response with sequence %lld",
+                     static_cast<long long>(seq));
         return {};
       }
       auto out = std::move(responseIt->second);
@@ -253,6 +254,7 @@ class Impl : public dap::Session {
     void errorfLocked(const char* format, ...) {
       va_list vararg;
       va_start(vararg, format);
+      std::unique_lock<std::mutex> lock(errorMutex);
       errorLocked(format, vararg);
       va_end(vararg);
     }
@@ -441,7 +443,8 @@ class Impl : public dap::Session {
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
     if (!typeinfo) {
-      handlers.error("Unknown response with sequence %d", requestSeq);
+      handlers.error("Unknown response with sequence %lld",
+                     static_cast<long long>(requestSeq));
       return;
     }
 
-- 
2.43.0


From 8987744fc01b51403ed2532cff82ced899f1aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:42 +0000
Subject: [PATCH 15/39] fix: release the data of payloads that are never
 dispatched

The decoded request or event was only released by running the payload, so it was
leaked when the session was destroyed first or the payload was dropped.
---
 src/session.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index c7166b7..b14ce62 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -290,6 +290,17 @@ class Impl : public dap::Session {
         responseSentMap;
   };  // EventHandlers
 
+  // allocate() returns a new object of the given type, that is destroyed with
+  // the last reference to it.
+  static std::shared_ptr<uint8_t> allocate(const dap::TypeInfo* typeinfo) {
+    auto data = new uint8_t[typeinfo->size()];
+    typeinfo->construct(data);
+    return std::shared_ptr<uint8_t>(data, [typeinfo](uint8_t* ptr) {
+      typeinfo->destruct(ptr);
+      delete[] ptr;
+    });
+  }
+
   Payload processMessage(const std::string& str) {
     auto d = dap::json::Deserializer(str);
     dap::string type;
@@ -334,21 +345,18 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = allocate(typeinfo);
 
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
+          return typeinfo->deserialize(d, data.get());
         })) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -385,8 +393,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -406,13 +412,12 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = allocate(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
+      if (!typeinfo->deserialize(d, data.get())) {
         body_ok = false;
       }
       return true;
@@ -420,16 +425,10 @@ class Impl : public dap::Session {
 
     if (!body_ok) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
-    return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
-    };
+    return [=] { handler(data.get()); };
   }
 
   void processResponse(const dap::Deserializer* d) {
-- 
2.43.0


From 211fbd2d2a167fc3a1fce39371eb956661ef8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 16/39] fix: drop the response handler of a request that failed
 to send

The handler stayed registered, so that a response carrying its sequence number
assigned the future a second value after it had reported the failure.
---
 src/session.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index b14ce62..b3b675e 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -110,17 +110,18 @@ class Impl : public dap::Session {
     handlers.put(seq, responseTypeInfo, responseHandler);
 
     dap::json::Serializer s;
-    if (!s.object([&](dap::FieldSerializer* fs) {
-          return fs->field("seq", dap::integer(seq)) &&
-                 fs->field("type", "request") &&
-                 fs->field("command", requestTypeInfo->name()) &&
-                 fs->field("arguments", [&](dap::Serializer* s) {
-                   return requestTypeInfo->serialize(s, request);
-                 });
-        })) {
-      return false;
-    }
-    return send(s.dump());
+    bool sent = s.object([&](dap::FieldSerializer* fs) {
+      return fs->field("seq", dap::integer(seq)) &&
+             fs->field("type", "request") &&
+             fs->field("command", requestTypeInfo->name()) &&
+             fs->field("arguments", [&](dap::Serializer* s) {
+               return requestTypeInfo->serialize(s, request);
+             });
+    }) && send(s.dump());
+
+    // The response handler of a request that failed to send must not be called
+    // anymore. If it already was, then the request has been received.
+    return sent || !handlers.removeResponse(seq);
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
@@ -202,6 +203,11 @@ class Impl : public dap::Session {
       return out;
     }
 
+    bool removeResponse(int64_t seq) {
+      std::unique_lock<std::mutex> lock(responseMutex);
+      return responseMap.erase(seq) > 0;
+    }
+
     void put(int seq,
              const dap::TypeInfo* typeinfo,
              const GenericResponseHandler& handler) {
-- 
2.43.0


From b0f7b4ca1b61e95e1e2e1c9edee7d8f711eabd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:21 +0000
Subject: [PATCH 17/39] fix: complete requests whose failure response has no or
 a long message

The future of a request never became ready if the failure response had no
(optional) message, reported success if the message was empty, and held only the
first 2047 characters of longer messages.
---
 src/session.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index b3b675e..a8ff2c3 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -456,6 +456,8 @@ class Impl : public dap::Session {
     dap::boolean success = false;
     if (!d->field("success", &success)) {
       handlers.error("Response missing int 'success' field");
+      dap::Error error("Response missing int 'success' field");
+      handler(nullptr, &error);
       return;
     }
 
@@ -471,12 +473,13 @@ class Impl : public dap::Session {
       handler(data.get(), nullptr);
       typeinfo->destruct(data.get());
     } else {
+      // "message" field in Response is an optional field, but an Error with no
+      // message represents success.
       std::string message;
-      if (!d->field("message", &message)) {
-        handlers.error("Failed to deserialize message");
-        return;
+      if (!d->field("message", &message) || message.empty()) {
+        message = "Request failed";
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 2e013dca66061a8fe3f71e1660a75791af928ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:57 +0000
Subject: [PATCH 18/39] fix: dispatch requests and events that omit their
 arguments or body

These are optional in the protocol if they have no required field, but a message
without them was only decoded if its type has no fields at all.
---
 src/session.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index a8ff2c3..6848d6f 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -19,6 +19,7 @@
 
 #include "chan.h"
 #include "json_serializer.h"
+#include "null_json_serializer.h"
 #include "socket.h"
 
 #include <stdarg.h>
@@ -307,6 +308,18 @@ class Impl : public dap::Session {
     });
   }
 
+  // deserialize() decodes the arguments or body of a message. These may be
+  // omitted by the sender, which is the same as an object with no fields.
+  static bool deserialize(const dap::Deserializer* d,
+                          const dap::TypeInfo* typeinfo,
+                          void* data) {
+    if (d == &dap::json::NullDeserializer::instance) {
+      dap::json::Deserializer empty("{}");
+      return typeinfo->deserialize(&empty, data);
+    }
+    return typeinfo->deserialize(d, data);
+  }
+
   Payload processMessage(const std::string& str) {
     auto d = dap::json::Deserializer(str);
     dap::string type;
@@ -354,7 +367,7 @@ class Impl : public dap::Session {
     auto data = allocate(typeinfo);
 
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data.get());
+          return deserialize(d, typeinfo, data.get());
         })) {
       handlers.error("Failed to deserialize request");
       return {};
@@ -423,7 +436,7 @@ class Impl : public dap::Session {
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data.get())) {
+      if (!deserialize(d, typeinfo, data.get())) {
         body_ok = false;
       }
       return true;
-- 
2.43.0


From 9f65f94fd600972bedf6f2195b7933d2d43b3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:16 +0000
Subject: [PATCH 19/39] fix: reject messages that are nested too deep to be
 decoded

Decoding recurses once per nesting level, so that a short message of opening
brackets exhausted the stack of the receive thread.
---
 src/session.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/session.cpp b/src/session.cpp
index 6848d6f..f7ce702 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -320,7 +320,45 @@ class Impl : public dap::Session {
     return typeinfo->deserialize(d, data);
   }
 
+  // isNestedTooDeep() returns true if the arrays and objects of the JSON document
+  // are nested too deep to be processed recursively.
+  static bool isNestedTooDeep(const std::string& json) {
+    static constexpr int maxDepth = 512;
+    int depth = 0;
+    bool inString = false;
+    for (size_t i = 0; i < json.size(); i++) {
+      switch (json[i]) {
+        case '"':
+          inString = !inString;
+          break;
+        case '\\':
+          if (inString) {
+            i++;  // Skip the escaped character.
+          }
+          break;
+        case '[':
+        case '{':
+          if (!inString && ++depth > maxDepth) {
+            return true;
+          }
+          break;
+        case ']':
+        case '}':
+          if (!inString) {
+            depth--;
+          }
+          break;
+      }
+    }
+    return false;
+  }
+
   Payload processMessage(const std::string& str) {
+    if (isNestedTooDeep(str)) {
+      handlers.error("Message is nested too deep");
+      return {};
+    }
+
     auto d = dap::json::Deserializer(str);
     dap::string type;
     if (!d.field("type", &type)) {
-- 
2.43.0


From 93a020c2dd39e31c4b08eb669287e5e49f1d8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:28 +0000
Subject: [PATCH 20/39] fix: do not access a file stream after it was closed

---
 src/io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..19d940b 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -122,6 +122,9 @@ class File : public dap::ReaderWriter {
   }
   size_t read(void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(readMutex);
+    if (closed) {
+      return 0;
+    }
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
       int c = fgetc(f);
@@ -134,6 +137,9 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
+    if (closed) {
+      return false;
+    }
     if (fwrite(buffer, 1, n, f) == n) {
       fflush(f);
       return true;
-- 
2.43.0


From 81203fafbe48416865fe17759dc89143508172ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:47 +0000
Subject: [PATCH 21/39] fix: do not truncate formatted writes and errors to
 2047 characters

---
 src/io.cpp      | 16 +++++++++++-----
 src/session.cpp | 12 +++++++++---
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 19d940b..ffbf2c9 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -18,7 +18,6 @@
 #include <condition_variable>
 #include <cstdarg>
 #include <cstdio>
-#include <cstring>  // strlen
 #include <deque>
 #include <mutex>
 #include <string>
@@ -251,14 +250,21 @@ std::shared_ptr<Writer> spy(const std::shared_ptr<Writer>& w,
 }
 
 bool writef(const std::shared_ptr<Writer>& w, const char* msg, ...) {
-  char buf[2048];
-
   va_list vararg;
   va_start(vararg, msg);
-  vsnprintf(buf, sizeof(buf), msg, vararg);
+  auto len = vsnprintf(nullptr, 0, msg, vararg);
+  va_end(vararg);
+  if (len < 0) {
+    return false;
+  }
+
+  // One more character for the terminating NUL.
+  std::string buf(static_cast<size_t>(len) + 1, '\0');
+  va_start(vararg, msg);
+  vsnprintf(&buf[0], buf.size(), msg, vararg);
   va_end(vararg);
 
-  return w->write(buf, strlen(buf));
+  return w->write(buf.data(), static_cast<size_t>(len));
 }
 
 }  // namespace dap
diff --git a/src/session.cpp b/src/session.cpp
index f7ce702..11304d3 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -566,12 +566,18 @@ namespace dap {
 Error::Error(const std::string& message) : message(message) {}
 
 Error::Error(const char* msg, ...) {
-  char buf[2048];
   va_list vararg;
   va_start(vararg, msg);
-  vsnprintf(buf, sizeof(buf), msg, vararg);
+  auto len = vsnprintf(nullptr, 0, msg, vararg);
   va_end(vararg);
-  message = buf;
+  if (len > 0) {
+    // One more character for the terminating NUL.
+    message.resize(static_cast<size_t>(len) + 1);
+    va_start(vararg, msg);
+    vsnprintf(&message[0], message.size(), msg, vararg);
+    va_end(vararg);
+    message.pop_back();
+  }
 }
 
 Session::~Session() = default;
-- 
2.43.0


From 16e3ab79e019c562956a56e5d20f37de3dea42b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:10 +0000
Subject: [PATCH 22/39] fix: release the held lock when a scoped lock is
 move-assigned

---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From 607ca6d7c4ec60f65704a21ffcd79350465381b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:27 +0000
Subject: [PATCH 23/39] fix: do not deliver messages found in the body of a
 truncated message

Reading on after the end of the stream searched the incomplete body for further
message headers.
---
 src/content_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 57ecdb0..b9bfaed 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -85,6 +85,8 @@ std::string ContentReader::read() {
 
   // Read message
   if (!buffer(len)) {
+    // The message is truncated. Do not look for messages within its body.
+    buf.clear();
     return "";
   }
   std::string out;
-- 
2.43.0


From 346fa4ce15c9fffb4e782364e82c3e8e14197128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:27 +0000
Subject: [PATCH 24/39] fix: JsonCpp: remove a field by its whole name

removeMember(std::string) ends the name at the first NUL, so that another
field was removed.
---
 src/jsoncpp_json_serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 87377e0..c827843 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -263,7 +263,9 @@ bool JsonCppSerializer::object(
       JsonCppSerializer s(&(*json)[name]);
       auto res = cb(&s);
       if (s.removed) {
-        json->removeMember(name);
+        // Not removeMember(name), which ends the name at the first NUL.
+        Json::Value value;
+        json->removeMember(name.data(), name.data() + name.size(), &value);
       }
       return res;
     }
-- 
2.43.0


From 12574b574218817c3bf6e0453bd650cf4c3f7dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:52 +0000
Subject: [PATCH 25/39] fix: optional: assignment from an optional of another
 type

It used the private members of the other type, and did not compile.
---
 include/dap/optional.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/dap/optional.h b/include/dap/optional.h
index 9a3d216..8255aeb 100644
--- a/include/dap/optional.h
+++ b/include/dap/optional.h
@@ -161,16 +161,17 @@ optional<T>& optional<T>::operator=(U&& value) {
 template <typename T>
 template <typename U>
 optional<T>& optional<T>::operator=(const optional<U>& other) {
-  val = other.val;
-  set = other.set;
+  // The members of an optional of another type are not accessible.
+  set = other.has_value();
+  val = set ? static_cast<T>(other.value()) : T{};
   return *this;
 }
 
 template <typename T>
 template <typename U>
 optional<T>& optional<T>::operator=(optional<U>&& other) {
-  val = std::move(other.val);
-  set = other.set;
+  set = other.has_value();
+  val = set ? static_cast<T>(std::move(other.value())) : T{};
   return *this;
 }
 
-- 
2.43.0


From 4f2470aabcd492a1a55ffeefb1bcbfb361b91ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:02 +0000
Subject: [PATCH 26/39] fix: file: report a failed flush as a failed write

The bytes of a successful fwrite() may only be in the buffer of the FILE.
---
 src/io.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index ffbf2c9..ebbe79f 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -139,11 +139,7 @@ class File : public dap::ReaderWriter {
     if (closed) {
       return false;
     }
-    if (fwrite(buffer, 1, n, f) == n) {
-      fflush(f);
-      return true;
-    }
-    return false;
+    return fwrite(buffer, 1, n, f) == n && fflush(f) == 0;
   }
 
  private:
-- 
2.43.0


From 667f3be4ce9af641e3e18228886ce8e0a7882f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:24 +0000
Subject: [PATCH 27/39] fix: serialize the inherited fields of StackFrameFormat

StackFrameFormat derives from ValueFormat, but its type information did not
include the 'hex' field of the base, so it was neither sent nor received.
---
 src/protocol_types.cpp             | 19 ++++++++++---------
 tools/protocol_gen/protocol_gen.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/protocol_types.cpp b/src/protocol_types.cpp
index 2ae9100..db899e9 100644
--- a/src/protocol_types.cpp
+++ b/src/protocol_types.cpp
@@ -289,15 +289,16 @@ DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrame,
                               DAP_FIELD(presentationHint, "presentationHint"),
                               DAP_FIELD(source, "source"));
 
-DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrameFormat,
-                              "",
-                              DAP_FIELD(includeAll, "includeAll"),
-                              DAP_FIELD(line, "line"),
-                              DAP_FIELD(module, "module"),
-                              DAP_FIELD(parameterNames, "parameterNames"),
-                              DAP_FIELD(parameterTypes, "parameterTypes"),
-                              DAP_FIELD(parameterValues, "parameterValues"),
-                              DAP_FIELD(parameters, "parameters"));
+DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(StackFrameFormat,
+                                  ValueFormat,
+                                  "",
+                                  DAP_FIELD(includeAll, "includeAll"),
+                                  DAP_FIELD(line, "line"),
+                                  DAP_FIELD(module, "module"),
+                                  DAP_FIELD(parameterNames, "parameterNames"),
+                                  DAP_FIELD(parameterTypes, "parameterTypes"),
+                                  DAP_FIELD(parameterValues, "parameterValues"),
+                                  DAP_FIELD(parameters, "parameters"));
 
 DAP_IMPLEMENT_STRUCT_TYPEINFO(StepInTarget,
                               "",
diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index c5e112c..ed53935 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -297,8 +297,16 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 }
 func (s *cppStruct) WriteCPP(w io.Writer) {
 	// typeinfo
-	io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
-	io.WriteString(w, s.name)
+	if s.file == types && s.base != "" {
+		// The fields of the base structure are serialized too.
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(")
+		io.WriteString(w, s.name)
+		io.WriteString(w, ",\n                    ")
+		io.WriteString(w, s.base)
+	} else {
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
+		io.WriteString(w, s.name)
+	}
 	io.WriteString(w, ",\n                    \"")
 	io.WriteString(w, s.protoname)
 	io.WriteString(w, "\"")
-- 
2.43.0


From ab94c23c54312d4dfd41c26aa30f603a38ef1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:14 +0000
Subject: [PATCH 28/39] fix: keep connections that arrive while the server is
 busy

The listening socket had a backlog of 0. On Linux, connections that arrive
while another one is waiting to be accepted are then answered with SYN cookies
and dropped, so that clients are connected to a server that never calls its
connection callback for them, or connect only after seconds.
---
 src/socket.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 9650a15..8c4eb43 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -137,6 +137,10 @@ bool waitUntilConnected(SOCKET s, uint32_t timeoutMillis) {
 #endif
 }
 
+// The number of connections that can be waiting to be accepted. If exceeded, a
+// client may end up with a connection that the server does not know about.
+constexpr int MaxPendingConnections = 128;
+
 // The largest number of bytes passed to a single send() or recv().
 constexpr size_t MaxChunk = 0x40000000;
 
@@ -328,7 +332,7 @@ Socket::Socket(const char* address, const char* port)
         return;
       }
 
-      listening = listen(socket, 0) == 0;
+      listening = listen(socket, MaxPendingConnections) == 0;
     });
     if (!listening) {
       // Must not be released while holding its lock.
-- 
2.43.0


From 22bebb37192a8b21f935ac453cbb37a2d55faf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:17 +0000
Subject: [PATCH 29/39] fix: keep the type information of structs until the
 last terminate()

The TypeInfo of a struct was a function-local static, so it was destroyed at
exit while the library was still initialized by initialize(). Destructing a
global any that holds a struct then made a pure virtual call.
---
 include/dap/typeof.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..54f30be 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -208,8 +208,8 @@ M member_type(M T::*);
             [&](FieldSerializer* fs) { return serializeFields(fs, obj); }); \
       }                                                                     \
     };                                                                      \
-    static TI typeinfo;                                                     \
-    return &typeinfo;                                                       \
+    static auto typeinfo = TypeInfo::create<TI>();                          \
+    return typeinfo;                                                        \
   }
 
 // DAP_STRUCT_TYPEINFO() is a helper for declaring and implementing a TypeOf<>
@@ -249,8 +249,8 @@ M member_type(M T::*);
         });                                                               \
       }                                                                   \
     };                                                                    \
-    static TI typeinfo;                                                   \
-    return &typeinfo;                                                     \
+    static auto typeinfo = TypeInfo::create<TI>();                        \
+    return typeinfo;                                                      \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From c115659f0d9924eb96a051950323f78e8931afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:31 +0000
Subject: [PATCH 30/39] fix: guard the list of type infos against concurrent
 registration

Threads that were the first to use different types at the same time appended
to the unguarded vector of TypeInfo instances.
---
 src/typeof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..41d2848 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -67,6 +68,7 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
+  std::mutex typesMutex;  // guards types
   std::vector<std::unique_ptr<dap::TypeInfo>> types;
 
  private:
@@ -130,7 +132,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto infos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(infos->typesMutex);
+  infos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From 4fda91c5c96a02af019492e3399dae02c55a2081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:58 +0000
Subject: [PATCH 31/39] fix: serialize the fields of every base of a derived
 struct

DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT dropped the fields that BASE itself inherits,
and cast the void* of the struct to BASE*, which is wrong unless BASE is the
first base.
---
 include/dap/typeof.h | 77 +++++++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 26 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 54f30be..05eda90 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -157,8 +157,7 @@ M member_type(M T::*);
 
 // DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION() implements the deserializeFields()
 // and serializeFields() static methods of a TypeOf<> specialization. Used
-// internally by DAP_IMPLEMENT_STRUCT_TYPEINFO() and
-// DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT().
+// internally by DAP_IMPLEMENT_STRUCT_TYPEINFO().
 // You probably do not want to use this directly.
 #define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, ...)           \
   bool TypeOf<STRUCT>::deserializeFields(const Deserializer* fd, void* obj) { \
@@ -227,30 +226,56 @@ M member_type(M T::*);
 // specification. The variadic (...) parameters should be a repeated list of
 // DAP_FIELD()s, one for each field of the struct.
 // Must be used within the 'dap' namespace.
-#define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)        \
-  static_assert(std::is_base_of<BASE, STRUCT>::value,                     \
-                #STRUCT " does not derive from " #BASE);                  \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)     \
-  const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                         \
-    struct TI : BasicTypeInfo<STRUCT> {                                   \
-      TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
-      bool deserialize(const Deserializer* d, void* obj) const override { \
-        auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(obj);                              \
-        return TypeOf<BASE>::deserializeFields(d, base) &&                \
-               deserializeFields(d, derived);                             \
-      }                                                                   \
-      bool serialize(Serializer* s, const void* obj) const override {     \
-        return s->object([&](FieldSerializer* fs) {                       \
-          auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(obj);                      \
-          return TypeOf<BASE>::serializeFields(fs, base) &&               \
-                 serializeFields(fs, derived);                            \
-        });                                                               \
-      }                                                                   \
-    };                                                                    \
-    static auto typeinfo = TypeInfo::create<TI>();                        \
-    return typeinfo;                                                      \
+#define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)            \
+  static_assert(std::is_base_of<BASE, STRUCT>::value,                         \
+                #STRUCT " does not derive from " #BASE);                      \
+  bool TypeOf<STRUCT>::deserializeFields(const Deserializer* fd, void* obj) { \
+    using StructTy = STRUCT;                                                  \
+    (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    BASE* base = static_cast<STRUCT*>(obj);                                   \
+    if (!TypeOf<BASE>::deserializeFields(fd, base)) {                         \
+      return false;                                                           \
+    }                                                                         \
+    for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {           \
+      if (!fd->field(field.name, [&](Deserializer* d) {                       \
+            auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \
+            return field.type->deserialize(d, ptr);                           \
+          })) {                                                               \
+        return false;                                                         \
+      }                                                                       \
+    }                                                                         \
+    return true;                                                              \
+  }                                                                           \
+  bool TypeOf<STRUCT>::serializeFields(FieldSerializer* fs, const void* obj) {\
+    using StructTy = STRUCT;                                                  \
+    (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    const BASE* base = static_cast<const STRUCT*>(obj);                       \
+    if (!TypeOf<BASE>::serializeFields(fs, base)) {                           \
+      return false;                                                           \
+    }                                                                         \
+    for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {           \
+      if (!fs->field(field.name, [&](Serializer* s) {                         \
+            auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \
+            return field.type->serialize(s, ptr);                             \
+          })) {                                                               \
+        return false;                                                         \
+      }                                                                       \
+    }                                                                         \
+    return true;                                                              \
+  }                                                                           \
+  const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                             \
+    struct TI : BasicTypeInfo<STRUCT> {                                       \
+      TI() : BasicTypeInfo<STRUCT>(NAME) {}                                   \
+      bool deserialize(const Deserializer* d, void* obj) const override {     \
+        return deserializeFields(d, obj);                                     \
+      }                                                                       \
+      bool serialize(Serializer* s, const void* obj) const override {         \
+        return s->object(                                                     \
+            [&](FieldSerializer* fs) { return serializeFields(fs, obj); });   \
+      }                                                                       \
+    };                                                                        \
+    static auto typeinfo = TypeInfo::create<TI>();                            \
+    return typeinfo;                                                          \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From e8c6557280aaa532f3fc1bb21dcc3fef69ac4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 32/39] fix: protocol_gen: descriptions with trailing
 backslashes or carriage returns

A backslash at the end of a line of a description made the emitted comment
swallow the next line of code, and a carriage return ended the comment.
---
 tools/protocol_gen/protocol_gen.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index ed53935..787bbaa 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -247,7 +247,7 @@ func (s *cppStruct) DefaultValue() string    { return "" }
 func (s *cppStruct) WriteHeader(w io.Writer) {
 	if s.desc != "" {
 		io.WriteString(w, "// ")
-		io.WriteString(w, strings.ReplaceAll(s.desc, "\n", "\n// "))
+		io.WriteString(w, comment(s.desc, "\n// "))
 		io.WriteString(w, "\n")
 	}
 	io.WriteString(w, "struct ")
@@ -270,7 +270,7 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 	for _, f := range s.fields {
 		if f.desc != "" {
 			io.WriteString(w, "\n  // ")
-			io.WriteString(w, strings.ReplaceAll(f.desc, "\n", "\n  // "))
+			io.WriteString(w, comment(f.desc, "\n  // "))
 		}
 		io.WriteString(w, "\n  ")
 		if f.optional {
@@ -379,7 +379,7 @@ func (ty *cppTypedef) DefaultValue() string    { return ty.to.DefaultValue() }
 func (ty *cppTypedef) WriteHeader(w io.Writer) {
 	if ty.desc != "" {
 		io.WriteString(w, "// ")
-		io.WriteString(w, strings.ReplaceAll(ty.desc, "\n", "\n// "))
+		io.WriteString(w, comment(ty.desc, "\n// "))
 		io.WriteString(w, "\n")
 	}
 
@@ -415,6 +415,20 @@ func (ty *cppBasicType) GetFuzzerNames() []string {
 	return []string{}
 }
 
+// comment() returns the lines of desc joined with sep, none of which ends the
+// comment early (line separators other than '\n') or continues it on the next
+// line of code (a trailing backslash).
+func comment(desc string, sep string) string {
+	desc = strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(desc)
+	lines := strings.Split(desc, "\n")
+	for i, line := range lines {
+		if strings.HasSuffix(strings.TrimSpace(line), "\\") {
+			lines[i] = line + "."
+		}
+	}
+	return strings.Join(lines, sep)
+}
+
 func stringify(s string) string {
 	return "\"" + s + "\""
 }
-- 
2.43.0


From e47d1ebd1a2e9abfe96772af6875acabdad03b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:59 +0000
Subject: [PATCH 33/39] fix: protocol_gen: emit the base of a derived struct
 before it

---
 tools/protocol_gen/protocol_gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index 787bbaa..c81b244 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -542,6 +542,10 @@ func (r *root) buildRootStruct(ty *cppStruct, def *definition) error {
 		}
 		ty.file = event
 	default:
+		if ty.base != "" {
+			// The base structure must be emitted before this one.
+			ty.deps = append(ty.deps, r.Definitions[ty.base].cppType)
+		}
 		body = def
 		ty.file = types
 	}
-- 
2.43.0


From edd2c5e6d6943a2f94bd2c30409c25d7fc436b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:50 +0000
Subject: [PATCH 34/39] fix: answer a request with an error if its response
 cannot be serialized

The part of the response that was serialized before the failure was sent as a
successful response.
---
 src/session.cpp | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 11304d3..f05f412 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -417,7 +417,7 @@ class Impl : public dap::Session {
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
-            s.object([&](dap::FieldSerializer* fs) {
+            bool serialized = s.object([&](dap::FieldSerializer* fs) {
               return fs->field("seq", dap::integer(nextSeq++)) &&
                      fs->field("type", "response") &&
                      fs->field("request_seq", sequence) &&
@@ -427,6 +427,12 @@ class Impl : public dap::Session {
                        return typeinfo->serialize(s, data);
                      });
             });
+            if (!serialized) {
+              // Do not send a part of the response.
+              sendError(typeinfo, sequence, command,
+                        dap::Error("Failed to serialize response"));
+              return;
+            }
             send(s.dump());
 
             if (auto handler = handlers.responseSent(typeinfo)) {
@@ -435,24 +441,31 @@ class Impl : public dap::Session {
           },
           [=](const dap::TypeInfo* typeinfo, const dap::Error& error) {
             // onError
-            dap::json::Serializer s;
-            s.object([&](dap::FieldSerializer* fs) {
-              return fs->field("seq", dap::integer(nextSeq++)) &&
-                     fs->field("type", "response") &&
-                     fs->field("request_seq", sequence) &&
-                     fs->field("success", dap::boolean(false)) &&
-                     fs->field("command", command) &&
-                     fs->field("message", error.message);
-            });
-            send(s.dump());
-
-            if (auto handler = handlers.responseSent(typeinfo)) {
-              handler(nullptr, &error);
-            }
+            sendError(typeinfo, sequence, command, error);
           });
     };
   }
 
+  void sendError(const dap::TypeInfo* typeinfo,
+                 dap::integer sequence,
+                 const dap::string& command,
+                 const dap::Error& error) {
+    dap::json::Serializer s;
+    s.object([&](dap::FieldSerializer* fs) {
+      return fs->field("seq", dap::integer(nextSeq++)) &&
+             fs->field("type", "response") &&
+             fs->field("request_seq", sequence) &&
+             fs->field("success", dap::boolean(false)) &&
+             fs->field("command", command) &&
+             fs->field("message", error.message);
+    });
+    send(s.dump());
+
+    if (auto handler = handlers.responseSent(typeinfo)) {
+      handler(nullptr, &error);
+    }
+  }
+
   Payload processEvent(dap::json::Deserializer* d) {
     dap::string event;
     if (!d->field("event", &event)) {
-- 
2.43.0


From ad5fa7b68af11d4e7a4e4c34b1c7b8e61356d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:00 +0000
Subject: [PATCH 35/39] fix: encode and decode values of type null

Encoding a null left the serializer as it was (an empty object with RapidJSON),
and any value was decoded as null, also one that is absent.
---
 src/typeof.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 41d2848..a4cb29f 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -53,11 +53,12 @@ struct TypeInfos {
     inline void destruct(void* ptr) const override {
       reinterpret_cast<null*>(ptr)->~null();
     }
-    inline bool deserialize(const dap::Deserializer*, void*) const override {
-      return true;
+    inline bool deserialize(const dap::Deserializer* d, void*) const override {
+      dap::any value;
+      return d->deserialize(&value) && value.is<null>();
     }
-    inline bool serialize(dap::Serializer*, const void*) const override {
-      return true;
+    inline bool serialize(dap::Serializer* s, const void*) const override {
+      return s->serialize(dap::any());
     }
   };
 
-- 
2.43.0


From 27964102bf77376565ee3fb0341b88877ead271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:55 +0000
Subject: [PATCH 36/39] fix: reject port numbers that getaddrinfo() would
 truncate

net::Server::start() with port 65536+n listened on port n, and
net::connect() connected to it.
---
 src/network.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/network.cpp b/src/network.cpp
index 7d1da7a..5d8ba01 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -23,6 +23,11 @@
 
 namespace {
 
+// getaddrinfo() truncates a port number that does not fit 16 bits.
+bool isValidPort(int port) {
+  return port >= 0 && port <= 65535;
+}
+
 class Impl : public dap::net::Server {
  public:
   Impl() : stopped{true} {}
@@ -41,6 +46,10 @@ class Impl : public dap::net::Server {
              const OnError& onError) override {
     std::unique_lock<std::mutex> lock(mutex);
     stopWithLock();
+    if (!isValidPort(port)) {
+      onError("Invalid port");
+      return false;
+    }
     socket = std::unique_ptr<dap::Socket>(
         new dap::Socket(address, std::to_string(port).c_str()));
 
@@ -100,6 +109,9 @@ std::unique_ptr<Server> Server::create() {
 std::shared_ptr<ReaderWriter> connect(const char* addr,
                                       int port,
                                       uint32_t timeoutMillis) {
+  if (!isValidPort(port)) {
+    return nullptr;
+  }
   return Socket::connect(addr, std::to_string(port).c_str(), timeoutMillis);
 }
 
-- 
2.43.0


From 1fdb6ff07fbfcc2e86cb1dd124b1705386827c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:20 +0000
Subject: [PATCH 37/39] fix: connect() interrupted by a signal gave up although
 the attempt goes on

---
 src/socket.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 8c4eb43..601f828 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -102,7 +102,7 @@ bool connecting() {
 
 // waitUntilConnected() waits until the non-blocking connection attempt of the
 // given socket has completed, returning false if it is still in progress after
-// timeoutMillis milliseconds.
+// timeoutMillis milliseconds. If timeoutMillis is 0, then there is no limit.
 bool waitUntilConnected(SOCKET s, uint32_t timeoutMillis) {
 #if defined(_WIN32)
   fd_set writable;
@@ -113,7 +113,8 @@ bool waitUntilConnected(SOCKET s, uint32_t timeoutMillis) {
   timeval tv;
   tv.tv_sec = static_cast<long>(timeoutMillis / 1000);
   tv.tv_usec = static_cast<long>((timeoutMillis % 1000) * 1000);
-  return select(0, nullptr, &writable, &failed, &tv) > 0;
+  return select(0, nullptr, &writable, &failed,
+                timeoutMillis != 0 ? &tv : nullptr) > 0;
 #else
   // Note: select() cannot be used, as it does not support descriptors greater
   // or equal to FD_SETSIZE.
@@ -123,8 +124,11 @@ bool waitUntilConnected(SOCKET s, uint32_t timeoutMillis) {
   while (true) {
     const auto remaining = std::chrono::duration_cast<std::chrono::milliseconds>(
         deadline - Clock::now() + std::chrono::microseconds(999));
-    const auto wait = std::max<int64_t>(
-        0, std::min<int64_t>(remaining.count(), MaxPollMillis));
+    const auto wait =
+        timeoutMillis == 0 ? -1
+                           : std::max<int64_t>(0, std::min<int64_t>(
+                                                      remaining.count(),
+                                                      MaxPollMillis));
     pollfd fd = {s, POLLOUT, 0};
     const auto res = poll(&fd, 1, static_cast<int>(wait));
     if (res > 0) {
@@ -389,7 +393,10 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
     }
 
     if (timeoutMillis == 0) {
-      if (::connect(socket, info->ai_addr, (int)info->ai_addrlen) == 0) {
+      auto res = ::connect(socket, info->ai_addr, (int)info->ai_addrlen);
+      // The connection attempt continues if the call was interrupted.
+      if (res == 0 || (interrupted() && waitUntilConnected(socket, 0) &&
+                       !errored(socket))) {
         out = shared;
       }
       return;
-- 
2.43.0


From 653cd47e4a6f87449d89cc8919d63b67523d8a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:43 +0000
Subject: [PATCH 38/39] fix: getPayload() returned no payload for messages that
 need no dispatching

The documentation of getPayload() says that an empty function means that the
connection was lost. It was also returned for responses and for messages without
a handler, ending the loop of an application that takes messages itself.
---
 src/session.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/session.cpp b/src/session.cpp
index f05f412..f73faf7 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -64,6 +64,10 @@ class Impl : public dap::Session {
         return payload;
       }
     }
+    if (reader.isOpen()) {
+      // The message needs no dispatching.
+      return [] {};
+    }
     return {};
   }
 
-- 
2.43.0


From 1fbabf6d087be876fd9fdc3b443dd3de4bf439c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:45 +0000
Subject: [PATCH 39/39] fix: getPayload() crashed on a session that is not
 connected

ContentReader has no reader to read from before Session::connect().
---
 src/content_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index b9bfaed..cb11d97 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -155,7 +155,7 @@ bool ContentReader::buffer(size_t bytes) {
   while (bytes > 0) {
     uint8_t chunk[256];
     auto numWant = std::min(sizeof(chunk), bytes);
-    auto numGot = reader->read(chunk, numWant);
+    auto numGot = reader ? reader->read(chunk, numWant) : 0;
     if (numGot == 0) {
       // Reader::read() only returns no data once the stream has ended.
       eof = true;
-- 
2.43.0

