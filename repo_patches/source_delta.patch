From 2b081a6dc6ea328ea114f0004fd66ade4f87514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 01/44] fix: demangler: never read past the terminating zero of
 the input

---
 include/cwd_demangle.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 38bbc16..5f0559d 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -345,11 +345,13 @@ class session
  private:
   char current() const { return (pos_ > maxpos_) ? 0 : str_[pos_]; }
 
-  char next_peek() const { return (pos_ >= maxpos_) ? 0 : str_[pos_ + 1]; }
+  // The input is zero terminated (and maxpos_ may be INT_MAX - 1): never move past the terminating zero.
 
-  char next() { return (pos_ >= maxpos_) ? 0 : str_[++pos_]; }
+  char next_peek() const { return (pos_ >= maxpos_ || str_[pos_] == 0) ? 0 : str_[pos_ + 1]; }
 
-  char eat_current() { return (pos_ > maxpos_) ? 0 : str_[pos_++]; }
+  char next() { return (pos_ >= maxpos_ || str_[pos_] == 0) ? 0 : str_[++pos_]; }
+
+  char eat_current() { return (pos_ > maxpos_ || str_[pos_] == 0) ? 0 : str_[pos_++]; }
 
   void store(int& saved_pos) { saved_pos = pos_; }
 
-- 
2.43.0


From 68518766466f241f78e9fad8d94dcdea8d7755a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 02/44] fix: demangler: a failing nested encoding left a
 negative read position

---
 include/cwd_demangle.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5f0559d..4505a18 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -340,6 +340,16 @@ class session
     return res;
   }
 
+  // Decode an <encoding> that starts at pos_. Leaves pos_ alone upon failure.
+  bool decode_nested_encoding(string_type& output)
+  {
+    int len = decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_);
+    if (len < 0)
+      return false;
+    pos_ += len;
+    return true;
+  }
+
   bool remaining_input_characters() const { return current() != 0; }
 
  private:
@@ -900,7 +910,7 @@ bool session<Allocator>::decode_literal(string_type& output)
     if (next() != 'Z')
       _GLIBCXX_DEMANGLER_FAILURE;
     eat_current();
-    if ((pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+    if (!decode_nested_encoding(output))
       _GLIBCXX_DEMANGLER_FAILURE;
   }
   else
@@ -2134,8 +2144,8 @@ bool session<Allocator>::decode_local_name(string_type& output)
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_local_name");
   if (current() != 'Z' || pos_ >= maxpos_)
     _GLIBCXX_DEMANGLER_FAILURE;
-  if ((pos_ += decode_encoding(output, str_ + pos_ + 1, maxpos_ - pos_, implementation_details_) + 1) < 0 ||
-      eat_current() != 'E')
+  eat_current(); // Eat the 'Z'.
+  if (!decode_nested_encoding(output) || eat_current() != 'E')
     _GLIBCXX_DEMANGLER_FAILURE;
   output += "::";
   if (current() == 's')
@@ -2423,8 +2433,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
-      if (!decode_call_offset(output) || !decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+      if (!decode_call_offset(output) || !decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
     case 'C': // GNU extension?
@@ -2449,8 +2458,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
         output += "virtual thunk to ";
       else
         output += "non-virtual thunk to ";
-      if (!decode_call_offset(output) ||
-          (pos_ += decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_)) < 0)
+      if (!decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
   }
-- 
2.43.0


From 5d78e5bc47e299046e4d58c9a51576baadf5606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 03/44] fix: demangler: bound the length of a source name

The length could overflow, and the special case for anonymous namespaces
skipped (and looked) past the end of the input.
---
 include/cwd_demangle.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 4505a18..be14a5d 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2176,13 +2176,20 @@ bool session<Allocator>::decode_source_name(string_type& output)
   if (length < 1 || length > 9)
     _GLIBCXX_DEMANGLER_FAILURE;
   while (isdigit(next()))
+  {
+    if (length > (INT_MAX - 9) / 10)
+      _GLIBCXX_DEMANGLER_FAILURE;
     length = 10 * length + current() - '0';
+  }
   char const* ptr = &str_[pos_];
-  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[9] == 'N' && ptr[8] == ptr[10])
+  if (length > 11 && !strncmp(ptr, "_GLOBAL_", 8) && ptr[8] != 0 && ptr[9] == 'N' && ptr[8] == ptr[10])
   {
     output += "(anonymous namespace)";
-    if ((pos_ += length) > maxpos_ + 1)
-      _GLIBCXX_DEMANGLER_FAILURE;
+    while (length--)
+    {
+      if (eat_current() == 0)
+        _GLIBCXX_DEMANGLER_FAILURE;
+    }
   }
   else
     while (length--)
-- 
2.43.0


From a285a71c2fb522a0954b079fdd195eee705c3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 04/44] fix: demangler: a template argument that refers to
 itself recursed forever

---
 include/cwd_demangle.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index be14a5d..0c683c9 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1379,8 +1379,7 @@ bool session<Allocator>::decode_template_args(string_type& output)
   output += '<';
   for (;;)
   {
-    if (inside_template_args_ == 1 && !inside_type_)
-      template_arg_pos_.push_back(pos_);
+    int const arg_pos = pos_;
     if (current() == 'X')
     {
       eat_current();
@@ -1400,6 +1399,9 @@ bool session<Allocator>::decode_template_args(string_type& output)
     }
     else if (!decode_type(output))
       _GLIBCXX_DEMANGLER_FAILURE;
+    // Only now; a template argument that refers to itself would lead to an infinite recursion.
+    if (inside_template_args_ == 1 && !inside_type_)
+      template_arg_pos_.push_back(arg_pos);
     if (current() == 'E')
       break;
     output += ", ";
-- 
2.43.0


From 74603cfa1515b8f028226992bc06e55070db7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 05/44] fix: demangler: a constructor without a class is not a
 symbol

The result was an empty string instead of the mangled name.
---
 include/cwd_demangle.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 0c683c9..3756fb1 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2268,6 +2268,8 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
       output += '~';
       saw_destructor_ = true;
     }
+    if (function_name_.empty()) // No class to construct or destruct.
+      _GLIBCXX_DEMANGLER_FAILURE;
     name_is_cdtor_ = true;
     eat_current();
     output += function_name_;
-- 
2.43.0


From 55120d3ba6fd7460dc42abde2939663da4f7b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 06/44] fix: demangler: covariant return thunks were never
 decoded

The 'c' of Tc was not eaten.
---
 include/cwd_demangle.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 3756fb1..5c39771 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2444,6 +2444,7 @@ bool session<Allocator>::decode_special_name(string_type& output)
       _GLIBCXX_DEMANGLER_RETURN;
     case 'c':
       output += "covariant return thunk to ";
+      eat_current();
       if (!decode_call_offset(output) || !decode_call_offset(output) || !decode_nested_encoding(output))
         _GLIBCXX_DEMANGLER_FAILURE;
       _GLIBCXX_DEMANGLER_RETURN;
-- 
2.43.0


From 060c8810fcce6c0b8ff8fdec7d5f5a0b50d8e564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:17 +0000
Subject: [PATCH 07/44] fix: demangler: buffer of decode_real was one byte too
 small

A negative double with 17 significant digits and an exponent of three digits
needs 25 bytes.
---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5c39771..36018d1 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -878,7 +878,7 @@ bool session<Allocator>::decode_real(string_type& output, size_t size_of_real)
     }
     ++word;
   }
-  char buf[24];
+  char buf[25]; // "-d.dddddddddddddddde+ddd" plus the terminating zero.
   if (implementation_details_.decode_real(buf, words, size_of_real))
   {
     output += buf;
-- 
2.43.0


From d39dde191ea0b9607ada4b46716248bca17357f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:02 +0000
Subject: [PATCH 08/44] fix: demangler: denormalized double literals were
 decoded with a wrong value

operator+= was called for terms with a different exponent.
---
 src/demangle.cxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/demangle.cxx b/src/demangle.cxx
index d44ec52..5e899e0 100644
--- a/src/demangle.cxx
+++ b/src/demangle.cxx
@@ -39,6 +39,7 @@ The direct use of these functions should be avoided, instead use the function ty
 #include "libcwd/demangle.h"
 #include "libcwd/LIBCWD_ASSERT.h"
 
+#include <algorithm>
 #include <limits>
 
 #ifdef STANDALONE
@@ -362,12 +363,21 @@ bool decimal_float::decrement_exponent()
   return true;
 }
 
-// Add two decimal_floats that have the same exponent.
+// Add two decimal_floats. The exponent of `term' is not larger than the exponent of this object,
+// unless this object is zero. They are equal except while decoding a denormalized value.
 decimal_float& decimal_float::operator+=(decimal_float const& term)
 {
-  // assert(data_.exponent == term.data_.exponent);
+  if (std::all_of(data_.mantissa, data_.mantissa + mantissa_size_c, [](unsigned long m) { return m == 0; }))
+  {
+    std::memcpy(&data_, &term.data_, sizeof(decimal_float_data));
+    data_.max_precision_reached = data_.mantissa[mantissa_size_c - 1] >= 1000;
+    return *this;
+  }
+  decimal_float tmp(term);
+  while (tmp.data_.exponent < data_.exponent)
+    tmp.do_overflow(0); // Divide the mantissa by 10.
   for (int i = 0; i < mantissa_size_c; ++i)
-    data_.mantissa[i] += term.data_.mantissa[i];
+    data_.mantissa[i] += tmp.data_.mantissa[i];
   do_carry();
   return *this;
 }
-- 
2.43.0


From 1f2d4fd0098666ba7323b3fa6ae4aeea4a762b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:58 +0000
Subject: [PATCH 09/44] fix: Do not access the TSD of a thread that already
 exited

After a thread wrote output without a newline (for example with nonewline_cf) as
the last thing before it exited, the next output of another thread accessed the
already deleted thread specific data of that thread.
---
 include/libcwd/DebugObject.h |  9 +++++++-
 src/debug.cxx                | 45 +++++++++++++++++++++++++++++++-----
 src/threading.cxx            |  3 +++
 3 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 913b9cc..4a9316c 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -28,6 +28,8 @@ class Buffer;
 #ifndef HIDE_FROM_DOXYGEN
 namespace _private_ {
 
+void debug_tsd_exit(LIBCWD_TSD_PARAM);
+
 // Store the ostream destination together with the lock that protects writes to it.
 //
 struct OstreamState
@@ -130,7 +132,8 @@ class DebugObject
   // Ostream destination and matching external lock, protected as one unit.
 
   Buffer* unfinished_oss_;
-  void const* newlineless_tsd_;
+  void const* newlineless_tsd_; // The TSD of the thread that wrote an unfinished line last, or the
+                                // address of this member itself if that thread exited since.
 
  private:
   //-------------------------------------------------------------------------------------------------
@@ -237,6 +240,10 @@ class DebugObject
 #if CWDEBUG_LOCATION
   friend bool dwarf::ensure_initialization(LIBCWD_TSD_PARAM);
 #endif
+  friend void _private_::debug_tsd_exit(LIBCWD_TSD_PARAM);
+  void thread_exits(LIBCWD_TSD_PARAM);
+  // Called when the thread that __libcwd_tsd belongs to exits.
+
   bool NS_init(LIBCWD_TSD_PARAM);
   // Initialize this object, needed because debug output can be written
   // from the constructors of (other) global objects.
diff --git a/src/debug.cxx b/src/debug.cxx
index ce7ed2a..dad2c88 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -117,12 +117,16 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
   }
   if (debug_object.newlineless_tsd_ && debug_object.newlineless_tsd_ != &__libcwd_tsd)
   {
-    _private_::ThreadSpecificData const* newlineless_tsd =
-        static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
-    DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
-    size_t color_off_size = color_off.size();
-    if (color_off_size > 0)
-      locked_os->write(color_off.c_str(), color_off_size);
+    // If the other thread exited then it already wrote its color_off.
+    if (debug_object.newlineless_tsd_ != &debug_object.newlineless_tsd_)
+    {
+      _private_::ThreadSpecificData const* newlineless_tsd =
+          static_cast<_private_::ThreadSpecificData const*>(debug_object.newlineless_tsd_);
+      DebugString const& color_off = newlineless_tsd->debug_object_array[debug_object.index_]->color_off;
+      size_t color_off_size = color_off.size();
+      if (color_off_size > 0)
+        locked_os->write(color_off.c_str(), color_off_size);
+    }
     if (debug_object.unfinished_oss_)
     {
       if (debug_object.unfinished_oss_ != this)
@@ -1284,8 +1288,37 @@ void debug_tsd_init(LIBCWD_TSD_PARAM)
   );
   // clang-format on
 }
+
+// Called when a thread exits, while its TSD of the debug objects still exists.
+void debug_tsd_exit(LIBCWD_TSD_PARAM)
+{
+  // clang-format off
+  ForAllDebugObjects(
+    if (__libcwd_tsd.debug_object_array[(debugObject).index_])
+      (debugObject).thread_exits(LIBCWD_TSD);
+  );
+  // clang-format on
+}
 } // namespace _private_
 
+void DebugObject::thread_exits(LIBCWD_TSD_PARAM)
+{
+  _private_::LockInterfaceBase* locked_mutex;
+  std::ostream* locked_os = ostream_state_.get_locked_os(nullptr, &locked_mutex);
+  if (newlineless_tsd_ == &__libcwd_tsd)
+  {
+    // The last line that was written by this thread has no newline. Other threads still
+    // have to know about that, but they can no longer access the TSD of this thread.
+    DebugString const& color_off = LIBCWD_TSD_MEMBER(color_off);
+    if (color_off.size() > 0)
+      locked_os->write(color_off.c_str(), color_off.size());
+    newlineless_tsd_ = &newlineless_tsd_;
+    unfinished_oss_ = nullptr;
+  }
+  if (locked_mutex)
+    locked_mutex->unlock();
+}
+
 DebugObject_ThreadSpecificData::~DebugObject_ThreadSpecificData()
 {
   // In the non-threaded case we do not want to deinitialize these because they
diff --git a/src/threading.cxx b/src/threading.cxx
index eb005ce..ad0e341 100644
--- a/src/threading.cxx
+++ b/src/threading.cxx
@@ -21,6 +21,7 @@ std::mutex raw_write_mutex;
 //
 
 extern void debug_tsd_init(LIBCWD_TSD_PARAM);
+extern void debug_tsd_exit(LIBCWD_TSD_PARAM);
 
 ThreadSpecificData* main_thread_tsd;
 
@@ -114,6 +115,8 @@ void ThreadSpecificData::cleanup_routine()
     return;
   cleaning_up_ = true;
 
+  debug_tsd_exit(*this); // Let the debug objects forget about this TSD.
+
   for (int i = 0; i < LIBCWD_DO_MAX; ++i)
     if (debug_object_array[i])
     {
-- 
2.43.0


From dd9437c9b5ae4516570cc634083431ad0daa36a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:22 +0000
Subject: [PATCH 10/44] fix: Keep the bytes after an embedded NUL in
 DebugString

assign, append and prepend take a pointer and a length, but copied with strncpy,
which stops copying at the first NUL.
---
 src/debug.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index dad2c88..da9be23 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -725,7 +725,7 @@ void DebugString::NS_internal_init(char const* str, size_t len)
   default_capacity_ = min_capacity;
   str_ = (char*)malloc((default_capacity_ = capacity_ = calculate_capacity(len)) +
                        1); // Add one for the terminating zero. LEAK46
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -752,7 +752,7 @@ void DebugString::internal_assign(char const* str, size_t len)
 {
   if (len > capacity_ || (capacity_ > default_capacity_ && len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(len)) + 1);
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ = len;
   str_[size_] = 0;
 }
@@ -761,7 +761,7 @@ void DebugString::internal_append(char const* str, size_t len)
 {
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
-  strncpy(str_ + size_, str, len);
+  std::memcpy(str_ + size_, str, len);
   size_ += len;
   str_[size_] = 0;
 }
@@ -771,7 +771,7 @@ void DebugString::internal_prepend(char const* str, size_t len)
   if (size_ + len > capacity_ || (capacity_ > default_capacity_ && size_ + len < default_capacity_))
     str_ = (char*)realloc(str_, (capacity_ = calculate_capacity(size_ + len)) + 1);
   memmove(str_ + len, str_, size_ + 1);
-  strncpy(str_, str, len);
+  std::memcpy(str_, str, len);
   size_ += len;
 }
 
-- 
2.43.0


From 1e5a190488bf347305fa62a9b81a26d588b24c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 11/44] fix: Only turn the channel with label WARNING on by
 default

Any channel whose label is a prefix of "WARNING", like "W" or "WARN", was turned
on by default too.
---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index da9be23..9a30f19 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -518,7 +518,7 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   channel.initialize(channels_w, label, label_len);
 
   // Turn debug channel "WARNING" on by default.
-  __libcwd_tsd.off_cnt_array[channel.index()] = strncmp(channel.get_label(), "WARNING", label_len) == 0 ? -1 : 0;
+  __libcwd_tsd.off_cnt_array[channel.index()] = strcmp(label, "WARNING") == 0 ? -1 : 0;
 
   if (add_to_channel_list)
   {
-- 
2.43.0


From 90a1b36b1788ad7ae7a05d4dbb0c41e8a1f17d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 12/44] fix: OstreamState::try_lock_os interpreted the result
 of try_lock the wrong way around

The lock that is passed to set_ostream is a standard Lockable (std::mutex), whose
try_lock returns true when the lock was obtained. The result was interpreted as an
error code: writing without the lock and then unlocking a lock of another thread,
or locking it twice.
---
 include/libcwd/DebugObject.inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index b74f8a9..3c7fd0b 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -190,7 +190,7 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && mutex_->try_lock())
+  if (mutex_ && !mutex_->try_lock())
     return false;
   *locked_os_out = os ? os : real_os_;
   *locked_mutex_out = mutex_;
-- 
2.43.0


From 48e1023686b041bdf03eee3d548e4ef5aa446f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 13/44] fix: demangler: pointers to CV-qualified data members
 were never decoded

The demangler took every CV-qualifier after the class of a pointer to
member for that of a member function, and gave up on for example
_Z1fM1AKi, void f(int const A::*).
---
 include/cwd_demangle.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 36018d1..95e227a 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1803,20 +1803,23 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           failure = true;
           break;
         }
+        int Q2_start_pos;
+        store(Q2_start_pos);
+        int count = 0;
         char c = current();
-        if (c == 'F' || c == 'K' || c == 'V' || c == 'r')
-        // Must be CV-qualifiers and a member function pointer.
+        while (c == 'K' || c == 'V' || c == 'r') // Decode <Q2>.
+        {
+          ++count;
+          c = next();
+        }
+        if (c != 'F')
+          restore(Q2_start_pos); // A pointer to a (possibly CV-qualified) data member.
+        else
+        // Must be a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
           //     substitutions: "<C>", "F<R><B>E" (<R> and <B>
           //                    recursive), "M<C><Q2>F<R><B>E".
-          int count = 0;
-          int Q2_start_pos = pos_;
-          while (c == 'K' || c == 'V' || c == 'r') // Decode <Q2>.
-          {
-            ++count;
-            c = next();
-          }
           qualifier_list<Allocator> class_type_qualifiers(*this);
           if (count)
             class_type_qualifiers.add_qualifier_start(cv_qualifier, Q2_start_pos, count, inside_substitution_);
-- 
2.43.0


From c7e0fe75652c8825d97f162e24063e371eec8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 14/44] fix: demangler: a function type without declarator was
 printed with empty parentheses

A<void (int)> was printed as A<void ()(int)>.
---
 include/cwd_demangle.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 95e227a..16fb60f 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1915,9 +1915,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         // In that case we don't want the space but expect something
         // like prefix is "int (*" and postfix is ") [1]".
         // We do want the space if this pointer is qualified.
-        if (return_type_postfix.size() == 0 || (prefix.size() > 0 && *prefix.rbegin() != '*'))
-          prefix += ' ';
-        prefix += '(';
+        bool need_space = return_type_postfix.size() == 0 || (prefix.size() > 0 && *prefix.rbegin() != '*');
         string_type bare_function_type;
         if (!decode_bare_function_type(bare_function_type)
             // substitution: "<B>" (<B> recursive).
@@ -1927,9 +1925,20 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           break;
         }
         add_substitution(start_pos, type); // Substitution: "F<R><B>E".
-        qualifiers->decode_qualifiers(prefix, postfix);
+        string_type declarator;
+        qualifiers->decode_qualifiers(declarator, postfix);
         // substitution: all qualified types, if any.
-        postfix += ")";
+        // Without a declarator this is just the function type itself, for example the template argument of A<void (int)>.
+        if (declarator.size() == 0)
+          prefix += ' ';
+        else
+        {
+          if (need_space)
+            prefix += ' ';
+          prefix += '(';
+          prefix += declarator;
+          postfix += ")";
+        }
         if (extern_C)
           postfix += " [extern \"C\"] ";
         postfix += bare_function_type;
-- 
2.43.0


From 41000a119f479c010360a847c241817eecce2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:23 +0000
Subject: [PATCH 15/44] fix: demangler: no space between the parenthesis and
 the class of a pointer to an array member

_Z1fM1AA4_i was printed as f(int ( A::*) [4]).
---
 include/cwd_demangle.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 16fb60f..5f91375 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1691,7 +1691,8 @@ void qualifier_list<Allocator>::decode_qualifiers(string_type& prefix, string_ty
             decode_KVrA(prefix, postfix, cvq, iter_array);
             cvq = 0;
           }
-          prefix += " ";
+          if (prefix.size() > 0 && *prefix.rbegin() != '(')
+            prefix += " ";
           prefix += (*iter).get_optional_type();
           prefix += "::*";
           break;
-- 
2.43.0


From 25efc443ba571088ea09b26a76d5e8d1b716e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 16/44] fix: demangler: template parameters that are functions
 were missing from the substitutions

When a template parameter stands for a function type or for a pointer to
a member function then it was not added to the substitutions, so that
every following substitution of the name was off by one:
_Z1fIMSt1SFvvEEvT_M2BxKFS3_vE was decoded with the wrong types or not
at all.
---
 include/cwd_demangle.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5f91375..3433eaf 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1947,6 +1947,19 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         break;
       }
       case 'T':
+      {
+        // A template argument that is a function type, or a pointer to a member function, adds the substitutions of
+        // the qualifiers itself; those must come after that of the "<template-param>".
+        int saved_pos;
+        store(saved_pos);
+        do
+        {
+          eat_current();
+        } while (isdigit(current()));
+        bool has_template_args = eat_current() == '_' && current() == 'I';
+        restore(saved_pos);
+        if (!has_template_args && !recursive_template_param_or_substitution_call)
+          add_substitution(start_pos, type); // substitution: "<template-param>".
         if (!decode_template_param(prefix, qualifiers))
         {
           failure = true;
@@ -1964,13 +1977,13 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (!recursive_template_param_or_substitution_call && qualifiers->suppressed())
         {
-          add_substitution(start_pos, type);
-          // substitution: "<template-param>" or
-          // "<template-template-param> <template-args>".
+          if (has_template_args)
+            add_substitution(start_pos, type); // substitution: "<template-template-param> <template-args>".
           qualifiers->decode_qualifiers(prefix, postfix);
           // substitution: all qualified types, if any.
         }
         break;
+      }
       case 'S':
         if (pos_ >= maxpos_)
         {
-- 
2.43.0


From 425e3966fb0a99b0fd94da440cf626847329a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:11 +0000
Subject: [PATCH 17/44] fix: demangler: keep prefix and postfix apart for
 substitutions and template parameters

A function returning a pointer to function (or array) by means of a
substitution or template parameter had the parts of its type printed in
the wrong order; for example PFT_vE with T_ = M1AFvvE became
void (A::*)() (*)() instead of void (A::* (*)())().
---
 include/cwd_demangle.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 3433eaf..f0e48ab 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -387,9 +387,9 @@ class session
   bool decode_number(string_type& output);
   bool decode_operator_name(string_type& output);
   bool decode_source_name(string_type& output);
-  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers = NULL, string_type* postfix = NULL);
   bool decode_template_args(string_type& output);
-  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL);
+  bool decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers = NULL, string_type* postfix = NULL);
   bool decode_unqualified_name(string_type& output);
   bool decode_unscoped_name(string_type& output);
   bool decode_non_negative_decimal_integer(string_type& output);
@@ -630,7 +630,8 @@ bool session<Allocator>::decode_class_enum_type(string_type& output)
 //       [<seq-id>]	# Base 36 number
 //
 template <typename Allocator>
-bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_substitution(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                             string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_substitution");
   unsigned int value = 0;
@@ -753,10 +754,13 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
   switch (substitution.type)
   {
     case type:
-      decode_type(output, qualifiers);
+      if (postfix)
+        decode_type_with_postfix(output, *postfix, qualifiers);
+      else
+        decode_type(output, qualifiers);
       break;
     case template_template_param:
-      decode_template_param(output, qualifiers);
+      decode_template_param(output, qualifiers, postfix);
       break;
     case nested_name_prefix:
     case nested_name_template_prefix:
@@ -801,7 +805,8 @@ bool session<Allocator>::decode_substitution(string_type& output, qualifier_list
 //                  ::= T <parameter-2 non-negative number> _
 //
 template <typename Allocator>
-bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers)
+bool session<Allocator>::decode_template_param(string_type& output, qualifier_list<Allocator>* qualifiers,
+                                               string_type* postfix)
 {
   _GLIBCXX_DEMANGLER_DOUT_ENTERING("decode_template_parameter");
   if (current() != 'T')
@@ -834,6 +839,8 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   }
   else if (current() == 'L')
     decode_literal(output);
+  else if (postfix)
+    decode_type_with_postfix(output, *postfix, qualifiers);
   else
     decode_type(output, qualifiers);
   --inside_substitution_;
@@ -1960,7 +1967,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         restore(saved_pos);
         if (!has_template_args && !recursive_template_param_or_substitution_call)
           add_substitution(start_pos, type); // substitution: "<template-param>".
-        if (!decode_template_param(prefix, qualifiers))
+        if (!decode_template_param(prefix, qualifiers, &postfix))
         {
           failure = true;
           break;
@@ -1992,7 +1999,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         }
         if (str_[pos_ + 1] != 't')
         {
-          if (!decode_substitution(prefix, qualifiers))
+          if (!decode_substitution(prefix, qualifiers, &postfix))
           {
             failure = true;
             break;
-- 
2.43.0


From 13a60f88e07b7864363d27741a6b849a074d3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 18/44] fix: demangler: the CV-qualifiers of a function type
 were taken for those of the declarator

---
 include/cwd_demangle.h | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index f0e48ab..a466d05 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1559,8 +1559,7 @@ bool session<Allocator>::decode_bare_function_type(string_type& output)
 // rather ill-formed demangler code too however :/
 //
 // <Q2> is now explicitely part of the M format.
-// For some weird reason, g++ (3.2.1) does not add substitutions for
-// qualified member function pointers.  I think that is another bug.
+// The substitution of the function type includes <Q2>.
 //
 
 // In the case of
@@ -1736,6 +1735,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
     qualifiers = new qualifier_list<Allocator>(*this);
   // First eat all qualifiers.
   bool failure = false;
+  int function_cv_count = 0; // The number of CV-qualifiers directly in front of a function type.
   for (;;) // So we can use 'continue' to eat the next qualifier.
   {
     int start_pos = pos_;
@@ -1760,6 +1760,12 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           ++count;
           c = next();
         } while (c == 'K' || c == 'V' || c == 'r');
+        if (c == 'F')
+        {
+          // The CV-qualifiers of a (member) function type are part of that type.
+          function_cv_count = count;
+          break;
+        }
         qualifiers->add_qualifier_start(cv_qualifier, start_pos, count, inside_substitution_);
         continue;
       }
@@ -1826,19 +1832,15 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         // Must be a member function pointer.
         {
           // <Q>M<C><Q2>F<R><B>E	==> R (C::*Q)B Q2
-          //     substitutions: "<C>", "F<R><B>E" (<R> and <B>
+          //     substitutions: "<C>", "<Q2>F<R><B>E" (<R> and <B>
           //                    recursive), "M<C><Q2>F<R><B>E".
           qualifier_list<Allocator> class_type_qualifiers(*this);
           if (count)
             class_type_qualifiers.add_qualifier_start(cv_qualifier, Q2_start_pos, count, inside_substitution_);
           string_type member_function_qualifiers;
-          // It is unclear why g++ doesn't add a substitution for
-          // "<Q2>F<R><B>E" as it should I think.
           string_type member_function_qualifiers_postfix;
           class_type_qualifiers.decode_qualifiers(member_function_qualifiers, member_function_qualifiers_postfix, true);
           member_function_qualifiers += member_function_qualifiers_postfix;
-          // I don't think this substitution is actually ever used.
-          int function_pos = pos_;
           if (eat_current() != 'F')
           {
             failure = true;
@@ -1863,8 +1865,8 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
             failure = true;
             break;
           }
-          // substitution: "F<R><B>E".
-          add_substitution(function_pos, type);
+          // substitution: "<Q2>F<R><B>E".
+          add_substitution(Q2_start_pos, type);
           // substitution: "M<C><Q2>F<R><B>E".
           add_substitution(start_pos, type);
           // substitution: all qualified types if any.
@@ -1932,7 +1934,15 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           failure = true;
           break;
         }
-        add_substitution(start_pos, type); // Substitution: "F<R><B>E".
+        start_pos -= function_cv_count;
+        add_substitution(start_pos, type); // Substitution: "<Q2>F<R><B>E".
+        string_type function_qualifiers, function_qualifiers_postfix;
+        if (function_cv_count)
+        {
+          qualifier_list<Allocator> function_type_qualifiers(*this);
+          function_type_qualifiers.add_qualifier_start(cv_qualifier, start_pos, function_cv_count, inside_substitution_);
+          function_type_qualifiers.decode_qualifiers(function_qualifiers, function_qualifiers_postfix, true);
+        }
         string_type declarator;
         qualifiers->decode_qualifiers(declarator, postfix);
         // substitution: all qualified types, if any.
@@ -1941,7 +1951,8 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           prefix += ' ';
         else
         {
-          if (need_space)
+          // Also do not glue a pointer to member to the parenthesis (the declarator then starts with the class name).
+          if (need_space || (declarator[0] != '*' && declarator[0] != '&'))
             prefix += ' ';
           prefix += '(';
           prefix += declarator;
@@ -1950,6 +1961,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         if (extern_C)
           postfix += " [extern \"C\"] ";
         postfix += bare_function_type;
+        postfix += function_qualifiers;
         postfix += return_type_postfix;
         break;
       }
-- 
2.43.0


From 52a83f3385123add511013018fce7a08cfa5dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 19/44] fix: demangler: the name of a cast operator was lost
 when its type changed the function name

---
 include/cwd_demangle.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index a466d05..5bd9879 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2285,8 +2285,11 @@ bool session<Allocator>::decode_unqualified_name(string_type& output)
     name_is_template_ = false;
     name_is_cdtor_ = false;
     name_is_conversion_operator_ = false;
-    if (!decode_operator_name(function_name_))
+    // Decoding the type of a cast operator can change function_name_.
+    string_type operator_name;
+    if (!decode_operator_name(operator_name))
       _GLIBCXX_DEMANGLER_FAILURE;
+    function_name_ = operator_name;
     output += function_name_;
   }
   else if (current() == 'C' || current() == 'D')
-- 
2.43.0


From 361f88edf99a64bfc1db3f5a8b9da408bf8abcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:08 +0000
Subject: [PATCH 20/44] fix: demangler: an encoding inside an encoding shares
 its substitutions

---
 include/cwd_demangle.h | 47 ++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 5bd9879..c34bfdf 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -343,10 +343,15 @@ class session
   // Decode an <encoding> that starts at pos_. Leaves pos_ alone upon failure.
   bool decode_nested_encoding(string_type& output)
   {
-    int len = decode_encoding(output, str_ + pos_, maxpos_ - pos_ + 1, implementation_details_);
-    if (len < 0)
+    // The substitutions of the enclosing encoding can be used in the nested encoding, and the other way around.
+    session<Allocator> nested_session(str_, maxpos_ + 1, implementation_details_);
+    nested_session.pos_ = pos_;
+    nested_session.inside_substitution_ = inside_substitution_;
+    nested_session.substitutions_pos_ = substitutions_pos_;
+    if (!nested_session.decode_encoding(output))
       return false;
-    pos_ += len;
+    substitutions_pos_ = nested_session.substitutions_pos_;
+    pos_ = nested_session.pos_;
     return true;
   }
 
@@ -379,6 +384,7 @@ class session
   bool decode_builtin_type(string_type& output);
   bool decode_call_offset(string_type& output);
   bool decode_class_enum_type(string_type& output);
+  bool decode_encoding(string_type& output);
   bool decode_expression(string_type& output);
   bool decode_literal(string_type& output);
   bool decode_local_name(string_type& output);
@@ -2541,37 +2547,42 @@ int session<Allocator>::decode_encoding(string_type& output, char const* in, int
   if (len <= 0)
     return INT_MIN;
   session<Allocator> demangler_session(in, len, id);
+  return demangler_session.decode_encoding(output) ? demangler_session.pos_ : INT_MIN;
+}
+
+template <typename Allocator>
+bool session<Allocator>::decode_encoding(string_type& output)
+{
   string_type nested_name_qualifiers;
   int saved_pos;
-  demangler_session.store(saved_pos);
-  if (demangler_session.decode_special_name(output))
-    return demangler_session.pos_;
-  demangler_session.restore(saved_pos);
+  store(saved_pos);
+  if (decode_special_name(output))
+    return true;
+  restore(saved_pos);
   string_type name;
-  if (!demangler_session.decode_name(name, nested_name_qualifiers))
-    return INT_MIN;
-  if (demangler_session.current() == 0 || demangler_session.current() == 'E')
+  if (!decode_name(name, nested_name_qualifiers))
+    return false;
+  if (current() == 0 || current() == 'E')
   {
     output += name;
     output += nested_name_qualifiers;
-    return demangler_session.pos_;
+    return true;
   }
   // Must have been a <function name>.
   string_type return_type_postfix;
-  if (demangler_session.name_is_template_ &&
-      !(demangler_session.name_is_cdtor_ || demangler_session.name_is_conversion_operator_))
+  if (name_is_template_ && !(name_is_cdtor_ || name_is_conversion_operator_))
   {
     // Return type of function
-    if (!demangler_session.decode_type_with_postfix(output, return_type_postfix))
-      return INT_MIN;
+    if (!decode_type_with_postfix(output, return_type_postfix))
+      return false;
     output += ' ';
   }
   output += name;
-  if (!demangler_session.decode_bare_function_type(output))
-    return INT_MIN;
+  if (!decode_bare_function_type(output))
+    return false;
   output += nested_name_qualifiers;
   output += return_type_postfix;
-  return demangler_session.pos_;
+  return true;
 }
 
 } // namespace demangler
-- 
2.43.0


From c7c0815bd565d605d658a0bef4e3d83bf55c230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:08 +0000
Subject: [PATCH 21/44] fix: demangler: a template argument that is an
 expression which refers to itself recursed forever

---
 include/cwd_demangle.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index c34bfdf..56b3a85 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -841,7 +841,10 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   if (current() == 'X')
   {
     eat_current();
+    // A template parameter in this expression might refer to this same expression.
+    ++inside_type_;
     decode_expression(output);
+    --inside_type_;
   }
   else if (current() == 'L')
     decode_literal(output);
-- 
2.43.0


From d96a5da87e958946339769baac0f9f8854ad8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:07 +0000
Subject: [PATCH 22/44] fix: demangler: operator~ is a unary operator

---
 include/cwd_demangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 56b3a85..54c89dc 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1115,7 +1115,7 @@ Entry const symbol_name_table_c[39] = {{"aa", "operator&&", binary},       {"na"
                                        {"de", "operator*", unary},         {"ml=", "operator*", binary},
                                        {"mm", "operator--", unary},        {"cl", "operator()", unary},
                                        {"cm", "operator,", binary},        {"an=", "operator&", binary},
-                                       {"co", "operator~", binary},        {"dl", "operator delete", unary},
+                                       {"co", "operator~", unary},        {"dl", "operator delete", unary},
                                        {"ls=", "operator<<", binary},      {"lt", "operator<", binary},
                                        {"as=", "operator", binary},        {"ge", "operator>=", binary},
                                        {"nt", "operator!", unary},         {"rm=", "operator%", binary},
-- 
2.43.0


From 207b2f1afec70dce08574c6aadc8962034af7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:21 +0000
Subject: [PATCH 23/44] fix: demangler: local names with a discriminator larger
 than 9 were never decoded

---
 include/cwd_demangle.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 54c89dc..c347896 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -2192,7 +2192,8 @@ bool session<Allocator>::decode_nested_name(string_type& output, string_type& qu
 
 // <local-name> := Z <function encoding> E <entity name> [<discriminator>]
 //              := Z <function encoding> E s [<discriminator>]
-// <discriminator> := _ <non-negative number>
+// <discriminator> := _ <non-negative number>         # When number < 10
+//                 := __ <non-negative number> _      # When number >= 10
 //
 template <typename Allocator>
 bool session<Allocator>::decode_local_name(string_type& output)
@@ -2217,8 +2218,16 @@ bool session<Allocator>::decode_local_name(string_type& output)
     output += nested_name_qualifiers;
   }
   string_type discriminator;
-  if (current() == '_' && next() != 'n' && !decode_number(discriminator))
-    _GLIBCXX_DEMANGLER_FAILURE;
+  if (current() == '_')
+  {
+    bool const more_digits = next() == '_';
+    if (more_digits)
+      eat_current();
+    if (current() != 'n' && !decode_number(discriminator))
+      _GLIBCXX_DEMANGLER_FAILURE;
+    if (more_digits && eat_current() != '_')
+      _GLIBCXX_DEMANGLER_FAILURE;
+  }
   _GLIBCXX_DEMANGLER_RETURN;
 }
 
-- 
2.43.0


From 9aef792b98bc4879cf1073608b469897966a8470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:45 +0000
Subject: [PATCH 24/44] fix: demangler: the type of a templated cast operator
 was decoded with the wrong template arguments

---
 include/cwd_demangle.h | 45 +++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index c347896..3faf179 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -294,6 +294,8 @@ class session
   bool name_is_cdtor_;
   bool name_is_template_;
   bool name_is_conversion_operator_;
+  bool cast_operator_type_;
+  bool skip_template_params_;
   bool template_args_need_space_;
   string_type function_name_;
   using int_Allocator = typename allocator_rebind<Allocator>::template alloc<int>;
@@ -319,6 +321,8 @@ class session
       name_is_cdtor_(false),
       name_is_template_(false),
       name_is_conversion_operator_(false),
+      cast_operator_type_(false),
+      skip_template_params_(false),
       template_args_need_space_(false),
       template_arg_pos_offset_(0),
       implementation_details_(id)
@@ -830,6 +834,12 @@ bool session<Allocator>::decode_template_param(string_type& output, qualifier_li
   }
   if (eat_current() != '_')
     _GLIBCXX_DEMANGLER_FAILURE;
+  if (skip_template_params_)
+  {
+    if (qualifiers)
+      qualifiers->printing_suppressed();
+    _GLIBCXX_DEMANGLER_RETURN;
+  }
   value += template_arg_pos_offset_;
   if (value >= template_arg_pos_.size())
     _GLIBCXX_DEMANGLER_FAILURE;
@@ -1163,17 +1173,32 @@ bool session<Allocator>::decode_operator_name(string_type& output)
       {
         eat_current();
         output += "operator ";
-        if (current() == 'T')
+        cast_operator_type_ = !inside_template_args_;
+        if (cast_operator_type_)
         {
-          // This is a templated cast operator.
-          // It must be of the form "cvT_I...E".
-          // Let template_arg_pos_ already point
-          // to the template argument.
-          template_arg_pos_offset_ = template_arg_pos_.size();
-          template_arg_pos_.push_back(pos_ + 3);
+          // Find the end of the type. If template arguments follow then this
+          // is a templated cast operator, and the template parameter T_ in
+          // its type refers to the first of those.
+          // Let template_arg_pos_ already point to that template argument.
+          int saved_pos;
+          store(saved_pos);
+          size_t const number_of_substitutions = substitutions_pos_.size();
+          string_type unresolved_type;
+          skip_template_params_ = true;
+          if (!decode_type(unresolved_type))
+            _GLIBCXX_DEMANGLER_FAILURE;
+          skip_template_params_ = false;
+          substitutions_pos_.erase(substitutions_pos_.begin() + number_of_substitutions, substitutions_pos_.end());
+          if (current() == 'I')
+          {
+            template_arg_pos_offset_ = template_arg_pos_.size();
+            template_arg_pos_.push_back(pos_ + 1);
+          }
+          restore(saved_pos);
         }
         if (!decode_type(output))
           _GLIBCXX_DEMANGLER_FAILURE;
+        cast_operator_type_ = false;
         if (!inside_template_args_)
           name_is_conversion_operator_ = true;
         _GLIBCXX_DEMANGLER_RETURN;
@@ -1984,7 +2009,9 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
         {
           eat_current();
         } while (isdigit(current()));
-        bool has_template_args = eat_current() == '_' && current() == 'I';
+        // The template arguments of a templated cast operator are not part of its type.
+        bool has_template_args =
+            eat_current() == '_' && current() == 'I' && !(cast_operator_type_ && !inside_template_args_);
         restore(saved_pos);
         if (!has_template_args && !recursive_template_param_or_substitution_call)
           add_substitution(start_pos, type); // substitution: "<template-param>".
@@ -1993,7 +2020,7 @@ bool session<Allocator>::decode_type_with_postfix(string_type& prefix, string_ty
           failure = true;
           break;
         }
-        if (current() == 'I')
+        if (has_template_args)
         {
           add_substitution(start_pos, template_template_param);
           // substitution: "<template-template-param>".
-- 
2.43.0


From e74d3972a79b6ff20c689386127b756a3af1b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 25/44] fix: demangler: arrays beyond a pointer were printed as
 part of the series of arrays in front of it

---
 include/cwd_demangle.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cwd_demangle.h b/include/cwd_demangle.h
index 3faf179..173c8a5 100644
--- a/include/cwd_demangle.h
+++ b/include/cwd_demangle.h
@@ -1663,7 +1663,9 @@ void qualifier_list<Allocator>::decode_KVrA(string_type& prefix, string_type& po
           break;
         }
         default:
+          // The arrays beyond this qualifier do not belong to the series.
           _GLIBCXX_DEMANGLER_RETURN3;
+          return;
       }
     }
   }
-- 
2.43.0


From 17a7bb6615141bcbce0b4e9da0033170da538557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 26/44] fix: the interrupted part of a continued line was
 written to the stream of the interrupting output

---
 src/debug.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 9a30f19..98632fa 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -925,8 +925,8 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
     LIBCWD_ASSERT(current != reinterpret_cast<OutputState*>(_private_::WST_dummy_output_state));
 #endif
     int saved_errno = errno; // The writeto below changes errno.
-    // And write out what is in the buffer till now.
-    std::ostream* target_os = (channel_set.mask & cerr_cf) ? &std::cerr : nullptr;
+    // And write out what is in the buffer till now, to where the rest of the interrupted output goes too.
+    std::ostream* target_os = (current->mask & cerr_cf) ? &std::cerr : nullptr;
     current->buffer.writeto(
         target_os, LIBCWD_TSD, debug_object,
         true, // This thread requests an <unfinished> because of previous, unfinished 'continued' output.
-- 
2.43.0


From 83c6326c3610fa4fb07cc389de8822de442ef595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 27/44] fix: output nested in output with cerr_cf was written
 to the debug stream, when it was not the first

---
 src/debug.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 98632fa..8e1e885 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -963,12 +963,13 @@ void DebugObject_ThreadSpecificData::start(DebugObject& debug_object,
 
     // Indent nested debug output with 4 extra spaces.
     indent += 4;
-
-    // If the previous target was written to cerr, then
-    // write this interrupting output to cerr too.
-    channel_set.mask |= (current->mask & cerr_cf);
   }
 
+  // If the surrounding output is written to cerr, then
+  // write this nested output to cerr too.
+  // MT: if current == _private_::WST_dummy_output_state then there is no surrounding output, and current->mask is zero.
+  channel_set.mask |= (current->mask & cerr_cf);
+
   // Create a new output state.
   DEBUGDEBUG_CERR("creating new OutputState");
   current = new OutputState(channel_set.mask, channel_set.label, errno); // LEAK5: This allocation + Location.
-- 
2.43.0


From ce88755a79302bab8db24ebd737390ac6ac5e06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 28/44] fix: an rcfile that turned dc::elfutils on and then off
 left it off one level too deep

---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index cfa1335..38bb9e0 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -138,7 +138,8 @@ void RcFile::process_channel(Channel& debugChannel, std::string const& mask, act
       else if (elfutils_on_ && (action == off || action == toggle))
       {
         elfutils_on_ = false;
-        debugChannel.off();
+        if (debugChannel.is_on())
+          debugChannel.off();
         __Dout(dc::rcfile, "Turned off ELFUTILS");
       }
     }
-- 
2.43.0


From b3d7381f4ee69d99505343d4d4b2bb2c5f3459de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 29/44] fix: dc::warning stayed off when channels_on in an
 override rcfile must keep it on and it was off twice

---
 src/utils/rcfile.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 38bb9e0..18e485c 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -203,7 +203,8 @@ void RcFile::set_all_channels_off(bool warning_on)
   __Dout(dc::rcfile, "Turning all channels" << (warning_on ? ", except WARNING," : "") << " off by default.");
   ForAllDebugChannels(if (debugChannel.is_on()) debugChannel.off());
   if (warning_on)
-    channels::dc::warning.on();
+    while (!channels::dc::warning.is_on())
+      channels::dc::warning.on();
 #if CWDEBUG_LOCATION
   elfutils_on_ = false;
 #endif
-- 
2.43.0


From 06deee778d7550181bb5dc08d9acd44ac9ce60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 30/44] fix: reading the rcfile a second time, after an
 override rcfile, did not fall back to the default rcfile

---
 src/utils/rcfile.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/rcfile.cxx b/src/utils/rcfile.cxx
index 18e485c..54d19cb 100644
--- a/src/utils/rcfile.cxx
+++ b/src/utils/rcfile.cxx
@@ -44,8 +44,7 @@ std::string RcFile::determine_rcfile_name()
   // Can be overridden with the environment variable LIBCWD_RCFILE_NAME
   if (!(rcname_ = getenv("LIBCWD_RCFILE_NAME")))
     rcname_ = ".libcwdrc"; // Default rcfile name.
-  else
-    env_set_ = true;
+  env_set_ = getenv("LIBCWD_RCFILE_NAME") != nullptr;
   std::string rcfile_name;
   // Does this file exist in the current directory?
   if (S_exists(rcname_))
-- 
2.43.0


From 29e567675465b61211695d2c5a9717529fed0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 31/44] fix: a handle that was obtained with RTLD_NOLOAD was
 not counted, so that closing it made libcwd forget a shared library that is
 still loaded

---
 src/dwarf.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 59d4404..004e0bc 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -1341,11 +1341,6 @@ void* dlopen(char const* name, int flags)
   }
   if (handle == nullptr)
     return handle;
-#ifdef RTLD_NOLOAD
-  if ((flags & RTLD_NOLOAD))
-    return handle;
-#endif
-
   // If the record already exist, increment DynamicLoaderRecord::refcount_ and return.
   {
     dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
@@ -1360,6 +1355,11 @@ void* dlopen(char const* name, int flags)
     }
   }
 
+#ifdef RTLD_NOLOAD
+  if ((flags & RTLD_NOLOAD))
+    return handle;
+#endif
+
   if (need_register_object_file)
   {
     struct link_map* link_map;
-- 
2.43.0


From fe625f5d0e86ec08f53c948d1334a6ebe0bdb74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 32/44] fix: dlclose made libcwd forget a shared library that
 stays loaded: one that was loaded at startup, or that two threads opened at
 the same time

---
 src/dwarf.cxx | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/dwarf.cxx b/src/dwarf.cxx
index 004e0bc..d664395 100644
--- a/src/dwarf.cxx
+++ b/src/dwarf.cxx
@@ -182,6 +182,7 @@ class ObjectFileRegistry
     // Used for targeted dlopen-driven object discovery:
     uintptr_t target_lbase_; // When non-zero, create an ObjectFile only for the DSO with this load base.
     mutable ObjectFile const* object_file_{}; // Set to the ObjectFile aggregate for target_lbase_.
+    mutable bool newly_registered_{false}; // Set when object_file_ was created by this iteration.
 
     CallBackData(std::string const& executable_path, uintptr_t target_lbase = 0) :
         executable_path_(executable_path), target_lbase_(target_lbase)
@@ -196,7 +197,8 @@ class ObjectFileRegistry
   static ObjectFile const* find_registered_object_file(uintptr_t lbase, object_files_ts::wat const& object_files_w);
 
   // Called from dlopen.
-  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase);
+  // Sets newly_registered to false if the object file was already registered before.
+  static ObjectFile const* register_object_file_at_lbase(uintptr_t lbase, bool& newly_registered);
   // Needed for Location.
   static ObjectFile const* find_object_file(uintptr_t addr);
 };
@@ -830,7 +832,10 @@ int ObjectFileRegistry::cb_dl_iterate_phdr(dl_phdr_info* info, size_t /*UNUSED*/
 
   // If no PTLoadSegment was inserted, then we want to ignore this object file.
   if (have_pt_load_segment)
+  {
     data->object_file_ = object_file;
+    data->newly_registered_ = true;
+  }
   else
     delete object_file;
 
@@ -856,7 +861,7 @@ ObjectFile const* ObjectFileRegistry::find_registered_object_file(uintptr_t lbas
 }
 
 //static
-ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase)
+ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lbase, bool& newly_registered)
 {
   // Locks object_files_map().
   CallBackData const data{current_executable_path(), lbase};
@@ -866,7 +871,9 @@ ObjectFile const* ObjectFileRegistry::register_object_file_at_lbase(uintptr_t lb
 
   // Otherwise iterate over all currently loaded object files to find the just dynamically
   // opened object file, loaded at data.target_lbase_, and create a new ObjectFile for it.
-  return existing_object_file ? existing_object_file : iterate_program_headers(data);
+  ObjectFile const* object_file = existing_object_file ? existing_object_file : iterate_program_headers(data);
+  newly_registered = data.newly_registered_;
+  return object_file;
 }
 
 //static
@@ -1369,7 +1376,8 @@ void* dlopen(char const* name, int flags)
       ObjectFile const* object_file = nullptr;
       bool skip_dlopen_map = false;
       ForceLoadingDebugOutput scoped_;
-      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase);
+      bool newly_registered;
+      object_file = ObjectFileRegistry::register_object_file_at_lbase(lbase, newly_registered);
       // NULL would mean that there is no DSO at the `l_addr` that `dlinfo` just returned.
       // That shouldn't be possible because no thread can have dlclose-d it without already haven gotten the handle that
       // we didn't even return yet. However, in theory it can also mean that this DSO didn't have any non-empty PT_LOAD
@@ -1377,7 +1385,21 @@ void* dlopen(char const* name, int flags)
       if (!object_file)
         skip_dlopen_map = true;
       if (!skip_dlopen_map)
-        dynamic_loader_records_ts::wat(dlopen_map())->emplace(handle, DynamicLoaderRecord{object_file, flags});
+      {
+        // An object file that was already registered, because it was loaded at program startup or because it can't be
+        // unloaded anymore (RTLD_NODELETE), must stay registered when the last handle is closed.
+        dynamic_loader_records_ts::wat dynamic_loader_records_w(dlopen_map());
+        auto const ibp = dynamic_loader_records_w->emplace(
+            handle, DynamicLoaderRecord{newly_registered ? object_file : nullptr, flags});
+        if (!ibp.second)
+        {
+          // Another thread that opened the same DSO was here first.
+          ++ibp.first->second.refcount_;
+          ibp.first->second.flags_ |= flags;
+          if (newly_registered)
+            ibp.first->second.object_file_ = object_file;
+        }
+      }
     }
   }
 
-- 
2.43.0


From bd434af317aa241c25904a55ea107726a3bedc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 33/44] fix: type_info_of aborted for an array of const
 elements and for a class name that ends on an S in front of a substitution

---
 src/type_info.cxx | 77 +++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 46 deletions(-)

diff --git a/src/type_info.cxx b/src/type_info.cxx
index 35fc28a..f5da7f2 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -32,62 +32,47 @@ char const* extract_exact_name(char const* encap_mangled_name)
   return exact_name;
 }
 #else
-char const* skip_substitution(char const* const ptr, char const* const begin)
-{
-  char const* S_ptr = ptr;
-  // S_ptr now points to a trailing '_'.
-  for (int digits = 0; S_ptr > begin && digits < 3; ++digits)
-  {
-    --S_ptr;
-    // All legal substitution patterns have the form "S[0-9A-Z]*_" where we
-    // limit the number of base-36 digits to two (because it seems extremely
-    // unlikely that there are more than 1296 substitutions).
-    //
-    // We allow "SS_" where the second S is a digit; but not "SSS_" because
-    // it's already unlikely to have 841 substitutions, too.
-    if (*S_ptr == 'S' && (digits > 0 || S_ptr[-1] != 'S'))
-      return S_ptr;
-    // Substitutions use base-36 with 'digits' [0-9A-Z].
-    if (!('0' <= *S_ptr && *S_ptr <= '9') && !('A' <= *S_ptr && *S_ptr <= 'Z'))
-      break;
-  }
-  return ptr;
-}
-
 // As an example, the input could be:
 //
 // encap_mangled_name =
 // 22libcwd_type_info_exactIRKN4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS0_12OutputStreamEEEE
-// stripped_mangled_name =                         N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS _12OutputStreamEEE
-// where the space in the latter is not really there (just added for alignment)               -------^
+// stripped_mangled_name =                         N4evio14AcceptedSocketI23MyAcceptedSocketDecoderNS_12OutputStreamEEE
+//
+// The exact name is the encapsulated name, in which every substitution has the sequence number that it has in
+// stripped_mangled_name: libcwd_type_info_exact itself is the first substitution of the encapsulated name.
 char const* extract_exact_name(char const* encap_mangled_name, char const* stripped_mangled_name)
 {
-  encap_mangled_name += 25; // Strip "22libcwd_type_info_exactI" from the beginning.
-  // encap_mangled_name now points to the qualifiers string (if any) "RK".
-  char const* encap_ptr = encap_mangled_name + strlen(encap_mangled_name) - 1;
-  // encap_ptr now points to the last E of encap_mangled_name.
-  size_t len = strlen(stripped_mangled_name);
-  char const* ptr = stripped_mangled_name + len;
-  // ptr now points to the terminating zero of stripped_mangled_name.
-  while (ptr > stripped_mangled_name)
+  char const* encap_ptr = encap_mangled_name + 25; // Strip "22libcwd_type_info_exactI" from the beginning.
+  // encap_ptr now points to the qualifiers string (if any) "RK".
+  char const* ptr = stripped_mangled_name;
+  char* const exact_name = new char[strlen(encap_ptr) + 1]; // LEAK58
+  char* out = exact_name;
+  while (*ptr)
   {
-    --ptr;
-    --encap_ptr;
-    LIBCWD_ASSERT(*ptr == *encap_ptr); // This is how we assume the encapsulation works!
-    if (*ptr == '_')
+    if (*ptr == *encap_ptr)
+    {
+      *out++ = *ptr++;
+      ++encap_ptr;
+    }
+    else if (ptr == stripped_mangled_name || ptr[-1] == '_')
+    {
+      // A reference or qualifier of the type, or of the elements when it is an array ("A3_Ki"), that typeid() ignored.
+      LIBCWD_ASSERT(*encap_ptr && strchr("ROrVK", *encap_ptr));
+      *out++ = *encap_ptr++;
+    }
+    else
     {
-      // Now we want to put both pointers on the 'S',
-      // but only if this could be a substitution.
-      ptr = skip_substitution(ptr, stripped_mangled_name);
-      encap_ptr = skip_substitution(encap_ptr, encap_mangled_name);
+      // The sequence number of a substitution: "S[0-9A-Z]*_".
+      while (('0' <= *ptr && *ptr <= '9') || ('A' <= *ptr && *ptr <= 'Z'))
+        *out++ = *ptr++;
+      while (('0' <= *encap_ptr && *encap_ptr <= '9') || ('A' <= *encap_ptr && *encap_ptr <= 'Z'))
+        ++encap_ptr;
+      LIBCWD_ASSERT(*ptr == '_' && *encap_ptr == '_'); // This is how we assume the encapsulation works!
     }
   }
-  // ptr is now equal to stripped_mangled_name, and encap_ptr points to the first character after the qualifiers.
-  size_t qlen = encap_ptr - encap_mangled_name;
-  char* exact_name = new char[qlen + len + 1]; // LEAK58
-  // Add the qualifiers to the mangled name:
-  strncpy(exact_name, encap_mangled_name, qlen);
-  strcpy(exact_name + qlen, stripped_mangled_name);
+  // What is left is the last E of encap_mangled_name.
+  LIBCWD_ASSERT(encap_ptr[0] == 'E' && encap_ptr[1] == 0);
+  *out = 0;
   return exact_name;
 }
 #endif
-- 
2.43.0


From 714b9f86d88bd0594dbe9db2344932d116fe20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 34/44] fix: two threads that use type_info_of for the same
 type for the first time initialized the type info at the same time

---
 include/libcwd/type_info.h | 48 ++++++++++----------------------------
 src/type_info.cxx          | 18 +++++---------
 2 files changed, 18 insertions(+), 48 deletions(-)

diff --git a/include/libcwd/type_info.h b/include/libcwd/type_info.h
index 92021cc..9915eb2 100644
--- a/include/libcwd/type_info.h
+++ b/include/libcwd/type_info.h
@@ -104,7 +104,6 @@ struct type_info
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -117,7 +116,6 @@ struct type_info<T*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -130,7 +128,6 @@ struct type_info<void*>
 {
  private:
   static TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static TypeInfo const& value();
@@ -140,19 +137,14 @@ struct type_info<void*>
 template <typename T>
 TypeInfo type_info<T>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T>::value()
 {
-  if (!s_initialized_)
-  {
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(typeid(T).name(), sizeof(T), 0);
-    s_initialized_ = true;
-  }
+    return true;
+  }(); // Thread-safe.
   return s_value_;
 }
 
@@ -160,19 +152,14 @@ TypeInfo const& type_info<T>::value()
 template <typename T>
 TypeInfo type_info<T*>::s_value_;
 
-// _private_::
-template <typename T>
-bool type_info<T*>::s_initialized_;
-
 // _private_::
 template <typename T>
 TypeInfo const& type_info<T*>::value()
 {
-  if (!s_initialized_)
-  {
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(typeid(T*).name(), sizeof(T*), sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+    return true;
+  }(); // Thread-safe.
   return s_value_;
 }
 
@@ -187,7 +174,6 @@ struct libcwd_type_info_exact
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -199,7 +185,6 @@ struct libcwd_type_info_exact<T*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -211,7 +196,6 @@ struct libcwd_type_info_exact<void*>
 {
  private:
   static ::libcwd::TypeInfo s_value_;
-  static bool s_initialized_;
 
  public:
   static ::libcwd::TypeInfo const& value();
@@ -220,42 +204,34 @@ struct libcwd_type_info_exact<void*>
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T>::value()
 {
-  if (!s_initialized_)
-  {
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T>).name(),
           typeid(T).name()),
         sizeof(T),
         0);
-    s_initialized_ = true;
-  }
+    return true;
+  }(); // Thread-safe.
   return s_value_;
 }
 
 template <typename T>
 ::libcwd::TypeInfo libcwd_type_info_exact<T*>::s_value_;
 
-template <typename T>
-bool libcwd_type_info_exact<T*>::s_initialized_;
-
 template <typename T>
 ::libcwd::TypeInfo const& libcwd_type_info_exact<T*>::value()
 {
-  if (!s_initialized_)
-  {
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(::libcwd::_private_::extract_exact_name(
           typeid(libcwd_type_info_exact<T*>).name(),
           typeid(T*).name()),
         sizeof(T*),
         ::libcwd::_private_::sizeof_ref_v<T>);
-    s_initialized_ = true;
-  }
+    return true;
+  }(); // Thread-safe.
   return s_value_;
 }
 
diff --git a/src/type_info.cxx b/src/type_info.cxx
index f5da7f2..5e95946 100644
--- a/src/type_info.cxx
+++ b/src/type_info.cxx
@@ -88,15 +88,12 @@ char const* make_label(char const* mangled_name)
 
 TypeInfo type_info<void*>::s_value_;
 
-bool type_info<void*>::s_initialized_;
-
 TypeInfo const& type_info<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  [[maybe_unused]] static bool const s_initialized = [] {
     s_value_.init(typeid(void*).name(), sizeof(void*), 0 /* unknown */);
-    s_initialized_ = true;
-  }
+    return true;
+  }(); // Thread-safe.
   return s_value_;
 }
 
@@ -106,12 +103,9 @@ TypeInfo const& type_info<void*>::value()
 
 libcwd::TypeInfo libcwd_type_info_exact<void*>::s_value_;
 
-bool libcwd_type_info_exact<void*>::s_initialized_;
-
 libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
 {
-  if (!s_initialized_)
-  {
+  [[maybe_unused]] static bool const s_initialized = [] {
 #if __GXX_ABI_VERSION == 0
     s_value_.init(
         ::libcwd::_private_::extract_exact_name(typeid(libcwd_type_info_exact<void*>).name()),
@@ -121,7 +115,7 @@ libcwd::TypeInfo const& libcwd_type_info_exact<void*>::value()
                                                           typeid(void*).name()),
                   sizeof(void*), 0 /* unknown */);
 #endif
-    s_initialized_ = true;
-  }
+    return true;
+  }(); // Thread-safe.
   return s_value_;
 }
-- 
2.43.0


From 5223a24b17aee3705cbd7079309ccd816fc1f70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 35/44] fix: loading a library with a longer channel label
 turned the channels of the rcfile off in new threads

---
 src/init_functions.cxx | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 4c5a344..5a7a036 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -38,6 +38,21 @@ using rcfile_dc_states_type = std::map<std::string, bool>;
  */
 rcfile_dc_states_type rcfile_dc_states;
 
+/**
+ * Return the key under which the state of debug channel @a dc_label is stored.
+ *
+ * @internal
+ *
+ * Labels are padded with spaces up to the length of the longest label, which
+ * grows when a shared library with a longer label is loaded.
+ */
+std::string dc_state_key(char const* dc_label)
+{
+  std::string key(dc_label);
+  key.erase(key.find_last_not_of(' ') + 1);
+  return key;
+}
+
 /**
  * Set the default state of debug channel @a dc_label.
  *
@@ -48,7 +63,7 @@ rcfile_dc_states_type rcfile_dc_states;
 void set_state(char const* dc_label, bool is_on)
 {
   std::pair<rcfile_dc_states_type::iterator, bool> res =
-      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(std::string(dc_label), is_on));
+      rcfile_dc_states.insert(rcfile_dc_states_type::value_type(dc_state_key(dc_label), is_on));
   if (!res.second)
     __Dout(dc::warning, "Calling set_state() more than once for the same label!");
   return;
@@ -94,7 +109,7 @@ void save_dc_states()
  */
 bool is_on_in_rcfile(char const* dc_label)
 {
-  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(std::string(dc_label));
+  rcfile_dc_states_type::const_iterator iter = rcfile_dc_states.find(dc_state_key(dc_label));
   if (iter == rcfile_dc_states.end())
   {
     __Dout(dc::warning, "is_on_in_rcfile(\"" << dc_label << "\"): \"" << dc_label << "\" is an unknown label!");
-- 
2.43.0


From b995dfc16f83518bb121bbc795767d36663c8508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 36/44] fix: data race between threads that call init_thread at
 the same time

---
 src/init_functions.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_functions.cxx b/src/init_functions.cxx
index 5a7a036..eb1fd8e 100644
--- a/src/init_functions.cxx
+++ b/src/init_functions.cxx
@@ -167,7 +167,7 @@ void init_thread(std::string thread_name, thread_init_t thread_init)
   if (!libcwd::libcw_do.has_mutex())
     libcwd::libcw_do.set_ostream(libcwd::libcw_do.get_ostream(), &libcwd::cout_mutex);
 
-  static bool first_thread = true;
+  static std::atomic_bool first_thread = true;
   if (!thread_name.empty())
   {
     std::string margin = thread_name.substr(0, 15) + std::string(16 - std::min(15UL, thread_name.length()), ' ');
-- 
2.43.0


From 49e31813ab8b8dab7274279eadba4f746d6105c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 37/44] fix: deadlock when a thread calls get_ostream or
 init_thread while it holds the lock of the debug stream

---
 include/libcwd/DebugObject.h     | 10 ++++++----
 include/libcwd/DebugObject.inl.h | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index 4a9316c..a6821fc 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -35,11 +35,13 @@ void debug_tsd_exit(LIBCWD_TSD_PARAM);
 struct OstreamState
 {
  private:
-  mutable std::mutex state_mutex_; // Protects real_os_ and mutex_ as one pair.
-  std::ostream*
+  // Protects real_os_ and mutex_ as one pair. This mutex stays locked while waiting for the user-provided lock,
+  // so it may not be locked by accessors that the application can call while it holds that lock.
+  mutable std::mutex state_mutex_;
+  std::atomic<std::ostream*>
       real_os_{}; // The destination selected with DebugObject::set_ostream. mutex points at the user-provided lock
-  LockInterfaceBase* mutex_{}; // User-provided lock adapter for that stream, or null while the debug object is still
-                               // limited to single-threaded output.
+  std::atomic<LockInterfaceBase*> mutex_{}; // User-provided lock adapter for that stream, or null while the debug object
+                                            // is still limited to single-threaded output.
 
  public:
   // Replace both the ostream and its lock adapter with os and new_mutex.
diff --git a/include/libcwd/DebugObject.inl.h b/include/libcwd/DebugObject.inl.h
index 3c7fd0b..55f936c 100644
--- a/include/libcwd/DebugObject.inl.h
+++ b/include/libcwd/DebugObject.inl.h
@@ -161,13 +161,11 @@ inline void OstreamState::set_ostream(std::ostream* os)
 
 inline std::ostream* OstreamState::read_real_os() const
 {
-  std::lock_guard<std::mutex> lock(state_mutex_);
   return real_os_;
 }
 
 inline bool OstreamState::has_mutex() const
 {
-  std::lock_guard<std::mutex> lock(state_mutex_);
   return mutex_ != nullptr;
 }
 
@@ -175,12 +173,13 @@ inline std::ostream* OstreamState::get_locked_os(std::ostream* os,
                                                             LockInterfaceBase** locked_mutex_out) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
-  std::ostream* locked_os = os ? os : real_os_;
-  *locked_mutex_out = mutex_;
-  if (mutex_)
+  std::ostream* locked_os = os ? os : real_os_.load();
+  LockInterfaceBase* mutex = mutex_;
+  *locked_mutex_out = mutex;
+  if (mutex)
   {
     // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-    mutex_->lock();
+    mutex->lock();
   }
   return locked_os;
 }
@@ -189,11 +188,12 @@ inline bool OstreamState::try_lock_os(std::ostream* os, std::ostream** locked_os
                                                  LockInterfaceBase** locked_mutex_out) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
+  LockInterfaceBase* mutex = mutex_;
   // LOCK ORDER: state_mutex_ -> LockInterfaceBase
-  if (mutex_ && !mutex_->try_lock())
+  if (mutex && !mutex->try_lock())
     return false;
-  *locked_os_out = os ? os : real_os_;
-  *locked_mutex_out = mutex_;
+  *locked_os_out = os ? os : real_os_.load();
+  *locked_mutex_out = mutex;
   return true;
 }
 
@@ -201,7 +201,7 @@ inline void OstreamState::write_color_off_newline(std::ostream* os, char const*
                                                              std::size_t color_off_size) const
 {
   std::lock_guard<std::mutex> lock(state_mutex_);
-  std::ostream* target_os = os ? os : real_os_;
+  std::ostream* target_os = os ? os : real_os_.load();
   if (color_off_size > 0)
     target_os->write(color_off, color_off_size);
   target_os->put('\n');
-- 
2.43.0


From d92fa0ff3ceae84a91e7499632e5d10b6234fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 38/44] fix: a pointer to the buffer of a finished debug
 statement was kept after dc::finish|nonewline_cf without output

---
 src/debug.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 8e1e885..0701b92 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -174,7 +174,7 @@ void Buffer::writeto(std::ostream* os, LIBCWD_TSD_PARAM, DebugObject& debug_obje
     debug_object.unfinished_oss_ = NULL;
     debug_object.newlineless_tsd_ = NULL;
   }
-  else if (curlen > 0)
+  else if (curlen > 0 || debug_object.unfinished_oss_ == this)
   {
     debug_object.newlineless_tsd_ = &__libcwd_tsd;
     if (possible_nonewline_cf)
-- 
2.43.0


From 3265902785e21b2560e31fe3f4d6c356fb47e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 39/44] fix: wait_cf waits forever at the end of standard input

---
 src/debug.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 0701b92..9089a9e 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1129,7 +1129,8 @@ void DebugObject_ThreadSpecificData::finish(DebugObject& debug_object,
       if (debug_object.interactive_)
       {
         *locked_os << std::flush;
-        while (std::cin.get() != '\n')
+        // Don't wait for a newline that will never come.
+        while (std::cin.get() != '\n' && std::cin.good())
           ;
       }
       if (locked_mutex)
-- 
2.43.0


From 78aa53bf3ae2640a825bc7a0daa3971463449b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 40/44] fix: the constructor of a debug object discards what
 was set after an earlier initialize()

---
 include/libcwd/DebugObject.h | 14 +++++++++++---
 src/debug.cxx                |  2 ++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/libcwd/DebugObject.h b/include/libcwd/DebugObject.h
index a6821fc..619f531 100644
--- a/include/libcwd/DebugObject.h
+++ b/include/libcwd/DebugObject.h
@@ -130,8 +130,13 @@ class DebugObject
   //
 
   friend class libcwd::Buffer; // Buffer::writeto() needs access.
-  _private_::OstreamState ostream_state_;
-  // Ostream destination and matching external lock, protected as one unit.
+  // These are members of a union in order to stop the constructor of this object from initializing
+  // them a second time. They are constructed by NS_init(), see the note above.
+  union
+  {
+    _private_::OstreamState ostream_state_;
+    // Ostream destination and matching external lock, protected as one unit.
+  };
 
   Buffer* unfinished_oss_;
   void const* newlineless_tsd_; // The TSD of the thread that wrote an unfinished line last, or the
@@ -158,7 +163,10 @@ class DebugObject
   bool interactive_;
   // Set true if the last or current debug output is to cerr
 
-  std::atomic<int> always_flush_{0};
+  union
+  {
+    std::atomic<int> always_flush_;
+  };
   // Application-wide flush on/off counter for Debug Objects.
 
  public:
diff --git a/src/debug.cxx b/src/debug.cxx
index 9089a9e..81d93dd 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1209,6 +1209,8 @@ bool DebugObject::NS_init(LIBCWD_TSD_PARAM)
 
   being_initialized_ = true;
 
+  new (&ostream_state_) _private_::OstreamState;
+  new (&always_flush_) std::atomic<int>{0};
   unfinished_oss_ = NULL;
 
 #if CWDEBUG_DEBUG
-- 
2.43.0


From 6e15cfee01fef01e795b01764391e80c4dbc5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 41/44] fix: attach_gdb uses the value of xterm as printf
 format

---
 src/utils/attach_gdb.cxx | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index f81f711..c11da44 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -19,6 +19,7 @@ void attach_gdb()
 #include <cstdlib>
 #include <ctime>
 #include <fstream>
+#include <string>
 #include <sys/types.h>
 #include <sys/wait.h>
 #include <unistd.h>
@@ -44,12 +45,23 @@ void attach_gdb()
     __DoutFatal(dc::fatal, "rcfile: value of keyword 'gdb' too long (" << rcfile.gdb_bin() << ')');
   if (rcfile.gdb_bin().size() == 0)
     __DoutFatal(dc::fatal, "rcfile: value of keyword 'gdb' is empty. Did you call Debug(read_rcfile()) at all?");
-  char command2[512];
   __Dout(dc::always, "xterm = \"" << rcfile.konsole_command() << "\".");
-  len = snprintf(command2, sizeof(command2), rcfile.konsole_command().c_str(), command);
+  // Replace every "%s" with command and "%%" with "%". The value of xterm is
+  // chosen by the user and can therefore not be used as a printf format string.
+  std::string command2;
+  for (char const* p = rcfile.konsole_command().c_str(); *p; ++p)
+  {
+    if (p[0] == '%' && p[1] == 's')
+    {
+      command2 += command;
+      ++p;
+      continue;
+    }
+    if (p[0] == '%' && p[1] == '%')
+      ++p;
+    command2 += *p;
+  }
   __Dout(dc::always, "Executing \"" << command2 << "\".");
-  if (len >= sizeof(command2))
-    __DoutFatal(dc::fatal, "rcfile: value of keyword 'xterm' too long (" << rcfile.konsole_command());
   libcwd_attach_gdb_hook = 1;
   pid_t pid2 = fork();
   __Debug(libcw_do.off());
@@ -60,7 +72,7 @@ void attach_gdb()
       __DoutFatal(dc::fatal | error_cf, "fork()");
     case 0:
     {
-      int ret = system(command2);
+      int ret = system(command2.c_str());
       _exit(ret == -1 ? 255 // system failed (ie, fork failed).
             : WIFSIGNALED(ret) && (WTERMSIG(ret) == SIGINT || WTERMSIG(ret) == SIGQUIT)
                 ? 126 // Terminated by signal (127 means that /bin/sh failed).
-- 
2.43.0


From f7d5ab20ddabc0387e5be5c8be62715d1194077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 42/44] fix: attach_gdb uses an uninitialized status when there
 is no child

---
 src/utils/attach_gdb.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/attach_gdb.cxx b/src/utils/attach_gdb.cxx
index c11da44..26b17ec 100644
--- a/src/utils/attach_gdb.cxx
+++ b/src/utils/attach_gdb.cxx
@@ -95,7 +95,9 @@ void attach_gdb()
           if (pid3 == pid2 || ((int)pid3 == -1 && errno == ECHILD))
           {
             libcwd_attach_gdb_hook = 0;
-            if (WIFEXITED(status))
+            if (pid3 != pid2) // ECHILD: status wasn't set.
+              __DoutFatal(dc::core, "Failed to start gdb: 'xterm' terminated before attaching to the process.");
+            else if (WIFEXITED(status))
               __DoutFatal(dc::core,
                         "Failed to start gdb: 'xterm' terminated with exit code "
                             << WEXITSTATUS(status)
-- 
2.43.0


From c49f489c61fbfba35be8da02d0911ae2ac00c5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:08 +0000
Subject: [PATCH 43/44] fix: Free pushed margins and markers when a thread ends

---
 src/debug.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/debug.cxx b/src/debug.cxx
index 81d93dd..1e9371b 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -1334,6 +1334,15 @@ DebugObject_ThreadSpecificData::~DebugObject_ThreadSpecificData()
   color_off.deinitialize();
   margin.deinitialize();
   marker.deinitialize();
+  // Free what was pushed but not popped.
+  for (DebugStringStackElement* stack : {margin_stack, marker_stack})
+    while (stack)
+    {
+      DebugStringStackElement* next = stack->next;
+      stack->debug_string.deinitialize();
+      free(stack);
+      stack = next;
+    }
   if (!tsd_initialized) // Skip the rest when it wasn't initialized.
     return;
   // Sanity checks:
-- 
2.43.0


From 7a261fd4e5eb0fc6e979111b1549d75508202c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:25 +0000
Subject: [PATCH 44/44] fix: Keep the labels of all fatal channels padded to
 the common width

---
 src/debug.cxx | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/debug.cxx b/src/debug.cxx
index 1e9371b..a62bd3e 100644
--- a/src/debug.cxx
+++ b/src/debug.cxx
@@ -429,6 +429,7 @@ struct ChannelSets
 {
   std::vector<Channel*> visible_;
   std::vector<Channel*> hidden_;
+  std::vector<FatalChannel*> fatal_;
   int next_index_{};
 };
 
@@ -487,8 +488,8 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
 
   Impl::channel_sets_ts::wat channels_w(impl->channel_sets);
 
-  const_cast<char*>(channels::dc::core.get_label())[WST_max_len] = ' ';
-  const_cast<char*>(channels::dc::fatal.get_label())[WST_max_len] = ' ';
+  for (FatalChannel* fatal_channel : channels_w->fatal_)
+    const_cast<char*>(fatal_channel->get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->visible_)
     const_cast<char*>(debug_channel->get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->hidden_)
@@ -508,8 +509,8 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
   if (label_len > WST_max_len)
     WST_max_len = label_len;
 
-  const_cast<char*>(channels::dc::core.get_label())[WST_max_len] = '\0';
-  const_cast<char*>(channels::dc::fatal.get_label())[WST_max_len] = '\0';
+  for (FatalChannel* fatal_channel : channels_w->fatal_)
+    const_cast<char*>(fatal_channel->get_label())[WST_max_len] = '\0';
   for (Channel* debug_channel : channels_w->visible_)
     const_cast<char*>(debug_channel->get_label())[WST_max_len] = '\0';
   for (Channel* debug_channel : channels_w->hidden_)
@@ -536,10 +537,10 @@ void DebugChannels::initialize_channel(Channel& channel, char const* label, LIBC
     channels_w->hidden_.push_back(&channel);
 }
 
-// Initialize the built-in fatal channel state while holding the public channel registry write lock.
+// Initialize the fatal channel state while holding the public channel registry write lock.
 //
-// Fatal channels are not inserted into the registry, but their label width still contributes to the
-// shared WST_max_len value used when formatting all registered channel labels.
+// Fatal channels are not visited by ForAllDebugChannels nor found by label, but their label width still
+// contributes to the shared WST_max_len value used when formatting all labels, including their own.
 void DebugChannels::initialize_fatal_channel(FatalChannel& channel, char const* label,
                                              control_flag_t maskbit) const
 {
@@ -552,6 +553,8 @@ void DebugChannels::initialize_fatal_channel(FatalChannel& channel, char const*
 
   Impl::channel_sets_ts::wat channels_w(impl->channel_sets);
 
+  for (FatalChannel* fatal_channel : channels_w->fatal_)
+    const_cast<char*>(fatal_channel->get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->visible_)
     const_cast<char*>(debug_channel->get_label())[WST_max_len] = ' ';
   for (Channel* debug_channel : channels_w->hidden_)
@@ -561,6 +564,8 @@ void DebugChannels::initialize_fatal_channel(FatalChannel& channel, char const*
   if (label_len > WST_max_len)
     WST_max_len = label_len;
 
+  for (FatalChannel* fatal_channel : channels_w->fatal_)
+    const_cast<char*>(fatal_channel->get_label())[WST_max_len] = '\0';
   for (Channel* debug_channel : channels_w->visible_)
     const_cast<char*>(debug_channel->get_label())[WST_max_len] = '\0';
   for (Channel* debug_channel : channels_w->hidden_)
@@ -573,6 +578,7 @@ void DebugChannels::initialize_fatal_channel(FatalChannel& channel, char const*
   // clang-format on
   std::memset(channel.label_ + label_len, ' ', max_label_len - label_len);
   channel.label_[WST_max_len] = '\0';
+  channels_w->fatal_.push_back(&channel);
 }
 
 // Invoke callback for each registered public debug channel while holding a registry read lock.
-- 
2.43.0

