From c23f0645efa5c2aeaf14694bab6123dab9d44d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:11 +0000
Subject: [PATCH 01/41] fix: Deque erase with wrapped segment moved/destroyed
 the wrong elements

---
 src/archon/core/deque.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 23fe267..77777ac 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -1191,8 +1191,8 @@ void Deque<T>::erase_near_front(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type n = std::min(after, begin);
-            begin_2 = begin - n;
+            size_type n = std::min(after, begin_2);
+            begin_2 -= n;
             core::uninit_safe_move(base + m_offset + begin_2, n, base + (after - n));
         }
     }
@@ -1237,7 +1237,7 @@ void Deque<T>::erase_near_back(size_type begin, size_type end) noexcept
                 core::uninit_destroy(base + m_offset + begin, before);
                 core::uninit_destroy(base, after);
             }
-            size_type remain = size_type(m_size - end);
+            size_type remain = size_type(m_size - end_2);
             size_type n = std::min(before, remain);
             core::uninit_safe_move(base + after, n, base + m_offset + (top - before));
             end_2 += n;
-- 
2.43.0


From 9588df9b9514151b36ac4a8f7ab37805fcce5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:11 +0000
Subject: [PATCH 02/41] fix: Define declared and documented
 BufferedFileSink::flush()

---
 src/archon/core/file_sink.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/archon/core/file_sink.cpp b/src/archon/core/file_sink.cpp
index b240bdc..358e5c9 100644
--- a/src/archon/core/file_sink.cpp
+++ b/src/archon/core/file_sink.cpp
@@ -61,6 +61,15 @@ bool core::BufferedFileSink::do_try_write(core::Span<const char> data, std::size
 }
 
 
+void core::BufferedFileSink::flush()
+{
+    std::error_code ec; // Dummy initialization
+    if (ARCHON_LIKELY(try_flush(ec))) // Throws
+        return; // Success
+    throw std::system_error(ec, "Failed to flush to file");
+}
+
+
 bool core::BufferedFileSink::try_flush(std::error_code& ec)
 {
     ARCHON_ASSERT(m_begin <= m_end);
-- 
2.43.0


From a355410b4a70be6a2473a60c82574f24fea11ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:11 +0000
Subject: [PATCH 03/41] fix: Check result of glXMakeCurrent()

---
 src/archon/display/x11_implementation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 34a40ec..dbe787c 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1646,7 +1646,9 @@ void WindowImpl::present()
 void WindowImpl::opengl_make_current()
 {
 #if HAVE_GLX
-    glXMakeCurrent(conn.dpy, win, m_ctx);
+    Bool success = glXMakeCurrent(conn.dpy, win, m_ctx);
+    if (ARCHON_UNLIKELY(!success))
+        throw std::runtime_error("glXMakeCurrent() failed");
 #endif
 }
 
-- 
2.43.0


From 0f2c1e9761d85e1acdce8ae8f8d6a6eb207ef2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 04/41] fix: Deque copy self-assignment lost contents

---
 src/archon/core/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/deque.hpp b/src/archon/core/deque.hpp
index 77777ac..02e8e09 100644
--- a/src/archon/core/deque.hpp
+++ b/src/archon/core/deque.hpp
@@ -515,8 +515,10 @@ inline Deque<T>::~Deque() noexcept
 template<class T>
 inline auto Deque<T>::operator=(const Deque& other) -> Deque&
 {
-    clear();
-    append(other.begin(), other.end()); // Throws
+    if (ARCHON_LIKELY(&other != this)) {
+        clear();
+        append(other.begin(), other.end()); // Throws
+    }
     return *this;
 }
 
-- 
2.43.0


From 5d94ad64039bb443264ea976809d8d41807d8434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 05/41] fix: Vector resize constructed elements beyond the end

---
 src/archon/core/impl/vector_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/impl/vector_impl.hpp b/src/archon/core/impl/vector_impl.hpp
index debd31f..46defb8 100644
--- a/src/archon/core/impl/vector_impl.hpp
+++ b/src/archon/core/impl/vector_impl.hpp
@@ -289,7 +289,7 @@ void VectorImpl<T>::resize(std::size_t size)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, data() + m_size);
+        core::uninit_safe_fill(size - m_size, data() + m_size); // Throws
     }
     m_size = size;
 }
@@ -303,7 +303,7 @@ void VectorImpl<T>::resize(std::size_t size, const T& value)
     }
     else {
         reserve(size); // Throws
-        core::uninit_safe_fill(size, value, data() + m_size);
+        core::uninit_safe_fill(size - m_size, value, data() + m_size); // Throws
     }
     m_size = size;
 }
-- 
2.43.0


From 401931a16699a8a64f3855bd3d06a1cfa8dccde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 06/41] fix: Buffer::at() accepted index equal to size

---
 src/archon/core/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/buffer.hpp b/src/archon/core/buffer.hpp
index a514e3a..ec2b744 100644
--- a/src/archon/core/buffer.hpp
+++ b/src/archon/core/buffer.hpp
@@ -697,7 +697,7 @@ void Buffer<T>::prepend_a(T val, std::size_t& offset, std::size_t n)
 template<class T>
 inline void Buffer<T>::verify_index(std::size_t i) const
 {
-    if (ARCHON_LIKELY(i <= size()))
+    if (ARCHON_LIKELY(i < size()))
         return;
     throw std::out_of_range("Buffer element index");
 }
-- 
2.43.0


From 4a659625556db952061beb81713cb41b68b50cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 07/41] fix: File move dropped the no-implicit-close flag of
 standard streams

---
 src/archon/core/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.hpp b/src/archon/core/file.hpp
index 57a2ad0..7d76807 100644
--- a/src/archon/core/file.hpp
+++ b/src/archon/core/file.hpp
@@ -1087,6 +1087,7 @@ inline void File::steal_from(File& other) noexcept
 #if ARCHON_WINDOWS
     m_holds_lock = other.m_holds_lock;
 #endif
+    m_no_implicit_close = other.m_no_implicit_close;
     other.m_handle = s_null_handle;
 }
 
-- 
2.43.0


From 7c3248f09cfd21684742146428a2d1da390de22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 08/41] fix: File::try_open() left file open when failing on a
 directory

---
 src/archon/core/file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/core/file.cpp b/src/archon/core/file.cpp
index 0e66891..273e37a 100644
--- a/src/archon/core/file.cpp
+++ b/src/archon/core/file.cpp
@@ -80,6 +80,7 @@ bool File::try_open(FilesystemPathRef path, AccessMode access_mode, CreateMode c
                 return true;
             ec = make_error_code(std::errc::is_a_directory);
         }
+        close();
     }
     return false;
 }
-- 
2.43.0


From a871e96e822bcb0bd1d6705b53cb4b96b7a46eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 09/41] fix: Text file write failure left number of written
 characters unset

---
 src/archon/core/impl/prim_text_file_impl.cpp | 1 +
 src/archon/core/impl/text_file_impl.hpp      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/archon/core/impl/prim_text_file_impl.cpp b/src/archon/core/impl/prim_text_file_impl.cpp
index d28e3e4..fab30c2 100644
--- a/src/archon/core/impl/prim_text_file_impl.cpp
+++ b/src/archon/core/impl/prim_text_file_impl.cpp
@@ -163,6 +163,7 @@ bool PrimWindowsTextFileImpl::write(core::Span<const char> data, std::size_t& n,
         if (ARCHON_LIKELY(m_end > 0)) {
             if (ARCHON_LIKELY(do_flush(ec)))
                 continue;
+            n = data_offset;
             return false;
         }
         expand_buffer(); // Throws
diff --git a/src/archon/core/impl/text_file_impl.hpp b/src/archon/core/impl/text_file_impl.hpp
index 9755246..5d52e4d 100644
--- a/src/archon/core/impl/text_file_impl.hpp
+++ b/src/archon/core/impl/text_file_impl.hpp
@@ -457,6 +457,7 @@ bool TextFileImpl2<P, D>::write(core::Span<const char_type> data, std::size_t& n
             if (ARCHON_LIKELY(m_end > 0)) {
                 if (ARCHON_LIKELY(shallow_flush(ec))) // Throws
                     continue;
+                n = data_offset;
                 return false;
             }
             expand_buffer(); // Throws
-- 
2.43.0


From a69909e4b94e2bc8c0a72837cef8b415bc8d8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:54 +0000
Subject: [PATCH 10/41] fix: Failures of last test thread were lost when
 nonconcurrent tests follow

---
 src/archon/check/noinst/thread_context_impl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 27d96bf..37183c1 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -79,10 +79,14 @@ void ThreadContextImpl::run()
 
 void ThreadContextImpl::nonconcur_run()
 {
-    clear_counters();
-
+    // NOTE: Counters must not be cleared here, because this thread context may have already
+    // executed concurrent tests (see run()), and if so, finalize() has not yet been called.
     std::unique_lock lock(m_root_context.mutex); // Throws
 
+    // Nothing left to do if run() finalized this thread context.
+    if (m_root_context.last_thread_to_end != thread_index)
+        return;
+
     for (auto entry : m_root_context.nonconcur_execs)
         run(entry, lock); // Throws
 
-- 
2.43.0


From f1ef860e774f7d8f6afff587b90c4467e6c382b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:22 +0000
Subject: [PATCH 11/41] fix: Access mapped file path cache only while holding
 its mutex

---
 .../check/noinst/thread_context_impl.cpp      | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/archon/check/noinst/thread_context_impl.cpp b/src/archon/check/noinst/thread_context_impl.cpp
index 37183c1..87f8e73 100644
--- a/src/archon/check/noinst/thread_context_impl.cpp
+++ b/src/archon/check/noinst/thread_context_impl.cpp
@@ -181,21 +181,21 @@ void ThreadContextImpl::check_failed(const check::TestContext& test_context, che
         ++m_num_failed_checks;
         m_errors_seen = true;
     }
-    std::string_view mapped_file_path;
-    check::Location test_location = test_context.test_details.location;
-    if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
-        mapped_file_path = test_context.mapped_file_path;
-    }
-    else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
-    else {
-        m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
-        m_mapped_file_path_cache_key = location.file_path;
-        mapped_file_path = m_mapped_file_path_cache_value;
-    }
     {
         std::lock_guard lock(m_root_context.mutex); // Throws
+        std::string_view mapped_file_path;
+        check::Location test_location = test_context.test_details.location;
+        if (ARCHON_LIKELY(location.file_path == test_location.file_path)) {
+            mapped_file_path = test_context.mapped_file_path;
+        }
+        else if (ARCHON_LIKELY(location.file_path == m_mapped_file_path_cache_key)) {
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
+        else {
+            m_mapped_file_path_cache_value = m_root_context.map_source_path(location.file_path); // Throws
+            m_mapped_file_path_cache_key = location.file_path;
+            mapped_file_path = m_mapped_file_path_cache_value;
+        }
         m_test_level_report_logger.file_path   = mapped_file_path;
         m_test_level_report_logger.line_number = location.line_number;
         check::FailContext fail_context(test_context, location, mapped_file_path);
-- 
2.43.0


From 6051d851148162220d0422908641cc2697ac1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:24 +0000
Subject: [PATCH 12/41] fix: Colors allocated from default colormap were not
 the ones freed on failure

---
 src/archon/display/noinst/x11/support.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/noinst/x11/support.cpp b/src/archon/display/noinst/x11/support.cpp
index 6effc4d..1bd33b9 100644
--- a/src/archon/display/noinst/x11/support.cpp
+++ b/src/archon/display/noinst/x11/support.cpp
@@ -1372,7 +1372,7 @@ bool PixelFormatCreator::create_grayscale(std::unique_ptr<x11::PixelFormat>& for
 
               fail:
                 for (int j = 0; j < i; ++j) {
-                    ulong pixel = ulong((i - 1) - j);
+                    ulong pixel = ulong(perm[std::size_t((i - 1) - j)]);
                     ulong pixels[] = { pixel };
                     int npixels = 1;
                     ulong planes = 0;
@@ -1524,7 +1524,7 @@ bool PixelFormatCreator::create_pseudocolor(std::unique_ptr<x11::PixelFormat>& f
 
               fail:
                 for (int j = 0; j < i; ++j) {
-                    ulong pixel = ulong((i - 1) - j);
+                    ulong pixel = ulong(perm[std::size_t((i - 1) - j)]);
                     ulong pixels[] = { pixel };
                     int npixels = 1;
                     ulong planes = 0;
-- 
2.43.0


From 37679102a0c98c9c0c17701f5ad8b37e32b19351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 13/41] fix: Span::rbegin() and Span::rend() did not compile

---
 src/archon/core/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/span.hpp b/src/archon/core/span.hpp
index f6d1fd4..8809b97 100644
--- a/src/archon/core/span.hpp
+++ b/src/archon/core/span.hpp
@@ -180,14 +180,14 @@ constexpr auto Span<T>::cend() const noexcept -> const_iterator
 template<class T>
 constexpr auto Span<T>::rbegin() const noexcept -> reverse_iterator
 {
-    return const_reverse_iterator(end());
+    return reverse_iterator(end());
 }
 
 
 template<class T>
 constexpr auto Span<T>::rend() const noexcept -> reverse_iterator
 {
-    return const_reverse_iterator(begin());
+    return reverse_iterator(begin());
 }
 
 
-- 
2.43.0


From 8705125562ba8a605a9cf43019e3b4af17c856d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 14/41] fix: TextFormatter::get_word_info() did not compile

---
 src/archon/core/text_formatter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/text_formatter.hpp b/src/archon/core/text_formatter.hpp
index 2fe49a0..e103f8c 100644
--- a/src/archon/core/text_formatter.hpp
+++ b/src/archon/core/text_formatter.hpp
@@ -1774,7 +1774,7 @@ auto BasicTextFormatter<C, T>::get_word_info(std::size_t section_index, std::siz
                                              std::size_t word_index) -> WordInfo
 {
     ExtendedLineInfo line_info = get_extended_line_info(section_index, line_index); // Throws
-    if (ARCHON_UNLIKELY(word_index >= line_info.num_words))
+    if (ARCHON_UNLIKELY(word_index >= line_info.base.num_words))
         throw std::out_of_range("Word index");
     std::size_t word_index_2 = std::size_t(line_info.words_begin + word_index);
     const InputWord& word = m_input_words[word_index_2];
-- 
2.43.0


From 7ec8b224f01915bd2b45cb32e41d7d82daacaa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 15/41] fix: Base64 encoder and decoder did not compile for
 wide characters

---
 src/archon/core/base64.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/base64.hpp b/src/archon/core/base64.hpp
index ff41809..e4c112e 100644
--- a/src/archon/core/base64.hpp
+++ b/src/archon/core/base64.hpp
@@ -313,7 +313,7 @@ template<class C, class T>
 auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& buffer) const -> string_view_type
 {
     buffer.reserve(encode_buffer_size(data.size(), m_config)); // Throws
-    if constexpr (BasicCharMapper<char>::is_trivial) {
+    if constexpr (BasicCharMapper<C, T>::is_trivial) {
         std::size_t size = 0;
         bool insufficient_buffer_space = false;
         bool success = base64::encode(data, core::Span(buffer), size, insufficient_buffer_space, m_config);
@@ -327,7 +327,7 @@ auto BasicEncoder<C, T>::encode(core::Span<const char> data, core::Buffer<C>& bu
         const char* data_begin = data.data();
         const char* data_end = data_begin + data.size();
         char* buffer_end = buffer_2.data() + buffer_2.size();
-        char* dest = buffer.data();
+        C* dest = buffer.data();
         for (;;) {
             bool end_of_input = true;
             char* buffer_begin = buffer_2.data();
@@ -370,7 +370,7 @@ template<class C, class T>
 auto BasicDecoder<C, T>::decode(string_view_type data, core::Buffer<char>& buffer) const -> core::Span<const char>
 {
     buffer.reserve(decode_buffer_size(data.size())); // Throws
-    if constexpr (BasicCharMapper<char>::is_trivial) {
+    if constexpr (BasicCharMapper<C, T>::is_trivial) {
         std::size_t size = 0;
         bool insufficient_buffer_space = false;
         bool success = base64::decode(data, core::Span(buffer), size, insufficient_buffer_space, m_config);
-- 
2.43.0


From a1dd7f2232f198e8954209c27628b4ab911bda4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 16/41] fix: StringMatcher::Builder default constructor did not
 compile

---
 src/archon/core/string_matcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/string_matcher.hpp b/src/archon/core/string_matcher.hpp
index 68576c4..ed92ea9 100644
--- a/src/archon/core/string_matcher.hpp
+++ b/src/archon/core/string_matcher.hpp
@@ -377,7 +377,7 @@ inline bool BasicStringMatcher<C, T>::is_degenerate() const noexcept
 
 template<class C, class T>
 inline BasicStringMatcher<C, T>::Builder::Builder()
-    : Builder({}) // Throws
+    : Builder(Config {}) // Throws
 {
 }
 
-- 
2.43.0


From 7e0f8daa3b3731dc4beb61905e5c9e5399586c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 17/41] fix: log::JailLogger did not compile

---
 src/archon/log/jail_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/log/jail_logger.hpp b/src/archon/log/jail_logger.hpp
index 6560568..8da1d90 100644
--- a/src/archon/log/jail_logger.hpp
+++ b/src/archon/log/jail_logger.hpp
@@ -51,7 +51,7 @@ namespace archon::log {
 /// connected to any channel in the target logger.
 ///
 template<class C, class T = std::char_traits<C>> class BasicJailLogger final
-    : private log::BasicCannelMap<C, T>
+    : private log::BasicChannelMap<C, T>
     , public log::BasicLogger<C, T> {
 public:
     using prefix_type  = log::BasicPrefix<C, T>;
@@ -69,7 +69,7 @@ private:
 
     BasicJailLogger(logger_type& target_logger, channel_type& target_channel) noexcept;
 
-    // Overriding functions from log::BasicCannelMap<C, T>
+    // Overriding functions from log::BasicChannelMap<C, T>
     auto do_get_channels() const noexcept -> core::Span<const channel_type> override;
 };
 
-- 
2.43.0


From e3a020c5ac6d307d5a79966b800eb1ea626edd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 18/41] fix: Pixel conversion to util::Color used unconverted
 components

---
 src/archon/image/pixel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/image/pixel.hpp b/src/archon/image/pixel.hpp
index 3217f94..80baf80 100644
--- a/src/archon/image/pixel.hpp
+++ b/src/archon/image/pixel.hpp
@@ -335,7 +335,7 @@ inline Pixel<R>::operator util::Color() const
                                                         interm, custom_converter); // Throws
     util::Color color;
     for (int i = 0; i < 4; ++i)
-        color[i] = image::int_to_int<8, util::Color::comp_type, 8>(origin[i]);
+        color[i] = image::int_to_int<8, util::Color::comp_type, 8>(destin[i]);
     return color;
 }
 
-- 
2.43.0


From 160458b39bb9a8e5feef7dac438fa73ec61d113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 19/41] fix: PaletteImage::get_colors() was never defined

---
 src/archon/image/palette_image.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/archon/image/palette_image.hpp b/src/archon/image/palette_image.hpp
index b4f230b..6a3d188 100644
--- a/src/archon/image/palette_image.hpp
+++ b/src/archon/image/palette_image.hpp
@@ -165,6 +165,13 @@ inline PaletteImage<R>::PaletteImage(std::unique_ptr<pixel_type[]> colors, std::
 }
 
 
+template<class R>
+inline auto PaletteImage<R>::get_colors() const noexcept -> span_type
+{
+    return m_colors;
+}
+
+
 template<class R>
 auto PaletteImage<R>::get_size() const noexcept -> image::Size
 {
-- 
2.43.0


From a9c87cfb7d4dadf273f3f148b04a4f557ba1a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 20/41] fix: cli::assign_c() with default argument was declared
 but not defined

---
 src/archon/cli/option_actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/cli/option_actions.hpp b/src/archon/cli/option_actions.hpp
index 95ce51e..38479aa 100644
--- a/src/archon/cli/option_actions.hpp
+++ b/src/archon/cli/option_actions.hpp
@@ -47,7 +47,7 @@ auto lower_flag(bool& flag);
 template<class R> auto assign(R&& ref);
 template<class R, class D> auto assign(R&& ref, D&& default_arg);
 template<class R, class E> auto assign_c(R&& ref, E&& cond);
-template<class R, class E, class D> auto assign_c(R& ref, E&& cond, D&& default_arg);
+template<class R, class E, class D> auto assign_c(R&& ref, E&& cond, D&& default_arg);
 template<class F> auto exec(F&& func);
 template<class F, class D> auto exec(F&& func, D&& default_arg);
 template<class F, class E> auto exec_c(F&& func, E&& cond);
-- 
2.43.0


From 4a9fe17a40febf269a5e530f3c8e9adeddcdf25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 21/41] fix: Public headers failed to compile on their own

---
 src/archon/cli/impl/help_formatter.hpp | 1 +
 src/archon/cli/impl/processor.hpp      | 1 +
 src/archon/core/signal_blocker.hpp     | 1 +
 src/archon/core/text_codec_impl.hpp    | 3 +++
 src/archon/core/thread_guard.hpp       | 3 +++
 src/archon/core/word_wrap.hpp          | 1 +
 src/archon/display/window.hpp          | 1 +
 src/archon/image/output.hpp            | 2 +-
 src/archon/math/type_traits.hpp        | 3 +++
 9 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/archon/cli/impl/help_formatter.hpp b/src/archon/cli/impl/help_formatter.hpp
index 58c5629..4278e4c 100644
--- a/src/archon/cli/impl/help_formatter.hpp
+++ b/src/archon/cli/impl/help_formatter.hpp
@@ -44,6 +44,7 @@
 #include <archon/cli/help_spec_error.hpp>
 #include <archon/cli/exception.hpp>
 #include <archon/cli/help_config.hpp>
+#include <archon/cli/impl/spec.hpp>
 
 
 namespace archon::cli::impl {
diff --git a/src/archon/cli/impl/processor.hpp b/src/archon/cli/impl/processor.hpp
index b48c3f7..8e7adfc 100644
--- a/src/archon/cli/impl/processor.hpp
+++ b/src/archon/cli/impl/processor.hpp
@@ -38,6 +38,7 @@
 #include <archon/core/text_codec.hpp>
 #include <archon/core/quote.hpp>
 #include <archon/core/string_formatter.hpp>
+#include <archon/log/logger.hpp>
 #include <archon/cli/impl/value_parser.hpp>
 #include <archon/cli/proc_error.hpp>
 #include <archon/cli/attributes.hpp>
diff --git a/src/archon/core/signal_blocker.hpp b/src/archon/core/signal_blocker.hpp
index 674b0f7..91499e6 100644
--- a/src/archon/core/signal_blocker.hpp
+++ b/src/archon/core/signal_blocker.hpp
@@ -27,6 +27,7 @@
 #include <csignal>
 
 #include <archon/core/features.h>
+#include <archon/core/assert.hpp>
 
 
 namespace archon::core {
diff --git a/src/archon/core/text_codec_impl.hpp b/src/archon/core/text_codec_impl.hpp
index f5596f9..a39fcd4 100644
--- a/src/archon/core/text_codec_impl.hpp
+++ b/src/archon/core/text_codec_impl.hpp
@@ -24,6 +24,9 @@
 /// \file
 
 
+#include <string>
+
+#include <archon/core/char_codec.hpp>
 #include <archon/core/impl/text_codec_impl.hpp>
 
 
diff --git a/src/archon/core/thread_guard.hpp b/src/archon/core/thread_guard.hpp
index a94b846..19c5e0a 100644
--- a/src/archon/core/thread_guard.hpp
+++ b/src/archon/core/thread_guard.hpp
@@ -26,7 +26,10 @@
 
 #include <exception>
 #include <utility>
+#include <optional>
 #include <string>
+#include <locale>
+#include <thread>
 
 #include <archon/core/demangle.hpp>
 #include <archon/core/signal_blocker.hpp>
diff --git a/src/archon/core/word_wrap.hpp b/src/archon/core/word_wrap.hpp
index b1f2eaf..e312c2a 100644
--- a/src/archon/core/word_wrap.hpp
+++ b/src/archon/core/word_wrap.hpp
@@ -25,6 +25,7 @@
 
 
 #include <cstddef>
+#include <cstdint>
 #include <vector>
 
 #include <archon/core/span.hpp>
diff --git a/src/archon/display/window.hpp b/src/archon/display/window.hpp
index 59a9977..e028a1a 100644
--- a/src/archon/display/window.hpp
+++ b/src/archon/display/window.hpp
@@ -28,6 +28,7 @@
 #include <string_view>
 
 #include <archon/util/color.hpp>
+#include <archon/display/event_handler.hpp>
 #include <archon/display/geometry.hpp>
 #include <archon/display/texture.hpp>
 
diff --git a/src/archon/image/output.hpp b/src/archon/image/output.hpp
index 32ee546..f3876d6 100644
--- a/src/archon/image/output.hpp
+++ b/src/archon/image/output.hpp
@@ -26,7 +26,7 @@
 
 #include <string_view>
 
-#include <archon/core/source.hpp>
+#include <archon/core/sink.hpp>
 
 
 namespace archon::image {
diff --git a/src/archon/math/type_traits.hpp b/src/archon/math/type_traits.hpp
index 062ddad..b18ffb4 100644
--- a/src/archon/math/type_traits.hpp
+++ b/src/archon/math/type_traits.hpp
@@ -24,6 +24,9 @@
 /// \file
 
 
+#include <type_traits>
+
+
 namespace archon::math {
 
 
-- 
2.43.0


From e8af89464f5b64832f00332b6e6f33700a8d28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 22/41] fix: Fallback font face constructor terminated on
 memory exhaustion

---
 src/archon/font/loader_fallback.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_fallback.cpp b/src/archon/font/loader_fallback.cpp
index 3c6fef9..92c64e8 100644
--- a/src/archon/font/loader_fallback.cpp
+++ b/src/archon/font/loader_fallback.cpp
@@ -403,7 +403,7 @@ auto get_logger(const std::locale& loc, font::Loader::Config config,
 class FaceImpl final
     : public font::Face {
 public:
-    FaceImpl(const Font& font) noexcept
+    FaceImpl(const Font& font)
         : m_font(font)
         , m_image_reader(*font.image) // Throws
     {
-- 
2.43.0


From 75740578c793970e5b4fa2aae609bb9559a3107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 23/41] fix: Help scan of string length terminated on
 exceptions

---
 src/archon/cli/processor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/cli/processor.hpp b/src/archon/cli/processor.hpp
index 273b52c..6c58f9f 100644
--- a/src/archon/cli/processor.hpp
+++ b/src/archon/cli/processor.hpp
@@ -557,7 +557,7 @@ BasicProcessor<C, T>::BasicProcessor(std::unique_ptr<command_line_type> command_
     // Create buffer for storing widened strings
     std::size_t string_data_size = 0;
     if constexpr (!is_degenerate) {
-        auto examine = [&](const var_string_ref_type& string) noexcept {
+        auto examine = [&](const var_string_ref_type& string) {
             std::string_view string_1;
             string_view_type string_2; // Dummy
             if (ARCHON_LIKELY(string.get(string_1, string_2)))
-- 
2.43.0


From 574a2066d197993ba1703970b88d4480a9b187b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:27 +0000
Subject: [PATCH 24/41] fix: IndexedPixelFormat::get_transfer_info() terminated
 on exceptions

---
 src/archon/image/indexed_pixel_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/image/indexed_pixel_format.hpp b/src/archon/image/indexed_pixel_format.hpp
index ddbcafe..54d1af4 100644
--- a/src/archon/image/indexed_pixel_format.hpp
+++ b/src/archon/image/indexed_pixel_format.hpp
@@ -249,7 +249,7 @@ public:
     static auto get_buffer_size(image::Size) -> std::size_t;
     auto get_palette() const noexcept -> const image::Image&;
     bool try_describe(image::BufferFormat&) const;
-    auto get_transfer_info() const noexcept -> image::Image::TransferInfo;
+    auto get_transfer_info() const -> image::Image::TransferInfo;
     static void read(const word_type* buffer, image::Size image_size, image::Pos,
                      const image::Tray<transf_comp_type>&) noexcept;
     static void write(word_type* buffer, image::Size image_size, image::Pos,
@@ -373,7 +373,7 @@ bool IndexedPixelFormat<S, M, N, A, W, B, D, E, H>::try_describe(image::BufferFo
 
 
 template<class S, int M, int N, core::Endianness A, class W, int B, int D, core::Endianness E, bool H>
-auto IndexedPixelFormat<S, M, N, A, W, B, D, E, H>::get_transfer_info() const noexcept -> image::Image::TransferInfo
+auto IndexedPixelFormat<S, M, N, A, W, B, D, E, H>::get_transfer_info() const -> image::Image::TransferInfo
 {
     return m_palette.get_transfer_info();
 }
-- 
2.43.0


From 62298c1d1fbc1446d914c5b78b541e1157c61d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 25/41] fix: ThreadGuard moved from lvalue function objects

---
 src/archon/core/thread_guard.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/thread_guard.hpp b/src/archon/core/thread_guard.hpp
index 19c5e0a..00fdcb2 100644
--- a/src/archon/core/thread_guard.hpp
+++ b/src/archon/core/thread_guard.hpp
@@ -185,7 +185,7 @@ struct ThreadGuard::Config {
 
 
 template<class F> inline ThreadGuard::ThreadGuard(F&& func)
-    : ThreadGuard(std::move(func), {}) // Throws
+    : ThreadGuard(std::forward<F>(func), {}) // Throws
 {
 }
 
@@ -193,7 +193,7 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func)
 template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
 {
     auto run = [this, thread_name = std::move(config.thread_name),
-                func = std::move(func)]() noexcept {
+                func = std::forward<F>(func)]() noexcept {
         try {
             if (thread_name.has_value())
                 core::set_thread_name(thread_name->m_name, thread_name->m_locale); // Throws
-- 
2.43.0


From eb4ecbf3048e020cbb41ea8320eddc6d4deff7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:38 +0000
Subject: [PATCH 26/41] fix: Exceptions were lost when a ThreadGuard was moved

---
 src/archon/core/thread_guard.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/archon/core/thread_guard.hpp b/src/archon/core/thread_guard.hpp
index 00fdcb2..44d3bee 100644
--- a/src/archon/core/thread_guard.hpp
+++ b/src/archon/core/thread_guard.hpp
@@ -25,6 +25,7 @@
 
 
 #include <exception>
+#include <memory>
 #include <utility>
 #include <optional>
 #include <string>
@@ -131,7 +132,7 @@ public:
 
 private:
     std::thread m_thread;
-    std::exception_ptr m_exception;
+    std::unique_ptr<std::exception_ptr> m_exception; // Shared with thread, so must not move
 };
 
 
@@ -192,7 +193,8 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func)
 
 template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
 {
-    auto run = [this, thread_name = std::move(config.thread_name),
+    m_exception = std::make_unique<std::exception_ptr>(); // Throws
+    auto run = [exception = m_exception.get(), thread_name = std::move(config.thread_name),
                 func = std::forward<F>(func)]() noexcept {
         try {
             if (thread_name.has_value())
@@ -200,7 +202,7 @@ template<class F> inline ThreadGuard::ThreadGuard(F&& func, Config config)
             func(); // Throws
         }
         catch (...) {
-            m_exception = std::current_exception();
+            *exception = std::current_exception();
         }
     };
     if (config.block_signals) {
@@ -223,8 +225,8 @@ inline void ThreadGuard::join()
 inline void ThreadGuard::join_and_rethrow()
 {
     join(); // Throws
-    if (m_exception) {
-        std::exception_ptr exception = std::move(m_exception);
+    if (m_exception && *m_exception) {
+        std::exception_ptr exception = std::move(*m_exception);
         std::rethrow_exception(exception); // Throws
     }
 }
-- 
2.43.0


From 8f8e0e3bb01cf8978d09afec9f261e3f3b408d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 27/41] fix: make_stride_iterator() with stride as only
 template argument was not defined

---
 src/archon/core/stride_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index c505060..de2171d 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -260,7 +260,7 @@ auto operator+(typename StrideIterator<I, S>::difference_type i, const StrideIte
 }
 
 
-template<class I, std::size_t S> auto make_stride_iterator(const I& iter) noexcept -> StrideIterator<I, S>
+template<std::size_t S, class I> auto make_stride_iterator(const I& iter) noexcept -> StrideIterator<I, S>
 {
     return { iter };
 }
-- 
2.43.0


From fd8bf126f20dd4e70d983d5beeea86dc1b45d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:09 +0000
Subject: [PATCH 28/41] fix: ProxyIterator did not compile for pointers

---
 src/archon/core/proxy_iterator.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/archon/core/proxy_iterator.hpp b/src/archon/core/proxy_iterator.hpp
index 1638a27..e1e41f4 100644
--- a/src/archon/core/proxy_iterator.hpp
+++ b/src/archon/core/proxy_iterator.hpp
@@ -47,14 +47,14 @@ public:
     auto operator*() const noexcept(noexcept(*std::declval<I>())) -> T;
     auto operator[](difference_type i) const noexcept(noexcept(std::declval<I>()[i])) -> T;
 
-    auto operator++() noexcept(noexcept(++std::declval<I>())) -> ProxyIterator&;
-    auto operator--() noexcept(noexcept(--std::declval<I>())) -> ProxyIterator&;
+    auto operator++() noexcept(noexcept(++std::declval<I&>())) -> ProxyIterator&;
+    auto operator--() noexcept(noexcept(--std::declval<I&>())) -> ProxyIterator&;
 
-    auto operator++(int) noexcept(noexcept(std::declval<I>()++)) -> ProxyIterator;
-    auto operator--(int) noexcept(noexcept(std::declval<I>()--)) -> ProxyIterator;
+    auto operator++(int) noexcept(noexcept(std::declval<I&>()++)) -> ProxyIterator;
+    auto operator--(int) noexcept(noexcept(std::declval<I&>()--)) -> ProxyIterator;
 
-    auto operator+=(difference_type i) noexcept(noexcept(std::declval<I>() += i)) -> ProxyIterator&;
-    auto operator-=(difference_type i) noexcept(noexcept(std::declval<I>() -= i)) -> ProxyIterator&;
+    auto operator+=(difference_type i) noexcept(noexcept(std::declval<I&>() += i)) -> ProxyIterator&;
+    auto operator-=(difference_type i) noexcept(noexcept(std::declval<I&>() -= i)) -> ProxyIterator&;
 
     auto operator+(difference_type i) const noexcept(noexcept(std::declval<I>() + i)) -> ProxyIterator;
     auto operator-(difference_type i) const noexcept(noexcept(std::declval<I>() - i)) -> ProxyIterator;
@@ -116,7 +116,7 @@ inline auto ProxyIterator<I, T>::operator[](difference_type i) const noexcept(no
 
 
 template<class I, class T>
-inline auto ProxyIterator<I, T>::operator++() noexcept(noexcept(++std::declval<I>())) -> ProxyIterator&
+inline auto ProxyIterator<I, T>::operator++() noexcept(noexcept(++std::declval<I&>())) -> ProxyIterator&
 {
     ++m_iter; // Throws
     return *this;
@@ -124,7 +124,7 @@ inline auto ProxyIterator<I, T>::operator++() noexcept(noexcept(++std::declval<I
 
 
 template<class I, class T>
-inline auto ProxyIterator<I, T>::operator--() noexcept(noexcept(--std::declval<I>())) -> ProxyIterator&
+inline auto ProxyIterator<I, T>::operator--() noexcept(noexcept(--std::declval<I&>())) -> ProxyIterator&
 {
     --m_iter; // Throws
     return *this;
@@ -132,21 +132,21 @@ inline auto ProxyIterator<I, T>::operator--() noexcept(noexcept(--std::declval<I
 
 
 template<class I, class T>
-inline auto ProxyIterator<I, T>::operator++(int) noexcept(noexcept(std::declval<I>()++)) -> ProxyIterator
+inline auto ProxyIterator<I, T>::operator++(int) noexcept(noexcept(std::declval<I&>()++)) -> ProxyIterator
 {
     return ProxyIterator(m_iter++); // Throws
 }
 
 
 template<class I, class T>
-inline auto ProxyIterator<I, T>::operator--(int) noexcept(noexcept(std::declval<I>()--)) -> ProxyIterator
+inline auto ProxyIterator<I, T>::operator--(int) noexcept(noexcept(std::declval<I&>()--)) -> ProxyIterator
 {
     return ProxyIterator(m_iter--); // Throws
 }
 
 
 template<class I, class T>
-inline auto ProxyIterator<I, T>::operator+=(difference_type i) noexcept(noexcept(std::declval<I>() += i)) ->
+inline auto ProxyIterator<I, T>::operator+=(difference_type i) noexcept(noexcept(std::declval<I&>() += i)) ->
     ProxyIterator&
 {
     m_iter += i; // Throws
@@ -155,7 +155,7 @@ inline auto ProxyIterator<I, T>::operator+=(difference_type i) noexcept(noexcept
 
 
 template<class I, class T>
-inline auto ProxyIterator<I, T>::operator-=(difference_type i) noexcept(noexcept(std::declval<I>() -= i)) ->
+inline auto ProxyIterator<I, T>::operator-=(difference_type i) noexcept(noexcept(std::declval<I&>() -= i)) ->
     ProxyIterator&
 {
     m_iter -= i; // Throws
-- 
2.43.0


From 73326bf000a8fe74efccbdab238a09887b831af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:09 +0000
Subject: [PATCH 29/41] fix: IndexIterator ignored the specified subscript
 operation

---
 src/archon/core/index_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/archon/core/index_iterator.hpp b/src/archon/core/index_iterator.hpp
index 6e500aa..5bdd922 100644
--- a/src/archon/core/index_iterator.hpp
+++ b/src/archon/core/index_iterator.hpp
@@ -111,14 +111,14 @@ inline IndexIterator<C, S>::IndexIterator(C& container, std::ptrdiff_t index) no
 template<class C, class S>
 inline auto IndexIterator<C, S>::operator->() const noexcept(noexcept(&S::subscr(std::declval<C&>(), 0))) -> pointer
 {
-    return &(*m_container)[m_index];
+    return &S::subscr(*m_container, m_index);
 }
 
 
 template<class C, class S>
 inline auto IndexIterator<C, S>::operator*() const noexcept(noexcept(S::subscr(std::declval<C&>(), 0))) -> reference
 {
-    return (*m_container)[m_index];
+    return S::subscr(*m_container, m_index);
 }
 
 
@@ -126,7 +126,7 @@ template<class C, class S>
 inline auto IndexIterator<C, S>::operator[](std::ptrdiff_t i) const
     noexcept(noexcept(S::subscr(std::declval<C&>(), 0))) -> reference
 {
-    return (*m_container)[m_index + i];
+    return S::subscr(*m_container, m_index + i);
 }
 
 
-- 
2.43.0


From 6a7b2cf8716947d2c313ce5b63c738155d165f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:27 +0000
Subject: [PATCH 30/41] fix: Negative distance between stride iterators was
 wrong

---
 src/archon/core/stride_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/core/stride_iterator.hpp b/src/archon/core/stride_iterator.hpp
index de2171d..7320228 100644
--- a/src/archon/core/stride_iterator.hpp
+++ b/src/archon/core/stride_iterator.hpp
@@ -200,7 +200,7 @@ template<class I, std::size_t S>
 template<class J> inline auto StrideIterator<I, S>::operator-(const StrideIterator<J, S>& other) const
     noexcept(noexcept((std::declval<const I&>() - std::declval<const J&>()) / S)) -> difference_type
 {
-    return difference_type((m_iter - other.m_iter) / S); // Throws
+    return difference_type((m_iter - other.m_iter) / difference_type(S)); // Throws
 }
 
 
-- 
2.43.0


From e271ce14b6797064ec535a8674204fde39678aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 31/41] fix: Negative screen index was passed on when
 retrieving screen configuration

---
 src/archon/display/x11_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index dbe787c..1971b0a 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -786,7 +786,7 @@ bool ConnectionImpl::try_get_screen_conf(int screen, core::Buffer<display::Viewp
 
 #if HAVE_XRANDR
     if (m_extension_info.have_xrandr) {
-        const ScreenSlot& slot = ensure_screen_slot(screen); // Throws
+        const ScreenSlot& slot = ensure_screen_slot(screen_2); // Throws
         const x11::ScreenConf& conf = slot.screen_conf;
         std::size_t n = conf.viewports.size();
         viewports.reserve(n); // Throws
-- 
2.43.0


From b79aad81438672b4e7577ccbbacfb18f609b0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 32/41] fix: Command-line actions passed as lvalues were moved
 from

---
 src/archon/cli/spec.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/cli/spec.hpp b/src/archon/cli/spec.hpp
index 2dc76e6..12ce08c 100644
--- a/src/archon/cli/spec.hpp
+++ b/src/archon/cli/spec.hpp
@@ -573,7 +573,7 @@ template<class C, class T, class A>
 inline void pat(core::Type<core::BasicVarStringRef<C, T>> pattern, int attr, cli::BasicSpec<C, T>& spec,
                 core::Type<core::BasicVarStringRef<C, T>> descr, A&& action)
 {
-    spec.add_pattern(std::move(pattern), attr, std::move(descr), std::move(action)); // Throws
+    spec.add_pattern(std::move(pattern), attr, std::move(descr), std::forward<A>(action)); // Throws
 }
 
 
@@ -582,7 +582,7 @@ inline void opt(core::Type<core::BasicVarStringRef<C, T>> forms, core::Type<core
                 int attr, cli::BasicSpec<C, T>& spec, core::Type<core::BasicVarStringRef<C, T>> descr, A&& action)
 {
     spec.add_option(std::move(forms), std::move(arg), attr, std::move(descr),
-                    std::move(action)); // Throws
+                    std::forward<A>(action)); // Throws
 }
 
 
-- 
2.43.0


From b7e212295eb65824895a894fc2e207c64831fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:42 +0000
Subject: [PATCH 33/41] fix: Seed sequence could not be moved after another one
 had been moved into it

---
 src/archon/core/random.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/archon/core/random.hpp b/src/archon/core/random.hpp
index f8c4540..8a64e0f 100644
--- a/src/archon/core/random.hpp
+++ b/src/archon/core/random.hpp
@@ -628,6 +628,8 @@ inline void SeedSeq::init(SeedSeq&& other) noexcept
     else {
         ARCHON_ASSERT(!other.m_seq_owner);
         ARCHON_ASSERT(other.m_seq.size() == 0);
+        m_seq_owner.reset();
+        m_seq = {};
         m_seq_seq = other.m_seq_seq;
         other.m_seq_seq = {};
     }
-- 
2.43.0


From 910db95b41e16b51e0ddd3647c080d0a8108666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:55 +0000
Subject: [PATCH 34/41] fix: Moving a palette map lost its number of components
 per color

---
 src/archon/display/noinst/palette_map.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/display/noinst/palette_map.cpp b/src/archon/display/noinst/palette_map.cpp
index e8391cd..35a6062 100644
--- a/src/archon/display/noinst/palette_map.cpp
+++ b/src/archon/display/noinst/palette_map.cpp
@@ -91,6 +91,7 @@ void PaletteMap::move_from(PaletteMap&& other) noexcept
 {
     m_color_space       = other.m_color_space;
     m_num_channels      = other.m_num_channels;
+    m_num_channels_ext  = other.m_num_channels_ext;
     m_size              = other.m_size;
     m_native_comp_repr  = other.m_native_comp_repr;
     m_num_components    = other.m_num_components;
-- 
2.43.0


From 393750cddcb3f964a687e50d994005c5c55e46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:44 +0000
Subject: [PATCH 35/41] fix: A copy of a signal blocker unblocked the signals
 while the original was still in place

---
 src/archon/core/signal_blocker.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/archon/core/signal_blocker.hpp b/src/archon/core/signal_blocker.hpp
index 91499e6..8565375 100644
--- a/src/archon/core/signal_blocker.hpp
+++ b/src/archon/core/signal_blocker.hpp
@@ -50,8 +50,11 @@ namespace archon::core {
 class SignalBlocker {
 public:
     SignalBlocker() noexcept;
+    SignalBlocker(const SignalBlocker&) = delete;
     ~SignalBlocker() noexcept;
 
+    auto operator=(const SignalBlocker&) -> SignalBlocker& = delete;
+
 private:
 #if !ARCHON_WINDOWS
     ::sigset_t m_orig_mask;
-- 
2.43.0


From be7352edbe6c24d58fe741455b44197f79909e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 36/41] fix: Scaled rendering size could be set only for font
 faces that are not scalable

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index b74e564..7e17b0a 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -256,7 +256,7 @@ public:
 
     void set_scaled_size(font::Size size) override
     {
-        if (ARCHON_LIKELY(!FT_IS_SCALABLE(m_face.face))) {
+        if (ARCHON_LIKELY(FT_IS_SCALABLE(m_face.face))) {
             FT_F26Dot6 width  = float_to_fixed_26p6(size.width);
             FT_F26Dot6 height = float_to_fixed_26p6(size.height);
             do_set_scaled_size(width, height); // Throws
-- 
2.43.0


From eefaef764420c619ad080dafe138f879d8bf7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:17 +0000
Subject: [PATCH 37/41] fix: No fixed rendering size was ever selected for font
 faces that are not scalable

---
 src/archon/font/loader_freetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index 7e17b0a..dbf6865 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -294,7 +294,7 @@ public:
             const FT_Bitmap_Size& entry = m_face.face->available_sizes[i];
             float_type diff = (core::square(size.width  - fixed_26p6_to_float(entry.x_ppem)) +
                                core::square(size.height - fixed_26p6_to_float(entry.y_ppem)));
-            if (ARCHON_LIKELY(fixed_size_index < 0 && diff >= min))
+            if (ARCHON_LIKELY(fixed_size_index >= 0 && diff >= min))
                 continue;
             min = diff;
             fixed_size_index = i;
-- 
2.43.0


From d93b07726899bdd207ca1e2d2dd3a531cfc3a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 38/41] fix: Selection of fixed rendering size always failed

---
 src/archon/font/loader_freetype.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/archon/font/loader_freetype.cpp b/src/archon/font/loader_freetype.cpp
index dbf6865..6ccc7db 100644
--- a/src/archon/font/loader_freetype.cpp
+++ b/src/archon/font/loader_freetype.cpp
@@ -633,6 +633,7 @@ private:
         if (ARCHON_LIKELY(err == 0)) {
             const FT_Bitmap_Size& entry = m_face.face->available_sizes[fixed_size_index];
             on_size_changed(entry.x_ppem, entry.y_ppem);
+            return;
         }
         throw std::runtime_error("FreeType: Failed to select fixed size");
     }
-- 
2.43.0


From b97ecd339748fe18f7522bfacf47ad96011e8706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 39/41] fix: Literal hash map could not be made with an lvalue
 hash function

---
 src/archon/core/literal_hash_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/core/literal_hash_map.hpp b/src/archon/core/literal_hash_map.hpp
index ec6bc13..7d79b6d 100644
--- a/src/archon/core/literal_hash_map.hpp
+++ b/src/archon/core/literal_hash_map.hpp
@@ -207,7 +207,7 @@ template<std::size_t M, class K, class V, std::size_t N, class H>
 constexpr auto make_literal_hash_map(const std::pair<K, V>(& assocs)[N], H&& hash_func) noexcept
 {
     constexpr std::size_t num_buckets = (M > 0 ? M : N);
-    core::LiteralHashMap<K, V, H, N, num_buckets> map(std::move(hash_func));
+    core::LiteralHashMap<K, V, std::decay_t<H>, N, num_buckets> map(std::forward<H>(hash_func));
     map.init(assocs);
     return map;
 }
@@ -224,7 +224,7 @@ template<std::size_t M, class K, class V, std::size_t N, class H>
 constexpr auto make_rev_literal_hash_map(const std::pair<V, K>(& assocs)[N], H&& hash_func) noexcept
 {
     constexpr std::size_t num_buckets = (M > 0 ? M : N);
-    core::LiteralHashMap<K, V, H, N, num_buckets> map(std::move(hash_func));
+    core::LiteralHashMap<K, V, std::decay_t<H>, N, num_buckets> map(std::forward<H>(hash_func));
     map.init_rev(assocs);
     return map;
 }
-- 
2.43.0


From 56a39be5544b0f3f95060608c365302a9c0139ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 40/41] fix: X11: scroll wheel steps were delivered twice (on
 press and on release)

---
 src/archon/display/x11_implementation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 1971b0a..012465f 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -1102,6 +1102,10 @@ bool ConnectionImpl::process_event_batch()
                 math::Vector2F amount;
                 if (ARCHON_LIKELY(try_map_mouse_button(ev.xbutton.button, is_scroll, button, amount))) {
                     if (ARCHON_LIKELY(is_scroll)) {
+                        // Each step of the scroll wheel is a button press followed by a
+                        // button release
+                        if (ev.type != ButtonPress)
+                            break;
                         display::ScrollEvent event;
                         event.cookie = window->cookie;
                         event.timestamp = unwrap_session.unwrap_next_timestamp(ev.xbutton.time); // Throws
-- 
2.43.0


From b31fb553422a466d2260941ed65481aa31b281e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:39 +0000
Subject: [PATCH 41/41] fix: Screen index assertions admitted one screen too
 many

---
 src/archon/display/x11_implementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archon/display/x11_implementation.cpp b/src/archon/display/x11_implementation.cpp
index 012465f..9d322d0 100644
--- a/src/archon/display/x11_implementation.cpp
+++ b/src/archon/display/x11_implementation.cpp
@@ -642,7 +642,7 @@ auto ConnectionImpl::ensure_image_bridge(const XVisualInfo& visual_info,
 {
     int screen = visual_info.screen;
     ARCHON_ASSERT(m_screen_slots);
-    ARCHON_ASSERT(screen >= 0 && screen <= ScreenCount(dpy));
+    ARCHON_ASSERT(screen >= 0 && screen < ScreenCount(dpy));
     ScreenSlot& screen_slot = m_screen_slots[screen];
     core::Pair key = { visual_info.depth, visual_info.visualid };
     auto i = screen_slot.image_bridges.find(key);
@@ -836,7 +836,7 @@ inline auto ConnectionImpl::intern_string(const char* string) noexcept -> Atom
 auto ConnectionImpl::ensure_screen_slot(int screen) const -> ScreenSlot&
 {
     ARCHON_ASSERT(m_screen_slots);
-    ARCHON_ASSERT(screen >= 0 && screen <= ScreenCount(dpy));
+    ARCHON_ASSERT(screen >= 0 && screen < ScreenCount(dpy));
     ScreenSlot& slot = m_screen_slots[screen];
     if (ARCHON_UNLIKELY(!slot.is_initialized)) {
         ::Window root = RootWindow(dpy, screen);
-- 
2.43.0

