From d53118df31c8ec419422f80c49753ea93058cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 01/48] fix: basic_linear_buffer::insert corrupts the buffer
 when no reallocation is needed

The existing bytes have to move behind the inserted ones, not the other
way around.
---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From ddd28e0d2119fe734a4c514c6a01df8d909ddac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 02/48] fix: basic_linear_buffer move assignment leaks,
 recurses endlessly and keeps the source

Release the target's own memory before taking over another buffer's, use
the stealing overload (instead of calling itself) for equal allocators,
and leave the source empty when the data has to be copied. Self-move
assignment no longer loses the data.
---
 include/asioext/impl/linear_buffer.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..b312383 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -154,15 +154,21 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
 {
   if (static_cast<allocator_type&>(rep_) !=
       static_cast<allocator_type&>(other.rep_)) {
-    if (rep_.data_)
-      allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
-
-    capacity_ = other.capacity_;
+    // We can't take over the memory, so copy the data.
+    reallocate(other.capacity_, [&other] (uint8_t* new_buffer) {
+      if (other.size_ != 0)
+        std::memcpy(new_buffer, other.rep_.data_, other.size_);
+    });
     size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
+    max_size_ = other.max_size_;
+
+    if (other.rep_.data_)
+      allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
+                                        other.capacity_);
+    other.rep_.data_ = nullptr;
+    other.capacity_ = other.size_ = 0;
   } else {
-    move_assign(other, std::false_type());
+    move_assign(other, std::true_type());
   }
 }
 
@@ -171,6 +177,12 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
   ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
 {
+  if (this == &other)
+    return;
+
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
   rep_.data_ = other.rep_.data_;
-- 
2.43.0


From 2f04c553990bde3352c19fd5d2a89e29549c0455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 03/48] fix: basic_linear_buffer passes a null pointer to the
 allocator's deallocate()

Only memory that came from allocate() may be given back.
---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index b312383..0ee3a02 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -199,7 +199,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From 661e7b50b3cc782a3b6b18429c366ff9e580b8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 04/48] fix: dynamic_linear_buffer::data() exposes memory
 outside the buffer before prepare()

Until the first prepare() the size of the input sequence is that of the
underlying buffer; size_ only holds a marker value.
---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..a57d091 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -522,7 +522,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -535,7 +535,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From c8caa221b4a23b7abf0a77f6b9bd1f880e771bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 05/48] fix: dynamic_linear_buffer::data(pos, n) overflows for
 large n

pos + n wraps around, so the returned region could exceed the buffer.
---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index a57d091..6f32c67 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -558,7 +558,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -579,7 +579,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From 344db92b277b99420481bd98f2a8f5b7213fb091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 06/48] fix: basic_file constructors taking a native handle do
 not compile

---
 include/asioext/basic_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index f139c04..742377d 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -149,7 +149,7 @@ public:
     : holder_(ex)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
@@ -168,7 +168,7 @@ public:
     : holder_(context)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
-- 
2.43.0


From 4a26c77fd4658714139eb8199dc32530b153680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 07/48] fix: thread_pool_file_service::cancel does not clear
 the error code

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..eb0c872 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -258,6 +258,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
   }
 
   impl.cancel_token_.cancel();
+  ec = error_code();
   // TODO(tim): log handler operation
 }
 
-- 
2.43.0


From 7ba02e1560ef43a3b9441e7a95eb807f3b0ca839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 08/48] fix: a moved-from file aborts every operation started
 on it later

Moving the cancellation_token_source leaves the source destroyed, so all
operations of a moved-from (and re-opened) file were cancelled.
---
 include/asioext/impl/thread_pool_file_service.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index eb0c872..59f15bd 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -50,6 +50,8 @@ void thread_pool_file_service::move_construct(
 
   impl.cancel_token_ =
       ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  // The moved-from file stays usable.
+  other_impl.cancel_token_.reset();
 
   // Insert implementation into linked list of all implementations.
   detail::mutex::scoped_lock lock(mutex_);
-- 
2.43.0


From eef59111f7eb2f451014de4cbf4ebe693d24a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 09/48] fix: file move assignment does not move the
 cancellation token

The target's token source was left destroyed if it was open, so all its
later operations were aborted, and the source's pending operations could
not be cancelled through the target.
---
 include/asioext/impl/thread_pool_file_service.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 59f15bd..8e73a54 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -84,6 +84,11 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+  // The moved-from file stays usable.
+  other_impl.cancel_token_.reset();
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
-- 
2.43.0


From 690f57abe7482e447edb027e93b6123d346292ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 10/48] fix: closing a file leaves its outstanding operations
 running

They would use the closed (and possibly re-used) descriptor.
---
 include/asioext/impl/thread_pool_file_service.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 8e73a54..03c4937 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -173,6 +173,11 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Outstanding operations must not touch the descriptor once it's closed
+  // as the system might have re-used it already.
+  if (impl.handle_.is_open())
+    impl.cancel_token_.cancel();
+
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From 6e9d25dbb24749818437e6a61f1139878ba747ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 11/48] fix: destroying a file terminates the program if
 close() fails

---
 include/asioext/impl/thread_pool_file_service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 03c4937..9972794 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -279,7 +279,8 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+    error_code ignored_ec;
+    impl.handle_.close(ignored_ec);
   }
 }
 
-- 
2.43.0


From 607109bb64ff4c77a007d8eda7b6682d084b1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 12/48] fix: file operations ignore the file's executor

Handlers without an associated executor were always run by the io_context's
own executor instead of the I/O executor the file was constructed with.
---
 include/asioext/basic_file.hpp | 44 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index 742377d..ddbbbef 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -26,6 +26,14 @@
 
 #include "asioext/detail/throw_error.hpp"
 
+#if defined(ASIOEXT_USE_BOOST_ASIO)
+# include <boost/asio/associated_executor.hpp>
+# include <boost/asio/bind_executor.hpp>
+#else
+# include <asio/associated_executor.hpp>
+# include <asio/bind_executor.hpp>
+#endif
+
 #if defined(ASIOEXT_HAS_BOOST_FILESYSTEM) || defined(ASIOEXT_IS_DOCUMENTATION)
 # include <boost/filesystem/path.hpp>
 #endif
@@ -1102,8 +1110,11 @@ public:
   async_read_some(const MutableBufferSequence& buffers,
                   ReadHandler&& handler)
   {
-    return holder_.get_service().async_read_some(holder_.get_implementation(),
-        buffers, std::forward<ReadHandler>(handler));
+    return async_initiate<ReadHandler, void(error_code, std::size_t)>(
+        [this](auto&& h, const MutableBufferSequence& b) {
+          holder_.get_service().async_read_some(holder_.get_implementation(),
+              b, bind_default_executor(std::forward<decltype(h)>(h)));
+        }, handler, buffers);
   }
 
   /// @}
@@ -1157,8 +1168,11 @@ public:
   async_write_some(const ConstBufferSequence& buffers,
                    WriteHandler&& handler)
   {
-    return holder_.get_service().async_write_some(holder_.get_implementation(),
-        buffers, std::forward<WriteHandler>(handler));
+    return async_initiate<WriteHandler, void(error_code, std::size_t)>(
+        [this](auto&& h, const ConstBufferSequence& b) {
+          holder_.get_service().async_write_some(holder_.get_implementation(),
+              b, bind_default_executor(std::forward<decltype(h)>(h)));
+        }, handler, buffers);
   }
 
   /// @}
@@ -1212,8 +1226,11 @@ public:
                      const MutableBufferSequence& buffers,
                      ReadHandler&& handler)
   {
-    return holder_.get_service().async_read_some_at(holder_.get_implementation(),
-        offset, buffers, std::forward<ReadHandler>(handler));
+    return async_initiate<ReadHandler, void(error_code, std::size_t)>(
+        [this](auto&& h, uint64_t o, const MutableBufferSequence& b) {
+          holder_.get_service().async_read_some_at(holder_.get_implementation(),
+              o, b, bind_default_executor(std::forward<decltype(h)>(h)));
+        }, handler, offset, buffers);
   }
 
   /// @}
@@ -1265,13 +1282,24 @@ public:
                       const ConstBufferSequence& buffers,
                       WriteHandler&& handler)
   {
-    return holder_.get_service().async_write_some_at(holder_.get_implementation(),
-        offset, buffers, std::forward<WriteHandler>(handler));
+    return async_initiate<WriteHandler, void(error_code, std::size_t)>(
+        [this](auto&& h, uint64_t o, const ConstBufferSequence& b) {
+          holder_.get_service().async_write_some_at(holder_.get_implementation(),
+              o, b, bind_default_executor(std::forward<decltype(h)>(h)));
+        }, handler, offset, buffers);
   }
 
   /// @}
 
 private:
+  // Handlers without an associated executor use the file's executor.
+  template <typename Handler>
+  auto bind_default_executor(Handler&& handler)
+  {
+    auto ex = asio::get_associated_executor(handler, holder_.get_executor());
+    return asio::bind_executor(ex, std::forward<Handler>(handler));
+  }
+
   io_object_holder<FileService, Executor> holder_;
 };
 
-- 
2.43.0


From 26dd3d75a06906b1fb2c2ac75771334f190ecc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 13/48] fix: pending file handlers are destroyed after the
 services they depend on

Handlers waiting in the service's thread pool were only destroyed together
with the pool: after its mutex, and after services created later than the
file service. A handler owning a file or e.g. a socket thus used destroyed
objects when its io_context was destroyed.
---
 .../asioext/impl/thread_pool_file_service.cpp | 14 +++++++-----
 include/asioext/thread_pool_file_service.hpp  | 22 +++++++++++++++++--
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 9972794..6a67efb 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -13,19 +13,23 @@ ASIOEXT_NS_BEGIN
 thread_pool_file_service::thread_pool_file_service(
     asio::io_context& owner, std::size_t num_threads)
   : io_context_service_base(owner)
-  , pool_(num_threads)
   , impl_list_(0)
+  , pool_(num_threads)
 {
 }
 
 void thread_pool_file_service::shutdown_service()
 {
   // Close all implementations, causing all operations to complete.
-  detail::mutex::scoped_lock lock(mutex_);
-  for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
-    close_for_destruction(*cur);
+  {
+    detail::mutex::scoped_lock lock(mutex_);
+    for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
+      close_for_destruction(*cur);
+  }
 
-  pool_.stop();
+  // Handlers may own objects that use this or other services, so they have to
+  // be destroyed while those still exist.
+  pool_.destroy_handlers();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..7d4a76f 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -294,14 +294,32 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
-  // The thread pool.
-  asio::thread_pool pool_;
+  // asio::thread_pool that can destroy its handlers before it is destroyed.
+  class thread_pool : public asio::thread_pool
+  {
+  public:
+    explicit thread_pool(std::size_t num_threads)
+      : asio::thread_pool(num_threads)
+    {
+      // ctor
+    }
+
+    void destroy_handlers()
+    {
+      stop();
+      join();
+      shutdown();
+    }
+  };
 
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
 
   // The head of a linked list of all implementations.
   implementation_type* impl_list_;
+
+  // The thread pool.
+  thread_pool pool_;
 };
 
 ASIOEXT_NS_END
-- 
2.43.0


From a21bb7c168511b0623a97e436cdd08ebf402ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 14/48] fix: cancelling a destroyed cancellation_token_source
 revives it

Likewise reset() cancelled the tokens of a source that wasn't destroyed:
shared_ptr's operator bool is always false here as only null is stored.
---
 include/asioext/impl/cancellation_token.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..4b93ad2 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -45,7 +45,10 @@ cancellation_token_source& cancellation_token_source::operator=(
 
 void cancellation_token_source::cancel()
 {
-  ptr_.reset(static_cast<void*>(0), detail::null_deleter());
+  // A destroyed source stays destroyed until reset() is called.
+  // Note: ptr_ always stores a null pointer, only its ownership matters.
+  if (ptr_.use_count() != 0)
+    ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
 void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
@@ -55,7 +58,7 @@ void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
 
 void cancellation_token_source::reset()
 {
-  if (!ptr_)
+  if (ptr_.use_count() == 0)
     ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
-- 
2.43.0


From 035f16cad38ef314c417a77a698abb563bfd11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 15/48] fix: bound handlers release their work before invoking
 the handler

bind_handler() and complete_to_bound_handler() promise to keep it until
after the handler has been invoked.
---
 include/asioext/detail/bound_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index 3215d3e..e357a14 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -121,8 +121,8 @@ public:
     ASIOEXT_NOEXCEPT_IF(noexcept(asioext::detail::invoke(
           handler_, args_, args_indices_type{})))
   {
-    this->reset(); // defined in Work
     asioext::detail::invoke(handler_, args_, args_indices_type{});
+    this->reset(); // defined in Work
   }
 };
 
-- 
2.43.0


From c743aca0806f56340a6f2959307668f521aaef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 16/48] fix: move assignment of files does not compile

---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From d6090f5172f151680d9820f9cf1cf4b1550b8c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:12 +0000
Subject: [PATCH 17/48] fix: assigning a handler to a unique_handler does not
 compile

---
 include/asioext/unique_handler.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..95762ab 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -139,12 +139,12 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    auto storage = storage_;
     storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
+                                               std::decay_t<Handler>>(handler))
+        storage_impl<std::decay_t<Handler>>(handler);
+    if (storage)
+      storage->abort(storage);
     return *this;
   }
 
-- 
2.43.0


From 53bfca1c80b4791a7e7f4397d720e95fea029c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 18/48] fix: unique_handler move assignment is not re-entrant

---
 include/asioext/unique_handler.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 95762ab..43c93c5 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -16,6 +16,8 @@
 
 #include "asioext/associated_allocator.hpp"
 
+#include <utility>
+
 ASIOEXT_NS_BEGIN
 
 namespace detail {
@@ -119,11 +121,12 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
-    storage_ = other.storage_;
-    other.storage_ = nullptr;
+    // Destroying a handler runs user-code that might use this object.
+    auto storage = storage_;
+    storage_ = nullptr;
+    std::swap(storage_, other.storage_);
+    if (storage)
+      storage->abort(storage);
     return *this;
   }
 
-- 
2.43.0


From fabdfde0e341282c65fc3b5844e16ed6bc9ee439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 19/48] fix: make_composed_operation moves from its lvalue
 arguments

---
 include/asioext/compose.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/compose.hpp b/include/asioext/compose.hpp
index 70dc95b..dec58bd 100644
--- a/include/asioext/compose.hpp
+++ b/include/asioext/compose.hpp
@@ -97,9 +97,9 @@ composed_operation<
     typename std::decay<Handler>::type,
     typename std::decay<Impl>::type,
     typename std::decay<Work>::type
-  >(std::move(handler),
-    std::move(impl),
-    std::move(work));
+  >(std::forward<Handler>(handler),
+    std::forward<Impl>(impl),
+    std::forward<Work>(work));
 }
 
 template <typename IoObject, typename = typename std::enable_if<
-- 
2.43.0


From db254758121b6d6789707f626cf31a5a0c045fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 20/48] fix: buffered_stream does not compile without
 Boost.System

---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From e79a9df4335cbbf5ef01e88171fe48a01eb1b397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 21/48] fix: buffered_stream::can_flush ignores data left over
 by a failed flush

---
 include/asioext/experimental/buffered_stream.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..1980be0 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -132,7 +132,8 @@ public:
 
   bool can_flush() const ASIOEXT_NOEXCEPT
   {
-    return !flush_pending_ && !write_buffer_.empty();
+    return !flush_pending_ &&
+           !(write_buffer_.empty() && write_buffer_locked_.empty());
   }
 
   bool flush_pending() const ASIOEXT_NOEXCEPT { return flush_pending_; }
-- 
2.43.0


From fe7f6dc09c328d434aac261920cd049f8db5c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:11 +0000
Subject: [PATCH 22/48] fix: buffered_stream::flush fails forever if the
 error_code was set before

---
 include/asioext/experimental/buffered_stream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 1980be0..8d9cb12 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -333,6 +333,8 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
     return nullptr;
   }
 
+  ec = error_code();
+
   if (write_buffer_locked_.size() == 0) {
     // Don't swap if there's nothing in either buffer (we'll do a zero-sized
     // write in this case, which doesn't hurt us and simplifies the call-site).
-- 
2.43.0


From 14c2db9fa1d23cdae0b628d7271c5b1718e184f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 23/48] fix: interrupted ftruncate() and fchmod() calls are
 reported to the caller

---
 include/asioext/detail/impl/posix_file_ops.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..3cf74d9 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -326,7 +326,12 @@ uint64_t size(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 void size(handle_type fd, uint64_t new_size, error_code& ec) ASIOEXT_NOEXCEPT
 {
-  if (::ftruncate(fd, static_cast<off_t>(new_size)) == 0)
+  int r;
+  do {
+    r = ::ftruncate(fd, static_cast<off_t>(new_size));
+  } while (r == -1 && errno == EINTR);
+
+  if (r == 0)
     ec = error_code();
   else
     set_error(ec, errno);
@@ -380,7 +385,12 @@ void permissions(handle_type fd, file_perms perms, file_perm_options opts,
       mode = st.st_mode & ~mode;
   }
 
-  if (::fchmod(fd, mode) == 0)
+  int r;
+  do {
+    r = ::fchmod(fd, mode);
+  } while (r == -1 && errno == EINTR);
+
+  if (r == 0)
     ec = error_code();
   else
     set_error(ec, errno);
-- 
2.43.0


From d11913c4101cd3e79a3f441fe39584be23ee348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:53 +0000
Subject: [PATCH 24/48] fix: set_uid, set_gid and sticky_bit permissions are
 silently dropped

---
 include/asioext/detail/impl/posix_file_ops.cpp | 4 ++--
 include/asioext/impl/open_args.hpp             | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3cf74d9..e41447f 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -362,7 +362,7 @@ file_perms permissions(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
   struct stat st;
   if (::fstat(fd, &st) == 0) {
     ec = error_code();
-    return static_cast<file_perms>(st.st_mode) & file_perms::all;
+    return static_cast<file_perms>(st.st_mode) & file_perms::mask;
   }
   set_error(ec, errno);
   return file_perms::none;
@@ -371,7 +371,7 @@ file_perms permissions(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 void permissions(handle_type fd, file_perms perms, file_perm_options opts,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
-  mode_t mode = static_cast<mode_t>(perms & file_perms::all);
+  mode_t mode = static_cast<mode_t>(perms & file_perms::mask);
   if ((opts & (file_perm_options::add | file_perm_options::remove)) !=
       static_cast<file_perm_options>(0)) {
     struct stat st;
diff --git a/include/asioext/impl/open_args.hpp b/include/asioext/impl/open_args.hpp
index fb6fd43..0629355 100644
--- a/include/asioext/impl/open_args.hpp
+++ b/include/asioext/impl/open_args.hpp
@@ -37,7 +37,7 @@ inline open_args::open_args(open_flags flags, file_perms perms,
     detail::win_file_ops::parse_open_flags(flags, perms, attrs, *this);
 #else
     native_flags_ = detail::posix_file_ops::parse_open_flags(flags);
-    mode_ = static_cast<uint32_t>(perms & file_perms::all);
+    mode_ = static_cast<uint32_t>(perms & file_perms::mask);
     attrs_ = detail::posix_file_ops::file_attrs_to_native(attrs);
 #endif
   } else {
-- 
2.43.0


From 15dd9f9236b96ab2efc75e9049b0585b9a6d2c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 25/48] fix: opening a file with contradictory flags calls
 open() with garbage

---
 include/asioext/detail/impl/posix_file_ops.cpp | 5 +++++
 include/asioext/impl/open_args.hpp             | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index e41447f..bfa8b44 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -240,6 +240,11 @@ int parse_open_flags(open_flags flags) ASIOEXT_NOEXCEPT
 handle_type open(const char* path, const open_args& args,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
+  if (!args.is_valid()) {
+    set_error(ec, EINVAL);
+    return -1;
+  }
+
   mode_t mode = static_cast<mode_t>(args.mode());
   while (true) {
     handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
diff --git a/include/asioext/impl/open_args.hpp b/include/asioext/impl/open_args.hpp
index 0629355..d60ffed 100644
--- a/include/asioext/impl/open_args.hpp
+++ b/include/asioext/impl/open_args.hpp
@@ -45,6 +45,8 @@ inline open_args::open_args(open_flags flags, file_perms perms,
     creation_disposition_ = 0xffffffff;
 #else
     native_flags_ = -1;
+    mode_ = 0;
+    attrs_ = 0;
 #endif
   }
 }
-- 
2.43.0


From 61ba81c39daa693ab5f4a30adb41a0e48a4c7ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 26/48] fix: the standard stream functions do not clear the
 error_code

---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index bfa8b44..f4c2a08 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -304,16 +304,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 779220e7589f4b78e84a014e3144a8c95421abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:50 +0000
Subject: [PATCH 27/48] fix: duplicated handles are inherited by child
 processes

---
 include/asioext/detail/impl/posix_file_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index f4c2a08..7ab979a 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -292,7 +292,7 @@ void close(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 {
-  const int new_fd = ::dup(fd);
+  const int new_fd = ::fcntl(fd, F_DUPFD_CLOEXEC, 0);
   if (new_fd != -1) {
     ec = error_code();
     return new_fd;
-- 
2.43.0


From 97c3f90730876e0ae3865fb1e4b890a5fecad441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 28/48] fix: times before 1970 can't be read

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..1ec1a35 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -161,7 +161,7 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
       first.count() == values_type::min_first() - 1) {
     if (second.count() < values_type::min_second())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From 184b8a0a28e2d6ce4adcd23e68b42f846554f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 29/48] fix: read_file terminates the program if the container
 can't be resized

---
 include/asioext/impl/read_file.hpp | 3 +--
 include/asioext/read_file.hpp      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..5e32555 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -99,8 +99,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+    read_file(file_handle file, RawByteContainer& c, error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..9756022 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -151,8 +151,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 /// the object is reset.
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
-    read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+    read_file(file_handle file, RawByteContainer& c, error_code& ec);
 
 /// @}
 
-- 
2.43.0


From ec9b9a5166e48801988d8ea238f896cb500352ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 30/48] fix: write_file ignores errors reported by close()

---
 include/asioext/impl/write_file.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/asioext/impl/write_file.hpp b/include/asioext/impl/write_file.hpp
index e7adef3..0c30151 100644
--- a/include/asioext/impl/write_file.hpp
+++ b/include/asioext/impl/write_file.hpp
@@ -41,8 +41,11 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
   unique_file_handle file = open(filename,
                                  open_flags::access_write |
                                  open_flags::create_always, ec);
+  if (ec)
+    return;
+  asio::write(file, buffers, ec);
   if (!ec)
-    asio::write(file, buffers, ec);
+    file.close(ec); // might report delayed write errors
 }
 
 #if defined(ASIOEXT_WINDOWS)  || defined(ASIOEXT_IS_DOCUMENTATION)
@@ -63,8 +66,11 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
   unique_file_handle file = open(filename,
                                  open_flags::access_write |
                                  open_flags::create_always, ec);
+  if (ec)
+    return;
+  asio::write(file, buffers, ec);
   if (!ec)
-    asio::write(file, buffers, ec);
+    file.close(ec); // might report delayed write errors
 }
 #endif
 
@@ -88,8 +94,11 @@ ASIOEXT_DETAIL_WRITEFILE_BUF_RET(ConstBufferSequence)
   unique_file_handle file = open(filename,
                                  open_flags::access_write |
                                  open_flags::create_always, ec);
+  if (ec)
+    return;
+  asio::write(file, buffers, ec);
   if (!ec)
-    asio::write(file, buffers, ec);
+    file.close(ec); // might report delayed write errors
 }
 #endif
 
-- 
2.43.0


From 2024be123e6ccf4d8dacddd1dcbbc5c79f9c6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:37 +0000
Subject: [PATCH 31/48] fix: send SOCKS4a requests for SOCKS4a commands

v4_exec_op wrote a SOCKS5 request into a buffer sized for a SOCKS4a one
(overflowing it for some targets), without the user id and, for host
names, without the port.
---
 include/asioext/socks/detail/client.hpp | 2 +-
 include/asioext/socks/impl/client.hpp   | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..e7729ac 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..28a3637 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,8 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id,
+          buffer),
       handler, socket
   );
 }
@@ -40,7 +41,8 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id,
+          buffer),
       handler, socket
   );
 }
-- 
2.43.0


From 00603e68ec3b15cc604b04df59a5a5d74916fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 32/48] fix: reject SOCKS4a user ids and host names with
 embedded NULs

They end the respective field early, so that the rest is taken for the
following one: the request names a different user, target or contains
trailing data.
---
 include/asioext/socks/detail/impl/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index 008834e..62aae95 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -19,6 +19,11 @@ std::size_t get_exec_packet_size(const asio::ip::tcp::endpoint& remote,
   if (remote_host.empty() && remote.protocol() != asio::ip::tcp::v4())
     return 0;
 
+  // Both strings are sent NUL-terminated.
+  if (user_id.find('\0') != std::string::npos ||
+      remote_host.find('\0') != std::string::npos)
+    return 0;
+
   std::size_t size = 1 + 1 + 2 + 4;
   size += user_id.size() + 1;
 
-- 
2.43.0


From a901d207e5091c683eb041c50d95d85e755b984b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 33/48] fix: report SOCKS refusals with unknown status codes

Any status other than the listed ones, including SOCKS5's 'general SOCKS
server failure', was taken for success.
---
 include/asioext/socks/detail/client.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index e7729ac..028318e 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
@@ -358,6 +359,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From ea4d7d96c37278d9b4d7ff2ac70d14e5c09c0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 34/48] fix: fail on SOCKS5 replies with an unknown address
 type

The length of such a reply isn't known. The operation went on to read as
many bytes as the previous read had transferred, plus two, and succeeded.
---
 include/asioext/socks/detail/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 028318e..1f4f849 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -382,6 +382,10 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      default: {
+        self.complete(error::generic);
+        return;
+      }
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From 5bcd80c8219a424a53d2d083606586489c898131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 35/48] fix: reject empty SOCKS host names

A request for the host name "" was sent as one for 0.0.0.0 (and, with
SOCKS5, port 0).
---
 include/asioext/socks/detail/client.hpp | 28 ++++++++++++++++++++-----
 include/asioext/socks/impl/client.hpp   | 10 +++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 1f4f849..77afd5d 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -280,11 +280,34 @@ class v5_exec_op : asio::coroutine
 public:
   v5_exec_op(Socket& socket, command cmd,
              const asio::ip::tcp::endpoint& remote,
+             DynamicBuffer& buffer)
+    : socket_(socket)
+    , buffer_(ASIOEXT_MOVE_CAST(DynamicBuffer)(buffer))
+  {
+    prepare_packet(cmd, remote, std::string(), 0);
+  }
+
+  v5_exec_op(Socket& socket, command cmd,
              const std::string& remote_host,
              uint16_t port,
              DynamicBuffer& buffer)
     : socket_(socket)
     , buffer_(ASIOEXT_MOVE_CAST(DynamicBuffer)(buffer))
+  {
+    // Without a host name this would be a request for the unspecified address.
+    if (!remote_host.empty())
+      prepare_packet(cmd, asio::ip::tcp::endpoint(), remote_host, port);
+  }
+
+  template <typename Self>
+  void operator()(Self& self, error_code ec = error_code(),
+                  std::size_t size = 0);
+
+private:
+  void prepare_packet(command cmd,
+                      const asio::ip::tcp::endpoint& remote,
+                      const std::string& remote_host,
+                      uint16_t port)
   {
     const std::size_t size =
         get_exec_packet_size(cmd, remote, remote_host, port);
@@ -297,11 +320,6 @@ public:
     }
   }
 
-  template <typename Self>
-  void operator()(Self& self, error_code ec = error_code(),
-                  std::size_t size = 0);
-
-private:
   Socket& socket_;
   DynamicBuffer buffer_;
   uint8_t address_type_;
diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index 28a3637..9eb6b89 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -40,9 +40,11 @@ async_execute(Socket& socket, command cmd,
               ASIOEXT_MOVE_ARG(ExecuteHandler) handler)
 {
   return async_compose<ExecuteHandler, void (error_code)>(
+      // If there's no host name, an IPv6 endpoint makes the operation fail
+      // instead of requesting the unspecified address.
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id,
-          buffer),
+          socket, cmd, asio::ip::tcp::endpoint(asio::ip::tcp::v6(), port),
+          remote, port, user_id, buffer),
       handler, socket
   );
 }
@@ -88,7 +90,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v5_exec_op<Socket, DynamicBuffer>(
-        socket, cmd, remote, std::string(), 0, buffer),
+        socket, cmd, remote, buffer),
       handler, socket
   );
 }
@@ -102,7 +104,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v5_exec_op<Socket, DynamicBuffer>(
-        socket, cmd, asio::ip::tcp::endpoint(), remote, port, buffer),
+        socket, cmd, remote, port, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From 58cace9c866a6e8b1df4eb80076b8490f22e4eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 36/48] fix: make url_view usable in header-only mode

Its implementation file was only part of the separately compiled library.
---
 include/asioext/url_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/url_view.hpp b/include/asioext/url_view.hpp
index 613c9dd..852f747 100644
--- a/include/asioext/url_view.hpp
+++ b/include/asioext/url_view.hpp
@@ -52,4 +52,8 @@ private:
 
 ASIOEXT_NS_END
 
+#if defined(ASIOEXT_HEADER_ONLY)
+# include "asioext/impl/url_view.cpp"
+#endif
+
 #endif
-- 
2.43.0


From 84bf802de33b1007248b4096bfba6ab3d6d32085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 37/48] fix: reject URLs with an unterminated IP literal

http://[::1 was accepted with the host '[::1'.
---
 include/asioext/detail/impl/url_parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index d67c6c5..7cff3ca 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -205,6 +205,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
   }
 
   if (*first == '[') {
+    bool is_terminated = false;
     auto start = first++; // include '['
     for (bool is_zone_spec = false; first != last; ++first) {
       const char ch = *first;
@@ -228,6 +229,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       }
 
       if (ch == ']') {
+        is_terminated = true;
         ++first;
         break;
       }
@@ -237,6 +239,11 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       return;
     }
 
+    if (!is_terminated) {
+      ec = make_error_code(url_error::invalid_character);
+      return;
+    }
+
     out.host = std::string_view(start, first - start);
   } else {
     auto start = first;
-- 
2.43.0


From 4d21caf9151ff348aad817cd92c879a78f16ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 38/48] fix: reject URLs that consist of a scheme name only

example was accepted as an URL with the scheme 'example'.
---
 include/asioext/detail/impl/url_parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index 7cff3ca..ea65916 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -462,6 +462,12 @@ void parse_url(const char* first, const char* last, parsed_url& out,
     }
   }
 
+  // A scheme that isn't followed by ':'
+  if (s == url_state::scheme) {
+    ec = make_error_code(url_error::invalid_character);
+    return;
+  }
+
   if (current_part)
     *current_part = std::string_view(first, it - first);
 
-- 
2.43.0


From d5a743869e43c5a3a1e747132cca2112c1af9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 39/48] fix: keep the path of URLs like file:/

---
 include/asioext/detail/impl/url_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index ea65916..de0c78a 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -471,6 +471,10 @@ void parse_url(const char* first, const char* last, parsed_url& out,
   if (current_part)
     *current_part = std::string_view(first, it - first);
 
+  // 'scheme:/' - the single '/' is the path
+  if (s == url_state::scheme_suffix_slash)
+    out.path = std::string_view(last - 1, 1);
+
   ec = error_code();
   if (!out.host.empty()) {
     // until this point the entire authority section is stored in |host|
-- 
2.43.0


From a94a610750483d3650da1cdec2d68b66777b2b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 40/48] fix: don't keep components of URLs that were rejected

---
 include/asioext/impl/url_view.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/url_view.cpp b/include/asioext/impl/url_view.cpp
index aaf24fe..b036b83 100644
--- a/include/asioext/impl/url_view.cpp
+++ b/include/asioext/impl/url_view.cpp
@@ -21,8 +21,10 @@ url_view::url_view(std::string_view s, error_code& ec)
   : spec_(s)
 {
   detail::parse_url(s.data(), s.data() + s.size(), url_, ec);
-  if (ec)
+  if (ec) {
     spec_ = std::string_view();
+    url_ = detail::parsed_url();
+  }
 }
 
 std::string_view url_view::port() const ASIOEXT_NOEXCEPT
-- 
2.43.0


From 643c78d5ca6e9e2bf61a37ab4470e4b2fd6b5c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 41/48] fix: connect() reports not_found if the name resolved
 to no endpoints, as documented

---
 include/asioext/impl/connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/connect.cpp b/include/asioext/impl/connect.cpp
index 387eb97..f69f599 100644
--- a/include/asioext/impl/connect.cpp
+++ b/include/asioext/impl/connect.cpp
@@ -33,7 +33,7 @@ void connect(asio::ip::tcp::socket::lowest_layer_type& socket,
     return;
 
   // Try each endpoint until we successfully establish a connection.
-  ec = asio::error::host_not_found;
+  ec = asio::error::not_found;
   for (const auto& entry : results) {
     socket.close(ec);
     socket.connect(entry, ec);
-- 
2.43.0


From e9044f946375e5a26ece6abb72f5e814ad19b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:41 +0000
Subject: [PATCH 42/48] fix: safe_duration_cast() detects overflow of the
 intermediate product

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1ec1a35..1817eba 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -50,7 +50,7 @@ ASIOEXT_CONSTEXPR14 bool safe_duration_cast(
       return true;
     }
   } else {
-    if (in.count() < (conv_limit::min)() / result_ratio::num &&
+    if (in.count() < (conv_limit::min)() / result_ratio::num ||
         in.count() > (conv_limit::max)() / result_ratio::num)
       return false;
     const conv_type temp = static_cast<conv_type>(in.count()) *
-- 
2.43.0


From 131db747effc04334c96b64010882f8b37b3bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 43/48] fix: compose_time() and decompose_time() compute with
 types wide enough for the clock

---
 include/asioext/detail/impl/chrono.hpp | 32 +++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index 1817eba..c29845e 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -83,16 +83,23 @@ struct time_pair_values
       ASIOEXT_NOEXCEPT
   { return (std::numeric_limits<typename SecondDuration::rep>::min)(); }
 
+  // |FirstDuration| and |SecondDuration| might be too narrow for the
+  // limits of |Duration|.
+  typedef chrono::duration<common_type, typename FirstDuration::period>
+    first_type;
+  typedef chrono::duration<common_type, typename SecondDuration::period>
+    second_type;
+
   static ASIOEXT_CONSTEXPR common_type max_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::max)()).count(); }
+  { return chrono::duration_cast<first_type>((Duration::max)()).count(); }
 
   static ASIOEXT_CONSTEXPR common_type min_first() ASIOEXT_NOEXCEPT
-  { return chrono::duration_cast<FirstDuration>((Duration::min)()).count(); }
+  { return chrono::duration_cast<first_type>((Duration::min)()).count(); }
 
   static ASIOEXT_CONSTEXPR common_type max_second() ASIOEXT_NOEXCEPT
   {
-    return chrono::duration_cast<SecondDuration>(
-        (Duration::max)() - FirstDuration(max_first())).count();
+    return chrono::duration_cast<second_type>(
+        (Duration::max)() - first_type(max_first())).count();
   }
 
   static ASIOEXT_CONSTEXPR common_type min_second() ASIOEXT_NOEXCEPT
@@ -100,9 +107,9 @@ struct time_pair_values
     // For negative |first|s, we use (first + 1f) - (1f - |second|)
     // so the smallest |second| we can accept for |min_f - 1| is
     // 1f + clock_min - min_f
-    return chrono::duration_cast<SecondDuration>(
-        (Duration::min)() - FirstDuration(min_first()) +
-        FirstDuration(1)).count();
+    return chrono::duration_cast<second_type>(
+        (Duration::min)() - first_type(min_first()) +
+        first_type(1)).count();
   }
 };
 
@@ -146,19 +153,19 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
 {
   typedef time_pair_values<Duration, FirstDuration, SecondDuration>
       values_type;
+  typedef typename values_type::first_type first_type;
 
   if (first >= FirstDuration::zero()) {
     if (first.count() < values_type::max_first() ||
         (first.count() == values_type::max_first() &&
          second.count() <= values_type::max_second())) {
-      out = Duration(first + second);
+      out = Duration(first_type(first) + second);
       return true;
     }
     return false;
   }
 
-  if (values_type::first_rep_min() != values_type::min_first() &&
-      first.count() == values_type::min_first() - 1) {
+  if (first_type(first).count() + 1 == values_type::min_first()) {
     if (second.count() < values_type::min_second())
       return false;
   } else if (first.count() < values_type::min_first()) {
@@ -170,9 +177,8 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
     return true;
   }
 
-  const Duration adjust = chrono::duration_cast<Duration>(
-      FirstDuration(1) - second);
-  out = Duration(first + FirstDuration(1)) - adjust;
+  out = Duration((first_type(first) + first_type(1)) -
+                 (first_type(1) - second));
   return true;
 }
 
-- 
2.43.0


From 3233e3815be8b5dd8fa98a08ef13de7c4662408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 44/48] fix: compose_time() no longer wraps if the second unit
 is coarser than the clock's

---
 include/asioext/detail/impl/chrono.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index c29845e..84fe7ee 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -102,14 +102,16 @@ struct time_pair_values
         (Duration::max)() - first_type(max_first())).count();
   }
 
-  static ASIOEXT_CONSTEXPR common_type min_second() ASIOEXT_NOEXCEPT
+  static ASIOEXT_CONSTEXPR14 common_type min_second() ASIOEXT_NOEXCEPT
   {
     // For negative |first|s, we use (first + 1f) - (1f - |second|)
     // so the smallest |second| we can accept for |min_f - 1| is
     // 1f + clock_min - min_f
-    return chrono::duration_cast<second_type>(
-        (Duration::min)() - first_type(min_first()) +
-        first_type(1)).count();
+    // (rounded up, as anything below isn't representable)
+    const second_type result = chrono::duration_cast<second_type>(
+        (Duration::min)() - first_type(min_first()) + first_type(1));
+    return result < (Duration::min)() - first_type(min_first()) + first_type(1)
+        ? result.count() + 1 : result.count();
   }
 };
 
-- 
2.43.0


From 5b4cf71b7c46d6bfc0ef805cae4a196107b579aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:45 +0000
Subject: [PATCH 45/48] fix: async_connect() keeps its host and service until
 the operation is started

connect_op stored the string_views it was passed. With a completion token
that launches lazily (use_awaitable, deferred, ...) the operation starts
after async_connect() has returned, when temporaries passed as host and
service are gone already.
---
 include/asioext/connect.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 2068a80..ed6d196 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -27,6 +27,8 @@
 #  include <asio/connect.hpp>
 #endif
 
+#include <string>
+
 ASIOEXT_NS_BEGIN
 
 namespace detail {
@@ -73,9 +75,10 @@ public:
 private:
   asio::basic_socket<Protocol, Executor>& socket_;
   asio::ip::basic_resolver<Protocol>& resolver_;
-  // These are only valid during the initial no-args operator() call!
-  std::string_view host_;
-  std::string_view service_;
+  // With a lazy completion token we're started after the initiating function
+  // has returned, so what the caller passed might be gone by then.
+  std::string host_;
+  std::string service_;
   asio::ip::resolver_base::flags resolve_flags_;
 };
 
-- 
2.43.0


From 770f4f62a28d07577d069cfc70258930056a7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:37 +0000
Subject: [PATCH 46/48] fix: SOCKS operations leave their buffer alone until
 they are started

The request was encoded into the buffer by the initiating function. With a
completion token that launches lazily (use_awaitable, ...) this corrupted
whatever else used the buffer before the operation was started, e.g. an
operation created later but started earlier, and an operation that was never
started left its request behind.
---
 include/asioext/socks/impl/client.hpp | 101 +++++++++++++++++---------
 1 file changed, 67 insertions(+), 34 deletions(-)

diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index 9eb6b89..a2badf5 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -9,10 +9,19 @@
 #include "asioext/socks/detail/client.hpp"
 #include "asioext/compose.hpp"
 
+#include <string>
+#include <type_traits>
+#include <utility>
+#include <vector>
+
 ASIOEXT_NS_BEGIN
 
 namespace socks {
 
+// With a lazy completion token an operation might be started much later or not
+// at all. Nothing may touch the buffer until then, so the requests are encoded
+// by the initiations.
+
 // SOCKS4a
 
 template <typename Socket, typename DynamicBuffer, typename ExecuteHandler>
@@ -23,12 +32,15 @@ async_execute(Socket& socket, command cmd,
               ASIOEXT_MOVE_ARG(DynamicBuffer) buffer,
               ASIOEXT_MOVE_ARG(ExecuteHandler) handler)
 {
-  return async_compose<ExecuteHandler, void (error_code)>(
-      detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), remote.port(), user_id,
-          buffer),
-      handler, socket
-  );
+  return async_initiate<ExecuteHandler, void (error_code)>(
+      [&socket](auto&& h, command c, const asio::ip::tcp::endpoint& ep,
+                const std::string& id, std::decay_t<DynamicBuffer> b) {
+        async_compose<decltype(h), void (error_code)>(
+            detail::v4_exec_op<Socket, std::decay_t<DynamicBuffer>>(
+                socket, c, ep, std::string(), ep.port(), id, b),
+            h, socket);
+      }, handler, cmd, remote, user_id,
+      std::forward<DynamicBuffer>(buffer));
 }
 
 template <typename Socket, typename DynamicBuffer, typename ExecuteHandler>
@@ -39,14 +51,18 @@ async_execute(Socket& socket, command cmd,
               ASIOEXT_MOVE_ARG(DynamicBuffer) buffer,
               ASIOEXT_MOVE_ARG(ExecuteHandler) handler)
 {
-  return async_compose<ExecuteHandler, void (error_code)>(
-      // If there's no host name, an IPv6 endpoint makes the operation fail
-      // instead of requesting the unspecified address.
-      detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(asio::ip::tcp::v6(), port),
-          remote, port, user_id, buffer),
-      handler, socket
-  );
+  return async_initiate<ExecuteHandler, void (error_code)>(
+      [&socket](auto&& h, command c, const std::string& host, uint16_t p,
+                const std::string& id, std::decay_t<DynamicBuffer> b) {
+        async_compose<decltype(h), void (error_code)>(
+            // If there's no host name, an IPv6 endpoint makes the operation
+            // fail instead of requesting the unspecified address.
+            detail::v4_exec_op<Socket, std::decay_t<DynamicBuffer>>(
+                socket, c, asio::ip::tcp::endpoint(asio::ip::tcp::v6(), p),
+                host, p, id, b),
+            h, socket);
+      }, handler, cmd, remote, port, user_id,
+      std::forward<DynamicBuffer>(buffer));
 }
 
 // SOCKS5
@@ -59,11 +75,16 @@ async_greet(Socket& socket,
             ASIOEXT_MOVE_ARG(DynamicBuffer) buffer,
             ASIOEXT_MOVE_ARG(GreetHandler) handler)
 {
-  return async_compose<GreetHandler, void (error_code, auth_method)>(
-      detail::v5_greet_op<Socket, DynamicBuffer>(
-        socket, auth_methods, num_auth_methods, buffer),
-      handler, socket
-  );
+  return async_initiate<GreetHandler, void (error_code, auth_method)>(
+      [&socket](auto&& h, const std::vector<auth_method>& methods,
+                std::decay_t<DynamicBuffer> b) {
+        async_compose<decltype(h), void (error_code, auth_method)>(
+            detail::v5_greet_op<Socket, std::decay_t<DynamicBuffer>>(
+                socket, methods.data(), methods.size(), b),
+            h, socket);
+      }, handler,
+      std::vector<auth_method>(auth_methods, auth_methods + num_auth_methods),
+      std::forward<DynamicBuffer>(buffer));
 }
 
 template <typename Socket, typename DynamicBuffer, typename LoginHandler>
@@ -74,11 +95,15 @@ async_login(Socket& socket,
             ASIOEXT_MOVE_ARG(DynamicBuffer) buffer,
             ASIOEXT_MOVE_ARG(LoginHandler) handler)
 {
-  return async_compose<LoginHandler, void (error_code)>(
-      detail::v5_login_op<Socket, DynamicBuffer>(
-        socket, username, password, buffer),
-      handler, socket
-  );
+  return async_initiate<LoginHandler, void (error_code)>(
+      [&socket](auto&& h, const std::string& user, const std::string& pass,
+                std::decay_t<DynamicBuffer> b) {
+        async_compose<decltype(h), void (error_code)>(
+            detail::v5_login_op<Socket, std::decay_t<DynamicBuffer>>(
+                socket, user, pass, b),
+            h, socket);
+      }, handler, username, password,
+      std::forward<DynamicBuffer>(buffer));
 }
 
 template <typename Socket, typename DynamicBuffer, typename ExecuteHandler>
@@ -88,11 +113,15 @@ async_execute(Socket& socket, command cmd,
               ASIOEXT_MOVE_ARG(DynamicBuffer) buffer,
               ASIOEXT_MOVE_ARG(ExecuteHandler) handler)
 {
-  return async_compose<ExecuteHandler, void (error_code)>(
-      detail::v5_exec_op<Socket, DynamicBuffer>(
-        socket, cmd, remote, buffer),
-      handler, socket
-  );
+  return async_initiate<ExecuteHandler, void (error_code)>(
+      [&socket](auto&& h, command c, const asio::ip::tcp::endpoint& ep,
+                std::decay_t<DynamicBuffer> b) {
+        async_compose<decltype(h), void (error_code)>(
+            detail::v5_exec_op<Socket, std::decay_t<DynamicBuffer>>(
+                socket, c, ep, b),
+            h, socket);
+      }, handler, cmd, remote,
+      std::forward<DynamicBuffer>(buffer));
 }
 
 template <typename Socket, typename DynamicBuffer, typename ExecuteHandler>
@@ -102,11 +131,15 @@ async_execute(Socket& socket, command cmd,
               ASIOEXT_MOVE_ARG(DynamicBuffer) buffer,
               ASIOEXT_MOVE_ARG(ExecuteHandler) handler)
 {
-  return async_compose<ExecuteHandler, void (error_code)>(
-      detail::v5_exec_op<Socket, DynamicBuffer>(
-        socket, cmd, remote, port, buffer),
-      handler, socket
-  );
+  return async_initiate<ExecuteHandler, void (error_code)>(
+      [&socket](auto&& h, command c, const std::string& host, uint16_t p,
+                std::decay_t<DynamicBuffer> b) {
+        async_compose<decltype(h), void (error_code)>(
+            detail::v5_exec_op<Socket, std::decay_t<DynamicBuffer>>(
+                socket, c, host, p, b),
+            h, socket);
+      }, handler, cmd, remote, port,
+      std::forward<DynamicBuffer>(buffer));
 }
 
 }
-- 
2.43.0


From 5c97a13e9d99040d0f476fa52651ca3e7a724d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:13 +0000
Subject: [PATCH 47/48] fix: composed operations and bound handlers pass on
 everything associated with their handler

Only the executor and allocator were: the cancellation slot was lost, so that
an operation could not be cancelled through it.
---
 include/asioext/compose.hpp              | 28 +++++++++++++++++
 include/asioext/detail/bound_handler.hpp | 40 ++++++++++++++++++++++++
 2 files changed, 68 insertions(+)

diff --git a/include/asioext/compose.hpp b/include/asioext/compose.hpp
index dec58bd..4402324 100644
--- a/include/asioext/compose.hpp
+++ b/include/asioext/compose.hpp
@@ -360,6 +360,34 @@ struct associated_executor<
   }
 };
 
+#if (ASIOEXT_ASIO_VERSION >= 102400)
+// Everything else that can be associated with a handler, e.g. the cancellation
+// slot.
+template <template <typename, typename> class Associator,
+          typename Handler, typename Implementation, typename Work,
+          typename DefaultCandidate>
+struct associator<Associator,
+    asioext::composed_operation<Handler, Implementation, Work>,
+    DefaultCandidate>
+  : Associator<Handler, DefaultCandidate>
+{
+  static typename Associator<Handler, DefaultCandidate>::type
+  get(const asioext::composed_operation<Handler, Implementation, Work>& h)
+      ASIOEXT_NOEXCEPT
+  {
+    return Associator<Handler, DefaultCandidate>::get(h.get_handler());
+  }
+
+  static auto
+  get(const asioext::composed_operation<Handler, Implementation, Work>& h,
+      const DefaultCandidate& c) ASIOEXT_NOEXCEPT
+    -> decltype(Associator<Handler, DefaultCandidate>::get(h.get_handler(), c))
+  {
+    return Associator<Handler, DefaultCandidate>::get(h.get_handler(), c);
+  }
+};
+#endif
+
 }
 # if defined(ASIOEXT_USE_BOOST_ASIO)
 }
diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index e357a14..c15f873 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -36,6 +36,14 @@
 # endif
 #endif
 
+#if (ASIOEXT_ASIO_VERSION >= 102400)
+# if defined(ASIOEXT_USE_BOOST_ASIO)
+#  include <boost/asio/associator.hpp>
+# else
+#  include <asio/associator.hpp>
+# endif
+#endif
+
 #include <tuple>
 #include <utility>
 
@@ -61,6 +69,12 @@ class bound_handler : private Work
   friend struct asio::associated_executor;
 #endif
 
+#if !defined(ASIOEXT_IS_DOCUMENTATION) && (ASIOEXT_ASIO_VERSION >= 102400)
+  template <template <typename, typename> class Associator, typename T,
+            typename DefaultCandidate>
+  friend struct asio::associator;
+#endif
+
 #if !defined(ASIOEXT_IS_DOCUMENTATION) && (ASIOEXT_ASIO_VERSION < 101700)
   friend void* asio_handler_allocate(std::size_t size,
                                      bound_handler* this_handler)
@@ -162,6 +176,32 @@ struct associated_executor<
   }
 };
 
+#if (ASIOEXT_ASIO_VERSION >= 102400)
+// Everything else that can be associated with a handler, e.g. the cancellation
+// slot.
+template <template <typename, typename> class Associator,
+          typename Handler, typename Work, typename... Args,
+          typename DefaultCandidate>
+struct associator<Associator,
+    asioext::detail::bound_handler<Handler, Work, Args...>, DefaultCandidate>
+  : Associator<Handler, DefaultCandidate>
+{
+  static typename Associator<Handler, DefaultCandidate>::type
+  get(const asioext::detail::bound_handler<Handler, Work, Args...>& h)
+      ASIOEXT_NOEXCEPT
+  {
+    return Associator<Handler, DefaultCandidate>::get(h.handler_);
+  }
+
+  static decltype(auto)
+  get(const asioext::detail::bound_handler<Handler, Work, Args...>& h,
+      const DefaultCandidate& c) ASIOEXT_NOEXCEPT
+  {
+    return Associator<Handler, DefaultCandidate>::get(h.handler_, c);
+  }
+};
+#endif
+
 }
 # if defined(ASIOEXT_USE_BOOST_ASIO)
 }
-- 
2.43.0


From 4f08240878e008877f2e89d391437d7f8f665bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:58 +0000
Subject: [PATCH 48/48] fix: files can't be constructed from an executor

---
 include/asioext/impl/thread_pool_file_service.cpp | 8 ++++++++
 include/asioext/thread_pool_file_service.hpp      | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 6a67efb..c47d9be 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -18,6 +18,14 @@ thread_pool_file_service::thread_pool_file_service(
 {
 }
 
+thread_pool_file_service::thread_pool_file_service(
+    asio::execution_context& owner)
+  : io_context_service_base(static_cast<asio::io_context&>(owner))
+  , impl_list_(0)
+  , pool_(1)
+{
+}
+
 void thread_pool_file_service::shutdown_service()
 {
   // Close all implementations, causing all operations to complete.
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 7d4a76f..3d9fa64 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -101,6 +101,13 @@ public:
   ASIOEXT_DECL explicit thread_pool_file_service(asio::io_context& owner,
                                                  std::size_t num_threads = 1);
 
+  /// Construct a new file service for an executor's execution context.
+  ///
+  /// @param owner The io_context that owns this service object. Executors of
+  /// other execution contexts are not supported.
+  ASIOEXT_DECL explicit thread_pool_file_service(
+      asio::execution_context& owner);
+
   /// Destroy all user-defined handler objects owned by the service.
   ASIOEXT_DECL void shutdown_service();
 
-- 
2.43.0

