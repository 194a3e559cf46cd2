From 62a7b5c08d7541f5c1f7d816fa29149da505bffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 01/55] fix: channel ops woken up keep the value or slot they
 were woken for

A reader (or writer) that got posted for resumption did not own the value
(or slot) it was woken for: another op running before it could take it,
leaving the woken op to access an empty (or overflow a full) buffer. If it
was cancelled instead, the wakeup got lost for the ops waiting behind it.
The same window let channel<void>::close drop tokens already handed over
or buffered and let writes created before close() succeed after it.
---
 include/boost/cobalt/channel.hpp      |  28 +++++--
 include/boost/cobalt/impl/channel.hpp | 106 ++++++++++++++++++--------
 src/channel.cpp                       |  78 +++++++++++++------
 3 files changed, 146 insertions(+), 66 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..52f71fe 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -67,12 +67,17 @@ struct channel
 #endif
   executor_type executor_;
   bool is_closed_{false};
+  // the amount of values / free slots claimed by ops that got woken up, but aren't resumed yet.
+  std::size_t reserved_reads_{0u}, reserved_writes_{0u};
+  void wake_reader_();
+  void wake_writer_();
+  void rotate_(T & direct);
 
   struct read_op : intrusive::list_base_hook<intrusive::link_mode<intrusive::auto_unlink> >
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false;
+    bool cancelled = false, reserved = false;
     std::optional<T> direct{};
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
@@ -96,7 +101,7 @@ struct channel
     }
 
     struct cancel_impl;
-    bool await_ready() { return !chn->buffer_.empty() || chn->is_closed_; }
+    bool await_ready() { return chn->buffer_.size() > chn->reserved_reads_ || chn->is_closed_; }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -115,7 +120,7 @@ struct channel
         T*>;
     ref_t ref;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, reserved = false, direct = false, closed = !chn->is_open();
     asio::cancellation_slot cancel_slot{};
 
     unique_handle<void> awaited_from{nullptr};
@@ -140,7 +145,10 @@ struct channel
 
     struct cancel_impl;
 
-    bool await_ready() { return !chn->buffer_.full() || chn->is_closed_; }
+    bool await_ready()
+    {
+      return (chn->buffer_.size() + chn->reserved_writes_) < chn->buffer_.capacity() || chn->is_closed_;
+    }
     template<typename Promise>
     BOOST_COBALT_MSVC_NOINLINE
     std::coroutine_handle<void> await_suspend(std::coroutine_handle<Promise> h);
@@ -229,12 +237,16 @@ struct channel<void>
   std::size_t n_{0u};
   executor_type executor_;
   bool is_closed_{false};
+  // the amount of tokens / free slots claimed by ops that got woken up, but aren't resumed yet.
+  std::size_t reserved_reads_{0u}, reserved_writes_{0u};
+  BOOST_COBALT_DECL void wake_reader_();
+  BOOST_COBALT_DECL void wake_writer_();
 
   struct read_op : intrusive::list_base_hook<intrusive::link_mode<intrusive::auto_unlink> >
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false;
+    bool cancelled = false, reserved = false, direct = false;
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
@@ -259,7 +271,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return (chn->n_ > 0) || chn->is_closed_;
+      return (chn->n_ > chn->reserved_reads_) || chn->is_closed_;
     }
 
     template<typename Promise>
@@ -275,7 +287,7 @@ struct channel<void>
   {
     channel * chn;
     boost::source_location loc;
-    bool cancelled = false, direct = false, closed = !chn->is_open();
+    bool cancelled = false, reserved = false, direct = false, closed = !chn->is_open();
     asio::cancellation_slot cancel_slot{};
     unique_handle<void> awaited_from{nullptr};
     void (*begin_transaction)(void*) = nullptr;
@@ -300,7 +312,7 @@ struct channel<void>
     struct cancel_impl;
     bool await_ready()
     {
-      return chn->n_ < chn->limit_ || chn->is_closed_;
+      return (chn->n_ + chn->reserved_writes_) < chn->limit_ || chn->is_closed_;
     }
 
     template<typename Promise>
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..e68dc87 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -57,7 +57,6 @@ void channel<T>::close()
   {
     auto & op = read_queue_.front();
     op.unlink();
-    op.cancelled = true;
     op.cancel_slot.clear();
 
     if (op.awaited_from)
@@ -76,6 +75,55 @@ void channel<T>::close()
 }
 
 
+template<typename T>
+void channel<T>::wake_reader_()
+{
+  if (read_queue_.empty())
+    return;
+  auto & op = read_queue_.front();
+  BOOST_ASSERT(write_queue_.empty());
+  if (op.await_ready())
+  {
+    op.unlink();
+    // claim the value, so that no other op can take it before the reader gets resumed.
+    op.reserved = true;
+    reserved_reads_++;
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
+
+template<typename T>
+void channel<T>::wake_writer_()
+{
+  if (write_queue_.empty())
+    return;
+  auto & op = write_queue_.front();
+  BOOST_ASSERT(read_queue_.empty());
+  if (op.await_ready())
+  {
+    op.unlink();
+    // claim the slot, so that no other op can take it before the writer gets resumed.
+    op.reserved = true;
+    reserved_writes_++;
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
+
+template<typename T>
+void channel<T>::rotate_(T & direct)
+{
+  // values still waiting for a reader that is about to resume are older, so keep the order.
+  if (!buffer_.empty())
+  {
+    T value = std::move(buffer_.front());
+    buffer_.pop_front();
+    buffer_.push_back(std::move(direct));
+    direct = std::move(value);
+  }
+}
+
 template<typename T>
 struct channel<T>::read_op::cancel_impl
 {
@@ -132,6 +180,7 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
     else
       direct = std::move(*op.ref);
 
+    chn->rotate_(*direct);
     op.transactional_unlink();
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
@@ -166,7 +215,11 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_ && chn->buffer_.empty() && !direct)
+  const bool was_reserved = std::exchange(reserved, false);
+  if (was_reserved)
+    chn->reserved_reads_--;
+
+  if (chn->is_closed_ && chn->buffer_.size() <= chn->reserved_reads_ && !was_reserved && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -174,29 +227,18 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
 
   if (cancelled)
   {
+    // somebody else can have what was claimed for this op
+    if (was_reserved)
+      chn->wake_reader_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  T value = chn->buffer_.empty() ? std::move(*direct) : std::move(chn->buffer_.front());
-  if (!chn->buffer_.empty())
-  {
+  T value = direct ? std::move(*direct) : std::move(chn->buffer_.front());
+  if (!direct)
     chn->buffer_.pop_front();
-    if (direct)
-      chn->buffer_.push_back(std::move(*direct));
-  }
 
-  if (!chn->write_queue_.empty())
-  {
-    auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_writer_();
   return {system::in_place_value, std::move(value)};
 }
 
@@ -232,7 +274,7 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
-  BOOST_ASSERT(this->chn->buffer_.full());
+  BOOST_ASSERT(this->chn->buffer_.size() + this->chn->reserved_writes_ >= this->chn->buffer_.capacity());
   if (chn->read_queue_.empty())
   {
     chn->write_queue_.push_back(*this);
@@ -252,6 +294,7 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
     else
       op.direct.emplace(std::move(*ref));
 
+    chn->rotate_(*op.direct);
     direct = true;
     op.transactional_unlink();
 
@@ -281,7 +324,12 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  const bool was_reserved = std::exchange(reserved, false);
+  if (was_reserved)
+    chn->reserved_writes_--;
+
+  // the op might have been created before the channel got closed
+  if (closed || (chn->is_closed_ && !was_reserved && !direct && !cancelled))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -289,6 +337,9 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
 
   if (cancelled)
   {
+    // somebody else can have what was claimed for this op
+    if (was_reserved)
+      chn->wake_writer_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
@@ -307,18 +358,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
       chn->buffer_.push_back(std::move(*ref));
   }
 
-  if (!chn->read_queue_.empty())
-  {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      // unlink?
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_reader_();
   return system::in_place_value;
 }
 
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..6fbb9fc 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -28,7 +28,6 @@ void channel<void>::close()
   {
     auto & op = read_queue_.front();
     op.unlink();
-    op.cancelled = true;
     op.cancel_slot.clear();
     if (op.awaited_from)
       asio::defer(executor_, std::move(op.awaited_from));
@@ -45,12 +44,50 @@ void channel<void>::close()
   }
 }
 
+void channel<void>::wake_reader_()
+{
+  if (read_queue_.empty())
+    return;
+  auto & op = read_queue_.front();
+  BOOST_ASSERT(write_queue_.empty());
+  if (op.await_ready())
+  {
+    op.unlink();
+    // claim the value, so that no other op can take it before the reader gets resumed.
+    op.reserved = true;
+    reserved_reads_++;
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
+
+void channel<void>::wake_writer_()
+{
+  if (write_queue_.empty())
+    return;
+  auto & op = write_queue_.front();
+  BOOST_ASSERT(read_queue_.empty());
+  if (op.await_ready())
+  {
+    op.unlink();
+    // claim the slot, so that no other op can take it before the writer gets resumed.
+    op.reserved = true;
+    reserved_writes_++;
+    BOOST_ASSERT(op.awaited_from);
+    asio::post(executor_, std::move(op.awaited_from));
+  }
+}
+
 system::result<void>  channel<void>::read_op::await_resume(const struct as_result_tag &)
 {
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  const bool was_reserved = std::exchange(reserved, false);
+  if (was_reserved)
+    chn->reserved_reads_--;
+
+  if (chn->is_closed_ && chn->n_ <= chn->reserved_reads_ && !was_reserved && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -58,23 +95,16 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
 
   if (cancelled)
   {
+    // somebody else can have what was claimed for this op
+    if (was_reserved)
+      chn->wake_reader_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
   if (!direct)
     chn->n_--;
-  if (!chn->write_queue_.empty())
-  {
-    auto &op = chn->write_queue_.front();
-    BOOST_ASSERT(chn->read_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_writer_();
   return {system::in_place_value};
 }
 
@@ -94,7 +124,12 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  const bool was_reserved = std::exchange(reserved, false);
+  if (was_reserved)
+    chn->reserved_writes_--;
+
+  // the op might have been created before the channel got closed
+  if (closed || (chn->is_closed_ && !was_reserved && !direct && !cancelled))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -102,23 +137,16 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
 
   if (cancelled)
   {
+    // somebody else can have what was claimed for this op
+    if (was_reserved)
+      chn->wake_writer_();
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
   if (!direct)
     chn->n_++;
 
-  if (!chn->read_queue_.empty())
-  {
-    auto & op = chn->read_queue_.front();
-    BOOST_ASSERT(chn->write_queue_.empty());
-    if (op.await_ready())
-    {
-      op.unlink();
-      BOOST_ASSERT(op.awaited_from);
-      asio::post(chn->executor_, std::move(op.awaited_from));
-    }
-  }
+  chn->wake_reader_();
   return {system::in_place_value};
 }
 
-- 
2.43.0


From f0130dc8621447bfa0431445f81a7328a97b1282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 02/55] fix: promise move assignment doesn't access the frame
 of a completed coroutine

Assigning to a promise that is done, or destroying a promise that was moved
from by assignment once the coroutine is done, read from the destroyed
coroutine frame.
---
 include/boost/cobalt/detail/promise.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..7f336a6 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,8 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    // the coroutine, i.e. what reference points into, is gone once it's done.
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -151,6 +152,7 @@ struct promise_receiver : promise_value_holder<T>
       lhs.exception = moved_from_exception();
     }
 
+    lhs.done = true;
     return *this;
   }
 
-- 
2.43.0


From e18b22aae73d1ce2015d29e0462eaca52b28e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 03/55] fix: spawn doesn't keep its state in memory of a
 completed handler

A cancellation of a spawned task gets dispatched to the task's executor and
holds the shared state. It might run after the completion handler, i.e. when
the memory of the handler's associated allocator - for use_op the frame of the
awaiting coroutine - is gone already.
---
 include/boost/cobalt/detail/spawn.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index ba2364b..558292d 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -46,7 +46,8 @@ struct async_initiate_spawn
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
-    auto recs = std::allocate_shared<detail::task_receiver<T>>(alloc, std::move(rec));
+    // a cancellation running on exec can outlive the completion, thus also the memory of the handler's allocator
+    auto recs = std::make_shared<detail::task_receiver<T>>(std::move(rec));
 
     auto sl = asio::get_associated_cancellation_slot(h);
     if (sl.is_connected())
@@ -111,7 +112,8 @@ struct async_initiate_spawn
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
-    auto recs = std::allocate_shared<detail::task_receiver<void>>(alloc, std::move(a.receiver_));
+    // a cancellation running on exec can outlive the completion, thus also the memory of the handler's allocator
+    auto recs = std::make_shared<detail::task_receiver<void>>(std::move(a.receiver_));
 
     if (recs->done)
       return asio::dispatch(asio::get_associated_immediate_executor(h, exec),
-- 
2.43.0


From 9eca44c0bd95783c64e936e4b555372b2c93afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 04/55] fix: a generator gets each pushed value once, also
 after interrupted awaits and get()

---
 include/boost/cobalt/detail/generator.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..85132f1 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -223,10 +223,12 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       self->awaited_from.reset(h.address());
 
       std::coroutine_handle<void> res = std::noop_coroutine();
-      if (self->yield_from != nullptr)
+      const bool resuming = self->yield_from != nullptr;
+      if (resuming)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      // only hand the value over if the generator is about to take it, otherwise await_resume will do it.
+      if (resuming && (to_push.index() > 0) && !self->pushed_value)
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -299,7 +301,8 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       }
 
       // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      // (unless it got the value for that when this awaitable got suspended)
+      if (self->yield_from != nullptr && !self->lazy && self->pushed_value)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From ad8980add5d4fb35c4d442ab1eff6cb8c5fcee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:22 +0000
Subject: [PATCH 05/55] fix: generator move assignment doesn't access the frame
 of a completed coroutine

---
 include/boost/cobalt/detail/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 85132f1..5387154 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,8 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    // the coroutine, i.e. what reference points into, is gone once it's done.
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
-- 
2.43.0


From 1f44c609ce3a3b2953b610f9db84bdbab5da0baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 06/55] fix: lazy generators of void are asked ahead as before,
 repeatedly is fine

---
 include/boost/cobalt/detail/generator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 5387154..9eb399b 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -228,8 +228,8 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       if (resuming)
         res = self->yield_from.release();
 
-      // only hand the value over if the generator is about to take it, otherwise await_resume will do it.
-      if (resuming && (to_push.index() > 0) && !self->pushed_value)
+      // only hand a value over if the generator is about to take it, otherwise await_resume will do it.
+      if ((resuming || (std::is_void_v<Push> && self->lazy)) && (to_push.index() > 0) && !self->pushed_value)
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -280,11 +280,11 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
       if (to_push.index() > 0)
       {
-        BOOST_ASSERT(!self->pushed_value);
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
         else
         {
+          BOOST_ASSERT(!self->pushed_value);
           if (to_push.index() == 1)
             self->pushed_value.emplace(std::move(*variant2::get<1>(to_push)));
           else
-- 
2.43.0


From 23d5de69db436aaac5dbc39b50f5f198738193dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 07/55] fix: the frame of a fork doesn't outlive the state
 providing its memory

---
 include/boost/cobalt/detail/fork.hpp | 30 ++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..7e13dc2 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -18,6 +18,8 @@
 #include <boost/intrusive_ptr.hpp>
 
 #include <coroutine>
+#include <cstddef>
+#include <new>
 #include <optional>
 
 namespace boost::cobalt::detail
@@ -103,13 +105,37 @@ struct fork
   };
   struct promise_type
   {
+    // The frame lives in memory of the state, i.e. the state must outlive the frame and not just the promise.
+    // Thus the promise hands its reference over to a header in front of the frame, when it gets destroyed.
+    using frame_header = intrusive_ptr<shared_state>;
+    constexpr static std::size_t header_size =
+        (sizeof(frame_header) + alignof(std::max_align_t) - 1u)
+            / alignof(std::max_align_t) * alignof(std::max_align_t);
+
+    static frame_header * header_of(void * frame)
+    {
+      return reinterpret_cast<frame_header*>(static_cast<char*>(frame) - header_size);
+    }
+
     template<typename State, typename ... Rest>
     void * operator new(const std::size_t size, State & st, Rest &&...)
     {
-      return st.resource.allocate(size);
+      auto p = static_cast<char*>(st.resource.allocate(size + header_size));
+      return new (p) frame_header(), p + header_size;
+    }
+
+    void operator delete(void * frame) noexcept
+    {
+      auto header = header_of(frame);
+      // might destroy the memory of the frame, i.e. move it on the stack first.
+      auto st = std::move(*header);
+      header->~frame_header();
     }
 
-    void operator delete(void *) noexcept {}
+    ~promise_type()
+    {
+      header_of(std::coroutine_handle<promise_type>::from_promise(*this).address())->swap(state);
+    }
 
     template<typename ... Rest>
     promise_type(shared_state & st, Rest & ...)
-- 
2.43.0


From 9da5cdc03a7257afd3a4a7bc1c02c5343481fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 08/55] fix: race stops all other awaitables when one completes
 by throwing or another one

---
 include/boost/cobalt/detail/race.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..d201d4b 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -276,11 +276,15 @@ struct race_variadic_impl
     }
     BOOST_CATCH(...)
     {
-      if (!this_.has_result())
+      this_.working[Idx] = nullptr;
+      this_.cancel[Idx] = nullptr;
+      const bool first = !this_.has_result();
+      if (first)
         this_.index = Idx;
       if (this_.index == Idx)
         this_.error = std::current_exception();
-      this_.working[Idx] = nullptr;
+      if (first)
+        this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -318,7 +322,8 @@ struct race_variadic_impl
         auto l = impls[idx](*this);
         const auto d = l.done();
         l.release();
-        if (d)
+        // it might also have completed another one
+        if (d || has_result())
           break;
       }
 
@@ -594,12 +599,16 @@ struct race_ranged_impl
     }
     BOOST_CATCH(...)
     {
-      if (!this_.has_result())
+      if constexpr (traits::interruptible)
+        this_.working[idx] = nullptr;
+      this_.cancel[idx] = nullptr;
+      const bool first = !this_.has_result();
+      if (first)
         this_.index = idx;
       if (this_.index == idx)
         this_.error = std::current_exception();
-      if constexpr (traits::interruptible)
-        this_.working[idx] = nullptr;
+      if (first)
+        this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -629,7 +638,8 @@ struct race_ranged_impl
         auto l = await_impl(*this, *itr);
         auto d = l.done();
         l.release();
-        if (d)
+        // it might also have completed another one
+        if (d || has_result())
           break;
       }
 
-- 
2.43.0


From ff786235740a4b28d706ac23141b8a2edccba85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 09/55] fix: as_tuple(race()) doesn't access the result if
 there is none

---
 include/boost/cobalt/detail/race.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index d201d4b..b0b1848 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -360,7 +360,10 @@ struct race_variadic_impl
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
-        return std::make_tuple(error, std::move(*result));
+      {
+        using type = typename decltype(result)::value_type;
+        return error ? std::make_tuple(error, type{}) : std::make_tuple(error, std::move(*result));
+      }
     }
 
     auto await_resume(const as_result_tag & )
@@ -676,7 +679,7 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
       else
-        return std::make_tuple(error, std::make_pair(index, std::move(*result)));
+        return std::make_tuple(error, std::make_pair(index, error ? result_type{} : std::move(*result)));
     }
 
     auto await_resume(const as_result_tag & )
-- 
2.43.0


From d15b013d34ec3f3a1ec7b1df9d4dc93f64c187c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 10/55] fix: interrupting join & gather reaches all the
 awaitables that can be interrupted

---
 include/boost/cobalt/detail/gather.hpp | 9 ++++-----
 include/boost/cobalt/detail/join.hpp   | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..f3d4d47 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -73,11 +73,10 @@ struct gather_variadic_impl
     template<std::size_t Idx>
     void interrupt_await_step()
     {
-      using type= std::tuple_element_t<Idx, std::tuple<Args...>>;
-      using t = std::conditional_t<
-          std::is_reference_v<std::tuple_element_t<Idx, decltype(aws)>>,
-          co_awaitable_type<type> &,
-          co_awaitable_type<type> &&>;
+      using type = std::tuple_element_t<Idx, tuple_type>;
+      using t = std::conditional_t<std::is_reference_v<std::tuple_element_t<Idx, std::tuple<Args...>>>,
+          type &,
+          type &&>;
 
       if constexpr (interruptible<t>)
           static_cast<t>(std::get<Idx>(aws)).interrupt_await();
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..0aaa3be 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -387,7 +387,7 @@ struct join_ranged_impl
       {
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
       }
     }
-- 
2.43.0


From 3b4dc03f4fcba0b93763764317c90323d2a101c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 11/55] fix: as_tuple & as_result of a join yield its results

---
 include/boost/cobalt/detail/join.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 0aaa3be..78d7bfa 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -241,7 +241,7 @@ struct join_variadic_impl
         if (error)
           return std::make_tuple(error, t{});
         else
-          return std::make_tuple(std::current_exception(),
+          return std::make_tuple(std::exception_ptr(),
                                  mp11::tuple_transform(
               []<typename T>(std::optional<T> & var)
                   -> T
@@ -262,13 +262,14 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
+        return rt{system::in_place_value,
+                  mp11::tuple_transform(
             []<typename T>(std::optional<T> & var)
-                -> rt
+                -> T
             {
               BOOST_ASSERT(var.has_value());
               return std::move(*var);
-            }, result);
+            }, result)};
       else
         return rt{system::in_place_value};
     }
-- 
2.43.0


From cea0f4ec420acb273780433d8d3da1e49dd0e17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 12/55] fix: ranged join & gather invoke await_ready once per
 awaitable, accept empty ranges

---
 include/boost/cobalt/detail/gather.hpp | 13 ++-----------
 include/boost/cobalt/detail/join.hpp   | 12 ++----------
 2 files changed, 4 insertions(+), 21 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index f3d4d47..38e8a33 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -240,7 +240,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -249,7 +248,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -259,7 +257,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -270,18 +267,11 @@ struct gather_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
@@ -346,7 +336,8 @@ struct gather_ranged_impl
         if (!last_forked.done())
           return false; // one coro didn't immediately complete!
       }
-      last_forked.release();
+      if (last_index > 0u) // the range might be empty
+        last_forked.release();
       return true;
     }
 
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 78d7bfa..b32faa9 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -305,7 +305,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -322,7 +321,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -339,7 +337,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -351,17 +348,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
@@ -436,7 +427,8 @@ struct join_ranged_impl
         if (!last_forked.done())
           return false; // one coro didn't immediately complete!
       }
-      last_forked.release();
+      if (last_index > 0u) // the range might be empty
+        last_forked.release();
       return true;
     }
 
-- 
2.43.0


From 1c0590be65823a1be581ec85dccb678816addaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 13/55] fix: a channel op exchanging a value directly begins
 its transaction, too

When a read or write that's part of a race finds a waiting counterpart, the value gets exchanged right away, but the op
itself is resumed later. The race must be decided at this point, otherwise another awaitable can complete it and the
value is lost. Interrupted ops are unlinked before they get resumed, and a race doesn't start any further awaitables
once it's decided.
---
 include/boost/cobalt/channel.hpp      | 61 +++++++++++++++++++++++++++
 include/boost/cobalt/detail/race.hpp  | 22 ++--------
 include/boost/cobalt/impl/channel.hpp | 21 ++++++---
 3 files changed, 81 insertions(+), 23 deletions(-)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 52f71fe..64f8459 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -16,6 +16,7 @@
 #include <boost/asio/cancellation_type.hpp>
 #include <boost/circular_buffer.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/intrusive/list.hpp>
 #include <boost/variant2/variant.hpp>
 
@@ -90,11 +91,26 @@ struct channel
       this->unlink();
     }
 
+    // The op was completed by the one waiting for it, and gets resumed later.
+    // Thus nothing else can win the race this might be part of.
+    void commit_transaction()
+    BOOST_TRY
+    {
+      if (begin_transaction)
+        begin_transaction(awaited_from.get());
+    }
+    BOOST_CATCH(...)
+    {
+      // the other op is part of the same race & won it.
+    }
+    BOOST_CATCH_END
+
     void interrupt_await()
     {
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -133,11 +149,26 @@ struct channel
       this->unlink();
     }
 
+    // The op was completed by the one waiting for it, and gets resumed later.
+    // Thus nothing else can win the race this might be part of.
+    void commit_transaction()
+    BOOST_TRY
+    {
+      if (begin_transaction)
+        begin_transaction(awaited_from.get());
+    }
+    BOOST_CATCH(...)
+    {
+      // the other op is part of the same race & won it.
+    }
+    BOOST_CATCH_END
+
     void interrupt_await()
     {
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -258,11 +289,26 @@ struct channel<void>
       this->unlink();
     }
 
+    // The op was completed by the one waiting for it, and gets resumed later.
+    // Thus nothing else can win the race this might be part of.
+    void commit_transaction()
+    BOOST_TRY
+    {
+      if (begin_transaction)
+        begin_transaction(awaited_from.get());
+    }
+    BOOST_CATCH(...)
+    {
+      // the other op is part of the same race & won it.
+    }
+    BOOST_CATCH_END
+
     void interrupt_await()
     {
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -299,11 +345,26 @@ struct channel<void>
       this->unlink();
     }
 
+    // The op was completed by the one waiting for it, and gets resumed later.
+    // Thus nothing else can win the race this might be part of.
+    void commit_transaction()
+    BOOST_TRY
+    {
+      if (begin_transaction)
+        begin_transaction(awaited_from.get());
+    }
+    BOOST_CATCH(...)
+    {
+      // the other op is part of the same race & won it.
+    }
+    BOOST_CATCH_END
+
     void interrupt_await()
     {
       if (!direct)
       {
         cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index b0b1848..50a36d7 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -317,15 +317,8 @@ struct race_variadic_impl
         return false;
 
       for (std::size_t idx = 1u;
-           idx < tuple_size; idx++) // we'
-      {
-        auto l = impls[idx](*this);
-        const auto d = l.done();
-        l.release();
-        // it might also have completed another one
-        if (d || has_result())
-          break;
-      }
+           idx < tuple_size && !has_result(); idx++) // a started one can complete itself or another one
+        impls[idx](*this).release();
 
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
@@ -636,15 +629,8 @@ struct race_ranged_impl
         return false;
 
       for (auto itr = std::next(reorder.begin());
-           itr < reorder.end(); std::advance(itr, 1)) // we'
-      {
-        auto l = await_impl(*this, *itr);
-        auto d = l.done();
-        l.release();
-        // it might also have completed another one
-        if (d || has_result())
-          break;
-      }
+           itr < reorder.end() && !has_result(); std::advance(itr, 1)) // a started one can complete itself or another one
+        await_impl(*this, *itr).release();
 
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index e68dc87..7a39992 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -185,8 +185,11 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
+    op.cancel_slot.clear();
+    auto next = op.awaited_from.release();
+    commit_transaction();
     asio::post(chn->executor_, std::move(awaited_from));
-    return op.awaited_from.release();
+    return next;
   }
 }
 
@@ -300,9 +303,11 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
+    op.cancel_slot.clear();
+    auto next = op.awaited_from.release();
+    commit_transaction();
     asio::post(chn->executor_, std::move(awaited_from));
-
-    return op.awaited_from.release();
+    return next;
   }
 }
 
@@ -423,8 +428,11 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
 
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
+    op.cancel_slot.clear();
+    auto next = op.awaited_from.release();
+    commit_transaction();
     asio::post(chn->executor_, std::move(awaited_from));
-    return op.awaited_from.release();
+    return next;
   }
 }
 
@@ -460,8 +468,11 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
     BOOST_ASSERT(op.awaited_from);
     BOOST_ASSERT(awaited_from);
 
+    op.cancel_slot.clear();
+    auto next = op.awaited_from.release();
+    commit_transaction();
     asio::post(chn->executor_, std::move(awaited_from));
-    return op.awaited_from.release();
+    return next;
   }
 }
 
-- 
2.43.0


From 516a719db967e17142d161b8975e43e970d86431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 14/55] fix: with: pass the argument on to the synchronous
 teardown as an rvalue

as the requires clause demands, so that with(wait_group(), ...) compiles with a non-coroutine body
---
 include/boost/cobalt/with.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/with.hpp b/include/boost/cobalt/with.hpp
index bdfb21f..e3848c1 100644
--- a/include/boost/cobalt/with.hpp
+++ b/include/boost/cobalt/with.hpp
@@ -43,7 +43,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     co_await std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -84,7 +84,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
     std::exception_ptr e;
 #if defined(BOOST_NO_EXCEPTIONS)
     std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -97,7 +97,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<void>
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
@@ -169,7 +169,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
 #if defined(BOOST_NO_EXCEPTIONS)
     res = std::move(func)(arg);
-    co_await std::move(teardown)(arg, e);
+    co_await std::move(teardown)(std::move(arg), e);
 #else
     try
     {
@@ -182,7 +182,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
 
     try
     {
-        co_await std::move(teardown)(arg, e);
+        co_await std::move(teardown)(std::move(arg), e);
     }
     catch (...)
     {
-- 
2.43.0


From 9afd45b21db0ac46628d4c013e5b392adbf068af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 15/55] fix: with: destroy the awaiter of an abandoned with,
 and the coroutine if it's never awaited

---
 include/boost/cobalt/detail/with.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..2ede86f 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
@@ -26,8 +27,10 @@ struct [[nodiscard]] with_impl
     inline T await_resume();
 
   private:
-    with_impl(promise_type & promise) : promise(promise) {}
+    with_impl(promise_type & promise) : promise(promise), unstarted(&promise) {}
     promise_type & promise;
+    // owns the coroutine until it gets awaited.
+    unique_handle<promise_type> unstarted;
 };
 
 template<typename T>
@@ -93,7 +96,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return h.promise().awaited_from.release();
     }
 
     void await_resume() noexcept
@@ -109,7 +112,7 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
@@ -146,8 +149,8 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
     if constexpr (requires {h.promise().get_cancellation_slot();})
         promise.slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
-    return std::coroutine_handle<promise_type>::from_promise(promise);
+    promise.awaited_from.reset(h.address());
+    return unstarted.release();
 }
 
 }
-- 
2.43.0


From 10aa8e80c51eab4efcb2f0facf1cd93faa1c8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 16/55] fix: wait_group: wait_one also removes a failed
 promise, wait only the ones it waited for

---
 include/boost/cobalt/detail/wait_group.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..98f87c1 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -48,9 +48,17 @@ struct race_wrapper
     {
       if (waitables_.empty())
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      // the promise is done, no matter if it completed with an exception.
+      struct eraser
+      {
+        awaitable_type & self;
+        ~eraser()
+        {
+          if (self.impl_->has_result())
+            self.waitables_.erase(std::next(self.waitables_.begin(), self.impl_->index));
+        }
+      } eraser_{*this};
+      impl_->await_resume();
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
@@ -102,17 +110,20 @@ struct gather_wrapper
         return;
       BOOST_ASSERT(impl_);
       impl_->await_resume();
-      waitables_.clear();
+      // promises might have been added in the meantime
+      waitables_.erase(waitables_.begin(), std::next(waitables_.begin(), size_));
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
     {
       if (!waitables_.empty())
         impl_.emplace(waitables_);
+      size_ = waitables_.size();
     }
    private:
     std::list<promise<void>> &waitables_;
     std::optional<decltype(gather(waitables_).operator co_await())> impl_;
+    std::size_t size_{0u};
   };
 
   awaitable_type operator co_await()
-- 
2.43.0


From 256b28da211a26e66c6dc6707384dbdd0dbaa622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 17/55] fix: main: ignore signals that are delivered after
 co_main ended

The completion of the wait may be queued already when the coroutine gets destroyed. It then accessed the
destroyed cancellation signal and waited for another signal, so that the process never ended.
---
 include/boost/cobalt/detail/main.hpp | 1 +
 src/main.cpp                         | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/main.hpp b/include/boost/cobalt/detail/main.hpp
index b73519e..9c084a7 100644
--- a/include/boost/cobalt/detail/main.hpp
+++ b/include/boost/cobalt/detail/main.hpp
@@ -146,6 +146,7 @@ struct main_promise : signal_helper,
     std::optional<asio::executor_work_guard<executor_type>> exec;
     std::optional<executor_type> exec_;
     asio::basic_signal_set<executor_type> * signal_set;
+    bool * finished = nullptr; // owned by run_main, since signals may be delivered after the coroutine is gone
     ::boost::cobalt::main get_return_object()
     {
         return ::boost::cobalt::main{this};
diff --git a/src/main.cpp b/src/main.cpp
index aaa958f..9de85e2 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -18,6 +18,8 @@ namespace boost::cobalt::detail
 auto main_promise::final_suspend() noexcept -> std::suspend_never
 {
   system::error_code ec;
+  if (finished)
+    *finished = true;
   if (signal_set)
     signal_set->cancel(ec);
   return std::suspend_never(); // enable_yielding_tasks::final_suspend();
@@ -34,13 +36,18 @@ int main_promise::run_main(::boost::cobalt::main mn)
   auto p = std::coroutine_handle<detail::main_promise>::from_promise(*mn.promise);
   asio::basic_signal_set<executor_type> ss{ctx, SIGINT, SIGTERM};
   mn.promise->signal_set = &ss;
+  bool finished = false;
+  mn.promise->finished = &finished;
   struct work
   {
     asio::basic_signal_set<executor_type> & ss;
     asio::cancellation_signal & signal;
+    const bool & finished;
     void operator()(system::error_code ec, int sig) const
     {
       BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
+      if (finished) // the wait had completed already, when the main coroutine ended & got destroyed
+        return;
       if (sig == SIGINT)
         signal.emit(asio::cancellation_type::total);
       if (sig == SIGTERM)
@@ -50,7 +57,7 @@ int main_promise::run_main(::boost::cobalt::main mn)
     }
   };
 
-  ss.async_wait(work{ss, mn.promise->signal});
+  ss.async_wait(work{ss, mn.promise->signal, finished});
   asio::post(ctx.get_executor(),
              [p]
              {
-- 
2.43.0


From 4006580e2cc4bc5498c669cf8d8d64344634958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 18/55] fix: awaiting a thread that's already done as a tuple
 read an empty optional

---
 include/boost/cobalt/detail/thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 66e9f36..680e745 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -196,7 +196,9 @@ struct thread_awaitable
     if (thread_)
       thread_->join();
 
-    return std::get<0>(*res);
+    if (!res) // await_ready
+      return {std::exception_ptr()};
+    return *std::move(res);
   }
 
   explicit thread_awaitable(std::shared_ptr<detail::thread_state> state)
-- 
2.43.0


From 4909d6aa2b82312a95683b6a8c76baeee05cdd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 19/55] fix: the frame of a thread coroutine that ended with an
 exception leaked

---
 include/boost/cobalt/detail/thread.hpp | 10 +++++++++-
 src/thread.cpp                         |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 680e745..30de19c 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -83,10 +83,18 @@ struct thread_promise : signal_helper_2,
   }
 
 #if !defined(BOOST_NO_EXCEPTIONS)
-  void unhandled_exception() { throw; }
+  void unhandled_exception()
+  {
+    // final_suspend isn't reached, i.e. the coroutine doesn't destroy itself.
+    if (failed)
+      failed->reset(this);
+    throw;
+  }
 #endif
   void return_void() { }
 
+  unique_handle<thread_promise> * failed = nullptr;
+
   using executor_type = typename cobalt::executor;
   const executor_type & get_executor() const {return *exec_;}
 
diff --git a/src/thread.cpp b/src/thread.cpp
index 594ecd5..a61e676 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -38,6 +38,8 @@ void run_thread(
 
   {
     auto st = std::move(st_);
+    unique_handle<thread_promise> failed;
+    h->failed = &failed;
     h->reset_cancellation_source(st->signal.slot());
     h->set_executor(st->ctx.get_executor());
     boost::cobalt::this_thread::set_executor(st->ctx.get_executor());
@@ -62,6 +64,7 @@ void run_thread(
     }
     BOOST_CATCH_END
 
+    failed.reset();
     st->done = true;
     st->signal.slot().clear();
     std::lock_guard<std::mutex> lock(st->mtx);
-- 
2.43.0


From abf5176704b0491ee3d28f2ed467618f645765aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 20/55] fix: handlers queued in the context of a thread leaked
 its state

---
 include/boost/cobalt/detail/thread.hpp | 3 ++-
 include/boost/cobalt/thread.hpp        | 5 +++--
 src/thread.cpp                         | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 30de19c..a9de3ac 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -158,7 +158,8 @@ struct thread_awaitable
             {
               std::lock_guard<std::mutex> lock{st->mtx};
               asio::post(st->ctx,
-                         [st, type]
+                         // must not own the state, since it owns the context. It's never run if the thread is done.
+                         [st = st.get(), type]
                          {
                             BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                             st->signal.emit(type);
diff --git a/include/boost/cobalt/thread.hpp b/include/boost/cobalt/thread.hpp
index 5145758..64ccdef 100644
--- a/include/boost/cobalt/thread.hpp
+++ b/include/boost/cobalt/thread.hpp
@@ -83,8 +83,9 @@ inline
 void thread::cancel(asio::cancellation_type type)
 {
   if (auto st = state_)
-    asio::post(state_->ctx,
-               [s= state_, type]
+    asio::post(st->ctx,
+               // must not own the state, since it owns the context. It's never run if the thread is already done.
+               [s = st.get(), type]
                {
                  BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
                  s->signal.emit(type);
diff --git a/src/thread.cpp b/src/thread.cpp
index a61e676..2dfd902 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -46,7 +46,8 @@ void run_thread(
 
     asio::post(
         st->ctx.get_executor(),
-        [st, h = std::move(h)]() mutable
+        // must not own st, or the state would own itself if the context gets stopped before this is invoked.
+        [h = std::move(h)]() mutable
         {
           std::lock_guard<std::mutex> lock{h->mtx};
           std::move(h).resume();
-- 
2.43.0


From d95af2dc02a67fb785ff3a508af65517ced89806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 21/55] fix: the mutex of a thread coroutine was unlocked after
 its destruction

---
 src/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 2dfd902..dcfa0bc 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -49,7 +49,11 @@ void run_thread(
         // must not own st, or the state would own itself if the context gets stopped before this is invoked.
         [h = std::move(h)]() mutable
         {
-          std::lock_guard<std::mutex> lock{h->mtx};
+          {
+            // wait until the creating thread suspended the coroutine.
+            std::lock_guard<std::mutex> lock{h->mtx};
+          }
+          // the mutex must not be locked here, since it's destroyed along with the coroutine.
           std::move(h).resume();
         });
 
-- 
2.43.0


From 322ae9a9275582ea9992c0d359e0c8b9af06046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 22/55] fix: spawn: the frame of an abandoned completion was
 allocated with the memory it freed

---
 include/boost/cobalt/detail/wrapper.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/detail/wrapper.hpp b/include/boost/cobalt/detail/wrapper.hpp
index c08965d..3635581 100644
--- a/include/boost/cobalt/detail/wrapper.hpp
+++ b/include/boost/cobalt/detail/wrapper.hpp
@@ -136,24 +136,25 @@ struct coroutine_traits<coroutine_handle<boost::cobalt::detail::post_coroutine_p
 namespace boost::cobalt::detail
 {
 
-
+// The frame holds the token, thus must not use memory of its allocator. That might be owned by the token,
+// i.e. be gone by the time the frame gets deallocated when it's destroyed without being resumed.
 template <typename CompletionToken>
 auto post_coroutine(CompletionToken token)
-    -> std::coroutine_handle<post_coroutine_promise<asio::associated_allocator_t<CompletionToken>>>
+    -> std::coroutine_handle<post_coroutine_promise<>>
 {
     co_yield std::move(token);
 }
 
 template <asio::execution::executor Executor, typename CompletionToken>
 auto post_coroutine(Executor exec, CompletionToken token)
-    -> std::coroutine_handle<post_coroutine_promise<asio::associated_allocator_t<CompletionToken>>>
+    -> std::coroutine_handle<post_coroutine_promise<>>
 {
     co_yield asio::bind_executor(exec, std::move(token));
 }
 
 template <with_get_executor Context, typename CompletionToken>
 auto post_coroutine(Context &ctx, CompletionToken token)
-    -> std::coroutine_handle<post_coroutine_promise<asio::associated_allocator_t<CompletionToken>>>
+    -> std::coroutine_handle<post_coroutine_promise<>>
 {
     co_yield asio::bind_executor(ctx.get_executor(), std::move(token));
 }
-- 
2.43.0


From 40ef9235310c72ec33dd8dcccd3dd4466d56f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 23/55] fix: the memory resource of a thread was destroyed
 before what is pending in its context

---
 include/boost/cobalt/detail/thread.hpp |  4 ++++
 src/thread.cpp                         | 10 ++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index a9de3ac..0f82624 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -44,6 +44,10 @@ struct signal_helper_2
 
 struct thread_state
 {
+#if !defined(BOOST_COBALT_NO_PMR)
+  // used by whatever is still pending when the context gets destroyed
+  pmr::unsynchronized_pool_resource resource;
+#endif
   asio::io_context ctx{1u};
   asio::cancellation_signal signal;
   std::mutex mtx;
diff --git a/src/thread.cpp b/src/thread.cpp
index dcfa0bc..6759db2 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -30,14 +30,12 @@ void run_thread(
     unique_handle<thread_promise> h)
 {
 
-#if !defined(BOOST_COBALT_NO_PMR)
-  pmr::unsynchronized_pool_resource resource;
-  boost::cobalt::this_thread::set_default_resource(&resource);
-  h->resource = &resource;
-#endif
-
   {
     auto st = std::move(st_);
+#if !defined(BOOST_COBALT_NO_PMR)
+    boost::cobalt::this_thread::set_default_resource(&st->resource);
+    h->resource = &st->resource;
+#endif
     unique_handle<thread_promise> failed;
     h->failed = &failed;
     h->reset_cancellation_source(st->signal.slot());
-- 
2.43.0


From 1a5e628892e5c56a3cf43ecd909ecf6c5e240e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 24/55] fix: sbo_resource returned misaligned memory for
 over-aligned types, and foreign memory for size 0

---
 include/boost/cobalt/detail/sbo_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index ae37315..ffc330f 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -90,7 +90,7 @@ struct sbo_resource
 #endif
   {
     const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
+    if (sz > 0u && sz <= buffer_.avail && !buffer_.fragmented && align <= alignof(std::max_align_t)) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
-- 
2.43.0


From 7d8b9c49029793ed46a8f75231e76c3b1e7eb54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:34 +0000
Subject: [PATCH 25/55] fix: monotonic_resource returned misaligned memory and
 placed its blocks out of bounds

---
 .../boost/cobalt/detail/monotonic_resource.hpp    | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/detail/monotonic_resource.hpp b/include/boost/cobalt/detail/monotonic_resource.hpp
index 8793b2a..67b70f9 100644
--- a/include/boost/cobalt/detail/monotonic_resource.hpp
+++ b/include/boost/cobalt/detail/monotonic_resource.hpp
@@ -70,18 +70,17 @@ struct monotonic_resource
   constexpr void * allocate(std::size_t size, std::align_val_t align_ = std::align_val_t(alignof(std::max_align_t)))
   {
     const auto align = (std::max)(static_cast<std::size_t>(align_), alignof(block_));
-    // let's say size = 11, and align is 8, that leaves us with 3
     {
-      const auto align_offset = size % align ;
+      const auto free = static_cast<char*>(head_->p) + (head_->size - head_->avail);
+      // let's say free is at 11, and align is 8, that leaves us with 3
+      const auto align_offset = static_cast<std::size_t>(free - static_cast<char*>(nullptr)) % align;
       // padding is 5
-      const auto padding = align  - align_offset;
+      const auto padding = align_offset == 0u ? 0u : align - align_offset;
       const auto needed_size = size + padding;
-      if (needed_size <= head_->avail) // fits, but we need to check alignment too
+      if (free != nullptr && needed_size <= head_->avail)
       {
-        const auto offset = head_->size - head_->avail;
-        auto pp = static_cast<char*>(head_->p) + offset + padding;
         head_->avail -= needed_size;
-        return pp; // done
+        return free + padding; // done
       }
     }
 
@@ -96,7 +95,7 @@ struct monotonic_resource
 
     const auto aligned = std::align_val_t(align);
     const auto mem = ::operator new(alloc_size, aligned);
-    const auto block_location = static_cast<char*>(mem) +  mem_size + offset;
+    const auto block_location = static_cast<char*>(mem) + raw_size;
     head_ = head_->next = new (block_location) block_{mem, raw_size - size, raw_size, aligned, nullptr};
 
     return mem;
-- 
2.43.0


From 24741453ec098e642677555e5827fba6b0aeb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 26/55] fix: task: the frame used the thread_local memory
 resource instead of the default one, thus got deallocated on another thread
 after spawn

---
 include/boost/cobalt/detail/spawn.hpp |  5 +++--
 include/boost/cobalt/detail/task.hpp  | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/spawn.hpp b/include/boost/cobalt/detail/spawn.hpp
index 558292d..81cdb66 100644
--- a/include/boost/cobalt/detail/spawn.hpp
+++ b/include/boost/cobalt/detail/spawn.hpp
@@ -41,7 +41,8 @@ struct async_initiate_spawn
           asio::append(std::forward<Handler>(h), rec.exception, rec.exception ? T() : *rec.get_result()));
 
 #if !defined(BOOST_COBALT_NO_PMR)
-    auto dalloc = pmr::polymorphic_allocator<void>{boost::cobalt::this_thread::get_default_resource()};
+    // used on the thread of exec
+    auto dalloc = pmr::polymorphic_allocator<void>{pmr::get_default_resource()};
     auto alloc = asio::get_associated_allocator(h, dalloc);
 #else
     auto alloc = asio::get_associated_allocator(h);
@@ -108,7 +109,7 @@ struct async_initiate_spawn
 
 
 #if !defined(BOOST_COBALT_NO_PMR)
-    auto alloc = asio::get_associated_allocator(h, pmr::polymorphic_allocator<void>{boost::cobalt::this_thread::get_default_resource()});
+    auto alloc = asio::get_associated_allocator(h, pmr::polymorphic_allocator<void>{pmr::get_default_resource()});
 #else
     auto alloc = asio::get_associated_allocator(h);
 #endif
diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8dedd0b..7447bda 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -318,6 +318,17 @@ struct task_promise
       return *exec_;
   }
 
+#if !defined(BOOST_COBALT_NO_PMR)
+  // the frame might get destroyed on another thread, thus can't use the thread_local resource either.
+  template<typename ... Args>
+  static void * operator new(const std::size_t size, Args & ... args)
+  {
+    std::allocator_arg_t tag;
+    pmr::polymorphic_allocator<void> alloc{detail::get_memory_resource_from_args_global(args...)};
+    return promise_memory_resource_base::operator new(size, tag, alloc);
+  }
+#endif
+
   template<typename ... Args>
   task_promise(Args & ...args)
 #if !defined(BOOST_COBALT_NO_PMR)
-- 
2.43.0


From 44e760356d147aedd22dbfb3db59ca0c7ff03ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 27/55] fix: composition: a cancellation never reached composed
 operations, e.g. io::read

---
 include/boost/cobalt/composition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..7d2b489 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -130,7 +130,7 @@ struct composition_promise
   template<typename ... Ts>
   composition_promise(Ts && ... args) : handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
   {
-
+    this->reset_cancellation_source(handler.get_cancellation_slot());
   }
 
   void unhandled_exception() { throw ; }
-- 
2.43.0


From 59233b035ca82da870b8d1bb58d77134a02d8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 28/55] fix: op, composition: an exception in the initiation,
 or completing in the immediate executor, resumed or destroyed the coroutine
 from within await_suspend

---
 include/boost/cobalt/composition.hpp    | 20 ++++++++++++++++----
 include/boost/cobalt/detail/handler.hpp | 13 ++++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 7d2b489..470366a 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -133,7 +133,21 @@ struct composition_promise
     this->reset_cancellation_source(handler.get_cancellation_slot());
   }
 
-  void unhandled_exception() { throw ; }
+  // `maybe` if the composition got started through the immediate executor.
+  static bool is_initiating(const completion_handler<Args...> & handler)
+  {
+    return handler.completed_immediately != nullptr
+        && (*handler.completed_immediately == completed_immediately_t::initiating
+         || *handler.completed_immediately == completed_immediately_t::maybe);
+  }
+
+  void unhandled_exception()
+  {
+    // thrown from the initiation, so the awaiter will receive it.
+    if (is_initiating(handler))
+      handler.self.release();
+    throw ;
+  }
   constexpr static std::suspend_never initial_suspend() {return {};}
 
   void return_value(std::tuple<Args ...> args)
@@ -154,9 +168,7 @@ struct composition_promise
       auto ho = handler.self.release();
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
-        //not maybe here, because we don't go through the immediate executor
+      if (is_initiating(handler))
       {
         *handler.completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..37da7d7 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -270,12 +270,19 @@ struct completion_handler : detail::completion_handler_base
 
     ~completion_handler()
     {
-      if (self && completed_immediately
-        && *completed_immediately == detail::completed_immediately_t::initiating
-        && std::uncaught_exceptions() > 0)
+      if (self && initiation_failed())
         self.release();
     }
  private:
+    // An exception is thrown from the initiation, so the coroutine will receive it.
+    bool initiation_failed() const
+    {
+      return completed_immediately
+          && (*completed_immediately == detail::completed_immediately_t::initiating
+           || *completed_immediately == detail::completed_immediately_t::maybe)
+          && std::uncaught_exceptions() > 0;
+    }
+
     unique_handle<void> self;
     std::optional<std::tuple<Args...>> &result;
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
-- 
2.43.0


From b7025b9b2e6e8db9d706c8863bafa6150534d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 29/55] fix: composition: an abandoned composed operation
 deallocated its frame after destroying the awaiter that owns its memory

---
 include/boost/cobalt/composition.hpp    | 46 +++++++++++++++----------
 include/boost/cobalt/detail/handler.hpp |  2 ++
 2 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 470366a..b7c7838 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -92,37 +92,45 @@ struct composition_promise
   using executor_type = typename handler_type::executor_type ;
   const executor & get_executor() const {return handler.get_executor();}
 
-  template<typename ... Ts>
-  static void * operator new(const std::size_t size, Ts & ... args)
+  // | block_header | <padding> | coroutine.
+  struct block_header
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
+    resource_type * resource;
+    std::size_t size;
+    // set if the awaiter needs to be destroyed with this coroutine
+    void * awaiter;
+  };
 
+  constexpr static std::size_t block_size = sizeof(block_header) / sizeof(std::max_align_t)
+                                         + (sizeof(block_header) % sizeof(std::max_align_t) ? 1 : 0);
 
-    auto res = std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_allocator().resource();
+  template<typename ... Ts>
+  static void * operator new(const std::size_t size, Ts & ... args)
+  {
+    auto & h = std::get<sizeof... (Ts) - 1>(std::tie(args...));
+    auto res = h.get_allocator().resource();
     const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
-    new (p) tt(res, size);
+    h.block = new (p) block_header{res, size, nullptr};
     return static_cast<std::max_align_t*>(p) + block_size;
   }
 
   static void operator delete(void * raw) noexcept
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
-
     const auto p = static_cast<std::max_align_t*>(raw) - block_size;
+    const auto header = *reinterpret_cast<block_header*>(p);
 
-    const auto tp = *reinterpret_cast<tt*>(p);
-    const auto res = tp.first;
-    const auto size = tp.second;
+    header.resource->deallocate(p, header.size + (block_size * sizeof(std::max_align_t)));
 
-    res->deallocate(p, size +  (block_size * sizeof(std::max_align_t)));
+    if (header.awaiter)
+      std::coroutine_handle<void>::from_address(header.awaiter).destroy();
+  }
+
+  // The memory of the frame is usually part of the awaiter, so if the completion gets dropped,
+  // the awaiter must not be destroyed before the frame is deallocated.
+  ~composition_promise()
+  {
+    if (handler.self && !handler.initiation_failed())
+      static_cast<block_header*>(handler.block)->awaiter = handler.self.release().address();
   }
 
   completion_handler<Args...> handler;
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 37da7d7..3e84542 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -285,6 +285,8 @@ struct completion_handler : detail::completion_handler_base
 
     unique_handle<void> self;
     std::optional<std::tuple<Args...>> &result;
+    // the block holding the frame of a composition, cf. composition_promise
+    void * block = nullptr;
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
     boost::source_location loc_;
 #endif
-- 
2.43.0


From 60d290511ee2a28d9bbcec53571539b4185da56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 30/55] fix: io::write_at did not accept any random access
 device

---
 include/boost/cobalt/io/write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From c034cbefe96d9039c900173e0b558410142a9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:26 +0000
Subject: [PATCH 31/55] fix: io/random_access_device.hpp shared the include
 guard of io/stream.hpp

---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
-- 
2.43.0


From c922b0be1e9b5d90fe054d13869022f870ab469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 32/55] fix: buffer sequence iterators: the beginning was
 ordered after all other positions

---
 include/boost/cobalt/io/buffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/buffer.hpp b/include/boost/cobalt/io/buffer.hpp
index 9f18ae2..2e77f90 100644
--- a/include/boost/cobalt/io/buffer.hpp
+++ b/include/boost/cobalt/io/buffer.hpp
@@ -194,8 +194,8 @@ struct mutable_buffer_sequence
 
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+         <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
 
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
@@ -438,8 +438,8 @@ struct const_buffer_sequence
 
     friend auto operator<=>(const const_iterator & lhs, const const_iterator & rhs)
     {
-      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_)
-             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_);
+      return std::make_tuple(lhs.head_.data(), lhs.head_.size(), lhs.tail_.data(), lhs.tail_.size(), lhs.offset_ + 1u)
+             <=> std::make_tuple(rhs.head_.data(), rhs.head_.size(), rhs.tail_.data(), rhs.tail_.size(), rhs.offset_ + 1u);
     };
     friend bool operator==(const const_iterator & lhs, const const_iterator & rhs)
     {
-- 
2.43.0


From 0e43471edc0bac99e9c500de04e6d166e17c9aba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 33/55] fix: random_access_file: the offset and origin of lseek
 were swapped, and an error completed within the initiation

---
 src/io/random_access_file.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 1f8c132..442d0a5 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -9,6 +9,9 @@
 
 #include <boost/cobalt/io/random_access_file.hpp>
 
+#include <boost/asio/append.hpp>
+#include <boost/asio/associated_immediate_executor.hpp>
+#include <boost/asio/dispatch.hpp>
 
 namespace boost::cobalt::io
 {
@@ -82,10 +85,12 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
                                         completion_handler<system::error_code, std::size_t> handler)
 {
 
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    const system::error_code ec{errno, ::boost::system::system_category(), &loc};
+    auto exec = asio::get_associated_immediate_executor(handler, str.get_executor());
+    return asio::dispatch(exec, asio::append(std::move(handler), ec, std::size_t(0u)));
   }
 
   visit(seq, [&](auto buffer) {str.async_read_some(buffer, std::move(handler)); });
@@ -95,10 +100,12 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
                                         std::uint64_t offset, const_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
 {
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    const system::error_code ec{errno, ::boost::system::system_category(), &loc};
+    auto exec = asio::get_associated_immediate_executor(handler, str.get_executor());
+    return asio::dispatch(exec, asio::append(std::move(handler), ec, std::size_t(0u)));
   }
 
   visit(seq, [&](auto buffer) {str.async_write_some(buffer, std::move(handler)); });
-- 
2.43.0


From a365a80b4345396b34eab8b0e0f9dcef3ecba27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 34/55] fix: stream_file: seek always returned 0 instead of the
 new position

---
 src/io/stream_file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/stream_file.cpp b/src/io/stream_file.cpp
index 5fbd111..113cb3a 100644
--- a/src/io/stream_file.cpp
+++ b/src/io/stream_file.cpp
@@ -43,7 +43,7 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
   system::error_code ec;
-  auto n = implementation_.seek(offset, whence);
+  auto n = implementation_.seek(offset, whence, ec);
   return ec ? ec : system::result<std::uint64_t>{n};
 }
 
@@ -104,10 +104,11 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
-  if (::lseek(native_handle(), offset, whence) < 0)
+  const auto n = ::lseek(native_handle(), offset, whence);
+  if (n < 0)
     COBALT_RETURN_ERROR();
 
-  return {};
+  return static_cast<std::uint64_t>(n);
 }
 
 void stream_file::initiate_read_some_(void * this_, mutable_buffer_sequence buffer, boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 5fda1348cd9e4d61be7c0b4e80d9f9eff1cd0e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 35/55] fix: file: opening an open file created or truncated
 the other one, and leaked its descriptor

---
 src/io/file.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 6d7bf11..b953ff6 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -126,12 +126,24 @@ auto file::native_handle() -> native_handle_type {return file_.native_handle();}
 
 result<void> file::open(const char * path, flags open_flags)
 {
+  // do not create or truncate a file that cannot be assigned
+  if (file_.is_open())
+  {
+    constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
+    return error_code{asio::error::already_open, &loc};
+  }
+
   int r = ::open(path, static_cast<int>(open_flags), 0777);
   if (r == -1)
     COBALT_RETURN_ERROR();
   boost::system::error_code ec;
   file_.assign(r, ec);
-  return ec ? ec : result<void>{};
+  if (ec)
+  {
+    ::close(r);
+    return ec;
+  }
+  return result<void>{};
 }
 
 result<void> file::open(const std::string & path, flags open_flags)
-- 
2.43.0


From 7ac32cc4075b7ee97a0f6fc700bfc8059144de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 36/55] fix: pipe: an error was thrown instead of returned

---
 src/io/pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/pipe.cpp b/src/io/pipe.cpp
index dbd43f9..f0b43bf 100644
--- a/src/io/pipe.cpp
+++ b/src/io/pipe.cpp
@@ -130,7 +130,7 @@ system::result<std::pair<readable_pipe, writable_pipe>> pipe(const cobalt::execu
   readable_pipe r{executor};
   writable_pipe w{executor};
   system::error_code ec;
-  asio::connect_pipe(r.implementation_, w.implementation_);
+  asio::connect_pipe(r.implementation_, w.implementation_, ec);
   if (ec)
     return ec;
   else
-- 
2.43.0


From 5aa972ec4a3be84a907b36d1019f060207e02622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 37/55] fix: sleep: a huge duration overflowed, i.e. the sleep
 ended at once

---
 src/io/sleep.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/sleep.cpp b/src/io/sleep.cpp
index e0110c2..baddf21 100644
--- a/src/io/sleep.cpp
+++ b/src/io/sleep.cpp
@@ -10,11 +10,22 @@
 namespace boost::cobalt::detail::io
 {
 
+template<typename Clock>
+static typename Clock::time_point after(const typename Clock::duration & du)
+{
+  // same as asio: don't overflow into the past
+  using time_point = typename Clock::time_point;
+  const auto now = Clock::now();
+  if (now > time_point() && time_point::max() - now < du)
+    return time_point::max();
+  return now + du;
+}
+
 steady_sleep::steady_sleep(const std::chrono::steady_clock::time_point & tp) : tp{tp} {}
-steady_sleep::steady_sleep(const std::chrono::steady_clock::duration & du)   : tp{std::chrono::steady_clock::now() + du} {}
+steady_sleep::steady_sleep(const std::chrono::steady_clock::duration & du)   : tp{after<std::chrono::steady_clock>(du)} {}
 
 system_sleep::system_sleep(const std::chrono::system_clock::time_point & tp) : tp{tp} {}
-system_sleep::system_sleep(const std::chrono::system_clock::duration & du)   : tp{std::chrono::system_clock::now() + du} {}
+system_sleep::system_sleep(const std::chrono::system_clock::duration & du)   : tp{after<std::chrono::system_clock>(du)} {}
 
 
 void steady_sleep::initiate(completion_handler<system::error_code> h)
-- 
2.43.0


From 291317e2262b3ce52eb3c0564c1b180ba48c5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:24 +0000
Subject: [PATCH 38/55] fix: seq_packet_socket: receive ignored the in_flags if
 no out_flags were given

---
 include/boost/cobalt/io/seq_packet_socket.hpp |  1 +
 src/io/seq_packet_socket.cpp                  | 19 +++++++------------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/boost/cobalt/io/seq_packet_socket.hpp b/include/boost/cobalt/io/seq_packet_socket.hpp
index 84eb9dd..1bf4069 100644
--- a/include/boost/cobalt/io/seq_packet_socket.hpp
+++ b/include/boost/cobalt/io/seq_packet_socket.hpp
@@ -55,6 +55,7 @@ struct BOOST_SYMBOL_VISIBLE seq_packet_socket final : socket
     ~receive_op() = default;
    private:
     asio::basic_seq_packet_socket<protocol_type, executor> & socket_;
+    message_flags unused_flags_{};
   };
 
   [[nodiscard]] receive_op receive(message_flags in_flags, message_flags& out_flags, mutable_buffer_sequence buffer)
diff --git a/src/io/seq_packet_socket.cpp b/src/io/seq_packet_socket.cpp
index ef89de0..aa163a5 100644
--- a/src/io/seq_packet_socket.cpp
+++ b/src/io/seq_packet_socket.cpp
@@ -51,18 +51,13 @@ void seq_packet_socket::adopt_endpoint_(endpoint & ep)
 
 void seq_packet_socket::receive_op::initiate(boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
 {
-  if (out_flags != nullptr)
-    visit(buffer,
-          [&](auto buf)
-          {
-            socket_.async_receive(buf, in_flags, *out_flags, std::move(handler));
-          });
-  else
-    visit(buffer,
-          [&](auto buf)
-          {
-            socket_.async_receive(buf, in_flags, std::move(handler));
-          });
+  // without the out_flags, asio would take the in_flags for them, and ignore their value.
+  auto & out = out_flags != nullptr ? *out_flags : unused_flags_;
+  visit(buffer,
+        [&](auto buf)
+        {
+          socket_.async_receive(buf, in_flags, out, std::move(handler));
+        });
 }
 
 void seq_packet_socket::send_op::initiate(boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 4af6958c2df7ca5ea3725848907d794b4eb2b6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 39/55] fix: endpoint: the size of a local endpoint cut off its
 path

---
 src/io/endpoint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 96c4f11..ac675dc 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/endpoint.hpp>
 #include <boost/asio/ip/address.hpp>
 
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -41,7 +43,8 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNIX>,
   if (sv.size() >= sizeof(un->sun_path))
     BOOST_THROW_EXCEPTION(std::length_error("unix path too long"));
   *std::copy(sv.begin(), sv.end(), un->sun_path) = '\0';
-  return sizeof(un->sun_family + sv.size() + 1u);
+  return offsetof(asio::detail::sockaddr_un_type, sun_path) + sv.size()
+       + (!sv.empty() && sv.front() != '\0' ? 1u : 0u); // abstract & unnamed ones aren't terminated
 }
 
 const local_endpoint* tag_invoke(get_endpoint_tag<AF_UNIX>,
-- 
2.43.0


From a9c38b891e867e47d4447bf6e1347f4830390442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:43 +0000
Subject: [PATCH 40/55] fix: endpoint: an ipv6 address of an unspecified
 protocol had the size of an ipv4 one

---
 src/io/endpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index ac675dc..f0bab60 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -212,7 +212,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
-    return sizeof(asio::detail::sockaddr_in4_type);
+    return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
 
-- 
2.43.0


From 6c362615ea05f62a16d7688acdf00371750f9eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 41/55] fix: endpoint: udp_v6 used the protocol icmp

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 1dda880..c8e96de 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -115,7 +115,7 @@ constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_S
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_STREAM), BOOST_ASIO_OS_DEF(IPPROTO_TCP)>  tcp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp   {};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v4{};
-constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> udp_v6{};
+constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> icmp  {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_STREAM)>    local_stream   {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_DGRAM)>     local_datagram {};
-- 
2.43.0


From 8dc22defbca8430f117ebfebea66d6f697741cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 42/55] fix: endpoint: the scope of an ipv6 address was dropped

---
 src/io/endpoint.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index f0bab60..1e8ba37 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -136,12 +136,14 @@ std::size_t tag_invoke(make_endpoint_tag<AF_INET6>,
 
   boost::static_string<46> addr{address.begin(), address.end()};
 
-  auto a = asio::ip::make_address_v6(addr.c_str()).to_bytes();
+  const auto ad = asio::ip::make_address_v6(addr.c_str());
+  auto a = ad.to_bytes();
   auto in6 = new (base) asio::detail::sockaddr_in6_type{
       .sin6_family=AF_INET6,
       .sin6_port=boost::endian::native_to_big(port)
   };
   std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+  in6->sin6_scope_id = static_cast<decltype(in6->sin6_scope_id)>(ad.scope_id());
   return sizeof(asio::detail::sockaddr_in6_type);
 }
 
@@ -212,6 +214,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
+    in6->sin6_scope_id = static_cast<decltype(in6->sin6_scope_id)>(ad.to_v6().scope_id());
     return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
-- 
2.43.0


From e7e2176c997f9ca53becfcf0973c2ee807fa0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 43/55] fix: endpoint: local_endpoint::path() of a converted
 endpoint read uninitialized memory

---
 include/boost/cobalt/io/endpoint.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index c8e96de..988d50d 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -172,7 +172,7 @@ struct endpoint
         {tag_invoke(proto, addr, std::forward<Args>(args)...)} -> std::convertible_to<std::size_t>;
       }
   endpoint(static_protocol<Family, Type, Protocol> proto, Args && ... args)
-      : base_{},
+      : storage_{},
         protocol_(Protocol), type_(Type)
   {
     size_ = tag_invoke(make_endpoint_tag<Family>{}, &base_, std::forward<Args>(args)...);
@@ -186,7 +186,7 @@ struct endpoint
         {oe.size()} -> std::convertible_to<std::size_t>;
       }
   endpoint(OtherEndpoint && oe) :
-        base_{},
+        storage_{},
         protocol_(static_cast<protocol_type::protocol_t>(oe.protocol().protocol())),
         type_(static_cast<protocol_type::type_t>(oe.protocol().type()))
   {
@@ -212,8 +212,8 @@ struct endpoint
 
  private:
   union {
-    asio::detail::socket_addr_type base_{};
-    storage_type storage_;
+    asio::detail::socket_addr_type base_;
+    storage_type storage_{};
   };
   std::size_t size_{sizeof(base_)};
   protocol_type::protocol_t protocol_ = static_cast<protocol_type::protocol_t>(0);
-- 
2.43.0


From da2db430a85ddc3c8cca36fb353b272748f58708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 44/55] fix: endpoint: resize did not accept the capacity

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 988d50d..08af364 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -140,7 +140,7 @@ struct endpoint
   using addr_type = asio::detail::socket_addr_type;
   void resize(std::size_t size)
   {
-    BOOST_ASSERT(size < sizeof(storage_));
+    BOOST_ASSERT(size <= sizeof(storage_));
     size_ = size;
   }
 
-- 
2.43.0


From c01bb149410d02ec68078e1324bb1d3f67391f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:48 +0000
Subject: [PATCH 45/55] fix: race, join, gather: the cancellation of an awaiter
 accessed the destroyed awaitable after it was done

---
 include/boost/cobalt/detail/fork.hpp    |  7 +++++++
 include/boost/cobalt/detail/gather.hpp  |  4 ++--
 include/boost/cobalt/detail/handler.hpp | 13 +++++++++----
 include/boost/cobalt/detail/join.hpp    |  4 ++--
 include/boost/cobalt/detail/race.hpp    |  4 ++--
 5 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 7e13dc2..feb2c55 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -48,6 +48,8 @@ struct fork
 #endif
     // the coro awaiting the fork statement, e.g. awaiting race
     unique_handle<void> coro{};
+    // the slot of that coro, while it's suspended
+    asio::cancellation_slot cancel_slot{};
     std::size_t use_count = 0u;
 
     friend void intrusive_ptr_add_ref(shared_state * st) {st->use_count++;}
@@ -183,7 +185,12 @@ struct fork
         pp->use_count--;
         BOOST_ASSERT(pp->use_count == 0u);
         if (pp->coro)
+        {
+          // a later cancellation is none of our business, i.e. it must not access the state.
+          if (pp->cancel_slot.is_connected())
+            pp->cancel_slot.clear();
           return pp->coro.release();
+        }
         else
           return std::noop_coroutine();
       }
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 38e8a33..53f5bee 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -172,7 +172,7 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cancel_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -362,7 +362,7 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cancel_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 3e84542..3f5e271 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -172,15 +172,20 @@ struct completion_handler_base
 };
 
 
+// returns the slot that got assigned, if any. It needs to be cleared once the coroutine gets resumed.
 template<typename Handler>
-void assign_cancellation(std::coroutine_handle<void>, Handler &&) {}
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<void>, Handler &&) {return {};}
 
 template<typename Promise, typename Handler>
-void assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
+asio::cancellation_slot assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
 {
   if constexpr (requires {h.promise().get_cancellation_slot();})
-    if (h.promise().get_cancellation_slot().is_connected())
-      h.promise().get_cancellation_slot().assign(std::forward<Handler>(func));
+    if (asio::cancellation_slot slot = h.promise().get_cancellation_slot(); slot.is_connected())
+    {
+      slot.assign(std::forward<Handler>(func));
+      return slot;
+    }
+  return {};
 }
 
 }
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index b32faa9..f2cc964 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -205,7 +205,7 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cancel_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -457,7 +457,7 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cancel_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 50a36d7..1eea3e4 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -324,7 +324,7 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cancel_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -636,7 +636,7 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->cancel_slot = assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
-- 
2.43.0


From e44e1d549b0422a2241b561713fb292004fb1b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 46/55] fix: completion_handler: an operation that was done
 could receive a later cancellation of its coroutine (use after free with
 asio's timers and sockets)

---
 include/boost/cobalt/detail/handler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 3f5e271..8ea4fc4 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -260,6 +260,9 @@ struct completion_handler : detail::completion_handler_base
       BOOST_ASIO_HANDLER_LOCATION((loc_.file_name(), loc_.line(), loc_.function_name()));
 #endif
         result.emplace(std::move(args)...);
+        // the op is done, i.e. must not receive a later cancellation of the coroutine.
+        if (cancellation_slot.is_connected())
+          cancellation_slot.clear();
         BOOST_ASSERT(this->self != nullptr);
         auto p = this->self.release();
         if (completed_immediately != nullptr
-- 
2.43.0


From d3dd788f5650760d84729c1934355aa2a57f74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 47/55] fix: ssl::stream: the stream never became secure:
 everything after the handshake was sent in plain text

---
 include/boost/cobalt/io/ssl.hpp |  8 ++++----
 src/io/ssl.cpp                  | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 2ad9506..76e02df 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -83,12 +83,12 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code> h) final;
     void initiate(completion_handler<system::error_code> h) final;
-    handshake_op_(handshake_type type, bool upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
+    handshake_op_(handshake_type type, bool & upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), stream_socket_(stream_socket) {}
     ~handshake_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
 
@@ -97,13 +97,13 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code, std::size_t> h) final;
     void initiate(completion_handler<system::error_code, std::size_t> h) final;
-    handshake_buffer_op_(handshake_type type, bool upgraded, const_buffer_sequence buffer_,
+    handshake_buffer_op_(handshake_type type, bool & upgraded, const_buffer_sequence buffer_,
                          asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), buffer_(buffer_), stream_socket_(stream_socket) {}
     ~handshake_buffer_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     const_buffer_sequence buffer_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index 6c19e30..351bb47 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -7,6 +7,7 @@
 
 #include <boost/cobalt/io/ssl.hpp>
 #include <boost/cobalt/io/stream_socket.hpp>
+#include <boost/asio/deferred.hpp>
 
 namespace boost::cobalt::io::ssl
 {
@@ -89,7 +90,14 @@ void stream::handshake_op_::ready(handler<system::error_code> handler)
 
 void stream::handshake_op_::initiate(completion_handler<system::error_code> handler)
 {
-  stream_socket_.async_handshake(type_, std::move(handler));
+  stream_socket_.async_handshake(
+      type_,
+      asio::deferred(
+          [&upgraded = upgraded_](system::error_code ec)
+          {
+            upgraded = !ec;
+            return asio::deferred.values(ec);
+          }))(std::move(handler));
 }
 
 void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t> handler)
@@ -103,7 +111,14 @@ void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t
 
 void stream::handshake_buffer_op_::initiate(completion_handler<system::error_code, std::size_t> handler)
 {
-  stream_socket_.async_handshake(type_, buffer_, std::move(handler));
+  stream_socket_.async_handshake(
+      type_, buffer_,
+      asio::deferred(
+          [&upgraded = upgraded_](system::error_code ec, std::size_t n)
+          {
+            upgraded = !ec;
+            return asio::deferred.values(ec, n);
+          }))(std::move(handler));
 }
 
 void stream::shutdown_op_::ready(handler<system::error_code> handler)
-- 
2.43.0


From 708ab9175f2b4ae2276455e02821a0a5679ba1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 48/55] fix: ssl::stream: a moved stream used the socket of the
 stream it was moved from

---
 include/boost/cobalt/io/ssl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 76e02df..a4aac68 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -50,6 +50,10 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   BOOST_COBALT_SSL_DECL stream(context & ctx, endpoint ep,
                                      const cobalt::executor & executor = this_thread::get_executor());
 
+  stream(stream && lhs)
+      : detail::stream_impl{std::move(lhs.stream_socket_)}, socket(stream_socket_.lowest_layer()),
+        upgraded_(std::exchange(lhs.upgraded_, false)) {}
+
   [[nodiscard]] write_op write_some(const_buffer_sequence buffer) override
   {
     return {buffer, this, initiate_write_some_};
-- 
2.43.0


From 04e606fe9a36595f5ee5c55d2773b363dd2d159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:02 +0000
Subject: [PATCH 49/55] fix: ssl::stream: set_verify_callback rejected every
 valid callback

---
 include/boost/cobalt/io/ssl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index a4aac68..84263a4 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -66,7 +66,7 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   [[nodiscard]] bool secure() const {return upgraded_;}
 
   template<typename VerifyCallback>
-    requires requires (const VerifyCallback & cb, context & ctx) {{cb(true, ctx)} -> std::same_as<bool>;}
+    requires requires (const VerifyCallback & cb, asio::ssl::verify_context & ctx) {{cb(true, ctx)} -> std::same_as<bool>;}
   system::result<void> set_verify_callback(VerifyCallback vc)
   {
     system::error_code ec;
-- 
2.43.0


From 0f5e6b8fdfa4235c7e190a90d9494bce3ba7cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 50/55] fix: race awaits an as_result argument itself

The deduction guide copied an as_result_t instead of wrapping it, i.e. an error of
race(as_result(x)) was thrown and not delivered as a result.
---
 include/boost/cobalt/detail/race.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 1eea3e4..b71c507 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -177,7 +177,8 @@ struct race_variadic_impl
               )
       };
 
-      as_result_t aw{aw_};
+      // explicit, as the deduction would copy an as_result_t instead of wrapping it
+      as_result_t<std::remove_reference_t<decltype(aw_)> &> aw{aw_};
 
 
       struct interruptor final : interruptible_base
@@ -513,7 +514,8 @@ struct race_ranged_impl
               static_cast<typename traits::awaitable>(*std::next(std::begin(this_.aws), idx))
               )};
 
-      as_result_t aw{aw_};
+      // explicit, as the deduction would copy an as_result_t instead of wrapping it
+      as_result_t<std::remove_reference_t<decltype(aw_)> &> aw{aw_};
 
       if constexpr (traits::interruptible)
         this_.working[idx] = &aw_;
-- 
2.43.0


From 9904a99438762691000507b7c371927e82489a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:05 +0000
Subject: [PATCH 51/55] fix: a race of a range moves its result

It was copied, so that a range of awaitables with a move only result could not be raced.
---
 include/boost/cobalt/detail/race.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index b71c507..b16fea7 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -659,7 +659,7 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return index;
       else
-        return std::make_pair(index, *result);
+        return std::make_pair(index, std::move(*result));
     }
 
     auto await_resume(const as_tuple_tag &)
-- 
2.43.0


From 4a065f8d63a031827abbf1d1982e3f28fe4ec755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 52/55] fix: a stackful coroutine may complete without
 suspending

The frame lives on the stack, which is gone once the function returned. The promise was not
destroyed then, and destroyed before the stack of the function if that got unwound.
---
 include/boost/cobalt/experimental/context.hpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 5ae6aa4..4bdca43 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -40,16 +40,23 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     requires (!std::constructible_from<Promise, Args...> && std::is_default_constructible_v<Promise>)
   context_frame(Args && ...) {}
 
+  // the function got started, i.e. destroys the frame when it's done or unwound
+  bool started = false;
+
   void resume()
   {
-    callee = std::move(callee).resume();
+    auto c = std::move(callee).resume();
+    if (!c) // it ran off the end, i.e. the frame is gone.
+      return;
+    callee = std::move(c);
     if (auto af = std::exchange(after_resume, nullptr))
       af(this, after_resume_p);
   }
   void destroy()
   {
     auto c = std::exchange(callee, {});
-    this->~context_frame();
+    if (!started)
+      this->~context_frame();
   }
 
   template<typename Awaitable>
@@ -319,6 +326,15 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
 
     boost::context::fiber operator()(boost::context::fiber && f) const
     {
+      // The frame is destroyed after everything on the stack of the function
+      struct frame_guard
+      {
+        detail::context_frame<promise_type> * frame;
+        ~frame_guard() {frame->~context_frame();}
+      };
+      frame_guard guard{frame};
+      frame->started = true;
+
       auto & promise = frame->promise;
       frame->caller = std::move(f);
 
-- 
2.43.0


From 8f84b6853189e6fab1b039c84e62ef48ba0cd35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:37 +0000
Subject: [PATCH 53/55] fix: an exception of await_suspend is thrown in the
 stackful coroutine

It was thrown at whatever resumed the coroutine, i.e. left the coroutine suspended for good.
---
 include/boost/cobalt/experimental/context.hpp | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 4bdca43..b0a5688 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -13,6 +13,7 @@
 #include <boost/cobalt/experimental/frame.hpp>
 #include <boost/cobalt/config.hpp>
 #include <coroutine>
+#include <exception>
 #include <new>
 
 namespace boost::cobalt::experimental
@@ -32,6 +33,9 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
   void (*after_resume)(context_frame *, void *) = nullptr;
   void * after_resume_p;
 
+  // thrown by await_suspend, rethrown in the coroutine
+  std::exception_ptr error;
+
   template<typename ... Args>
     requires std::constructible_from<Promise, Args...>
   context_frame(Args && ... args) : frame<context_frame, Promise>(args...) {}
@@ -66,7 +70,13 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     {
       auto aw_ = static_cast<Awaitable*>(p);
       auto h = std::coroutine_handle<Promise>::from_address(this_) ;
-      aw_->await_suspend(h);
+      try
+      {
+        aw_->await_suspend(h);
+        return;
+      }
+      catch (...) {this_->error = std::current_exception();}
+      h.resume();
     };
   }
 
@@ -77,7 +87,10 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     {
       auto aw_ = static_cast<Awaitable*>(p);
       auto h = std::coroutine_handle<Promise>::from_address(this_) ;
-      if (!aw_->await_suspend(h))
+      bool suspended = false;
+      try {suspended = aw_->await_suspend(h);}
+      catch (...) {this_->error = std::current_exception();}
+      if (!suspended)
         h.resume();
     };
   }
@@ -89,7 +102,10 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     {
       auto aw_ = static_cast<Awaitable*>(p);
       auto h = std::coroutine_handle<Promise>::from_address(this_) ;
-      aw_->await_suspend(h).resume();
+      std::coroutine_handle<void> next = h;
+      try {next = aw_->await_suspend(h);}
+      catch (...) {this_->error = std::current_exception();}
+      next.resume();
     };
   }
 
@@ -104,6 +120,8 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
           static_cast<decltype(aw.await_suspend(std::declval<std::coroutine_handle<Promise>>()))*>(nullptr)
           );
       caller = std::move(caller).resume();
+      if (error)
+        std::rethrow_exception(std::exchange(error, nullptr));
     }
     return aw.await_resume();
   }
-- 
2.43.0


From 3029ce77e47e446a562c66154446129f7e3ceada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:46 +0000
Subject: [PATCH 54/55] fix: yield_context awaits like a coroutine

An exception of await_suspend is thrown in the stackful coroutine instead of the executor,
await_suspend may return its own handle and the typed handle can be resumed.
---
 .../cobalt/experimental/yield_context.hpp     | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/experimental/yield_context.hpp b/include/boost/cobalt/experimental/yield_context.hpp
index 800f6a6..0e45e4e 100644
--- a/include/boost/cobalt/experimental/yield_context.hpp
+++ b/include/boost/cobalt/experimental/yield_context.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/asio/spawn.hpp>
 #include <coroutine>
+#include <exception>
 
 template<typename Executor>
 struct std::coroutine_handle<boost::asio::basic_yield_context<Executor>>
@@ -22,9 +23,9 @@ struct std::coroutine_handle<boost::asio::basic_yield_context<Executor>>
   constexpr explicit operator bool() const noexcept { return true; }
 
   constexpr bool done() const noexcept { return false; }
-  void operator()() const noexcept {}
+  void operator()() const {resume();}
 
-  void resume() const noexcept {frame_->promiseresume();}
+  void resume() const {frame_->resume();}
   void destroy() const noexcept {frame_->destroy();}
 
   boost::asio::basic_yield_context<Executor> & promise() const noexcept { return frame_->promise; }
@@ -65,22 +66,37 @@ auto await(Aw && aw, boost::asio::basic_yield_context<Executor> ctx)
     using ch = std::coroutine_handle<boost::asio::basic_yield_context<Executor>>;
     typename ch::yield_context_frame fr{std::move(ctx)};
     ch h{fr};
+    // thrown by await_suspend, rethrown in the coroutine
+    std::exception_ptr error;
     ctx.spawned_thread_->suspend_with(
         [&]
         {
           using rt = decltype(std::forward<Aw>(aw).await_suspend(h));
-          if constexpr (std::is_void_v<rt>)
-            std::forward<Aw>(aw).await_suspend(h);
-          else if constexpr (std::is_same_v<rt, bool>)
+          std::coroutine_handle<void> next = h;
+          try
           {
-            if (!std::forward<Aw>(aw).await_suspend(h))
-              ctx.spawned_thread_->resume();
+            if constexpr (std::is_void_v<rt>)
+            {
+              std::forward<Aw>(aw).await_suspend(h);
+              return;
+            }
+            else if constexpr (std::is_same_v<rt, bool>)
+            {
+              if (std::forward<Aw>(aw).await_suspend(h))
+                return;
+            }
+            else
+              next = std::forward<Aw>(aw).await_suspend(h);
           }
-          else
-            std::forward<Aw>(aw).await_suspend(h).resume();
+          catch (...)
+          {
+            error = std::current_exception();
+          }
+          next.resume();
         }
     );
-
+    if (error)
+      std::rethrow_exception(error);
   }
   return std::forward<Aw>(aw).await_resume();
 
-- 
2.43.0


From 17452ce1d0ac88ee70266563d9fbaa1d3a708739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:43 +0000
Subject: [PATCH 55/55] fix: a stackful coroutine awaits an lvalue in place

It awaited a copy, as opposed to co_await.
---
 include/boost/cobalt/experimental/context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index b0a5688..39f8009 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -111,12 +111,12 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
 
   template<typename Awaitable>
-  auto do_await(Awaitable aw)
+  auto do_await(Awaitable && aw)
   {
     if (!aw.await_ready())
     {
       after_resume_p = & aw;
-      after_resume = do_resume<Awaitable>(
+      after_resume = do_resume<std::remove_reference_t<Awaitable>>(
           static_cast<decltype(aw.await_suspend(std::declval<std::coroutine_handle<Promise>>()))*>(nullptr)
           );
       caller = std::move(caller).resume();
-- 
2.43.0

