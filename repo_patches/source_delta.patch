From f458eae285d600ffb7e13f5aaec1b5674947716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 01/29] fix: Crc16Layer::mtu() returned 256 for a lower MTU of
 257, but the CRC takes two bytes

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..207da2e 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1440,7 +1440,7 @@ uint16_t Crc16Layer::compute(uint8_t input, uint16_t crc)
 size_t Crc16Layer::mtu() const
 {
 	size_t mtu = base::mtu();
-	if(mtu == 0 || mtu > 256U)
+	if(mtu == 0 || mtu > 257U)
 		return 256U;
 	if(mtu <= 3U)
 		return 1U;
-- 
2.43.0


From c42ba4a022ef8fe444dcb3bca98c3f11f2927b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:13 +0000
Subject: [PATCH 02/29] fix: CompressLayer did not reset its decoder, so every
 message but the first was decoded incorrectly

---
 src/compress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..902885a 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -94,6 +94,9 @@ void CompressLayer::decode(void* buffer, size_t len)
 	while(heatshrink_decoder_finish(&decoder()) == HSDR_FINISH_MORE)
 		decoderPoll();
 
+	// The next message is a new stream; the encoder resets too.
+	heatshrink_decoder_reset(&decoder());
+
 	base::decode(m_decodeBuffer.data(), m_decodeBufferSize);
 	m_state &= (uint8_t) ~(uint8_t)FlagDecoding;
 }
-- 
2.43.0


From 2b345187ea973aaa5059ee5ebff44ede529fc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:37 +0000
Subject: [PATCH 03/29] fix: CompressLayer had no reset(), so a partial message
 survived a reset of the protocol stack

---
 include/libstored/compress.h |  1 +
 src/compress.cpp             | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/libstored/compress.h b/include/libstored/compress.h
index 7b77792..22a71c4 100644
--- a/include/libstored/compress.h
+++ b/include/libstored/compress.h
@@ -64,6 +64,7 @@ public:
 	using base::encode;
 #		endif
 	virtual size_t mtu() const override;
+	virtual void reset() override;
 
 	void setPurgeableResponse(bool purgeable = true) final
 	{
diff --git a/src/compress.cpp b/src/compress.cpp
index 902885a..a164ac2 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -200,6 +200,19 @@ void CompressLayer::encoderPoll()
 	}
 }
 
+void CompressLayer::reset()
+{
+	if(m_encoder)
+		heatshrink_encoder_reset(&encoder());
+
+	if(m_decoder)
+		heatshrink_decoder_reset(&decoder());
+
+	m_decodeBufferSize = 0;
+	m_state = 0;
+	base::reset();
+}
+
 size_t CompressLayer::mtu() const
 {
 	// This is a stream; we cannot handle limited messages.
-- 
2.43.0


From b201f72f9ac26b6ae3d46a3f3029a8a9b6b552ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 04/29] fix: Debugger gave no response to the execution of a
 macro that holds only a separator

---
 src/debugger.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..2ed4a72 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -929,6 +929,8 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		return false;
 	case 1:
 		// Expect the separator and at least one char to execute.  Nothing to do.
+		// Still, every request gets a response.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From 92ed1a30baa5385edbdaed3c6989a879e4f016b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:12 +0000
Subject: [PATCH 05/29] fix: Debugger's WriteMem left gaps when writing more
 than 32 bytes, as the address was advanced by the number of hex characters

---
 src/debugger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2ed4a72..44a1246 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -714,7 +714,8 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			// wlen bytes are decoded from chunk hex characters.
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From b786dbf5ee1977ae3c49a8ee7a3cc0a3ebaa3482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 06/29] fix: StoreJournal accepted updates beyond the end of
 the store, as the check on key and length could wrap and was skipped for
 empty updates

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..d06d155 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -791,7 +791,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (key > bufferSize() || len > bufferSize() - key))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From 8bad0505fe47865a04421211a6608584a2867dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 07/29] fix: StoreJournal did not support stores of 64 KiB and
 larger, as there was no codec for keys of 3 bytes

---
 src/synchronizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index d06d155..b645847 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -245,6 +245,7 @@ StoreJournal::StoreJournal(
 	case 2:
 		m_keyCodec = &impl::keyCodec2;
 		break;
+	case 3:
 	case 4:
 		m_keyCodec = &impl::keyCodec4;
 		break;
-- 
2.43.0


From b01122adfc871017c09bbc007eace39e1f8f3061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 08/29] fix: Synchronizer looked up the id of a received Bye
 among its own ids, so it could end or restart the synchronization of another
 store

---
 src/synchronizer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index b645847..7d96cc4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1232,14 +1232,18 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// The other party does not know the id we used, which is the one it has
+			// chosen before.
+			StoreMap::iterator it = m_store.begin();
+			while(it != m_store.end() && it->second.idOut != id)
+				++it;
+
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*it->first);
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 2ebf4efc00c787b72fafe60b671ba01b3a666716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 09/29] fix: Synchronizer applied the buffer of a Welcome to a
 store that does not synchronize from that connection, before rejecting it

---
 src/synchronizer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 7d96cc4..b63f788 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1167,15 +1167,15 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
-		if(!seq) {
+		StoreInfo& si = m_store[j->second];
+		if(!si.source) {
+			// Wrong direction.
 			bye(id);
 			break;
 		}
 
-		StoreInfo& si = m_store[j->second];
-		if(!si.source) {
-			// Wrong direction.
+		seq = j->second->decodeBuffer(buffer, len);
+		if(!seq) {
 			bye(id);
 			break;
 		}
-- 
2.43.0


From 485c1676337ac5b55d372d041799cffe4994fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:27 +0000
Subject: [PATCH 10/29] fix: Allow moving data at the end of an unbounded FIFO
 buffer

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..fb20f9d 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From dcfdf21d472305a7a33c5b2ae39713be80400c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 11/29] fix: Popping an empty message must not free other
 messages in a MessageFifo

---
 include/libstored/fifo.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index fb20f9d..0be902c 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -913,7 +913,12 @@ public:
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		// An empty message does not occupy the buffer. Its position may
+		// be outdated, when the buffer has been reset after it was pushed.
+		if(msg.second)
+			m_rp.store(
+				(buffer_pointer)(msg.first + msg.second),
+				std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
-- 
2.43.0


From 167ca18119a7371c35835a244e68e2ffd808f399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 12/29] fix: Wrap-around of a FIFO with a capacity close to the
 range of its pointers

---
 include/libstored/fifo.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 0be902c..01bee70 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,11 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// Note that a pointer may be too small to hold the sum before wrap-around.
+		size_t rp_next = (size_t)rp + count;
+		if(wp < rp_next && rp_next >= m_buffer.size())
+			rp_next -= m_buffer.size();
+		rp = (pointer)rp_next;
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -713,9 +715,11 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// Note that a pointer may be too small to hold the sum.
+			size_t next = (size_t)wp + count;
+			if(next >= m_buffer.size())
+				next -= m_buffer.size();
+			wp_next = (pointer)next;
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From e39ff1ab31eebf76078bcd848c53faf2d015132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 13/29] fix: Order the pointers of a thread-safe FIFO with the
 data they guard

---
 include/libstored/fifo.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 01bee70..1d548f1 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -473,6 +473,13 @@ class Fifo {
 
 	typedef Buffer<T, Capacity == 0 ? 0 : Capacity + 1> Buffer_type;
 
+	// Observing a pointer that is moved by the other side, must be ordered
+	// before accessing the data it guards.
+	static constexpr std::memory_order load_order =
+		ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	static constexpr std::memory_order store_order =
+		ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+
 public:
 	typedef T type;
 	typedef typename Buffer_type::pointer pointer;
@@ -494,7 +501,7 @@ public:
 
 	bool empty() const noexcept
 	{
-		return m_wp.load(std::memory_order_relaxed) == m_rp.load(std::memory_order_relaxed);
+		return m_wp.load(load_order) == m_rp.load(load_order);
 	}
 
 	bool full() const noexcept
@@ -504,15 +511,15 @@ public:
 
 	size_t available() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order);
+		pointer rp = m_rp.load(load_order);
 		return wp >= rp ? wp - rp : wp + m_buffer.size() - rp;
 	}
 
 	size_t available_chunk() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order);
+		pointer rp = m_rp.load(load_order);
 		return wp >= rp ? wp - rp : m_buffer.size() - rp;
 	}
 
@@ -581,7 +588,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			m_rp.store(rp, store_order);
 		}
 	}
 
@@ -682,7 +689,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(m_wp.load(std::memory_order_relaxed), std::memory_order_relaxed);
+			m_rp.store(m_wp.load(std::memory_order_relaxed), store_order);
 		}
 	}
 
@@ -692,7 +699,7 @@ public:
 	{
 		pointer rp = m_rp.load(
 			ThreadSafe ? std::memory_order_consume : std::memory_order_relaxed);
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order);
 		return View{m_buffer, rp, wp};
 	}
 
@@ -849,6 +856,11 @@ class MessageFifo {
 	typedef typename Buffer_type::pointer buffer_pointer;
 	typedef std::pair<buffer_pointer, buffer_pointer> Msg;
 
+	static constexpr std::memory_order load_order =
+		ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	static constexpr std::memory_order store_order =
+		ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+
 public:
 	typedef Message type;
 	typedef MessageView const_type;
@@ -890,7 +902,7 @@ public:
 		if(m_msg.full())
 			return 0;
 
-		size_t rp = m_rp.load(std::memory_order_relaxed);
+		size_t rp = m_rp.load(load_order);
 		size_t wp = m_wp.load(std::memory_order_relaxed);
 		size_t partial = m_wp_partial - wp;
 		size_t sz = size();
@@ -921,8 +933,7 @@ public:
 		// be outdated, when the buffer has been reset after it was pushed.
 		if(msg.second)
 			m_rp.store(
-				(buffer_pointer)(msg.first + msg.second),
-				std::memory_order_relaxed);
+				(buffer_pointer)(msg.first + msg.second), store_order);
 		m_msg.pop_front();
 	}
 
@@ -986,7 +997,7 @@ public:
 		if(!message.size())
 			return true;
 
-		buffer_pointer rp = m_rp.load(std::memory_order_relaxed);
+		buffer_pointer rp = m_rp.load(load_order);
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		buffer_pointer wp_partial = m_wp_partial;
 		stored_assert(wp_partial >= wp);
-- 
2.43.0


From 19c1a43c3c2cbb2d529462fe0b48ffb2da60cae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 14/29] fix: Buffer copied and moved bytes instead of items, so
 an unbounded Fifo lost data of items larger than a byte

---
 include/libstored/fifo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 1d548f1..fdf83a6 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,14 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(typename B::value_type));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src],
+				len * sizeof(typename B::value_type));
 	}
 };
 
-- 
2.43.0


From 7b2d5d2c56122c796472c6975d0b25c5513a1cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 15/29] fix: A message as large as the buffer never fits a
 bounded MessageFifo

The buffer of Capacity bytes holds at most Capacity - 1 bytes, but
FifoLoopback1::mtu() reported Capacity and append_back() did not throw for
such a message, although it will never fit.
---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index fdf83a6..54fd171 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1004,7 +1004,7 @@ public:
 		stored_assert(wp_partial >= wp);
 		size_t partial = (size_t)(wp_partial - wp);
 
-		if(unlikely(Capacity > 0 && message.size() + partial > Capacity)) {
+		if(unlikely(Capacity > 0 && message.size() + partial > capacity())) {
 			// Will never fit.
 #    ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
@@ -1250,7 +1250,7 @@ public:
 	virtual size_t mtu() const override
 	{
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		return res ? std::min(m_fifo.capacity(), res) : m_fifo.capacity();
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From bde6d3a2fa7064daedcaaa8415b2d907e7804104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 16/29] fix: Copy the value of an unaligned function callback
 in the right direction

Setting a function with an unaligned buffer passed an uninitialized value to
the callback and overwrote the caller's buffer. Getting it did not return the
value at all.
---
 include/libstored/types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..cc9dea7 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -949,11 +949,11 @@ public:
 			type v;
 
 			if(set) {
+				memcpy(&v, buffer, sizeof(v));
 				container().callback(true, &v, sizeof(v), id());
-				memcpy(buffer, &v, sizeof(v));
 			} else {
-				memcpy(&v, buffer, sizeof(v));
 				container().callback(false, &v, sizeof(v), id());
+				memcpy(buffer, &v, sizeof(v));
 			}
 
 			return sizeof(v);
@@ -1465,11 +1465,11 @@ public:
 			uint64_t v = 0;
 
 			if(set) {
+				memcpy(&v, buffer, size_);
 				container().callback(true, &v, size_, (unsigned int)m_f);
-				memcpy(buffer, &v, size_);
 			} else {
-				memcpy(&v, buffer, size_);
 				container().callback(false, &v, size_, (unsigned int)m_f);
+				memcpy(buffer, &v, size_);
 			}
 
 			return size_;
-- 
2.43.0


From be59fe428ee1fab2edea71cdfb4e0743afe1cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:35 +0000
Subject: [PATCH 17/29] fix: The templates variable() and function() of a store
 did not compile

---
 include/libstored/store.h.tmpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 7a5c849..fb08375 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -915,7 +915,7 @@ public:
 	Variable<T,Implementation> variable(char const* name,
 		size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeVariable(name, len).apply(*this);
+		return freeVariable<T>(name, len).apply(implementation());
 	}
 
 	/*!
@@ -942,7 +942,7 @@ public:
 	Function<T,Implementation>
 	function(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeFunction(name, len).apply(*this);
+		return freeFunction<T>(name, len).apply(implementation());
 	}
 
 	/*!
-- 
2.43.0


From 94aa12a70e0c489039f6fbff7f6d73c1b2d97596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 18/29] fix: FreeFunction could not hold the id of the last
 function of a store with 255 or 256 functions

---
 include/libstored/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index cc9dea7..6e61f6f 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1119,7 +1119,7 @@ public:
 	typedef unsigned int f_type;
 #  else
 	typedef typename value_type<static_cast<uintmax_t>(
-		Container::FunctionCount > 0 ? Container::FunctionCount - 1 : 0)>::type f_type;
+		Container::FunctionCount)>::type f_type;
 #  endif
 
 	/*! \brief Constructor for an invalid variable. */
@@ -1137,7 +1137,7 @@ protected:
 	{
 #  if STORED_cplusplus < 201103L || STORED_cplusplus >= 201402L
 		// For C++11, the body must be empty.
-		stored_assert(f < std::numeric_limits<f_type>::max());
+		stored_assert(f <= std::numeric_limits<f_type>::max());
 #  endif
 	}
 
-- 
2.43.0


From c34477ce9ae2f13be97b60ff24fa85446e064649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 19/29] fix: StoreFunction::variant(), Variant::key() and
 Variant::function(Container&) did not compile

---
 include/libstored/types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 6e61f6f..6a28b66 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1273,7 +1273,7 @@ public:
 		: m_container(f.valid() ? &f.container() : nullptr)
 		, m_f(f.valid() ? f.id() : 0)
 		, m_len(sizeof(T))
-		, m_type(f.type())
+		, m_type((uint8_t)((unsigned int)toType<T>::type | (unsigned int)Type::FlagFunction))
 #  ifdef _DEBUG
 		, m_entry()
 #  endif
@@ -1777,7 +1777,7 @@ public:
 	typename Container::Key key() const noexcept
 	{
 		stored_assert(isVariable());
-		return container()->bufferToKey(m_buffer);
+		return container().bufferToKey(m_buffer);
 	}
 
 	/*!
@@ -1966,7 +1966,7 @@ public:
 	 * \brief Get the typed function corresponding to this variant.
 	 */
 	template <typename T, typename Container>
-	Variable<T, Container> function(Container& container) const noexcept
+	Function<T, Container> function(Container& container) const noexcept
 	{
 		return apply<Container>(container).template function<T>();
 	}
-- 
2.43.0


From 1fd69cbb23c59da22700aeb6957fda6e6331d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 20/29] fix: Variant::get<T>() and set<T>() rejected functions
 in an assert

---
 include/libstored/types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 6a28b66..e6e89b5 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1329,7 +1329,7 @@ public:
 	T get() const
 	{
 		stored_assert(Type::isFixed(type()));
-		stored_assert(toType<T>::type == type());
+		stored_assert(toType<T>::type == (type() & ~Type::FlagFunction));
 		stored_assert(sizeof(T) == size());
 		T data;
 		size_t len = get(&data, sizeof(T));
@@ -1423,7 +1423,7 @@ public:
 	void set(T value)
 	{
 		stored_assert(Type::isFixed(type()));
-		stored_assert(toType<T>::type == type());
+		stored_assert(toType<T>::type == (type() & ~Type::FlagFunction));
 		stored_assert(sizeof(T) == size());
 		set(&value, sizeof(T));
 	}
-- 
2.43.0


From 06b11af07f4c71d6bfe04a50854c7ec937cb628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:58 +0000
Subject: [PATCH 21/29] fix: Variant::copy() did not terminate a string that
 got shorter

---
 include/libstored/types.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index e6e89b5..6666b85 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1838,9 +1838,11 @@ public:
 						  static_cast<char*>(buffer()),
 						  static_cast<char const*>(other.buffer()), len)
 					  != 0;
-			if(changed)
-				strncpy(static_cast<char*>(buffer()),
-					static_cast<char const*>(other.buffer()), len);
+			if(changed) {
+				// The byte after the buffer of the string is reserved for the \0.
+				char* dst = static_cast<char*>(buffer());
+				dst[strncpy(dst, static_cast<char const*>(other.buffer()), len)] = '\0';
+			}
 		} else {
 			if(Config::EnableHooks)
 				changed = memcmp(buffer(), other.buffer(), len) != 0;
-- 
2.43.0


From 4e40a6fc20880bffc4848e2094e64e9757629b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 22/29] fix: A blob at the end of a store was rejected in an
 assert

---
 include/libstored/store.h.tmpl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index fb08375..956305e 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -449,7 +449,8 @@ private:
 	 */
 	Variant<Implementation> _variantv(Type::type type, size_t offset, size_t len) noexcept
 	{
-		stored_assert(offset + len < sizeof(m_data.buffer));
+		// A string has a terminator, on top of its length.
+		stored_assert(offset + len + (type == Type::String ? 1U : 0U) <= sizeof(m_data.buffer));
 		stored_assert(!Type::isFunction(type));
 		return Variant<Implementation>(implementation(), type, &buffer()[offset], len);
 	}
-- 
2.43.0


From c94dba976346767104680febc746c427054c89ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 23/29] fix: An ESC right before a terminal start or end
 sequence hid that sequence

---
 src/protocol.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 207da2e..fde047b 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -245,7 +245,8 @@ void TerminalLayer::decode(void* buffer, size_t len)
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else
+			} else if(c != Esc)
+				// In case of another ESC, that one may start the message.
 				m_decodeState = StateNormal;
 			break;
 		case StateDebug:
@@ -261,9 +262,11 @@ void TerminalLayer::decode(void* buffer, size_t len)
 				m_buffer.clear();
 				nonDebugOffset = i + 1;
 			} else {
-				m_decodeState = StateDebug;
 				m_buffer.push_back((char)Esc);
-				m_buffer.push_back(c);
+				if(c != Esc) {
+					m_decodeState = StateDebug;
+					m_buffer.push_back(c);
+				} // else: this ESC may end the message.
 			}
 			break;
 		}
-- 
2.43.0


From 6dac1844673163fecb24296f870a38dc7cfd9064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 24/29] fix: Waiting indefinitely in a file or ZeroMQ layer did
 not wait

---
 src/protocol.cpp | 3 ++-
 src/zmq.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index fde047b..b4b5ea9 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1782,7 +1782,8 @@ int PolledFileLayer::block(
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
 			if(timeout_us <= 0 && errno == EINTR)
diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1de8a22..8591af5 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -134,7 +134,8 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
 			err = errno;
-- 
2.43.0


From c3611a252e0ba02fda0ab9100365be7311b8dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:46 +0000
Subject: [PATCH 25/29] fix: A retried ZeroMQ send reported success as an
 error, and the reverse

---
 src/zmq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 8591af5..c6e7012 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -297,7 +297,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
-		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) != -1)
+		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) == -1)
 			// Some error.
 			setLastError(errno);
 		else
-- 
2.43.0


From 6890ac4fb5589de938d046a09d6dafe5efcec0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 26/29] fix: A ZeroMQ socket could not be modified in or
 removed from a Poller

---
 include/libstored/poller.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 7a5c528..8e9cec4 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1169,8 +1169,7 @@ public:
 	struct compare_socket {
 		bool operator()(PollableZmqSocket const& p, void* socket) const
 		{
-			// NOLINTNEXTLINE(bugprone-multi-level-implicit-pointer-conversion)
-			return p.socket == (void*)&socket;
+			return p.socket == socket;
 		}
 	};
 
-- 
2.43.0


From a5cfdb1921dfbbe5d4214ad0f9efcad1bc9687c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 27/29] fix: Modifying the events of a descriptor in a Poller
 kept the old registration

---
 include/libstored/poller.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 8e9cec4..d39630d 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1248,10 +1248,11 @@ private:
 		if(it == m_pollables.end())
 			return ESRCH;
 
-		T* p = static_cast<T*>(*it);
-		stored_assert(p);
-		void* user_data = p->user_data;
-		remove(*p);
+		void* user_data = (*it)->user_data;
+		int res = remove<T, A, C>(a, c);
+		if(res)
+			return res;
+
 		return add<T, A>(a, user_data, events);
 	}
 
-- 
2.43.0


From c1b6005eb32dc59d20dfda34e06aded895351cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 28/29] fix: Polling with a negative timeout in microseconds
 did not wait

---
 include/libstored/poller.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index d39630d..8b8b591 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1067,7 +1067,7 @@ public:
 	Result const& poll(long timeout_us, bool suspend = false)
 	{
 		STORED_UNUSED(suspend)
-		return base::poll((int)(timeout_us / 1000L));
+		return base::poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 	}
 
 	struct compare_fd {
-- 
2.43.0


From 9aa5e4b377d6b03de901fa8de4443e48a087da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:34 +0000
Subject: [PATCH 29/29] fix: Listing a store without prefix kept the prefix of
 the previous listing

---
 src/directory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..a77bb1f 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -98,6 +98,8 @@ void list(
 
 	if(prefix)
 		name = prefix;
+	else
+		name.clear();
 
 	list(container, buffer, directory, f, arg, &name);
 }
-- 
2.43.0

