From 24ae89e9ab79c62f13742bc8ea072fbe65239b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 01/54] fix: RingBuf::resize must provide the requested
 capacity when it is a power of two

---
 source/cyCore/core/cyc_ring_buf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 09df78a..4ceda41 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -32,9 +32,9 @@ void RingBuf::resize(size_t need_size)
 {
 	if (capacity() >= need_size) return;
 
-	//auto inc size
+	//auto inc size(one byte is used for detecting the full condition)
 	size_t new_size = 2;
-	while (new_size < need_size) new_size *= 2;
+	while (new_size <= need_size) new_size *= 2;
 
 	//copy old data
 	size_t old_size = size();
@@ -55,7 +55,7 @@ void RingBuf::resize(size_t need_size)
 void RingBuf::memcpy_into(const void *src, size_t count)
 {
 	if (get_free_size() < count) {
-		resize(size() + count + 1);
+		resize(size() + count);
 	}
 
 	char* csrc = (char*)src;
-- 
2.43.0


From ffb0a6d7f4cbe10eb26688487000ad1cf1b2a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 02/54] fix: RingBuf::search reports a match at the read
 position as 0

---
 source/cyCore/core/cyc_ring_buf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index 4ceda41..a06226c 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -135,7 +135,7 @@ ssize_t RingBuf::search(size_t off, uint8_t data) const
 		const uint8_t* p = (uint8_t*)memchr(m_buf + read_off, (int)data, n);
 		if (p != nullptr) {
 			size_t pos = (size_t)(std::ptrdiff_t)(p - m_buf);
-			return (pos > m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
+			return (pos >= m_read) ? (ssize_t)(pos - m_read) : (ssize_t)(pos + m_end - m_read);
 		}
 
 		read_off += n;
-- 
2.43.0


From 74bcb83088db26c6179a6a8a244540e6a992b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 03/54] fix: RingBuf::peek and checksum range checks must not
 overflow

---
 source/cyCore/core/cyc_ring_buf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_ring_buf.cpp b/source/cyCore/core/cyc_ring_buf.cpp
index a06226c..a86e001 100644
--- a/source/cyCore/core/cyc_ring_buf.cpp
+++ b/source/cyCore/core/cyc_ring_buf.cpp
@@ -153,7 +153,7 @@ size_t RingBuf::peek(size_t off, void* dst, size_t count) const
 {
 	size_t bytes_used = size();
 	if (off > bytes_used) return 0;
-	if (off + count > bytes_used) count = bytes_used - off;
+	if (count > bytes_used - off) count = bytes_used - off;
 	if (count == 0 || dst == 0) return 0;
 
 	char* cdst = (char*)dst;
@@ -368,7 +368,7 @@ uint32_t RingBuf::checksum(size_t off, size_t count) const
 
 	size_t bytes_used = size();
 	if (off > bytes_used) return adler;
-	if (off + count > bytes_used) return adler;
+	if (count > bytes_used - off) return adler;
 	if (count == 0) return adler;
 
 	size_t read_off = (m_read + off) % m_end;
-- 
2.43.0


From 41c13cd83b9feb95ac44ac5e32a54de2983f49b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:42 +0000
Subject: [PATCH 04/54] fix: adler32 of an empty piece keeps the running
 checksum

---
 source/cyCrypt/crypt/cyr_adler32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_adler32.cpp b/source/cyCrypt/crypt/cyr_adler32.cpp
index e50c4d2..c479244 100644
--- a/source/cyCrypt/crypt/cyr_adler32.cpp
+++ b/source/cyCrypt/crypt/cyr_adler32.cpp
@@ -69,8 +69,12 @@ uint32_t adler32(uint32_t adler, const uint8_t* buf, size_t len)
     unsigned n;
 	
 	/* initial Adler-32 value */
-	if (buf == 0 || len == 0)
+	if (buf == 0)
 		return INITIAL_ADLER;
+
+	/* an empty piece doesn't change the running value */
+	if (len == 0)
+		return adler;
 	
 	/* split Adler-32 into component sums */
     sum2 = (adler >> 16) & 0xffff;
-- 
2.43.0


From a70ac4825808f087d7558860b14af28a056a9560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 05/54] fix: set_nodelay must call socket_api::setsockopt
 (argument dependent lookup picked ::setsockopt, inverting the result)

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 26976dd..664d062 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -300,7 +300,7 @@ bool set_keep_alive(socket_t s, bool on)
 bool set_nodelay(socket_t s, bool on)
 {
 	int optval = on ? 1 : 0;
-	return setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
+	return socket_api::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &optval, static_cast<socklen_t>(sizeof optval));
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 96cf0939397610bda8403963f9ee37e5ae7388d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:23 +0000
Subject: [PATCH 06/54] fix: pass the level and option name to the setsockopt
 failure log

---
 source/cyCore/core/cyc_socket_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_socket_api.cpp b/source/cyCore/core/cyc_socket_api.cpp
index 664d062..6eb91fb 100644
--- a/source/cyCore/core/cyc_socket_api.cpp
+++ b/source/cyCore/core/cyc_socket_api.cpp
@@ -261,7 +261,7 @@ bool setsockopt(socket_t s, int level, int optname, const void *optval, size_t o
 {
 	if (0 != ::setsockopt(s, level, optname, (const char*)optval, (socklen_t)optlen))
 	{
-		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", get_lasterror());
+		CY_LOG(L_ERROR, "socket_api::setsockopt, level=%d, optname=%d, err=%d", level, optname, get_lasterror());
 		return false;
 	}
 	return true;
-- 
2.43.0


From ec2044e4d952f07bd98845cc632a4e2d3e52a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:26 +0000
Subject: [PATCH 07/54] fix: an address that the system cannot report must not
 be uninitialised

---
 source/cyNetwork/network/cyn_address.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_address.cpp b/source/cyNetwork/network/cyn_address.cpp
index 8b7c56b..ef9e08f 100644
--- a/source/cyNetwork/network/cyn_address.cpp
+++ b/source/cyNetwork/network/cyn_address.cpp
@@ -55,6 +55,7 @@ Address& Address::operator=(const Address& other)
 //-------------------------------------------------------------------------------------
 Address::Address(bool peer, socket_t sfd)
 {
+	memset(&m_address, 0, sizeof m_address);
 	if (peer)
 		socket_api::getpeername(sfd, m_address);
 	else
-- 
2.43.0


From c4a4286a490e543ebb2fefdeb6a026daee02d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:16 +0000
Subject: [PATCH 08/54] fix: Diffie-Hellman exponent zero recursed forever, and
 a peer key equal to P was not reduced

---
 source/cyCrypt/crypt/cyr_dhexchange.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/cyCrypt/crypt/cyr_dhexchange.cpp b/source/cyCrypt/crypt/cyr_dhexchange.cpp
index f4491fd..c87efd5 100644
--- a/source/cyCrypt/crypt/cyr_dhexchange.cpp
+++ b/source/cyCrypt/crypt/cyr_dhexchange.cpp
@@ -138,6 +138,12 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 	dhkey_t t;
 	dhkey_t half_b = b;
 
+	if (_u128_is_zero(b)) {
+		r->dq.low = 1;
+		r->dq.high = 0;
+		return;
+	}
+
 	if (b.dq.high == 0 && b.dq.low == 1) {
 		*r = a;
 		return;
@@ -159,7 +165,7 @@ _powmodp_r(dhkey_t* r, const dhkey_t& a, const dhkey_t& b)
 static void 
 _powmodp(dhkey_t* r, dhkey_t a, dhkey_t b)
 {
-	if (_u128_compare(a, P)>0)
+	if (_u128_compare(a, P) >= 0)
 		_u128_sub(&a, a, P);
 
 	_powmodp_r(r, a, b);
-- 
2.43.0


From 6238d7678ce839f6c3875c523cfae86bfa45ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:41 +0000
Subject: [PATCH 09/54] fix: LockFreeQueue::push must not reserve a slot in a
 full queue

---
 source/cyCore/core/cyc_lf_queue.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/cyCore/core/cyc_lf_queue.h b/source/cyCore/core/cyc_lf_queue.h
index be28def..aca3f52 100644
--- a/source/cyCore/core/cyc_lf_queue.h
+++ b/source/cyCore/core/cyc_lf_queue.h
@@ -59,21 +59,24 @@ bool LockFreeQueue<ELEM_T, Q_SIZE>::push(const ELEM_T &data)
 	uint32_t currentReadIndex;
 	uint32_t currentWriteIndex;
 
-	do
+	for (;;)
 	{
 		currentWriteIndex = m_writeIndex;
 		currentReadIndex = m_readIndex;
 		if (_countToIndex(currentWriteIndex + 1) ==
 			_countToIndex(currentReadIndex))
 		{
-			if (m_count > (Q_SIZE >> 1))
+			if (currentWriteIndex == m_writeIndex)
 				// the queue is full
 				return false;
 			else
 				//maybe this thread was blocked between m_write_index.get() and m_read_index.get(), cause other threads write and read
 				continue;
 		}
-	} while (!atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)));
+
+		if (atomic_compare_exchange(m_writeIndex, currentWriteIndex, (currentWriteIndex + 1)))
+			break;
+	}
 
 	// We know now that this index is reserved for us. Use it to save the data
 	m_queue[_countToIndex(currentWriteIndex)] = data;
-- 
2.43.0


From 8cb4a6c93e66f60bd0196603bf7c07d59d0a2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:41 +0000
Subject: [PATCH 10/54] fix: a single compare and exchange must not fail
 spuriously

---
 source/cyCore/core/cyc_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_atomic.h b/source/cyCore/core/cyc_atomic.h
index 8288578..f1ff483 100644
--- a/source/cyCore/core/cyc_atomic.h
+++ b/source/cyCore/core/cyc_atomic.h
@@ -18,7 +18,7 @@ typedef std::atomic<bool>		atomic_bool_t;
 template<typename T>
 inline bool atomic_compare_exchange(std::atomic<T>& obj, T expected, T desired) 
 {
-	return obj.compare_exchange_weak(expected, desired);
+	return obj.compare_exchange_strong(expected, desired);
 }
 
 template<typename T>
-- 
2.43.0


From 82d5fa11a6234f1701fb14d13c86dc990305027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:47 +0000
Subject: [PATCH 11/54] fix: a message sent while the work thread finished
 draining its queue lost its wakeup

---
 source/cyEvent/event/cye_work_thread.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/cyEvent/event/cye_work_thread.cpp b/source/cyEvent/event/cye_work_thread.cpp
index 18c4040..eb6eb62 100644
--- a/source/cyEvent/event/cye_work_thread.cpp
+++ b/source/cyEvent/event/cye_work_thread.cpp
@@ -80,25 +80,26 @@ void WorkThread::_on_message(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
+	//clear the wakeup bytes
 	for (;;) {
 		int8_t dummy;
 		if (m_pipe.read((char*)&dummy, sizeof(dummy)) <= 0) break;
+	}
 
-		for (;;) {
-			Packet* packet = nullptr;
-			if (!m_message_queue.pop(packet)) break;
+	//set empty flag before the queue is drained, so that a message pushed after the last pop writes a new wakeup byte
+	m_is_queue_empty = true;
 
-			//call listener
-			if (m_on_message) {
-				m_on_message(packet);
-			}
+	for (;;) {
+		Packet* packet = nullptr;
+		if (!m_message_queue.pop(packet)) break;
 
-			Packet::free_packet(packet);
+		//call listener
+		if (m_on_message) {
+			m_on_message(packet);
 		}
-	}
 
-	//set empty flag
-	m_is_queue_empty = true;
+		Packet::free_packet(packet);
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 4df777db2cb63ed5629b8d4d393b1bb4bdb424d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:19 +0000
Subject: [PATCH 12/54] fix: a floating point maximum tracker must start from
 the lowest value

---
 source/cyUtility/utility/cyu_statistics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyUtility/utility/cyu_statistics.h b/source/cyUtility/utility/cyu_statistics.h
index afe3892..0543d8a 100644
--- a/source/cyUtility/utility/cyu_statistics.h
+++ b/source/cyUtility/utility/cyu_statistics.h
@@ -35,7 +35,7 @@ public:
 	MinMaxValue() 
 	{
 		m_min = std::numeric_limits<T>::max();
-		m_max = std::numeric_limits<T>::min();
+		m_max = std::numeric_limits<T>::lowest();
 	}
 
 	MinMaxValue(const T& init) 
-- 
2.43.0


From 4bddb4c212b6dbc784e8e6784fedd65c6e9babf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 13/54] fix: a SOCKS5 domain name with an embedded NUL must be
 rejected, not truncated

---
 samples/socks5/s5_protocol.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/samples/socks5/s5_protocol.cpp b/samples/socks5/s5_protocol.cpp
index 17bd13a..4594fd6 100644
--- a/samples/socks5/s5_protocol.cpp
+++ b/samples/socks5/s5_protocol.cpp
@@ -94,6 +94,7 @@ int32_t s5_get_connect_request(RingBuf& inputBuf, Address& address, std::string&
 
 		char domain_name[260] = { 0 };
 		inputBuf.memcpy_out(domain_name, domain_length);
+		if (memchr(domain_name, 0, domain_length) != nullptr) return S5ERR_PROTOCOL_ERR;
 		
 		sockaddr_in addr;
 		memset(&addr, 0, sizeof(addr));
-- 
2.43.0


From 6a0f8334a43bd6ee69285debab3357a1421af1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 14/54] fix: an incomplete SOCKS5 request is not an error

---
 samples/socks5/s5_main.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/socks5/s5_main.cpp b/samples/socks5/s5_main.cpp
index 325e8cf..4e9e86d 100644
--- a/samples/socks5/s5_main.cpp
+++ b/samples/socks5/s5_main.cpp
@@ -221,6 +221,7 @@ private:
 		{
 			//handshake
 			int32_t s5_ret = s5_get_handshake(inputBuf);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "tunnel[%d]: handshake error, code=%d", conn->get_id(), s5_ret);
 				server->shutdown_connection(conn);
@@ -242,6 +243,7 @@ private:
 			Address address;
 			std::string domain;
 			int32_t s5_ret = s5_get_connect_request(inputBuf, address, domain);
+			if (s5_ret == S5ERR_NEED_MORE_DATA) return;
 			if (s5_ret != S5ERR_SUCCESS) {
 				CY_LOG(L_WARN, "get connect request error, code=%d", s5_ret);
 				server->shutdown_connection(conn);
-- 
2.43.0


From 588a5747eec6c48b7fbca6bd9f98f2eb42564495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 15/54] fix: a connection's messages must not be torn, lost or
 sent after close when several threads send

---
 .../cyNetwork/network/cyn_tcp_connection.cpp  | 122 ++++++++++--------
 source/cyNetwork/network/cyn_tcp_connection.h |   3 -
 2 files changed, 65 insertions(+), 60 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index a310074..da147ad 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -74,7 +74,10 @@ TcpConnection::~TcpConnection()
 	assert(get_state()==kDisconnected);
 	assert(m_socket == INVALID_SOCKET);
 	assert(m_event_id == Looper::INVALID_EVENT_ID);
-	assert(m_write_buf_lock == nullptr);
+
+	//destroy write buf lock
+	sys_api::mutex_destroy(m_write_buf_lock);
+	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
@@ -104,6 +107,9 @@ void TcpConnection::send(const char* buf, size_t len)
 		//write to output buf
 		sys_api::auto_mutex lock(m_write_buf_lock);
 
+		//the connection may be shut down before we got the lock
+		if (get_state() != kConnected) return;
+
 		//write to write buffer
 		m_write_buf.memcpy_into(buf, len);
 
@@ -113,21 +119,12 @@ void TcpConnection::send(const char* buf, size_t len)
 	}
 }
 
-//-------------------------------------------------------------------------------------
-bool TcpConnection::_is_writeBuf_empty(void) const
-{
-	sys_api::auto_mutex lock(m_write_buf_lock);
-	return  m_write_buf.empty();
-}
-
 //-------------------------------------------------------------------------------------
 void TcpConnection::_send(const char* buf, size_t len)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 
 	bool faultError = false;
-	size_t remaining = len;
-	ssize_t nwrote = 0;
 
 	if (m_state != kConnected)
 	{
@@ -136,54 +133,60 @@ void TcpConnection::_send(const char* buf, size_t len)
 		return;
 	}
 
-	//nothing in write buf, send it directly
-	if (!(m_looper->is_write(m_event_id)) && _is_writeBuf_empty())
 	{
-		nwrote = socket_api::write(m_socket, buf, len);
-		if (nwrote >= 0)
+		//hold the lock until the whole message is written or queued, a message
+		//sent by other thread must not be placed in the middle of it
+		sys_api::auto_mutex lock(m_write_buf_lock);
+		size_t remaining = len;
+		ssize_t nwrote = 0;
+
+		//nothing in write buf, send it directly
+		if (!(m_looper->is_write(m_event_id)) && m_write_buf.empty())
 		{
-			if (m_write_statistics) {
-				m_write_statistics->push(nwrote);
+			nwrote = socket_api::write(m_socket, buf, len);
+			if (nwrote >= 0)
+			{
+				if (m_write_statistics) {
+					m_write_statistics->push(nwrote);
+				}
+				remaining = len - (size_t)nwrote;
 			}
-			remaining = len - (size_t)nwrote;
-		}
-		else
-		{
-			nwrote = 0;
-			int err = socket_api::get_lasterror();
-
-			if(!socket_api::is_lasterror_WOULDBLOCK())
+			else
 			{
-				CY_LOG(L_ERROR, "socket send error, err=%d", err);
+				nwrote = 0;
+				int err = socket_api::get_lasterror();
+
+				if(!socket_api::is_lasterror_WOULDBLOCK())
+				{
+					CY_LOG(L_ERROR, "socket send error, err=%d", err);
 
 #ifdef CY_SYS_WINDOWS
-				if (err == WSAESHUTDOWN || err == WSAENETRESET)
+					if (err == WSAESHUTDOWN || err == WSAENETRESET)
 #else
-				if (err == EPIPE || err == ECONNRESET)
+					if (err == EPIPE || err == ECONNRESET)
 #endif
-				{
-					faultError = true;
+					{
+						faultError = true;
+					}
 				}
 			}
 		}
-	}
 
-	//shutdown if socket work with fault
-	if (faultError) {
-		m_looper->disable_all(m_event_id);
-		shutdown();
+		if (!faultError) {
+			if (remaining > 0) {
+				//write to write buffer
+				m_write_buf.memcpy_into(buf + nwrote, remaining);
+			}
 
-		return;
+			//enable write event, wait socket ready
+			m_looper->enable_write(m_event_id);
+		}
 	}
 
-	if (remaining > 0) {
-		sys_api::auto_mutex lock(m_write_buf_lock);
-		//write to write buffer
-		m_write_buf.memcpy_into(buf + nwrote, remaining);
+	//close it if socket work with fault
+	if (faultError) {
+		_on_socket_error();
 	}
-
-	//enable write event, wait socket ready
-	m_looper->enable_write(m_event_id);
 }
 
 //-------------------------------------------------------------------------------------
@@ -192,12 +195,16 @@ void TcpConnection::shutdown(void)
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(m_state == kConnected || m_state==kDisconnecting);
 
-	//set the state to disconnecting...
-	m_state = kDisconnecting;
+	{
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//set the state to disconnecting...
+		m_state = kDisconnecting;
+
+		//something still working? wait 
+		if (m_looper->is_write(m_event_id) && !m_write_buf.empty()) return;
+	}
 
-	//something still working? wait 
-	if (m_looper->is_write(m_event_id) && !_is_writeBuf_empty()) return;
-	
 	//ok, we can close the socket now
 	socket_api::shutdown(m_socket);
 	_on_socket_close();
@@ -282,13 +289,18 @@ void TcpConnection::_on_socket_close(void)
 
 	TcpConnectionPtr thisPtr = shared_from_this();
 
-	//disable all event
-	m_state = kDisconnected;
+	{
+		//other thread may be sending message now
+		sys_api::auto_mutex lock(m_write_buf_lock);
+
+		//disable all event
+		m_state = kDisconnected;
+
+		//delete looper event
+		m_looper->delete_event(m_event_id);
+		m_event_id = Looper::INVALID_EVENT_ID;
+	}
 
-	//delete looper event
-	m_looper->delete_event(m_event_id);
-	m_event_id = Looper::INVALID_EVENT_ID;
-	
 	//logic callback
 	if (m_on_close) {
 		m_on_close(thisPtr);
@@ -301,10 +313,6 @@ void TcpConnection::_on_socket_close(void)
 	//close socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
-
-	//destroy write buf lock
-	sys_api::mutex_destroy(m_write_buf_lock);
-	m_write_buf_lock = nullptr;
 }
 
 //-------------------------------------------------------------------------------------
diff --git a/source/cyNetwork/network/cyn_tcp_connection.h b/source/cyNetwork/network/cyn_tcp_connection.h
index 79bb791..691c4f3 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.h
+++ b/source/cyNetwork/network/cyn_tcp_connection.h
@@ -115,9 +115,6 @@ private:
 	/// send message (not thread safe, must int work thread)
 	void _send(const char* buf, size_t len);
 
-	//// is write buf empty(thread safe)
-	bool _is_writeBuf_empty(void) const;
-
 public:
 	// record the max size of read buf and write buf
 	size_t get_readebuf_max_size(void) const { return m_readbuf_minmax_size.max(); }
-- 
2.43.0


From fc15e08af8a69fcab22db76674ea2dddca43628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 16/54] fix: a would-block read must not close a live
 connection

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index da147ad..b92c6b3 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -232,7 +232,7 @@ void TcpConnection::_on_socket_read(void)
 		//the connection was closed by peer, close now!
 		_on_socket_close();
 	}
-	else
+	else if (!socket_api::is_lasterror_WOULDBLOCK())
 	{
 		//error!
 		_on_socket_error();
-- 
2.43.0


From c1ab79c186081547703e4a5f461ca6427e71c507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 17/54] fix: keep the connection alive across the
 write-complete callback, do not count failed writes

---
 source/cyNetwork/network/cyn_tcp_connection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_connection.cpp b/source/cyNetwork/network/cyn_tcp_connection.cpp
index b92c6b3..7d5cf42 100644
--- a/source/cyNetwork/network/cyn_tcp_connection.cpp
+++ b/source/cyNetwork/network/cyn_tcp_connection.cpp
@@ -256,7 +256,7 @@ void TcpConnection::_on_socket_write(void)
 				//log error
 				CY_LOG(L_ERROR, "write socket error, err=%d", socket_api::get_lasterror());
 			}
-			if (m_write_statistics) {
+			else if (m_write_statistics) {
 				m_write_statistics->push(len);
 			}
 		}
@@ -270,9 +270,12 @@ void TcpConnection::_on_socket_write(void)
 		m_looper->disable_write(m_event_id);
 	}
 
+	//the connection may be closed and released in the callback
+	TcpConnectionPtr thisPtr = shared_from_this();
+
 	//write complete
 	if (m_on_send_complete) {
-		m_on_send_complete(this->shared_from_this());
+		m_on_send_complete(thisPtr);
 	}
 
 	//disconnecting? this is the last message send to client, we can shut it down again
-- 
2.43.0


From 84cd30fb4b32c175f7bdfe36e638f58d34c82695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 18/54] fix: Looper delivered a stale event of a deleted
 registration to a registration that took its slot in the same round

---
 source/cyEvent/event/cye_looper.cpp | 7 +++++++
 source/cyEvent/event/cye_looper.h   | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index b31aa53..1696012 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -56,6 +56,7 @@ Looper::event_id_t Looper::register_event(socket_t sockfd,
 	channel.param = param;
 	channel.active = false;
 	channel.timer = false;
+	channel.born = m_loop_counts;
 	channel.on_read = _on_read;
 	channel.on_write = _on_write;
 
@@ -93,6 +94,7 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 	channel.param = timer;
 	channel.active = false;
 	channel.timer = true;
+	channel.born = m_loop_counts;
 	channel.on_read = _on_timer_event_callback;
 	channel.on_write = 0;
 
@@ -286,6 +288,7 @@ void Looper::loop(void)
 		{
 			channel_s* c = &(m_channelBuffer[readList[i]]);
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
+			if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
 			c->on_read(c->id, c->fd, kRead, c->param);
 
@@ -298,6 +301,7 @@ void Looper::loop(void)
 		{
 			channel_s* c = &(m_channelBuffer[writeList[i]]);
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
+			if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
 			c->on_write(c->id, c->fd, kWrite, c->param);
 
@@ -333,6 +337,7 @@ void Looper::step(void)
 	{
 		channel_s* c = &(m_channelBuffer[readList[i]]);
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
+		if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
 		c->on_read(c->id, c->fd, kRead, c->param);
 
@@ -343,6 +348,7 @@ void Looper::step(void)
 	{
 		channel_s* c = &(m_channelBuffer[writeList[i]]);
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
+		if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
 		c->on_write(c->id, c->fd, kWrite, c->param);
 
@@ -387,6 +393,7 @@ Looper::event_id_t Looper::_get_free_slot(void)
 			channel.param = nullptr;
 			channel.active = false;
 			channel.timer = false;
+			channel.born = 0;
 
 			channel.on_read = nullptr;
 			channel.on_write = nullptr;
diff --git a/source/cyEvent/event/cye_looper.h b/source/cyEvent/event/cye_looper.h
index 16815d6..c0d5be7 100644
--- a/source/cyEvent/event/cye_looper.h
+++ b/source/cyEvent/event/cye_looper.h
@@ -99,6 +99,8 @@ protected:
 		event_callback on_read;
 		event_callback on_write;
 
+		uint64_t born;	//loop counts when this channel was registered
+
 		event_id_t next;
 		event_id_t prev;	//only used in select looper
 	};
-- 
2.43.0


From 9234f894b430e9bef39bfe3c9cae032f482d1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 19/54] fix: Looper ran callbacks in place while they may be
 moved or destroyed by what the callback does

---
 source/cyEvent/event/cye_looper.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 1696012..326e999 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -290,7 +290,8 @@ void Looper::loop(void)
 			if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 			if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
-			c->on_read(c->id, c->fd, kRead, c->param);
+			event_callback callback = c->on_read; //the channel may be moved or replaced in the callback
+			callback(c->id, c->fd, kRead, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -303,7 +304,8 @@ void Looper::loop(void)
 			if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 			if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
-			c->on_write(c->id, c->fd, kWrite, c->param);
+			event_callback callback = c->on_write; //the channel may be moved or replaced in the callback
+			callback(c->id, c->fd, kWrite, c->param);
 
 			if (is_quit_pending()) break;
 		}
@@ -339,7 +341,8 @@ void Looper::step(void)
 		if (c->on_read == 0 || (c->event & kRead) == 0) continue;
 		if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
-		c->on_read(c->id, c->fd, kRead, c->param);
+		event_callback callback = c->on_read; //the channel may be moved or replaced in the callback
+		callback(c->id, c->fd, kRead, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -350,7 +353,8 @@ void Looper::step(void)
 		if (c->on_write == 0 || (c->event & kWrite) == 0) continue;
 		if (c->born == m_loop_counts) continue; //registered in this round, the event belongs to a deleted one
 
-		c->on_write(c->id, c->fd, kWrite, c->param);
+		event_callback callback = c->on_write; //the channel may be moved or replaced in the callback
+		callback(c->id, c->fd, kWrite, c->param);
 
 		if (is_quit_pending()) return;
 	}
@@ -432,7 +436,8 @@ void Looper::_on_timer_event_callback(event_id_t id, socket_t fd, event_t event,
 #endif
 
 	if (timer->on_timer) {
-		timer->on_timer(id, timer->param);
+		timer_callback callback = timer->on_timer; //the timer may be deleted in the callback
+		callback(id, timer->param);
 	}
 }
 
-- 
2.43.0


From 18ab6ccdd652639111edcd47b5b550253110bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 20/54] fix: Looper::register_timer_event leaked the
 registration slot when the timer could not be created

---
 source/cyEvent/event/cye_looper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/cyEvent/event/cye_looper.cpp b/source/cyEvent/event/cye_looper.cpp
index 326e999..38a8e8e 100644
--- a/source/cyEvent/event/cye_looper.cpp
+++ b/source/cyEvent/event/cye_looper.cpp
@@ -115,6 +115,8 @@ Looper::event_id_t Looper::register_timer_event(uint32_t milliSeconds,
 		//error
         CY_LOG(L_FATAL, "call timerfd_create Failed");
         delete timer;
+        channel.next = m_free_head;
+        m_free_head = id;
         return INVALID_EVENT_ID;
 	}
 
-- 
2.43.0


From 82b9a73ce5bac20ffad1fd15adc4c81dc788f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:41 +0000
Subject: [PATCH 21/54] fix: a TcpClient connect that fails at once leaves no
 socket or registration behind

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 3eccaf8..8ce617b 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -57,9 +57,14 @@ bool TcpClient::connect(const Address& addr)
 	assert(m_socket == INVALID_SOCKET);
 
 	sys_api::auto_mutex lock(m_connection_lock);
+	m_serverAddr = addr;
 
 	//create socket
 	m_socket = socket_api::create_socket();
+	if (m_socket == INVALID_SOCKET) {
+		CY_LOG(L_ERROR, "create socket error, errno=%d", socket_api::get_lasterror());
+		return false;
+	}
 	//set socket to non-block and close-onexec
 	socket_api::set_nonblock(m_socket, true);
 	socket_api::set_close_onexec(m_socket, true);
@@ -67,8 +72,6 @@ bool TcpClient::connect(const Address& addr)
 	socket_api::set_keep_alive(m_socket, true);
 	socket_api::set_linger(m_socket, false, 0);
 
-	m_serverAddr = addr;
-
 	//set event callback
 	m_socket_event_id = m_looper->register_event(m_socket, Looper::kRead | Looper::kWrite, this,
 		std::bind(&TcpClient::_on_socket_read_write, this),
@@ -79,6 +82,10 @@ bool TcpClient::connect(const Address& addr)
 	if (!socket_api::connect(m_socket, addr.get_sockaddr_in()))
 	{
 		CY_LOG(L_ERROR, "connect to server error, errno=%d", socket_api::get_lasterror());
+		//this attempt is over, leave nothing behind
+		RELEASE_EVENT(m_looper, m_socket_event_id);
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
 		return false;
 	}
 
-- 
2.43.0


From e2b87fa8b8ad69abec66580f71b8baa8c29ed1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:41 +0000
Subject: [PATCH 22/54] fix: TcpClient connect/disconnect cancel a pending
 retry timer

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 8ce617b..09f3544 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -59,6 +59,9 @@ bool TcpClient::connect(const Address& addr)
 	sys_api::auto_mutex lock(m_connection_lock);
 	m_serverAddr = addr;
 
+	//this attempt replaces a pending retry
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
+
 	//create socket
 	m_socket = socket_api::create_socket();
 	if (m_socket == INVALID_SOCKET) {
@@ -178,6 +181,8 @@ void TcpClient::disconnect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	m_sendCache.reset();
+	//cancel pending retry
+	RELEASE_EVENT(m_looper, m_retry_timer_id);
 	switch (get_connection_state())
 	{
 	case TcpConnection::kDisconnected:
-- 
2.43.0


From 5a4d3b0eb733f97dd9e2e4cea375d5da06c84dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:41 +0000
Subject: [PATCH 23/54] fix: report a failed connect after cleaning up

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 38 ++++++++++-----------
 source/cyNetwork/network/cyn_tcp_client.h   |  3 +-
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 09f3544..26778f5 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -111,13 +111,9 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 	assert(m_connection == nullptr);
 
 	if (timeout || socket_api::get_socket_error(m_socket) != 0) {
-		//logic callback
-		uint32_t retry_sleep_ms = 0;
-		if (m_listener.on_connected) {
-			retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
-		}
 		CY_LOG(L_DEBUG, "connect to %s:%d failed! ", m_serverAddr.get_ip(), m_serverAddr.get_port());
-		_abort_connect(retry_sleep_ms);
+		_abort_connect();
+		_on_connect_failed();
 	}
 	else {
 		//connect success!
@@ -156,7 +152,7 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 }
 
 //-------------------------------------------------------------------------------------
-void TcpClient::_abort_connect(uint32_t retry_sleep_ms)
+void TcpClient::_abort_connect(void)
 {
 	assert(sys_api::thread_get_current_id() == m_looper->get_thread_id());
 	assert(get_connection_state() == TcpConnection::kConnecting);
@@ -167,8 +163,20 @@ void TcpClient::_abort_connect(uint32_t retry_sleep_ms)
 	//close current socket
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
+}
 
-	if (retry_sleep_ms>0) {
+//-------------------------------------------------------------------------------------
+void TcpClient::_on_connect_failed(void)
+{
+	//logic callback, it may release this client
+	TcpClientPtr self = shared_from_this();
+	uint32_t retry_sleep_ms = 0;
+	if (m_listener.on_connected) {
+		retry_sleep_ms = m_listener.on_connected(self, nullptr, false);
+	}
+
+	//the callback may have started a new attempt already
+	if (retry_sleep_ms>0 && m_socket == INVALID_SOCKET && m_retry_timer_id == Looper::INVALID_EVENT_ID) {
 		//retry connection? create retry the timer
 		m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
 			std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
@@ -189,7 +197,7 @@ void TcpClient::disconnect(void)
 		break;
 
 	case TcpConnection::kConnecting:
-		_abort_connect(0u);
+		_abort_connect();
 		break;
 
 	default:
@@ -210,16 +218,8 @@ void TcpClient::_on_retry_connect_timer(Looper::event_id_t id)
 
 	//connect again
 	if (!connect(m_serverAddr)) {
-		//failed at once!, logic callback
-		if (m_listener.on_connected) {
-			uint32_t retry_sleep_ms = m_listener.on_connected(shared_from_this(), nullptr, false);
-
-			//retry connection?
-			if (retry_sleep_ms>0) {
-				m_retry_timer_id = m_looper->register_timer_event(retry_sleep_ms, this,
-					std::bind(&TcpClient::_on_retry_connect_timer, this, std::placeholders::_1));
-			}
-		}
+		//failed at once!
+		_on_connect_failed();
 	}
 }
 
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index f84ed62..21cdf6b 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -63,7 +63,8 @@ private:
 
 private:
 	void _on_connect_status_changed(bool timeout);
-	void _abort_connect(uint32_t retry_sleep_ms);
+	void _abort_connect(void);
+	void _on_connect_failed(void);
 
 public:
 	TcpClient(Looper* looper, void* param, int id=0);
-- 
2.43.0


From 59dc630249e3e061da2f6460e8f519f898bba326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:41 +0000
Subject: [PATCH 24/54] fix: publish the connection under the lock after the
 cached data was sent

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 33 ++++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 26778f5..8fa3833 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -122,31 +122,47 @@ void TcpClient::_on_connect_status_changed(bool timeout)
 		RELEASE_EVENT(m_looper, m_socket_event_id);
 
 		//established the connection
-		m_connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+		TcpConnectionPtr connection = std::make_shared<TcpConnection>(m_id, m_socket, m_looper, this);
+
+		//send cached message, before anyone else can use the connection
+		if (!m_sendCache.empty()) {
+			connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
+
+			if (connection->get_state() == TcpConnection::kDisconnected) {
+				//broken at once, the socket has been closed by the connection
+				{
+					sys_api::auto_mutex lock(m_connection_lock);
+					m_socket = INVALID_SOCKET;
+				}
+				_on_connect_failed();
+				return;
+			}
+			m_sendCache.reset();
+		}
 		CY_LOG(L_DEBUG, "connect to %s:%d success", m_serverAddr.get_ip(), m_serverAddr.get_port());
 
 		//bind callback functions
 		if (m_listener.on_message) {
-			m_connection->set_on_message([this](TcpConnectionPtr conn) {
+			connection->set_on_message([this](TcpConnectionPtr conn) {
 				m_listener.on_message(shared_from_this(), conn);
 			});
 		}
 
 		if(m_listener.on_close) {
-			m_connection->set_on_close([this](TcpConnectionPtr conn) {
+			connection->set_on_close([this](TcpConnectionPtr conn) {
 				CY_LOG(L_DEBUG, "disconnect from %s:%d", m_serverAddr.get_ip(), m_serverAddr.get_port());
 				m_listener.on_close(shared_from_this(), conn);
 			});
 		}
 
-		//send cached message
-		if (!m_sendCache.empty()) {
-			m_connection->send((const char*)m_sendCache.normalize(), m_sendCache.size());
-			m_sendCache.reset();
+		//publish the connection
+		{
+			sys_api::auto_mutex lock(m_connection_lock);
+			m_connection = connection;
 		}
 		//logic callback
 		if (m_listener.on_connected) {
-			m_listener.on_connected(shared_from_this(), m_connection, true);
+			m_listener.on_connected(shared_from_this(), connection, true);
 		}
 	}
 }
@@ -161,6 +177,7 @@ void TcpClient::_abort_connect(void)
 	RELEASE_EVENT(m_looper, m_retry_timer_id);
 
 	//close current socket
+	sys_api::auto_mutex lock(m_connection_lock);
 	socket_api::close_socket(m_socket);
 	m_socket = INVALID_SOCKET;
 }
-- 
2.43.0


From 48147e38a33a8be338c0b68b808b5ac2a5481cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:41 +0000
Subject: [PATCH 25/54] fix: ~TcpClient closes the socket of an attempt under
 way

---
 source/cyNetwork/network/cyn_tcp_client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/cyNetwork/network/cyn_tcp_client.cpp b/source/cyNetwork/network/cyn_tcp_client.cpp
index 8fa3833..f28b96a 100644
--- a/source/cyNetwork/network/cyn_tcp_client.cpp
+++ b/source/cyNetwork/network/cyn_tcp_client.cpp
@@ -48,6 +48,11 @@ TcpClient::~TcpClient()
 	if (m_connection) {
 		assert(m_connection->get_state() == TcpConnection::kDisconnected);
 	}
+	else if (m_socket != INVALID_SOCKET) {
+		//still connecting, nobody else owns the socket
+		socket_api::close_socket(m_socket);
+		m_socket = INVALID_SOCKET;
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From a3849d862b67002eed4f24197f049960635aff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 26/54] fix: TcpServer picks a valid work thread after the
 round-robin counter wraps

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index b297889..d5b4d47 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -130,7 +130,7 @@ void TcpServer::stop(void)
 void TcpServer::_on_accept_socket(socket_t fd)
 {
 	//send it to one of work thread		
-	int32_t index = (m_next_workthread_id++) % m_workthread_counts;
+	int32_t index = (int32_t)((uint32_t)(m_next_workthread_id++) % (uint32_t)m_workthread_counts);
 	TcpServerWorkThread* work = m_work_thread_pool[(size_t)index];
 
 	//send new connection to work thread(cmd, socket_t)		
-- 
2.43.0


From 11d697020615fd6a0bc5d250c4aa73a13a1390de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 27/54] fix: a TcpServer::stop() rejected in a work thread does
 not block later stops

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index d5b4d47..eb70ada 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -112,6 +112,7 @@ void TcpServer::stop(void)
 	for (auto work : m_work_thread_pool){
 		if (work->is_in_workthread()){
 			CY_LOG(L_ERROR, "you can't stop server in work thread.");
+			m_shutdown_ing = 0;	//rejected, the server goes on
 			return;
 		}
 	}
-- 
2.43.0


From 2c276508ccb00fda0db318092b5e00ac3c448d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 28/54] fix: TcpServer shuts down work threads only after the
 last accepted socket was handed over

---
 source/cyNetwork/network/cyn_tcp_server.cpp               | 8 +-------
 .../network/internal/cyn_tcp_server_master_thread.cpp     | 6 ++++++
 .../network/internal/cyn_tcp_server_work_thread.cpp       | 5 ++++-
 .../network/internal/cyn_tcp_server_work_thread.h         | 3 ++-
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index eb70ada..f3e47a8 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -117,14 +117,9 @@ void TcpServer::stop(void)
 		}
 	}
 
-	//shutdown the the master thread
+	//shutdown the the master thread, it will shutdown the work threads after the last accepted socket was handed over
 	TcpServerMasterThread::ShutdownCmd shutdownCmd;
 	m_master_thread->send_thread_message(TcpServerMasterThread::ShutdownCmd::ID, sizeof(shutdownCmd), (const char*)&shutdownCmd);
-
-	//shutdown all connection
-	for (auto work : m_work_thread_pool){
-		work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
-	}
 }
 
 //-------------------------------------------------------------------------------------
@@ -168,7 +163,6 @@ void TcpServer::shutdown_connection(TcpConnectionPtr conn)
 
 	TcpServerWorkThread::CloseConnectionCmd closeConnectionCmd;
 	closeConnectionCmd.conn_id = conn->get_id();
-	closeConnectionCmd.shutdown_ing = m_shutdown_ing;
 	work->send_thread_message(TcpServerWorkThread::CloseConnectionCmd::ID, sizeof(closeConnectionCmd), (const char*)&closeConnectionCmd);
 }
 
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 84ab628..b597730 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -4,6 +4,7 @@ Copyright(C) thecodeway.com
 
 #include <cy_network.h>
 #include "cyn_tcp_server_master_thread.h"
+#include "cyn_tcp_server_work_thread.h"
 
 namespace cyclone
 {
@@ -171,6 +172,11 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		}
 		m_acceptor_sockets.clear();
 
+		//no more socket will be accepted, shutdown all connection
+		for (auto work : m_server->m_work_thread_pool) {
+			work->send_thread_message(TcpServerWorkThread::ShutdownCmd::ID, 0, 0);
+		}
+
 		//stop looper
 		looper->push_stop_request();
 	}
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
index 6165ca7..ac9e22c 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp
@@ -12,6 +12,7 @@ namespace cyclone
 TcpServerWorkThread::TcpServerWorkThread(TcpServer* server, int32_t index)
 	: m_server(server)
 	, m_index(index)
+	, m_shutdown_received(false)
 {
 	//run work thread
 	m_work_thread = new WorkThread();
@@ -141,7 +142,7 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 		}
 
 		//if all connection is shutdown, and server is in shutdown process, quit the loop
-		if (m_connections.empty() && closeConnectionCmd.shutdown_ing > 0) {
+		if (m_connections.empty() && m_shutdown_received) {
 			//push loop quit command
 			m_work_thread->get_looper()->push_stop_request();
 			return;
@@ -150,6 +151,8 @@ void TcpServerWorkThread::_on_workthread_message(Packet* message)
 	else if (msg_id == ShutdownCmd::ID)
 	{
 		CY_LOG(L_DEBUG, "receive shutdown cmd");
+		m_shutdown_received = true;
+
 		//all connection is disconnect, just quit the loop
 		if (m_connections.empty()) {
 			//push loop request command
diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
index 39b0937..b732cf4 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_work_thread.h
@@ -22,7 +22,6 @@ public:
 	{
 		enum { ID = kCloseConnectionCmdID };
 		int32_t conn_id;
-		int32_t shutdown_ing;
 	};
 
 	struct ShutdownCmd
@@ -55,6 +54,8 @@ private:
 	typedef std::unordered_map< int32_t, TcpConnectionPtr > ConnectionMap;
 	ConnectionMap	m_connections;
 
+	bool			m_shutdown_received;	//set by ShutdownCmd, no new connection comes after it
+
 private:
 	//// called by work thread
 	bool _on_workthread_start(void);
-- 
2.43.0


From 6585506f65d1a18b5c0029b8ef43c2b72b325ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 29/54] fix: a StopListenCmd handled after shutdown does not
 index an empty listener list

---
 .../network/internal/cyn_tcp_server_master_thread.cpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index b597730..ac87dce 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -185,6 +185,9 @@ void TcpServerMasterThread::_on_thread_message(Packet* message)
 		StopListenCmd stopListenCmd;
 		memcpy(&stopListenCmd, message->get_packet_content(), sizeof(stopListenCmd));
 
+		//all listen socket(s) may be closed already
+		if (stopListenCmd.index >= m_acceptor_sockets.size()) return;
+
 		Looper* looper = m_master_thread.get_looper();
 		auto& listen_socket = m_acceptor_sockets[stopListenCmd.index];
 		auto& sfd = std::get<0>(listen_socket);
-- 
2.43.0


From 38749e1f9adf9ab5cbf9c327b1426516f98bf17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 30/54] fix: TcpServer can be started and stopped again after
 join()

---
 source/cyNetwork/network/cyn_tcp_server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/cyn_tcp_server.cpp b/source/cyNetwork/network/cyn_tcp_server.cpp
index f3e47a8..5cb3583 100644
--- a/source/cyNetwork/network/cyn_tcp_server.cpp
+++ b/source/cyNetwork/network/cyn_tcp_server.cpp
@@ -151,6 +151,7 @@ void TcpServer::join(void)
 		delete work;
 	}
 	m_work_thread_pool.clear();
+	m_shutdown_ing = 0;
 	m_running = 0;
 
 	CY_LOG(L_DEBUG, "accept thread stop!");
-- 
2.43.0


From 6d97d6b144f8d800a84c5b6bfaf08aeb3cb803f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 31/54] fix: bind_socket closes the socket if it can't be made
 non-blocking

---
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index ac87dce..8eb8589 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -61,6 +61,7 @@ bool TcpServerMasterThread::bind_socket(const Address& bind_addr, bool enable_re
 	if (!socket_api::set_nonblock(sfd, true)) {
 		//the process should be stop		
 		CY_LOG(L_ERROR, "set socket to non block mode error");
+		socket_api::close_socket(sfd);
 		return false;
 	}
 
-- 
2.43.0


From 77a1682d73525d142be0acf18a344ee983dddec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:27 +0000
Subject: [PATCH 32/54] fix: get_bind_address returns the default address for a
 closed listener

---
 .../cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
index 8eb8589..90e7e16 100644
--- a/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
+++ b/source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp
@@ -112,7 +112,7 @@ Address TcpServerMasterThread::get_bind_address(size_t index)
 	if (index >= m_acceptor_sockets.size()) return address;
 
 	sockaddr_in addr;
-	socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr);
+	if (!socket_api::getsockname(std::get<0>(m_acceptor_sockets[index]), addr)) return address;
 
 	return Address(addr);
 }
-- 
2.43.0


From 6764bf384543917905a20dff172cf8fdaee56d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:28 +0000
Subject: [PATCH 33/54] fix: process_get_module_name always yields a terminated
 name

---
 source/cyCore/core/cyc_system_api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index e440d37..981f55b 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -51,7 +51,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 		proc_pidpath(process_get_id(), process_path_name, PROC_PIDPATHINFO_MAXSIZE);
 	#else
 		char process_path_name[256] = { 0 };
-		if (readlink("/proc/self/exe", process_path_name, 256)<0) {
+		if (readlink("/proc/self/exe", process_path_name, sizeof(process_path_name) - 1)<0) {	//keep the last zero
 			strncpy(process_path_name, "unknown", 256);
 		}
 	#endif
@@ -62,7 +62,7 @@ void process_get_module_name(char* module_name, size_t max_size)
 
 	strncpy(module_name, process_name, max_size);
 #endif
-
+	if (max_size > 0) module_name[max_size - 1] = 0;
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From 7d9975cf205fb1d14e16ef925abdfa1e37dc9b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:28 +0000
Subject: [PATCH 34/54] fix: local_time_now terminates the text when it doesn't
 fit

---
 source/cyCore/core/cyc_system_api.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cyCore/core/cyc_system_api.cpp b/source/cyCore/core/cyc_system_api.cpp
index 981f55b..d8f7c81 100644
--- a/source/cyCore/core/cyc_system_api.cpp
+++ b/source/cyCore/core/cyc_system_api.cpp
@@ -458,7 +458,9 @@ void local_time_now(char* time_dest, size_t max_size, const char* format)
 #else
 	localtime_r(&local_time, &tm_now);
 #endif
-	strftime(time_dest, max_size, format, &tm_now);
+	if (strftime(time_dest, max_size, format, &tm_now) == 0 && max_size > 0) {
+		time_dest[0] = 0; //the content of time_dest is indeterminate
+	}
 }
 
 //-------------------------------------------------------------------------------------
-- 
2.43.0


From efc2cf22876cbb0e00c9349cd6863f6cd853d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:28 +0000
Subject: [PATCH 35/54] fix: the host name in the log file name is always
 terminated

---
 source/cyCore/core/cyc_logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/cyCore/core/cyc_logger.cpp b/source/cyCore/core/cyc_logger.cpp
index 270a42d..dd60fea 100644
--- a/source/cyCore/core/cyc_logger.cpp
+++ b/source/cyCore/core/cyc_logger.cpp
@@ -43,8 +43,8 @@ struct DiskLogFile
 		sys_api::process_get_module_name(process_name, 32);
 		
 		//get host name
-		char host_name[32];
-		::gethostname(host_name, 32);
+		char host_name[32] = { 0 };
+		::gethostname(host_name, sizeof(host_name) - 1);
 
 		//get process id
 		pid_t process_id = sys_api::process_get_id();
-- 
2.43.0


From 2c9485e977993a670589c0c3adcea57784e9e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 36/54] fix: ft-client plans at least one fragment, needs a
 valid thread count and refuses a file too big for its fragments

---
 samples/filetransfer/ft_client.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 1d9d539..f79ea92 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -330,16 +330,28 @@ public:
 
 		const size_t MIN_FRAMEMENT_SIZE = 64 * 1024; // 64kb
 		int32_t fragmentCounts = 0;
-		int32_t fragmentSize = 0;
+		size_t fragmentSize = 0;
+
+		if (m_threadTounts < 1) {
+			CY_LOG(L_ERROR, "Invalid thread counts %d", m_threadTounts);
+			return false;
+		}
 
 		if (m_fileSize < MIN_FRAMEMENT_SIZE*(size_t)m_threadTounts) {
 			//small file
 			fragmentCounts = (int32_t)(m_fileSize / MIN_FRAMEMENT_SIZE);
+			if (fragmentCounts < 1) fragmentCounts = 1;
 		}
 		else {
 			fragmentCounts = m_threadTounts;
 		}
-		fragmentSize = (int32_t)((int32_t)m_fileSize / fragmentCounts) & (~0xF);
+		fragmentSize = (m_fileSize / (size_t)fragmentCounts) & ~((size_t)0xF);
+
+		//the last fragment is the biggest one
+		if (m_fileSize - fragmentSize * (size_t)(fragmentCounts - 1) > (size_t)INT32_MAX) {
+			CY_LOG(L_ERROR, "File is too big for %d fragments", fragmentCounts);
+			return false;
+		}
 
 		m_beginDownloadTime = sys_api::performance_time_now();
 
@@ -352,7 +364,7 @@ public:
 			DownloadThreadContext* ctx = new DownloadThreadContext;
 			ctx->index = i;
 			ctx->fileOffset = fileOffset;
-			ctx->fragmentSize = (i==fragmentCounts-1) ? (int32_t)(m_fileSize - ctx->fileOffset) : fragmentSize;
+			ctx->fragmentSize = (i==fragmentCounts-1) ? (int32_t)(m_fileSize - ctx->fileOffset) : (int32_t)fragmentSize;
 			ctx->receivedSize = 0;
 			ctx->fragmentCRC = INITIAL_ADLER;
 			ctx->downloadThread = sys_api::thread_create(std::bind(&FileTransferClient::_downloadThread, this, _1), ctx, threadName);
@@ -379,7 +391,7 @@ public:
 			CY_LOG(L_INFO, "Download speed: %s/s, Size:%s Percent:[%.2f%%]", 
 				string_util::size_to_string(downloadSpeed.first / ((size_t)m_downloadSpeed.get_time_period()/ (size_t)1000)).c_str(),
 				string_util::size_to_string(totalDownloadSize).c_str(),
-				(float)(totalDownloadSize*100 / m_fileSize));
+				m_fileSize > 0 ? (float)(totalDownloadSize*100 / m_fileSize) : 100.f);
 
 			sys_api::thread_sleep(1000);
 		}
-- 
2.43.0


From 919c29c95e5c1b2c39f71facc959866cb185dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 37/54] fix: ft-client checks that the file information it got
 is complete before using it

---
 samples/filetransfer/ft_client.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index f79ea92..71593ed 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -114,7 +114,7 @@ public:
 
 			FT_Head head;
 			ringBuf.peek(0, &head, sizeof(FT_Head));
-			if ((int32_t)ringBuf.size() < head.size) return;
+			if ((int64_t)ringBuf.size() < (int64_t)head.size) return;
 
 			if (head.id != FT_ReplyFileInfo::ID) {
 				CY_LOG(L_ERROR, "not expect message, should be 'FT_ReplyFileInfo'");
@@ -123,8 +123,15 @@ public:
 			}
 
 			FT_ReplyFileInfo* fileInfo = (FT_ReplyFileInfo*)(ringBuf.normalize());
+			const char* fileName = ((const char*)fileInfo) + sizeof(FT_ReplyFileInfo);
+			if (head.size < (int32_t)sizeof(FT_ReplyFileInfo) || fileInfo->nameLength < 1 ||
+				fileInfo->nameLength > head.size - (int32_t)sizeof(FT_ReplyFileInfo) || fileName[fileInfo->nameLength - 1] != 0) {
+				CY_LOG(L_ERROR, "Invalid 'FT_ReplyFileInfo' message");
+				_conn->shutdown();
+				return;
+			}
 			this->m_fileSize = fileInfo->fileSize;
-			this->m_strFileName = ((const char*)fileInfo) + sizeof(FT_ReplyFileInfo);
+			this->m_strFileName = fileName;
 			this->m_threadTounts = fileInfo->threadCounts;
 			this->m_bGotFileInfo = true;
 
-- 
2.43.0


From 93ad7f50c68b9d0553ca0662c573f04126b0a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 38/54] fix: ft-client ignores data which arrives after its
 fragment finished or failed

---
 samples/filetransfer/ft_client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 71593ed..d24d95c 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -294,7 +294,8 @@ public:
 				break;
 
 			default:
-				assert(false && "Error status");
+				//finished or failed already, ignore everything else
+				ringBuff.reset();
 				break;
 			}
 		} while (!ringBuff.empty());
-- 
2.43.0


From 965e567a887e9e7145013c2dd8cb982b4231d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 39/54] fix: ft-client does not divide by zero when a fragment
 takes no measurable time

---
 samples/filetransfer/ft_client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index d24d95c..d26a65c 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -261,7 +261,8 @@ public:
 				ctx->status = TS_Error;
 			}
 			else {
-				size_t speed = (size_t)(ctx->fragmentSize*1000*1000) / (size_t)(ctx->endTime - ctx->beginTime);
+				int64_t usedTime = ctx->endTime - ctx->beginTime;
+				size_t speed = (size_t)ctx->fragmentSize * 1000 * 1000 / (size_t)(usedTime > 0 ? usedTime : 1);
 				CY_LOG(L_INFO, "Download thread[%d] success, offset=%zd, fragment_size=%s, crc=0x%08x, speed=%s/s, readBufMaxSize=%s", 
 					ctx->index, ctx->fileOffset, string_util::size_to_string((float)ctx->fragmentSize).c_str(), ctx->fragmentCRC, string_util::size_to_string(speed).c_str(),
 					string_util::size_to_string(conn->get_readebuf_max_size()).c_str()
-- 
2.43.0


From 81df8e7e53fb818b275400a95e4ded30684bf39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 40/54] fix: ft-client fails a fragment whose part file cannot
 be written

---
 samples/filetransfer/ft_client.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index d26a65c..3b797fe 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -227,6 +227,12 @@ public:
 		ctx->fileHandle.write((const char*)ringBuff.normalize(), writeSize);
 
 		ringBuff.discard((size_t)writeSize);
+		if (ctx->fileHandle.fail()) {
+			CY_LOG(L_ERROR, "Write file %s failed!", ctx->strFileName.c_str());
+			ctx->status = TS_Error;
+			conn->shutdown();
+			return;
+		}
 
 		ctx->receivedSize += writeSize;
 		m_downloadSpeed.push((size_t)writeSize);
@@ -235,6 +241,11 @@ public:
 			ctx->status = TS_Complete;
 
 			ctx->fileHandle.close();
+			if (ctx->fileHandle.fail()) {
+				CY_LOG(L_ERROR, "Write file %s failed!", ctx->strFileName.c_str());
+				ctx->status = TS_Error;
+				conn->shutdown();
+			}
 		}
 	}
 
-- 
2.43.0


From 865f4e2d0b6ab1c550d0994f457810a4e5c0a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 41/54] fix: ft-client reports a failed combination and keeps
 the parts until it succeeded

---
 samples/filetransfer/ft_client.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/samples/filetransfer/ft_client.cpp b/samples/filetransfer/ft_client.cpp
index 3b797fe..629e1a4 100644
--- a/samples/filetransfer/ft_client.cpp
+++ b/samples/filetransfer/ft_client.cpp
@@ -439,6 +439,7 @@ public:
 			return 0;
 		}
 
+		bool success = true;
 		const int32_t kBufSize = 1024 * 1024;
 		char* pBuffer = (char*)CY_MALLOC(kBufSize);
 
@@ -448,20 +449,34 @@ public:
 			std::ifstream inputFileHandle;
 			inputFileHandle.open(ctx->strFileName, std::ios::in | std::ios::binary);
 			if (inputFileHandle.fail()) {
-				CY_LOG(L_ERROR, "Write file %s failed!", m_strFileName.c_str());
-				return 0;
+				CY_LOG(L_ERROR, "Read file %s failed!", ctx->strFileName.c_str());
+				success = false;
+				break;
 			}
 
-			while (!inputFileHandle.eof()) {
+			size_t partSize = 0;
+			while (inputFileHandle.good() && outputFileHandle.good()) {
 				size_t readSize = (size_t)inputFileHandle.read(pBuffer, (std::streamsize)kBufSize).gcount();
 				outputFileHandle.write(pBuffer, (std::streamsize)readSize);
+				partSize += readSize;
 			}
 			inputFileHandle.close();
-			//delete file
-			std::remove(ctx->strFileName.c_str());
+			if (partSize != (size_t)(ctx->fragmentSize) || outputFileHandle.fail()) {
+				success = false;
+				break;
+			}
 		}
 		outputFileHandle.close();
 		CY_FREE(pBuffer);
+		if (!success || outputFileHandle.fail()) {
+			CY_LOG(L_ERROR, "Write file %s failed!", m_strFileName.c_str());
+			return false;
+		}
+
+		//delete all fragment files
+		for (size_t i = 0; i < m_downloadContext.size(); i++) {
+			std::remove(m_downloadContext[i]->strFileName.c_str());
+		}
 		return true;
 	}
 };
-- 
2.43.0


From 242aedfda812a5e64ffdf43459ab3982c6a2e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:49 +0000
Subject: [PATCH 42/54] fix: ft-server checks a requested range without
 overflow

---
 samples/filetransfer/ft_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 4915319..848a292 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -208,7 +208,7 @@ private:
 		FT_RequireFileFragment* require = (FT_RequireFileFragment*)ringBuf.normalize();
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
-		if (require->fileOffset + (size_t)(require->fragmentSize) > m_fileSize) {
+		if (require->fragmentSize < 0 || require->fileOffset > m_fileSize || (size_t)(require->fragmentSize) > m_fileSize - require->fileOffset) {
 			CY_LOG(L_INFO, "Receive invalid fragment download request, offset=%zd, size=%d", require->fileOffset, require->size);
 			conn->shutdown();
 			return;
-- 
2.43.0


From d23b824fbdf1a87f36aa7ad842ff543b9a39a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 43/54] fix: ft-server refuses messages whose declared size
 does not fit

---
 samples/filetransfer/ft_server.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 848a292..1d94c54 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -254,7 +254,12 @@ private:
 
 		FT_Head head;
 		ringBuf.peek(0, &head, sizeof(head));
-		if ((int32_t)ringBuf.size() < head.size) return;
+		if (head.size < (int32_t)((head.id == FT_RequireFileFragment::ID) ? sizeof(FT_RequireFileFragment) : sizeof(FT_Head))) {
+			CY_LOG(L_INFO, "Receive invalid message, id=%d, size=%d", head.id, head.size);
+			conn->shutdown();
+			return;
+		}
+		if ((int64_t)ringBuf.size() < (int64_t)head.size) return;
 
 		switch (head.id) {
 		case FT_RequireFileInfo::ID:
-- 
2.43.0


From 8500b9bf70b7df0549dbd8a1159b47a8be720f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 44/54] fix: ft-server keeps serving its connection when a
 second one is refused

---
 samples/filetransfer/ft_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 1d94c54..17b1b45 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -243,7 +243,7 @@ private:
 	{
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 
-		if (m_threadContext[(size_t)index]->status != TS_Connected) {
+		if (m_threadContext[(size_t)index]->status != TS_Connected || m_threadContext[(size_t)index]->conn != conn) {
 			conn->shutdown();
 			return;
 		}
@@ -277,6 +277,9 @@ private:
 		assert(index >= 0 && index < (int32_t)m_threadContext.size());
 		ThreadContext& ctx = *(m_threadContext[(size_t)index]);
 
+		//a connection which was refused because the thread is busy
+		if (ctx.conn != conn) return;
+
 		if (ctx.status == TS_Sending) {
 			ctx.fileHandle.close();
 		}
-- 
2.43.0


From adb51b8de48b7238edb9f79b713aaaf7f6817dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:50 +0000
Subject: [PATCH 45/54] fix: ft-server ends a transfer whose file cannot be
 read any more

---
 samples/filetransfer/ft_server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/samples/filetransfer/ft_server.cpp b/samples/filetransfer/ft_server.cpp
index 17b1b45..435a4a6 100644
--- a/samples/filetransfer/ft_server.cpp
+++ b/samples/filetransfer/ft_server.cpp
@@ -177,6 +177,12 @@ private:
 		if (ctx.offsetNow + readSize > ctx.offsetEnd) {
 			readSize = ctx.offsetEnd - ctx.offsetNow;
 		}
+		if (readSize == 0 && ctx.offsetNow < ctx.offsetEnd) {
+			CY_LOG(L_ERROR, "Can't read file %s at %zd", m_strPathName.c_str(), ctx.offsetNow);
+			conn->set_on_send_complete(nullptr);
+			conn->shutdown();
+			return;
+		}
 		ctx.offsetNow += readSize;
 		ctx.fragmentCRC = cyclone::adler32(ctx.fragmentCRC, (const uint8_t*)ctx.buffer, readSize);
 
-- 
2.43.0


From 0b77ce0c1303fcbad9e36956960155bfb8e70b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:52 +0000
Subject: [PATCH 46/54] fix: relay_server gave up sessions whose connection was
 still closing

---
 samples/relay/relay_server.cpp | 35 +++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index d966b73..285fa50 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -291,8 +291,7 @@ private:
 				RelaySessionPtr session = it->second;
 				session->m_upState = RelaySession::kDisconnecting;
 				session->m_upClient->disconnect();
-				session->m_upState = RelaySession::kDisconnected;
-				pipe->m_relaySessionMap.erase(it);
+				_eraseClosedSession(pipe, session);
 
 				CY_LOG(L_INFO, "[%d]Receive close session message, close it", closeSessionMsg.id);
 			}
@@ -357,13 +356,7 @@ private:
 		pipe->m_downState = kDisconnected;
 
 		//close all tunnel
-		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); it++) {
-			RelaySessionPtr session = it->second;
-
-			session->m_upClient->disconnect();
-			session->m_upState = RelaySession::kDisconnected;
-		}
-		pipe->m_relaySessionMap.clear();
+		_closeAllSessions(pipe);
 
 		pipe->m_downConnection.reset();
 
@@ -497,6 +490,9 @@ private:
 		if (session->m_upState == RelaySession::kConnected) {
 			_kickDownSession(pipe, session->m_id, session);
 		}
+		else {
+			_eraseClosedSession(pipe, session);
+		}
 
 		CY_LOG(L_TRACE, "[%d]UP shutdown the client, send kick msg to DOWN", id);
 	}
@@ -507,6 +503,27 @@ private:
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
 	}
 	
+	//-------------------------------------------------------------------------------------
+	void _eraseClosedSession(RelayPipe* pipe, RelaySessionPtr session) {
+		//something still working? wait
+		if (session->m_upClient->get_connection_state() != TcpConnection::kDisconnected) return;
+
+		session->m_upState = RelaySession::kDisconnected;
+		pipe->m_relaySessionMap.erase(session->m_id);
+	}
+
+	//-------------------------------------------------------------------------------------
+	void _closeAllSessions(RelayPipe* pipe) {
+		for (auto it = pipe->m_relaySessionMap.begin(); it != pipe->m_relaySessionMap.end(); ) {
+			RelaySessionPtr session = it->second;
+			it++;
+
+			session->m_upState = RelaySession::kDisconnecting;
+			session->m_upClient->disconnect();
+			_eraseClosedSession(pipe, session);
+		}
+	}
+
 	//-------------------------------------------------------------------------------------
 	void _kickDownSession(RelayPipe* pipe, int32_t session_id, RelaySessionPtr session) {
 		if (pipe->m_downState != kHandshaked) return;
-- 
2.43.0


From 48635a976fb621a515e21c923e0640a45272a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:55 +0000
Subject: [PATCH 47/54] fix: relay_server acted on frames whose sizes do not
 fit, or hung on unknown ones

---
 samples/relay/relay_server.cpp | 35 +++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 285fa50..4f474a2 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -256,6 +256,10 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayNewSessionMsg newSessionMsg;
+				if (packet.get_packet_size() != sizeof(newSessionMsg)) {
+					_refuseDownPacket(server, pipe, conn, packetID);
+					return;
+				}
 				memcpy(&newSessionMsg, packet.get_packet_content(), sizeof(newSessionMsg));
 
 				//create new relay session
@@ -283,6 +287,10 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayCloseSessionMsg closeSessionMsg;
+				if (packet.get_packet_size() != sizeof(closeSessionMsg)) {
+					_refuseDownPacket(server, pipe, conn, packetID);
+					return;
+				}
 				memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
 
 				auto it = pipe->m_relaySessionMap.find(closeSessionMsg.id);
@@ -304,8 +312,18 @@ private:
 				if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 				RelayForwardMsg forwardMsg;
+				if (packet.get_packet_size() < sizeof(forwardMsg)) {
+					_refuseDownPacket(server, pipe, conn, packetID);
+					return;
+				}
 				memcpy(&forwardMsg, packet.get_packet_content(), sizeof(forwardMsg));
 
+				size_t payloadSize = packet.get_packet_size() - sizeof(forwardMsg);
+				if (forwardMsg.size < 0 || (size_t)forwardMsg.size > payloadSize || (m_encryptMode && (payloadSize & 0xF) != 0)) {
+					_refuseDownPacket(server, pipe, conn, packetID);
+					return;
+				}
+
 				int32_t id = forwardMsg.id;
 				auto it = pipe->m_relaySessionMap.find(id);
 				if (it == pipe->m_relaySessionMap.end()) {
@@ -341,11 +359,14 @@ private:
 			break;
 
 			default:
-				CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
-				server->shutdown_connection(conn);
-				break;
+				_refuseDownPacket(server, pipe, conn, packetID);
+				return;
 			}
 		}
+		else {
+			//refused or closed already, ignore everything else
+			return;
+		}
 		}
 	}
 	//-------------------------------------------------------------------------------------
@@ -498,6 +519,14 @@ private:
 	}
 
 private:
+	//-------------------------------------------------------------------------------------
+	void _refuseDownPacket(TcpServer* server, RelayPipe* pipe, TcpConnectionPtr conn, uint16_t packetID) {
+		CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+		server->shutdown_connection(conn);
+		pipe->m_downState = kWaitConnecting;
+		_closeAllSessions(pipe);
+	}
+
 	//-------------------------------------------------------------------------------------
 	size_t _round16(size_t size) {
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF)) + 0x10);
-- 
2.43.0


From a2ac6ff915309808d7cd477dd6ac92f7983aeb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:57 +0000
Subject: [PATCH 48/54] fix: relay_server replaced a live session when its id
 was asked for again

---
 samples/relay/relay_server.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 4f474a2..8075293 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -262,6 +262,12 @@ private:
 				}
 				memcpy(&newSessionMsg, packet.get_packet_content(), sizeof(newSessionMsg));
 
+				//id is used already
+				if (pipe->m_relaySessionMap.find(newSessionMsg.id) != pipe->m_relaySessionMap.end()) {
+					_refuseDownPacket(server, pipe, conn, packetID);
+					return;
+				}
+
 				//create new relay session
 				RelaySessionPtr session = std::make_shared<RelaySession>(newSessionMsg.id);
 				pipe->m_relaySessionMap.insert({ newSessionMsg.id, session });
-- 
2.43.0


From 5ac93af472f3b43ab467929e3b372a084a0a27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:00 +0000
Subject: [PATCH 49/54] fix: relay_server used a null connection when a session
 could not be connected

---
 samples/relay/relay_server.cpp            | 4 ++--
 source/cyNetwork/network/cyn_tcp_client.h | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 8075293..47b1471 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -430,8 +430,8 @@ private:
 
 			CY_LOG(L_TRACE, "[%d]Connect to UP success(%s:%d)", id, conn->get_peer_addr().get_ip(), conn->get_peer_addr().get_port());
 		}else {
-			//send close session msg to down
-			int32_t id = conn->get_id();
+			//send close session msg to down(there is no connection)
+			int32_t id = client->get_id();
 			auto it = pipe->m_relaySessionMap.find(id);
 			if (it == pipe->m_relaySessionMap.end()) {
 				return 0;
diff --git a/source/cyNetwork/network/cyn_tcp_client.h b/source/cyNetwork/network/cyn_tcp_client.h
index 21cdf6b..6e9a018 100644
--- a/source/cyNetwork/network/cyn_tcp_client.h
+++ b/source/cyNetwork/network/cyn_tcp_client.h
@@ -36,6 +36,8 @@ public:
 	Address get_server_address(void) const { return m_serverAddr; }
 	/// send message(thread safe after connected, NOT thread safe when connecting)
 	void send(const char* buf, size_t len);
+	/// get id of client(thread safe)
+	int get_id(void) const { return m_id; }
 	/// get callback param(thread safe)
 	const void* get_param(void) const { return m_param; }
 	/// get current connection state(thread safe);
-- 
2.43.0


From e0549e350ca33e140b3a8684a0e08716b2dbe0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:02 +0000
Subject: [PATCH 50/54] fix: relay_local acted on frames whose sizes do not
 fit, or hung on unknown ones

---
 samples/relay/relay_local.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index d99c5f6..f844fc3 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -351,8 +351,18 @@ private:
 					if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 					RelayForwardMsg forwardMsg;
+					if (packet.get_packet_size() < sizeof(RelayForwardMsg)) {
+						_refuseUpPacket(client, pipe, packetID);
+						return;
+					}
 					memcpy(&forwardMsg, packet.get_packet_content(), sizeof(RelayForwardMsg));
 
+					size_t payloadSize = packet.get_packet_size() - sizeof(RelayForwardMsg);
+					if (forwardMsg.size < 0 || (size_t)forwardMsg.size > payloadSize || (m_encryptMode && (payloadSize & 0xF) != 0)) {
+						_refuseUpPacket(client, pipe, packetID);
+						return;
+					}
+
 					//decrypt
 					if (m_encryptMode)
 					{
@@ -392,6 +402,10 @@ private:
 					if (!packet.build_from_ringbuf(RELAY_PACKET_HEADSIZE, conn->get_input_buf())) return;
 
 					RelayCloseSessionMsg closeSessionMsg;
+					if (packet.get_packet_size() != sizeof(closeSessionMsg)) {
+						_refuseUpPacket(client, pipe, packetID);
+						return;
+					}
 					memcpy(&closeSessionMsg, packet.get_packet_content(), sizeof(closeSessionMsg));
 
 					auto it = pipe->m_sessionMap.find(closeSessionMsg.id);
@@ -406,8 +420,15 @@ private:
 				}
 				break;
 
+				default:
+					_refuseUpPacket(client, pipe, packetID);
+					return;
 				}
 			}
+			else {
+				//refused or closed already, ignore everything else
+				return;
+			}
 		}
 	}
 
@@ -421,6 +442,13 @@ private:
 	}
 
 private:
+	//-------------------------------------------------------------------------------------
+	void _refuseUpPacket(TcpClientPtr client, RelayPipe* pipe, uint16_t packetID) {
+		CY_LOG(L_ERROR, "receive invalid packet(%d)", packetID);
+		client->disconnect();
+		pipe->m_upState = kDisConnected;
+	}
+
 	//-------------------------------------------------------------------------------------
 	size_t _round16(size_t size) {
 		return ((size & 0xF) == 0) ? size : ((size & (size_t)(~0xF))+0x10);
-- 
2.43.0


From c3c9a8d8aee9925c277eb8f87b7d8c5848793d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:04 +0000
Subject: [PATCH 51/54] fix: relay handshake tested the low half of the key
 twice

---
 samples/relay/relay_local.cpp  | 2 +-
 samples/relay/relay_server.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/samples/relay/relay_local.cpp b/samples/relay/relay_local.cpp
index f844fc3..4664853 100644
--- a/samples/relay/relay_local.cpp
+++ b/samples/relay/relay_local.cpp
@@ -306,7 +306,7 @@ private:
 				RelayHandshakeMsg handshake;
 				memcpy(&handshake, handshakePacket.get_packet_content(), sizeof(handshake));
 
-				bool bRemoteEncrypt = (handshake.dh_key.dq.low != 0 && handshake.dh_key.dq.low != 0);
+				bool bRemoteEncrypt = (handshake.dh_key.dq.high != 0 || handshake.dh_key.dq.low != 0);
 				if (m_encryptMode != bRemoteEncrypt)
 				{
 					CY_LOG(L_ERROR, "Encrypt Mode not match, relay_server:%s , relay_local: %s", bRemoteEncrypt?"true":"false", m_encryptMode ? "true" : "false");
diff --git a/samples/relay/relay_server.cpp b/samples/relay/relay_server.cpp
index 47b1471..0319f83 100644
--- a/samples/relay/relay_server.cpp
+++ b/samples/relay/relay_server.cpp
@@ -206,7 +206,7 @@ private:
 			RelayHandshakeMsg handshake;
 			memcpy(&handshake, handshakePacket.get_packet_content(), sizeof(handshake));
 
-			bool bRemoteEncrypt = (handshake.dh_key.dq.high != 0 && handshake.dh_key.dq.low != 0);
+			bool bRemoteEncrypt = (handshake.dh_key.dq.high != 0 || handshake.dh_key.dq.low != 0);
 			if (m_encryptMode != bRemoteEncrypt)
 			{
 				CY_LOG(L_ERROR, "Encrypt Mode not match, relay_server:%s , relay_local: %s", m_encryptMode ? "true" : "false", bRemoteEncrypt ? "true" : "false");
-- 
2.43.0


From 59388daa58f4dd59c6dbdfeb866e2897c5467ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:06 +0000
Subject: [PATCH 52/54] fix: relay_pipe let a refused connection close or feed
 the pipe

---
 samples/relay/relay_pipe.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 1e52941..14e87fd 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -71,7 +71,7 @@ public:
 		TcpServer server;
 		server.m_listener.on_connected = std::bind(&RelayPipe_DoubleIn::onConnected, this, _1, _3);
 		server.m_listener.on_message = std::bind(&RelayPipe_DoubleIn::onMessage, this, _3);
-		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1);
+		server.m_listener.on_close = std::bind(&RelayPipe_DoubleIn::onClose, this, _1, _3);
 
 		server.bind(Address(m_port1=listen_port1, false), true);
 		server.bind(Address(m_port2=listen_port2, false), true);
@@ -119,6 +119,8 @@ private:
 	{
 		if (!m_pipe) return;
 
+		if (conn != m_conn1 && conn != m_conn2) return;
+
 		if (conn == m_conn1) {
             m_pipe->forward1To2();
 		}
@@ -128,8 +130,11 @@ private:
 	}
 
 	//-------------------------------------------------------------------------------------
-	void onClose(TcpServer* server)
+	void onClose(TcpServer* server, TcpConnectionPtr conn)
 	{
+		//a connection which was refused
+		if (conn != m_conn1 && conn != m_conn2) return;
+
         m_conn1 = nullptr;
         m_conn2 = nullptr;
         m_pipe = nullptr;
@@ -278,7 +283,7 @@ public:
         server.m_listener.on_work_thread_start = std::bind(&RelayPipe_InOut::onWorkthreadStart, this, _1, _3);
         server.m_listener.on_connected = std::bind(&RelayPipe_InOut::onConnectedIn, this, _1, _3);
         server.m_listener.on_message = std::bind(&RelayPipe_InOut::onMessageIn, this, _3);
-        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this);
+        server.m_listener.on_close = std::bind(&RelayPipe_InOut::onCloseIn, this, _3);
         
         server.bind(Address(m_bindPort=bindPort, false), true);
         
@@ -323,12 +328,15 @@ private:
     //-------------------------------------------------------------------------------------
     void onMessageIn(TcpConnectionPtr conn)
     {
-        if(m_pipe)
+        if(m_pipe && conn == m_connIn)
             m_pipe->forward1To2();
     }
     //-------------------------------------------------------------------------------------
-    void onCloseIn(void)
+    void onCloseIn(TcpConnectionPtr conn)
     {
+        //a connection which was refused
+        if (conn != m_connIn) return;
+
         m_pipe = nullptr;
         m_connIn = nullptr;
         m_connOut = nullptr;
-- 
2.43.0


From d3ba8a21855de353ac7fb90f74bda6492d4cc623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:08 +0000
Subject: [PATCH 53/54] fix: relay_pipe kept a closed end to be joined later,
 and stopped before the other end had sent its last bytes

---
 samples/relay/relay_pipe.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 14e87fd..69d1145 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -234,15 +234,28 @@ private:
 	//-------------------------------------------------------------------------------------
 	void onClose(TcpClientPtr client)
 	{
-        if(!m_pipe) return;
-        
+        if(m_pipe) m_closing = true;
         m_pipe = nullptr;
-        m_connection1 = nullptr;
-        m_connection2 = nullptr;
-        if(client==m_client1 && m_client2) m_client2->disconnect();
-        if(client==m_client2 && m_client1) m_client1->disconnect();
-        m_client1 = nullptr;
-        m_client2 = nullptr;
+        
+        //a closed end can't be joined any more
+        TcpClientPtr other;
+        if(client==m_client1) {
+            m_client1 = nullptr;
+            m_connection1 = nullptr;
+            other = m_client2;
+        }
+        else if(client==m_client2) {
+            m_client2 = nullptr;
+            m_connection2 = nullptr;
+            other = m_client1;
+        }
+        if(!m_closing) return;
+        
+        if(other) {
+            //stop after the other end has sent its last bytes
+            other->disconnect();
+            return;
+        }
         
         sys_api::thread_create_detached([this](void*) {
             m_looper->push_stop_request();
@@ -257,6 +270,7 @@ private:
     TcpConnectionPtr m_connection1;
     TcpConnectionPtr m_connection2;
 	RelayPipePtr m_pipe;
+	bool m_closing;
 
 public:
 	RelayPipe_DoubleOut()
@@ -266,6 +280,7 @@ public:
         , m_connection1(nullptr)
         , m_connection2(nullptr)
 		, m_pipe(nullptr)
+		, m_closing(false)
 	{
 
 	}
-- 
2.43.0


From 7d4104b6bf102c5e4cead004b55ad703341c6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:09 +0000
Subject: [PATCH 54/54] fix: relay_pipe released a client which still had bytes
 to send

---
 samples/relay/relay_pipe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/relay/relay_pipe.cpp b/samples/relay/relay_pipe.cpp
index 69d1145..9dfdf45 100644
--- a/samples/relay/relay_pipe.cpp
+++ b/samples/relay/relay_pipe.cpp
@@ -356,7 +356,8 @@ private:
         m_connIn = nullptr;
         m_connOut = nullptr;
         if(m_client) m_client->disconnect();
-        m_client = nullptr;
+        //a client which has bytes to send is released when it is closed
+        if(m_client && m_client->get_connection_state()==TcpConnection::kDisconnected) m_client = nullptr;
     }
     
 private:
-- 
2.43.0

