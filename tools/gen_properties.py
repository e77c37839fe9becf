#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text is readable in diffs)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=hook)))

RB = "source/cyCore/core/cyc_ring_buf.cpp"; RBH = "source/cyCore/core/cyc_ring_buf.h"

prop("C01", "Ring buffer is an exact, lossless byte FIFO for every layout",
 "For every reachable ring buffer state (any capacity, any read/write position, wrapped or not) and any count, bytes appended by a copy-in come out by copy-out, move-to-another-buffer, discard and normalize in exactly the order written, none lost, duplicated or altered, and the returned count is exactly the number of bytes that moved. "
 "The buffer grows as needed: after a copy-in of any length and after a resize request the capacity is at least what was needed and the content is unchanged, while size, free size and capacity always agree (size + free = capacity). "
 "No operation reads or writes outside the buffer's own storage or the caller's range, and every operation terminates.",
 ["inputs", "histories"], "all capacities, all read/write offsets, all contents, all counts (up to 2^62), i.e. all histories of operations through the representation invariant",
 "Unit tests drive a few hand-picked offsets and sizes; the wrap arithmetic depends on the relative order of read, write and end positions, for which there are unboundedly many layouts.",
 [RB, RBH], [("memcpy_into/memcpy_out/moveto/discard/resize/normalize", RB), ("size/get_free_size/reset/empty/full", RBH)],
 [("m_buf,m_end,m_read,m_write", "storage, storage size, read offset, write offset; content is read..write modulo end", RBH)],
 ["bytes returned by memcpy_out / peek / normalize", "size(), get_free_size(), capacity()"])

prop("C02", "Ring buffer socket transfer moves exactly the bytes the kernel moved",
 "A socket read into a ring buffer appends exactly the bytes the kernel delivered, in order, after the existing content (growing the buffer when the kernel filled the overflow area), and reports that number; an end-of-file or error result leaves the buffer untouched and is passed through. "
 "A socket write offers the kernel exactly the buffered bytes in order and removes from the front exactly the number the kernel accepted, for every short count, and on an error nothing is removed. "
 "A read with buffer space available never offers the kernel a zero-length destination, and never offers memory outside the buffer or the overflow area.",
 ["inputs", "fault_sequences"], "all buffer layouts x all kernel return values (short counts, 0, errors) of the vectored read/write",
 "The socket unit test uses a few sizes over a real socket pair; it cannot force the kernel to return a short count at each position of a wrapped buffer.",
 [RB], [("read_socket / write_socket", RB)], None, ["return value", "ring buffer content afterwards", "bytes on the wire"])

prop("C03", "Ring buffer search, peek and checksum report exactly the stored bytes",
 "Searching from an offset returns the position (counted from the first readable byte) of the first occurrence of the byte at or after that offset, or -1 when there is none; peeking copies exactly min(count, size - offset) bytes starting at the offset and returns that number (0 when the offset is past the end or no destination is given); the checksum of a range lying inside the content is the Adler-32 of exactly those bytes, and is the initial value for an empty or out-of-range range. "
 "These hold for every layout including wrapped content and for arbitrarily large offset and count arguments, and none of the queries changes the content or touches memory outside the stored bytes.",
 ["inputs"], "all buffer layouts, all contents, all offsets and counts in the full range of size_t",
 "Tests query small ranges in a handful of layouts; a hit exactly at the read position or at the wrap point, and offset+count overflow, are never sampled.",
 [RB, RBH], [("search / peek / checksum", RB)], None, ["return values", "bytes copied to the caller"])

RQ = "source/cyUtility/utility/cyu_ring_queue.h"
prop("C04", "Ring queue keeps FIFO order in fixed and auto-growing mode",
 "Elements leave the queue in the order they were pushed; a fixed-capacity queue holds at most its capacity and, when full, a push drops exactly the oldest element, while an auto-growing queue never drops an element and keeps the order across growth. "
 "Size, empty, full, front, walk and discard/reset agree with that sequence for every position of the internal indices.",
 ["inputs", "histories"], "all capacities, all head/tail positions, all push/pop histories via the representation invariant",
 "Unit tests run a few fill/drain patterns from small starting sizes, not every head/tail alignment at which a wrap or growth can occur.",
 [RQ], [("push / pop / front / walk / discard / auto-resize", RQ)], [("m_capacity, m_read, m_write, m_buf", "slots and indices", RQ)], ["pop/front/walk results", "size()"])

LF = "source/cyCore/core/cyc_lf_queue.h"
prop("C05", "Lock-free queue delivers each accepted element exactly once, in order",
 "For any number of producers and consumers and any interleaving, every element whose push reported success is returned by exactly one successful pop, with the value that was pushed, and elements are popped in the order in which their slots were reserved (so each producer's elements stay in order). "
 "The queue never holds more than its capacity minus one elements: a push into a full queue reports failure and changes nothing, a push into a queue with room and no interference succeeds, and a pop from an empty queue reports failure and changes nothing.",
 ["schedules", "histories"], "all interleavings of any number of producers and consumers at the granularity of atomic accesses, all index values including 32-bit wrap-around; fewer than 2^32 operations overtaking one suspended operation",
 "The multi-thread test runs one schedule per execution with a huge queue that never fills; full/empty boundary interleavings and index wrap-around are not reached.",
 [LF], [("push/pop compare-and-swap protocol", LF)], [("write index, read index, maximum read index, count", "reserved / consumed / committed positions", LF)], ["push/pop results"])

PK = "source/cyEvent/event/cye_packet.cpp"
prop("C06", "Packet framing consumes exactly one whole packet or nothing",
 "Building a packet from a byte stream (ring buffer or pipe) yields a packet whose id, payload size and payload are exactly the next framed packet's bytes and consumes exactly that packet's header plus payload when it is wholly available; otherwise it reports failure and leaves the packet empty, having consumed nothing from a ring buffer and never more than that packet from a pipe (which cannot be peeked). "
 "Packets built locally (from id and content, by copy, with one or two payload parts) have the header encoded in network byte order with the real payload size, so that decoding an encoded packet returns the same id, size and payload. "
 "No packet operation reads or writes outside the packet's own storage.",
 ["inputs", "histories"], "all head sizes, ids, payload sizes (0..65535) and contents, all ring buffer layouts, all fragmentation points of the stream",
 "The unit test builds a few packets from contiguous buffers; it does not fragment the stream at each byte nor wrap the header across the buffer end.",
 [PK, "source/cyEvent/event/cye_packet.h"], [("build_from_memory / build_from_ringbuf / build_from_pipe / alloc_packet / static_init / resize", PK)], None, ["get_packet_id/size/content", "bytes consumed from the stream"])

prop("C07", "Adler-32 equals its mathematical definition for every input and split",
 "For every byte sequence and every starting value a previous checksum can have (both halves below 65521) the checksum equals the Adler-32 definition (two running sums modulo 65521), for all lengths including those beyond the deferred-modulo block size. "
 "Checksumming a sequence in any number of consecutive pieces, including empty pieces, gives the same result as checksumming it at once.",
 ["inputs"], "all byte sequences of any length, all valid starting values, all split points",
 "Tests compare a few random buffers with precomputed values; overflow of the deferred sums happens only for extreme contents at exact block boundaries.",
 ["source/cyCrypt/crypt/cyr_adler32.cpp"], [("block loop with deferred modulo", "source/cyCrypt/crypt/cyr_adler32.cpp")], None, ["return value"])

RJ = "source/cyCrypt/crypt/cyr_rijndael.cpp"
prop("C08", "AES-128 CBC matches FIPS-197 and decryption inverts encryption",
 "For every key, initial vector and every input of whole 16-byte blocks, encryption produces exactly AES-128 in CBC mode (FIPS-197 / SP 800-38A) and decryption inverts it. "
 "This holds when input and output are the same buffer, and when a message is processed in consecutive calls carrying the chaining vector, which is updated only as CBC requires.",
 ["inputs"], "all 2^128 keys and blocks, all initial vectors, any number of blocks, in-place and out-of-place",
 "Tests check a few vectors and random round trips; a wrong entry in one of the 256-entry tables or a wrong in-place chaining order can hide from them.",
 [RJ], [("key schedule, table-based rounds, CBC chaining", RJ)], None, ["ciphertext/plaintext bytes"])

DH = "source/cyCrypt/crypt/cyr_dhexchange.cpp"
prop("C09", "Diffie-Hellman arithmetic is exact, so both sides derive the same secret",
 "For all operands the public key equals 5^private mod p and the shared secret equals peer-public^private mod p with p = 2^128 - 159, each in reduced form. "
 "Consequently two parties exchanging public keys always derive identical secrets, whatever private keys were drawn, including the smallest and largest values.",
 ["inputs"], "all 2^128 private keys and public values",
 "The test draws random keys; carries and the final reduction misbehave only on rare operands (probability about 2^-64 or less).",
 [DH], [("_mulmodp / _powmodp / add / compare on two 64-bit limbs", DH)], None, ["public key", "shared secret"])

prop("C10", "The xorshift keystream depends only on seed and position and is self-inverse",
 "The generator's output sequence is a function of its seed alone, each step following the xorshift128 recurrence, and stream encryption xors each byte with the next keystream byte irrespective of how the data is split into whole-word calls. "
 "Applying the same keystream twice restores the original data for every buffer length, and no byte outside the given range is touched.",
 ["inputs"], "all seeds, all buffer contents and lengths, all sequences of calls",
 "The test checks one fixed sequence and one buffer size.",
 ["source/cyCrypt/crypt/cyr_xorshift128.cpp", "source/cyCrypt/crypt/cyr_xorshift128.h"], [("make/next/process", "source/cyCrypt/crypt/cyr_xorshift128.cpp")], None, ["keystream", "processed bytes"])

ST = "source/cyUtility/utility/cyu_statistics.h"
prop("C11", "Windowed and min/max statistics report exactly the recorded values",
 "A windowed sum/count covers exactly the samples recorded within the configured period before the query time, each once, expiring samples once and only once they leave the window. "
 "A min/max tracker reports the true minimum and maximum of all recorded values under concurrent updates (no update lost).",
 ["inputs", "histories", "schedules"], "all sample values, all non-decreasing timestamp histories, all interleavings of concurrent min/max updates",
 "Tests push a few samples in real time on one thread.",
 [ST, "source/cyCore/core/cyc_atomic.h"], [("PeriodValue push/total/_update, MinMaxValue update, atomic exchange-if loops", ST)], None, ["sum_and_counts", "min/max"])

TC = "source/cyNetwork/network/cyn_tcp_connection.cpp"
prop("C12", "A connection's outgoing byte stream is exactly the concatenation of its sends",
 "Whatever the kernel accepts per write (all, part, would-block) and whichever thread sends, the bytes put on the wire by a connection are exactly the concatenation of the messages passed to send, in order, with nothing lost, duplicated or reordered. "
 "While unsent bytes remain on a live connection the socket stays registered for writability, so they are eventually flushed, also when a graceful close is requested; the write-complete notification fires only when everything queued has been written.",
 ["fault_sequences", "histories", "schedules"], "all message contents and lengths, all kernel write results, all buffered amounts; sends serialised by the connection's lock",
 "Tests send small messages over loopback where the kernel accepts everything at once.",
 [TC], [("send / _send / _is_writeBuf_empty / _on_socket_write", TC)], [("m_writeBuf", "unsent bytes", TC)], ["write/writev calls", "registered interest"])

prop("C13", "A connection's lifecycle is monotone and close is reported exactly once",
 "A connection only moves forward through connected, disconnecting and disconnected; peer close, an error or a local shutdown leads to exactly one close notification and one release of the socket and its event registration, and no message or write-complete notification is delivered after it. "
 "Received bytes are handed to the message callback in order and a spurious readiness (would-block) does not close a live connection.",
 ["histories", "fault_sequences"], "all sequences of readiness events, kernel results and shutdown requests on the owning thread",
 "Tests exercise a normal open/close; error results and events after shutdown are not injected.",
 [TC], [("_on_socket_read / _on_socket_write / _on_socket_close / _on_socket_error / shutdown state machine", TC)], [("m_state, m_event_id, m_socket", "lifecycle", TC)], ["callbacks"])

LP = "source/cyEvent/event/cye_looper.cpp"
prop("C14", "The event loop dispatches exactly what is registered and ready",
 "Each registration gets an id distinct from all live registrations, and a readiness or timer event is delivered to the callback, parameter and id registered for it, for an interest that is enabled at that moment, and never to a deleted registration. "
 "Enabling or disabling read or write interest changes the kernel's interest set to match exactly the enabled bits, and other registrations are unaffected.",
 ["histories", "inputs"], "all sequences of register/update/disable/delete calls over any number of channels, all poll results",
 "Tests register a few events in one fixed order; slot reuse and interest transitions are only sampled.",
 [LP, "source/cyEvent/event/internal/cye_looper_epoll.cpp"], [("channel slots and free list", LP), ("epoll interest updates and dispatch", "source/cyEvent/event/internal/cye_looper_epoll.cpp")], [("channel buffer, free head, active head", "registrations", "source/cyEvent/event/cye_looper.h")], ["epoll_ctl calls", "callbacks"])

WT = "source/cyEvent/event/cye_work_thread.cpp"
prop("C15", "Work-thread messages arrive once, in order, with no lost wakeup",
 "Every message accepted for a work thread is delivered to its message callback exactly once, with its content, in acceptance order per sender. "
 "A message can never be left in the queue with the thread asleep and no wakeup pending, for any interleaving of senders with the draining thread.",
 ["schedules"], "all interleavings of any number of sending threads with the work thread's drain loop",
 "Tests send bursts in one schedule; the lost-wakeup window is a few instructions wide.",
 [WT], [("send_message / _on_message flag and pipe protocol", WT)], [("queue-empty flag, pipe, message queue", "wakeup state", "source/cyEvent/event/cye_work_thread.h")], ["on_message callbacks"])

TS = "source/cyNetwork/network/cyn_tcp_server.cpp"
prop("C16", "A server hands every accepted connection to one worker and can always be stopped",
 "Every accepted socket is handed to exactly one existing work thread chosen round-robin, with an id unique among connections, or closed; for any number of accepted connections the chosen worker index is valid. "
 "A stop request from a permitted thread always leads to every listener and connection being shut down and every worker finishing, whatever the order in which close, new-connection and shutdown commands are processed, and a rejected stop request changes nothing.",
 ["histories", "schedules"], "all accept counts, all orders of commands at a worker",
 "Tests run one short server; counter wrap and rejected stop requests are not exercised.",
 [TS, "source/cyNetwork/network/internal/cyn_tcp_server_master_thread.cpp", "source/cyNetwork/network/internal/cyn_tcp_server_work_thread.cpp"], [("accept dispatch, stop, worker command handling", TS)], None, ["worker messages", "on_connected/on_close callbacks"])

TCL = "source/cyNetwork/network/cyn_tcp_client.cpp"
prop("C17", "A client connects, retries and flushes early sends without losing or mixing data",
 "Data sent before the connection is established is transmitted first and in order once it is; a connection attempt ends in exactly one connected notification reporting success or failure. "
 "After a failed attempt with a retry interval requested the next attempt starts from a clean state (no stale socket, registration or connection), and no retry is scheduled otherwise.",
 ["fault_sequences", "histories"], "all kernel results for socket creation and connect, all orders of readiness events and sends",
 "Tests connect to a listening loopback port only.",
 [TCL], [("connect / _check_connect_status / _on_retry_connect_timer / send", TCL)], None, ["on_connected callback", "sockets and registrations"])

AD = "source/cyNetwork/network/cyn_address.cpp"
prop("C18", "Addresses round-trip and compare, order and hash consistently",
 "An address built from a port and interface choice or from numeric text holds exactly that port and IPv4 address in network byte order and reports them back; copies equal the original; an address taken from a socket is what the system reports, or the zero address when it reports none. "
 "Equality, ordering and hashing are mutually consistent: two addresses are equal exactly when IPv4 address and port are, the order is a strict total order agreeing with equality, and equal addresses hash equally.",
 ["inputs"], "all pairs and triples of addresses (all 2^48 address/port values), all ports",
 "There is no unit test for addresses.",
 [AD, "source/cyNetwork/network/cyn_address.h"], [("operator==, operator<, hash_value, constructors", AD)], None, ["comparison results"])

prop("C19", "SOCKS5 parsing never over-reads and answers per RFC 1928",
 "For every byte sequence a client may send, in any fragmentation, the handshake and connect-request parsers read only bytes actually received, consume exactly one complete request when one is present, and report incomplete input without consuming it. "
 "A request yields the requested address and port exactly, and malformed or unsupported requests are rejected, never accepted.",
 ["inputs"], "all received byte sequences of any length, all ring buffer layouts",
 "The proxy has no automated tests at all.",
 ["samples/socks5/s5_protocol.cpp", "samples/socks5/s5_protocol.h"], [("s5_get_handshake / s5_get_connect_request / reply builders", "samples/socks5/s5_protocol.cpp")], None, ["parser return value and output"])

SA = "source/cyCore/core/cyc_system_api.cpp"
prop("C20", "Timed waits and sleeps use exact, normalised deadlines",
 "For every timeout and every current time, timed mutex and signal waits ask the operating system for a deadline equal to now plus the timeout, with a nanosecond field below one second, and a sleep lasts the whole time even when it is interrupted. "
 "A wait reports success only when the lock or signal was actually obtained, a spurious wakeup neither loses a signal nor counts as one, and the lock is always released again.",
 ["inputs", "schedules"], "all timeouts (0..2^31-1 ms), all current times up to the year 2255, all wake-up orders",
 "Tests use a few timeouts; a sub-second carry occurs only when the current nanoseconds plus the remainder cross a second.",
 [SA], [("signal_wait / signal_timewait / signal_notify / mutex_try_lock", SA)], None, ["timespec passed to pthread_*", "return value"])

SK = "source/cyCore/core/cyc_socket_api.cpp"
prop("C21", "Socket helpers pass exactly the requested options and report failures",
 "Each socket option helper sets exactly the requested option with the requested value on the given descriptor and reports success exactly when the operating system did; both ends of a pipe are non-blocking and close-on-exec, and a pipe that cannot be built completely leaves no descriptor open. "
 "Address text and numbers convert both ways without truncation or overrun, and read and write results (including errors) are passed through unchanged.",
 ["inputs", "fault_sequences"], "all descriptors, option values and operating system results",
 "Tests only use the success paths over loopback.",
 [SK, "source/cyEvent/event/cye_pipe.cpp"], [("set_nonblock, set_close_onexec, reuse_addr, keep_alive, nodelay, linger, bind, listen, accept ...", SK)], None, ["system calls made", "return values"])

prop("C22", "The relay forwards bytes to the right session and rejects malformed frames",
 "Relay frames coming from the peer are forwarded byte-exact to the session they name and to no other, and a frame whose declared sizes do not fit the received packet is never acted on beyond the bytes received. "
 "Encrypted relay payloads decrypt to the forwarded bytes for every length, including lengths that are not a multiple of the cipher block. "
 "A relay pipe joins its two ends, the right way round, once both are connected, forwards every byte to the other end, and never joins a connection that was refused or has been closed.",
 ["inputs", "histories"], "all frame contents and lengths, all session histories",
 "The relay sample has no automated tests.",
 ["samples/relay/relay_local.cpp", "samples/relay/relay_server.cpp", "samples/relay/relay_pipe.cpp"], [("message handlers and encrypt/decrypt helpers", "samples/relay")], None, ["bytes forwarded"])

prop("C23", "File transfer fragments tile the file exactly",
 "The fragments requested by the downloading client cover every byte of the file exactly once, each received fragment is written at its own offset, and the transfer completes only when every byte has been written. "
 "A fragment whose declared offset or size lies outside the file is rejected, and a message whose declared sizes do not fit is never acted on. "
 "A failed write never counts as received, parts are kept until the combined file is completely written, and a connection the server refuses does not disturb the one it is serving.",
 ["inputs", "histories"], "all file sizes and thread counts, all messages and ways the stream is split, all read and write failures",
 "The file transfer sample has no automated tests.",
 ["samples/filetransfer/ft_client.cpp", "samples/filetransfer/ft_server.cpp"], [("fragment scheduling and writing", "samples/filetransfer/ft_client.cpp")], None, ["file content"])

prop("C24", "Text and log output never overruns a buffer and is never cut",
 "The text helpers (module name, local time, human-readable sizes) and the logger never write outside the destination they are given nor read past a text, and a destination is always terminated. "
 "A log message is appended whole and unaltered, for every length, to the current log file exactly if its level reaches the threshold (unless its file or directory cannot be made), and the file is closed again. "
 "A human-readable size denotes the given number to the printed precision.",
 ["inputs", "fault_sequences"], "all paths, host names, formats, destination sizes, message lengths and levels, file system results; all sizes up to 2^64-1",
 "No unit test covers the text helpers or the logger's buffers.",
 ["source/cyUtility/utility/cyu_string_util.cpp", "source/cyCore/core/cyc_logger.cpp", "source/cyCore/core/cyc_system_api.cpp"], [("size_to_string", "source/cyUtility/utility/cyu_string_util.cpp"), ("disk_log, set_log_filename, DiskLogFile", "source/cyCore/core/cyc_logger.cpp"), ("process_get_module_name, local_time_now", "source/cyCore/core/cyc_system_api.cpp")], None, ["returned strings", "log file content"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
