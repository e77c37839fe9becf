COMMON = " Assumes the LLVM front end/VC generator, the trusted libc contracts listed in the evidence, no allocation failure, no exceptions."
NOTE["C01"] = "Every RingBuf member function is proved against the byte-sequence contract for all capacities up to 2^60, all positions, all counts and contents." + COMMON
NOTE["C02"] = "read_socket/write_socket proved against symbolic readv/writev results for all layouts and all short counts." + COMMON
NOTE["C03"] = "search/peek/checksum proved for all layouts and all 64-bit offsets/counts; checksum uses the adler32 contract discharged by C07." + COMMON
NOTE["C07"] = "adler32 proved for all lengths up to 2^62 with inferred inductive loop invariants; splitting follows from the contract by lemma." + COMMON
NOTE["C04"] = "Every RingQueue member proved against the sequence-of-T contract in both modes, for all capacities up to 2^48, all positions, all counts, at two element types; walk callbacks are arbitrary." + COMMON
NOTE["C06"] = "Every Packet function proved for all header sizes, ids, payload sizes and contents, from every prior packet state (empty, static storage, heap storage); the ring buffer is used through its contract, the pipe through the trusted contract of read(2); decode(encode(p)) is proved by composing the real bodies." + COMMON
NOTE["C11"] = "PeriodValue push/sum_and_counts/_update/total_counts/constructor proved for every history, period and query time over the queue contract discharged by C04 (the expiry search by inferred loop invariants with a termination obligation); MinMaxValue by rely-guarantee for any number of threads and every atomic step. Times are assumed non-decreasing." + COMMON
NOTE["C10"] = "xorshift128 proved for all lengths up to 2^60 and all contents with inferred memory-loop invariants; next() proved against the published xorshift128+ recurrence; self-inverse and whole-word splitting follow by lemma." + COMMON
NOTE["C12"] = "Every TcpConnection member that writes (send on the loop thread and from other threads, shutdown, _on_socket_write, close) proved from the real code against a lock invariant (queued bytes => write interest) and a message-progress ghost (directly written and queued parts are exactly the message, once, contiguous), with any number of other senders as the environment; RingBuf through C01/C02, Looper through C14 contracts." + COMMON
NOTE["C13"] = "Constructor, destructor, all event handlers, send and shutdown of TcpConnection proved from the real code: monotone state, one close notification, one socket close after one registration delete, no callback afterwards, in-order delivery, would-block harmless; application callbacks are arbitrary (they may send, shut down or release the connection)." + COMMON
NOTE["C15"] = "All send_message variants, _wakeup, _on_message, the constructor and the thread body proved as steps of a wakeup protocol whose invariant is discharged as lemmas for every interleaving of any number of senders with the draining thread; queue through the contract discharged by C05, packets through C06." + COMMON
NOTE["C18"] = "All constructors, copies and getters of Address proved for all ports, addresses and texts (parsing through the trusted inet_pton contract); the equality, order and hash laws are proved over closed-form summaries of the real operators for all addresses." + COMMON
NOTE["C21"] = "Every socket_api helper except resolve_hostname/check_connect, and every Pipe function, proved against a recording operating-system model in which every call may succeed or fail." + COMMON
NOTE["C19"] = "Both parsers and both reply builders proved for every input byte string of every length over the ring buffer contract discharged by C01/C03 (method scan by an inferred quantified loop invariant); resolve_hostname explored for result lists of up to 3 entries (bounded). The sample server's own message handler is not under contract." + COMMON
NOTE["C05"] = "push, pop, size and the constructor proved by rely-guarantee over ghost ticket counters: every atomic step is a step the other threads rely on, and between any two steps the other threads take any number of steps; instantiations with capacities 2, 16 and 65536." + COMMON
NOTE["C08"] = "Key schedule, single block and CBC encryption/decryption proved against FIPS-197 for all keys and blocks (tables checked entry by entry against the GF(2^8) definition; equalities by exact XOR-linear algebra and bit-vector solving), CBC loops by invariant for all lengths, in place and out of place." + COMMON
NOTE["C09"] = "128-bit arithmetic of dh128.cpp proved against the integers modulo 2^128-159 for all operands, the recursion by a contract induction on the exponent, the agreement of secrets by the Lean-checked lemma dh.lean." + COMMON
NOTE["C20"] = "The waits, sleep, lock and clock functions proved against a recording pthread/clock model: deadlines for every timeout and every clock value, signals by a monitor invariant held at every release of the mutex with an arbitrary predicate value at every acquisition (every schedule of other threads that use these functions), waiting loops by invariant." + COMMON
NOTE["C17"] = "Every TcpClient member (constructor, connect, event and retry-timer handlers, disconnect, send, state, destructor, the closures given to the connection) proved from the real code against a class invariant (idle / connecting / established, with exactly the sockets, registrations and timers that belong to it), for every kernel result and every application callback (which may connect again, send, or release the client): one notification per attempt, after cleanup, retry exactly if asked for, early sends transmitted first and in order." + COMMON
NOTE["C14"] = "Every operation of the loop (register/timer/delete, enable/disable/query, _poll, loop, step, timer dispatch, constructor) proved down to epoll_ctl for a registration table of any size: table and free-list invariant, kernel interest set = enabled interests, frame for all other registrations, dispatch of each reported event to the registration it was reported for, with callbacks that may change the whole table." + COMMON
NOTE["C16"] = "Every function of TcpServer, its master thread and its work threads proved from the real code for any number of listeners, work threads (1..32) and connections: a socket accepted is handed to one valid work thread in turn, a connection is made once, kept, reported and removed once; every command at master and worker; stop, rejected stop, join and restart. That a stop request always finishes follows by lemmas over these contracts (queue order, state of every connection), assuming peers' closes are eventually reported." + COMMON
NOTE["C23"] = "The fragment plan, every client handler (query, connect, begin, data, end, close), the combination and every server handler proved from the real code for every file size, thread count, message, split of the stream and read/write failure: the plan tiles the file; a fragment counts only if every byte was written and its checksum matches; nothing outside the file is served; parts are removed only after the whole file was written. The multiplication step of the plan is a lemma over the integers." + COMMON
NOTE["C22"] = "Every connection handler of relay_local and relay_server and the forwarding of relay_pipe proved from the real code: one arbitrary round of each message loop from any state of the pipe, any buffered bytes, any frame, any sessions, with and without encryption; the packing loops by one arbitrary packet. Sessions given up only when their connection is closed is an obligation at every erase. relay_pipe: joining and all connect, message and close callbacks of its three modes." + COMMON
NOTE["C24"] = "process_get_module_name, local_time_now, both size_to_string and every function of the disk logger proved from the real code over a text domain (where the first terminator is, how much room is left): every path length, format, buffer size, message length, level and file-system result; the printed size is compared with the given number in floating-point arithmetic." + COMMON
