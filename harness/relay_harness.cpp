// runs the real relay samples on the loopback: whole relays, a server with a hostile relay_local, a relay_local with a hostile server, joined ports
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <cy_crypt.h>
#include <utility/cyu_simple_opt.h>
#include <utility/cyu_statistics.h>
#include <utility/cyu_string_util.h>
#include <functional>
#include <thread>
#include <map>
#include <vector>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include "relay_protocol.h"
#define main relay_main
namespace L {
#include "relay_local.cpp"
}
namespace S {
#include "relay_server.cpp"
}
namespace P {
#include "relay_pipe.cpp"
}
#undef main
using namespace cyclone;
typedef std::string str;
static str name; static uint16_t port;
#define CHECK(c, ...) do { if (!(c)) { printf("MISMATCH %s: ", name.c_str()); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static str data(size_t n, int k = 0) { str s(n, 0); uint32_t x = (uint32_t)n * 7 + 1 + (uint32_t)k * 77; for (auto& c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
static int listener(uint16_t& p) {
	int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	bind(s, (sockaddr*)&a, sizeof a); listen(s, 16); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); p = ntohs(a.sin_port); return s;
}
static int dial() {
	for (int i = 0; i < 200; i++) {
		int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		struct timeval t = {8, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
		if (!connect(s, (sockaddr*)&a, sizeof a)) return s;
		close(s); usleep(20000);
	}
	return -1;
}
static void put(int s, const void* p, size_t n) { send(s, p, n, MSG_NOSIGNAL); }
static str get(int s, size_t n) { str r; char b[65536]; while (r.size() < n) { ssize_t k = recv(s, b, std::min(n - r.size(), sizeof b), 0); if (k <= 0) break; r.append(b, (size_t)k); } return r; }
static pid_t spawn(std::function<int()> f) { fflush(stdout); pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); _exit(f()); } return p; }
static int ended(pid_t p, int ms) { for (int i = 0; i <= ms / 20; i++) { int st; if (waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); usleep(20000); } return -1; }
static void stop(pid_t p) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); }
static void alive(pid_t p, const char* what) { int r = ended(p, 0); CHECK(r == -1, "%s ended with %d", what, r); }
static int echo(int l) {            // echoes every connection
	std::vector<pollfd> f; f.push_back({l, POLLIN, 0}); std::map<int, str> q;
	for (;;) {
		for (size_t i = 1; i < f.size(); i++) f[i].events = (short)(POLLIN | (q[f[i].fd].empty() ? 0 : POLLOUT));
		poll(f.data(), f.size(), 1000);
		for (size_t i = f.size(); i-- > 1;) {
			int s = f[i].fd; char b[65536]; bool gone = false;
			if (f[i].revents & (POLLIN | POLLHUP | POLLERR)) { ssize_t k = recv(s, b, sizeof b, MSG_DONTWAIT); if (k > 0) q[s].append(b, (size_t)k); else if (k == 0 || errno != EAGAIN) gone = true; }
			if (!gone && !q[s].empty()) { ssize_t k = send(s, q[s].data(), q[s].size(), MSG_DONTWAIT | MSG_NOSIGNAL); if (k > 0) q[s].erase(0, (size_t)k); }
			if (gone) { close(s); q.erase(s); f.erase(f.begin() + (long)i); }
		}
		if (f[0].revents & POLLIN) { int s = accept(l, 0, 0); if (s >= 0) f.push_back({s, POLLIN, 0}); }
	}
}
static bool closed(int s) { char c; ssize_t k = recv(s, &c, 1, 0); return k == 0 || (k < 0 && errno == ECONNRESET); }
static bool quiet(int s, int ms) { pollfd p = {s, POLLIN, 0}; return poll(&p, 1, ms) == 0; }
static str be16(size_t x) { return str(1, (char)(x >> 8)) + str(1, (char)x); }
static str le32(int32_t x) { return str((char*)&x, 4); }
static str frame(int id, const str& c) { return be16(c.size()) + be16((size_t)id) + c; }
static void put(int s, const str& x) { put(s, x.data(), x.size()); }
struct Frame { int id; str c; };
static Frame next(int s) { str h = get(s, 4); if (h.size() < 4) return Frame{-1, ""}; size_t n = (size_t)(uint8_t)h[0] << 8 | (uint8_t)h[1]; Frame f; f.id = (uint8_t)h[2] << 8 | (uint8_t)h[3]; f.c = get(s, n); if (f.c.size() != n) f.id = -2; return f; }
struct Peer {                        // the other end of a relay connection
	int s; bool enc; Rijndael* r; dhkey_t pub, priv, key;
	Peer(int s_, bool e) : s(s_), enc(e), r(0) { memset(&pub, 0, sizeof pub); if (e) DH_generate_key_pair(pub, priv); }
	void hello() { put(s, frame(RELAY_HANDSHAKE_ID, str((char*)&pub, 16))); }
	void greet(const char* w) { Frame f = next(s); CHECK(f.id == RELAY_HANDSHAKE_ID && f.c.size() == 16, "%s: no handshake (%d)", w, f.id); dhkey_t o; memcpy(&o, f.c.data(), 16); CHECK(enc == (o.dq.high || o.dq.low), "%s: wrong key in the handshake", w); if (enc) { DH_generate_key_secret(key, priv, o); r = new Rijndael(key.bytes); } }
	str pack(int32_t id, const str& d) { str p = d; if (enc) { p.resize((p.size() + 15) / 16 * 16); r->encrypt((const uint8_t*)p.data(), (uint8_t*)&p[0], p.size()); } return frame(RELAY_FORWARD, le32(id) + le32((int32_t)d.size()) + p); }
	void data(int32_t id, const str& d, size_t cut = 0) { str f = pack(id, d); if (cut) { put(s, f.substr(0, cut)); usleep(60000); put(s, f.substr(cut)); } else put(s, f); }
	str want(int32_t id, size_t n, const char* w) {
		str all;
		while (all.size() < n) {
			Frame f = next(s); CHECK(f.id == RELAY_FORWARD && f.c.size() >= 8, "%s: frame %d instead of data", w, f.id); int32_t i, z; memcpy(&i, f.c.data(), 4); memcpy(&z, f.c.data() + 4, 4); str p = f.c.substr(8);
			CHECK(i == id, "%s: data of session %d instead of %d", w, i, id); CHECK(z > 0 && (enc ? (size_t)(z + 15) / 16 * 16 : (size_t)z) == p.size(), "%s: size %d with %zu bytes", w, z, p.size());
			if (enc) r->decrypt((const uint8_t*)p.data(), (uint8_t*)&p[0], p.size());
			all += p.substr(0, (size_t)z);
		}
		return all;
	}
	void close_is(int32_t id, const char* w) { Frame f = next(s); CHECK(f.id == RELAY_CLOSE_SESSION && f.c == le32(id), "%s: frame %d instead of the close of %d", w, f.id, id); }
};
static std::vector<str> bad(bool enc) {
	std::vector<str> b = {frame(RELAY_FORWARD, le32(1) + le32(9) + str(8, 'x')), frame(RELAY_FORWARD, le32(1) + le32(60000)), frame(RELAY_FORWARD, le32(1) + le32(-1) + str(16, 'x')), frame(RELAY_FORWARD, le32(1)), frame(RELAY_FORWARD, ""), frame(RELAY_CLOSE_SESSION, "ab"), frame(99, "abcd"), frame(104, "")};
	if (enc) b.push_back(frame(RELAY_FORWARD, le32(1) + le32(9) + str(17, 'x')));
	return b;
}
static int one(uint16_t p) { port = p; return dial(); }

static void server_side(bool enc) {
	uint16_t sp, up; close(listener(sp)); int l = listener(up);
	pid_t s = spawn([=] { close(l); S::RelayServer r(enc, false); r.startAndJoin(sp, Address("127.0.0.1", up), 1); return 0; });
	for (int round = 0; round < 3 + (int)bad(enc).size(); round++) {
		Peer p(one(sp), enc); CHECK(p.s >= 0, "cannot connect to the server"); p.hello(); p.greet("server");
		str a = data(33, 1), b = data(70, 2);
		put(p.s, frame(RELAY_NEW_SESSION, le32(1))); int u1 = accept(l, 0, 0); put(p.s, frame(RELAY_NEW_SESSION, le32(65537))); int u2 = accept(l, 0, 0);
		struct timeval t = {8, 0}; setsockopt(u1, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); setsockopt(u2, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
		p.data(65537, b, round ? 0 : 7); p.data(1, a); p.data(1, ""); str x = get(u1, a.size()), y = get(u2, b.size());
		CHECK(x == a && y == b, "server: the bytes of two sessions are mixed or changed"); CHECK(quiet(u1, 50) && quiet(u2, 50), "server: more bytes than were sent");
		str c = data(70000, 3); std::thread w([&] { put(u1, c); }); str d = p.want(1, c.size(), "server"); w.join(); CHECK(d == c, "server: the bytes of the up server are changed");
		if (round == 0) { put(p.s, frame(RELAY_CLOSE_SESSION, le32(1))); CHECK(closed(u1), "server: the session is not closed"); p.data(65537, a); CHECK(get(u2, a.size()) == a, "server: the other session is closed too"); p.data(1, a); p.close_is(1, "server"); close(u2); p.close_is(65537, "server"); }
		else if (round == 1) { put(p.s, frame(RELAY_NEW_SESSION, le32(1))); CHECK(closed(p.s), "server: the id of a live session is used again"); CHECK(closed(u1) && closed(u2), "server: the sessions of a refused relay are not closed"); }
		else if (round == 2) { put(p.s, frame(RELAY_NEW_SESSION, "a")); CHECK(closed(p.s), "server: a short request is accepted"); }
		else { put(p.s, bad(enc)[(size_t)round - 3]); bool k = closed(p.s); alive(s, "the server"); CHECK(k, "server: malformed frame %d is not refused", round - 3); CHECK(closed(u1) && closed(u2), "server: something of malformed frame %d is forwarded", round - 3); }
		close(p.s); close(u1); close(u2); usleep(30000); alive(s, "the server");
	}
	{ Peer p(one(sp), enc); str k(16, 0); k[enc ? 0 : 15] = enc ? 0 : 1; put(p.s, frame(RELAY_HANDSHAKE_ID, k)); CHECK(closed(p.s), "server: a handshake of the other mode is accepted"); close(p.s); }
	{ Peer p(one(sp), enc); str k(16, 0); k[enc ? 0 : 3] = enc ? 0 : 1; put(p.s, frame(RELAY_HANDSHAKE_ID, k)); CHECK(closed(p.s), "server: a handshake of the other mode is accepted"); close(p.s); }
	{ Peer p(one(sp), enc); put(p.s, frame(RELAY_NEW_SESSION, le32(1))); CHECK(closed(p.s), "server: a session is made before the handshake"); close(p.s); }
	close(l);                        // nobody to connect to any more
	{ Peer p(one(sp), enc); p.hello(); p.greet("server"); put(p.s, frame(RELAY_NEW_SESSION, le32(7))); p.close_is(7, "server"); close(p.s); }
	usleep(30000); alive(s, "the server"); stop(s);
}

static void local_side(bool enc) {
	for (int round = 0; round < 1 + (int)bad(enc).size(); round++) {
		uint16_t lp, up; close(listener(lp)); int l = listener(up);
		pid_t s = spawn([=] { close(l); L::RelayLocal r(enc, false); r.startAndJoin(lp, Address("127.0.0.1", up), 1); return 0; });
		Peer p(accept(l, 0, 0), enc); struct timeval t = {8, 0}; setsockopt(p.s, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); p.greet("local");
		int e = one(lp); CHECK(closed(e), "local: a connection is accepted before the handshake"); close(e);
		p.hello(); usleep(100000);
		int c1 = one(lp), i1, i2; Frame f = next(p.s); CHECK(f.id == RELAY_NEW_SESSION && f.c.size() == 4, "local: no request for a session"); memcpy(&i1, f.c.data(), 4);
		int c2 = one(lp); f = next(p.s); CHECK(f.id == RELAY_NEW_SESSION && f.c.size() == 4, "local: no request for a session"); memcpy(&i2, f.c.data(), 4); CHECK(i1 != i2, "local: two sessions have one id");
		str a = data(33, 1), b = data(64, 2), c = data(70001, 3);
		p.data(i2, b, round ? 0 : 7); p.data(i1, a); CHECK(get(c1, a.size()) == a && get(c2, b.size()) == b, "local: the bytes of two sessions are mixed or changed"); CHECK(quiet(c1, 50) && quiet(c2, 50), "local: more bytes than were sent");
		std::thread w([&] { put(c1, c); }); str d = p.want(i1, c.size(), "local"); w.join(); CHECK(d == c, "local: the bytes of the client are changed");
		if (round == 0) {
			put(p.s, frame(RELAY_CLOSE_SESSION, le32(i1))); CHECK(closed(c1), "local: the session is not closed"); p.data(i2, a); CHECK(get(c2, a.size()) == a, "local: the other session is closed too");
			p.data(i1, a); p.close_is(i1, "local"); close(c2); p.close_is(i2, "local");
		} else { str x = bad(enc)[(size_t)round - 1]; for (size_t k = 0; k + 4 < x.size() && k < 1; k++) if (x[3] == RELAY_FORWARD && x.size() >= 8) memcpy(&x[4], &i1, 4); put(p.s, x); bool k = closed(p.s); alive(s, "relay_local"); CHECK(k, "local: malformed frame %d is not refused", round - 1); CHECK(quiet(c1, 30) || closed(c1), "local: something of malformed frame %d is forwarded", round - 1); }
		close(c1); close(p.s); close(l); usleep(20000); alive(s, "relay_local"); stop(s);
	}
}

static void whole(bool enc) {
	uint16_t sp, lp, up; close(listener(sp)); close(listener(lp)); int l = listener(up);
	pid_t u = spawn([=] { return echo(l); }); close(l);
	pid_t s = spawn([=] { S::RelayServer r(enc, true); r.startAndJoin(sp, Address("127.0.0.1", up), 1); return 0; });
	close(one(sp));
	pid_t c = spawn([=] { L::RelayLocal r(enc, true); r.startAndJoin(lp, Address("127.0.0.1", sp), 1); return 0; });
	for (int i = 0; i < 100; i++) { int x = one(lp); put(x, "x"); bool ok = get(x, 1) == "x"; close(x); if (ok) break; usleep(50000); }
	size_t N[] = {1, 15, 16, 17, 0xff00, 0xff01, 200003}; std::vector<int> f; std::vector<std::thread> w; std::vector<str> d, r;
	for (int i = 0; i < 7; i++) { f.push_back(one(lp)); d.push_back(data(N[i], i)); r.push_back(""); }
	for (int i = 0; i < 7; i++) { w.emplace_back([&, i] { put(f[(size_t)i], d[(size_t)i]); }); w.emplace_back([&, i] { r[(size_t)i] = get(f[(size_t)i], N[i]); }); }
	for (auto& t : w) t.join();
	for (int i = 0; i < 7; i++) CHECK(r[(size_t)i] == d[(size_t)i], "%zu bytes through both relays come back as %zu, or changed", N[i], r[(size_t)i].size());
	alive(s, "the server"); alive(c, "relay_local"); stop(c); stop(s); stop(u);
}

static void joined() {
	uint16_t p1, p2; close(listener(p1)); close(listener(p2));
	pid_t s = spawn([=] { P::RelayPipe_DoubleIn r; r.startAndJoin(p1, p2); return 0; });
	int a = one(p1); str x = data(5000, 1), y = data(90000, 2); put(a, x); usleep(100000); int b = one(p2); CHECK(get(b, x.size()) == x, "pipe: what came before the other end is lost");
	std::thread w([&] { put(b, y); }); str z = get(a, y.size()); w.join(); CHECK(z == y, "pipe: the bytes are changed");
	int e = one(p1); put(e, "zz"); CHECK(closed(e), "pipe: a third connection is accepted"); close(e); usleep(50000); alive(s, "relay_pipe");
	CHECK(quiet(b, 50), "pipe: bytes of a refused connection are forwarded");
	put(a, x); CHECK(get(b, x.size()) == x, "pipe: a refused connection ends the pipe"); stop(s); close(a); close(b);
	int l = listener(p2); close(listener(p1));
	s = spawn([=] { close(l); P::RelayPipe_InOut r; r.startAndJoin(p1, Address("127.0.0.1", p2)); return 0; });
	b = accept(l, 0, 0); struct timeval t = {8, 0}; setsockopt(b, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); a = one(p1); put(a, x); CHECK(get(b, x.size()) == x, "pipe: the bytes are changed");
	std::thread w2([&] { put(b, y); }); z = get(a, y.size()); w2.join(); CHECK(z == y, "pipe: the bytes are changed back"); stop(s);
	s = 0; uint16_t q1, q2; int l1 = listener(q1), l2 = listener(q2);
	s = spawn([=] { close(l1); close(l2); P::RelayPipe_DoubleOut r; r.startAndJoin(Address("127.0.0.1", q1), Address("127.0.0.1", q2)); return 0; });
	a = accept(l1, 0, 0); b = accept(l2, 0, 0); setsockopt(a, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); setsockopt(b, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
	usleep(100000); put(a, x); CHECK(get(b, x.size()) == x, "pipe out: the bytes are changed"); std::thread w3([&] { put(b, y); }); z = get(a, y.size()); w3.join(); CHECK(z == y, "pipe out: the bytes are changed back");
	str m = data(6000000, 5); put(a, m); usleep(300000); close(a); CHECK(get(b, m.size()) == m, "pipe out: the last bytes of an end that closed are lost"); stop(s); close(b);
}

static void closed_in() {
	uint16_t p1, p2; close(listener(p1)); int l = listener(p2); struct timeval t = {8, 0};
	pid_t s = spawn([=] { close(l); P::RelayPipe_InOut r; r.startAndJoin(p1, Address("127.0.0.1", p2)); return 0; });
	int b = accept(l, 0, 0); setsockopt(b, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); int a = one(p1); str m = data(6000000, 6); put(a, m); usleep(300000); close(a);
	CHECK(get(b, m.size()) == m, "pipe: the last bytes of the end that closed are lost"); close(b); stop(s); close(l);
}

static void closed_early() {
	uint16_t q1, q2; int l1 = listener(q1); close(listener(q2));
	pid_t s = spawn([=] { close(l1); P::RelayPipe_DoubleOut r; r.startAndJoin(Address("127.0.0.1", q1), Address("127.0.0.1", q2)); return 0; });
	close(accept(l1, 0, 0)); usleep(200000); uint16_t q = q2; int l2 = socket(AF_INET, SOCK_STREAM, 0), on = 1; setsockopt(l2, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
	struct sockaddr_in x; memset(&x, 0, sizeof x); x.sin_family = AF_INET; x.sin_port = htons(q); x.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (bind(l2, (struct sockaddr*)&x, sizeof x) || listen(l2, 4)) { stop(s); return; }
	struct timeval t = {8, 0}; setsockopt(l2, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
	int b = accept(l2, 0, 0); usleep(300000); alive(s, "a relay_pipe whose first end closed early"); stop(s); if (b >= 0) close(b); close(l2); close(l1);
}

static void late_out() {
	uint16_t p1, p2; close(listener(p1)); close(listener(p2));
	pid_t s = spawn([=] { P::RelayPipe_InOut r; r.startAndJoin(p1, Address("127.0.0.1", p2)); return 0; });
	int a = one(p1), l = socket(AF_INET, SOCK_STREAM, 0), on = 1; setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
	struct sockaddr_in q; memset(&q, 0, sizeof q); q.sin_family = AF_INET; q.sin_port = htons(p2); q.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	usleep(200000); if (bind(l, (struct sockaddr*)&q, sizeof q) || listen(l, 4)) { stop(s); return; }
	struct timeval t = {8, 0}; setsockopt(l, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); int b = accept(l, 0, 0); if (b < 0) { stop(s); return; }
	setsockopt(b, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t); usleep(100000);
	str x = data(5000, 1), y = data(7000, 2); put(a, x); CHECK(get(b, x.size()) == x, "pipe: the bytes do not reach an end that is connected last"); put(b, y); CHECK(get(a, y.size()) == y, "pipe: the bytes do not come back from an end that is connected last"); stop(s); close(a); close(b); close(l);
}

#ifndef NO_MAIN
int main(int n, char** v) {
	set_log_threshold(L_MAXIMUM_LEVEL); signal(SIGPIPE, SIG_IGN); setvbuf(stdout, 0, _IONBF, 0);
	std::vector<pid_t> c; std::vector<std::function<void()>> f = {[] { name = "plain relays"; whole(false); }, [] { name = "encrypted relays"; whole(true); }, [] { name = "plain server"; server_side(false); }, [] { name = "encrypted server"; server_side(true); },
		[] { name = "plain local"; local_side(false); }, [] { name = "encrypted local"; local_side(true); }, [] { name = "pipe"; joined(); }, [] { name = "pipe in out"; closed_in(); }, [] { name = "pipe closed early"; closed_early(); }, [] { name = "pipe connected late"; late_out(); }};
	for (size_t i = 0; i < f.size(); i++) if (n != 2 || atoi(v[1]) == (int)i) c.push_back(spawn([&] { f[i](); return 0; }));
	int bad = 0; for (pid_t p : c) { int r = ended(p, 80000); if (r > 0) bad = 1; if (r < 0) { kill(p, SIGKILL); continue; } if (r > 1) printf("MISMATCH a scenario ended with %d\n", r); }
	return bad;
}
#endif
