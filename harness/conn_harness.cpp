// searches schedules and kernel behaviours of the real TcpConnection for lost, duplicated or reordered output, stuck output, wrong lifecycle (C12, C13)
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <malloc.h>
#include <sys/uio.h>
#include <string>
#include <deque>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "dv_sched.h"
using namespace cyclone;
static std::string fail;
static void bad(const char* f, long a = 0, long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }
static void* quarantine[4096]; static int qn;
void operator delete(void* p) noexcept { if (!p) return; for (size_t i = 0; i + 4 <= malloc_usable_size(p); i += 4) *(volatile uint32_t*)((char*)p + i) = 2; free(quarantine[qn]); quarantine[qn] = p; qn = (qn + 1) % 4096; }
void operator delete(void* p, size_t) noexcept { operator delete(p); }

// ---- the world
static std::string wire, incoming, delivered;
static size_t taken; static bool eof, wasFault, wasErr; static int lastRead; static int sockClosed, evDeleted, closes, completes; static bool evLive, W, R, rReady; static int shutdownCalls;
static const int FD = 77; static const uint32_t EV = 5;
static bool hardErrors;
static ssize_t kwrite(int fd, const char* b, size_t n) {
	if (fd != FD || sockClosed) { bad("data was written to a socket that is not the connection's open socket"); errno = EBADF; return -1; }
	if (wasFault) { errno = EPIPE; return -1; }
	int k = sched::rnd() % (hardErrors ? 24 : 20);
	if (k < 8) { wire.append(b, n); return n; }
	if (k < 14) { size_t m = n ? sched::rnd() % n + (n == 1) : 0; if (m == 0 && n) m = 1; wire.append(b, m); return m; }
	if (k < 19) { errno = EAGAIN; return -1; }
	if (k == 19) { errno = ENOBUFS; return -1; }
	wasFault = true; eof = true; errno = k & 1 ? EPIPE : ECONNRESET; return -1;
}
static ssize_t kread(int fd, char* b, size_t n) {
	if (fd != FD || sockClosed) { bad("data was read from a socket that is not the connection's open socket"); errno = EBADF; return -1; }
	size_t av = incoming.size() - taken; if (av > n) av = n;
	if (av && sched::rnd() % 4) { size_t m = 1 + sched::rnd() % av; memcpy(b, incoming.data() + taken, m); taken += m; lastRead = 1; return m; }
	if (!av && eof) { if (wasFault && sched::rnd() % 2) { lastRead = 3; errno = ECONNRESET; return -1; } lastRead = 0; return 0; }
	lastRead = 2; errno = EAGAIN; return -1;
}
extern "C" ssize_t readv(int fd, const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; std::string s(t, 0); ssize_t r = kread(fd, &s[0], t); size_t o = 0; for (int i = 0; i < n && r > 0 && o < (size_t)r; i++) { size_t k = std::min(v[i].iov_len, (size_t)r - o); memcpy(v[i].iov_base, s.data() + o, k); o += k; } return r; }
extern "C" ssize_t writev(int fd, const struct iovec* v, int n) { std::string s; for (int i = 0; i < n; i++) s.append((char*)v[i].iov_base, v[i].iov_len); return kwrite(fd, s.data(), s.size()); }
namespace cyclone {
void disk_log(LOG_LEVEL, const char*, ...) { if (sched::self() == 0) errno = 0; }
namespace socket_api {
ssize_t write(socket_t s, const char* b, size_t n) { return kwrite(s, b, n); }
ssize_t read(socket_t s, void* b, size_t n) { return kread(s, (char*)b, n); }
bool shutdown(socket_t s) { if (s != FD || sockClosed) bad("shutdown of a socket that is not open"); shutdownCalls++; return true; }
void close_socket(socket_t s) { if (s != FD) bad("a wrong socket is closed"); if (sockClosed++) bad("the socket is closed twice"); if (evLive) bad("the socket is closed before its registration is deleted"); }
int get_lasterror(void) { return errno; }
bool is_lasterror_WOULDBLOCK(void) { return errno == EWOULDBLOCK; }
bool set_nonblock(socket_t, bool) { return true; }
bool set_close_onexec(socket_t, bool) { return true; }
bool set_keep_alive(socket_t, bool) { return true; }
bool set_linger(socket_t, bool, uint16_t) { return true; }
bool set_nodelay(socket_t, bool) { return true; }
}
static int owner_of[64]; static int nmutex; static bool dead[64];
namespace sys_api {
thread_id_t thread_get_current_id(void) { thread_id_t r; unsigned long v = sched::self() + 1; memcpy(&r, &v, sizeof r); return r; }
mutex_t mutex_create(void) { nmutex = nmutex % 60 + 1; owner_of[nmutex] = 0; dead[nmutex] = false; return (mutex_t)(long)nmutex; }
static long chk(mutex_t m) { long i = (long)m; if (i < 1 || i > 60 || dead[i]) { bad("a mutex that does not exist (any more) is used"); return 0; } return i; }
void mutex_destroy(mutex_t m) { long i = chk(m); if (i) { if (owner_of[i]) bad("a held mutex is destroyed"); dead[i] = true; } }
void mutex_lock(mutex_t m) { long i = chk(m); if (!i) return; sched::yield(true); if (owner_of[i] == sched::self() + 1) { bad("a mutex is locked twice by its owner"); return; } while (owner_of[i] && fail.empty()) sched::yield(true); owner_of[i] = sched::self() + 1; }
void mutex_unlock(mutex_t m) { long i = (long)m; if (i < 1 || i > 60) { bad("an invalid mutex is unlocked"); return; } if (dead[i]) bad("a destroyed mutex is unlocked"); owner_of[i] = 0; sched::yield(true); }
int64_t performance_time_now(void) { return 0; }
}
Address::Address() {}
Address::Address(bool, socket_t) {}
Address::Address(const Address&) {}
Address& Address::operator=(const Address&) { return *this; }
Pipe::Pipe() {} Pipe::~Pipe() {}
const Looper::event_id_t Looper::INVALID_EVENT_ID = (Looper::event_id_t)(~0);
Looper::Looper() : m_current_thread(sys_api::thread_get_current_id()) {}
Looper::~Looper() {}
static Looper::event_callback on_r, on_w;
static bool okid(Looper::event_id_t id) { if (id == Looper::INVALID_EVENT_ID) return false; if (id != EV || !evLive) { bad("the event loop is called with a registration that is not the connection's live one"); return false; } return true; }
Looper::event_id_t Looper::register_event(socket_t fd, event_t t, void*, event_callback r, event_callback w) { if (fd != FD || evLive) bad("a wrong socket is registered"); evLive = true; R = t & kRead; W = t & kWrite; on_r = r; on_w = w; return EV; }
void Looper::delete_event(event_id_t id) { if (okid(id)) { evLive = R = W = false; evDeleted++; } }
void Looper::enable_write(event_id_t id) { if (okid(id)) W = true; sched::yield(true); }
void Looper::disable_write(event_id_t id) { if (okid(id)) W = false; }
void Looper::enable_read(event_id_t id) { if (okid(id)) R = true; }
void Looper::disable_read(event_id_t id) { if (okid(id)) R = false; }
void Looper::disable_all(event_id_t id) { if (okid(id)) R = W = false; }
bool Looper::is_write(event_id_t id) const { sched::yield(true); return okid(id) && W; }
bool Looper::is_read(event_id_t id) const { return okid(id) && R; }
struct MyLooper : Looper {
	void _poll(channel_list&, channel_list&, bool) override {}
	void _update_channel_add_event(channel_s&, event_t) override {}
	void _update_channel_remove_event(channel_s&, event_t) override {}
};
}
static std::string msg(int s, int k) { int n = (s * 37 + k * 101 + 3) % 60; if (k == 2) n = 300 + s * 900; std::string r; r += (char)s; r += (char)k; r += (char)(n & 255); r += (char)(n >> 8); for (int i = 0; i < n; i++) r += (char)(s * 31 + k * 17 + i * 7); return r; }
// splits the wire into messages; a trailing part of a message is allowed only if `cut`
static bool parse(std::vector<std::pair<int, int>>& out, bool cut) {
	size_t o = 0;
	while (o < wire.size()) {
		if (o + 2 > wire.size()) return cut;
		int s = wire[o], k = wire[o + 1];
		if (s < 0 || s > 8 || k < 0 || k > 8) { bad("the byte stream is not a sequence of the messages sent (at byte %ld)", o); return false; }
		std::string m = msg(s, k);
		size_t n = std::min(m.size(), wire.size() - o);
		if (memcmp(m.data(), wire.data() + o, n)) { bad("a message on the wire is damaged or torn by another one (at byte %ld)", o); return false; }
		if (n < m.size()) { if (!cut) bad("part of a message was never written although the connection is idle and live"); return cut; }
		out.push_back({s, k}); o += n;
	}
	return true;
}
static void one(uint64_t seed) {
	sched::seed(seed);
	wire.clear(); incoming.clear(); delivered.clear(); taken = 0; eof = wasFault = wasErr = false; lastRead = -1; sockClosed = evDeleted = closes = completes = shutdownCalls = 0; evLive = W = R = false;
	int nt = sched::rnd() % 3, per = 1 + sched::rnd() % 4;
	hardErrors = sched::rnd() % 4 == 0;
	bool mayShut = sched::rnd() % 2, mayEof = sched::rnd() % 4 == 0, dropOwner = sched::rnd() % 2, cbSend = sched::rnd() % 3 == 0, cbShut = sched::rnd() % 6 == 0, stats = sched::rnd() % 2;
	for (int i = 0, n = sched::rnd() % 40; i < n; i++) incoming += (char)sched::rnd();
	std::vector<std::vector<int>> done(nt + 1, std::vector<int>());   // messages whose send returned
	std::vector<char> doneAtShut; bool shut = false; int active = nt; bool ended = false, inwrite = false;
	size_t needAtWrite = 0; (void)needAtWrite;
	std::vector<std::pair<int, int>> before;    // sends that returned before the shutdown request
	std::vector<std::function<void()>> fs;
	std::vector<std::shared_ptr<TcpConnection>> hold(nt + 1);
	fs.push_back([&] {
		MyLooper lp;
		std::shared_ptr<TcpConnection> owner(new TcpConnection(1, FD, &lp, nullptr));
		TcpConnection* c = owner.get();
		std::weak_ptr<TcpConnection> w = owner;
		for (int i = 0; i < nt; i++) hold[i] = owner;
		if (stats) { c->start_write_statistics(1000); c->start_read_statistics(1000); }
		int k = 0, mine = nt;
		auto gone = [&] { return closes > 0 || w.expired() || c->m_state == TcpConnection::kDisconnected; };
		auto all_done = [&] { std::vector<std::pair<int, int>> v; for (int s = 0; s <= nt; s++) for (int x : done[s]) v.push_back({s, x}); return v; };
		auto doshut = [&] { if (gone()) return; if (!shut) { shut = true; before = all_done(); } c->shutdown(); };
		auto dosend = [&] { if (k >= per || gone() || shut) return; std::string m = msg(mine, k); c->send(m.data(), m.size()); if (!shut && !gone()) done[mine].push_back(k); k++; };
		c->set_on_close([&](TcpConnectionPtr p) { if (p.get() != c) bad("the close callback gets another connection"); if (closes++) bad("the close is reported twice"); if (p->get_state() != TcpConnection::kDisconnected) bad("the close is reported before the connection is disconnected"); if (evLive) bad("the close is reported while the registration is live"); if (dropOwner) owner.reset(); });
		c->set_on_message([&](TcpConnectionPtr p) { if (closes) bad("a message is delivered after the close"); RingBuf& b = p->get_input_buf(); size_t n = sched::rnd() % 3 ? b.size() : b.size() / 2; std::string t(b.size(), 0); b.peek(0, &t[0], t.size()); std::string e = delivered + t; if (e != incoming.substr(0, taken)) bad("the received bytes reach the message callback altered, reordered or incomplete"); delivered += t.substr(0, n); b.discard(n);
			if (cbSend) dosend(); if (cbShut && sched::rnd() % 4 == 0) doshut(); });
		std::vector<std::pair<int, int>> atEvent;
		c->set_on_send_complete([&](TcpConnectionPtr) { if (closes) bad("write-complete is reported after the close"); if (!inwrite) bad("write-complete is reported outside a writability event"); completes++;
			std::vector<std::pair<int, int>> got; if (!wasFault) { parse(got, true); for (auto& x : atEvent) { bool f = false; for (auto& y : got) f |= x == y; if (!f) bad("write-complete is reported while message %ld of sender %ld is not written", x.second, x.first); } }
			if (cbSend) dosend(); if (cbShut && sched::rnd() % 4 == 0 && !gone()) doshut(); });
		long idle = 0;
		for (long step = 0; step < 4000 && fail.empty(); step++) {
			sched::yield(true);
			if (gone()) { if (active == 0) break; continue; }
			bool quiet = active == 0 && k >= per;
			int ev = sched::rnd() % 8;
			if (ev < 3 && R) { bool will = taken < incoming.size() || eof || sched::rnd() % 4 == 0; if (will) { size_t t0 = taken; lastRead = -1; int sc = shut; bool ex = eof; on_r(EV, FD, Looper::kRead, nullptr); if (lastRead == 2 && gone()) bad("a would-block read closes a live connection"); if (lastRead == 0 && !gone()) bad("end of stream does not close the connection"); if (lastRead == 3 && !gone()) bad("a read error does not close the connection"); if (lastRead == 1 && taken == t0) {} (void)sc; (void)ex; } }
			else if (ev < 6 && W) { atEvent = all_done(); inwrite = true; size_t w0 = wire.size(); (void)w0; on_w(EV, FD, Looper::kWrite, nullptr); inwrite = false; }
			else if (ev == 6) dosend();
			else if (ev == 7) { if (mayShut && sched::rnd() % 12 == 0) doshut(); else if (mayEof && sched::rnd() % 12 == 0) eof = true; }
			if (!gone() && !R && !wasFault) bad("a live connection no longer watches for reading");
			if (!gone() && shut && !W) bad("a closing connection that is still open has no write interest: it never closes");
			if (quiet && !gone() && !W && taken == incoming.size() && !eof) { if (++idle > 6) break; }
		}
		if (!fail.empty()) { ended = true; return; }
		bool g = gone(), fault = wasFault || eof;
		std::vector<std::pair<int, int>> got;
		parse(got, g && fault);
		for (int s = 0; s <= nt; s++) { int last = -1; for (auto& x : got) if (x.first == s) { if (x.second <= last) bad("messages of sender %ld are duplicated or reordered", s); last = x.second; } }
		auto need = !g && !shut ? all_done() : before;
		if (!fault || !g) for (auto& x : need) { bool f = false; for (auto& y : got) f |= x == y; if (!f) bad("message %ld of sender %ld was never written", x.second, x.first); }
		if (g) { if (closes != 1) bad("the close was reported %ld times", closes); if (sockClosed != 1) bad("the socket was closed %ld times", sockClosed); if (evDeleted != 1) bad("the registration was deleted %ld times", evDeleted); }
		else { if (closes) bad("a live connection reported a close"); if (sockClosed || evDeleted) bad("a live connection lost its socket or registration");
			hold.clear(); hold.resize(nt + 1); c->shutdown(); if (closes != 1 || sockClosed != 1) bad("shutdown of an idle connection does not close it"); }
		ended = true;
		for (auto& h : hold) h.reset();
		on_r = nullptr; on_w = nullptr;
	});
	for (int s = 0; s < nt; s++) fs.push_back([&, s] {
		while (!hold[s] && fail.empty() && !ended) sched::yield(true);
		{ std::shared_ptr<TcpConnection> c = hold[s];
		for (int k = 0; k < per && fail.empty(); k++) { std::string m = msg(s, k); bool sh = shut; c->send(m.data(), m.size()); if (!sh && !shut && !closes) done[s].push_back(k); if (sched::rnd() % 2) sched::yield(true); }
		hold[s].reset(); }
		active--; });
	if (!sched::run(fs, 400000) && fail.empty()) bad("the connection or a sender does not terminate");
}
int main(int, char** argv) {
	std::string mode = argv[1];
	if (mode == "case") return 0;
	uint64_t seed = strtoull(argv[2], 0, 10);
	double secs = atof(argv[3]);
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	std::string last = std::string(argv[0]) + ".last";
	for (uint64_t i = 0;; i++) {
		uint64_t s = seed * 1000003 + i;
		FILE* f = fopen(last.c_str(), "w"); if (f) { fprintf(f, "schedule seed %lu\n", (unsigned long)s); fclose(f); }
		one(s);
		if (!fail.empty()) { printf("MISMATCH %s\nschedule seed %lu\n", fail.c_str(), (unsigned long)s); fflush(stdout); _exit(1); }
		if ((i & 15) == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
	}
	return 0;
}
