// random histories of the real TcpClient over a simulated event loop, kernel and connection (C17)
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
using namespace cyclone;
static std::string fail, hist;
static void bad(const char* f, long a = 0, long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }
static uint64_t rs; static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }

// ---- the world
struct Reg { bool timer; int fd; uint32_t ms; Looper::event_callback r, w; Looper::timer_callback t; };
static std::map<uint32_t, Reg> regs; static uint32_t nextId;
struct Sock { int owner; bool nonblock, cloexec, asked; };              // owner 0 client, 1 connection
static std::map<int, Sock> socks; static int nextFd; static int scriptErr; static std::string badFd;
static bool otherThread, inOther, cansend; static int failCreate, failConnect;
static std::shared_ptr<TcpClient> owner; static std::weak_ptr<TcpClient> cl;
static std::string wire, expectWire, waiting; static int sentOthers; static bool flushed;
static std::weak_ptr<TcpConnection> theConn; static bool connBroke; static int conns;
static int depth; static int notes, noteOk; static uint32_t answer; static int closesSeen, msgsSeen; static bool l_conn, l_msg, l_close; static bool answered; static bool startedInCb;
static int lockHeld;
static void otherActs() {
	if (inOther || otherThread || lockHeld || depth > 6) return;
	auto c = cl.lock(); if (!c) return;
	inOther = true; otherThread = true;
	if (cansend && c->get_connection_state() == TcpConnection::kConnected && rnd() % 2) { std::string s(1 + rnd() % 3, 'o'); sentOthers++; c->send(s.data(), s.size()); }
	otherThread = false; inOther = false;
}
namespace cyclone {
void disk_log(LOG_LEVEL, const char*, ...) {}
namespace sys_api {
thread_id_t thread_get_current_id(void) { thread_id_t r; unsigned long v = otherThread ? 2 : 1; memcpy(&r, &v, sizeof r); return r; }
mutex_t mutex_create(void) { return new int(0); }
void mutex_destroy(mutex_t m) { if (*(int*)m) bad("a held mutex is destroyed"); delete (int*)m; }
void mutex_lock(mutex_t m) { if ((*(int*)m)++) { bad("the client's lock is taken twice by one thread"); } lockHeld++; }
void mutex_unlock(mutex_t m) { (*(int*)m)--; lockHeld--; if (!inOther) otherActs(); }
}
namespace socket_api {
static Sock* own(int s, const char* what) { static char t[99]; auto i = socks.find(s); if (i == socks.end() || i->second.owner != 0) { snprintf(t, sizeof t, "%s of a socket the client does not own", what); bad(t); return nullptr; } return &i->second; }
socket_t create_socket(bool) { if (!socks.empty()) bad("a new attempt starts while a socket of the old one is open"); if (failCreate && rnd() % 4 == 0) return INVALID_SOCKET; int f = nextFd++; socks[f] = Sock(); return f; }
void close_socket(socket_t s) { if (!own(s, "close")) return; for (auto& r : regs) if (!r.second.timer && r.second.fd == s) bad("a socket is closed while it is registered"); socks.erase(s); }
bool set_nonblock(socket_t s, bool on) { if (auto* p = own(s, "set_nonblock")) p->nonblock = on; return true; }
bool set_close_onexec(socket_t s, bool on) { if (auto* p = own(s, "set_close_onexec")) p->cloexec = on; return true; }
bool set_keep_alive(socket_t s, bool) { own(s, "set_keep_alive"); return true; }
bool set_linger(socket_t s, bool, uint16_t) { own(s, "set_linger"); return true; }
bool set_nodelay(socket_t s, bool) { own(s, "set_nodelay"); return true; }
bool set_reuse_addr(socket_t, bool) { return true; }
static uint32_t target;
bool connect(socket_t s, const struct sockaddr_in& a) { auto* p = own(s, "connect"); if (p) { if (!p->nonblock) bad("connect on a blocking socket"); if (p->asked) bad("two connects on one socket"); p->asked = true; } if (a.sin_port != htons(target)) bad("the attempt goes to a wrong address"); return !(failConnect && rnd() % 4 == 0); }
int get_socket_error(socket_t s) { own(s, "get_socket_error"); return scriptErr; }
bool inet_ntop(const struct in_addr& a, char* b, socklen_t n) { return ::inet_ntop(AF_INET, &a, b, n) != nullptr; }
bool inet_pton(const char* c, struct in_addr& a) { return ::inet_pton(AF_INET, c, &a) == 1; }
bool getsockname(socket_t, struct sockaddr_in&) { return false; }
bool getpeername(socket_t, struct sockaddr_in&) { return false; }
uint16_t ntoh_16(uint16_t x) { return ntohs(x); }
int get_lasterror(void) { return 111; }
bool is_lasterror_WOULDBLOCK(void) { return false; }
}
using socket_api::target;
const Looper::event_id_t Looper::INVALID_EVENT_ID = (event_id_t)(~((event_id_t)0));
Looper::event_id_t Looper::register_event(socket_t s, event_t ev, void*, event_callback r, event_callback w) {
	socket_api::own(s, "registration"); for (auto& x : regs) if (!x.second.timer && x.second.fd == s) bad("a socket is registered twice");
	if ((ev & 3) != 3) bad("a connecting socket is not watched for reading and writing"); uint32_t id = nextId++; Reg g; g.timer = false; g.fd = s; g.r = r; g.w = w; regs[id] = g; return id;
}
Looper::event_id_t Looper::register_timer_event(uint32_t ms, void*, timer_callback t) { uint32_t id = nextId++; Reg g; g.timer = true; g.fd = -1; g.ms = ms; g.t = t; regs[id] = g; return id; }
void Looper::delete_event(event_id_t id) { if (!regs.erase(id)) bad("a registration is deleted that does not exist"); }
TcpConnection::TcpConnection(int32_t id, socket_t s, Looper* l, Owner* o) : m_id(id), m_socket(s), m_state(kConnected), m_looper(l), m_event_id(0), m_owner(o), m_param(nullptr), m_write_buf_lock(nullptr), m_on_message(nullptr), m_on_send_complete(nullptr), m_on_close(nullptr), m_read_statistics(nullptr), m_write_statistics(nullptr) {
	for (auto& x : regs) if (!x.second.timer && x.second.fd == s) bad("the connection takes a socket that is still registered");
	if (auto* p = socket_api::own(s, "a connection")) p->owner = 1; conns++; wire.clear(); otherActs();
}
TcpConnection::~TcpConnection() { if (m_state != kDisconnected) { bad("a connection is destroyed while it is open"); } }
TcpConnection::State TcpConnection::get_state(void) const { return m_state; }
static void closeConn(TcpConnection* c) {
	auto keep = c->shared_from_this(); c->m_state = TcpConnection::kDisconnected; socks.erase(c->m_socket); c->m_socket = INVALID_SOCKET;
	if (c->m_on_close) { auto f = c->m_on_close; f(keep); }
}
void TcpConnection::send(const char* b, size_t n) {
	if (!b || !n) return;
	if (m_state != kConnected) return;
	if (!inOther) otherActs();
	if (!otherThread && connBroke && rnd() % 3 == 0) { closeConn(this); return; }
	wire.append(b, n); if (!otherThread) expectWire.append(b, n);
}
void TcpConnection::shutdown(void) { if (m_state == kDisconnected) { bad("a disconnected connection is shut down"); return; } if (rnd() % 2) m_state = kDisconnecting; else closeConn(this); }
}

static int timers() { int n = 0; for (auto& r : regs) n += r.second.timer; return n; }
static int kind() { auto c = cl.lock(); if (!c) return -1; if (c->m_connection) return 3; if (socks.size()) return 2; return timers() ? 1 : 0; }
static void clean(const char* where) {
	auto c = cl.lock(); if (!c) { return; } int k = kind(), sockEv = 0; (void)where;
	for (auto& r : regs) sockEv += !r.second.timer;
	if (k == 3 && (regs.size() || c->m_sendCache.size())) bad("an established client has a registration, timer or waiting data left");
	if (k == 2 && (sockEv != 1 || timers() || c->m_socket != socks.begin()->first)) bad("a connecting client does not have exactly its socket and its registration");
	if (k <= 1 && (sockEv || c->m_socket != INVALID_SOCKET || timers() > 1)) bad("an idle client has a socket or registration left");
	if (k <= 2 && c->m_sendCache.size() != waiting.size()) bad("%ld bytes wait to be sent, %ld were given", c->m_sendCache.size(), waiting.size());
}
static void act(int k);
static void release() { auto c = cl.lock(); if (!c || !owner) return; if (c->m_connection && c->m_connection->get_state() != TcpConnection::kDisconnected) return; hist += " release"; c.reset(); owner.reset(); }
static uint32_t onConnected(TcpClientPtr c, TcpConnectionPtr conn, bool ok) {
	hist += ok ? " [ok" : " [failed"; notes++; noteOk += ok; startedInCb = false;
	if (c.get() != cl.lock().get()) bad("the callback gets a wrong client");
	if (lockHeld) bad("the callback runs with the client's lock held");
	if (ok) { if (!conn || conn != c->m_connection) bad("success is reported without the established connection"); theConn = conn;
		std::string w = wire; size_t o = 0; if (conn && conn->get_state() == TcpConnection::kConnected) { if (w.compare(0, waiting.size(), waiting) != 0) bad("data sent while connecting is not transmitted first and in order"); } waiting.clear(); (void)o; }
	else { if (conn) bad("failure is reported with a connection"); if (!socks.empty() || !regs.empty()) bad("failure is reported before the attempt was cleaned up (%ld sockets, %ld registrations left)", socks.size(), regs.size()); }
	c.reset(); conn.reset();
	depth++; for (int i = rnd() % 3; i > 0; i--) act(rnd() % 4); if (rnd() % 8 == 0) release(); depth--;
	startedInCb = kind() == 2 || kind() == -1; answered = true; answer = rnd() % 2 ? 1 + rnd() % 1000 : 0; hist += "]"; return answer;
}
static void op(const char* s) { hist += s; }
static void act(int k) {
	auto c = cl.lock(); if (!c || !fail.empty()) return;
	int kd = kind();
	switch (k) {
	case 0: if (kd > 1) return; { op(" connect"); target = 1 + rnd() % 60000; Address a("127.0.0.1", (uint16_t)target); int n0 = notes; bool r = c->connect(a); if (notes != n0) bad("connect itself notifies"); if (r != (kind() == 2)) bad("connect reports %ld but the attempt is under way: %ld", r, kind() == 2); if (!r && (regs.size() || socks.size())) bad("a failed connect leaves a socket, registration or timer behind"); } break;
	case 1: { std::string s(rnd() % 8 ? 1 + rnd() % 5 : 20 + rnd() % 2000, 'a' + rnd() % 26); op(" send"); if (kd == 2) waiting += s; size_t w = wire.size(); bool alive = kd == 3 && c->m_connection->get_state() == TcpConnection::kConnected; c->send(s.data(), s.size()); if (alive && kind() == 3 && c->m_connection && c->m_connection->get_state() == TcpConnection::kConnected && wire.size() < w + s.size()) bad("data given to an established client is not sent"); } break;
	case 2: op(" disconnect"); if (rnd() % 3) return; { int n0 = notes; if (kd < 3) waiting.clear(); c->disconnect(); if (notes != n0) bad("disconnect notifies a connection attempt"); if (kd < 3 && (!socks.empty() || !regs.empty())) bad("disconnect leaves a socket, registration or timer behind"); } break;
	default: break;
	}
}
static bool one(uint64_t seed) {
	rs = seed * 0x9E3779B97F4A7C15ull + 12345; for (int i = 0; i < 5; i++) rnd();
	regs.clear(); socks.clear(); wire.clear(); expectWire.clear(); waiting.clear(); hist.clear(); fail.clear(); nextId = rnd() % 3; nextFd = 50; conns = notes = noteOk = sentOthers = 0; depth = 0; lockHeld = 0; closesSeen = msgsSeen = 0;
	failCreate = rnd() % 3 == 0; failConnect = rnd() % 2; connBroke = rnd() % 3 == 0; cansend = rnd() % 2; l_conn = rnd() % 8 != 0; l_msg = rnd() % 4 != 0; l_close = rnd() % 4 != 0;
	alignas(16) static char lp[sizeof(Looper)]; memset(lp, 0, sizeof lp); unsigned long one = 1; memcpy((char*)&((Looper*)lp)->m_current_thread, &one, sizeof one);
	owner = std::make_shared<TcpClient>((Looper*)lp, nullptr, 7); cl = owner;
	if (l_conn) owner->m_listener.on_connected = onConnected;
	if (l_msg) owner->m_listener.on_message = [](TcpClientPtr c, TcpConnectionPtr n) { msgsSeen++; if (c.get() != cl.lock().get() || n != c->m_connection) bad("on_message gets a wrong client or connection"); };
	if (l_close) owner->m_listener.on_close = [](TcpClientPtr c, TcpConnectionPtr n) { closesSeen++; if (c.get() != cl.lock().get()) bad("on_close gets a wrong client"); hist += " [close"; if (c->m_connection != n) bad("a connection that was never reported is reported as closed"); c.reset(); n.reset(); if (rnd() % 3 == 0) release(); hist += "]"; };
	owner->m_sendCache.resize(8);
	for (int step = 0; step < 24 && fail.empty(); step++) {
		auto c = cl.lock(); if (!c) break; TcpClient* raw = c.get(); (void)raw; int kd = kind(); c.reset();
		notes = noteOk = 0; answered = false; startedInCb = false; int ev = rnd() % 8;
		if (ev < 3) act(ev);
		else if (ev < 6) {
			if (kd == 2) { uint32_t id = regs.begin()->first; auto f = rnd() % 2 ? regs[id].r : regs[id].w; int fd = regs[id].fd; scriptErr = rnd() % 2 ? 111 : 0; hist += scriptErr ? " event(err)" : " event(ok)"; int n0 = conns, bk = connBroke && !waiting.empty(); f(id, fd, 3, nullptr);
				if (fail.empty()) {
					if (scriptErr && conns != n0) bad("a failed attempt makes a connection"); if (!scriptErr && conns != n0 + 1) bad("an attempt that succeeded makes no connection");
					if (l_conn && notes != 1) bad("the end of an attempt is notified %ld times", notes);
					if (l_conn && !bk && noteOk != !scriptErr) bad("the attempt's result is reported wrongly");
					if (cl.lock() && timers() != (answered && answer && !noteOk && !startedInCb)) bad("after the attempt %ld retry timers are pending, wanted %ld", timers(), answered && answer && !noteOk && !startedInCb);
					if (!l_conn && !scriptErr) { if (kind() == 3 && wire.compare(0, waiting.size(), waiting) && owner->m_connection->get_state() == TcpConnection::kConnected) bad("data sent while connecting is not transmitted first and in order"); if (kind() == 3) waiting.clear(); }
				} }
			else if (kd == 1) { uint32_t id = regs.begin()->first; auto f = regs[id].t; if (answer && regs[id].ms != answer && 0) bad("wrong interval"); hist += " timer"; f(id, nullptr);
				if (fail.empty()) { if (l_conn && notes && noteOk) bad("a retry that was just started is reported as a success"); if (cl.lock() && !startedInCb && notes == 0 && kind() != 2) { if (l_conn) bad("a retry neither started nor was reported as failed"); } if (notes > 1) bad("a failed retry is reported twice"); if (notes == 1 && cl.lock() && timers() != (answer && !startedInCb)) bad("after the failed retry %ld timers are pending", timers()); } }
			else if (kd == 3) { auto cn = owner ? owner->m_connection : TcpConnectionPtr(); if (cn && cn->get_state() != TcpConnection::kDisconnected) { if (cn->m_on_message) { int m = msgsSeen; auto f = cn->m_on_message; f(cn); if (msgsSeen != m + 1) bad("a message is reported %ld times", msgsSeen - m); } else if (l_msg) bad("the connection does not report messages"); } }
		} else if (ev == 6) { if (kd == 3) { auto cn = owner ? owner->m_connection : TcpConnectionPtr(); if (cn && cn->get_state() != TcpConnection::kDisconnected) { int m = closesSeen; hist += " peer-closes"; closeConn(cn.get()); if (closesSeen != m + l_close) bad("a close is reported %ld times", closesSeen - m); } } else if (kd == 2 && rnd() % 4 == 0) release(); }
		else if (rnd() % 6 == 0) release();
		clean("step");
	}
	if (fail.empty() && cl.lock() && owner && owner->m_connection && owner->m_connection->get_state() != TcpConnection::kDisconnected) closeConn(owner->m_connection.get());
	if (fail.empty()) { owner.reset(); if (cl.lock()) bad("the client is never released"); else if (!regs.empty() || !socks.empty()) bad("a released client leaves %ld registrations and %ld sockets behind", regs.size(), socks.size()); }
	if (!fail.empty()) { printf("MISMATCH %s\nhistory:%s\n", fail.c_str(), hist.c_str()); return false; }
	return true;
}
int main(int c, char** v) {
	if (c < 4) return 2;
	uint64_t seed = atoll(v[2]); double secs = atof(v[3]); time_t t0 = time(0);
	std::string last = std::string(v[0]) + ".last";
	for (uint64_t i = 0; time(0) - t0 < secs; i++) {
		if (FILE* f = i % 64 == 0 ? fopen(last.c_str(), "w") : nullptr) { fprintf(f, "histories from seed %llu\n", (unsigned long long)(seed * 1000003 + i)); fclose(f); }
		if (!one(seed * 1000003 + i)) { fflush(stdout); _exit(1); }
	}
	printf("ok\n");
}
