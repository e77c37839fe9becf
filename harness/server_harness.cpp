// random histories of the real TcpServer, master thread and work threads over simulated threads, loops, sockets and connections (C16)
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include "network/cyn_tcp_server.h"
#include "network/internal/cyn_tcp_server_master_thread.h"
#include "network/internal/cyn_tcp_server_work_thread.h"
using namespace cyclone;
static std::string fail, hist;
static void bad(const char* f, long a = 0, long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }
static void op(const char* s, int n = -1) { hist += ' '; hist += s; if (n >= 0) hist += std::to_string(n); }
static uint64_t rs; static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }

// ---- the world
struct Reg { int fd; Looper::event_t ev; Looper::event_callback r; };
struct Thread { WorkThread* wt; bool alive, stopping, busy; int kind; std::deque<std::unique_ptr<Packet>> q; std::map<uint32_t, Reg> regs; alignas(16) char lp[sizeof(Looper)]; long id; };
static std::vector<std::unique_ptr<Thread>> threads; static Thread* cur;                       // cur == nullptr: the application's thread
struct Sock { int kind; bool nonblock, bound, listening; int backlog; };                        // kind 0 listener, 1 accepted
static std::map<int, Sock> socks; static int nextFd; static uint32_t nextEv; static bool faults;
struct C { std::weak_ptr<TcpConnection> p; TcpConnection* raw; int fd, thread, told, closed, msgs; bool open; };
static std::map<int, C> cs; static std::vector<int> acceptOrder; static std::map<int, int> whichThread; static std::set<int> ids;
static TcpServer* server; static bool stopped, stopSent, rejected; static int nworkers, startCounter; static bool hasConn, hasMsg, hasClose, hasCmd; static int depth; static int mcmd, wcmd; static bool reentry;
static Thread* threadOf(const WorkThread* w) { for (auto& t : threads) if (t->wt == w) return t.get(); return nullptr; }
static Thread* loopThread(const Looper* l) { for (auto& t : threads) if ((Looper*)t->lp == l) return t.get(); return nullptr; }
static bool step(Thread* t);
static bool userBusy, live; static void userPreempts();
static void preempt() { if (depth > 4 || !fail.empty()) return; depth++; Thread* me = cur; for (int i = rnd() % 3; i > 0 && !threads.empty(); i--) { Thread* t = threads[rnd() % threads.size()].get(); if (!t->busy) step(t); } if (live && !userBusy && rnd() % 4 == 0) userPreempts(); cur = me; depth--; }
static int workerIndex(Thread* t) { int n = 0; for (auto& x : threads) { if (x.get() == t) return n; if (x->kind == 1) n++; } return -1; }
namespace cyclone {
void disk_log(LOG_LEVEL, const char*, ...) {}
static void put_id(void* to, long v) { memcpy(to, &v, sizeof v); }
namespace sys_api { thread_id_t thread_get_current_id(void) { thread_id_t r; memset((void*)&r, 0, sizeof r); put_id(&r, cur ? cur->id : 1); return r; } }
Pipe::Pipe() {} Pipe::~Pipe() {}
ssize_t Pipe::read(char*, size_t) { return -1; } ssize_t Pipe::write(const char*, size_t) { return -1; }
WorkThread::WorkThread() : m_thread(nullptr), m_looper(nullptr), m_is_queue_empty(true), m_on_start(nullptr), m_on_message(nullptr) {}
WorkThread::~WorkThread() { Thread* t = threadOf(this); if (t) { if (t->alive) bad("a thread that still runs is destroyed"); t->wt = nullptr; } }
void WorkThread::start(const char*) {
	if (m_thread) bad("a thread is started twice"); threads.emplace_back(new Thread()); Thread* t = threads.back().get(); t->wt = this; t->alive = true; t->stopping = t->busy = false; t->id = 100 + threads.size(); t->kind = 1;
	memset(t->lp, 0, sizeof t->lp); m_looper = (Looper*)t->lp; put_id((void*)&m_looper->m_current_thread, t->id); m_thread = (thread_t)t;
	if (server && server->m_master_thread && this == &server->m_master_thread->m_master_thread) t->kind = 0;
	Thread* me = cur; cur = t; t->busy = true; if (m_on_start) { auto f = m_on_start; if (!f()) t->alive = false; } else bad("a thread has no start handler"); t->busy = false; cur = me;
}
void WorkThread::send_message(uint16_t id, uint16_t n1, const char* p1, uint16_t n2, const char* p2) { Thread* t = threadOf(this); if (!t || !m_thread) { bad("a message is sent to a thread that does not run"); return; } std::unique_ptr<Packet> p(new Packet()); p->build_from_memory(4, id, n1, p1, n2, p2); t->q.push_back(std::move(p)); preempt(); }
void WorkThread::send_message(const Packet* m) { send_message(m->get_packet_id(), m->get_packet_size(), m->get_packet_content()); }
void WorkThread::send_message(const Packet** m, int32_t n) { for (int i = 0; i < n; i++) send_message(m[i]); }
static void drain();
void WorkThread::join(void) {
	Thread* t = threadOf(this); if (!m_thread) return; if (cur) bad("a thread is joined in a thread of the server");
	drain(); if (t->alive) bad("join never returns: %s does not stop", 0); if (t->alive) fail += t->kind ? " (a work thread)" : " (the master)"; m_thread = nullptr; m_looper = nullptr;
}
const Looper::event_id_t Looper::INVALID_EVENT_ID = (event_id_t)(~((event_id_t)0));
Looper::event_id_t Looper::register_event(socket_t s, event_t ev, void*, event_callback r, event_callback) { Thread* t = loopThread(this); if (!t || t != cur) { bad("a loop is used by another thread"); return 0; } if (!socks.count(s)) bad("a closed socket is registered"); uint32_t id = nextEv++; t->regs[id] = Reg{ s, ev, r }; return id; }
void Looper::delete_event(event_id_t id) { Thread* t = loopThread(this); if (!t || t != cur) { bad("a loop is used by another thread"); return; } if (!t->regs.erase(id)) bad("a registration is deleted that does not exist"); }
void Looper::push_stop_request(void) { Thread* t = loopThread(this); if (!t || t != cur) { bad("a loop is used by another thread"); return; } t->stopping = true; if (!stopSent) bad("a thread is stopped though nobody asked for it"); }
namespace socket_api {
socket_t create_socket(bool) { if (faults && rnd() % 4 == 0) return INVALID_SOCKET; int f = nextFd++; socks[f] = Sock(); return f; }
void close_socket(socket_t s) { if (!socks.count(s)) { bad("a socket is closed that is not open"); return; } for (auto& t : threads) for (auto& r : t->regs) if (r.second.fd == s) bad("a socket is closed while it is registered"); socks.erase(s); }
bool set_nonblock(socket_t s, bool on) { if (faults && rnd() % 4 == 0) return false; socks[s].nonblock = on; return true; }
bool set_close_onexec(socket_t, bool) { return true; } bool set_keep_alive(socket_t, bool) { return true; } bool set_linger(socket_t, bool, uint16_t) { return true; } bool set_nodelay(socket_t, bool) { return true; } bool set_reuse_addr(socket_t, bool) { return true; } bool set_reuse_port(socket_t, bool) { return true; }
bool bind(socket_t s, const struct sockaddr_in& a) { if (faults && rnd() % 4 == 0) return false; socks[s].bound = true; (void)a; return true; }
bool listen(socket_t s) { if (!socks.count(s)) bad("listen on a closed socket"); else { if (!socks[s].bound || !socks[s].nonblock) bad("listen on a socket that is unbound or blocking"); socks[s].listening = true; } return true; }
socket_t accept(socket_t s, struct sockaddr_in*) { if (!socks.count(s) || !socks[s].listening) { bad("accept on a socket that does not listen"); return INVALID_SOCKET; } if (!socks[s].backlog || (faults && rnd() % 3 == 0)) { if (socks[s].backlog) socks[s].backlog--; return INVALID_SOCKET; } socks[s].backlog--; int f = nextFd++; socks[f] = Sock(); socks[f].kind = 1; acceptOrder.push_back(f); preempt(); return f; }
bool getsockname(socket_t s, struct sockaddr_in& a) { if (!socks.count(s)) return false; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons((uint16_t)s); return true; }
bool getpeername(socket_t, struct sockaddr_in&) { return false; }
bool inet_ntop(const struct in_addr& a, char* b, socklen_t n) { return ::inet_ntop(AF_INET, &a, b, n) != nullptr; }
bool inet_pton(const char* c, struct in_addr& a) { return ::inet_pton(AF_INET, c, &a) == 1; }
uint16_t ntoh_16(uint16_t x) { return ntohs(x); } int get_lasterror(void) { return 111; }
}
TcpConnection::TcpConnection(int32_t id, socket_t s, Looper* l, Owner* o) : m_id(id), m_socket(s), m_state(kConnected), m_looper(l), m_event_id(0), m_owner(o), m_param(nullptr), m_write_buf_lock(nullptr), m_on_message(nullptr), m_on_send_complete(nullptr), m_on_close(nullptr), m_read_statistics(nullptr), m_write_statistics(nullptr) {
	if (!socks.count(s) || socks[s].kind != 1) bad("a connection takes a socket that was not accepted"); if (!cur || cur->kind != 1 || loopThread(l) != cur) bad("a connection is made outside its work thread");
	if (!ids.insert(id).second) bad("two connections have the id %ld", id); C c; c.raw = this; c.fd = s; c.thread = workerIndex(cur); c.told = c.closed = c.msgs = 0; c.open = true; for (auto& x : cs) if (x.second.fd == s) bad("a socket is given to two connections"); cs[id] = c; whichThread[s] = c.thread; preempt();
}
TcpConnection::~TcpConnection() { if (m_state != kDisconnected) bad("a connection is destroyed while it is open"); if (cs.count(m_id)) cs[m_id].raw = nullptr; }
TcpConnection::State TcpConnection::get_state(void) const { return m_state; }
static void closeConn(TcpConnection* c) {
	auto keep = c->shared_from_this(); C& x = cs[c->m_id]; if (!x.open) { bad("a closed connection closes again"); return; } x.open = false; c->m_state = TcpConnection::kDisconnected; socks.erase(c->m_socket); c->m_socket = INVALID_SOCKET; int n = x.closed;
	if (c->m_on_close) { auto f = c->m_on_close; f(keep); } else bad("a connection does not report its close"); if (hasClose && cs[c->m_id].closed != n + 1) bad("a close is reported %ld times", cs[c->m_id].closed - n);
}
void TcpConnection::shutdown(void) { if (!cur || loopThread(m_looper) != cur) { bad("a connection is shut down outside its thread"); return; } if (m_state == kDisconnected) { bad("a disconnected connection is shut down"); return; } if (m_state != kConnected) return; m_state = kDisconnecting; if (rnd() % 2) closeConn(this); }
}
static bool step(Thread* t) {
	if (!t->alive || t->busy || !t->wt) return false;
	Thread* me = cur; cur = t; t->busy = true; bool did = false; int what = rnd() % 4;
	if (t->stopping && (t->q.empty() || rnd() % 2)) { t->alive = false; did = true; if (t->kind == 1) { for (auto& p : t->q) if (p->get_packet_id() == TcpServerWorkThread::kNewConnectionCmdID) bad("an accepted socket is never handed to a connection: its work thread stopped before"); for (auto& x : cs) if (x.second.thread == workerIndex(t) && x.second.open) bad("a work thread stops while a connection is open"); } else { for (auto& r : t->regs) { (void)r; bad("the master stops with a listener left"); } } }
	else if (t->q.size() && what < 3) { auto p = std::move(t->q.front()); t->q.pop_front(); op(t->kind ? "w" : "m", t->kind ? workerIndex(t) : 0); op(":", p->get_packet_id()); auto f = t->wt->m_on_message; if (f) f(p.get()); did = true; }
	else if (t->kind == 0) { for (auto& r : t->regs) if (socks[r.second.fd].backlog) { auto f = r.second.r; uint32_t id = r.first; int fd = r.second.fd; op("accept"); if (!(r.second.ev & Looper::kRead)) bad("a listener is not watched for reading"); f(id, fd, Looper::kRead, nullptr); did = true; break; } }
	else { int w = workerIndex(t); for (auto& x : cs) if (x.second.open && x.second.thread == w && x.second.raw && x.second.told + !hasConn) { TcpConnection* c = x.second.raw; if (!stopSent && rnd() % 3 && c->m_state == TcpConnection::kConnected) { if (c->m_on_message) { int n = x.second.msgs; auto k = c->shared_from_this(); auto f = c->m_on_message; f(k); if (hasMsg && cs[k->m_id].msgs != n + 1) bad("a message is reported %ld times", cs[k->m_id].msgs - n); } else bad("a connection does not report messages"); } else { op("peer-closes", x.first); closeConn(c); } did = true; break; } }
	t->busy = false; cur = me; return did;
}
namespace cyclone { static void drain() { for (int idle = 0, n = 0; idle < 200 && n < 20000 && fail.empty(); n++) { bool any = false; for (auto& t : threads) any |= step(t.get()); idle = any ? 0 : idle + 1; } } }
static void callback(int idx, TcpConnectionPtr c, const char* what) { if (!cur || cur->kind != 1 || workerIndex(cur) != idx) bad("a callback runs in another thread than it names"); if (!c || !cs.count(c->get_id()) || cs[c->get_id()].thread != idx) bad("a callback names a wrong connection"); op(what, c ? c->get_id() : 0); }
static void doStop() { bool inWorker = cur && cur->kind == 1; op(inWorker ? "stop-in-worker" : "stop"); if (!inWorker) stopped = stopSent = true; else if (!stopped) rejected = true; server->stop(); }
static void userAct() {
	switch (rnd() % 10) {
	case 0: { if (cs.empty()) break; auto i = cs.begin(); std::advance(i, rnd() % cs.size()); if (i->second.raw && i->second.open && i->second.told) { op("shutdown", i->first); auto k = i->second.raw->weak_from_this().lock(); if (k) server->shutdown_connection(k); } break; }
	case 1: if (server->m_master_thread->get_bind_socket_size()) { size_t i = rnd() % server->m_master_thread->get_bind_socket_size(); op("stop_listen", i); server->stop_listen(i); } break;
	case 2: if (!stopped && hasCmd) { op("mcmd"); int n = mcmd + (int)threads.size() * 0; (void)n; server->send_master_message(10 + rnd() % 3, 4, "abcd"); } break;
	case 3: if (!stopped) { op("wcmd"); Packet p; p.build_from_memory(4, 77, 4, "abcd"); server->send_work_message(rnd() % nworkers, &p); } break;
	case 4: { size_t n = server->m_master_thread->m_acceptor_sockets.size(), i = rnd() % (n + 1); socket_t f = i < n ? std::get<0>(server->m_master_thread->m_acceptor_sockets[i]) : INVALID_SOCKET; Address a = server->get_bind_address(i); Address d; if (f != INVALID_SOCKET && socks.count(f) ? ntohs(a.m_address.sin_port) != f : memcmp(&a.m_address, &d.m_address, sizeof a.m_address) != 0) bad("get_bind_address returns a wrong address"); break; }
	default: for (auto& s : socks) if (s.second.listening && rnd() % 2) { s.second.backlog++; op("client"); } break;
	}
}
static void userPreempts() { cur = nullptr; userBusy = true; op("[user"); if (!stopped && rnd() % 3 == 0) doStop(); else userAct(); op("]"); userBusy = false; }
static bool one(uint64_t seed) {
	rs = seed * 0x9E3779B97F4A7C15ull + 12345; for (int i = 0; i < 5; i++) rnd();
	fail.clear(); hist.clear(); threads.clear(); socks.clear(); cs.clear(); ids.clear(); acceptOrder.clear(); whichThread.clear(); nextFd = 50; nextEv = 0; cur = nullptr; depth = 0; live = false; userBusy = false; mcmd = wcmd = 0; stopSent = false;
	faults = rnd() % 3 == 0; hasConn = rnd() % 6 != 0; hasMsg = rnd() % 2; hasClose = rnd() % 4 != 0; hasCmd = rnd() % 2; bool inCb = rnd() % 4 == 0; int inMaster = rnd() % 4 == 0;
	server = new TcpServer(); auto& L = server->m_listener;
	if (hasConn) L.on_connected = [&](TcpServer*, int32_t i, TcpConnectionPtr c) { callback(i, c, "connected"); if (cs[c->get_id()].told++) bad("a connection is reported twice"); if (inCb && rnd() % 3 == 0) doStop(); if (rnd() % 4 == 0) server->shutdown_connection(c); if (rnd() % 6 == 0 && c->get_state() == TcpConnection::kConnected) c->shutdown(); };
	if (hasMsg) L.on_message = [&](TcpServer*, int32_t i, TcpConnectionPtr c) { callback(i, c, "message"); cs[c->get_id()].msgs++; if (rnd() % 3 == 0) server->shutdown_connection(c); if (inCb && rnd() % 6 == 0) doStop(); };
	if (hasClose) L.on_close = [&](TcpServer*, int32_t i, TcpConnectionPtr c) { callback(i, c, "closed"); if (cs[c->get_id()].closed++) bad("a close is reported twice"); if (hasConn && !cs[c->get_id()].told) bad("a connection is reported closed before it was reported"); };
	if (hasCmd) L.on_master_thread_command = [&](TcpServer*, Packet* p) { mcmd++; if (!cur || cur->kind) bad("a master command runs elsewhere"); if (p->get_packet_size() != 4 || memcmp(p->get_packet_content(), "abcd", 4)) bad("a master command is damaged"); if (inMaster && !stopped && rnd() % 2) doStop(); };
	int rounds = 1 + rnd() % 2;
	for (int r = 0; r < rounds && fail.empty(); r++) {
		stopped = stopSent = rejected = false; cs.clear(); acceptOrder.clear(); whichThread.clear(); threads.clear(); Thread* none = nullptr; cur = none; op("|");
		int want = rnd() % 4, have = 0; for (int i = 0; i < want; i++) { size_t n0 = socks.size(); bool ok = server->bind(Address((uint16_t)(8000 + i), false), rnd() % 2); have += ok; if (socks.size() != n0 + ok) bad("bind leaves %ld sockets, expected %ld", socks.size() - n0, ok); }
		if (server->m_master_thread->get_bind_socket_size() != (size_t)have) bad("the server has %ld listeners, bind succeeded %ld times", server->m_master_thread->get_bind_socket_size(), have);
		if (server->start(0) || server->start(33)) bad("start accepts a wrong number of threads");
		server->m_next_workthread_id = startCounter = rnd() % 3 ? (int)(rnd() % 1000) : 2147483647 - (int)(rnd() % 4); nworkers = 1 + rnd() % 3;
		// the master is told from the workers by its address
		bool st = server->start(nworkers); if (!st) bad("start fails (round %ld)", r); if (server->start(1)) bad("a running server is started again"); if (server->bind(Address((uint16_t)1, false))) bad("a running server binds");
		if (fail.empty() && (int)threads.size() != nworkers + 1) bad("%ld threads run, wanted %ld", threads.size(), nworkers + 1);
		int listen = 0; for (auto& s : socks) listen += s.second.listening; if (listen != have) bad("%ld of %ld ports listen", listen, have);
		live = true;
		for (int k = rnd() % 60; k > 0 && fail.empty(); k--) { if (rnd() % 3 == 0) { userBusy = true; userAct(); userBusy = false; } else { Thread* t = threads[rnd() % threads.size()].get(); step(t); } }
		live = false;
		if (fail.empty() && !stopped) doStop();
		for (int k = rnd() % 6; k > 0 && fail.empty(); k--) { if (rnd() % 2) doStop(); userAct(); step(threads[rnd() % threads.size()].get()); }
		if (fail.empty()) server->join();
		if (fail.empty()) {
			for (auto& s : socks) bad(s.second.kind ? "after join the accepted socket %ld is still open" : "after join the listening socket %ld is still open", s.first);
			for (auto& x : cs) { if (x.second.raw) bad("after join connection %ld still exists", x.first); if (hasConn && !x.second.told) bad("connection %ld was never reported", x.first); if (hasClose && x.second.closed != 1) bad("the close of connection %ld was reported %ld times", x.first, x.second.closed); }
			if (cs.size() != acceptOrder.size()) bad("%ld sockets were accepted, %ld connections were made", acceptOrder.size(), cs.size());
			for (size_t i = 0; i < acceptOrder.size(); i++) { uint32_t n = (uint32_t)startCounter + (uint32_t)i; if (startCounter <= 2147483647 - 1000 && whichThread[acceptOrder[i]] != (int)(n % (uint32_t)nworkers)) bad("socket %ld goes to work thread %ld out of turn", i, whichThread[acceptOrder[i]]); }
		}
	}
	if (fail.empty()) { TcpServer* s = server; delete s; }
	if (!fail.empty()) { printf("MISMATCH %s\nhistory:%s\n", fail.c_str(), hist.c_str()); return false; }
	return true;
}
int main(int c, char** v) {
	if (c < 4) return 2;
	uint64_t seed = atoll(v[2]); double secs = atof(v[3]); time_t t0 = time(0);
	std::string last = std::string(v[0]) + ".last";
	for (uint64_t i = 0; time(0) - t0 < secs; i++) {
		if (FILE* f = i % 64 == 0 ? fopen(last.c_str(), "w") : nullptr) { fprintf(f, "histories from seed %llu\n", (unsigned long long)(seed * 1000003 + i)); fclose(f); }
		if (!one(seed * 1000003 + i)) { fflush(stdout); _exit(1); }
	}
	printf("ok\n");
}
