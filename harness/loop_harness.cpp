// random histories of registrations on the real Looper_epoll over a simulated epoll: what is delivered, what the kernel watches (C14)
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <time.h>
#include <unistd.h>
#include <sys/epoll.h>
#include <sys/timerfd.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cy_core.h>
#include <cy_event.h>
using namespace cyclone;
static std::string fail;
static void bad(const char* f, long a = 0, long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }
static uint64_t rs; static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
namespace cyclone { void disk_log(LOG_LEVEL, const char*, ...) {} }

struct Reg { int fd, ev; bool hr, hw, timer, live; uint32_t id; void* prm; uint32_t round; bool touched; int gotR, gotW; int ms; };
static std::vector<Reg> G;
static std::map<int, std::pair<uint32_t, uint32_t> > kern;
static std::set<int> openfd; static int nextfd; static bool addFails, timerFails; static int addFailed;
static Looper* L; static uint32_t roundNo; static int depth, quitAfter, waits; static bool inLoop;
struct Rep { int fd; uint32_t ev; int g; };
static std::vector<Rep> reported;

static int gen(int fd) { for (int i = (int)G.size() - 1; i >= 0; i--) if (G[i].live && G[i].fd == fd) return i; return -1; }
static uint32_t want(const Reg& r) { return ((r.ev & 1) && r.hr ? EPOLLIN | EPOLLRDHUP : 0) | ((r.ev & 2) && r.hw ? EPOLLOUT : 0); }
static void checkAll(const char* where) {
	std::set<uint32_t> ids;
	for (auto& r : G) {
		if (!r.live) { continue; }
		if (!ids.insert(r.id).second) bad("two live registrations have the same id %ld", r.id);
		uint32_t m = kern.count(r.fd) ? kern[r.fd].first : 0;
		if (m != want(r)) bad("the kernel's interest set of a registration is %lx, enabled are %lx", m, want(r));
		if (m && kern[r.fd].second != r.id) bad("the kernel reports id %ld for registration %ld", kern[r.fd].second, r.id);
		if (r.hr && L->is_read(r.id) != ((r.ev & 1) != 0)) bad("is_read of %ld is wrong", r.id);
		if (r.hw && L->is_write(r.id) != ((r.ev & 2) != 0)) bad("is_write of %ld is wrong", r.id);
	}
	for (auto& k : kern) if (gen(k.first) < 0 && k.first < 1000000 && k.first >= 5000) bad("the kernel still watches a descriptor (%ld) without registration", k.first);
}
extern "C" int epoll_create1(int) { return 4000; }
extern "C" int epoll_ctl(int, int op, int fd, struct epoll_event* e) {
	bool has = kern.count(fd);
	if (fd >= 5000 && !openfd.count(fd)) { bad("epoll_ctl of a closed descriptor"); errno = EBADF; return -1; }
	if (op == EPOLL_CTL_ADD) { if (has) { bad("a descriptor is added to epoll twice"); errno = EEXIST; return -1; } if (addFails && fd >= 5000 && rnd() % 4 == 0) { addFailed++; errno = ENOSPC; return -1; } kern[fd] = { (uint32_t)e->events, (uint32_t)e->data.u32 }; return 0; }
	if (!has) { bad("epoll_ctl %ld of a descriptor that is not watched", op); errno = ENOENT; return -1; }
	if (op == EPOLL_CTL_MOD) kern[fd] = { (uint32_t)e->events, (uint32_t)e->data.u32 }; else kern.erase(fd);
	return 0;
}
static void endRound() {
	for (auto& p : reported) {
		Reg& r = G[p.g];
		if (!r.live || r.touched || L->is_quit_pending()) continue;
		bool er = (p.ev & EPOLLIN) || !(p.ev & EPOLLOUT), ew = (p.ev & EPOLLOUT) || !(p.ev & EPOLLIN);
		if (er && (r.ev & 1) && r.hr && r.gotR != 1) bad("a read event of registration %ld was delivered %ld times", r.id, r.gotR);
		if (ew && (r.ev & 2) && r.hw && !r.timer && r.gotW != 1) bad("a write event of registration %ld was delivered %ld times", r.id, r.gotW);
	}
	reported.clear();
}
static void act();
extern "C" int epoll_wait(int, struct epoll_event* ev, int max, int timeout) {
	endRound();
	if (inLoop != (timeout != 0)) bad("the loop waits with timeout %ld", timeout);
	waits++; roundNo++;
	for (auto& r : G) { r.touched = false; r.gotR = r.gotW = 0; }
	if (inLoop && waits >= quitAfter) L->push_stop_request();
	if (rnd() % 12 == 0) { errno = EINTR; return -1; }
	int n = 0;
	for (auto& k : kern) if (k.first >= 5000 && n < max && rnd() % 3) {
		uint32_t m = 0, s = k.second.first;
		if (rnd() % 6 == 0) m = rnd() % 2 ? EPOLLHUP : EPOLLERR | EPOLLHUP;
		if ((s & EPOLLIN) && rnd() % 2) m |= EPOLLIN;
		if ((s & EPOLLOUT) && rnd() % 2) m |= EPOLLOUT;
		if (!m) continue;
		int g = gen(k.first); if (g < 0) continue;
		ev[n].events = m; ev[n].data.u64 = k.second.second; n++;
		reported.push_back(Rep{ k.first, m, g });
	}
	return n;
}
extern "C" int timerfd_create(int, int) { if (timerFails) { errno = EMFILE; return -1; } int f = nextfd++; openfd.insert(f); return f; }
static long setMs; static int setFd;
extern "C" int timerfd_settime(int fd, int fl, const struct itimerspec* v, struct itimerspec*) { if (v->it_value.tv_sec != v->it_interval.tv_sec || v->it_value.tv_nsec != v->it_interval.tv_nsec || fl) bad("a timer does not repeat at its interval"); setMs = v->it_value.tv_sec * 1000 + v->it_value.tv_nsec / 1000000; setFd = fd; return 0; }
static bool reading; static std::set<int> closedNow;
extern "C" ssize_t __real_read(int, void*, size_t); extern "C" int __real_close(int);
extern "C" ssize_t __wrap_read(int fd, void* b, size_t n) { if (fd >= 5000) { if (!openfd.count(fd)) bad("a closed timer is read"); memset(b, 1, n); return n; } return __real_read(fd, b, n); }
extern "C" int __wrap_close(int fd) { if (fd >= 5000) { if (!openfd.erase(fd)) bad("a descriptor is closed twice"); kern.erase(fd); return 0; } if (fd == 4000) return 0; kern.erase(fd); return __real_close(fd); }

static void deliver(int g, bool cap, uint32_t id, int fd, uint32_t event, void* prm, bool tm) {
	Reg& r = G[g];
	if (!r.live) bad("an event was delivered to a deleted registration (id %ld)", id);
	if (id != r.id) bad("a callback got id %ld instead of %ld", id, r.id);
	if (prm != r.prm) bad("a callback of id %ld got a wrong parameter", id);
	if (!tm && fd != r.fd) bad("a callback of id %ld got descriptor %ld", id, fd);
	if (!(r.ev & event)) bad("an event was delivered for a disabled interest (id %ld)", id);
	bool rep = false; for (auto& p : reported) if (p.g == g) rep = true;
	if (!rep) bad("an event was delivered that was not reported for registration %ld", id);
	if (event & 1) r.gotR++; else r.gotW++;
	if (r.gotR > 1 || r.gotW > 1) bad("an event of registration %ld was delivered twice in a round", id);
	depth++;
	int k = rnd() % 4; for (int i = 0; i < k && depth < 3; i++) act();
	if (rnd() % 40 == 0) L->push_stop_request();
	depth--;
}
struct Big { char pad[64]; uint64_t magic; Big() : magic(0xC0FFEE1234567ull) { memset(pad, 7, sizeof pad); } Big(const Big& o) : magic(o.magic) { memcpy(pad, o.pad, sizeof pad); } ~Big() { magic = 0; } };
static int opn; static int maxLive;
static void reg(bool timer) {
	int g = (int)G.size(); Reg r; memset(&r, 0, sizeof r);
	r.prm = (void*)(uintptr_t)(0x10000 + g * 16); r.live = true; r.touched = true; r.round = roundNo; r.timer = timer;
	int af = addFailed;
	if (timer) {
		r.ev = 1; r.hr = true; r.hw = false; r.ms = rnd() % 5000 + 1; r.fd = nextfd; timerFails = addFails && rnd() % 6 == 0;
		bool tf = timerFails; Looper::timer_callback cb;
		if (rnd() % 2) { Big b; cb = [g, b](uint32_t id, void* p) { deliver(g, true, id, 0, 1, p, true); if (b.magic != 0xC0FFEE1234567ull) bad("a callback was destroyed while it ran (id %ld)", id); }; }
		else { static uint64_t mg = 0xC0FFEE1234567ull; uint64_t* m = &mg; cb = [g, m](uint32_t id, void* p) { deliver(g, false, id, 0, 1, p, true); if (m != &mg) bad("a callback was destroyed while it ran (id %ld)", id); }; }
		setMs = -1;
		r.id = L->register_timer_event(r.ms, r.prm, cb);
		timerFails = false;
		if (tf) { if (r.id != Looper::INVALID_EVENT_ID) bad("a timer without a descriptor got id %ld", r.id); return; }
		if (setMs != r.ms || setFd != r.fd) bad("a timer of %ld ms was set to %ld ms", r.ms, setMs);
	} else {
		r.fd = nextfd++; openfd.insert(r.fd); r.ev = rnd() % 4; r.hr = rnd() % 8 != 0; r.hw = rnd() % 8 != 0;
		Looper::event_callback cr, cw; Big b; static uint64_t mg; uint64_t* m = &mg;
		bool big = rnd() % 2;
		if (r.hr) { if (big) cr = [g, b](uint32_t id, socket_t fd, uint32_t e, void* p) { if (e != 1) bad("a read callback got event %ld", e); deliver(g, true, id, fd, 1, p, false); if (b.magic != 0xC0FFEE1234567ull) bad("a callback was destroyed while it ran (id %ld)", id); };
			else cr = [g, m](uint32_t id, socket_t fd, uint32_t e, void* p) { if (e != 1) bad("a read callback got event %ld", e); deliver(g, false, id, fd, 1, p, false); if (m != &mg) bad("a callback was destroyed while it ran (id %ld)", id); }; }
		if (r.hw) { if (big) cw = [g, b](uint32_t id, socket_t fd, uint32_t e, void* p) { if (e != 2) bad("a write callback got event %ld", e); deliver(g, true, id, fd, 2, p, false); if (b.magic != 0xC0FFEE1234567ull) bad("a callback was destroyed while it ran (id %ld)", id); };
			else cw = [g, m](uint32_t id, socket_t fd, uint32_t e, void* p) { if (e != 2) bad("a write callback got event %ld", e); deliver(g, false, id, fd, 2, p, false); if (m != &mg) bad("a callback was destroyed while it ran (id %ld)", id); }; }
		r.id = L->register_event(r.fd, r.ev, r.prm, cr, cw);
	}
	if (r.id == Looper::INVALID_EVENT_ID) { bad("a registration got the invalid id"); return; }
	if (addFailed != af) r.ev = (L->is_read(r.id) ? 1 : 0) | (L->is_write(r.id) ? 2 : 0);
	G.push_back(r);
}
static int pick() { std::vector<int> v; for (size_t i = 0; i < G.size(); i++) if (G[i].live) v.push_back((int)i); return v.empty() ? -1 : v[rnd() % v.size()]; }
static void act() {
	if (!fail.empty() || opn <= 0) return;
	opn--;
	int live = 0; for (auto& r : G) live += r.live;
	int k = rnd() % 16;
	if (k < 5 && live < maxLive) reg(k == 0);
	else {
		int g = pick(); if (g < 0) return;
		Reg& r = G[g]; int af = addFailed; r.touched = true;
		if (k < 9) { r.live = false; bool t = r.timer; int fd = r.fd; L->delete_event(r.id); if (t && openfd.count(fd)) bad("a timer's descriptor is not closed"); if (!t) { if (!openfd.count(fd)) bad("a descriptor that is not the loop's is closed"); openfd.erase(fd); if (kern.erase(fd)) bad("a deleted registration is still watched"); } }
		else if (r.timer && k > 13) return;
		else {
			if (k == 9) { L->enable_read(r.id); r.ev |= 1; } else if (k == 10) { L->disable_read(r.id); r.ev &= ~1; }
			else if (k == 11 && !r.timer) { L->enable_write(r.id); r.ev |= 2; } else if (k == 12) { L->disable_write(r.id); r.ev &= ~2; }
			else if (k == 13) { L->disable_all(r.id); r.ev = 0; } else { L->delete_event(Looper::INVALID_EVENT_ID); r.touched = r.touched; return; }
			if (addFailed != af) r.ev = (L->is_read(r.id) ? 1 : 0) | (L->is_write(r.id) ? 2 : 0);
			if (!r.hr || !r.hw) r.ev = (r.ev & (r.hr ? 1 : 0)) | (r.ev & (r.hw ? 2 : 0)) | (L->is_read(r.id) && !r.hr ? 1 : 0) | (L->is_write(r.id) && !r.hw ? 2 : 0);
		}
	}
	checkAll("after an operation");
}
static bool one(uint64_t seed) {
	rs = seed * 0x9E3779B97F4A7C15ull + 77; for (int i = 0; i < 8; i++) rnd();
	fail.clear(); G.clear(); G.reserve(4096); kern.clear(); openfd.clear(); reported.clear(); nextfd = 5000; roundNo = depth = waits = addFailed = 0; inLoop = false;
	addFails = rnd() % 4 == 0; opn = 20 + rnd() % 300; maxLive = 1 + rnd() % 40;
	L = Looper::create_looper();
	int k = rnd() % 24; while (k-- > 0) act();
	if (rnd() % 4 == 0) { inLoop = true; quitAfter = 1 + rnd() % 40; L->loop(); inLoop = false; }
	else for (int i = 0; i < 40 && fail.empty() && !L->is_quit_pending(); i++) { L->step(); if (rnd() % 3 == 0) act(); }
	endRound();
	if (fail.empty()) checkAll("at the end");
	for (size_t i = 0; i < G.size() && fail.empty(); i++) if (G[i].live) { G[i].live = false; L->delete_event(G[i].id); }
	Looper::destroy_looper(L);
	if (!fail.empty()) printf("MISMATCH %s (history seed %llu)\n", fail.c_str(), (unsigned long long)seed);
	return fail.empty();
}
int main(int c, char** v) {
	if (c > 2 && !strcmp(v[1], "run")) return one(strtoull(v[2], 0, 10)) ? 0 : 1;
	uint64_t s = strtoull(v[2], 0, 10) * 1000003; time_t end = time(0) + atoi(v[3]); char n[600]; snprintf(n, sizeof n, "%s.last", v[0]);
	FILE* f = fopen(n, "w");
	for (long i = 0; time(0) < end; i++) { rewind(f); fprintf(f, "run %llu\n", (unsigned long long)(s + i)); fflush(f); if (!one(s + i)) return 1; }
	return 0;
}
