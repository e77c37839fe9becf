// searches schedules of the real WorkThread message path for lost, duplicated, reordered or altered messages and lost wakeups (C15)
#include <stdio.h>
#include <string.h>
#include <poll.h>
#include <unistd.h>
#include <time.h>
#include <string>
#include <cy_core.h>
#include <cy_event.h>
#include "dv_sched.h"
using namespace cyclone;
static std::string fail;
static void bad(const char* f, unsigned long a = 0, unsigned long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }
static Looper* looper;
static std::string pay(int s, int k) { std::string r; for (int i = 0; i < (s * 7 + k * 13) % 50; i++) r += (char)(s * 31 + k * 17 + i); return r; }

static WorkThread* fresh() { WorkThread* w = new WorkThread(); w->m_looper = looper; return w; }
static bool readable(WorkThread* w) { pollfd p = {w->m_pipe.get_read_port(), POLLIN, 0}; return poll(&p, 1, 0) > 0 && (p.revents & POLLIN); }

static void one(uint64_t seed) {
	sched::seed(seed);
	static WorkThread* wt = fresh();
	int ns = 1 + sched::rnd() % 3, per = 1 + sched::rnd() % 4;
	bool cb = sched::rnd() % 10 != 0;
	std::vector<std::vector<int>> got(ns);
	long count = 0;
	int nested = 0;
	wt->set_on_message(nullptr);
	if (cb) wt->set_on_message([&](Packet* p) {
		int s = p->get_packet_id() >> 8, k = p->get_packet_id() & 255; count++;
		if (s == 77) { nested--; return; }
		if (s >= ns) { bad("a message with an unknown id %lu was delivered", p->get_packet_id()); return; }
		std::string e = pay(s, k);
		if (p->get_packet_size() != e.size() || (e.size() && memcmp(p->get_packet_content(), e.data(), e.size())) || p->get_memory_size() != WorkThread::MESSAGE_HEAD_SIZE + e.size()) bad("message %lu of sender %lu arrived with different content", k, s);
		got[s].push_back(k);
		if (sched::rnd() % 16 == 0) { nested++; wt->send_message(77 << 8, 0, nullptr); }
		sched::yield(false);
	});
	std::vector<std::function<void()>> fs;
	int active = ns;
	for (int s = 0; s < ns; s++) fs.push_back([&, s] {
		for (int k = 0; k < per;) {
			std::string m = pay(s, k); uint16_t id = (uint16_t)(s << 8 | k);
			switch (sched::rnd() % 3) {
			case 0: { size_t c = m.empty() ? 0 : sched::rnd() % (m.size() + 1); wt->send_message(id, (uint16_t)c, m.data(), (uint16_t)(m.size() - c), m.data() + c); k++; break; }
			case 1: { Packet* p = Packet::alloc_packet(); p->build_from_memory(4, id, (uint16_t)m.size(), m.data()); wt->send_message(p); Packet::free_packet(p); k++; break; }
			default: { const Packet* ps[4]; int n = 0; for (; n < 3 && k < per; n++, k++) { std::string x = pay(s, k); Packet* p = Packet::alloc_packet(); p->build_from_memory(4, (uint16_t)(s << 8 | k), (uint16_t)x.size(), x.data()); ps[n] = p; }
				wt->send_message(ps, n); for (int i = 0; i < n; i++) Packet::free_packet((Packet*)ps[i]); }
			}
			if (sched::rnd() % 2) sched::yield(true);
		}
		active--; });
	// the receiver sleeps until its pipe is readable
	fs.push_back([&] { for (;;) { bool idle = active == 0; if (readable(wt)) wt->_on_message(); else if (idle) break; sched::yield(true); } });
	if (!sched::run(fs, 100000, [&](int i) { return i < ns || active == 0 || readable(wt) || true; })) { bad("the senders or the receiver do not terminate"); return; }
	if (!fail.empty()) return;
	if (cb) for (int s = 0; s < ns; s++) {
		if ((int)got[s].size() < per) bad("a message was left in the queue with the thread asleep and no wakeup pending (sender %lu)", s);
		if ((int)got[s].size() > per) bad("a message of sender %lu was delivered twice", s);
		for (int k = 0; k < (int)got[s].size(); k++) if (got[s][k] != k) bad("messages of sender %lu were delivered out of order", s);
	}
	if (nested) bad("a message sent from the callback was not delivered");
	if (wt->m_message_queue.size()) bad("%lu messages stay in the queue with no wakeup pending", wt->m_message_queue.size());
	if (readable(wt)) bad("a wakeup byte stays in the pipe after the receiver ran");
}

int main(int, char** argv) {
	std::string mode = argv[1];
	if (mode == "case") return 0;
	uint64_t seed = strtoull(argv[2], 0, 10);
	double secs = atof(argv[3]);
	looper = Looper::create_looper();
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	for (uint64_t i = 0;; i++) {
		one(seed * 1000003 + i);
		if (!fail.empty()) { printf("MISMATCH %s\nschedule seed %lu\n", fail.c_str(), (unsigned long)(seed * 1000003 + i)); fflush(stdout); _exit(1); }
		if ((i & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
	}
	return 0;
}
