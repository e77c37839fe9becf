// searches schedules of the real LockFreeQueue for violations of C05
#include <stdio.h>
#include <string.h>
#include <string>
#include <map>
#include <set>
#include <time.h>
#include <cy_core.h>
#include "dv_sched.h"
using namespace cyclone;
namespace cyclone { namespace sys_api { void thread_yield(void) { sched::yield(true); } } }
static std::string fail;
static void bad(const char* f, unsigned long a = 0, unsigned long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }

template <uint32_t N> static void setup(LockFreeQueue<uint64_t, N>& q, uint32_t base) { q.m_readIndex = base; q.m_writeIndex = base; q.m_maximumReadIndex = base; }

struct Ev { uint32_t slot; uint64_t v; };

// sequential behaviour against a plain FIFO
template <uint32_t N> static void seq(uint32_t base) {
	typedef LockFreeQueue<uint64_t, N> Q;
	Q* q = new Q; setup<N>(*q, base);
	std::vector<uint64_t> ref; uint64_t nxt = 1;
	uint64_t half = sched::rnd() % 3;
	for (int i = 0; i < (N <= 16 ? 120 : 3 * (int)N) && fail.empty(); i++) {
		bool push = half == 0 ? sched::rnd() & 1 : half == 1 ? sched::rnd() % 4 != 0 : sched::rnd() % 8 != 0;
		if (N > 16 && i > 2 * (int)N) push = sched::rnd() % 4 == 0;
		if (push) { bool r = q->push(nxt); bool want = ref.size() < N - 1; if (r != want) bad("push into a queue of capacity %lu holding %lu elements reports the wrong result", N - 1, ref.size()); if (r) ref.push_back(nxt); nxt++; }
		else { uint64_t o = 0xDEAD; bool r = q->pop(o); bool want = !ref.empty(); if (r != want) bad("pop from a queue holding %lu elements reports the wrong result", ref.size());
			if (!r && o != 0xDEAD) bad("a failing pop changed its output");
			if (r && want) { if (o != ref[0]) bad("pop returned %lu instead of %lu", o, ref[0]); ref.erase(ref.begin()); } }
		if (q->size() != ref.size()) bad("size() is %lu with %lu elements", q->size(), ref.size());
	}
	delete q;
}

template <uint32_t N> static void conc(uint32_t base, int np, int nc, int per) {
	typedef LockFreeQueue<uint64_t, N> Q;
	Q* q = new Q; setup<N>(*q, base);
	sched::watch(q->m_queue, sizeof(q->m_queue));
	std::vector<std::vector<uint64_t>> ok(np), got(nc);
	std::vector<std::function<void()>> fs;
	int producing = np;
	for (int p = 0; p < np; p++) fs.push_back([&, p] {
		for (int k = 0; k < per; k++) { uint64_t v = ((uint64_t)(p + 1) << 32) | k; for (int t = 0; t < 6; t++) { if (q->push(v)) { ok[p].push_back(v); break; } sched::yield(true); } }
		producing--; });
	for (int c = 0; c < nc; c++) fs.push_back([&, c] {
		for (;;) { bool last = producing == 0; uint64_t o = 0; if (q->pop(o)) got[c].push_back(o); else { if (last) break; sched::yield(true); } } });
	if (!sched::run(fs, 200000)) bad("an operation does not terminate although the other threads finish");
	else {
		std::map<uint64_t, int> n;
		uint64_t o;
		std::vector<uint64_t> rest;
		while (rest.size() <= 2 * N && q->pop(o)) rest.push_back(o);
		got.push_back(rest);
		for (auto& g : got) for (auto v : g) n[v]++;
		for (auto& g : ok) for (auto v : g) { if (n[v] == 0) bad("an accepted element (%lx) was never popped", v); if (n[v] > 1) bad("an element (%lx) was popped %lu times", v, n[v]); n.erase(v); }
		for (auto& e : n) if (e.second) bad("an element (%lx) was popped that was never accepted", e.first);
		for (auto& g : got) { std::map<uint64_t, uint64_t> last; for (auto v : g) { uint64_t p = v >> 32, k = (v & 0xffffffff) + 1; if (k <= last[p]) bad("one consumer saw elements of one producer out of order (%lx)", v); last[p] = k; } }
		if (q->size() != 0) bad("size() is %lu after everything was popped", q->size());
	}
	delete q;
}

static void one(uint64_t s) {
	sched::seed(s);
	static const uint32_t bases[] = {0, 0, 1, 3, 0xfffffffeu, 0xfffffff0u, 0x7fffffffu};
	uint32_t b = bases[sched::rnd() % 7];
	switch (sched::rnd() % 8) {
	case 0: seq<2>(b); break;
	case 1: seq<4>(b); break;
	case 2: if (sched::rnd() % 64 == 0) seq<65536>(b); else seq<16>(b); break;
	case 3: conc<2>(b, 2, 1 + sched::rnd() % 2, 6); break;
	case 4: conc<4>(b, 1 + sched::rnd() % 5, 1 + sched::rnd() % 3, 5); break;
	case 5: conc<8>(b, 6 + sched::rnd() % 3, 1 + sched::rnd() % 2, 3); break;
	case 6: conc<4>(b, 5, 1, 4); break;
	default: conc<16>(b, 12, 2, 3); break;
	}
}

int main(int argc, char** argv) {
	std::string mode = argv[1];
	if (mode == "case") { return 0; }
	uint64_t seed = strtoull(argv[2], 0, 10);
	double secs = atof(argv[3]);
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	for (uint64_t i = 0;; i++) {
		one(seed * 1000003 + i);
		if (!fail.empty()) { printf("MISMATCH %s\nschedule seed %lu\n", fail.c_str(), (unsigned long)(seed * 1000003 + i)); fflush(stdout); _exit(1); }
		if ((i & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
	}
	return 0;
}
