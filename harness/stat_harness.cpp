// searches inputs and schedules of the real statistics templates for violations of C11
#include <stdio.h>
#include <string.h>
#include <string>
#include <limits>
#include <time.h>
#include <cy_core.h>
#include <utility/cyu_statistics.h>
#include "dv_sched.h"
using namespace cyclone;
static int64_t g_clock = 5000000;
static int g_held = 0;
static std::string fail;
static void bad(const char* f, long a = 0, long b = 0) { if (fail.empty()) { char t[300]; snprintf(t, sizeof t, f, a, b); fail = t; } }
namespace cyclone { namespace sys_api {
int64_t performance_time_now(void) { return g_clock; }
mutex_t mutex_create(void) { return (mutex_t)&g_held; }
void mutex_destroy(mutex_t m) { if (m != (mutex_t)&g_held) bad("another mutex is destroyed"); }
void mutex_lock(mutex_t m) { if (m != (mutex_t)&g_held || g_held) bad("the lock is taken twice or another lock is taken"); g_held++; }
void mutex_unlock(mutex_t m) { if (m != (mutex_t)&g_held || !g_held) bad("the lock is released without being held"); g_held--; }
} }

template <typename T, bool L> static void period() {
	int32_t per = sched::rnd() % 3 ? (int32_t)(sched::rnd() % 60) : 1000;
	PeriodValue<T, L> q(per);
	if (q.get_time_period() != per) bad("the reported period is %ld", q.get_time_period());
	std::vector<std::pair<int64_t, T>> all;
	int64_t now = 1000 + sched::rnd() % 100; size_t lo = 0;
	int n = sched::rnd() % 40 ? sched::rnd() % 400 : 4000, gap = sched::rnd() % 6, qf = sched::rnd() % 3 ? 5 : 900;
	if (n == 4000) { qf = 900; gap = 200; }
	for (int i = 0; i < n && fail.empty(); i++) {
		if (gap && sched::rnd() % gap == 0) now += sched::rnd() % 5;
		if (sched::rnd() % 50 == 0 && n < 4000) now += per;
		if (sched::rnd() % 80 == 0 && n < 4000) now += 2 * per + 1;
		g_clock = now * 1000 + sched::rnd() % 1000;
		bool ex = sched::rnd() % 2;
		if (sched::rnd() % qf) {
			T v = (T)(sched::rnd() % 4 ? sched::rnd() % 1000 : 0);
			q.push(v, ex ? now : 0); all.push_back({now, v});
		}
		else {
			auto r = q.sum_and_counts(ex ? now : 0);
			T s = 0; int32_t c = 0;
			for (auto& e : all) if (e.first >= now - per) { s += e.second; c++; }
			if (r.second != c) bad("the window counts %ld samples instead of %ld", r.second, c);
			if (r.first != s) bad("the window sums to %ld instead of %ld", (long)r.first, (long)s);
			if (q.total_counts() != (size_t)c) bad("%ld samples are kept after a query of a window with %ld", (long)q.total_counts(), c);
		}
		if (g_held) bad("the lock is left held");
	}
}

template <typename T> static T draw(int m) {
	switch (m) {
	case 0: return (T)(sched::rnd() % 7);
	case 1: return (T)(0 - (long)(sched::rnd() % 1000) - 1);
	case 2: return sched::rnd() & 1 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
	default: return (T)sched::rnd();
	}
}

template <typename T> static void minmax(int threads) {
	MinMaxValue<T>* m; T mn = std::numeric_limits<T>::max(), mx = std::numeric_limits<T>::lowest();
	int mode = sched::rnd() % 4;
	if (sched::rnd() & 1) m = new MinMaxValue<T>(); else { T i = draw<T>(mode); m = new MinMaxValue<T>(i); mn = mx = i; }
	std::vector<std::vector<T>> vs(threads);
	for (auto& v : vs) for (int i = 1 + sched::rnd() % 3; i; i--) { v.push_back(draw<T>(mode)); if (v.back() < mn) mn = v.back(); if (v.back() > mx) mx = v.back(); }
	if (threads == 1) { for (T x : vs[0]) m->update(x); }
	else {
		std::vector<std::function<void()>> fs;
		for (auto& v : vs) fs.push_back([&v, m] { for (T x : v) m->update(x); });
		if (!sched::run(fs, 100000)) bad("an update does not terminate");
	}
	if (m->min() != mn) bad("the minimum is %ld instead of %ld", (long)m->min(), (long)mn);
	if (m->max() != mx) bad("the maximum is %ld instead of %ld", (long)m->max(), (long)mx);
	delete m;
}

static void one(uint64_t s) {
	sched::seed(s);
	int t = 1 + sched::rnd() % 4;
	switch (sched::rnd() % 9) {
	case 0: period<int32_t, true>(); break;
	case 1: period<size_t, true>(); break;
	case 2: period<int64_t, false>(); break;
	case 3: minmax<int32_t>(t); break;
	case 4: minmax<size_t>(t); break;
	case 5: minmax<int64_t>(t); break;
	case 6: minmax<uint32_t>(t); break;
	case 7: minmax<float>(t); break;
	default: minmax<double>(t); break;
	}
}

int main(int argc, char** argv) {
	std::string mode = argv[1];
	if (mode == "case") return 0;
	uint64_t seed = strtoull(argv[2], 0, 10);
	double secs = atof(argv[3]);
	timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	for (uint64_t i = 0;; i++) {
		one(seed * 1000003 + i);
		if (!fail.empty()) { printf("MISMATCH %s\nseed %lu\n", fail.c_str(), (unsigned long)(seed * 1000003 + i)); fflush(stdout); _exit(1); }
		if ((i & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &t); if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break; }
	}
	return 0;
}
