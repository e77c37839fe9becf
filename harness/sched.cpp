// cooperative scheduler: the code under test is compiled with -fsanitize=thread instrumentation but linked against these hooks, so that every atomic
// operation (and every plain access to a watched object) is a scheduling point of a seeded random scheduler
#include "dv_sched.h"
#include <ucontext.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <vector>
#include <functional>
namespace sched {
static const size_t STK = 256 * 1024;
struct Co { ucontext_t c; char* stk; std::function<void()> f; bool done; int budget; };
static std::vector<Co*> cos;
static int cur = -1;
static ucontext_t mainc;
static uint64_t rs = 1;
static long steps = 0, limit = 0;
static int stay = 0, bias = 2;
static const char *wlo = 0, *whi = 0;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
void seed(uint64_t s) { rs = s * 0x9E3779B97F4A7C15ull + 88172645463325252ull; if (!rs) rs = 1; for (int i = 0; i < 4; i++) rnd(); }
void watch(const void* p, size_t n) { wlo = (const char*)p; whi = wlo + n; }
int self() { return cur; }
static void entry() { Co* c = cos[cur]; c->f(); c->done = true; swapcontext(&c->c, &mainc); }
void yield(bool force) {
	if (cur < 0) return;
	if (++steps > limit) { swapcontext(&cos[cur]->c, &mainc); return; }
	if (!force && stay > 0) { stay--; return; }
	swapcontext(&cos[cur]->c, &mainc);
}
bool run(std::vector<std::function<void()>> fs, long lim, std::function<bool(int)> ready) {
	for (auto& f : fs) { Co* c = new Co; c->stk = (char*)malloc(STK); c->f = f; c->done = false; getcontext(&c->c); c->c.uc_stack.ss_sp = c->stk; c->c.uc_stack.ss_size = STK; c->c.uc_link = 0; makecontext(&c->c, entry, 0); cos.push_back(c); }
	steps = 0; limit = lim;
	bool ok = true;
	bias = rnd() % 4;
	for (;;) {
		std::vector<int> r;
		bool left = false;
		for (size_t i = 0; i < cos.size(); i++) if (!cos[i]->done) { left = true; if (!ready || ready((int)i)) r.push_back((int)i); }
		if (!left) break;
		if (r.empty() || steps > limit) { ok = false; break; }
		cur = r[rnd() % r.size()];
		stay = bias == 0 ? 0 : bias == 1 ? rnd() % 3 : bias == 2 ? rnd() % 8 : (rnd() % 4 == 0 ? rnd() % 60 : 0);
		swapcontext(&mainc, &cos[cur]->c);
		cur = -1;
	}
	for (auto c : cos) { free(c->stk); delete c; }
	cos.clear();
	cur = -1;
	return ok;
}
static inline void plain(const void* p) { if ((const char*)p >= wlo && (const char*)p < whi) yield(false); }
static inline bool spurious() { return cur >= 0 && rnd() % 8 == 0; }
}
using namespace sched;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { plain(p); } void __tsan_write##n(void* p) { plain(p); } void __tsan_unaligned_read##n(void* p) { plain(p); } void __tsan_unaligned_write##n(void* p) { plain(p); } void __tsan_read_write##n(void* p) { plain(p); } void __tsan_unaligned_read_write##n(void* p) { plain(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long) { plain(p); }
void __tsan_write_range(void* p, unsigned long) { plain(p); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { yield(false); }
void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T* a, int) { yield(false); return *a; } \
void __tsan_atomic##n##_store(volatile T* a, T v, int) { yield(false); *a = v; } \
T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { yield(false); T o = *a; *a = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { yield(false); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { yield(false); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { yield(false); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { yield(false); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { yield(false); T o = *a; *a = o ^ v; return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { yield(false); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { yield(false); if (*a == *c && !spurious()) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { yield(false); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
int sched_yield(void) { yield(true); return 0; }
}
