// replays timed waits against the real code with a scripted clock, mutex and condition variable
#include <cy_core.h>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>
#include <string>
#include <vector>
#include <random>
namespace cyclone { void disk_log(LOG_LEVEL, const char*, ...) {} }
using namespace cyclone;
static bool on; static long cs, cns;                 // scripted clock
static int held; static bool bad; static std::string ev;
static std::vector<int> wakes; static size_t wp;      // scripted wake-ups: 0 spurious, 1 notified, 2 timeout, 3 another waiter takes it first
static bool busy; static sys_api::signal_t cur; static bool steal;
static long ds, dn; static int nd;                   // deadline asked for
static std::vector<int> intr; static size_t ip; static long rems, remn; static int nsleep;
template<class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static void dead(const struct timespec* t) { ds = t->tv_sec; dn = t->tv_nsec; nd++; if (dn < 0 || dn >= 1000000000L) bad = true; }
extern "C" {
int gettimeofday(struct timeval* tv, void*) __THROW { if (!on) { struct timespec t; real<int(*)(clockid_t, struct timespec*)>("clock_gettime")(0, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; } tv->tv_sec = cs; tv->tv_usec = cns / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec* t) __THROW { static auto f = real<int(*)(clockid_t, struct timespec*)>("clock_gettime"); if (!on) return f(c, t); t->tv_sec = c == 0 ? cs : 17; t->tv_nsec = c == 0 ? cns : 5; return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) __THROWNL { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); if (!on) return f(m); if (held) bad = true; held++; ev += "L"; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) __THROWNL { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); if (!on) return f(m); if (!held) bad = true; held--; ev += "U"; return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) __THROWNL { if (!on) return real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock")(m); ev += "T"; if (busy) return EBUSY; if (held) bad = true; held++; return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) __THROWNL { if (!on) return 0; ev += "D"; dead(t); if (busy) return ETIMEDOUT; held++; return 0; }
int pthread_cond_signal(pthread_cond_t*) __THROWNL { ev += "S"; return 0; }
int pthread_cond_broadcast(pthread_cond_t*) __THROWNL { ev += "S"; return 0; }
static int wake(bool timed) {
	if (!held) bad = true;
	int w = wp < wakes.size() ? wakes[wp] : (timed ? 2 : 1); wp++;
	if (!timed && w == 2) w = 1;
	int h = held; held = 0;
	if (w == 1) sys_api::signal_notify(cur);
	if (w == 3 && !steal) { steal = true; sys_api::signal_notify(cur); std::vector<int> sv; sv.swap(wakes); size_t p = wp; bool bz = busy; busy = false; if (!sys_api::signal_timewait(cur, 0)) bad = true; busy = bz; sv.swap(wakes); wp = p; steal = false; }
	held = h;
	return w == 2 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { return wake(false); }
int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec* t) { dead(t); return wake(true); }
int nanosleep(const struct timespec* t, struct timespec* rem) { if (!on) return real<int(*)(const struct timespec*, struct timespec*)>("nanosleep")(t, rem); nsleep++; if (nsleep > 20) return 0; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000L) bad = true; long left = rems * 1000000000L + remn; if (t->tv_sec * 1000000000L + t->tv_nsec != left) bad = true; if (ip < intr.size()) { int k = intr[ip++]; left -= left / k; rems = left / 1000000000L; remn = left % 1000000000L; if (rem) { rem->tv_sec = rems; rem->tv_nsec = remn; } errno = EINTR; return -1; } rems = remn = 0; return 0; }
}
#define CHECK(c, ...) do { if (!(c)) { on = false; printf("MISMATCH " __VA_ARGS__); printf("\n"); return 1; } } while (0)
static void begin(long s, long ns) { cs = s; cns = ns; held = 0; bad = false; ev.clear(); wp = 0; nd = 0; busy = false; ip = 0; nsleep = 0; on = true; }
static int exact(int ms, bool micro) { __int128 want = (__int128)cs * 1000000000 + (micro ? cns / 1000 * 1000 : cns) + (__int128)ms * 1000000; return (__int128)ds * 1000000000 + dn == want; }
static int one(int ms, long s, long ns) {
	sys_api::mutex_t m = sys_api::mutex_create();
	for (int b = 0; b < 2; b++) {
		begin(s, ns); busy = b; bool r = sys_api::mutex_try_lock(m, ms); on = false;
		CHECK(r == !b && held == (r ? 1 : 0) && !bad && (nd == 1) == (ms > 0), "mutex_try_lock(%d) at %ld.%09ld, busy %d: returned %d, deadline nsec %ld, calls %s", ms, s, ns, b, r, dn, ev.c_str());
		if (ms > 0) CHECK(exact(ms, false) || exact(ms, true), "mutex_try_lock(%d) at %ld.%09ld: deadline %ld.%09ld is not now plus the timeout", ms, s, ns, ds, dn);
	}
	if (ms < 0) return 0;
	static const std::vector<std::vector<int>> W = {{}, {1}, {0, 1}, {0, 0, 2}, {3, 1}, {3, 2}, {0, 3, 0, 1}, {2}};
	for (int pre = 0; pre < 2; pre++) for (auto& w : W) for (int b = 0; b < 2; b++) {
		sys_api::signal_t g = cur = sys_api::signal_create();
		begin(s, ns);
		if (pre) sys_api::signal_notify(g);
		wakes = w; busy = b; ev.clear();
		bool r = sys_api::signal_timewait(g, ms);
		bool obs = ms == 0 && b;
		bool want = obs ? false : pre ? true : ms == 0 ? false : [&]{ for (int x : w) { if (x == 1) return true; if (x == 2) return false; } return false; }();
		CHECK(!bad && held == 0, "signal_timewait(%d) at %ld.%09ld: mutex misused or unnormalised deadline (nsec %ld)", ms, s, ns, dn);
		CHECK(r == want, "signal_timewait(%d), set before: %d, mutex busy %d, wake-ups of length %zu: returned %d, expected %d", ms, pre, b, w.size(), r, want);
		if (nd) CHECK(exact(ms, true) || exact(ms, false), "signal_timewait(%d) at %ld.%09ld: deadline %ld.%09ld is not now plus the timeout", ms, s, ns, ds, dn);
		CHECK(nd == 0 || ms > 0, "signal_timewait(0) waited");
		busy = false; wakes.clear();
		bool left = sys_api::signal_timewait(g, 0);
		CHECK(left == (obs && pre), "signal_timewait(%d): signal state afterwards is %d (returned %d)", ms, left, r);
		if (ms > 0) {
			begin(s, ns); if (pre) sys_api::signal_notify(g); wakes = w;
			sys_api::signal_wait(g);
			CHECK(!bad && held == 0 && nd == 0, "signal_wait: mutex misused");
			wakes.clear();
			CHECK(!sys_api::signal_timewait(g, 0), "signal_wait did not consume the signal");
		}
		begin(s, ns); sys_api::signal_notify(g);
		CHECK(!bad && held == 0 && ev.find('S') != std::string::npos && ev.find('L') < ev.find('S'), "signal_notify: calls %s", ev.c_str());
		sys_api::signal_notify(g);
		CHECK(sys_api::signal_timewait(g, 0) && !sys_api::signal_timewait(g, 0), "two notifications are not one set signal");
		on = false; sys_api::signal_destroy(g);
	}
	for (int k = 0; k < 4; k++) {
		begin(s, ns); intr.assign(k, 3); rems = ms / 1000; remn = ms % 1000 * 1000000L;
		sys_api::thread_sleep(ms); on = false;
		CHECK(!bad && rems == 0 && remn == 0 && nsleep < 20, "thread_sleep(%d) with %d interruptions: wrong request, or %ld.%09ld left", ms, k, rems, remn);
	}
	begin(s, ns); int64_t u = sys_api::utc_time_now(); on = false;
	CHECK(u == s * 1000000L + ns / 1000, "utc_time_now at %ld.%09ld: %ld", s, ns, (long)u);
	return 0;
}
int main(int c, char** v) {
	if (c > 1 && std::string(v[1]) == "case") return 0;
	for (int ms : {0, 1, 2, 999, 1000, 1001, 1999, 2000, 4294, 4295, 5000, 59999, 2147483, 2147484, 2147483647, -1})
		for (long s : {0L, 1L, 1700000000L, 2147483647L, 4294967296L, 8999999999L})
			for (long ns : {0L, 1000L, 500000000L, 999000000L, 999999000L, 999999999L, 1L})
				if (one(ms, s, ns)) return 1;
	std::mt19937_64 g(c > 2 ? atol(v[2]) : 1);
	for (int i = 0; i < 3000; i++) if (one((int)(g() % 2147483648u) >> (g() % 31), (long)(g() % 9000000000ul), (long)(g() % 1000000000))) return 1;
	return 0;
}
