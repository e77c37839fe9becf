// the real text helpers and logger against direct oracles (C24)
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <string>
#include <fcntl.h>
#include <limits.h>
#include <math.h>
#include <sys/stat.h>
#include <time.h>
#include <fstream>
#include <sstream>
static char linkTo[4096]; static size_t linkLen; static bool linkFails; static char hostName[80]; static bool hostFails;
static long fake_readlink(const char*, char* b, size_t n) { if (linkFails) return -1; size_t k = linkLen < n ? linkLen : n; for (size_t i = 0; i < k; i++) b[i] = linkTo[i]; return (long)k; }
static int fake_gethostname(char* b, size_t n) { if (hostFails) return -1; size_t l = strlen(hostName); for (size_t i = 0; i < n && i <= l; i++) b[i] = hostName[i]; return l < n ? 0 : -1; }
#include <unistd.h>
#include <cy_core.h>
#define readlink fake_readlink
#define gethostname fake_gethostname
#include <core/cyc_system_api.cpp>
#include <core/cyc_logger.cpp>
#include <utility/cyu_string_util.cpp>
using namespace cyclone;
static int so; static std::string ctx;
static void bad(const char* f, const std::string& a = "") { std::string s = "MISMATCH " + std::string(f) + ": " + a + "\n"; if (write(so, s.data(), s.size())) {} _exit(1); }
static uint64_t rs; static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t)(rs >> 16); }
static void moduleName() {
	linkFails = rnd() % 8 == 0; linkLen = 1 + rnd() % (rnd() % 3 ? 60 : 400); for (size_t i = 0; i < linkLen; i++) linkTo[i] = "abcdefgh/"[rnd() % 9]; linkTo[linkLen] = 0;
	size_t n = 1 + rnd() % (rnd() % 2 ? 12 : 300); char* d = (char*)malloc(n); memset(d, 'x', n); sys_api::process_get_module_name(d, n);
	size_t e = strnlen(d, n); if (e == n) bad("the module name is not terminated", "size " + std::to_string(n) + " path " + (linkFails ? "?" : linkTo));
	std::string p(linkTo, linkLen < 255 ? linkLen : 255), q(linkTo, linkLen < 256 ? linkLen : 256); auto base = [](const std::string& s) { size_t i = s.rfind('/'); return i == std::string::npos ? std::string("unknown") : s.substr(i + 1); };
	std::string w = linkFails ? "unknown" : base(p); (void)q; if (linkLen < 255 && std::string(d) != w.substr(0, n - 1)) bad("wrong module name", std::string(d) + " for " + linkTo); free(d);
}
static void localTime() {
	const char* fs[] = { "%Y%m%d-%H%M%S", "%Y_%m_%d-%H:%M:%S", "%Y", "", "%A %B %d of the year %Y" }; const char* f = fs[rnd() % 5]; size_t n = 1 + rnd() % 40; char* d = (char*)malloc(n); memset(d, 'x', n); char w[200]; bool same = false;
	time_t t0 = time(0); sys_api::local_time_now(d, n, f); if (strnlen(d, n) == n) bad("the time text is not terminated", std::string(f) + " size " + std::to_string(n));
	for (time_t t = t0; t <= t0 + 1; t++) { struct tm m; localtime_r(&t, &m); size_t k = strftime(w, sizeof w, f, &m); same |= k >= n || !strcmp(w, d); } if (!same) bad("wrong time text", d); free(d);
}
static void sizeText() {
	double v; std::string s; if (rnd() % 2) { size_t x = ((size_t)rnd() << 32 | rnd()) >> (rnd() % 64); if (rnd() % 4 == 0) { int k[] = { 10, 20, 30, 40 }; x = ((size_t)1 << k[rnd() % 4]) + rnd() % 3 - 1; } s = string_util::size_to_string(x); v = (double)(float)x; } else { float x = ldexpf((float)(1 + rnd() % 1000003) / 1000003, (int)(rnd() % 128)); if (rnd() % 3 == 0) x = (float)(1 << (10 * (1 + rnd() % 3))) - (float)(rnd() % 2); s = string_util::size_to_string(x); v = (double)x; }
	double got; char unit[16] = ""; if (sscanf(s.c_str(), "%lf %15s", &got, unit) < 1) bad("a size is not a number", s); double u = !strcmp(unit, "KB") ? 1024. : !strcmp(unit, "MB") ? 1048576. : !strcmp(unit, "GB") ? 1073741824. : 1; if (u == 1 && unit[0]) bad("an unknown unit", s);
	if (fabs(got * u - v) > 0.00501 * u + fabs(v) * 1e-6) bad("a size text denotes another number", s); if ((u > 1 && v < u) || (u < 1e9 && v >= 1024 * u)) bad("a size has the wrong unit", s);
}
static void logger(const std::string& dir) {
	hostFails = rnd() % 4 == 0; size_t hl = rnd() % 65; for (size_t i = 0; i < hl; i++) hostName[i] = 'h'; hostName[hl] = 0; linkFails = false; linkLen = 3 + rnd() % 80; memset(linkTo, 'p', linkLen); linkTo[1] = '/';
	{ DiskLogFile* f = new DiskLogFile(); if (f->file_path_name.compare(0, f->file_path.size(), f->file_path) || f->file_path_name.size() < f->file_path.size() + 20) bad("wrong default log file", f->file_path_name); for (char c : f->file_path_name.substr(f->file_path.size())) if (!isalnum(c) && !strchr("._-", c)) bad("the default log file name has garbage", f->file_path_name); sys_api::mutex_destroy(f->lock); delete f; }
	std::string name = "n" + std::to_string(rnd() % 3), d = dir + (rnd() % 2 ? "/" : ""); bool bare = rnd() % 3 == 0; if (bare) d = dir + "/sub" + std::to_string(rnd() % 3);
	if (set_log_filename("", name.c_str()) || set_log_filename(d.c_str(), "") || set_log_filename(nullptr, "x") || set_log_filename("x", nullptr)) bad("an empty log name is accepted"); if (!set_log_filename(d.c_str(), name.c_str())) bad("a log name is rejected");
	std::string full = (d.back() == '/' ? d : d + "/") + name; if (full != get_log_filename()) bad("wrong log file name", get_log_filename());
	int th = (int)(rnd() % 7); set_log_threshold((LOG_LEVEL)th); auto slurp = [&] { std::ifstream i(full); std::stringstream s; s << i.rdbuf(); return s.str(); };
	for (int k = 0; k < 3; k++) {
		std::string before = slurp(); size_t n = rnd() % 3 == 0 ? 2040 + rnd() % 16 : rnd() % (rnd() % 4 ? 100 : 9000); std::string m; for (size_t i = 0; i < n; i++) m += (char)('a' + rnd() % 26); int lv = (int)(rnd() % 6);
		disk_log((LOG_LEVEL)lv, "%s", m.c_str()); std::string after = slurp(); if (lv < th) { if (after != before) bad("a message below the threshold is logged"); continue; }
		if (after.compare(0, before.size(), before) || after.size() < before.size() + m.size() + 10) bad("a message is not appended to the log", "length " + std::to_string(n) + " level " + std::to_string(lv) + " threshold " + std::to_string(th));
		std::string l = after.substr(before.size()); const char* tag[] = { "[T]", "[D]", "[I]", "[W]", "[E]", "[F]" }; if (l.back() != '\n' || l.compare(l.size() - 1 - m.size(), m.size(), m) || l.find(tag[lv]) != 20) bad("a log line is wrong", l.substr(0, 80) + " length " + std::to_string(n));
	}
	int fds = 0; for (int i = 3; i < 200; i++) fds += fcntl(i, F_GETFD) >= 0; if (fds > 20) bad("log files stay open");
}
int main(int c, char** v) {
	if (c < 4) return 2;
	uint64_t seed = atoll(v[2]); double secs = atof(v[3]); time_t t0 = time(0); std::string dir = std::string(v[0]) + ".logs"; mkdir(dir.c_str(), 0755);
	so = dup(1); int nul = open("/dev/null", O_WRONLY); int se = dup(2); (void)se; dup2(nul, 1); FILE* keep = stderr; stderr = fopen("/dev/null", "w");
	for (uint64_t i = 0; time(0) - t0 < secs; i++) { rs = (seed * 1000003 + i) * 0x9E3779B97F4A7C15ull + 12345; for (int k = 0; k < 5; k++) rnd(); moduleName(); localTime(); for (int k = 0; k < 5; k++) sizeText(); if (i % 8 == 0) logger(dir); }
	fclose(stderr); stderr = keep; if (write(so, "ok\n", 3)) {} return 0;
}
