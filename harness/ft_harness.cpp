// runs the real file transfer server and client in scratch directories: whole transfers, a server with hostile clients, a client with a hostile server
#include <cy_core.h>
#include <cy_event.h>
#include <cy_network.h>
#include <cy_crypt.h>
#include <utility/cyu_simple_opt.h>
#include <utility/cyu_statistics.h>
#include <utility/cyu_string_util.h>
#include <fstream>
#include <functional>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
#include <dirent.h>
#include "ft_common.h"
namespace S {
#define main ft_main
#include "ft_server.cpp"
}
namespace C {
#include "ft_client.cpp"
#undef main
}
using namespace cyclone;
typedef std::string str;
static str name; static uint16_t port;
#define CHECK(c, ...) do { if (!(c)) { printf("MISMATCH %s: ", name.c_str()); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static str slurp(const str& f) { std::ifstream i(f, std::ios::binary); return str(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
static str data(size_t n) { str s(n, 0); uint32_t x = (uint32_t)n * 7 + 1; for (auto& c : s) { x = x * 1664525 + 1013904223; c = (char)(x >> 24); } return s; }
static uint32_t crc(const str& s) { return adler32(INITIAL_ADLER, (const uint8_t*)s.data(), s.size()); }
static void put(const str& f, const str& d) { std::ofstream o(f, std::ios::binary); o << d; }
static int listener(uint16_t& p) {
	int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	bind(s, (sockaddr*)&a, sizeof a); listen(s, 16); socklen_t l = sizeof a; getsockname(s, (sockaddr*)&a, &l); p = ntohs(a.sin_port); return s;
}
static int dial() {
	for (int i = 0; i < 200; i++) {
		int s = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		struct timeval t = {8, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
		if (!connect(s, (sockaddr*)&a, sizeof a)) return s;
		close(s); usleep(20000);
	}
	return -1;
}
static void put(int s, const void* p, size_t n) { send(s, p, n, MSG_NOSIGNAL); }
static str get(int s, size_t n) { str r; char b[65536]; while (r.size() < n) { ssize_t k = recv(s, b, std::min(n - r.size(), sizeof b), 0); if (k <= 0) break; r.append(b, (size_t)k); } return r; }
static pid_t spawn(std::function<int()> f) { fflush(stdout); pid_t p = fork(); if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); _exit(f()); } return p; }
static pid_t serve(const str& file, int threads) {
	close(listener(port));
	return spawn([=] { S::FileTransferServer s; if (!s.prepare(file, threads)) return 7; s.startAndJoin(port); return 0; });
}
static int ended(pid_t p, int ms) { for (int i = 0; i <= ms / 20; i++) { int st; if (waitpid(p, &st, WNOHANG) == p) return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); usleep(20000); } return -1; }
static void stop(pid_t p) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); }
static int download() {       // what main does: 1 no information, 2 no download, 3 no combination
	C::FileTransferClient c;
	if (!c.queryFileInfo("127.0.0.1", port)) return 1;
	if (!c.beginDownloadFile()) return 2;
	return c.combineFile() ? 0 : 3;
}
static size_t files(const char* d) { size_t n = 0; DIR* x = opendir(d); while (dirent* e = readdir(x)) if (e->d_name[0] != '.' && strncmp(e->d_name, "file", 4) == 0) n++; closedir(x); return n; }

static void whole(size_t size, int threads) {
	str d = data(size); mkdir("src", 0755); mkdir("dst", 0755); put("src/file.bin", d);
	pid_t s = serve("src/file.bin", threads);
	pid_t c = spawn([] { if (chdir("dst")) return 9; return download(); });
	int r = ended(c, 15000), alive = ended(s, 0);
	CHECK(alive == -1, "size %zu, %d threads: the server ended with %d", size, threads, alive); stop(s);
	if (r == -1) stop(c);
	CHECK(r == 0, "size %zu, %d threads: the client ended with %d", size, threads, r);
	CHECK(slurp("dst/file.bin") == d, "size %zu, %d threads: the downloaded file differs", size, threads);
	CHECK(files("dst") == 1, "size %zu, %d threads: parts are left", size, threads);
}
static FT_RequireFileFragment want(size_t o, int32_t n) { FT_RequireFileFragment q; memset(&q, 0, sizeof q); q.id = FT_RequireFileFragment::ID; q.size = sizeof q; q.fileOffset = o; q.fragmentSize = n; return q; }
static void fragment(int s, const str& d, size_t o, int32_t n, const char* what) {
	auto q = want(o, n); put(s, &q, sizeof q);
	str b = get(s, sizeof(FT_ReplyFileFragment_Begin)); CHECK(b.size() == sizeof(FT_ReplyFileFragment_Begin), "%s: no answer to a valid request", what);
	auto* fb = (FT_ReplyFileFragment_Begin*)b.data(); CHECK(fb->id == FT_ReplyFileFragment_Begin::ID && fb->size == (int)sizeof(*fb) && fb->fileOffset == o && fb->fragmentSize == n, "%s: wrong begin message", what);
	CHECK(get(s, (size_t)n) == d.substr(o, (size_t)n), "%s: wrong bytes for [%zu, +%d)", what, o, n);
	str e = get(s, sizeof(FT_ReplyFileFragment_End)); CHECK(e.size() == sizeof(FT_ReplyFileFragment_End), "%s: no end message", what);
	auto* fe = (FT_ReplyFileFragment_End*)e.data(); CHECK(fe->id == FT_ReplyFileFragment_End::ID && fe->fragmentCRC == crc(d.substr(o, (size_t)n)), "%s: wrong end message", what);
}
static void server_side() {
	str d = data(200000); put("file.bin", d); pid_t s = serve("file.bin", 1);
	int32_t bad[][2] = {{0, 1}, {-1, 1}, {-1, 3}, {8, 3}, {20, 3}, {INT32_MIN, 3}, {7, 1}};
	for (auto& m : bad) { int c = dial(); FT_Head h; h.size = m[0]; h.id = m[1]; put(c, &h, 8); if (m[0] <= 8) CHECK(get(c, 1).empty(), "a message of declared size %d, id %d is answered", m[0], m[1]); close(c); usleep(30000); CHECK(ended(s, 0) == -1, "the server dies of a message of size %d, id %d", m[0], m[1]); }
	struct { size_t o; int32_t n; } rg[] = {{0, -1}, {0, INT32_MIN}, {200001, 0}, {199999, 2}, {(size_t)-1, 1}, {(size_t)-16, 16}, {(size_t)-16, 1000}, {1, 200000}, {16, -16}, {(size_t)1 << 63, 100}};
	for (auto& m : rg) { int c = dial(); auto q = want(m.o, m.n); put(c, &q, sizeof q); CHECK(get(c, 1).empty(), "the range [%zu, +%d) outside the file is served", m.o, m.n); close(c); usleep(30000); CHECK(ended(s, 0) == -1, "the server dies of the range [%zu, +%d)", m.o, m.n); }
	struct { size_t o; int32_t n; } ok[] = {{0, 200000}, {0, 1}, {199999, 1}, {65536, 65536}, {1, 199999}, {100000, 65537}, {200000, 0}, {0, 0}};
	for (auto& m : ok) { int c = dial(); usleep(30000); fragment(c, d, m.o, m.n, "server"); close(c); usleep(50000); }
	int a = dial(); usleep(100000); int b = dial(); usleep(100000); FT_Head h; h.size = 8; h.id = 1; put(b, &h, 8); get(b, 1); close(b); usleep(100000); fragment(a, d, 5, 150000, "after a refused connection"); close(a); usleep(50000);
	CHECK(ended(s, 0) == -1, "the server dies"); stop(s);
	put("file2.bin", d); pid_t t = serve("file2.bin", 1); int c = dial(); usleep(50000); CHECK(truncate("file2.bin", 100000) == 0, "truncate");
	auto q = want(0, 200000); put(c, &q, sizeof q); time_t t0 = time(0); str r = get(c, 200000 + 100); CHECK(time(0) - t0 < 6, "a transfer of a file that shrank never ends"); CHECK(r.size() < 200000, "a file that shrank is sent whole"); close(c);
	CHECK(ended(t, 100) == -1, "the server dies when the file shrinks"); stop(t);
}
// a scripted server: answers the query with an information message, every fragment request with what mangle makes of the right answer
static void client_side(const char* what, const str& d, int threads, std::function<void(str&)> info, std::function<void(str&, int)> mangle, bool ok, rlim_t limit = 0, size_t left = 0) {
	name = str("client, ") + what; int l = listener(port);
	mkdir("dst", 0755);
	pid_t c = spawn([l, limit] { close(l); if (chdir("dst")) return 9; rlimit r = {20, 20}; setrlimit(RLIMIT_CPU, &r); if (limit) { signal(SIGXFSZ, SIG_IGN); rlimit f = {limit, limit}; setrlimit(RLIMIT_FSIZE, &f); } return download(); });
	pid_t s = spawn([=] { int k = 0; for (;;) {
		int x = accept(l, 0, 0); int me = k++; if (x < 0) return 0;
		if (fork()) { close(x); continue; } prctl(PR_SET_PDEATHSIG, SIGKILL);
		struct timeval t = {8, 0}; setsockopt(x, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
		str h = get(x, 8); if (h.size() < 8) _exit(0);
		if (((FT_Head*)h.data())->id == 1) {
			FT_ReplyFileInfo i; memset(&i, 0, sizeof i); i.id = 2; i.fileSize = d.size(); i.threadCounts = threads; i.nameLength = 9; i.size = sizeof i + 9;
			str m((char*)&i, sizeof i); m += str("file.bin\0", 9); info(m); put(x, m.data(), m.size());
		} else {
			h += get(x, sizeof(FT_RequireFileFragment) - 8); auto* q = (FT_RequireFileFragment*)h.data();
			FT_ReplyFileFragment_Begin b; memset(&b, 0, sizeof b); b.id = 4; b.size = sizeof b; b.fileOffset = q->fileOffset; b.fragmentSize = q->fragmentSize;
			str body = d.substr(std::min(q->fileOffset, d.size()), q->fragmentSize < 0 ? 0 : (size_t)q->fragmentSize);
			FT_ReplyFileFragment_End e; memset(&e, 0, sizeof e); e.id = 5; e.size = sizeof e; e.fragmentCRC = crc(body);
			str m = str((char*)&b, sizeof b) + body + str((char*)&e, sizeof e); mangle(m, me); 
			for (size_t o = 0; o < m.size(); o += 9001) { put(x, m.data() + o, std::min<size_t>(9001, m.size() - o)); if (o % 3 == 0) usleep(300); }
		}
		shutdown(x, SHUT_WR); get(x, 1); _exit(0); } });
	close(l); int r = ended(c, 12000); stop(s);
	if (r == -1) stop(c);
	if (ok) { CHECK(r == 0, "the download fails (%d)", r); CHECK(slurp("dst/file.bin") == d, "the file differs"); CHECK(files("dst") == 1, "parts are left"); }
	else CHECK(r >= 1 && r <= 3, "ends with %d", r);
	if (left) CHECK(files("dst") == left, "%zu files are left", files("dst"));
}
#ifndef NO_MAIN
int main(int c, char** v) {
	if (c > 1 && str(v[1]) == "case") return 0;
	setvbuf(stdout, 0, _IOLBF, 0); set_log_threshold(L_MAXIMUM_LEVEL); signal(SIGPIPE, SIG_IGN); signal(SIGCHLD, SIG_DFL);
	char t[] = "/tmp/ftXXXXXX"; if (!mkdtemp(t) || chdir(t)) return 3;
	std::vector<std::pair<str, std::function<void()>>> all;
	size_t ws[][2] = {{0, 3}, {1, 1}, {1000, 4}, {65535, 2}, {65536, 1}, {131077, 2}, {200000, 3}, {1048576, 4}, {1000003, 7}, {131071, 1}, {786500, 12}};
	for (auto& w : ws) all.push_back({"transfer", [=] { whole(w[0], (int)w[1]); }});
	all.push_back({"server", server_side});
	str d = data(140001); auto nop = [](str&) {}; auto same = [](str&, int) {};
	typedef std::function<void(str&)> I; typedef std::function<void(str&, int)> M;
	auto cl = [&](const char* w, int th, I i, M m, bool ok) { all.push_back({w, [=] { client_side(w, d, th, i, m, ok); }}); };
	cl("good server", 2, nop, same, true);
	cl("wrong checksum", 2, nop, [](str& m, int) { m[m.size() - 1] ^= 1; }, false);
	cl("one wrong checksum", 2, nop, [](str& m, int k) { if (k == 1) m[m.size() - 2] ^= 4; }, false);
	cl("one wrong byte", 2, nop, [](str& m, int k) { if (k == 2) m[5000] ^= 4; }, false);
	cl("wrong offset", 2, nop, [](str& m, int) { m[8] ^= 16; }, false);
	cl("wrong size", 2, nop, [](str& m, int) { m[16] ^= 1; }, false);
	cl("wrong begin id", 2, nop, [](str& m, int) { m[4] = 5; }, false);
	cl("wrong end id", 2, nop, [](str& m, int) { m[m.size() - 8] = 4; }, false);
	cl("closed early", 2, nop, [](str& m, int k) { if (k == 1) m.resize(m.size() - 30); }, false);
	cl("closed before the end message", 2, nop, [](str& m, int k) { if (k == 2) m.resize(m.size() - sizeof(FT_ReplyFileFragment_End)); }, false);
	cl("data after the end", 2, nop, [](str& m, int) { m += str(100, 'x'); }, true);
	cl("data after a wrong begin", 2, nop, [](str& m, int) { m[4] = 9; m += str(100000, 'x'); }, false);
	cl("no threads", 0, nop, same, false);
	cl("negative threads", -5, nop, same, false);
	cl("negative name length", 2, [](str& m) { ((FT_ReplyFileInfo*)&m[0])->nameLength = -1; }, same, false);
	cl("name longer than the message", 2, [](str& m) { ((FT_ReplyFileInfo*)&m[0])->nameLength = 1000; }, same, false);
	cl("name without terminator", 2, [](str& m) { m[m.size() - 1] = 'x'; }, same, false);
	cl("information cut", 2, [](str& m) { ((FT_Head*)&m[0])->size = 12; }, same, false);
	cl("negative information size", 2, [](str& m) { ((FT_Head*)&m[0])->size = -1; }, same, false);
	cl("a file too big for its fragments", 1, [](str& m) { ((FT_ReplyFileInfo*)&m[0])->fileSize = (size_t)1 << 32; }, same, false);
	cl("a part that cannot be written", 2, [](str&) { if (mkdir("dst/file.bin.part0", 0755)) {} }, same, false);
	all.push_back({"limit", [=] { client_side("a part that cannot be written to its end", d, 2, nop, same, false, 40000); }});
	all.push_back({"limit", [=] { client_side("a file that cannot be written to its end", d, 2, nop, same, false, 100000, 3); }});
	std::vector<pid_t> ps;
	for (size_t i = 0; i < all.size(); i++) {
		str dir = std::to_string(i); mkdir(dir.c_str(), 0755);
		ps.push_back(spawn([&] { setpgid(0, 0); name = all[i].first; if (chdir(dir.c_str())) return 3; all[i].second(); return 0; }));
	}
	int bad = 0;
	for (auto p : ps) { int r = ended(p, 40000); if (r == -1) printf("MISMATCH a scenario does not end\n"); if (r) bad = 1; kill(-p, SIGKILL); }
	if (chdir("/")) {}
	str rm = str("rm -rf ") + t; if (system(rm.c_str())) {}
	return bad;
}
#endif
