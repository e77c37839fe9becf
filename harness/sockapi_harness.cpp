// replays socket helper calls against the real code with recorded, scripted system calls
#include <cy_core.h>
#include <cy_event.h>
#include <dlfcn.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <string>
#include <vector>
#include <map>
#include <random>
#include <functional>
namespace cyclone { void disk_log(LOG_LEVEL, const char*, ...) {} }
using namespace cyclone;
typedef std::vector<long> A;
struct Call { std::string n; A a; std::string mem; };
static std::vector<Call> log_; static std::vector<int> script; static size_t pos; static bool on; static int serr;
static std::map<int, std::pair<int,int>> fds; static int nextfd = 1000; static bool badclose;
static std::string text_;
static int step() { int r = pos < script.size() ? script[pos] : 0; pos++; if (r) errno = r; return r; }
static std::string mem(const void* p, size_t n) { return std::string((const char*)p, n); }
extern "C" {
int socket(int d, int t, int p) { if (!on) { static auto f = (int(*)(int,int,int))dlsym(RTLD_NEXT, "socket"); return f(d,t,p);} int e = step(); log_.push_back({"socket",{d,t,p},""}); if (e) return -1; fds[nextfd] = {2, 0}; return nextfd++; }
int close(int fd) { if (!on) { static auto f = (int(*)(int))dlsym(RTLD_NEXT, "close"); return f(fd);} if (!fds.count(fd)) badclose = true; fds.erase(fd); log_.push_back({"close",{fd},""}); return step() ? -1 : 0; }
int fcntl(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); if (!on) return 0; int e = step(); log_.push_back({"fcntl",{fd,cmd},""}); if (e) return -1;
	if (cmd == F_GETFL) return fds[fd].first; if (cmd == F_SETFL) { fds[fd].first = (int)a; return 0; } if (cmd == F_GETFD) return fds[fd].second; if (cmd == F_SETFD) { fds[fd].second = (int)a; return 0; } return 0; }
int fcntl64(int fd, int cmd, ...) { va_list v; va_start(v, cmd); long a = va_arg(v, long); va_end(v); return fcntl(fd, cmd, a); }
int bind(int s, const struct sockaddr* a, socklen_t n) { int e = step(); log_.push_back({"bind",{s,(long)n},mem(a,16)}); return e ? -1 : 0; }
int connect(int s, const struct sockaddr* a, socklen_t n) { int e = step(); log_.push_back({"connect",{s,(long)n},mem(a,16)}); return e ? -1 : 0; }
int listen(int s, int b) { int e = step(); log_.push_back({"listen",{s},""}); return e ? -1 : 0; }
int shutdown(int s, int h) { int e = step(); log_.push_back({"shutdown",{s,h},""}); return e ? -1 : 0; }
int accept(int s, struct sockaddr* a, socklen_t* n) { int e = step(); log_.push_back({"accept",{s, a ? (long)*n : 0},""}); if (e) return -1; if (a) { memset(a, 0x5a, 16); *n = 16; } fds[nextfd] = {2, 0}; return nextfd++; }
int setsockopt(int s, int l, int o, const void* v, socklen_t n) { int e = step(); log_.push_back({"setsockopt",{s,l,o,(long)n},mem(v,n)}); return e ? -1 : 0; }
int getsockopt(int s, int l, int o, void* v, socklen_t* n) { int e = step(); log_.push_back({"getsockopt",{s,l,o,(long)*n},""}); if (e) return -1; *(int*)v = serr; return 0; }
int getsockname(int s, struct sockaddr* a, socklen_t* n) { int e = step(); log_.push_back({"getsockname",{s},""}); if (e) return -1; memset(a, 0x6b, 16); *n = 16; return 0; }
int getpeername(int s, struct sockaddr* a, socklen_t* n) { int e = step(); log_.push_back({"getpeername",{s},""}); if (e) return -1; memset(a, 0x7c, 16); *n = 16; return 0; }
int pipe2(int* f, int fl) { int e = step(); log_.push_back({"pipe2",{fl},""}); if (e) return -1; for (int k = 0; k < 2; k++) { f[k] = nextfd; fds[nextfd++] = {fl & O_NONBLOCK, fl & O_CLOEXEC ? 1 : 0}; } return 0; }
}
static int fails;
#define CHECK(c, ...) do { if (!(c)) { printf("MISMATCH " __VA_ARGS__); printf("\n"); return 1; } } while (0)
static void begin(std::vector<int> sc) { log_.clear(); script = sc; pos = 0; fds.clear(); fds[77] = {0x8402, 0}; badclose = false; on = true; errno = 0; }
static int one(const char* n, A a, const char* what) { on = false; CHECK(log_.size() == 1 && log_[0].n == n && log_[0].a == a, "%s: wrong system call", what); return 0; }
#define TRY(x) do { int _r = (x); on = false; if (_r) return _r; } while (0)
#define DO(expr) ([&]{ auto _v = (expr); on = false; return _v; }())
static int all() {
	sockaddr_in ad; memset(&ad, 0x31, sizeof ad);
	std::vector<int> errs = {0, EINTR, EAGAIN, EINPROGRESS, EISCONN, EBADF, EINVAL, ECONNREFUSED, EMFILE, ENOBUFS};
	for (int e : errs) {
		for (int udp = 0; udp < 2; udp++) { begin({e}); int r = DO(socket_api::create_socket(udp)); CHECK(log_.size() == 1 && log_[0].a[0] == AF_INET && log_[0].a[1] == (udp ? SOCK_DGRAM : SOCK_STREAM) && (r == -1) == (e != 0), "create_socket(%d) with errno %d", udp, e); }
		begin({e}); socket_api::close_socket(77); on = false; CHECK(log_.size() == 1 && log_[0].n == "close" && !badclose, "close_socket");
		for (int en = 0; en < 2; en++) for (int first : {0x8402, 0x8402 | O_NONBLOCK}) for (int k = 0; k < 2; k++) {
			begin(k ? std::vector<int>{0, e} : std::vector<int>{e}); fds[77] = {first, k};
			bool r = DO(socket_api::set_nonblock(77, en));
			int w = en ? first | O_NONBLOCK : first & ~O_NONBLOCK;
			CHECK(r == (e == 0) && fds[77].first == (r ? w : first) && fds[77].second == k, "set_nonblock(%d) from flags %x, errno %d at call %d: result %d flags %x", en, first, e, k, r, fds[77].first);
			begin(k ? std::vector<int>{0, e} : std::vector<int>{e}); fds[77] = {first, 4 | k};
			r = DO(socket_api::set_close_onexec(77, en));
			w = en ? 4 | 1 : 4;
			CHECK(r == (e == 0) && fds[77].second == (r ? w : (4 | k)) && fds[77].first == first, "set_close_onexec(%d), errno %d at call %d: result %d flags %x", en, e, k, r, fds[77].second);
		}
		begin({e}); bool r = DO(socket_api::bind(77, ad)); CHECK(r == (e == 0) && log_.size() == 1 && log_[0].mem == mem(&ad, 16) && log_[0].a == (A{77, 16}), "bind with errno %d", e);
		begin({e}); r = DO(socket_api::connect(77, ad)); CHECK(r == (e == 0 || e == EINPROGRESS || e == EINTR || e == EISCONN) && log_.size() == 1 && log_[0].mem == mem(&ad, 16), "connect with errno %d reports %d", e, r);
		begin({e}); r = DO(socket_api::listen(77)); CHECK(r == (e == 0) && log_.size() == 1, "listen with errno %d", e);
		begin({e}); r = DO(socket_api::shutdown(77)); CHECK(r == (e == 0) && log_.size() == 1 && log_[0].a == (A{77, SHUT_RDWR}), "shutdown with errno %d", e);
		sockaddr_in o; memset(&o, 1, sizeof o);
		begin({e}); int f = DO(socket_api::accept(77, &o)); CHECK((f == -1) == (e != 0) && log_.size() == 1 && log_[0].a == (A{77, 16}) && (e || ((char*)&o)[3] == 0x5a), "accept with errno %d", e);
		begin({e}); f = DO(socket_api::accept(77, 0)); CHECK((f == -1) == (e != 0) && log_.size() == 1 && log_[0].a == (A{77, 0}), "accept without address");
		for (int b = 0; b < 2; b++) {
			struct { const char* n; bool (*f)(socket_t, bool); int l, o; } opts[] = {{"set_reuse_addr", socket_api::set_reuse_addr, SOL_SOCKET, SO_REUSEADDR}, {"set_reuse_port", socket_api::set_reuse_port, SOL_SOCKET, SO_REUSEPORT},
				{"set_keep_alive", socket_api::set_keep_alive, SOL_SOCKET, SO_KEEPALIVE}, {"set_nodelay", socket_api::set_nodelay, IPPROTO_TCP, TCP_NODELAY}};
			for (auto& x : opts) { begin({e}); r = DO(x.f(77, b)); CHECK(r == (e == 0) && log_.size() == 1 && log_[0].a == (A{77, x.l, x.o, 4}) && log_[0].mem == mem(&b, 4), "%s(%d) with errno %d: result %d", x.n, b, e, r); }
			for (int t : {0, 1, 255, 256, 32767, 32768, 65535}) { begin({e}); r = DO(socket_api::set_linger(77, b, (uint16_t)t)); struct linger li = {b, b ? t : 0}; CHECK(r == (e == 0) && log_.size() == 1 && log_[0].a == (A{77, SOL_SOCKET, SO_LINGER, 8}) && log_[0].mem == mem(&li, 8), "set_linger(%d,%d) with errno %d", b, t, e); }
		}
		char val[16] = "0123456789abcde";
		for (size_t n : {1, 4, 8, 16}) { begin({e}); r = DO(socket_api::setsockopt(77, 5, 9, val, n)); CHECK(r == (e == 0) && log_.size() == 1 && log_[0].a == (A{77, 5, 9, (long)n}) && log_[0].mem == mem(val, n), "setsockopt len %zu errno %d", n, e); }
		for (int se : {0, ECONNREFUSED, 111}) { serr = se; begin({e}); int g = DO(socket_api::get_socket_error(77)); CHECK(g == (e ? e : se) && log_[0].a == (A{77, SOL_SOCKET, SO_ERROR, 4}), "get_socket_error"); }
		memset(&o, 1, sizeof o); begin({e}); r = DO(socket_api::getsockname(77, o)); CHECK(r == (e == 0) && ((char*)&o)[7] == (e ? 1 : 0x6b), "getsockname with errno %d", e);
		memset(&o, 1, sizeof o); begin({e}); r = DO(socket_api::getpeername(77, o)); CHECK(r == (e == 0) && ((char*)&o)[7] == (e ? 1 : 0x7c), "getpeername with errno %d", e);
		errno = e; CHECK(socket_api::is_lasterror_WOULDBLOCK() == (e == EAGAIN), "is_lasterror_WOULDBLOCK at errno %d", e);
		errno = e; CHECK(socket_api::get_lasterror() == e, "get_lasterror");
		for (int k = 0; k < 12; k++) {   // construct_socket_pipe with a failure at step k
			std::vector<int> sc(k, 0); sc.push_back(e); begin(sc); fds.clear(); int h[2] = {5, 5};
			r = DO(Pipe::construct_socket_pipe(h)); 
			if (r) { CHECK(fds.size() == 2 && fds.count(h[0]) && fds.count(h[1]) && !badclose, "construct_socket_pipe step %d", k); for (auto& x : fds) CHECK((x.second.first & O_NONBLOCK) && (x.second.second & 1), "socket pipe end not non-blocking and close-on-exec"); }
			else CHECK(fds.empty() && h[0] == -1 && h[1] == -1 && !badclose, "construct_socket_pipe fails at step %d errno %d: %zu descriptors left, handles %d %d, bad close %d", k, e, fds.size(), h[0], h[1], badclose);
		}
		begin({e}); fds.clear(); { Pipe p; on = false; if (!e) { CHECK(fds.size() == 2 && fds.count(p.m_pipe_fd[0]) && fds.count(p.m_pipe_fd[1]), "pipe ends"); for (auto& x : fds) CHECK((x.second.first & O_NONBLOCK) && (x.second.second & 1), "pipe end not non-blocking and close-on-exec"); on = true; } } on = false; if (!e) CHECK(fds.empty() && !badclose, "pipe destructor");
	}
	for (uint32_t a : {0u, 0x01020304u, 0xffffffffu, 0x0a00000au, 0x7f000001u, 0xc0a80164u}) {
		in_addr i, j; i.s_addr = htonl(a); char want[32]; snprintf(want, 32, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255);
		for (socklen_t n = 0; n <= 20; n++) { char b[32]; memset(b, 'x', 32); bool r = socket_api::inet_ntop(i, b, n); bool fit = strlen(want) < n;
			CHECK(r == fit && (!r || !strcmp(b, want)), "inet_ntop(%s) into %u bytes", want, n); for (int k = n; k < 32; k++) CHECK(b[k] == 'x', "inet_ntop wrote past its buffer"); }
		j.s_addr = 5; CHECK(socket_api::inet_pton(want, j) && j.s_addr == i.s_addr, "inet_pton(%s)", want);
	}
	for (const char* t : {"", "1.2.3", "256.1.1.1", "a.b.c.d", "1.2.3.4.5", " 1.2.3.4"}) { in_addr j; j.s_addr = 5; CHECK(!socket_api::inet_pton(t, j) && j.s_addr == 5, "inet_pton(%s) accepted", t); }
	CHECK(socket_api::ntoh_16(0x1234) == 0x3412 && socket_api::ntoh_32(0x12345678) == 0x78563412, "byte order");
	int sv[2]; on = false; if (!socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { char b[16] = "hello"; CHECK(socket_api::write(sv[0], b, 5) == 5, "write"); char c[16]; CHECK(socket_api::read(sv[1], c, 16) == 5 && !memcmp(b, c, 5), "read"); ::close(sv[0]); ::close(sv[1]); }
	CHECK(socket_api::read(-1, 0, 0) == -1 && errno == EBADF, "read error"); CHECK(socket_api::write(-1, "", 0) == -1 && errno == EBADF, "write error");
	return 0;
}
int main() { return all(); }
