// Native replay of RingBuf contract cases against the real code (built with AddressSanitizer).
// A case is one line:  op end read write count a b c  [data bytes]
// The buffer is put into the given representation, the operation is run, and the result is compared with a
// byte-sequence model.  Exit status 1 and a MISMATCH line when the real code disagrees.
#include <cy_core.h>
#include <cy_crypt.h>
#include <sys/uio.h>
#include <deque>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <random>
#include <chrono>
#include <cstdarg>
using namespace cyclone;
typedef std::vector<uint8_t> Bytes;
static std::string g_err;
static void fail(const char* fmt, ...) { char b[512]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); if (g_err.empty()) g_err = b; }

// ---- scripted kernel
static ssize_t g_ret; static Bytes g_wire; static size_t g_room; static int g_zero_iov; static size_t g_first_free; static bool g_called;
extern "C" ssize_t readv(int, const struct iovec* v, int n) {
	g_called = true; g_room = 0; for (int i = 0; i < n; i++) { g_room += v[i].iov_len; }
	if (n == 0 || g_room == 0) g_zero_iov = 1;
	if (g_ret <= 0) { errno = g_ret < 0 ? EAGAIN : 0; return g_ret; }
	size_t k = std::min((size_t)g_ret, g_room); size_t done = 0;
	for (int i = 0; i < n && done < k; i++) for (size_t j = 0; j < v[i].iov_len && done < k; j++) { uint8_t c = (uint8_t)(done * 7 + 13); ((uint8_t*)v[i].iov_base)[j] = c; done++; }
	g_ret = (ssize_t)k; return (ssize_t)k;
}
extern "C" ssize_t writev(int, const struct iovec* v, int n) {
	g_called = true; g_room = 0; for (int i = 0; i < n; i++) g_room += v[i].iov_len;
	g_wire.clear();
	for (int i = 0; i < n; i++) for (size_t j = 0; j < v[i].iov_len; j++) g_wire.push_back(((uint8_t*)v[i].iov_base)[j]);
	if (g_ret <= 0) { errno = EAGAIN; return g_ret; }
	size_t k = std::min((size_t)g_ret, g_room); g_ret = (ssize_t)k; return (ssize_t)k;
}

struct Case { std::string op; size_t end = 1, rd = 0, wr = 0; unsigned long long count = 0, a = 0, b = 0, c = 0; Bytes data; };
static std::string str(const Case& c) { std::ostringstream o; o << c.op << " " << c.end << " " << c.rd << " " << c.wr << " " << c.count << " " << c.a << " " << c.b << " " << c.c; for (auto x : c.data) o << " " << (int)x; return o.str(); }

static void put(RingBuf& r, size_t end, size_t rd, size_t wr, const Bytes& data) {
	free(r.M_BUF); r.M_BUF = (uint8_t*)malloc(end); r.M_END = end; r.M_READ = rd; r.M_WRITE = wr;
	for (size_t i = 0; i < end; i++) r.M_BUF[i] = i < data.size() ? data[i] : (uint8_t)(i * 31 + 5);
}
static Bytes content(RingBuf& r) {
	Bytes v; if (r.M_READ >= r.M_END || r.M_WRITE >= r.M_END) { fail("invariant broken: end=%zu read=%zu write=%zu", r.M_END, r.M_READ, r.M_WRITE); return v; }
	for (size_t i = r.M_READ; i != r.M_WRITE; i = (i + 1) % r.M_END) v.push_back(r.M_BUF[i]); return v;
}
static uint32_t adler_def(const uint8_t* p, size_t n) { uint32_t a = 1, b = 0; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return (b << 16) | a; }
static void eq(const Bytes& got, const Bytes& want, const char* what) {
	if (got.size() != want.size()) { fail("%s: %zu bytes, expected %zu", what, got.size(), want.size()); return; }
	for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) { fail("%s: byte %zu is %u, expected %u", what, i, got[i], want[i]); return; }
}
static void consistent(RingBuf& r) {
	size_t n = content(r).size();
	if (r.size() != n) fail("size() = %zu, content has %zu", r.size(), n);
	if (r.capacity() != r.M_END - 1) fail("capacity() = %zu", r.capacity());
	if (r.get_free_size() != r.capacity() - n) fail("free size %zu, expected %zu", r.get_free_size(), r.capacity() - n);
	if (r.empty() != (n == 0)) fail("empty() wrong");
	if (r.full() != (n == r.capacity())) fail("full() wrong");
}
static bool run(const Case& c) {
	g_err.clear();
	RingBuf r(8); put(r, c.end, c.rd, c.wr, c.data);
	Bytes v = content(r); size_t cap = r.M_END - 1; std::string op = c.op;
	consistent(r);
	if (op == "into") {
		Bytes s(c.count); for (size_t i = 0; i < s.size(); i++) s[i] = (uint8_t)(i * 17 + 3);
		uint8_t* p = (uint8_t*)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size());
		r.memcpy_into(p, s.size()); free(p);
		Bytes w = v; w.insert(w.end(), s.begin(), s.end()); eq(content(r), w, "content after copy-in"); if (r.capacity() < cap) fail("capacity shrank");
	} else if (op == "out") {
		size_t k = std::min((size_t)c.count, v.size()); uint8_t* d = (uint8_t*)malloc(k ? k : 1);
		size_t got = r.memcpy_out(d, c.count); if (got != k) fail("copy-out returned %zu, expected %zu", got, k);
		eq(Bytes(d, d + k), Bytes(v.begin(), v.begin() + k), "bytes copied out"); free(d);
		eq(content(r), Bytes(v.begin() + k, v.end()), "content after copy-out"); if (r.capacity() != cap) fail("capacity changed");
	} else if (op == "move") {
		RingBuf d(8); put(d, c.a ? c.a : 8, c.b, c.c, Bytes()); Bytes dv = content(d); size_t k = std::min((size_t)c.count, v.size());
		size_t got = r.moveto(d, c.count); if (got != k) fail("move returned %zu, expected %zu", got, k);
		eq(content(r), Bytes(v.begin() + k, v.end()), "source after move"); dv.insert(dv.end(), v.begin(), v.begin() + k); eq(content(d), dv, "destination after move"); consistent(d);
	} else if (op == "discard") {
		size_t k = std::min((size_t)c.count, v.size()); size_t got = r.discard(c.count); if (got != k) fail("discard returned %zu, expected %zu", got, k);
		eq(content(r), Bytes(v.begin() + k, v.end()), "content after discard");
	} else if (op == "resize") {
		r.resize(c.count); eq(content(r), v, "content after resize"); if (r.capacity() < c.count || r.capacity() < cap) fail("capacity %zu after resize(%llu), was %zu", r.capacity(), c.count, cap);
	} else if (op == "normalize") {
		uint8_t* p = r.normalize(); eq(content(r), v, "content after normalize"); if (r.capacity() != cap) fail("capacity changed");
		if (p < r.M_BUF || p + v.size() > r.M_BUF + r.M_END) fail("normalized pointer outside the storage"); else eq(Bytes(p, p + v.size()), v, "normalized bytes");
	} else if (op == "reset") { r.reset(); eq(content(r), Bytes(), "content after reset");
	} else if (op == "ctor") { RingBuf n(c.count); if (n.capacity() != c.count || n.size() != 0 || !n.empty()) fail("new buffer: capacity %zu size %zu", n.capacity(), n.size()); consistent(n);
	} else if (op == "search") {
		ssize_t want = -1; for (size_t i = (size_t)c.a; i < v.size(); i++) if (v[i] == (uint8_t)c.b) { want = (ssize_t)i; break; }
		ssize_t got = r.search((size_t)c.a, (uint8_t)c.b); if (got != want) fail("search(%llu, %u) returned %zd, expected %zd", c.a, (unsigned)(uint8_t)c.b, got, want); eq(content(r), v, "content after search");
	} else if (op == "peek") {
		size_t off = (size_t)c.a; size_t k = off > v.size() ? 0 : std::min((size_t)c.count, v.size() - off); uint8_t* d = (uint8_t*)malloc(k ? k : 1);
		size_t got = r.peek(off, d, c.count); if (got != k) fail("peek(%llu, %llu) returned %zu, expected %zu", c.a, c.count, got, k); else eq(Bytes(d, d + k), Bytes(v.begin() + (k ? off : 0), v.begin() + (k ? off + k : 0)), "peeked bytes"); free(d); eq(content(r), v, "content after peek");
		if (r.peek(off, nullptr, c.count) != 0) fail("peek into null destination");
	} else if (op == "sum") {
		size_t off = (size_t)c.a, n = (size_t)c.count; uint32_t want = 1; if (off <= v.size() && n <= v.size() - off) want = adler_def(v.data() + off, n);
		uint32_t got = r.checksum(off, n); if (got != want) fail("checksum(%llu, %llu) returned %x, expected %x", c.a, c.count, got, want); eq(content(r), v, "content after checksum");
	} else if (op == "rsock") {
		bool extra = c.a != 0; g_ret = (ssize_t)(long long)c.count; g_called = false; g_zero_iov = 0; ssize_t in = g_ret; size_t room = cap - v.size();
		ssize_t got = r.read_socket(0, extra);
		if (!g_called) { if (room || extra) fail("no read was made"); }
		else { if (g_zero_iov) fail("a read was offered zero bytes of room"); if (got != g_ret) fail("read_socket returned %zd, kernel returned %zd", got, g_ret); }
		if (g_room < room && g_called) fail("read offered %zu bytes, %zu were free", g_room, room);
		Bytes w = v; if (in > 0 && g_called) for (ssize_t i = 0; i < g_ret; i++) w.push_back((uint8_t)(i * 7 + 13)); eq(content(r), w, "content after socket read");
	} else if (op == "wsock") {
		if (v.empty()) return true; g_ret = (ssize_t)(long long)c.count; ssize_t in = g_ret; ssize_t got = r.write_socket(0);
		eq(g_wire, v, "bytes offered to the kernel"); if (got != g_ret) fail("write_socket returned %zd, kernel accepted %zd", got, g_ret);
		size_t k = in > 0 ? (size_t)g_ret : 0; eq(content(r), Bytes(v.begin() + k, v.end()), "content after socket write");
	}
	if (g_err.empty()) consistent(r);
	return g_err.empty();
}
static bool report(const Case& c) { std::cout << "CASE " << str(c) << std::endl; if (run(c)) { std::cout << "OK" << std::endl; return true; } std::cout << "MISMATCH " << g_err << std::endl; return false; }
int main(int argc, char** argv) {
	if (argc >= 2 && std::string(argv[1]) == "case") {
		std::string line; bool ok = true;
		while (std::getline(std::cin, line)) { std::istringstream i(line); Case c; i >> c.op >> c.end >> c.rd >> c.wr >> c.count >> c.a >> c.b >> c.c; int x; while (i >> x) c.data.push_back((uint8_t)x); ok = report(c) && ok; if (!ok) return 1; }
		return 0;
	}
	unsigned seed = atoi(argv[2]); double secs = atof(argv[3]); std::vector<std::string> ops; for (int i = 4; i < argc; i++) ops.push_back(argv[i]);
	std::mt19937_64 g(seed); auto t0 = std::chrono::steady_clock::now(); unsigned long n = 0;
	FILE* last = fopen((std::string(argv[0]) + ".last").c_str(), "w");
	auto rnd = [&](unsigned long long k) { return k ? g() % k : 0; };
	while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		for (int rep = 0; rep < 200; rep++, n++) {
			Case c; c.op = ops[rnd(ops.size())]; c.end = rnd(20) == 0 ? 1 + rnd(3000) : 1 + rnd(12); c.rd = rnd(c.end); c.wr = rnd(c.end);
			unsigned long long cs[] = { rnd(16), rnd(16), rnd(40), rnd(3000), (unsigned long long)1 << rnd(12), ~0ull - rnd(16), c.end, c.end - 1 };
			c.count = cs[rnd(8)];
			if (c.op == "into" || c.op == "resize" || c.op == "ctor") { if (c.count > 70000) c.count = rnd(64); if (rnd(400) == 0) c.count = 65000 + rnd(2000); }
			if (c.op == "move") { c.a = 1 + rnd(12); c.b = rnd(c.a); c.c = rnd(c.a); }
			if (c.op == "search" || c.op == "peek" || c.op == "sum") { unsigned long long os[] = { 0, 0, rnd(14), rnd(14), c.end, ~0ull - rnd(16) }; c.a = os[rnd(6)]; }
			if (c.op == "search") { for (size_t i = 0; i < c.end; i++) c.data.push_back((uint8_t)rnd(3)); c.b = rnd(4); }
			if (c.op == "rsock") { c.a = rnd(4) != 0; long long rs[] = { -1, 0, (long long)rnd(16), (long long)rnd(16), (long long)rnd(70000), (long long)(c.end) }; c.count = (unsigned long long)rs[rnd(6)]; }
			if (c.op == "wsock") { long long rs[] = { -1, 0, (long long)rnd(16), (long long)rnd(16), (long long)c.end }; c.count = (unsigned long long)rs[rnd(5)]; }
			rewind(last); fprintf(last, "%s\n", str(c).c_str()); fflush(last);
			if (!run(c)) { report(c); return 1; }
		}
	}
	std::cout << "EXPLORED " << n << std::endl; return 0;
}
