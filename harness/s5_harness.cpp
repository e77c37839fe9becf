// replays SOCKS5 byte strings against the real parsers and an RFC 1928 oracle
#include <cy_core.h>
#include <cy_network.h>
#include <s5_protocol.h>
#include <netdb.h>
#include <string.h>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <random>
#include <chrono>
using namespace cyclone;
namespace cyclone { void disk_log(LOG_LEVEL, const char*, ...) {} }
typedef std::vector<uint8_t> B;
static std::mt19937_64 rng;
static uint64_t rnd() { return rng(); }
static std::string asked; static bool resolvable; static uint32_t res_ip; static int lists;
extern "C" int getaddrinfo(const char* n, const char*, const struct addrinfo*, struct addrinfo** out) {
	asked = n; *out = nullptr;
	if (!*n || !resolvable) return EAI_NONAME;
	addrinfo* head = nullptr;
	bool v6first = res_ip & 1;
	for (int i = 0; i < 2; i++) {
		addrinfo* a = new addrinfo(); sockaddr_in* s = (sockaddr_in*)calloc(1, 64);
		bool v4 = (i == 0) == v6first; a->ai_family = v4 ? AF_INET : AF_INET6; s->sin_family = (sa_family_t)a->ai_family; s->sin_addr.s_addr = v4 ? res_ip : 0x01010101; s->sin_port = 0x7777; a->ai_addr = (sockaddr*)s; a->ai_next = head; head = a;
	}
	*out = head; lists++; return 0;
}
extern "C" void freeaddrinfo(struct addrinfo* a) { lists--; while (a) { auto n = a->ai_next; free(a->ai_addr); delete a; a = n; } }
static std::string err;
static void bad(const std::string& s) { if (err.empty()) err = s; }
static B content(RingBuf& r) { B b(r.size()); if (!b.empty()) r.peek(0, b.data(), b.size()); return b; }
static void fill(RingBuf& r, const B& d, int rot) {
	B z((size_t)rot + 1, 0xEE); r.memcpy_into(z.data(), z.size()); if (!d.empty()) { r.discard(z.size() - 1); r.memcpy_into(d.data(), d.size()); r.discard(1); } else r.discard(z.size());
}
static std::string str(const char* op, const B& d) { std::ostringstream o; o << op; for (auto x : d) o << " " << (int)x; return o.str(); }

static void handshake(const B& d, int rot) {
	RingBuf r; fill(r, d, rot);
	int32_t x = s5_get_handshake(r);
	size_t n = d.size(), need = n >= 2 ? (size_t)d[1] + 2 : 0;
	bool none = false; if (n >= 2) for (size_t i = 2; i < need && i < n; i++) none |= d[i] == 0;
	bool inc = n == 0 || (d[0] == 5 && (n == 1 || (d[1] && n < need)));
	bool good = n >= 2 && d[0] == 5 && n >= need && none;
	if (x == 0 && !good) bad("an invalid handshake is accepted");
	if (good && n == need && x != 0) bad("a valid handshake is not accepted");
	if (inc && x != S5ERR_NEED_MORE_DATA) bad("an incomplete handshake is not reported as incomplete");
	if (n >= 3 && !inc && x == S5ERR_NEED_MORE_DATA) bad("a complete or malformed handshake is reported as incomplete");
	if (x == S5ERR_NEED_MORE_DATA && content(r) != d) bad("an incomplete handshake is consumed");
	if (x == 0 && content(r) != B(d.begin() + need, d.end())) bad("an accepted handshake is not consumed exactly");
}

static void connect_(const B& d, int rot) {
	RingBuf r; fill(r, d, rot);
	Address a(4321, true); std::string dom = "?"; asked = "?";
	for (int t = 0; t < 2; t++) {
		resolvable = t == 0; res_ip = (uint32_t)rnd(); lists = 0;
		RingBuf q; fill(q, d, rot); Address b(4321, true); std::string dm = "?"; asked = "?";
		int32_t x = s5_get_connect_request(q, b, dm);
		size_t n = d.size();
		bool hd = n >= 4 && d[0] == 5 && d[1] == 1, v4 = hd && d[3] == 1, dn = hd && d[3] == 3;
		size_t need = v4 ? 10 : dn && n >= 5 ? 7 + (size_t)d[4] : 0;
		bool inc = n == 0 || (d[0] == 5 && (n == 1 || (d[1] == 1 && (n < 4 || (v4 && n < 10) || (dn && (n == 4 || n < need))))));
		if (inc && x != S5ERR_NEED_MORE_DATA) bad("an incomplete request is not reported as incomplete");
		if (n >= 4 && !inc && x == S5ERR_NEED_MORE_DATA) bad("a complete or malformed request is reported as incomplete");
		if (x == S5ERR_NEED_MORE_DATA && content(q) != d) bad("an incomplete request is consumed");
		if (lists) bad("a resolver result is not released exactly once");
		bool complete = need && n >= need;
		if (x == 0 && !complete) { bad("an invalid request is accepted"); return; }
		if (!complete) continue;
		if (v4) {
			if (n == need && x != 0) bad("a valid IPv4 request is not accepted");
			if (x == 0 && (memcmp(&b.get_sockaddr_in().sin_addr, &d[4], 4) || memcmp(&b.get_sockaddr_in().sin_port, &d[8], 2) || b.get_sockaddr_in().sin_family != AF_INET || dm != b.get_ip())) bad("an IPv4 request does not yield its address and port");
		} else {
			std::string name(d.begin() + 5, d.begin() + 5 + d[4]);
			bool nul = name.find('\0') != std::string::npos, ok = !nul && !name.empty() && resolvable;
			if (x == 0 && !ok) bad("a malformed or unresolvable name is accepted");
			if (n == need && ok && x != 0) bad("a valid name request is not accepted");
			if (x == 0 && (asked != name || dm != name)) bad("another name than the requested one is used");
			if (x == 0 && (b.get_sockaddr_in().sin_addr.s_addr != res_ip || memcmp(&b.get_sockaddr_in().sin_port, &d[need - 2], 2))) bad("a name request does not yield the resolved address and its port");
		}
		if (x == 0 && content(q) != B(d.begin() + need, d.end())) bad("an accepted request is not consumed exactly");
	}
}

static void acts() {
	RingBuf r; B pre(rnd() % 5, 9); if (!pre.empty()) r.memcpy_into(pre.data(), pre.size());
	s5_build_handshake_act(r); B w = pre; w.push_back(5); w.push_back(0);
	if (content(r) != w) bad("the handshake reply is wrong");
	sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = (uint32_t)rnd(); s.sin_port = (uint16_t)rnd();
	uint8_t rep = (uint8_t)rnd(); s5_build_connect_act(r, rep, Address(s));
	for (uint8_t x : B{5, rep, 0, 1}) w.push_back(x);
	for (int i = 0; i < 4; i++) w.push_back(((uint8_t*)&s.sin_addr)[i]);
	for (int i = 0; i < 2; i++) w.push_back(((uint8_t*)&s.sin_port)[i]);
	if (content(r) != w) bad("the connect reply is wrong");
}

int main(int argc, char** argv) {
	std::string mode = argv[1], op;
	if (mode == "case") {
		std::string l; std::getline(std::cin, l); std::istringstream i(l); i >> op; B d; int x; while (i >> x) d.push_back((uint8_t)x);
		for (int rot = 0; rot < 1100 && err.empty(); rot += 1 + rot / 3) op == "handshake" ? handshake(d, rot) : connect_(d, rot);
		if (!err.empty()) { std::cout << "MISMATCH " << err << std::endl; return 1; }
		return 0;
	}
	rng.seed(strtoull(argv[2], 0, 10));
	double secs = atof(argv[3]);
	auto t0 = std::chrono::steady_clock::now();
	FILE* lf = fopen((std::string(argv[0]) + ".last").c_str(), "w");
	for (uint64_t k = 0; std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; k++) {
		B d; int rot = (int)(rnd() % 3 ? rnd() % 1100 : 0); const char* o = "acts";
		switch (rnd() % 5) {
		case 0: acts(); break;
		case 1: { o = "handshake"; int nm = rnd() % 3 ? rnd() % 6 : rnd() % 256; d = {5, (uint8_t)nm}; for (int i = 0; i < nm; i++) d.push_back((uint8_t)(rnd() % 4 ? 1 + rnd() % 255 : 0)); if (rnd() % 8 == 0 && nm) { for (int i = 0; i < nm; i++) d[2 + i] = 2; d[2 + (rnd() & 1 ? nm - 1 : rnd() % nm)] = 0; } break; }
		case 2: o = "connect"; d = {5, 1, (uint8_t)(rnd() & 1 ? 0 : rnd()), 1}; for (int i = 0; i < 6; i++) d.push_back((uint8_t)rnd()); break;
		case 3: { o = "connect"; int l = rnd() % 3 ? rnd() % 8 : rnd() % 256; d = {5, 1, 0, 3, (uint8_t)l}; for (int i = 0; i < l; i++) d.push_back((uint8_t)(rnd() % 40 ? 'a' + rnd() % 26 : rnd())); d.push_back((uint8_t)rnd()); d.push_back((uint8_t)rnd()); break; }
		default: o = rnd() & 1 ? "connect" : "handshake"; for (int i = rnd() % 12; i; i--) d.push_back((uint8_t)(rnd() % 6)); break;
		}
		if (*o != 'a') {
			if (rnd() % 3 == 0 && !d.empty()) d.resize(rnd() % d.size());
			if (rnd() % 6 == 0) for (int i = 1 + rnd() % 3; i; i--) d.push_back((uint8_t)rnd());
			if (rnd() % 6 == 0 && d.size() > 3) d[rnd() % 4] = (uint8_t)(rnd() % 7);
			rewind(lf); fprintf(lf, "%s\n", str(o, d).c_str()); fflush(lf);
			if (*o == 'h') handshake(d, rot); else connect_(d, rot);
		}
		if (!err.empty()) { std::cout << "MISMATCH " << err << "\n" << str(o, d) << std::endl; return 1; }
	}
	return 0;
}
