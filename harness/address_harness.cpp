// replays address properties against the real code
#include <cy_core.h>
#include <cy_network.h>
#include <random>
#include <unistd.h>
namespace cyclone { void disk_log(LOG_LEVEL, const char*, ...) {} }
using namespace cyclone;
#define CHECK(c, ...) do { if (!(c)) { printf("MISMATCH " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
static sockaddr_in mk(uint32_t a, uint16_t p) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_addr.s_addr = htonl(a); s.sin_port = htons(p); return s; }
static void holds(const Address& x, uint32_t a, uint16_t p, const char* what) {
	char t[32]; snprintf(t, 32, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255);
	sockaddr_in w = mk(a, p);
	CHECK(x.get_port() == p, "%s(%s:%u): get_port is %u", what, t, p, x.get_port());
	CHECK(!strcmp(x.get_ip(), t), "%s(%s:%u): get_ip is %s", what, t, p, x.get_ip());
	CHECK(!memcmp(&w, &x.get_sockaddr_in(), sizeof w), "%s(%s:%u): socket address differs", what, t, p);
}
int main(int c, char** v) {
	unsigned seed = c > 2 ? atoi(v[2]) : 1;
	std::mt19937 g(seed);
	std::vector<uint32_t> as = {0, 1, 0x7f000001, 0x0100007f, 0xffffffff, 0xc0a80101, 0x0a000001, 0x01000000, 0x00000100, 0x80000000, 0x7fffffff, 100u << 24 | 100u << 16 | 100u << 8 | 100};
	std::vector<uint16_t> ps = {0, 1, 80, 255, 256, 257, 0x1234, 0x3412, 0x7fff, 0x8000, 0xff00, 0xffff};
	for (int k = 0; k < 12; k++) { as.push_back(g()); ps.push_back((uint16_t)g()); }
	std::vector<Address> all;
	for (auto a : as) for (auto p : ps) {
		char t[32]; snprintf(t, 32, "%u.%u.%u.%u", a >> 24, a >> 16 & 255, a >> 8 & 255, a & 255);
		for (int fill : {0, 0xff, 0x41}) {
			alignas(Address) char m[sizeof(Address)]; memset(m, fill, sizeof m); Address* q = new (m) Address(t, p); holds(*q, a, p, "Address(text)");
			memset(m, fill, sizeof m); q = new (m) Address(mk(a, p)); holds(*q, a, p, "Address(sockaddr)");
			alignas(Address) char n[sizeof(Address)]; memset(n, fill, sizeof n); Address* r = new (n) Address(*q); holds(*r, a, p, "copy");
			Address z; z = *q; holds(z, a, p, "assignment"); z = z; holds(z, a, p, "self assignment");
			memset(m, fill, sizeof m); q = new (m) Address(p, true); holds(*q, 0x7f000001, p, "Address(loopback)");
			memset(m, fill, sizeof m); q = new (m) Address(p, false); holds(*q, 0, p, "Address(any)");
			memset(m, fill, sizeof m); q = new (m) Address("no address", p); holds(*q, 0, p, "Address(bad text)");
			memset(m, fill, sizeof m); q = new (m) Address(true, -1); sockaddr_in zero; memset(&zero, 0, sizeof zero); CHECK(!memcmp(&zero, &q->get_sockaddr_in(), sizeof zero) && !strcmp(q->get_ip(), "0.0.0.0"), "Address of an unconnected socket is not the zero address");
		}
		all.push_back(Address(t, p));
	}
	std::hash<Address> H;
	for (size_t k = 0; k < 400000; k++) {
		const Address &a = all[g() % all.size()], &b = g() % 3 ? all[g() % all.size()] : a, &d = all[g() % all.size()];
		bool same = !memcmp(&a.get_sockaddr_in(), &b.get_sockaddr_in(), 8);
		CHECK((a == b) == same && (b == a) == same, "equality of %s:%u and %s:%u", a.get_ip(), a.get_port(), b.get_ip(), b.get_port());
		CHECK((int)(a == b) + (int)(a < b) + (int)(b < a) == 1, "order and equality of %s:%u and %s:%u: == %d, < %d, > %d", a.get_ip(), a.get_port(), b.get_ip(), b.get_port(), a == b, a < b, b < a);
		CHECK(!(a < b && b < d) || a < d, "order not transitive: %s:%u %s:%u %s:%u", a.get_ip(), a.get_port(), b.get_ip(), b.get_port(), d.get_ip(), d.get_port());
		sockaddr_in x = a.get_sockaddr_in(); memset((char*)&x + 8, (int)g(), 8); Address e(x);
		CHECK(!(a == e) || H(a) == H(e), "equal addresses hash differently: %s:%u", a.get_ip(), a.get_port());
	}
	return 0;
}
