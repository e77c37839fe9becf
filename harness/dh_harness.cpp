// replays key exchanges against the real code; the reference multiplies with schoolbook 256-bit arithmetic
static int dv_rand(void);
#include <cy_crypt.h>
#include <stdlib.h>
#define rand dv_rand
#include DV_SOURCE
#undef rand
#include <string>
#include <random>
using namespace cyclone;
typedef unsigned __int128 u;
static const u PP = (((u)0xffffffffffffffffULL) << 64) | 0xffffffffffffff61ULL;
static u addm(u a, u b) { return a >= PP - b ? a - (PP - b) : a + b; }
static u mulm(u a, u b) { u r = 0; for (int i = 127; i >= 0; i--) { r = addm(r, r); if ((b >> i) & 1) r = addm(r, a); } return r; }
static u powm(u a, u e) { u r = 1; a %= PP; for (int i = 127; i >= 0; i--) { r = mulm(r, r); if ((e >> i) & 1) r = mulm(r, a); } return r; }
static u bytes; static int at;
static int dv_rand(void) { int b = (int)(uint8_t)(bytes >> (8 * (at++ & 15))); return b | 0x5a00; }
static dhkey_t K(u x) { dhkey_t k; k.dq.low = (uint64_t)x; k.dq.high = (uint64_t)(x >> 64); return k; }
static u V(const dhkey_t& k) { return ((u)k.dq.high << 64) | k.dq.low; }
static std::string H(u x) { char b[40]; snprintf(b, 40, "0x%016llx%016llx", (unsigned long long)(x >> 64), (unsigned long long)x); return b; }
static int one(u a, u b) {
	dhkey_t s, m = K(b), p = K(a);
	DH_generate_key_secret(s, m, p);
	if (V(s) != powm(a, b)) { printf("MISMATCH secret of public %s and private %s: got %s, expected %s\n", H(a).c_str(), H(b).c_str(), H(V(s)).c_str(), H(powm(a, b)).c_str()); return 1; }
	if (V(m) != b || V(p) != a) { printf("MISMATCH operands changed\n"); return 1; }
	bytes = a; at = 0; dhkey_t pu, pv; DH_generate_key_pair(pu, pv);
	u x = V(pv);
	if (V(pu) != powm(5, x)) { printf("MISMATCH public key of private %s: got %s, expected %s\n", H(x).c_str(), H(V(pu)).c_str(), H(powm(5, x)).c_str()); return 1; }
	u base = a % PP; dhkey_t t; 
	if (b < 2 || true) { u e = 2; dhkey_t q = K(e), z = K(a); DH_generate_key_secret(t, q, z); if (V(t) != mulm(base, base)) { printf("MISMATCH %s squared mod p: got %s\n", H(a).c_str(), H(V(t)).c_str()); return 1; } }
	return 0;
}
static u parse(const std::string& s) { u r = 0; for (size_t i = 2; i < s.size(); i++) { char c = s[i]; r = r * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); } return r; }
int main(int c, char** v) {
	if (c > 1 && std::string(v[1]) == "case") { char a[64], b[64]; if (scanf("%60s %60s", a, b) == 2) return one(parse(a), parse(b)); return 0; }
	u M = ~(u)0, sp[] = {0, 1, 2, 3, 5, 158, 159, 160, PP - 1, PP, PP + 1, PP - 2, M, M - 1, PP / 2, PP / 2 + 1, (u)1 << 64, ((u)1 << 64) - 1, (u)1 << 127, ((u)1 << 127) - 1, ((u)1 << 127) + 1, ((u)1 << 64) + 1, (u)1 << 63, M << 64, M >> 64};
	for (u a : sp) for (u b : sp) if (one(a, b)) return 1;
	std::mt19937_64 g(c > 2 ? atol(v[2]) : 1);
	for (int i = 0; i < 4000; i++) { u a = ((u)g() << 64 | g()) >> (g() % 128), b = ((u)g() << 64 | g()) >> (g() % 128); if (g() & 1) a = ~a; if (g() % 4 == 0) a = PP - (a & 0xfff); if (one(a, b)) return 1; }
	return 0;
}
