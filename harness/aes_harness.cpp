// replays AES-128 CBC against an independent straightforward FIPS-197 implementation
#include <cy_crypt.h>
#include <string>
#include <vector>
#include <random>
#include <memory>
using namespace cyclone;
typedef std::vector<uint8_t> V; typedef uint8_t b;
static b gm(b x, b y) { b r = 0; while (y) { if (y & 1) r ^= x; x = (b)((x << 1) ^ (x & 0x80 ? 0x1b : 0)); y >>= 1; } return r; }
static b S[256], SI[256];
static void init() { for (int x = 0; x < 256; x++) { b inv = 0; for (int y = 0; y < 256; y++) if (gm((b)x, (b)y) == 1) inv = (b)y; b s = 0x63; for (int k = 0; k < 5; k++) s ^= (b)((inv << k) | (inv >> (8 - k))); S[x] = s; } for (int x = 0; x < 256; x++) SI[S[x]] = (b)x; }
static void expand(const b* k, b w[176]) { memcpy(w, k, 16); b rc = 1; for (int i = 16; i < 176; i += 4) { b t[4]; memcpy(t, w + i - 4, 4); if (i % 16 == 0) { b u = t[0]; t[0] = S[t[1]] ^ rc; t[1] = S[t[2]]; t[2] = S[t[3]]; t[3] = S[u]; rc = gm(rc, 2); } for (int j = 0; j < 4; j++) w[i + j] = w[i - 16 + j] ^ t[j]; } }
static void mix(b* s, const b* m) { for (int c = 0; c < 4; c++) { b o[4]; for (int i = 0; i < 4; i++) { o[i] = 0; for (int j = 0; j < 4; j++) o[i] ^= gm(m[j], s[4 * c + (i + j) % 4]); } memcpy(s + 4 * c, o, 4); } }
static const b MX[4] = {2, 3, 1, 1}, IM[4] = {14, 11, 13, 9};
static void enc(const b* w, const b* x, b* y) { b s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = x[i] ^ w[i]; for (int r = 1; r <= 10; r++) { for (int i = 0; i < 16; i++) t[i] = S[s[i % 4 + 4 * ((i / 4 + i % 4) % 4)]]; memcpy(s, t, 16); if (r < 10) mix(s, MX); for (int i = 0; i < 16; i++) s[i] ^= w[16 * r + i]; } memcpy(y, s, 16); }
static void dec(const b* w, const b* x, b* y) { b s[16], t[16]; for (int i = 0; i < 16; i++) s[i] = x[i] ^ w[160 + i]; for (int r = 9; r >= 0; r--) { for (int i = 0; i < 16; i++) t[i] = SI[s[i % 4 + 4 * ((i / 4 + 4 - i % 4) % 4)]]; for (int i = 0; i < 16; i++) s[i] = t[i] ^ w[16 * r + i]; if (r) mix(s, IM); } memcpy(y, s, 16); }
static V cbc(const V& k, V& iv, const V& in, bool d) { b w[176]; expand(k.data(), w); V out(in.size()); for (size_t i = 0; i < in.size(); i += 16) { if (!d) { b x[16]; for (int j = 0; j < 16; j++) x[j] = in[i + j] ^ iv[j]; enc(w, x, &out[i]); iv.assign(&out[i], &out[i] + 16); } else { dec(w, &in[i], &out[i]); for (int j = 0; j < 16; j++) out[i + j] ^= iv[j]; iv.assign(&in[i], &in[i] + 16); } } return out; }
static std::string hex(const V& x) { std::string r; char q[4]; for (size_t i = 0; i < x.size() && i < 48; i++) { snprintf(q, 4, "%02x", x[i]); r += q; } return r; }
static int one(const V& key, const V& iv0, const V& in) {
	for (int d = 0; d < 2; d++) for (int place = 0; place < 2; place++) for (int useiv = 0; useiv < 2; useiv++) for (int split = 0; split < 2; split++) {
		if (split && (!useiv || in.size() < 32)) continue;
		V riv = useiv ? iv0 : V(Rijndael::DefaultIV, Rijndael::DefaultIV + 16), civ = iv0;
		V want = cbc(key, riv, in, d);
		Rijndael r(key.data());
		size_t n = in.size(), cut = split ? n / 32 * 16 : n;
		std::unique_ptr<b[]> a(new b[n]), o(new b[n]); memcpy(a.get(), in.data(), n); memset(o.get(), 0xee, n);
		b* out = place ? a.get() : o.get();
		for (size_t at = 0; at < n || at == 0; at += cut ? (at ? n - cut : cut) : 1) { size_t len = at ? n - cut : cut; if (at >= n && n) break; if (d) r.decrypt(a.get() + at, out + at, len, useiv ? civ.data() : nullptr); else r.encrypt(a.get() + at, out + at, len, useiv ? civ.data() : nullptr); if (at + len >= n) break; }
		V got(out, out + n);
		const char* nm = d ? "decrypt" : "encrypt";
		if (got != want) { size_t i = 0; while (got[i] == want[i]) i++; printf("MISMATCH %s of %zu bytes%s%s%s key %s: byte %zu is %02x, expected %02x (input %s)\n", nm, n, place ? " in place" : "", useiv ? " with vector" : "", split ? " in two calls" : "", hex(key).c_str(), i, got[i], want[i], hex(in).c_str()); return 1; }
		if (useiv && civ != riv) { printf("MISMATCH %s of %zu bytes%s: chaining vector %s, expected %s\n", nm, n, place ? " in place" : "", hex(civ).c_str(), hex(riv).c_str()); return 1; }
		if (!place && memcmp(a.get(), in.data(), n)) { printf("MISMATCH %s changed its input\n", nm); return 1; }
	}
	return 0;
}
int main(int c, char** v) {
	init();
	if (c > 1 && std::string(v[1]) == "case") return 0;
	std::mt19937_64 g(c > 2 ? atol(v[2]) : 1);
	for (int i = 0; i < 3000; i++) { V k(16), iv(16), in(16 * (i < 40 ? i % 8 : g() % 12)); int m = i % 3; for (auto& x : k) x = m == 1 ? (b)i : (b)g(); for (auto& x : iv) x = (b)g(); for (auto& x : in) x = m == 2 ? (b)(g() & 1 ? 0xff : 0) : (b)g(); if (one(k, iv, in)) return 1; }
	return 0;
}
