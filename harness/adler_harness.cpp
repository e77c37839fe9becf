// Native replay for adler32: compares the real function with the two-sum definition.  case: adler len bytes...
#include <cy_crypt.h>
#include <vector>
#include <string>
#include <sstream>
#include <iostream>
#include <random>
#include <chrono>
using namespace cyclone;
static uint32_t def(uint32_t s, const uint8_t* p, size_t n) { uint64_t a = s & 0xffff, b = s >> 16; for (size_t i = 0; i < n; i++) { a = (a + p[i]) % 65521; b = (b + a) % 65521; } return (uint32_t)((b << 16) | a); }
static bool one(uint32_t s, const std::vector<uint8_t>& v, size_t len) {
	uint8_t* p = (uint8_t*)malloc(len ? len : 1); for (size_t i = 0; i < len; i++) p[i] = i < v.size() ? v[i] : 255;
	uint32_t got = adler32(s, p, len), want = def(s, p, len); bool ok = got == want;
	if (ok && len) for (int t = 0; t < 3; t++) { size_t k = t == 0 ? len / 3 : t == 1 ? 0 : len - 1; uint32_t g2 = adler32(adler32(s, p, k), p + k, len - k); if (g2 != want) { ok = false; got = g2; } }
	if (!ok) std::cout << "MISMATCH adler32(start " << std::hex << s << ", " << std::dec << len << " bytes) = " << std::hex << got << ", definition gives " << want << std::dec << std::endl;
	if (adler32(s, nullptr, len) != 1) { std::cout << "MISMATCH adler32 without buffer" << std::endl; ok = false; }
	free(p); return ok;
}
int main(int c, char** v) {
	if (std::string(v[1]) == "case") { std::string l; while (std::getline(std::cin, l)) { std::istringstream i(l); uint32_t s; size_t n; i >> s >> n; std::vector<uint8_t> d; int x; while (i >> x) d.push_back((uint8_t)x); if (!one(s, d, n)) return 1; } return 0; }
	std::mt19937_64 g(atoi(v[2])); double secs = atof(v[3]); auto t0 = std::chrono::steady_clock::now();
	size_t lens[] = { 0, 1, 2, 15, 16, 17, 31, 32, 5551, 5552, 5553, 5567, 5568, 5569, 11104, 11105, 11120, 65536, 200000 };
	FILE* last = fopen((std::string(v[0]) + ".last").c_str(), "w");
	while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		size_t n = g() % 3 ? lens[g() % 19] : g() % 12000; int m = g() % 3; std::vector<uint8_t> d(n); for (auto& x : d) x = m == 0 ? 255 : m == 1 ? (uint8_t)g() : (uint8_t)(g() % 2 ? 255 : 0);
		uint32_t s = (g() % 2) ? 1 : ((g() % 3 ? (uint32_t)(g() % 65521) : 65520u) << 16) | (g() % 3 ? (uint32_t)(g() % 65521) : 65520u);
		rewind(last); fprintf(last, "start %u len %zu mode %d\n", s, n, m); fflush(last);
		if (!one(s, d, n)) return 1;
	}
	return 0;
}
