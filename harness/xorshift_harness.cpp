// Native search for the xorshift stream cipher: an independent xorshift128+ reference over random lengths, splits and alignments.
#include <cyclone_config.h>
#include <cy_crypt.h>
#include <string>
#include <vector>
#include <iostream>
#include <random>
#include <chrono>
using namespace cyclone;
#define BAD(m) { std::cout << "MISMATCH " << m << std::endl; return 1; }
int main(int c, char** v) {
	if (std::string(v[1]) == "case") return 0;
	std::mt19937_64 g(atoi(v[2])); double secs = atof(v[3]); auto t0 = std::chrono::steady_clock::now();
	while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		size_t n = g() % 4 ? g() % 70 : g() % 5000; uint64_t a = g(), b = g(), x = a, y = b; if (g() % 16 == 0) a = x = 0;
		std::vector<uint8_t> p(n); for (auto& e : p) e = (uint8_t)g();
		std::vector<uint8_t> want(p); uint64_t w = 0;
		for (size_t i = 0; i < n; i++) { if (i % 8 == 0) { uint64_t t = x; x = y; t ^= t << 23; t = t ^ y ^ (t >> 17) ^ (y >> 26); y = t; w = x + y; } want[i] ^= (uint8_t)(w >> (8 * (i % 8))); }
		XorShift128 s; s.seed0 = a; s.seed1 = b; uint8_t* buf = new uint8_t[n]; for (size_t i = 0; i < n; i++) buf[i] = p[i];
		size_t pos = 0; std::string log; while (pos < n && g() % 3) { size_t k = 8 * (g() % ((n - pos) / 8 + 1)); xorshift128(buf + pos, k, s); pos += k; log += std::to_string(k) + "+"; }
		xorshift128(buf + pos, n - pos, s);
		for (size_t i = 0; i < n; i++) if (buf[i] != want[i]) BAD("byte " << i << " of " << n << " differs from the keystream (split " << log << n - pos << ", seed " << a << " " << b << ")");
		if (s.seed0 != x || s.seed1 != y) BAD("generator state after " << n << " bytes (split " << log << n - pos << ")");
		s.seed0 = a; s.seed1 = b; xorshift128(buf, n, s); for (size_t i = 0; i < n; i++) if (buf[i] != p[i]) BAD("not self-inverse at byte " << i << " of " << n);
		delete[] buf;
	}
	return 0;
}
