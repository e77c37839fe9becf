// Native search for RingQueue: random operation histories compared with std::deque.
#include <cyclone_config.h>
#include <cy_core.h>
#include <functional>
#include <vector>
#include <deque>
#include <string>
#include <iostream>
#include <random>
#include <chrono>
#include <utility/cyu_ring_queue.h>
using namespace cyclone;
int main(int c, char** v) {
	if (std::string(v[1]) == "case") return 0;
	std::mt19937_64 g(atoi(v[2])); double secs = atof(v[3]); auto t0 = std::chrono::steady_clock::now();
	while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		size_t cap = g() % 3 ? 1 + g() % 20 : 0; RingQueue<uint64_t> q(cap); std::deque<uint64_t> m; std::string log = "new(" + std::to_string(cap) + ")"; uint64_t next = 1;
		#define BAD(msg) { std::cout << "MISMATCH " << msg << " after " << log.substr(log.size() > 600 ? log.size() - 600 : 0) << std::endl; return 1; }
		if (cap && q.capacity() != cap) BAD("capacity " << q.capacity());
		int bias = g() % 3;
		for (int k = 0; k < 300; k++) {
			int op = (int)(g() % 10);
			if (op < 4 + bias) { q.push(next); m.push_back(next); log += " push"; next++; if (cap && m.size() > cap) m.pop_front(); }
			else if (op < 8) { size_t n = g() % 5 ? 1 : g() % 12; if (g() % 40 == 0) n = m.size(); q.pop(n); log += " pop(" + std::to_string(n) + ")"; for (size_t i = 0; i < n && !m.empty(); i++) m.pop_front(); }
			else if (g() % 30 == 0) { q.reset(); m.clear(); log += " reset"; }
			if (q.size() != m.size()) BAD("size " << q.size() << " expected " << m.size());
			if (q.empty() != m.empty()) BAD("empty()");
			if (q.get_free_size() + q.size() != q.capacity()) BAD("free size");
			if (!m.empty()) { if (q.front() != m.front()) BAD("front " << q.front() << " expected " << m.front()); if (q.back() != m.back()) BAD("back"); size_t i = g() % m.size(); if (q.get(i) != m[i]) BAD("get(" << i << ")"); }
			std::vector<uint64_t> w; size_t stop = g() % 4 == 0 ? g() % 6 : ~(size_t)0; bool ok = true;
			q.walk([&](size_t i, const uint64_t& x) { if (i != w.size()) ok = false; w.push_back(x); return w.size() <= stop; });
			size_t want = stop == ~(size_t)0 ? m.size() : std::min(m.size(), stop + 1);
			if (!ok || w.size() != want) BAD("walk visited " << w.size() << " expected " << want); for (size_t i = 0; i < w.size(); i++) if (w[i] != m[i]) BAD("walk element " << i);
			w.clear(); q.walk_reserve([&](size_t i, const uint64_t& x) { if (i != m.size() - 1 - w.size()) ok = false; w.push_back(x); return w.size() <= stop; });
			if (!ok || w.size() != want) BAD("walk_reserve visited " << w.size() << " expected " << want); for (size_t i = 0; i < w.size(); i++) if (w[i] != m[m.size() - 1 - i]) BAD("walk_reserve element " << i);
		}
	}
	return 0;
}
