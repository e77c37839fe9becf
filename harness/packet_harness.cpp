// Native search for Packet: random local packets, fragmented streams (wrapped rings, pipes), copies; compared with a byte-string oracle.
#include <cy_core.h>
#include <cy_event.h>
#include <string>
#include <iostream>
#include <random>
#include <chrono>
#include <cstring>
using namespace cyclone;
typedef std::string S;
static S enc(size_t head, uint16_t id, const S& p, char fill) { S r(head, fill); r[0] = (char)(p.size() >> 8); r[1] = (char)p.size(); r[2] = (char)(id >> 8); r[3] = (char)id; return r + p; }
#define BAD(msg) { std::cout << "MISMATCH " << msg << std::endl; return 1; }
static int same(Packet& p, size_t head, uint16_t id, const S& pay, const S* all, const char* what) {
	if (p.get_memory_size() != head + pay.size()) BAD(what << ": memory size " << p.get_memory_size() << " expected " << head + pay.size());
	if (p.get_packet_size() != pay.size()) BAD(what << ": packet size " << p.get_packet_size() << " expected " << pay.size());
	if (p.get_packet_id() != id) BAD(what << ": id " << p.get_packet_id() << " expected " << id);
	if ((p.get_packet_content() == nullptr) != pay.empty()) BAD(what << ": payload pointer, payload size " << pay.size());
	if (!pay.empty() && memcmp(p.get_packet_content(), pay.data(), pay.size())) BAD(what << ": payload differs, head " << head << " size " << pay.size());
	S h = enc(head, id, pay, 0); if (memcmp(p.get_memory_buf(), h.data(), 4)) BAD(what << ": header bytes are not big endian size/id");
	if (all && memcmp(p.get_memory_buf(), all->data(), all->size())) BAD(what << ": bytes differ from the stream");
	return 0;
}
int main(int c, char** v) {
	if (S(v[1]) == "case") return 0;
	std::mt19937_64 g(atoi(v[2])); double secs = atof(v[3]); auto t0 = std::chrono::steady_clock::now();
	Packet pk; 
	while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		size_t head = g() % 3 ? 4 + g() % 20 : 4 + g() % 1100;
		size_t lens[] = { 0, 1, 2, g() % 300, 900 + g() % 200, 1024 - 8 - head % 900, g() % 65536, 65535, 1016 - (head < 1016 ? head : 1016), 1017 - (head < 1016 ? head : 1016) };
		size_t n = lens[g() % 10]; if (n > 65535) n = 65535;
		uint16_t id = (uint16_t)g(); S pay(n, 0); for (auto& ch : pay) ch = (char)g();
		size_t k = n ? g() % (n + 1) : 0;
		if (g() % 2) pk.build_from_memory(head, id, (uint16_t)n, pay.data()); else pk.build_from_memory(head, id, (uint16_t)k, pay.data(), (uint16_t)(n - k), pay.data() + k);
		if (same(pk, head, id, pay, nullptr, "build_from_memory")) return 1;
		{ Packet* cp = Packet::alloc_packet(&pk); S all(pk.get_memory_buf(), pk.get_memory_size()); if (same(*cp, head, id, pay, &all, "alloc_packet copy")) return 1;
		  if (cp->get_memory_buf() == pk.get_memory_buf()) BAD("alloc_packet shares storage"); Packet::free_packet(cp); }
		S wire = enc(head, id, pay, (char)g()), tail(g() % 40, 'T');
		{ RingBuf rb(g() % 64); S junk(g() % 50, 'j'); rb.memcpy_into(junk.data(), junk.size()); rb.discard(junk.size());
		  size_t part = g() % 3 ? g() % wire.size() : wire.size() - 1; rb.memcpy_into(wire.data(), part); S before(wire.data(), part);
		  if (pk.build_from_ringbuf(head, rb)) BAD("build_from_ringbuf accepts " << part << " of " << wire.size() << " bytes (head " << head << ")");
		  S now(rb.size(), 0); rb.peek(0, &now[0], now.size()); if (now != before) BAD("failed build_from_ringbuf consumed input: had " << part << " bytes, now " << now.size());
		  rb.memcpy_into(wire.data() + part, wire.size() - part); rb.memcpy_into(tail.data(), tail.size());
		  if (!pk.build_from_ringbuf(head, rb)) BAD("build_from_ringbuf rejects a whole packet, head " << head << " payload " << n);
		  if (same(pk, head, id, pay, &wire, "build_from_ringbuf")) return 1;
		  S rest(rb.size(), 0); rb.peek(0, &rest[0], rest.size()); if (rest != tail) BAD("build_from_ringbuf left " << rest.size() << " bytes, expected " << tail.size()); }
		if (wire.size() + tail.size() < 60000) { Pipe p; p.write(wire.data(), wire.size()); p.write(tail.data(), tail.size());
		  if (!pk.build_from_pipe(head, p)) BAD("build_from_pipe rejects a whole packet");
		  if (same(pk, head, id, pay, &wire, "build_from_pipe")) return 1;
		  S rest(100, 0); ssize_t r = p.read(&rest[0], 100); if (r < 0) r = 0; rest.resize(r); if (rest != tail) BAD("build_from_pipe left " << r << " bytes, expected " << tail.size());
		  size_t part = g() % wire.size(); p.write(wire.data(), part); if (pk.build_from_pipe(head, p)) BAD("build_from_pipe accepts a truncated packet");
		  if (pk.get_memory_size()) BAD("failed build leaves a packet"); }
	}
	return 0;
}
