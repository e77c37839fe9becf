#pragma once
#include <stdint.h>
#include <stddef.h>
#include <vector>
#include <functional>
namespace sched {
uint64_t rnd();
void seed(uint64_t s);
void watch(const void* p, size_t n);
void yield(bool force);
int self();
// false: the step limit was reached or nobody can move
bool run(std::vector<std::function<void()>> fs, long limit, std::function<bool(int)> ready = nullptr);
}
