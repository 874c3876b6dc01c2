// Internal interface between the parts of the simulator.
#pragma once
#include "sim.hpp"
#include <pthread.h>

namespace sim {
constexpr uintptr_t HEAP_BASE = 0x1000000000ull;
constexpr size_t HEAP_SIZE = 160ull << 20, HEAP_LARGEST = 24ull << 20;
constexpr uintptr_t STACK_BASE = 0x1800000000ull;
constexpr size_t STACK_SIZE = 4ull << 20;
constexpr int MAXSTACK = 282;
constexpr uintptr_t SHADOW_BASE = 0x2000000000ull;  // 1 byte per 8 bytes of heap
constexpr uintptr_t CELL_BASE = 0x2800000000ull;    // race cells for the heap
constexpr uintptr_t DCELL_BASE = 0x3800000000ull;   // race cells for globals
constexpr int MAXT = 280;

struct Shared;
extern bool g_active; // a run is in progress in this process
extern thread_local bool tl_sut;
extern thread_local int tl_tid;
extern thread_local int tl_static; // how many function-local statics this thread is setting up

void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc);
void sched_sync_point(const char *what, uintptr_t pc);
void hash_event(uint64_t v);
[[noreturn]] void sut_abort(const char *why);
bool fault_roll(bool enabled, uint32_t den, const char *kind);
void record_fault(const char *kind); // something that happens without any call failing
void acquire_obj(uintptr_t obj);
void release_obj(uintptr_t obj);
void race_forget(uintptr_t a, size_t n);
void check_range(const void *p, size_t n, bool write, uintptr_t pc);
void heap_init();
void threads_init();
void fs_init();
void mutex_forget(uintptr_t lo, uintptr_t hi);
void *host_malloc(size_t n);
void host_free(void *p);
void run_on_threads(void (*fn)());
extern "C" char __data_start[];
extern "C" char _end[];
} // namespace sim
