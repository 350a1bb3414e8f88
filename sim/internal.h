#pragma once
#include "sim.h"
namespace sim {
u64 mono_abs();
void tick(const char *name);
bool wait_until(std::function<bool()> pred, u64 deadline);   // parks the calling thread; true when pred holds
void preempt(const char *why);
void set_preempt(unsigned permille);
void os_init(); extern void (*child_exits)(int rc);
void on_exit_called(int rc); void run_sut_fini();
u64 next_event(); void run_one_event();
int thread_spawn(std::function<void*()> body); bool thread_finished(int id); void *thread_ret(int id); int thread_count();
void thread_exit_self(void *r); void yield_thread(const char *why);
}
