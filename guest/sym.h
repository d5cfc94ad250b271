// Symbolic-execution API (implemented by the engine; natively by symnative.cpp for replay).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);
int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
uint64_t sym_choose(const char* name, uint64_t k); // 0..k-1, one path each
void sym_bytes(void* p, size_t n, const char* name);
void sym_assume(int64_t c);
void sym_assert(int64_t c, const char* label);
void sym_fail(const char* label);
void sym_reach(const char* label);
uint64_t sym_ite(int64_t c, uint64_t a, uint64_t b);
uint64_t sym_concretize(uint64_t v);
void sym_observe(const char* name, uint64_t v);
void sym_end(void);
void sym_dbg(const char* name, uint64_t v);
int sym_spawn(void* (*fn)(void*), void* arg);
int sym_join(int id);
void sym_yield(void);
void sym_preempt(int bound);
void sym_wait(volatile int* flag); // block until *flag != 0
int sym_self(void);
void sym_check_uninit(int on);
#ifdef __cplusplus
}
#endif
