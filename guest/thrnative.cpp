// std::thread of the natively compiled code runs on the replay scheduler.
#include "sym.h"
struct ThrState { virtual ~ThrState(); virtual void _M_run() = 0; };
static void* thr_main(void* p) { ((ThrState*)p)->_M_run(); return 0; }
extern "C" {
void grt__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long* th, void** up, void (*)()) { void* st = *up; *up = 0; *th = 100 + sym_spawn(thr_main, st); }
void grt__ZNSt6thread4joinEv(unsigned long* th) { sym_join((int)(*th - 100)); *th = 0; }
void grt__ZNSt6thread6detachEv(unsigned long* th) { *th = 0; }
}
