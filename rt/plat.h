// Platform model: the clock and the RNG are under harness control.
#pragma once
#include "sx.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
extern uint64_t plat_us;            // simulated monotonic time, microseconds (64-bit; the API truncates)
extern uint32_t plat_us_step;       // added on every reading of the clock
extern int plat_ms_direct;          // 1: millis() is plat_ms, a counter of its own
extern uint64_t plat_ms;
extern int plat_rng_mode;           // 0: counter pattern, 1: fresh symbolic words
extern uint32_t plat_log_count;
extern void (*plat_log_hook)(uint8_t, const char*, StringBuilder*);
