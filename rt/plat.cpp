#include "plat.h"
#include <stdarg.h>
uint64_t plat_us = 1000000000ULL;
uint32_t plat_us_step = 0;
int plat_ms_direct = 0; uint64_t plat_ms = 0;
int plat_rng_mode = 0;
uint32_t plat_log_count = 0;
static uint32_t rng_ctr = 0x1234567;
long unsigned micros() { plat_us += plat_us_step; return (long unsigned) plat_us; }
long unsigned millis() { if (plat_ms_direct) { plat_ms += plat_us_step; return (long unsigned) plat_ms; } plat_us += plat_us_step; return (long unsigned) (plat_us / 1000); }
void sleep_ms(uint32_t ms) { plat_us += (uint64_t) ms * 1000; }
void sleep_us(uint32_t us) { plat_us += us; }
uint32_t randomUInt32() { if (plat_rng_mode == 1) return sx_u32("rng"); rng_ctr = rng_ctr * 1664525u + 1013904223u; return rng_ctr; }
int8_t random_fill(uint8_t* buf, size_t len) { for (size_t i = 0; i < len; i++) buf[i] = (plat_rng_mode == 1) ? sx_u8("rng") : (uint8_t) (randomUInt32() >> 24); return 0; }
uint64_t epochTime() { return plat_us / 1000000; }
bool setTimeAndDate(uint16_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t) { return false; }
bool getTimeAndDate(uint16_t*, uint8_t*, uint8_t*, uint8_t*, uint8_t*, uint8_t*) { return false; }
void currentDateTime(StringBuilder*) {}
void (*plat_log_hook)(uint8_t, const char*, StringBuilder*) = nullptr;
void c3p_log(uint8_t l, const char* t, StringBuilder* s) { plat_log_count++; if (plat_log_hook) plat_log_hook(l, t, s); }
