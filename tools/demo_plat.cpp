// Stand-ins for the platform: a clock under the control of the demonstration, and a simple random source.
#include "demo.h"
uint64_t demo_us = 1000000;
uint32_t demo_step = 0;
static uint32_t rs = 0x1234567;
long unsigned micros() { demo_us += demo_step; return (long unsigned) demo_us; }
long unsigned millis() { demo_us += demo_step; return (long unsigned) (demo_us / 1000); }
void sleep_ms(uint32_t ms) { demo_us += (uint64_t) ms * 1000; }
void sleep_us(uint32_t us) { demo_us += us; }
uint32_t randomUInt32() { rs = rs * 1664525u + 1013904223u; return rs; }
int8_t random_fill(uint8_t* b, size_t n) { for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (randomUInt32() >> 24); return 0; }
uint64_t epochTime() { return demo_us / 1000000; }
bool setTimeAndDate(uint16_t, uint8_t, uint8_t, uint8_t, uint8_t, uint8_t) { return false; }
bool getTimeAndDate(uint16_t*, uint8_t*, uint8_t*, uint8_t*, uint8_t*, uint8_t*) { return false; }
void currentDateTime(StringBuilder*) {}
void c3p_log(uint8_t, const char*, StringBuilder*) {}
void pinWrite(uint8_t, uint8_t);
