#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
extern uint64_t demo_us;
extern uint32_t demo_step;
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
