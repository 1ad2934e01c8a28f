// included before synk/loadimba.cpp: the time stamp counter becomes an input
#pragma once
#include <x86intrin.h>
#undef _rdtsc
extern "C" unsigned long sx_clock(void);
#define _rdtsc sx_clock
