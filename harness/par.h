// Parallel execution under a chosen schedule: interface between the harnesses and the OpenMP stand-in (omp.cpp)
#pragma once
extern "C" {
void nso_schedule(int arbitrary);   // 0: every iteration runs to its end in order; 1: the order of the critical sections is arbitrary
int nso_regions();                  // parallel loops of more than one iteration entered so far
int nso_sections();                 // critical sections entered so far
}
