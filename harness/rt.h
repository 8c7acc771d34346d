// Interface of the controlled-scheduler runtime (rt.cpp): one thread runs at a time, every synchronisation operation is a
// decision point, every memory access is checked for conflicting unordered accesses (vector clocks).
#pragma once
extern "C" {
void rt_team(int n);                                     // OpenMP team size of the next parallel regions
void rt_ignore(int d);                                   // +1 / -1: do not monitor the calling thread
void rt_schedule(const unsigned char *pre, int n);       // decisions to take first; afterwards always option 0
void rt_fine(long k, int opt);                           // additionally: at the k-th monitored access take option opt
int rt_trace(unsigned char *opts, unsigned char *took, int cap);   // decisions seen so far; returns their number
long rt_accesses();
const char *rt_error();                                  // nullptr, or a description of a race / deadlock
void rt_run(int n, void (*fn)(int));                     // run fn(0..n-1) on n threads, return when all have ended
int rt_regions();
}
