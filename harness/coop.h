#pragma once
#ifndef SCHED_NAME
#define SCHED_NAME(x) x
#endif
extern "C" {
enum { SCHED_RANDOM = 0, SCHED_PCT = 1, SCHED_ROUNDROBIN = 2 };
struct sched_params {
    int strategy; unsigned long seed; int probSync, probPlain;   // probabilities out of 65536
    long maxSteps, fairAfter; long spinLimit; int depth; long horizon; int spurious; long dataEvery;
};
struct sched_range { const char* lo; const char* hi; };
typedef void (*sched_access_cb)(int co, const void* a, int size, int write, int range);
typedef void (*sched_stuck_cb)(const char* why);
void sched_defaults(sched_params*);
void sched_begin(const sched_params*, int keep);
void sched_end();
int sched_is_active();
void sched_pause(int on);
long sched_steps();
long sched_switches();
int sched_self();
unsigned long long sched_rnd();
void sched_guide(const unsigned char*, long n);
void sched_point();
void sched_plain_point();
void sched_on_stuck(sched_stuck_cb);
void sched_watch(const sched_range*, int n, sched_access_cb);
int sched_spawn(void* (*fn)(void*), void* arg, int caller);
int sched_drain(long limit);
void sched_join_callers();
}
