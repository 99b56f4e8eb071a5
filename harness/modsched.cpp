// Linked into the extension (compiled with -fsanitize=thread) together with coop.cpp: lets a Python driver run whole
// operations under the deterministic scheduler and records who writes which bytes of the operands.
#include "coop.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>

#define NOINST __attribute__((no_sanitize("thread")))
namespace {
struct Piece { int t; long lo, hi; };
std::vector<unsigned char> owner;      // of the bytes of range 0: 0 nobody, t+1
std::vector<Piece> pieces;             // in the order in which they were closed
Piece cur_[64]; bool open_[64];
bool returned = false, recordWrites = false;
long stray = 0, foreign = 0, workerWrites = 0, own = 0, others = 0;
char strayText[200];
const char* base0 = nullptr; long len0 = 0;
std::string result, stuckFile;

NOINST void closePiece(int t) { if (open_[t]) { pieces.push_back(cur_[t]); open_[t] = false; } }

NOINST void onAccess(int co, const void* a, int size, int write, int range) {
    if (returned) {
        if (co != 0) {
            if (!stray++) snprintf(strayText, sizeof strayText, "thread %d %s operand %d", co, write ? "writes" : "reads", range);
        }
        return;
    }
    (co ? others : own)++;
    if (!write || range != 0 || !recordWrites || co >= 64) return;
    long lo = (const char*)a - base0, hi = lo + size;
    if (lo < 0) lo = 0;
    if (hi > len0) hi = len0;
    if (co) workerWrites++;
    bool fresh = false;
    for (long i = lo; i < hi; i++) {
        if (owner[i] == co + 1) continue;                  // its own bytes again
        fresh = true;
        if (owner[i] == 0) owner[i] = (unsigned char)(co + 1); else foreign++;
    }
    if (!fresh) return;
    if (open_[co] && cur_[co].hi == lo) { cur_[co].hi = hi; return; }
    closePiece(co);
    cur_[co].t = co; cur_[co].lo = lo; cur_[co].hi = hi; open_[co] = true;
}
NOINST void onStuck(const char* why) {
    FILE* f = fopen(stuckFile.c_str(), "w");
    if (f) { fprintf(f, "%s\n", why); fclose(f); }
    _exit(77);
}
}

extern "C" {
NOINST void ms_stuck_file(const char* f) { stuckFile = f; sched_on_stuck(onStuck); }
// strategy 0 random 1 pct 2 round robin; ranges: lo/hi pairs, range 0 is the output when rec is set
NOINST void ms_begin(long seed, int strategy, int probSync, int probPlain, long dataEvery, int rec, int n, const unsigned long* lohi,
                     const unsigned char* g, long gl) {
    static sched_range r[16];
    if (n > 16) n = 16;
    for (int i = 0; i < n; i++) { r[i].lo = (const char*)lohi[2 * i]; r[i].hi = (const char*)lohi[2 * i + 1]; }
    base0 = n ? r[0].lo : nullptr; len0 = n ? r[0].hi - r[0].lo : 0;
    owner.assign(rec ? len0 : 0, 0); pieces.clear(); memset(open_, 0, sizeof open_);
    returned = false; recordWrites = rec; stray = foreign = workerWrites = own = others = 0; strayText[0] = 0;
    sched_watch(r, n, onAccess);
    sched_params p; sched_defaults(&p);
    p.seed = seed; p.strategy = strategy; p.probSync = probSync; p.probPlain = probPlain; p.dataEvery = dataEvery;
    p.maxSteps = 60000000; p.fairAfter = 30000000; p.depth = 1 + (int)(seed % 6); p.horizon = 2000 + 3000 * (seed % 5); p.spinLimit = 300;
    p.spurious = seed % 3 == 0 ? 0x800 : 0;
    sched_begin(&p, 1);
    if (gl) sched_guide(g, gl); else sched_guide(nullptr, 0);
}
// the call has returned: anything the workers still do to the operands is stray
NOINST const char* ms_end() {
    sched_pause(1);
    for (int t = 0; t < 64; t++) closePiece(t);
    returned = true;
    sched_pause(0);
    int quiet = sched_drain(200000);
    sched_end();
    sched_watch(nullptr, 0, nullptr);
    result = "{\"pieces\":[";
    char b[256];
    bool f = true;
    for (auto& p : pieces) { snprintf(b, sizeof b, "%s[%d,%ld,%ld]", f ? "" : ",", p.t, p.lo, p.hi); result += b; f = false; }
    snprintf(b, sizeof b, "],\"stray\":%ld,\"foreign\":%ld,\"workerWrites\":%ld,\"quiet\":%d,\"own\":%ld,\"others\":%ld,\"steps\":%ld,\"switches\":%ld,\"why\":\"",
             stray, foreign, workerWrites, quiet, own, others, sched_steps(), sched_switches());
    result += b; result += strayText; result += "\"}";
    return result.c_str();
}
}
