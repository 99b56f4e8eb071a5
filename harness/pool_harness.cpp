// Drives the real worker pool (src/atop/threads.h, threads.cpp) under the deterministic scheduler and records what the
// callbacks and callers observe.  One line per scenario on stdin, one JSON trace per distinct observation on stdout.
//
// scenario: id workers setting zigzag threading seed0 runs strategy | caller jobs ; caller jobs ...
//   a job is mode:len:wake with mode  c (DoMultiThreadedChunkWork) w (work item, per-core channels) n (numbered items)
//   s (numbered items through WorkMain, as the parallel sort does)
#include "threads.h"
#include "coop.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <unordered_set>

struct Job { char mode; long len; int wake; int id; int caller; };
struct Ev { char k; int t; int job; long a, b; };

static std::vector<Ev> evs;
static std::vector<std::vector<Job>> callers;
static std::vector<Job*> jobsById;
static std::string curTag;
static bool overflow = false;

static void ev(char k, int job, long a, long b) {
    sched_pause(1);
    if (evs.size() < 60000) evs.push_back({k, sched_self(), job, a, b}); else overflow = true;
    sched_pause(0);
}

static void piece(Job* j, long start, long len) {
    ev('b', j->id, start, len);
    sched_point();
    sched_plain_point();
    sched_point();
    ev('e', j->id, start, len);
}

// numbered items
static int64_t itemCallback(void* arg, int core, int64_t index) { piece((Job*)arg, index, 1); return 1; }
// chunks
static int64_t chunkCallback(void* arg, int core, int64_t start, int64_t length) { piece((Job*)arg, start, length); return 1; }
// the loop of the ufunc callbacks
static int64_t coreCallback(struct stMATH_WORKER_ITEM* w, int core, int64_t workIndex) {
    int64_t did = 0, lenX, block;
    Job* j = (Job*)w->WorkCallbackArg;
    while ((lenX = w->GetNextWorkBlockCore(core, &block)) > 0) {
        j = (Job*)w->WorkCallbackArg;
        piece(j, block * w->BlockSize, lenX);
        did++;
        w->CompleteWorkBlock(core);
    }
    return did;
}
// the loop of the parallel sort
static int64_t sortCallback(struct stMATH_WORKER_ITEM* w, int core, int64_t workIndex) {
    int64_t did = 0, index, block;
    while ((index = w->GetNextWorkIndex(&block)) > 0) {
        Job* j = (Job*)w->WorkCallbackArg;
        piece(j, index - 1, 1);
        did++;
        w->CompleteWorkBlock(core);
    }
    return did;
}

static void submit(Job* j) {
    ev('s', j->id, j->len, 0);
    CMathWorker* W = (CMathWorker*)g_cMathWorker;
    switch (j->mode) {
    case 'c': W->DoMultiThreadedChunkWork(j->len, chunkCallback, j, j->wake); break;
    case 'n': W->DoMultiThreadedWork((int)j->len, itemCallback, j, j->wake); break;
    case 'w': {
        stMATH_WORKER_ITEM* it = W->GetWorkItem(j->len);
        if (it) { it->DoWorkCallback = coreCallback; it->WorkCallbackArg = j; W->WorkMain(it, j->len, j->wake); }
        else piece(j, 0, j->len);
        break;
    }
    case 's': {
        stMATH_WORKER_ITEM* it = W->GetWorkItem(65536);
        if (it) { it->DoWorkCallback = sortCallback; it->WorkCallbackArg = j; W->WorkMain(it, j->len, j->wake, 1, FALSE); }
        else for (long i = 0; i < j->len; i++) piece(j, i, 1);
        break;
    }
    }
    ev('r', j->id, 0, 0);
}

static void* callerMain(void* a) {
    auto* v = (std::vector<Job>*)a;
    for (auto& j : *v) submit(&j);
    return nullptr;
}

static std::string dump(const char* stuck) {
    std::ostringstream o;
    o << "{\"tag\":\"" << curTag << "\",\"stuck\":\"" << (stuck ? stuck : "") << "\",\"jobs\":[";
    bool f = true;
    for (auto* j : jobsById) { o << (f ? "" : ",") << j->len * 1; f = false; }
    o << "],\"ev\":[";
    f = true;
    for (auto& e : evs) {
        o << (f ? "" : ",") << "[\"" << e.k << "\"," << e.t << "," << e.job << "," << e.a << "," << e.b << "]";
        f = false;
    }
    o << "]}";
    return o.str();
}

static void onStuck(const char* why) {
    printf("%s\n", dump(why).c_str());
    fflush(stdout);
    _exit(77);
}

int main() {
    std::string line;
    std::unordered_set<std::string> seen;
    sched_on_stuck(onStuck);
    long runsTotal = 0, stepsTotal = 0, switchesTotal = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string id, strat, guideHex;
        int workers, setting, zig, threading; long seed0, runs;
        in >> id >> workers >> setting >> zig >> threading >> seed0 >> runs >> strat >> guideHex;
        std::string rest; std::getline(in, rest);
        std::vector<std::vector<Job>> proto(1);
        std::istringstream js(rest); std::string tok;
        while (js >> tok) {
            if (tok == ";") { proto.emplace_back(); continue; }
            Job j; j.mode = tok[0];
            sscanf(tok.c_str() + 2, "%ld:%d", &j.len, &j.wake);
            proto.back().push_back(j);
        }
        std::vector<unsigned char> guide;
        if (guideHex != "-") for (char c : guideHex) guide.push_back(c <= '9' ? c - '0' : c - 'a' + 10);
        for (long r = 0; r < runs; r++) {
            callers = proto; evs.clear(); jobsById.clear(); overflow = false;
            int n = 0;
            for (size_t c = 0; c < callers.size(); c++) for (auto& j : callers[c]) { j.id = ++n; j.caller = (int)c; jobsById.push_back(&j); }
            std::ostringstream tag; tag << id << " seed " << (seed0 + r); curTag = tag.str();
            sched_params p; sched_defaults(&p);
            p.seed = seed0 + r;
            p.strategy = strat == "pct" ? SCHED_PCT : strat == "rr" ? SCHED_ROUNDROBIN : SCHED_RANDOM;
            int kind = (int)((seed0 + r) % 5);
            p.probSync = kind == 0 ? 0x8000 : kind == 1 ? 0x1800 : kind == 2 ? 0x400 : kind == 3 ? 0xC000 : 0x3000;
            p.probPlain = kind == 0 ? 0x8000 : kind == 1 ? 0x800 : kind == 2 ? 0x100 : kind == 3 ? 0x200 : 0x3000;
            p.depth = 1 + (int)((seed0 + r) % 6); p.horizon = 300 + 400 * ((seed0 + r) % 7); p.spinLimit = 60;
            p.spurious = (seed0 + r) % 3 == 0 ? 0x1000 : 0;
            p.maxSteps = 3000000; p.fairAfter = 1500000;
            sched_begin(&p, 0);
            sched_pause(1);
            CMathWorker* W = new CMathWorker();
            g_cMathWorker = W;
            W->WorkerThreadCount = workers;
            W->StartWorkerThreads(0);
            W->SetFutexWakeup(setting);
            W->GlobalWorkerParams.ZigZag = zig ? 3 : 0;
            W->NoThreading = !threading;
            for (auto& c : callers) sched_spawn(callerMain, &c, 1);
            sched_pause(0);
            if (!guide.empty()) sched_guide(guide.data(), (long)guide.size()); else sched_guide(nullptr, 0);
            sched_join_callers();
            ev('q', 0, 0, 0);
            if (!sched_drain(20000)) onStuck("the workers never go back to sleep");
            sched_end();
            stepsTotal += sched_steps(); switchesTotal += sched_switches(); runsTotal++;
            for (int i = 0; i < MAX_WORKER_RINGS; i++) ALIGNED_FREE(W->pWorkerRings[i]);
            operator delete(W);
            std::string s = dump(nullptr);
            std::string key = s.substr(s.find("\"jobs\""));
            if (overflow) { printf("{\"tag\":\"%s\",\"stuck\":\"too many events\",\"jobs\":[],\"ev\":[]}\n", curTag.c_str()); fflush(stdout); _exit(77); }
            if (seen.insert(id + key).second) printf("%s\n", s.c_str());
        }
        fflush(stdout);
    }
    printf("{\"runs\":%ld,\"steps\":%ld,\"switches\":%ld}\n", runsTotal, stepsTotal, switchesTotal);
    return 0;
}
