// C33 separate objects on different threads
#include "scn.h"
#include <pthread.h>
#include <unistd.h>
#include <errno.h>
#include <sys/wait.h>

struct Job { std::vector<std::unique_ptr<Scn>> q; std::vector<std::string> got, again; std::vector<int> rc, rc2; pthread_barrier_t *bar; int reps; };
static void runJob(Job &j, std::vector<std::string> &out, std::vector<int> &rc, bool wait) {
    if (!wait) { for (size_t i = 0; i < j.q.size(); i++) { j.q[i]->setup(); std::string r; rc.push_back(j.q[i]->run(r)); out.push_back(r); j.q[i]->drop(); } return; }
    for (size_t i = 0; i < j.q.size(); i++) { Scn &x = *j.q[i]; x.setup(); if (j.bar) pthread_barrier_wait(j.bar); std::string r, r1; int k = 0; for (int t = 0; t < j.reps; t++) { r1.clear(); int kk = x.run(r1); if (t == 0) { r = r1; k = kk; } else if (r1 != r || kk != k) failf("%s: repeated on the same thread while others run, the result changed from %d %s to %d %s", x.name.c_str(), k, r.substr(0, 200).c_str(), kk, r1.substr(0, 200).c_str()); } rc.push_back(k); out.push_back(r); x.drop(); }
}
static void *threadMain(void *p) { Job &j = *(Job *)p; runJob(j, j.got, j.rc, true); return NULL; }
PROP(C33, concurrent, 1, "*", "at least two threads ran operations of the same kind at the same time") {
    int nt = 2 + s.below(4), k = 1 + s.below(4), reps = 1 + s.below(3); bool bar = s.below(3) != 0; std::vector<Job> jobs(nt); caseCpuLimit(200);
    std::vector<int> kinds(k); for (auto &x : kinds) x = s.below(NSCN);
    bool sameKind = s.below(4) != 0, sameInput = s.below(4) == 0; if (sameKind) nontrivial();
    if (sameInput) { // every thread gets the same choices
        uint64_t sd = s.raw(3); for (auto &j : jobs) { Src t; t.random = true; t.rng = Rng(sd); t.pos = 1 << 20; t.in = NULL; t.inlen = 0; for (int i = 0; i < k; i++) j.q.push_back(genScn(t, kinds[i], 4)); }
    } else for (auto &j : jobs) for (int i = 0; i < k; i++) j.q.push_back(genScn(s, sameKind ? kinds[i] : s.below(NSCN), 4));
    for (int i = 0; i < k; i++) cls(jobs[0].q[i]->name.c_str()); cls(sameKind ? "same kinds" : "mixed kinds"); cls(bar ? "in step" : "free running"); NOTE("%d threads, %d operations each, repeated %d times%s%s", nt, k, reps, bar ? ", in step" : "", sameInput ? ", same inputs" : "");
    // a fresh process per round, so that first use is concurrent too
    for (int round = 0; round < (strcmp(flavour(), "tsan") ? 2 : 1); round++) {
        pid_t pid = fork(); CHECK(pid >= 0, "fork failed");
        if (pid == 0) {
            alarm(300); pthread_barrier_t b; pthread_barrier_init(&b, NULL, nt); std::vector<pthread_t> th(nt);
            for (auto &j : jobs) { j.bar = bar ? &b : NULL; j.reps = reps; }
            for (int i = 0; i < nt; i++) if (pthread_create(&th[i], NULL, threadMain, &jobs[i])) _exit(77);
            for (int i = 0; i < nt; i++) pthread_join(th[i], NULL);
            for (auto &j : jobs) runJob(j, j.again, j.rc2, false);
            for (int t = 0; t < nt; t++) for (size_t i = 0; i < jobs[t].q.size(); i++) if (jobs[t].got[i] != jobs[t].again[i] || jobs[t].rc[i] != jobs[t].rc2[i]) failf("%s on thread %d of %d gave %d %s, alone it gives %d %s", jobs[t].q[i]->name.c_str(), t, nt, jobs[t].rc[i], jobs[t].got[i].substr(0, 300).c_str(), jobs[t].rc2[i], jobs[t].again[i].substr(0, 300).c_str());
            _exit(0);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { throw Discard(); }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); kill(getpid(), WTERMSIG(st)); _exit(1);
    }
}
