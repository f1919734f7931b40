#include "engine.h"
#include "model.h"
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ctime>

std::vector<Workload> WL;
void register_containers(); void register_sched(); void register_sort(); void register_crc(); void register_crypto(); void register_text(); void register_iso(); void register_e2e();
void register_workloads() {
    register_containers(); register_sched(); register_sort(); register_crc(); register_crypto(); register_text(); register_iso(); register_e2e();
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static const Workload* find(const std::string& id) { for (auto& w : WL) if (id == w.id) { PROP = w.id; if (w.prepare) w.prepare(); return &w; } fprintf(stderr, "unknown property %s\n", id.c_str()); exit(3); }
static u64 run_seed(const char* prop, u64 seed, u64 idx) {
    u64 x = seed * 0x9E3779B97F4A7C15ull + 0x1234567; Choices::mix(x);
    for (const char* p = prop; *p; ++p) { x ^= (u64)*p; Choices::mix(x); }
    x ^= idx * 0xD1342543DE82EF95ull; Choices::mix(x); return Choices::mix(x);
}
static void run_seeded(const Workload& w, u64 seed, u64 idx, bool trace) {
    S.ch.replay = false; S.ch.idx = idx; S.ch.s = run_seed(w.id, seed, idx); S.tracing = trace; engine_run(w);
}
static void run_choices(const Workload& w, const std::vector<u32>& c, bool trace) {
    S.ch.replay = true; S.ch.in = c; S.tracing = trace; engine_run(w);
}
static std::string jesc(const std::string& s) {
    std::string r; char b[8];
    for (char ch : s) { unsigned char c = (unsigned char)ch; if (c == '"' || c == '\\') { r += '\\'; r += ch; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += ch; }
    return r;
}
struct Known { std::string prop, cls, sub; };
static std::vector<Known> known;
static void load_known(const char* f) {
    std::ifstream in(f); std::string l;
    while (std::getline(in, l)) { std::stringstream ss(l); Known k; if (std::getline(ss, k.prop, '\t') && std::getline(ss, k.cls, '\t')) { std::getline(ss, k.sub); known.push_back(k); } }
}
static int is_known() { for (size_t i = 0; i < known.size(); ++i) if (known[i].prop == PROP && known[i].cls == S.viol.cls && S.viol.msg.find(known[i].sub) != std::string::npos) return (int)i; return -1; }

struct Shared {
    volatile u64 cur[64]; volatile int busy[64];
    volatile u64 best; // lowest violating index so far
    struct R { u64 runs, steps, switches, ticks, ops, nontriv, dig, maxsteps, known[32]; bool viol; u64 vidx; char cls[64]; char msg[1500]; Stats st; u64 nh; } r[64];
};
static int cmd_run(const Workload& w, u64 seed, u64 from, u64 to, int workers, const std::string& tmp, bool selfcheck) {
    if (workers > 64) workers = 64;
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->best = ~0ull;
    double t0 = now();
    std::vector<pid_t> pids;
    fflush(stdout);
    for (int k = 0; k < workers; ++k) {
        pid_t p = fork();
        if (p) { pids.push_back(p); continue; }
        auto& r = sh->r[k];
        std::vector<u64> hs; hs.reserve((to - from) / (u64)workers + 1);
        for (u64 i = from + (u64)k; i < to; i += (u64)workers) {
            if (i > sh->best) break;
            sh->cur[k] = i; sh->busy[k] = 1;
            run_seeded(w, seed, i, false);
            if (selfcheck && i % 251 == 0 && !S.viol.set) { // same seed again, and from its recorded choices: identical event digest
                u64 d = S.digest; auto rec = S.ch.rec;
                run_seeded(w, seed, i, false); if (S.digest != d) { fprintf(stderr, "nondeterminism: run %llu differs on repetition\n", (unsigned long long)i); _exit(9); }
                run_choices(w, rec, true); if (S.digest != d) { fprintf(stderr, "nondeterminism: run %llu differs from its choices\n", (unsigned long long)i); _exit(9); }
            }
            sh->busy[k] = 0;
            ++r.runs; r.steps += S.steps; r.switches += S.switches; r.ticks += S.ticks; r.ops += S.ops; r.dig ^= S.digest * (2 * i + 1);
            if (S.steps > r.maxsteps) r.maxsteps = S.steps;
            if (S.ops >= 3 && S.faults >= 1) { ++r.nontriv; hs.push_back(S.digest ^ (S.inter * 31)); }
            if (S.viol.set) {
                int kn = is_known();
                if (kn >= 0) { if (kn < 32) ++r.known[kn]; continue; }
                r.viol = true; r.vidx = i; strncpy(r.cls, S.viol.cls.c_str(), 63); strncpy(r.msg, S.viol.msg.c_str(), 1499);
                u64 b = sh->best; while (i < b && !__sync_bool_compare_and_swap(&sh->best, b, i)) b = sh->best;
                break;
            }
        }
        r.st = ST; std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end()); r.nh = hs.size();
        std::string fn = tmp + "." + std::to_string(k); FILE* f = fopen(fn.c_str(), "wb"); if (f) { fwrite(hs.data(), 8, hs.size(), f); fclose(f); }
        _exit(0);
    }
    bool viol = false; u64 vidx = ~0ull; std::string cls, msg;
    for (int k = 0; k < workers; ++k) {
        int st; waitpid(pids[(size_t)k], &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 9) return 9;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { u64 i = sh->cur[k]; if (i < vidx) { viol = true; vidx = i; cls = "process-died"; msg = "the simulating process died"; } }
        auto& r = sh->r[k];
        if (r.viol && r.vidx < vidx) { viol = true; vidx = r.vidx; cls = r.cls; msg = r.msg; }
    }
    std::vector<u64> all; u64 runs = 0, steps = 0, sw = 0, ticks = 0, ops = 0, nt = 0, dg = 0, ms = 0; std::map<std::string, u64> st; std::vector<u8> edge(sizeof ST.edge); u64 kn[32] = {};
    for (int k = 0; k < workers; ++k) {
        auto& r = sh->r[k]; runs += r.runs; steps += r.steps; sw += r.switches; ticks += r.ticks; ops += r.ops; nt += r.nontriv; dg ^= r.dig; ms = std::max<u64>(ms, r.maxsteps);
        for (int i = 0; i < r.st.n; ++i) st[r.st.name[i]] += r.st.v[i];
        for (size_t i = 0; i < edge.size(); ++i) edge[i] |= r.st.edge[i];
        for (int i = 0; i < 32; ++i) kn[i] += r.known[i];
        std::string fn = tmp + "." + std::to_string(k); FILE* f = fopen(fn.c_str(), "rb");
        if (f) { size_t o = all.size(); all.resize(o + r.nh); size_t g = fread(&all[o], 8, r.nh, f); all.resize(o + g); fclose(f); } unlink(fn.c_str());
    }
    std::sort(all.begin(), all.end()); all.erase(std::unique(all.begin(), all.end()), all.end());
    double wall = now() - t0;
    u32 ne = 0; for (u8 e : edge) ne += e;
    printf("{\"property\":\"%s\",\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"ticks\":%llu,\"ops\":%llu,\"nontrivial\":%llu,\"distinct\":%zu,\"digest\":\"%016llx\",\"max_steps\":%llu,\"edges\":%u,\"edges_total\":%u,\"wall\":%.3f,",
        w.id, (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)ticks, (unsigned long long)ops, (unsigned long long)nt, all.size(), (unsigned long long)dg, (unsigned long long)ms, ne, engine_edges_total(), wall);
    printf("\"stats\":{"); bool first = true; for (auto& x : st) { printf("%s\"%s\":%llu", first ? "" : ",", x.first.c_str(), (unsigned long long)x.second); first = false; } printf("},");
    printf("\"known\":["); first = true; for (size_t i = 0; i < known.size() && i < 32; ++i) if (kn[i]) { printf("%s{\"entry\":%zu,\"runs\":%llu}", first ? "" : ",", i, (unsigned long long)kn[i]); first = false; } printf("],");
    printf("\"rule\":\"%s\",", jesc(w.rule).c_str());
    printf("\"samples\":[");
    if (!viol) for (int k = 0; k < 3; ++k) {
        u64 i = from + (to - from) * (u64)k / 3 + (u64)k;
        run_seeded(w, seed, i, true); std::string t = S.trace; size_t n = 0; int lines = 0; while (n < t.size() && lines < 12) if (t[n++] == '\n') ++lines;
        printf("%s{\"run\":%llu,\"digest\":\"%016llx\",\"steps\":%llu,\"choices\":%zu,\"trace_head\":\"%s\"}", k ? "," : "", (unsigned long long)i, (unsigned long long)S.digest, (unsigned long long)S.steps, S.ch.rec.size(), jesc(t.substr(0, std::min<size_t>(n, 1500))).c_str());
    }
    printf("],\"violation\":");
    if (viol) printf("{\"run\":%llu,\"class\":\"%s\",\"msg\":\"%s\"}}\n", (unsigned long long)vidx, jesc(cls).c_str(), jesc(msg).c_str());
    else printf("null}\n");
    return viol ? 1 : 0;
}

// --------------------------------------------------------------- shrinking
static std::vector<u32> strip(std::vector<u32> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; }
static std::vector<u32> shrink(const Workload& w, std::vector<u32> best, const std::string& cls, double limit, u64& tries) {
    double t0 = now(); tries = 0;
    auto better = [](const std::vector<u32>& a, const std::vector<u32>& b) { if (a.size() != b.size()) return a.size() < b.size(); return a < b; };
    auto test = [&](const std::vector<u32>& c) {
        if (now() - t0 > limit) return false;
        ++tries; run_choices(w, c, false);
        if (!S.viol.set || S.viol.cls != cls) return false;
        auto r = strip(S.ch.rec);
        if (better(r, best)) { best = r; return true; }
        return false;
    };
    best = strip(best);
    bool progress = true;
    while (progress && now() - t0 < limit) {
        progress = false;
        for (size_t k : { 512u, 128u, 64u, 32u, 16u, 8u, 5u, 4u, 3u, 2u, 1u }) {      // delete blocks
            if (k > best.size()) continue;
            for (size_t i = best.size(); i-- > 0;) {
                if (i + k > best.size()) continue;
                auto c = best; c.erase(c.begin() + (long)i, c.begin() + (long)(i + k));
                if (test(c)) { progress = true; if (i > best.size()) i = best.size(); }
                if (now() - t0 > limit) return best;
            }
        }
        for (size_t k : { 32u, 8u, 4u, 2u, 1u }) for (size_t i = 0; i + k <= best.size(); ++i) { // zero blocks
            bool nz = false; for (size_t j = 0; j < k; ++j) nz |= best[i + j] != 0;
            if (!nz) continue;
            auto c = best; for (size_t j = 0; j < k; ++j) c[i + j] = 0;
            if (test(c)) progress = true;
            if (now() - t0 > limit) return best;
        }
        for (size_t i = 0; i < best.size(); ++i) {                                        // lower values
            u32 lo = 0; int guard = 0;
            while (i < best.size() && best[i] > lo && guard++ < 40) {
                u32 mid = lo + (best[i] - lo) / 2; auto c = best; c[i] = mid;
                if (test(c)) progress = true; else { if (mid + 1 >= best[i]) { c = best; if (c[i]) { c[i] -= 1; if (test(c)) { progress = true; continue; } } break; } lo = mid + 1; }
            }
            if (now() - t0 > limit) return best;
        }
    }
    return best;
}
static void write_replay(const char* file, const Workload& w, u64 seed, u64 idx, const std::vector<u32>& c, size_t orig, u64 tries) {
    run_choices(w, c, true);
    FILE* f = fopen(file, "w"); if (!f) { perror(file); exit(3); }
    fprintf(f, "property: %s\nclass: %s\ndigest: %016llx\nseed: %llu\nrun: %llu\noriginal_choices: %zu\nminimised_choices: %zu\nshrink_runs: %llu\nviolation: %s\nchoices:", w.id, S.viol.cls.c_str(), (unsigned long long)S.digest, (unsigned long long)seed, (unsigned long long)idx, orig, c.size(), (unsigned long long)tries, S.viol.msg.c_str());
    for (u32 x : c) fprintf(f, " %u", x);
    fprintf(f, "\n---- minimised schedule and fault trace ----\n%s", S.trace.c_str());
    fclose(f);
}
static int usage() { fprintf(stderr, "usage: sim list | run PROP SEED FROM TO WORKERS TMP [selfcheck] [known FILE] | one PROP SEED IDX | shrink PROP SEED IDX OUT SECS | replay FILE\n"); return 3; }
int main(int argc, char** argv) {
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    engine_init(); model::self_test(); register_workloads();
    std::string c = argc > 1 ? argv[1] : "";
    if (c == "list") { for (auto& w : WL) printf("%s %u\n", w.id, w.quick_runs); return 0; }
    if (c == "run" && argc >= 8) {
        bool sc = false; for (int i = 8; i < argc; ++i) { if (!strcmp(argv[i], "selfcheck")) sc = true; if (!strcmp(argv[i], "known") && i + 1 < argc) load_known(argv[i + 1]); }
        return cmd_run(*find(argv[2]), strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), atoi(argv[6]), argv[7], sc);
    }
    if (c == "one" && argc >= 5) {
        auto& w = *find(argv[2]); run_seeded(w, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), true);
        printf("%sclass=%s digest=%016llx steps=%llu choices=%zu\n%s\n", S.trace.c_str(), S.viol.set ? S.viol.cls.c_str() : "none", (unsigned long long)S.digest, (unsigned long long)S.steps, S.ch.rec.size(), S.viol.msg.c_str());
        return S.viol.set ? 1 : 0;
    }
    if (c == "shrink" && argc >= 7) {
        auto& w = *find(argv[2]); u64 seed = strtoull(argv[3], 0, 10), idx = strtoull(argv[4], 0, 10);
        run_seeded(w, seed, idx, false); if (!S.viol.set) { fprintf(stderr, "run %llu does not fail\n", (unsigned long long)idx); return 2; }
        std::string cls = S.viol.cls; u64 d1 = S.digest; auto rec = S.ch.rec;
        run_seeded(w, seed, idx, false); if (S.digest != d1 || S.viol.cls != cls) { fprintf(stderr, "not repeatable\n"); return 2; }
        u64 tries = 0; auto best = shrink(w, rec, cls, atof(argv[6]), tries);
        write_replay(argv[5], w, seed, idx, best, rec.size(), tries);
        printf("class=%s digest=%016llx choices %zu -> %zu after %llu runs\n%s\n", cls.c_str(), (unsigned long long)S.digest, rec.size(), best.size(), (unsigned long long)tries, S.viol.msg.c_str());
        return S.viol.set ? 1 : 2;
    }
    if (c == "replay" && argc >= 3) {
        std::ifstream in(argv[2]); std::string l, prop, cls, dg; std::vector<u32> ch;
        while (std::getline(in, l)) {
            if (l.rfind("property: ", 0) == 0) prop = l.substr(10); else if (l.rfind("class: ", 0) == 0) cls = l.substr(7); else if (l.rfind("digest: ", 0) == 0) dg = l.substr(8);
            else if (l.rfind("choices:", 0) == 0) { std::stringstream ss(l.substr(8)); u32 x; while (ss >> x) ch.push_back(x); break; }
        }
        auto& w = *find(prop); run_choices(w, ch, true);
        char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)S.digest);
        printf("%s", S.trace.c_str());
        printf("class=%s digest=%s\n", S.viol.set ? S.viol.cls.c_str() : "none", b);
        bool same = S.viol.set && S.viol.cls == cls && dg == b;
        printf(same ? "REPRODUCED\n" : "NOT REPRODUCED\n");
        return same ? 1 : S.viol.set ? 2 : 0;
    }
    return usage();
}
