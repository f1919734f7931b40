#include "core.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <asm/prctl.h>
#include <sys/syscall.h>
#include "engine.h"

Sim S;
const char* PROP = "";
Stats ST;

// ------------------------------------------------------------ addresses
static const uintptr_t ARENA = 0x200000000ull; static const size_t ARENA_N = 96u << 20;
static const uintptr_t STACKS = 0x220000000ull; static const size_t STACK_N = 256u << 10, STACK_GAP = 64u << 10; static const int NSTACK = 250;
static const uintptr_t SHADOW_OFF = 0x7fff8000ull;
static size_t arena_pos, arena_high;
static const size_t RZ = 48;
extern "C" { extern char __executable_start, end; }
static uintptr_t img_lo, img_hi, tls_lo, tls_hi;
static void* main_sp;
static bool stack_used[NSTACK];
static YieldWhy why;
static uintptr_t cur_lo, cur_hi; // stack of the running coroutine
static bool in_coro;

static inline int8_t* shadow(uintptr_t a) { return (int8_t*)((a >> 3) + SHADOW_OFF); }

// -------------------------------------------------------------- choices
u32 Choices::u32val() {
    switch (pick(8)) {
        case 0: return 0;
        case 1: return pick(4);
        case 2: return pick(256);
        case 3: return 0xFFFFFFFFu - pick(4);
        case 4: return 0x80000000u - 2 + pick(4);
        case 5: return 1u << pick(32);
        case 6: { u32 b = pick(256); return b * 0x01010101u; }
        default: { u32 a = pick(65536); return (a << 16) | pick(65536); }
    }
}

u32 Choices::logsize(u32 lo, u32 hi) {
    u32 a = 0, b = 0; while ((2ull << a) <= lo) ++a; while ((2ull << b) <= hi) ++b;
    u32 k = a + pick(b - a + 1); u64 v;
    switch (pick(4)) {
        case 0: v = (1ull << k) - 1 + pick(3); break;
        case 1: { static const u32 p[] = { 10, 50, 100, 500, 1000, 5000, 10000, 50000 }; u32 best = 1u << k; for (u32 q : p) if (q >= (1u << k) && q < (2ull << k)) best = q; v = best + pick(2); break; }
        default: v = (1ull << k) + pick(1u << k);
    }
    return v < lo ? lo : v > hi ? hi : (u32)v;
}

// --------------------------------------------------------------- digest
void dig_bytes(const void* p, size_t n) {
    const u8* b = (const u8*)p; u64 h = 1469598103934665603ull ^ n;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001B3ull;
    dig(h);
}
static void clean(char* b) { for (; *b; ++b) if ((u8)*b < 32 || (u8)*b > 126) *b = '?'; } // whatever simulated memory contained
void trace_line(const char* fmt, ...) {
    char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); clean(b);
    char h[96]; snprintf(h, sizeof h, "[step %llu%s%s] ", (unsigned long long)S.steps, S.cur ? " task " : "", S.cur ? S.cur->name.c_str() : "");
    if (S.trace.size() < 400000) { S.trace += h; S.trace += b; S.trace += '\n'; }
}
std::string hex(const void* p, size_t n) {
    std::string s; const u8* b = (const u8*)p; char t[4];
    for (size_t i = 0; i < n && i < 64; ++i) { snprintf(t, 4, "%02x", b[i]); s += t; }
    if (n > 64) s += "...";
    return s;
}
std::string quote(const void* p, size_t n) {
    std::string s = "'"; const u8* b = (const u8*)p; char t[8];
    for (size_t i = 0; i < n && i < 120; ++i) { if (b[i] >= 32 && b[i] < 127) s += (char)b[i]; else { snprintf(t, 8, "\\x%02x", b[i]); s += t; } }
    s += n > 120 ? "'..." : "'";
    return s;
}
void fail(const char* cls, const char* fmt, ...) {
    S.mute = false;
    if (!S.viol.set) {
        char b[2000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); clean(b);
        S.viol.set = true; S.viol.cls = cls; S.viol.msg = b;
        if (S.cur && S.cur->scope) { S.viol.msg += " [in "; S.viol.msg += S.cur->scope->name; S.viol.msg += "]"; }
        LOG("VIOLATION %s: %s", cls, S.viol.msg.c_str());
    }
    siglongjmp(S.jb, 1);
}

// ---------------------------------------------------------------- stats
int stat_id(const char* name) {
    for (int i = 0; i < ST.n; ++i) if (!strcmp(ST.name[i], name)) return i;
    if (ST.n >= Stats::MAX) { fprintf(stderr, "too many stats\n"); abort(); }
    strncpy(ST.name[ST.n], name, sizeof(ST.name[0]) - 1);
    return ST.n++;
}
void stat_add(int id, u64 n) { ST.v[id] += n; }

// --------------------------------------------------------------- arena
bool in_arena(const void* p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_N; }
static void dirty(u8* p, size_t n) {
    switch (S.dirt & 3) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xFF, n); break;
        case 2: memset(p, 0x5A, n); break;
        default: { u64 x = S.dirt_s; for (size_t i = 0; i < n; i += 8) { u64 v = Choices::mix(x); size_t k = n - i < 8 ? n - i : 8; memcpy(p + i, &v, k); } S.dirt_s = x; }
    }
}
void scribble(void* p, size_t n) { dirty((u8*)p, n); }
u8* alloc(size_t n, u32 align) {
    size_t at = arena_pos + RZ;
    if (align > 1) at = (at + align - 1) & ~(size_t)(align - 1);
    else at += (S.dirt >> 2) & 7; // run-drawn misalignment of plain byte buffers
    if (at + n + RZ > ARENA_N) { fprintf(stderr, "arena exhausted (%zu)\n", n); abort(); }
    arena_pos = at + n;
    if (arena_pos > arena_high) arena_high = arena_pos;
    u8* p = (u8*)(ARENA + at);
    dirty(p, n);
    return p;
}
u8* dup_bytes(const void* p, size_t n) { u8* q = alloc(n); if (n) memcpy(q, p, n); return q; }
char* dup_str(const std::string& s) { return (char*)dup_bytes(s.c_str(), s.size() + 1); }
u8* tmp(size_t n, u32 slot, u32 align) {
    if (!S.reuse || !S.cur) return alloc(n, align);
    auto& e = S.reused[(u32)S.cur->id << 8 | slot];
    if (!e.first || n > e.second) { size_t cap = n > 100 ? 2 * n : 200; if (n > 20000) cap = n; e = { alloc(cap, align), cap }; }
    else { PROBE("work_buffer_reused"); dirty(e.first, n); }
    return e.first;
}
u8* tmp_bytes(const void* p, size_t n, u32 slot) { u8* q = tmp(n, slot); if (n) memcpy(q, p, n); return q; }
// a change that common checksums and hashes of the content do not see
static void same_hash(u8* b, size_t n) {
    static const u64 polys[14] = { 0x107, 0x131, 0x11D, 0x12F, 0x19B, 0x11021, 0x18005, 0x13D65, 0x18BB7, 0x10589, 0x104C11DB7ull, 0x11EDC6F41ull, 0x1A833982Bull, 0x1814141ABull };
    PROBE("content_of_equal_hash");
    u32 k = S.ch.pick(5); u8 x = (u8)(1 + S.ch.pick(3));
    if (k < 2) { // the generator polynomial of a checksum, in either bit order
        u64 p = polys[S.ch.pick(14)]; u32 w = p >> 32 ? 32 : p >> 16 ? 16 : 8; if (n * 8 <= w) { b[n - 1] ^= 1; return; }
        u32 at = S.ch.pick((u32)std::min<u64>(n * 8 - w, 1u << 30));
        for (u32 i = 0; i <= w; ++i) if (p >> (w - i) & 1) b[(at + i) / 8] ^= (u8)(k ? 1u << ((at + i) % 8) : 0x80u >> ((at + i) % 8));
    } else if (k == 2 && n >= 3) { // sums over positions
        u32 i = S.ch.pick((u32)n - 2), d = 1 + S.ch.pick((u32)std::min<size_t>((n - 1 - i) / 2, 4));
        b[i] = (u8)(b[i] + x); b[i + d] = (u8)(b[i + d] - 2 * x); b[i + 2 * d] = (u8)(b[i + 2 * d] + x);
    } else if (k == 3 && n >= 2) { // multiplicative hashes
        u32 i = S.ch.pick((u32)n - 1), m = S.ch.pick(2) ? 31 : 33;
        if (b[i] < 255 && b[i + 1] >= m) { ++b[i]; b[i + 1] = (u8)(b[i + 1] - m); } else if (b[i] && b[i + 1] + m < 256) { --b[i]; b[i + 1] = (u8)(b[i + 1] + m); } else b[i] ^= 1;
    } else if (n >= 5) memcpy(b, memcmp(b, "yzfzp", 5) ? "yzfzp" : "geepf", 5); // FNV-1a
    else b[0] ^= x;
}
void vary(u8* b, size_t n) {
    if (!n) return;
    PROBE("content_almost_as_before");
    u32 i = S.ch.pick((u32)n), j = S.ch.pick((u32)n); u8 x = (u8)(S.ch.pick(2) ? 1u << S.ch.pick(8) : 1 + S.ch.pick(255));
    switch (S.ch.pick(10)) {
        case 0: b[i] ^= x; break;
        case 1: case 4: std::swap(b[i], b[j]); break;
        case 2: case 5: b[i] = (u8)(b[i] + x); b[j] = (u8)(b[j] - x); break;
        case 3: case 6: b[i] ^= x; b[j] ^= x; break;
        default: same_hash(b, n); break;
    }
}
void almost(void* out, size_t room, const void* want, size_t n) {
    n = std::min(n, room); if (!n || S.ch.pick(10) != 9) return;
    PROBE("output_room_holds_nearly_the_answer");
    memcpy(out, want, n);
    if (S.ch.pick(8)) for (u32 t = 1 + S.ch.pick(2); t; --t) { if (S.ch.pick(2)) vary((u8*)out, n); else ((u8*)out)[S.ch.pick((u32)n)] ^= (u8)(1 + S.ch.pick(255)); }
}
void fill_bytes(void* p, size_t n) {
    u8* b = (u8*)p;
    u32 how = S.ch.pick(10);
    if (how == 7) {
        for (auto& o : S.fills) if (o.size() == n && n) { memcpy(b, o.data(), n); vary(b, n); how = 11; break; }
    }
    if (how == 8) { // the same few bytes over and over, or nothing but a few bytes
        u64 x = S.ch.pick(65536); u32 per = 1 + S.ch.pick(9); bool sparse = S.ch.pick(2);
        for (size_t i = 0; i < n; ++i) b[i] = sparse ? 0 : i < per ? (u8)Choices::mix(x) : b[i - per];
        if (sparse) for (u32 k = 0; k < per && n; ++k) { u64 r = Choices::mix(x); b[r % n] = (u8)(r >> 40); }
        PROBE("periodic_or_sparse_content");
    } else if (how == 9) { // a run of equal bytes inside
        u64 x = S.ch.pick(65536); for (size_t i = 0; i < n; ++i) b[i] = (u8)Choices::mix(x);
        if (n) { u32 a = S.ch.pick((u32)n), l = S.ch.pick((u32)n - a) + 1; memset(b + a, S.ch.pick(2) ? 0 : 0xFF, l); PROBE("content_with_a_run"); }
        how = 10;
    }
    if (how < 8) switch (how % 6) {
        case 0: memset(b, 0, n); break;
        case 1: memset(b, (int)S.ch.pick(256), n); break;
        case 2: { u32 k = S.ch.pick(256); for (size_t i = 0; i < n; ++i) b[i] = (u8)(k + i); break; }
        case 3: { u64 x = S.ch.pick(65536); for (size_t i = 0; i < n; ++i) b[i] = (u8)(0x80 | Choices::mix(x)); break; }
        default: { u64 x = S.ch.pick(65536); for (size_t i = 0; i < n; ++i) b[i] = (u8)Choices::mix(x); }
    }
    if (n && n <= 4096) { S.fills[S.nfill % S.fills.size()].assign(b, b + n); ++S.nfill; }
}
Scope& Scope::add(const void* p, size_t len, bool w) {
    if (n >= MAX) { fprintf(stderr, "scope overflow\n"); abort(); }
    r[n++] = { (uintptr_t)p, (uintptr_t)p + len, w };
    return *this;
}
bool readable_private(const void* p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    return (a >= cur_lo && a + n <= cur_hi) || (a >= img_lo && a + n <= img_hi);
}

// ----------------------------------------------------------- coroutines
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
static void to_main(YieldWhy w) {
    Task* t = S.cur; why = w;
    in_coro = false;
    sim_switch(&t->sp, main_sp);
}
static void coro_entry() {
    S.cur->body();
    S.cur->st = T_DONE;
    to_main(Y_DONE);
    abort();
}
static uintptr_t stack_lo(int i) { return STACKS + (size_t)i * (STACK_N + STACK_GAP); }
static void start_coro(Task* t) {
    int i = 0; while (i < NSTACK && stack_used[i]) ++i;
    if (i == NSTACK) { fprintf(stderr, "out of stacks\n"); abort(); }
    stack_used[i] = true; t->stack = i;
    uintptr_t lo = stack_lo(i);
    memset(shadow(lo), 0, STACK_N >> 3);
    dirty((u8*)(lo + STACK_N - 3072), 3072);
    void** sp = (void**)(lo + STACK_N - 64);
    *--sp = nullptr; // alignment + fake return
    *--sp = (void*)coro_entry;
    for (int k = 0; k < 6; ++k) *--sp = nullptr;
    t->sp = sp;
}
static void resume(Task* t) {
    S.cur = t; cur_lo = stack_lo(t->stack); cur_hi = cur_lo + STACK_N; in_coro = true;
    if (t->img) image_load(*t->img);
    sim_switch(&main_sp, t->sp);
    if (t->img) image_save(*t->img);
    S.cur = nullptr; in_coro = false; cur_lo = cur_hi = 0;
}
static void free_stack(Task* t) { if (t->stack >= 0) { stack_used[t->stack] = false; t->stack = -1; } }

// ------------------------------------------------------------ scheduling
static const int64_t NEVER = INT64_MAX / 2;
static int64_t next_gap() {
    if (!S.sched_on || S.pol.mode == 0 || S.preempts >= S.pol.max_preempt) return NEVER;
    if (S.pol.mode == 3) { u32 v = S.ch.pick(9); return v ? v : NEVER; }
    if (S.pol.mode == 2) { u32 v = S.ch.pick(48); return v ? v : NEVER; }
    u32 v = S.ch.pick(10);
    if (v < 2) return NEVER;
    return 1 + S.ch.pick(1u << (v + 1));
}
void draw_policy(u32 kill_pm, bool allow_nest) {
    S.pol.mode = S.ch.pick(4);
    S.pol.nest = allow_nest && S.ch.pick(3) == 2;
    S.pol.stall = S.ch.pick(4) == 3;
    S.pol.kill_pm = kill_pm && S.ch.pick(2) ? kill_pm : 0;
    static const u32 sw[4] = { 0, 20, 60, 95 };
    S.pol.switch_pct = sw[S.ch.pick(4)];
    if (S.crowd) { S.pol.mode = 2 + S.pol.mode / 2; S.pol.nest = allow_nest && S.ch.pick(5) != 0; }
}
// rarely, many parties instead of a few, most of them inside the library at once
u32 crowd(u32 usual, u64 at) {
    if (!S.ch.rare(1009, at * 3)) return usual;
    S.crowd = true; PROBE("crowd"); return 8 + S.ch.pick(S.ch.pick(2) ? 12 : 72);
}
Task* spawn(const std::string& name, std::function<void()> body) {
    auto t = std::make_unique<Task>();
    t->id = (int)S.tasks.size(); t->name = name; t->body = std::move(body);
    S.tasks.push_back(std::move(t));
    return S.tasks.back().get();
}
static void kill_task(Task* t) {
    LOG("CRASH: task %s abandoned%s%s", t->name.c_str(), t->scope ? " inside " : "", t->scope ? t->scope->name : "");
    dig(0xDEAD0000u + (u32)t->id);
    t->st = T_DEAD; free_stack(t);
    for (Lock* l : t->held) if (l->owner == t) l->owner = nullptr;
    if (S.on_kill) S.on_kill(t);
}
static void preempt_slow() {
    Task* t = S.cur;
    if (t && t->doomed) to_main(Y_PREEMPT); // never resumed
    if (!t || t->irq_locked || !S.sched_on) { S.countdown = NEVER; return; }
    ++S.preempts;
    if (S.isr_hook) {
        bool o = t->irq_locked; t->irq_locked = true;
        S.isr_hook();
        t->irq_locked = o;
    }
    to_main(Y_PREEMPT);
}
void preempt_point() {
    if (!S.cur || !S.sched_on) return;
    ++S.steps;
    if (--S.countdown <= 0) preempt_slow();
}
void op_end() {
    if (!S.sched_on || !S.cur || S.cur->irq_locked) return;
    to_main(Y_OPEND);
}
void lock(Lock& l) {
    Task* t = S.cur;
    while (l.owner && l.owner != t) { t->st = T_BLOCKED; t->want = &l; to_main(Y_BLOCK); }
    if (t) { l.owner = t; t->held.push_back(&l); }
}
void unlock(Lock& l) {
    Task* t = S.cur; l.owner = nullptr;
    if (t) for (size_t i = t->held.size(); i-- > 0;) if (t->held[i] == &l) { t->held.erase(t->held.begin() + (long)i); break; }
}
static bool runnable(Task* t) {
    if (t->st == T_BLOCKED && !t->want->owner) { t->st = T_READY; t->want = nullptr; }
    if (t->st == T_STALLED && t->wake <= S.switches) t->st = T_READY;
    return t->st == T_READY;
}
void run_tasks() {
    S.sched_on = true;
    Task* last = nullptr; YieldWhy lw = Y_OPEND;
    std::vector<Task*> c;
    for (;;) {
        ++S.switches;
        // an interrupted task resumes only after the interrupting one has finished its operation
        while (!S.nest.empty() && (S.nest.back()->st == T_DONE || S.nest.back()->st == T_DEAD)) S.nest.pop_back();
        if (lw == Y_OPEND && last && !S.nest.empty() && S.nest.back() == last) S.nest.pop_back();
        c.clear();
        Task* next = nullptr;
        bool last_ok = last && runnable(last);
        if (lw == Y_PREEMPT && last_ok) {
            if (S.pol.kill_pm && last->killable && S.ch.permille(S.pol.kill_pm)) { FAULT("crash_mid_call"); kill_task(last); last = nullptr; lw = Y_OPEND; continue; }
            c.push_back(last);
            for (auto& t : S.tasks) if (t.get() != last && runnable(t.get())) {
                if (S.pol.nest) { bool inn = false; for (Task* q : S.nest) inn |= q == t.get(); if (inn) continue; }
                c.push_back(t.get());
            }
            u32 k = S.ch.pick((u32)c.size());
            next = c[k];
            if (next != last) {
                FAULT("preemption");
                if (S.pol.nest) { FAULT("interrupt_nesting"); if (S.nest.empty() || S.nest.back() != last) S.nest.push_back(last); S.nest.push_back(next); }
                else if (S.pol.stall && S.ch.chance(15)) { FAULT("stalled_task"); last->st = T_STALLED; last->wake = S.switches + 1 + S.ch.pick(40); }
                LOG("preempted at step, %s continues", next->name.c_str());
            }
        } else {
            if (!S.nest.empty()) {
                for (size_t i = S.nest.size(); i-- > 0;) if (runnable(S.nest[i])) { next = S.nest[i]; break; }
            }
            if (!next) {
                if (last_ok) c.push_back(last);
                for (auto& t : S.tasks) if (t.get() != last && runnable(t.get())) c.push_back(t.get());
                if (c.empty()) {
                    Task* w = nullptr;
                    for (auto& t : S.tasks) if (t->st == T_STALLED && (!w || t->wake < w->wake)) w = t.get();
                    if (!w) break;
                    S.switches = w->wake > S.switches ? w->wake : S.switches; continue;
                }
                u32 k = 0;
                if (c.size() > 1) {
                    if (!last_ok || S.ch.chance(S.pol.switch_pct)) k = S.ch.pick((u32)c.size());
                }
                next = c[k];
            }
        }
        if (next->stack < 0) start_coro(next);
        if (next != last || lw == Y_PREEMPT) { S.inter = (S.inter ^ ((u64)next->id + 1 + (S.steps << 5))) * 0x100000001B3ull; }
        dig((u64)next->id * 131 + lw);
        S.countdown = next_gap();
        resume(next);
        last = next; lw = why;
        if (next->st == T_DONE) { free_stack(next); lw = Y_OPEND; }
    }
    S.sched_on = false;
    for (auto& t : S.tasks) if (t->st == T_BLOCKED) fail("deadlock", "task %s blocked for ever", t->name.c_str());
}
static bool alone(const char* name, std::function<void()>& body, Image* img, int64_t doom) {
    bool o = S.sched_on; S.sched_on = false;
    auto t = std::make_unique<Task>(); t->name = name; t->id = 90; t->img = img; t->body = std::move(body); t->irq_locked = true; t->doomed = doom > 0;
    Task* p = t.get(); S.tasks.push_back(std::move(t)); // owned by the run: survives a long jump
    start_coro(p); S.countdown = doom > 0 ? doom : NEVER;
    resume(p); bool done = p->st == T_DONE;
    free_stack(p);
    S.sched_on = o; body = std::move(p->body);
    S.tasks.pop_back();
    return done;
}
void solo(const char* name, std::function<void()> body, Image* img) { alone(name, body, img, 0); }

// A library in use for a long time.  Whatever it keeps of earlier calls (a
// counter, a generation) passes through 8- or 16-bit limits; every one of the
// calls is checked by its workload.
u32 aged(u64 at, u64 every) {
    if (S.ch.rare(2003, at)) return 200 + S.ch.pick(1000);
    if (S.ch.rare(every, at * 7 + 100)) return 65300 + S.ch.pick(600);
    return 0;
}
void age(u32 n, std::function<void(u32)> call, bool abandon, Image* img) {
    PROBE("aged_library"); if (n > 60000) PROBE("aged_library_over_65535_calls");
    cpu_limit(300); bool r = S.reuse; S.reuse = true; abandon = abandon && S.ch.pick(3) == 2; u32 m = abandon ? 1 + S.ch.pick(200) : 1, c = abandon ? S.ch.pick(64) : 0, keep = abandon ? 2 + S.ch.pick(300) : 1;
    LOG("%u calls before the run proper (not all shown)%s", n, abandon ? ", most of them abandoned" : "");
    if (!abandon) solo("ageing", [&] { for (u32 i = 0; i < n; ++i) { S.mute = i > 2 && i + 3 < n; call(i); } }, img);
    else for (u32 i = 0; i < n; ++i) {
        S.mute = i > 2 && i + 3 < n; std::function<void()> f = [&call, i] { call(i); };
        if (i % keep == keep - 1 || i + 2 >= n) solo("ageing", f, img);
        else if (!alone("ageing", f, img, 1 + (i * 7 + c) % m)) { FAULT("crash_mid_call"); LOG("CRASH: call number %u abandoned", i + 1); }
    }
    S.mute = false; S.reuse = r; cpu_limit(60);
}

// -------------------------------------------------------- library calls
// the stack area a call is about to use holds run-determined garbage, different for every call
__attribute__((noinline)) static void dirty_stack() {
    volatile u8 area[1024]; u8* p = (u8*)area;
    asm volatile("" : "+r"(p) : : "memory");
    u64 x = S.dirt_s;
    if ((S.dirt & 3) == 3) { x = x * 6364136223846793005ull + 1442695040888963407ull; S.dirt_s = x; u64 y = x; for (size_t i = 0; i < sizeof area; i += 8) { y = y * 0xD1342543DE82EF95ull + x; memcpy(p + i, &y, 8); } }
    else { x = S.dirt_s = x * 6364136223846793005ull + 1442695040888963407ull; static const u8 pat[4] = { 0, 0xFF, 0x5A, 1 }; memset(p, pat[(x >> 33) & 3], sizeof area); }
    asm volatile("" : : "r"(p) : "memory");
}
CallGuard::CallGuard(Scope& sc) : s(sc) {
    if (!S.cur) { fprintf(stderr, "library call %s outside a task\n", sc.name); abort(); }
    s.prev = S.cur->scope; S.cur->scope = &s; ++S.cur->calls;
    if (s.budget < S.min_budget) s.budget = S.min_budget;
    s.top = s.low = (uintptr_t)__builtin_frame_address(0);
    dirty_stack();
}
CallGuard::~CallGuard() { if (S.on_call) S.on_call(s, s.top - s.low); if (S.cur) S.cur->scope = s.prev; ++S.ops; }

// ----------------------------------------------------------------- hooks
static inline bool shadow_bad(uintptr_t a, size_t n) {
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        int8_t v = *(int8_t*)(g + SHADOW_OFF);
        if (v == 0) continue;
        if (v < 0) return true;
        uintptr_t last = a + n - 1; uintptr_t off = (last >> 3) == g ? (last & 7) : 7;
        if ((int8_t)off >= v) return true;
    }
    return false;
}
[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool w, const char* what) {
    char where[120] = "";
    Scope* s = S.cur ? S.cur->scope : nullptr;
    if (s) for (int i = 0; i < s->n; ++i) {
        long d1 = (long)(a - s->r[i].hi), d0 = (long)(s->r[i].lo - a);
        if (a >= s->r[i].hi && d1 < 64) { snprintf(where, sizeof where, ", %ld past the end of a %zu-byte object", d1, (size_t)(s->r[i].hi - s->r[i].lo)); break; }
        if (a < s->r[i].lo && d0 <= 64) { snprintf(where, sizeof where, ", %ld before a %zu-byte object", d0, (size_t)(s->r[i].hi - s->r[i].lo)); break; }
    }
    fail(what, "%zu-byte %s outside the memory the call was given%s", n, w ? "write" : "read", where);
}
static void check_access(uintptr_t a, size_t n, bool w) {
    if (a - ARENA < ARENA_N) {
        Scope* s = S.cur ? S.cur->scope : nullptr;
        if (!s) fail("harness", "library access outside a call");
        bool ro_hit = false;
        for (Region& h : S.heaps) if (a >= h.lo && a + n <= h.hi) return;
        for (int i = 0; i < s->n; ++i) if (a >= s->r[i].lo && a + n <= s->r[i].hi) { if (!w || s->r[i].w) return; ro_hit = true; }
        // an access may span two adjacent regions only byte-wise; treat as out of bounds
        if (ro_hit) fail("ro-write", "write to memory that is only an input of the call");
        bad_access(a, n, w, w ? "oob-write" : "oob-read");
    }
    if (a >= cur_lo && a + n <= cur_hi) {
        if (shadow_bad(a, n)) bad_access(a, n, w, "stack-oob");
        return;
    }
    if (a >= img_lo && a + n <= img_hi) {
        if (shadow_bad(a, n)) bad_access(a, n, w, "static-oob");
        if (w && S.no_static_writes) fail("static-write", "%zu-byte write to a variable shared by all calls of the library", n);
        if (w) { static int id = stat_id("probe.library_static_write"); stat_add(id); }
        return;
    }
    if (a >= tls_lo && a + n <= tls_hi) return;
    bad_access(a, n, w, w ? "wild-write" : "wild-read");
}
static inline void step() {
    ++S.steps;
    Task* t = S.cur;
    if (t && t->scope) {
        if (++t->scope->steps > t->scope->budget) fail("hang", "call not finished after %llu steps", (unsigned long long)t->scope->budget);
        if (--S.countdown <= 0) preempt_slow();
    }
}
static inline __attribute__((always_inline)) void deepest() {
    Scope* s = S.cur ? S.cur->scope : nullptr; uintptr_t f = (uintptr_t)__builtin_frame_address(0);
    if (s && f < s->low) s->low = f;
}
static inline __attribute__((always_inline)) void acc(uintptr_t a, size_t n, bool w) {
    if (!in_coro) return;
    deepest();
    check_access(a, n, w);
    step();
}
extern "C" {
#define ACC(n) \
    void __asan_load##n##_noabort(uintptr_t a) { acc(a, n, false); } \
    void __asan_store##n##_noabort(uintptr_t a) { acc(a, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(uintptr_t a, size_t n) { if (n) acc(a, n, false); }
void __asan_storeN_noabort(uintptr_t a, size_t n) { if (n) acc(a, n, true); }
void __asan_handle_no_return(void) {}
void __asan_handle_no_return_noabort(void) {}
void __asan_alloca_poison(uintptr_t, size_t) {}
void __asan_allocas_unpoison(uintptr_t, uintptr_t) {}
#define SHD(x) void __asan_set_shadow_##x(uintptr_t a, size_t n) { memset((void*)a, 0x##x, n); }
SHD(00) SHD(01) SHD(02) SHD(03) SHD(04) SHD(05) SHD(06) SHD(07) SHD(f1) SHD(f2) SHD(f3) SHD(f5) SHD(f8)
struct AsanGlobal { uintptr_t beg, size, size_rz, name, mod, dyn, loc, odr; };
static struct { AsanGlobal* g; size_t n; } regs[512]; static int nregs;
void __asan_register_globals(AsanGlobal* g, size_t n) { if (nregs < 512) regs[nregs++] = { g, n }; }
void __asan_unregister_globals(AsanGlobal*, size_t) {}
void __asan_init(void) {}
void __asan_version_mismatch_check_v8(void) {}

static u32 nguards;
void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b) { if (a == b || *a) return; for (; a < b; ++a) *a = ++nguards; }
void __sanitizer_cov_trace_pc_guard(u32* g) {
    if (!in_coro) return;
    if (*g < sizeof ST.edge) ST.edge[*g] = 1;
    deepest(); step();
}

// C library calls made by the library under test (redirected by objcopy):
// same semantics, byte-wise access checks, a preemption point at every byte.
static void span(uintptr_t a, size_t n, bool w) { if (n && in_coro) check_access(a, n, w); }
void* sim_memcpy(void* d, const void* s, size_t n) {
    span((uintptr_t)s, n, false); span((uintptr_t)d, n, true);
    u8* x = (u8*)d; const u8* y = (const u8*)s;
    if (!in_coro || !S.cur || !S.cur->scope) { memcpy(d, s, n); return d; }
    size_t i = 0;
    while (i < n) {
        size_t k = n - i;
        if (S.countdown <= (int64_t)k) k = S.countdown > 1 ? (size_t)S.countdown - 1 : 0;
        if (k < n - i && (((uintptr_t)x | (uintptr_t)y) & 7) == 0) k &= ~(size_t)7;
        for (size_t j = 0; j < k; ++j) x[i + j] = y[i + j];
        i += k; S.countdown -= (int64_t)k; S.steps += k; S.cur->scope->steps += k;
        // aligned words are copied whole, as C libraries and compilers do: a pointer is never seen half copied
        if (i < n) { step(); size_t w = (((uintptr_t)(x + i) | (uintptr_t)(y + i)) & 7) == 0 && n - i >= 8 ? 8 : 1; if (w == 8) *(volatile u64*)(x + i) = *(const volatile u64*)(y + i); else x[i] = y[i]; i += w; }
    }
    return d;
}
void* sim_memmove(void* d, const void* s, size_t n) {
    if (d <= s || (const u8*)s + n <= (u8*)d) return sim_memcpy(d, s, n);
    span((uintptr_t)s, n, false); span((uintptr_t)d, n, true);
    for (size_t i = n; i-- > 0;) { if (in_coro) step(); ((u8*)d)[i] = ((const u8*)s)[i]; }
    return d;
}
void* sim_memset(void* d, int c, size_t n) {
    span((uintptr_t)d, n, true);
    for (size_t i = 0; i < n; ++i) { if (in_coro) step(); ((u8*)d)[i] = (u8)c; }
    return d;
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    const u8 *x = (const u8*)a, *y = (const u8*)b;
    // C permits memcmp to read all n bytes of both
    span((uintptr_t)x, n, false); span((uintptr_t)y, n, false);
    for (size_t i = 0; i < n; ++i) { if (in_coro) step(); if (x[i] != y[i]) return (int)x[i] - (int)y[i]; }
    return 0;
}
void* __asan_memcpy(void* d, const void* s, size_t n) { return sim_memcpy(d, s, n); }
void* __asan_memmove(void* d, const void* s, size_t n) { return sim_memmove(d, s, n); }
void* __asan_memset(void* d, int c, size_t n) { return sim_memset(d, c, n); }
// memory from the system: refused, or granted inside the arena, as the workload says
void* sim_malloc(size_t n) {
    if (S.heap == 0 || (S.heap == 2 && S.ch.pick(2) == 0) || n > (1u << 20)) { FAULT("allocation_failed"); return nullptr; }
    PROBE("allocation_granted"); u8* p = alloc(n, 16); S.heaps.push_back({ (uintptr_t)p, (uintptr_t)p + n, true }); return p;
}
void sim_free(void* p) { for (size_t i = S.heaps.size(); i-- > 0;) if (S.heaps[i].lo == (uintptr_t)p) { S.heaps.erase(S.heaps.begin() + (long)i); return; } if (p) fail("bad-free", "release of memory that was not obtained"); }
void* sim_calloc(size_t k, size_t n) { void* p = k && n > SIZE_MAX / k ? nullptr : sim_malloc(k * n); if (p) memset(p, 0, k * n); return p; }
void* sim_realloc(void* o, size_t n) {
    void* p = sim_malloc(n); if (!p || !o) return p;
    for (Region& h : S.heaps) if (h.lo == (uintptr_t)o) { size_t k = h.hi - h.lo; memcpy(p, o, k < n ? k : n); break; }
    sim_free(o); return p;
}
void* sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void** o, size_t, size_t n) { void* p = sim_malloc(n); if (!p) return 12; *o = p; return 0; }
void* sim_memchr(const void* s, int c, size_t n) {
    const u8* x = (const u8*)s;
    for (size_t i = 0; i < n; ++i) { acc((uintptr_t)x + i, 1, false); if (x[i] == (u8)c) return (void*)(x + i); }
    return nullptr;
}
size_t sim_strlen(const char* s) { size_t i = 0; for (;; ++i) { acc((uintptr_t)s + i, 1, false); if (!s[i]) return i; } }
size_t sim_strnlen(const char* s, size_t n) { size_t i = 0; for (; i < n; ++i) { acc((uintptr_t)s + i, 1, false); if (!s[i]) break; } return i; }
char* sim_strcpy(char* d, const char* s) {
    for (size_t i = 0;; ++i) { acc((uintptr_t)s + i, 1, false); char c = s[i]; acc((uintptr_t)d + i, 1, true); d[i] = c; if (!c) return d; }
}
char* sim_stpcpy(char* d, const char* s) { sim_strcpy(d, s); return d + strlen(d); }
char* sim_strncpy(char* d, const char* s, size_t n) {
    size_t i = 0; for (; i < n; ++i) { acc((uintptr_t)s + i, 1, false); char c = s[i]; acc((uintptr_t)d + i, 1, true); d[i] = c; if (!c) break; }
    for (; i < n; ++i) { acc((uintptr_t)d + i, 1, true); d[i] = 0; }
    return d;
}
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char* sim_strcat(char* d, const char* s) { sim_strcpy(d + sim_strlen(d), s); return d; }
char* sim_strncat(char* d, const char* s, size_t n) {
    size_t l = sim_strlen(d), i = 0;
    for (; i < n; ++i) { acc((uintptr_t)s + i, 1, false); if (!s[i]) break; acc((uintptr_t)d + l + i, 1, true); d[l + i] = s[i]; }
    acc((uintptr_t)d + l + i, 1, true); d[l + i] = 0; return d;
}
int sim_strcmp(const char* a, const char* b) {
    for (size_t i = 0;; ++i) { acc((uintptr_t)a + i, 1, false); acc((uintptr_t)b + i, 1, false); u8 x = (u8)a[i], y = (u8)b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; }
}
int sim_strncmp(const char* a, const char* b, size_t n) {
    for (size_t i = 0; i < n; ++i) { acc((uintptr_t)a + i, 1, false); acc((uintptr_t)b + i, 1, false); u8 x = (u8)a[i], y = (u8)b[i]; if (x != y) return (int)x - (int)y; if (!x) return 0; }
    return 0;
}
char* sim_strchr(const char* s, int c) { for (size_t i = 0;; ++i) { acc((uintptr_t)s + i, 1, false); if (s[i] == (char)c) return (char*)s + i; if (!s[i]) return nullptr; } }
char* sim_strrchr(const char* s, int c) { char* r = nullptr; for (size_t i = 0;; ++i) { acc((uintptr_t)s + i, 1, false); if (s[i] == (char)c) r = (char*)s + i; if (!s[i]) return r; } }
char* sim_strstr(const char* h, const char* n) {
    size_t l = sim_strlen(n);
    for (size_t i = 0;; ++i) { if (!sim_strncmp(h + i, n, l)) return (char*)h + i; acc((uintptr_t)h + i, 1, false); if (!h[i]) return nullptr; }
}
}

// ---------------------------------------------------- library statics
#define SEC(n) extern "C" { extern u8 __start_##n[] __attribute__((weak)); extern u8 __stop_##n[] __attribute__((weak)); }
SEC(libdata0) SEC(libbss0) SEC(libdata1) SEC(libbss1)
static struct { u8 *lo, *hi; } secs[4];
static Image boot;
static u64 secs_size() { u64 n = 0; for (auto& s : secs) n += (u64)(s.hi - s.lo); return n; }
void image_save(Image& im) { im.b.resize(secs_size()); size_t o = 0; for (auto& s : secs) { size_t n = (size_t)(s.hi - s.lo); if (n) memcpy(&im.b[o], s.lo, n); o += n; } }
void image_load(const Image& im) { size_t o = 0; for (auto& s : secs) { size_t n = (size_t)(s.hi - s.lo); if (n) memcpy(s.lo, &im.b[o], n); o += n; } }
void image_reset() { image_load(boot); }
void image_boot(Image& im) { im = boot; }

static void on_sig(int sig) {
    if (sig == SIGPROF) fail("hang", "no progress within the processor-time limit");
    fail("crash", "signal %d", sig);
}
void engine_init() {
    if (mmap((void*)ARENA, ARENA_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("arena"); exit(3); }
    size_t tot = (STACK_N + STACK_GAP) * NSTACK + STACK_GAP;
    if (mmap((void*)(STACKS - STACK_GAP), tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("stacks"); exit(3); }
    for (int i = 0; i < NSTACK; ++i) mprotect((void*)stack_lo(i), STACK_N, PROT_READ | PROT_WRITE);
    auto shmap = [](uintptr_t lo, uintptr_t hi) {
        uintptr_t a = (uintptr_t)shadow(lo) & ~4095ull, b = ((uintptr_t)shadow(hi) + 4096) & ~4095ull;
        if (mmap((void*)a, b - a, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) { perror("shadow"); exit(3); }
    };
    shmap(STACKS - STACK_GAP, STACKS - STACK_GAP + tot);
    img_lo = (uintptr_t)&__executable_start; img_hi = (uintptr_t)&end;
    shmap(img_lo, img_hi);
    unsigned long fs = 0; syscall(SYS_arch_prctl, ARCH_GET_FS, &fs);
    tls_lo = fs - 4096; tls_hi = fs + 4096;
    for (int i = 0; i < nregs; ++i) for (size_t k = 0; k < regs[i].n; ++k) {
        AsanGlobal& g = regs[i].g[k];
        uintptr_t b = g.beg + (g.size & ~7ull), e = g.beg + g.size_rz;
        int8_t* s = shadow(b);
        if (g.size & 7) { *s++ = (int8_t)(g.size & 7); b += 8; }
        for (; b < e; b += 8) *s++ = -7;
    }
    secs[0] = { __start_libdata0, __stop_libdata0 }; secs[1] = { __start_libbss0, __stop_libbss0 };
    secs[2] = { __start_libdata1, __stop_libdata1 }; secs[3] = { __start_libbss1, __stop_libbss1 };
    image_save(boot);
    static u8 alt[65536];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGPROF }) sigaction(s, &sa, nullptr);
}
u32 engine_edges_total() { return nguards; }

// last resort against endless loops outside any call; processor time, so that a busy machine does not matter
void cpu_limit(int seconds) { itimerval t{}; t.it_value.tv_sec = seconds; setitimer(ITIMER_PROF, &t, nullptr); }

// one simulated run; everything is reset first so a run is a pure function of its choices
void engine_run(const Workload& w) {
    S.tasks.clear(); S.nest.clear(); S.cur = nullptr; S.preempts = 0; S.steps = S.switches = S.ticks = 0;
    S.trace.clear(); S.digest = 0xcbf29ce484222325ull; S.inter = 0x9E3779B97F4A7C15ull; S.faults = S.ops = 0;
    S.viol = Violation(); S.on_kill = nullptr; S.isr_hook = nullptr; S.sched_on = false; S.mute = false; S.no_static_writes = false; S.heap = 0; S.min_budget = 0; S.heaps.clear(); S.on_call = nullptr; S.crowd = false; S.pol = Policy();
    S.ch.rec.clear(); S.ch.pos = 0;
    for (bool& b : stack_used) b = false;
    in_coro = false; cur_lo = cur_hi = 0;
    memset((void*)ARENA, 0, arena_high); arena_pos = 0; arena_high = 0;
    image_reset();
    if (!sigsetjmp(S.jb, 0)) {
        cpu_limit(60);
        S.dirt = S.ch.pick(128); S.dirt_s = S.dirt * 77 + 5; S.reuse = S.dirt >> 5 == 3; S.reused.clear(); for (auto& f : S.fills) f.clear(); S.nfill = 0;
        w.run();
    }
    cpu_limit(0);
    in_coro = false; S.cur = nullptr;
    dig(S.steps); dig(S.ops);
    if (S.viol.set) dig_bytes(S.viol.cls.data(), S.viol.cls.size());
}
