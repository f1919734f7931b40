// C04 scheduler passes under self-modifying tasks and interrupts
#include "objects.h"
#include <set>

namespace {
struct Table;
struct Pass { Table* t; u32 n; int last = -1; std::vector<u8> always; std::vector<std::set<int>> win; std::vector<u32> inv; std::vector<int> fn0; };
struct Table { const Lib* L; SchedulerTask_t* tab; SchedulerTask_t* nt; u32 n; bool dirty = false; std::string nm; std::vector<Pass*> live; int depth = 0; };
struct World { std::vector<Table*> tabs; std::map<Task*, std::vector<Pass*>> stack; std::map<Task*, u32> fuel; bool bodies = true, isr = false; u32 nf = 0, deep = 0; };
World* W;
const int NF = 48;
void fire(int f);
template <int N> void fn() { fire(N); }
typedef void (*F)(void);
#define F8(b) fn<b>, fn<b+1>, fn<b+2>, fn<b+3>, fn<b+4>, fn<b+5>, fn<b+6>, fn<b+7>
const F fns[NF] = { F8(0), F8(8), F8(16), F8(24), F8(32), F8(40) };
int fid(F f) { for (int i = 0; i < NF; ++i) if (fns[i] == f) return i; return -1; }

// every change of a table is made visible to the passes in progress on it
void changed(Table* t) {
    for (Pass* p : t->live) for (u32 i = 0; i < p->n; ++i) {
        SchedulerTask_t& s = t->tab[i]; bool on = s.function && s.active; int f = on ? fid(s.function) : -1;
        if (!on || f != p->fn0[i]) p->always[i] = 0;
        if (on && (int)i > p->last) p->win[i].insert(f);
    }
}
void window(Pass* p) { for (u32 i = 0; i < p->n; ++i) { p->win[i].clear(); SchedulerTask_t& s = p->t->tab[i]; if ((int)i > p->last && s.function && s.active) p->win[i].insert(fid(s.function)); } }

void add(Table* t, bool isr, u32 m = 0) { // m: the caller offers only the first m slots
    if (!m) m = t->n;
    std::vector<SchedulerTask_t> before(t->tab, t->tab + t->n);
    int f = (int)S.ch.pick(W->nf); bool act = S.ch.pick(4) != 3;
    // with interrupts changing the table, an invocation is matched to its slot by the task: keep them apart
    if (W->isr) for (int k = 0; k < NF; ++k, f = (f + 1) % NF) {
        bool used = false;
        for (u32 i = 0; i < t->n; ++i) used |= t->tab[i].function == fns[f];
        for (Pass* p : t->live) for (auto& w : p->win) used |= w.count(f) != 0;
        if (!used) break;
    }
    t->nt->function = fns[f]; t->nt->active = act;
    bool r = CALL(.rw(t->tab, sizeof(SchedulerTask_t) * m).ro(t->nt, sizeof *t->nt), "Scheduler_addTask", t->L->Scheduler_addTask(t->tab, m, t->nt));
    LOG("%s%s: register task %d active=%d -> %d", isr ? "ISR " : "", t->nm.c_str(), f, act, r); dig(r);
    scribble(t->nt, sizeof *t->nt);
    // a pass interrupted between its reads of a free slot may combine its stale activity flag with
    // the task registered meanwhile; the order of those reads is not part of the property
    if (isr && r) for (u32 i = 0; i < t->n; ++i) if (!before[i].function && t->tab[i].function && *(const u8*)&before[i].active) for (Pass* p : t->live) if (i < p->n && (int)i > p->last) p->win[i].insert(f);
    u32 free = 0, diff = 0; bool good = false;
    for (u32 i = 0; i < t->n; ++i) {
        free += i < m && before[i].function == nullptr;
        if (before[i].function != t->tab[i].function || (before[i].function && before[i].active != t->tab[i].active)) { ++diff; if (!before[i].function && t->tab[i].function == fns[f] && t->tab[i].active == act) good = true; }
    }
    CHECK(r == (free != 0), "add-result", "%s: registration %s with %u free slots", t->nm.c_str(), r ? "accepted" : "refused", free);
    if (r) CHECK(diff == 1 && good, "add-effect", "%s: an accepted registration of task %d (active=%d) changed %u entries%s", t->nm.c_str(), f, act, diff, good ? "" : " and did not store the task and its activity unchanged");
    else { CHECK(diff == 0, "add-effect", "%s: a refused registration changed the table", t->nm.c_str()); PROBE("sched_table_full"); }
    changed(t);
}
void toggle(Table* t, bool isr, int mode) {
    u32 i = S.ch.pick(t->n); if (!t->tab[i].function) return;
    bool a = mode == 2 ? !t->tab[i].active : mode != 0; t->tab[i].active = a; LOG("%s%s: slot %u active=%d", isr ? "ISR " : "", t->nm.c_str(), i, a);
    changed(t);
}
void init(Table* t) {
    CALL(.rw(t->tab, sizeof(SchedulerTask_t) * t->n), "Scheduler_init", t->L->Scheduler_init(t->tab, t->n));
    LOG("%s: initialised with %u slots (%s)", t->nm.c_str(), t->n, t->L->tag);
    for (u32 i = 0; i < t->n; ++i) CHECK(t->tab[i].function == nullptr, "init", "%s: slot %u not free after initialisation", t->nm.c_str(), i);
    changed(t);
}
void pass(Table* t, u32 m = 0) { // m: only the first m slots
    if (!m) m = t->n;
    Pass p; p.t = t; p.n = m; p.always.assign(m, 0); p.win.resize(m); p.inv.assign(m, 0); p.fn0.assign(m, -1);
    for (u32 i = 0; i < m; ++i) if (t->tab[i].function && t->tab[i].active) { p.always[i] = 1; p.fn0[i] = fid(t->tab[i].function); }
    window(&p);
    auto& st = W->stack[S.cur]; st.push_back(&p); t->live.push_back(&p); ++t->depth;
    LOG("%s: pass begins", t->nm.c_str()); ++S.ticks;
    CALL(.rw(t->tab, sizeof(SchedulerTask_t) * m), "Scheduler_run", t->L->Scheduler_run(t->tab, m));
    LOG("%s: pass ends", t->nm.c_str());
    --t->depth; W->stack[S.cur].pop_back();
    for (size_t i = 0; i < t->live.size(); ++i) if (t->live[i] == &p) { t->live.erase(t->live.begin() + (long)i); break; }
    for (u32 i = 0; i < m; ++i) if (p.always[i]) CHECK(p.inv[i] == 1, "missed", "%s: task %d in slot %u stayed registered and active through the pass but was not run", t->nm.c_str(), p.fn0[i], i);
}
void fire(int f) {
    auto& st = W->stack[S.cur];
    CHECK(!st.empty(), "stray", "task %d invoked outside any pass", f);
    Pass* p = st.back(); Table* t = p->t;
    int s = -1; for (u32 i = (u32)(p->last + 1); i < p->n; ++i) if (p->win[i].count(f)) { s = (int)i; break; }
    LOG("%s: task %d runs (slot %d)", t->nm.c_str(), f, s); dig((u64)f);
    CHECK(s >= 0, "invocation", "%s: task %d invoked, but since slot %d finished no later slot held it registered and active", t->nm.c_str(), f, p->last);
    ++p->inv[(u32)s]; p->last = s;
    if (W->bodies && W->deep && S.ch.pick(12) != 11) // every task runs the pass of another table
        for (Table* x : W->tabs) if (x->depth == 0 && W->fuel[S.cur] > 0) { --W->fuel[S.cur]; if (st.size() > 16) PROBE("passes_nested_over_16_deep"); FAULT("nested_pass"); pass(x); break; }
    if (W->bodies && W->fuel[S.cur] > 0) {
        u32 acts = S.ch.weighted({ 55, 30, 15 });
        for (u32 k = 0; k < acts && W->fuel[S.cur] > 0; ++k) {
            --W->fuel[S.cur];
            switch (S.ch.weighted({ 10, 22, 22, 22, 10, 10, 4, 2 })) {
                case 0: break;
                case 1: add(t, false); FAULT("task_registers_task"); break;
                case 2: toggle(t, false, 0); FAULT("task_deactivates"); break;
                case 3: toggle(t, false, 1); FAULT("task_activates"); break;
                case 4: { u32 i = S.ch.pick(t->n); t->tab[i].function = nullptr; t->tab[i].active = false; LOG("%s: slot %u freed", t->nm.c_str(), i); changed(t); FAULT("task_unregisters"); break; }
                case 5: { Table* o = nullptr; for (Table* x : W->tabs) if (x != t && x->depth == 0) { o = x; break; } if (o && st.size() < 3) { FAULT("nested_pass"); pass(o); } break; }
                case 6: if (t->tab[s].function) { t->tab[s].active = false; changed(t); FAULT("task_deactivates_itself"); } break;
                default: S.ticks += 1 + S.ch.pick(20); FAULT("slow_task"); break;
            }
        }
    }
    // a task may be preempted anywhere
    preempt_point();
    window(p);
}
}
static void run_c04() {
    World w; W = &w; w.nf = NF;
    u32 nt = 1 + S.ch.pick(3);
    std::deque<Table> tabs;
    bool big = S.ch.pick(300) == 299, longh = S.ch.rare(400009, 777); u32 mid = S.ch.rare(100003, 6) ? 2 : S.ch.rare(2003, 5) ? 1 : 0;
    if (mid) { big = true; nt = 1; }
    if (!mid && S.ch.rare(503, 31)) { w.deep = nt = 4 + S.ch.pick(S.ch.pick(2) ? 30 : 90); big = false; } // chains of nested passes
    for (u32 i = 0; i < nt; ++i) {
        tabs.emplace_back(); Table& t = tabs.back(); t.L = &pick_lib(); t.n = 1 + S.ch.pick(w.deep ? 3 : S.ch.pick(4) == 3 ? 14 : 6); if (big && i == 0) { t.n = mid == 2 ? 65530 + S.ch.pick(200) : mid ? S.ch.logsize(15, 9000) : 250 + S.ch.pick(30); PROBE("large_table"); if (mid == 2) PROBE("table_of_about_65536_slots"); }
        t.tab = make_n<SchedulerTask_t>(t.n); t.nt = make<SchedulerTask_t>(); t.nm = "table" + std::to_string(i); w.tabs.push_back(&t);
    }
    draw_policy(S.ch.pick(4) == 3 ? 10 : 0);
    w.bodies = S.ch.pick(5) != 0;
    bool isr = S.ch.pick(3) != 0 && !big;
    w.isr = isr;
    if (!isr && S.ch.pick(2)) { w.nf = 1 + S.ch.pick(3); PROBE("same_task_in_several_slots"); }
    if (isr) S.isr_hook = [] {
        Task* c = S.cur; if (!c || !c->scope || strcmp(c->scope->name, "Scheduler_run")) return;
        auto& st = W->stack[c]; if (st.empty() || S.ch.pick(3)) return;
        Table* t = st.back()->t;
        switch (S.ch.pick(4)) { case 0: FAULT("isr_deactivates"); toggle(t, true, 0); break; case 1: FAULT("isr_activates"); toggle(t, true, 1); break; case 2: FAULT("isr_registers"); add(t, true); break; default: FAULT("isr_toggles"); toggle(t, true, 2); break; }
    };
    S.on_kill = [](Task* t) { auto& st = W->stack[t]; for (Pass* p : st) { p->t->depth--; for (size_t i = 0; i < p->t->live.size(); ++i) if (p->t->live[i] == p) { p->t->live.erase(p->t->live.begin() + (long)i); break; } } st.clear(); };
    u32 len = 1 + S.ch.pick(14); if (mid == 2) len = 4;
    // each table has one owner at a time; nested passes borrow idle tables
    static Lock locks[3]; for (auto& l : locks) l = Lock();
    solo("boot", [&] { for (auto* t : w.tabs) { init(t); if (w.deep) { add(t, false); t->tab[0].active = true; } } if (!big) return;
        Table& t = tabs[0];
        if (!mid) { for (u32 i = 0; i < t.n; ++i) add(&t, false); return; }
        // occupied by idle tasks, but for a few
        u32 keep = S.ch.pick(4);
        for (u32 i = 0; i < t.n; ++i) { t.tab[i].function = fns[i % NF]; t.tab[i].active = false; }
        for (u32 i = 0; i < 12; ++i) { u32 k = S.ch.pick(3) ? t.n - 1 - S.ch.pick(t.n < 300 ? t.n : 300) : S.ch.pick(t.n); if (S.ch.pick(2)) t.tab[k].active = true; else t.tab[k].function = nullptr; }
        for (u32 i = 0; i < keep; ++i) add(&t, false);
    });
    u32 owners = w.deep ? 1 : 1 + S.ch.pick(nt);
    if (owners > 1) w.tabs.clear(); // nested passes only while one party owns all tables
    for (u32 i = 0; i < owners; ++i) {
        Table* t = &tabs[i];
        Task* k = spawn("owner" + std::to_string(i), [t, len, i] {
            W->fuel[S.cur] = 40 + 6 * W->deep;
            for (u32 j = 0; j < len; ++j) {
                lock(locks[i]);
                switch (S.ch.weighted({ 50, 30, 10, 6, 2, 4 })) {
                    case 0: { u32 m = S.ch.pick(12) == 11 ? 1 + S.ch.pick(t->n) : 0; if (m) PROBE("pass_over_part_of_the_table"); pass(t, m); break; }
                    case 1: { u32 m = S.ch.pick(10) == 9 ? 1 + S.ch.pick(t->n) : 0; if (m) PROBE("registration_in_part_of_the_table"); add(t, false, m); break; }
                    case 2: toggle(t, false, 2); break;
                    case 3: { u32 s = S.ch.pick(t->n); t->tab[s].function = nullptr; t->tab[s].active = false; changed(t); break; }
                    case 4: FAULT("restart"); if (S.ch.pick(2)) { u8* b = (u8*)t->tab; scribble(b, sizeof(SchedulerTask_t) * t->n); for (u32 q = 0; q < t->n; ++q) t->tab[q].active = S.ch.pick(2) != 0; } t->dirty = true; init(t); t->dirty = false; pass(t); break;
                    default: S.ticks += 1 + S.ch.pick(5); FAULT("skipped_tick"); break;
                }
                unlock(locks[i]); op_end();
            }
            pass(t); pass(t);
        });
        (void)k;
    }
    run_tasks();
    W->bodies = false; S.isr_hook = nullptr;
    if (longh) solo("long history", [&] { // tens of thousands of passes in one life
        PROBE("long_history"); Table* t = &tabs[0]; if (t->dirty) init(t); t->dirty = false;
        for (u32 i = 0; i < 65600; ++i) { pass(t); if (i % 4096 == 0) add(t, false); if (i % 1000 == 0) toggle(t, false, 2); }
    });
    for (auto& t : tabs) solo("final", [&] { W->fuel[S.cur] = 0; if (t.dirty) init(&t); pass(&t); });
}
void register_sched() {
    WL.push_back({ "C04", run_c04, 4000000, "one run = 1-3 task tables (1-14 slots, rarely any magnitude to about 65536; rarely up to 94 tables whose passes nest) owned by 1-3 parties; tasks (at times the same one in several slots) register, (de)activate, free and run nested passes, interrupts (de)activate and register at drawn memory accesses of a pass; every invocation is matched to a slot that held the task active since the previous one finished, and every task active throughout a pass must have run exactly once; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
