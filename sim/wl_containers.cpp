// C01 queue, C02 priority queue, C03 map, C17 re-initialisation after crashes
#include "objects.h"
#include <algorithm>

static std::string nm(const char* p, u32 i) { return p + std::to_string(i); }

// ------------------------------------------------------------------- C01
static void q_reinit(QObj& o, bool regeo) {
    if (o.lives) FAULT("restart");
    if (regeo && S.ch.pick(2)) {
        u32 c = 1 + S.ch.pick(12), e = 1 + S.ch.pick(9);
        if ((size_t)c * e <= o.room) { o.regeometry(c, e); PROBE("new_geometry"); }
    }
    if (S.ch.pick(2)) { scribble(o.store, o.room); scribble(o.q, sizeof *o.q); PROBE("scribbled_memory"); }
    o.init();
}
static void q_task(QObj* o, u32 role, u32 n) {
    for (u32 i = 0; i < n; ++i) {
        lock(o->lk);
        if (o->broken) q_reinit(*o, true);
        u32 w = 0;
        switch (role) { // producer, consumer, mixed, observer
            case 0: w = S.ch.weighted({ 60, 8, 6, 6, 5, 2, 1, 8, 0 }); break;
            case 1: w = S.ch.weighted({ 10, 55, 6, 6, 5, 2, 1, 0, 8 }); break;
            case 2: w = S.ch.weighted({ 35, 30, 6, 6, 5, 3, 1, 5, 5 }); break;
            default: w = S.ch.weighted({ 15, 15, 20, 20, 20, 5, 1, 2, 2 }); break;
        }
        u32 k = 1;
        switch (w) {
            case 0: o->enqueue(); break;
            case 1: o->dequeue(); break;
            case 2: o->front(); break;
            case 3: o->rear(); break;
            case 4: o->query(); break;
            case 5: if (S.ch.pick(2)) o->reject(); else o->refused_init(); break;
            case 6: if (S.ch.pick(4) == 3) q_reinit(*o, true); else o->query(); break;
            case 7: k = 1 + S.ch.pick(o->cap + 1); PROBE("burst"); while (k--) o->enqueue(); break;
            default: k = 1 + S.ch.pick(o->cap + 1); while (k--) o->dequeue(); break;
        }
        if (S.ch.pick(8) == 7) { o->query(); if (S.ch.pick(2)) o->front(); else o->rear(); }
        unlock(o->lk);
        op_end();
    }
}
// tens of thousands of operations in one life
static void q_long(QObj& o) {
    PROBE("long_history");
    u32 n = 65600 + S.ch.pick(300), pat = S.ch.pick(4), keep = S.ch.pick(o.cap + 1);
    if (o.broken) o.init();
    switch (pat) {
        case 0: while (o.m.size() < keep) o.enqueue(); for (u32 i = 0; i < n; ++i) { if (keep < o.cap) { o.enqueue(); o.dequeue(); } else { o.dequeue(); o.enqueue(); } } break;
        case 1: for (u32 i = 0; i < n / o.cap + 1; ++i) { while (o.m.size() < o.cap) o.enqueue(); while (!o.m.empty()) o.dequeue(); } break;
        case 2: while (o.m.size() < o.cap) o.enqueue(); for (u32 i = 0; i < n; ++i) o.enqueue(); break;
        default: while (!o.m.empty()) o.dequeue(); for (u32 i = 0; i < n; ++i) { o.dequeue(); if (i & 1) o.front(); else o.rear(); } o.enqueue(); for (u32 i = 0; i < n; ++i) { if (i & 1) o.front(); else o.query(); } break;
    }
    o.query(); o.front(); o.rear();
}
static void run_c01() {
    u32 nq = 1 + S.ch.weighted({ 70, 20, 10 });
    bool huge = S.ch.pick(2500) == 2499, longh = S.ch.rare(50021, 777);
    u32 mid = S.ch.rare(1201, 5) ? 1 + S.ch.pick(2) : 0; // sizes of any magnitude
    auto* qs = new std::deque<QObj>(); std::unique_ptr<std::deque<QObj>> own(qs);
    for (u32 i = 0; i < nq; ++i) {
        qs->emplace_back(); auto& o = qs->back();
        u32 c = draw_cap(), e = draw_es();
        if (huge && i == 0) { c = 65530 + S.ch.pick(20); e = 1 + S.ch.pick(2); PROBE("huge_capacity"); }
        if (mid == 1 && i == 0) { c = S.ch.logsize(40, 65600); e = 1 + S.ch.pick(8); PROBE("capacity_of_any_magnitude"); }
        if (mid == 2 && i == 0) { c = 1 + S.ch.pick(6); e = S.ch.logsize(40, 140000); PROBE("element_size_of_any_magnitude"); }
        o.create(c, e, 0, nm("queue", i).c_str());
        if (S.ch.pick(2)) { scribble(o.q, sizeof *o.q); }
    }
    draw_policy(S.ch.pick(3) == 2 ? 15 : 0);
    if (mid) huge = true;
    if (huge) S.pol.kill_pm = 0;
    S.on_kill = [qs](Task* t) { auto* o = (QObj*)t->user; if (o) o->broken = true; };
    u32 nt = 1 + S.ch.pick(4), len = 1 + S.ch.pick(S.ch.pick(8) == 7 ? 300 : 50);
    if (huge) { nt = 2; len = 6; }
    for (u32 i = 0; i < nt; ++i) {
        QObj* o = &(*qs)[S.ch.pick(nq)]; u32 role = S.ch.pick(4);
        Task* t = spawn(nm("party", i), [o, role, len] { q_task(o, role, len); });
        t->user = o;
    }
    run_tasks();
    if (longh) solo("long history", [&] { q_long(qs->front()); });
    if (mid == 1) solo("fill", [&] { auto& o = qs->front(); if (o.broken) o.init(); while (o.m.size() < o.cap) o.enqueue(); o.enqueue(); o.query(); o.rear(); });
    for (auto& o : *qs) solo("drain", [&] { if (o.broken) o.init(); o.drain(); });
}

// ------------------------------------------------------------------- C02
static void p_reinit(PObj& o) {
    if (o.lives) FAULT("restart");
    if (S.ch.pick(2)) { u32 c = 1 + S.ch.pick(12), e = 1 + S.ch.pick(9); if ((size_t)c * e <= o.room && c <= o.prio_room) { o.regeometry(c, e); PROBE("new_geometry"); } }
    if (S.ch.pick(2)) { scribble(o.store, o.room); scribble(o.prio, o.prio_room * 4); scribble(o.q, sizeof *o.q); PROBE("scribbled_memory"); }
    o.init();
}
static void p_task(PObj* o, u32 role, u32 n) {
    for (u32 i = 0; i < n; ++i) {
        lock(o->lk);
        if (o->broken) p_reinit(*o);
        u32 w = role == 0 ? S.ch.weighted({ 70, 8, 6, 2, 1, 8, 1 }) : role == 1 ? S.ch.weighted({ 15, 60, 6, 2, 1, 1, 6 }) : S.ch.weighted({ 40, 35, 6, 2, 1, 5, 4 });
        u32 k;
        switch (w) {
            case 0: o->enqueue(o->draw_prio()); break;
            case 1: o->dequeue(); break;
            case 2: o->query(); break;
            case 3: o->refused_init(); break;
            case 4: if (S.ch.pick(4) == 3) p_reinit(*o); else o->query(); break;
            case 5: k = 1 + S.ch.pick(o->cap + 2); PROBE("burst"); for (u32 j = 0; k--;) { o->enqueue(o->draw_prio()); if (o->cap > 400 && o->count == o->cap && ++j > 20) break; } break;
            default: k = 1 + S.ch.pick(o->cap + 1); if (o->cap > 400) k = 1 + k % 30; while (k--) o->dequeue(); break;
        }
        unlock(o->lk);
        op_end();
    }
}
static void p_long(PObj& o) {
    PROBE("long_history");
    u32 n = 65600 + S.ch.pick(300), pat = S.ch.pick(3), keep = S.ch.pick(o.cap + 1);
    if (o.broken) o.init();
    switch (pat) {
        case 0: while (o.count < keep) o.enqueue(o.draw_prio()); for (u32 i = 0; i < n; ++i) { o.enqueue(i % 7); if (o.count > keep) o.dequeue(); } break;
        case 1: for (u32 i = 0; i < n / o.cap + 1; ++i) { while (o.count < o.cap) o.enqueue(i & 3); while (o.count) o.dequeue(); } break;
        default: for (u32 i = 0; i < o.cap; ++i) o.enqueue(o.draw_prio()); for (u32 i = 0; i < n; ++i) o.enqueue(i); for (u32 i = 0; i < n; ++i) o.dequeue(); break;
    }
    o.query();
}
// a full queue of more than 65536 elements whose lowest and highest priorities sit at the far end
static void p_wide() {
    PROBE("extremes_beyond_65536_elements"); cpu_limit(300);
    PObj o; o.create(65560 + S.ch.pick(120), 1 + S.ch.pick(4), 0, 0, "wide pqueue"); o.init();
    u32 nlow = 1 + S.ch.pick(4), nhigh = 1 + S.ch.pick(4), base = S.ch.pick(2) ? 1000 : 0x80000000u;
    while (o.count < o.cap) {
        u32 left = o.cap - o.count;
        o.enqueue(left > 20 ? base + S.ch.pick(3) : left % 4 == 1 && nlow ? (--nlow, base - 1 - nlow) : left % 4 == 2 && nhigh ? (--nhigh, base + 10 + nhigh) : base);
    }
    u32 n = 4 + S.ch.pick(8);
    for (u32 i = 0; i < n; ++i) S.ch.pick(3) ? o.enqueue(base + S.ch.pick(12)) : o.dequeue();
    o.query();
    for (u32 i = 0; i < 12; ++i) o.dequeue();
    o.init(); o.enqueue(3); o.dequeue();
}
static void run_c02() {
    if (S.ch.rare(100003, 301)) { solo("wide", [] { p_wide(); }); return; }
    u32 nq = 1 + S.ch.weighted({ 75, 25 });
    bool longh = S.ch.rare(50021, 777);
    u32 mid = S.ch.rare(1201, 5) ? 1 + S.ch.pick(2) : 0;
    if (longh || mid) nq = 1;
    auto* qs = new std::deque<PObj>(); std::unique_ptr<std::deque<PObj>> own(qs);
    for (u32 i = 0; i < nq; ++i) {
        qs->emplace_back(); u32 c = draw_cap(); if (c > 60 && S.ch.pick(8) != 7) c = 1 + c % 8;
        if (S.ch.pick(700) == 699) { c = 250 + S.ch.pick(20); PROBE("large_capacity"); }
        u32 e = draw_es();
        if (longh) c = 1 + c % 9;
        if (mid == 1) { c = S.ch.logsize(40, 65600); e = 1 + S.ch.pick(8); PROBE("capacity_of_any_magnitude"); }
        if (mid == 2) { c = 1 + S.ch.pick(6); e = S.ch.logsize(40, 140000); PROBE("element_size_of_any_magnitude"); }
        qs->back().create(c, e, 0, 0, nm("pqueue", i).c_str());
    }
    draw_policy(S.ch.pick(3) == 2 ? 15 : 0);
    S.on_kill = [](Task* t) { auto* o = (PObj*)t->user; if (o) o->broken = true; };
    u32 nt = 1 + S.ch.pick(4), len = 1 + S.ch.pick(S.ch.pick(10) == 9 ? 150 : 40);
    if (mid) { S.pol.kill_pm = 0; nt = 1 + S.ch.pick(2); len = 8; }
    if (mid == 1 && S.ch.pick(4)) solo("fill", [&] { auto& o = qs->front(); o.init(); u32 n = S.ch.pick(3) ? o.cap : S.ch.pick(o.cap); for (u32 i = 0; i < n; ++i) o.enqueue(o.draw_prio()); });
    for (u32 i = 0; i < nt; ++i) {
        PObj* o = &(*qs)[S.ch.pick(nq)]; u32 role = S.ch.pick(3);
        spawn(nm("party", i), [o, role, len] { p_task(o, role, len); })->user = o;
    }
    run_tasks();
    if (longh) solo("long history", [&] { p_long(qs->front()); });
    for (auto& o : *qs) solo("drain", [&] { if (o.broken) o.init(); o.drain(); });
}

// ------------------------------------------------------------------- C03
static void m_reinit(MObj& o) {
    if (o.lives) FAULT("restart");
    if (S.ch.pick(2)) { int32_t c = 1 + (int)S.ch.pick(8), k = 1 + (int)S.ch.pick(6), v = 1 + (int)S.ch.pick(8); if ((size_t)(c * k) <= o.kroom && (size_t)(c * v) <= o.vroom) { o.regeometry(c, k, v); PROBE("new_geometry"); } }
    if (S.ch.pick(2)) { scribble(o.ks, o.kroom); scribble(o.vs, o.vroom); scribble(o.q, sizeof *o.q); PROBE("scribbled_memory"); }
    o.init();
}
static void m_task(MObj* o, u32 role, u32 n) {
    for (u32 i = 0; i < n; ++i) {
        lock(o->lk);
        if (o->broken) m_reinit(*o);
        u32 w = role == 0 ? S.ch.weighted({ 60, 25, 2, 2, 1, 4 }) : role == 1 ? S.ch.weighted({ 20, 65, 2, 2, 1, 4 }) : S.ch.weighted({ 45, 40, 2, 2, 1, 4 });
        u32 ki = S.ch.pick((u32)o->pool.size());
        switch (w) {
            case 0: o->insert(ki); break;
            case 1: o->get(ki); break;
            case 2: o->null_map(); break;
            case 3: o->refused_init(); break;
            case 4: if (S.ch.pick(4) == 3) m_reinit(*o); break;
            default: if (S.ch.pick(2)) { PROBE("burst"); for (u32 k = 0; k < o->pool.size() && k <= (u32)o->cap; ++k) o->insert(ki + k); } else o->verify_all(); break;
        }
        unlock(o->lk);
        op_end();
    }
}
static void m_long(MObj& o) {
    PROBE("long_history");
    u32 n = 65600 + S.ch.pick(300), pat = S.ch.pick(3), np = (u32)o.pool.size();
    if (o.broken) o.init();
    for (u32 i = 0; i < n; ++i) switch (pat) { case 0: o.insert(i % np); break; case 1: o.insert(i & 1 ? 0 : i % np); break; default: o.get(i % np); if (i % 1000 == 0) o.insert(i / 1000); }
    o.verify_all();
}
// more keys than 8 or 16 bits (15 bits in quick runs) can count; lookups are linear, so this takes its time
static void m_many(u32 cap) {
    PROBE("more_than_32767_keys"); cpu_limit(3000);
    MObj o; o.pool_max = 70000; o.create((int32_t)cap, 2 + (int32_t)S.ch.pick(2), 3 + (int32_t)S.ch.pick(2), 0, 0, "large map");
    o.pool.clear(); u32 mul = 2 * S.ch.pick(30000) + 1;
    for (u32 i = 0; i < cap + 3; ++i) { u32 v = i * mul; std::vector<u8> k((size_t)o.ksz); k[0] = (u8)v; k[1] = (u8)(v >> 8); if (o.ksz > 2) k[2] = (u8)(i >> 16); o.pool.push_back(k); }
    solo("large map", [&] {
        o.init(); for (u32 i = 0; i < cap; ++i) o.insert(i);
        if (o.ksz > 2 || cap + 3 <= 65536) { o.insert(cap); o.get(cap); }
        for (u32 i : { 0u, 1u, 255u, 256u, 32766u, 32767u, 32768u, 32769u, cap - 2, cap - 1 }) if (i < cap) { o.get(i); o.insert(i); o.get(i); }
        for (u32 i = 0; i < 100; ++i) o.get(S.ch.pick(cap));
    });
}
static void run_c03() {
    if (S.ch.rare(2500003, 1500001)) { m_many(32770 + S.ch.pick(100)); return; }
    if (S.ch.rare(30000001, 20000001)) { m_many(65540 + S.ch.pick(100)); return; } // reached by the thorough tier only
    u32 nq = 1 + S.ch.weighted({ 75, 25 });
    bool longh = S.ch.rare(50021, 777);
    u32 mid = S.ch.rare(9973, 5) ? 1 : S.ch.rare(1201, 6) ? 2 : 0;
    if (longh || mid) nq = 1;
    auto* qs = new std::deque<MObj>(); std::unique_ptr<std::deque<MObj>> own(qs);
    for (u32 i = 0; i < nq; ++i) {
        qs->emplace_back();
        u32 c = draw_cap(); if (c > 60 && S.ch.pick(6) != 5) c = 1 + c % 8;
        int32_t k = (int32_t)draw_es(), v = (int32_t)draw_es();
        if (longh) c = 1 + c % 9;
        if (mid == 1) { c = S.ch.logsize(40, 3000); k = 2 + (int)S.ch.pick(6); v = 1 + (int)S.ch.pick(8); qs->back().pool_max = 5000; PROBE("capacity_of_any_magnitude"); }
        if (mid == 2) { c = 1 + S.ch.pick(3); if (S.ch.pick(2)) k = (int32_t)S.ch.logsize(40, 140000); else v = (int32_t)S.ch.logsize(40, 140000); PROBE("key_or_value_size_of_any_magnitude"); }
        qs->back().create((int32_t)c, k, v, 0, 0, nm("map", i).c_str());
    }
    draw_policy(S.ch.pick(3) == 2 ? 15 : 0);
    S.on_kill = [](Task* t) { auto* o = (MObj*)t->user; if (o) o->broken = true; };
    u32 nt = 1 + S.ch.pick(4), len = 1 + S.ch.pick(S.ch.pick(10) == 9 ? 120 : 30);
    if (mid) { S.pol.kill_pm = 0; nt = 1 + S.ch.pick(2); len = 10; }
    if (mid == 1) solo("fill", [&] { auto& o = qs->front(); o.init(); u32 n = S.ch.pick(3) ? (u32)o.cap + 1 : S.ch.pick((u32)o.cap); for (u32 i = 0; i < n; ++i) o.insert(i); });
    for (u32 i = 0; i < nt; ++i) {
        MObj* o = &(*qs)[S.ch.pick(nq)]; u32 role = S.ch.pick(3);
        spawn(nm("party", i), [o, role, len] { m_task(o, role, len); })->user = o;
    }
    run_tasks();
    if (longh) solo("long history", [&] { m_long(qs->front()); });
    for (auto& o : *qs) solo("verify", [&] { if (o.broken) o.init(); o.verify_all(); });
}

// ------------------------------------------------------------------- C17
// Histories on one object, cut by crashes at arbitrary accesses; after each
// crash the same storage is re-initialised (same or different geometry) and
// must behave like a fresh object.
static SchedulerTask_t* c17_tab; static std::vector<int>* c17_ran;
template <int N> static void c17_fn() { c17_ran->push_back(N); }
static void (*const c17_fns[8])(void) = { c17_fn<0>, c17_fn<1>, c17_fn<2>, c17_fn<3>, c17_fn<4>, c17_fn<5>, c17_fn<6>, c17_fn<7> };

static void run_c17() {
    u32 kind = S.ch.pick(5), sc = S.ch.rare(1009, 5) ? 1u << S.ch.pick(8) : 1; // sc: scale of the geometries
    if (sc > 1) PROBE("large_geometry");
    u32 lives = 2 + S.ch.pick(3);
    draw_policy(0, false); if (sc > 1) for (u32 i = S.ch.pick(3); i; --i) sc = sc > 8 ? sc / 2 : sc;
    S.pol.mode = 1 + S.ch.pick(3); S.pol.stall = false;
    S.pol.max_preempt = 150;
    QObj q; PObj p; MObj m; JObj j;
    static const u32 KPM[4] = { 0, 30, 100, 400 };
    std::vector<int> ran; c17_ran = &ran;
    const Lib& L = pick_lib();
    u32 tmax = 1 + S.ch.pick(10 * sc); SchedulerTask_t* tab = make_n<SchedulerTask_t>(tmax); c17_tab = tab; SchedulerTask_t* nt = make<SchedulerTask_t>();
    if (kind == 0) q.create(1 + S.ch.pick(8 * sc), 1 + S.ch.pick(8), 64 * sc + S.ch.pick(200 * sc), "queue");
    if (kind == 1) p.create(1 + S.ch.pick(8 * sc), 1 + S.ch.pick(8), 8 * sc + S.ch.pick(30 * sc), 64 * sc + S.ch.pick(200 * sc), "pqueue");
    if (kind == 2) m.create(1 + (int)S.ch.pick(8 * sc), 1 + (int)S.ch.pick(6), 1 + (int)S.ch.pick(8), 60 * sc + S.ch.pick(60 * sc), 60 * sc + S.ch.pick(100 * sc), "map");
    if (kind == 3) j.create(S.ch.pick(80 * sc), "document");
    if (u32 n = aged(312)) { // many lives before these
        u32 k2 = S.ch.pick(3);
        age(n, [&](u32 i) {
            switch (kind) {
                case 0: q.init(); q.query(); if (k2 && i % 8 == 0) { q.enqueue(); q.front(); q.rear(); if (k2 == 2) q.dequeue(); } break;
                case 1: p.init(); p.query(); if (k2 && i % 8 == 0) { p.enqueue(i & 3); if (k2 == 2) p.dequeue(); } break;
                case 2: m.init(); m.get(0); if (k2 && i % 8 == 0) { m.insert(i % (u32)m.pool.size()); if (k2 == 2) m.get(i % (u32)m.pool.size()); } break;
                case 3: if (j.size < 2) break; j.start(); if (k2) j.add("k", "v"); if (k2 == 2) j.end(); break;
                default: { u32 c = 1 + i % tmax; CALL(.rw(tab, sizeof *tab * c), "Scheduler_init", (L.Scheduler_init(tab, c), 0)); ran.clear(); CALL(.rw(tab, sizeof *tab * c), "Scheduler_run", L.Scheduler_run(tab, c)); CHECK(ran.empty(), "stale-task", "a task registered before initialisation number %u ran", i + 1);
                    nt->function = c17_fns[i % 8]; nt->active = true; bool r = CALL(.rw(tab, sizeof *tab * c).ro(nt, sizeof *nt), "Scheduler_addTask", L.Scheduler_addTask(tab, c, nt)); CHECK(r, "add-result", "registration refused in a table just initialised for the %u. time", i + 1);
                    if (k2) { CALL(.rw(tab, sizeof *tab * c), "Scheduler_run", L.Scheduler_run(tab, c)); ++S.ticks; CHECK(ran.size() == 1 && ran[0] == (int)(i % 8), "pass", "pass number %u ran %zu tasks, one is registered", i + 1, ran.size()); } }
            }
        });
    }
    for (u32 life = 0; life < lives; ++life) {
        bool lastlife = life + 1 == lives;
        u32 crash = lastlife ? 0 : S.ch.pick(4); // 0: clean hand-over to the next life
        S.pol.kill_pm = crash ? KPM[crash] : 0;
        u32 len = 1 + S.ch.pick(sc > 1 ? 300 : 25);
        bool regeo = life && S.ch.pick(2), scrib = S.ch.pick(3) == 2;
        if (life && scrib) PROBE("scribbled_memory");
        if (life) PROBE("re_initialised");
        if (life && kind < 3 && S.tasks.back()->st == T_DEAD) PROBE("re_initialised_after_crash");
        std::function<void()> body;
        switch (kind) {
            case 0: body = [&, len, regeo, scrib] {
                if (regeo) for (int k = 0; k < 8; ++k) { u32 c = 1 + S.ch.pick(20 * sc), e = 1 + S.ch.pick(20); if (sc > 1 && S.ch.pick(3) == 2) std::swap(c, e); if ((size_t)c * e <= q.room) { q.regeometry(c, e); break; } }
                if (scrib) { scribble(q.store, q.room); scribble(q.q, sizeof *q.q); }
                q.init(); q.query(); q.front(); q.rear(); q.dequeue();
                for (u32 i = 0; i < len; ++i) {
                    switch (S.ch.weighted({ 45, 25, 8, 8, 6, 8 })) { case 0: q.enqueue(); break; case 1: q.dequeue(); break; case 2: q.front(); break; case 3: q.rear(); break; case 4: q.refused_init(); break; default: q.query(); }
                    op_end();
                } }; break;
            case 1: body = [&, len, regeo, scrib] {
                if (regeo) for (int k = 0; k < 8; ++k) { u32 c = 1 + S.ch.pick(20 * sc), e = 1 + S.ch.pick(20); if (sc > 1 && S.ch.pick(3) == 2) std::swap(c, e); if ((size_t)c * e <= p.room && c <= p.prio_room) { p.regeometry(c, e); break; } }
                if (scrib) { scribble(p.store, p.room); scribble(p.prio, p.prio_room * 4); scribble(p.q, sizeof *p.q); }
                p.init(); p.query(); p.dequeue();
                for (u32 i = 0; i < len; ++i) {
                    switch (S.ch.weighted({ 50, 30, 8, 12 })) { case 0: p.enqueue(p.draw_prio()); break; case 1: p.dequeue(); break; case 2: p.refused_init(); break; default: p.query(); }
                    op_end();
                } }; break;
            case 2: body = [&, len, regeo, scrib] {
                auto oldpool = m.pool;
                if (regeo) for (int k = 0; k < 8; ++k) { int c = 1 + (int)S.ch.pick(16 * sc), a = 1 + (int)S.ch.pick(8), b = 1 + (int)S.ch.pick(10); if (sc > 1 && S.ch.pick(3) == 2) std::swap(c, b); if ((size_t)(c * a) <= m.kroom && (size_t)(c * b) <= m.vroom) { m.regeometry(c, a, b); break; } }
                if (scrib) { scribble(m.ks, m.kroom); scribble(m.vs, m.vroom); scribble(m.q, sizeof *m.q); }
                m.init();
                for (auto& k : oldpool) if ((int)k.size() == m.ksz) { m.pool.push_back(k); if (m.pool.size() > 60) break; }
                m.verify_all(); // nothing of the previous life is found
                for (u32 i = 0; i < len; ++i) {
                    u32 ki = S.ch.pick((u32)m.pool.size());
                    switch (S.ch.weighted({ 55, 30, 8 })) { case 0: m.insert(ki); break; case 1: m.get(ki); break; default: m.refused_init(); }
                    op_end();
                } }; break;
            case 3: body = [&, len, regeo, scrib] {
                if (regeo && j.size > 2) j.size = S.ch.pick((u32)j.size + 1);
                if (scrib) scribble(j.buf, j.size);
                if (j.size < 2) { std::vector<u8> before(j.buf, j.buf + j.size); bool r = CALL(.rw(j.buf, j.size), "Json_startString", L.Json_startString(j.buf, j.size)); CHECK(!r, "refused-init", "document started in %zu bytes", j.size); CHECK(!j.size || !memcmp(before.data(), j.buf, j.size), "refused-init", "refused start changed the buffer"); PROBE("refused_start"); return; }
                j.start();
                for (u32 i = 0; i < len && i < 8 * sc; ++i) { j.add(draw_text(6), draw_text(8 * sc)); if (S.ch.pick(6) == 5) { // refused restart leaves the document
                        FAULT("refused_init"); bool r = CALL(.rw(j.buf, j.size), "Json_startString(no room)", L.Json_startString(j.buf, S.ch.pick(2))); CHECK(!r, "refused-init", "start without room succeeded"); j.check("a refused start"); }
                    op_end(); }
                j.end(); }; break;
            default: body = [&, len, scrib] {
                u32 n = 1 + S.ch.pick(tmax);
                if (scrib) for (u32 i = 0; i < n; ++i) { tab[i].function = S.ch.pick(2) ? c17_fns[S.ch.pick(8)] : nullptr; tab[i].active = S.ch.pick(2) != 0; }
                CALL(.rw(tab, sizeof *tab * n), "Scheduler_init", L.Scheduler_init(tab, n)); LOG("table of %u initialised", n);
                ran.clear();
                CALL(.rw(tab, sizeof *tab * n), "Scheduler_run", L.Scheduler_run(tab, n));
                CHECK(ran.empty(), "stale-task", "a task registered before the initialisation ran");
                std::vector<std::pair<int, bool>> reg;
                for (u32 i = 0; i < len && i < 14 * sc; ++i) {
                    if (S.ch.pick(3) < 2) {
                        int f = (int)S.ch.pick(8); bool act = S.ch.pick(3) != 2; nt->function = c17_fns[f]; nt->active = act;
                        bool r = CALL(.rw(tab, sizeof *tab * n).ro(nt, sizeof *nt), "Scheduler_addTask", L.Scheduler_addTask(tab, n, nt));
                        LOG("register %d active=%d -> %d (%zu of %u)", f, act, r, reg.size(), n); dig(r);
                        CHECK(r == (reg.size() < n), "add-result", "registration %s with %zu of %u slots used after initialisation", r ? "accepted" : "refused", reg.size(), n);
                        if (r) reg.push_back({ f, act });
                    } else {
                        ran.clear(); CALL(.rw(tab, sizeof *tab * n), "Scheduler_run", L.Scheduler_run(tab, n)); ++S.ticks;
                        std::vector<int> want, got = ran; for (auto& x : reg) if (x.second) want.push_back(x.first);
                        std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); // slot choice is not specified
                        CHECK(want == got, "pass", "pass ran %zu tasks, %zu are registered and active", got.size(), want.size());
                    }
                    op_end();
                } }; break;
        }
        if (life == 0) { // the first life starts in arbitrary memory
            if (kind == 0) scribble(q.q, sizeof *q.q);
        }
        spawn(nm("life", life), body);
        run_tasks();
    }
    if (kind == 0) solo("drain", [&] { q.drain(); });
    if (kind == 1) solo("drain", [&] { p.drain(); });
    if (kind == 2) solo("verify", [&] { m.verify_all(); });
}

void register_containers() {
    WL.push_back({ "C01", run_c01, 2500000, "one run = 1-3 queues of drawn capacity (1-310, rarely any magnitude to 65600) and element size (1-270, rarely to 140000) and content (unique, repeated, extreme, arbitrary) used by 1-4 parties in a drawn operation mix, each operation checked against a deque, contents drained and compared at the end; non-trivial: at least 3 library operations completed and at least one fault or preemption fired; distinct: different interleaving/operation digest" });
    WL.push_back({ "C02", run_c02, 2000000, "one run = 1-2 priority queues used by 1-4 parties (sizes and contents as C01; rarely full beyond 65536 elements) under one of 7 priority patterns, checked against a model that leaves open which of several lowest equals was displaced; non-trivial: at least 3 operations and at least one fault or preemption; distinct: different operation/interleaving digest" });
    WL.push_back({ "C03", run_c03, 2500000, "one run = 1-2 maps used by 1-4 parties (sizes and contents as C01; rarely more than 32768 keys) over a pool of near-equal and extreme keys, checked against a std::map; non-trivial: at least 3 operations and at least one fault or preemption; distinct: different operation/interleaving digest" });
    WL.push_back({ "C17", run_c17, 4000000, "one run = 2-4 lives of one queue, priority queue, map, document or task table in the same storage, each life cut by a crash at a drawn memory access or handed over, then re-initialised with the same or a new geometry over scribbled memory and checked against a fresh model; non-trivial: at least 3 operations and at least one fault; distinct: different digest" });
}
