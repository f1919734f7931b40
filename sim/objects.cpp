#include "objects.h"
#include <algorithm>

u32 draw_cap() {
    switch (S.ch.weighted({ 60, 25, 10, 4, 1 })) {
        case 0: return 1 + S.ch.pick(4);
        case 1: return 1 + S.ch.pick(10);
        case 2: return 1 + S.ch.pick(40);
        case 3: return 120 + S.ch.pick(20);
        default: return 250 + S.ch.pick(60);
    }
}
u32 draw_es() {
    switch (S.ch.weighted({ 50, 30, 15, 4, 1 })) {
        case 0: return 1 + S.ch.pick(4);
        case 1: return 1 + S.ch.pick(16);
        case 2: return 1 + S.ch.pick(40);
        case 3: return 60 + S.ch.pick(80);
        default: return 250 + S.ch.pick(20);
    }
}
std::string draw_text(u32 maxlen, u32 flavour) {
    u32 n = S.ch.pick(maxlen + 1); std::string s(n, 'a');
    u32 mode = S.ch.pick(4); u64 x = S.ch.pick(4096);
    for (char& c : s) {
        u32 r = (u32)(Choices::mix(x) >> 33);
        switch (mode) {
            case 0: c = 'a'; break;
            case 1: c = (char)('a' + r % 26); break;
            case 2: c = " :,{}[]=ab0"[r % 11]; break;
            default: do { c = (char)(32 + (r % 95)); r = r * 7 + 3; } while (c == '"' || c == '\\'); break;
        }
        if (flavour == 2 && r % 7 == 0) { c = "\"\\{"[r / 7 % 3]; continue; }
        if (flavour && r % 9 == 0) c = (char)(0x80 | (r >> 3 & 0x7f)); // non-ASCII bytes
    }
    return s;
}

void Content::draw() { mode = S.ch.weighted({ 45, 10, 8, 6, 6, 10, 10, 10 }); if (mode == 7) mode = 8; last.clear(); if (mode) PROBE("repeated_or_extreme_content"); }
void Content::next(std::vector<u8>& v, size_t n, const std::vector<u8>* like) {
    v.resize(n); u64 x = id++; u32 m = mode;
    if (m == 6) { m = S.ch.pick(7); if (m == 6) m = 8; }
    if (m == 1) m = S.ch.pick(2) ? 7 : 0;
    if (m == 7 && last.size() != n) m = 0;
    if (m == 8) { if (!like || S.ch.pick(4) == 0) like = &last; if (like->size() != n) m = 5; }
    switch (m) {
        case 0: for (size_t i = 0; i < n; ++i) v[i] = (u8)((x >> (8 * (i & 3))) + (i >> 2) * 37); break;
        case 2: for (size_t i = 0; i < n; ++i) v[i] = (u8)(x % 3 + i); break;   // few different ones
        case 3: memset(v.data(), 0, n); break;
        case 4: memset(v.data(), 0xFF, n); break;
        case 7: v = last; break;
        case 8: v = *like; if (S.ch.pick(6)) vary(v.data(), n); break; // all but a few bytes as before
        default: fill_bytes(v.data(), n); break;
    }
    last = v;
}

// ------------------------------------------------------------------ queue
void QObj::init() {
    LOG("%s: init capacity=%u element_size=%u (%s)", nm.c_str(), cap, es, L->tag);
    bool r = CALL(.rw(q, sizeof *q).rw(store, (size_t)cap * es), "Queue_init", L->Queue_init(q, cap, es, store));
    CHECK(r, "init", "%s: Queue_init(capacity %u, element size %u) refused", nm.c_str(), cap, es);
    m.clear(); broken = false; ++lives;
}
void QObj::enqueue() {
    std::vector<u8> v; ct.next(v, es); memcpy(elem, v.data(), es);
    bool r = CALL(.rw(q, sizeof *q).rw(store, (size_t)cap * es).ro(elem, es), "Queue_enqueue", L->Queue_enqueue(q, elem));
    LOG("%s: enqueue %s -> %d (holds %zu of %u)", nm.c_str(), hex(elem, es).c_str(), r, m.size(), cap); dig(r);
    bool want = m.size() < cap;
    CHECK(r == want, "enqueue-result", "%s: insert %s with %zu of %u held", nm.c_str(), r ? "accepted" : "refused", m.size(), cap);
    if (r) m.push_back(v); else PROBE("queue_full_refusal");
    if (m.size() == cap) PROBE("queue_filled");
}
void QObj::dequeue() {
    if (!m.empty()) almost(out, es, m.front().data(), es);
    bool r = CALL(.rw(q, sizeof *q).rw(store, (size_t)cap * es).rw(out, es), "Queue_dequeue", L->Queue_dequeue(q, out));
    LOG("%s: dequeue -> %d %s (held %zu)", nm.c_str(), r, r ? hex(out, es).c_str() : "", m.size()); dig(r);
    CHECK(r == !m.empty(), "dequeue-result", "%s: removal %s with %zu held", nm.c_str(), r ? "succeeded" : "refused", m.size());
    if (r) {
        CHECK(!memcmp(out, m.front().data(), es), "dequeue-value", "%s: removed %s, oldest is %s", nm.c_str(), hex(out, es).c_str(), hex(m.front().data(), es).c_str());
        m.pop_front();
    } else PROBE("queue_empty_refusal");
}
void QObj::front() {
    if (!m.empty()) almost(out, es, m.front().data(), es);
    bool r = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es).rw(out, es), "Queue_front", L->Queue_front(q, out)); dig(r);
    LOG("%s: front -> %d", nm.c_str(), r);
    CHECK(r == !m.empty(), "front-result", "%s: front %s with %zu held", nm.c_str(), r ? "succeeded" : "refused", m.size());
    if (r) CHECK(!memcmp(out, m.front().data(), es), "front-value", "%s: front shows %s, oldest is %s", nm.c_str(), hex(out, es).c_str(), hex(m.front().data(), es).c_str());
}
void QObj::rear() {
    if (!m.empty()) almost(out, es, m.back().data(), es);
    bool r = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es).rw(out, es), "Queue_rear", L->Queue_rear(q, out)); dig(r);
    LOG("%s: rear -> %d", nm.c_str(), r);
    CHECK(r == !m.empty(), "rear-result", "%s: rear %s with %zu held", nm.c_str(), r ? "succeeded" : "refused", m.size());
    if (r) CHECK(!memcmp(out, m.back().data(), es), "rear-value", "%s: rear shows %s, newest is %s", nm.c_str(), hex(out, es).c_str(), hex(m.back().data(), es).c_str());
}
void QObj::query() {
    bool f = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es), "Queue_full", L->Queue_full(q));
    bool e = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es), "Queue_empty", L->Queue_empty(q));
    dig(f * 2 + e);
    CHECK(f == (m.size() == cap), "full-query", "%s: full()=%d with %zu of %u held", nm.c_str(), f, m.size(), cap);
    CHECK(e == m.empty(), "empty-query", "%s: empty()=%d with %zu held", nm.c_str(), e, m.size());
}
void QObj::reject() { // missing arguments are refused and change nothing
    FAULT("missing_argument");
    bool r = false; u32 k = S.ch.pick(6);
    LOG("%s: call with missing argument %u", nm.c_str(), k);
    switch (k) {
        case 0: r = CALL(.rw(q, sizeof *q).rw(store, (size_t)cap * es), "Queue_enqueue(no element)", L->Queue_enqueue(q, nullptr)); break;
        case 1: r = CALL(.rw(q, sizeof *q).rw(store, (size_t)cap * es), "Queue_dequeue(no element)", L->Queue_dequeue(q, nullptr)); break;
        case 2: r = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es), "Queue_front(no element)", L->Queue_front(q, nullptr)); break;
        case 3: r = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es), "Queue_rear(no element)", L->Queue_rear(q, nullptr)); break;
        case 4: r = CALL(.ro(elem, es), "Queue_enqueue(no queue)", L->Queue_enqueue(nullptr, elem)); break;
        default: { u32 j = S.ch.pick(3); if (j == 0) r = CALL(.rw(out, es), "Queue_dequeue(no queue)", L->Queue_dequeue(nullptr, out)); else if (j == 1) r = CALL(.rw(out, es), "Queue_front(no queue)", L->Queue_front(nullptr, out)); else r = CALL(.rw(out, es), "Queue_rear(no queue)", L->Queue_rear(nullptr, out)); }
    }
    CHECK(!r, "missing-argument", "%s: call with a missing argument (case %u) succeeded", nm.c_str(), k);
}
void QObj::refused_init() {
    FAULT("refused_init"); u32 k = S.ch.pick(3);
    LOG("%s: unusable re-initialisation %u", nm.c_str(), k);
    bool r = CALL(.rw(q, sizeof *q).rw(store, (size_t)cap * es), "Queue_init(unusable)", L->Queue_init(q, k == 0 ? 0 : cap + 1, k == 1 ? 0 : es + 1, k == 2 ? nullptr : store));
    CHECK(!r, "refused-init", "%s: unusable initialisation (case %u) accepted", nm.c_str(), k);
}
void QObj::drain() {
    LOG("%s: final drain of %zu", nm.c_str(), m.size());
    query(); front(); rear();
    while (!m.empty()) dequeue();
    dequeue(); query();
    // the emptied queue is fully usable
    for (u32 i = 0; i < cap && i < 5; ++i) enqueue();
    while (!m.empty()) dequeue();
}

// --------------------------------------------------------- priority queue
void PObj::create(u32 c, u32 e, u32 prio_room_, size_t room_, const char* name) {
    L = &pick_lib(); q = make<PriorityQueue_t>(); nm = name; cap = c; es = e;
    room = room_ > (size_t)c * e ? room_ : (size_t)c * e; prio_room = prio_room_ > c ? prio_room_ : c;
    store = alloc(room); prio = make_n<u32>(prio_room); pv = make<u32>(); item = make<PriorityQueueItem_t>(); items = make<PriorityQueueItem_t>();
    pat = S.ch.pick(7); ct.draw(); buffers();
}
u32 PObj::draw_prio() {
    switch (pat) {
        case 0: return 5;
        case 1: return S.ch.pick(3);
        case 2: return ++seqp;
        case 3: return 1000000 - ++seqp;
        case 4: return S.ch.pick(2) ? 0xFFFFFFFFu - S.ch.pick(2) : S.ch.pick(2);
        case 5: return S.ch.pick(2 * cap + 2);
        default: return S.ch.u32val();
    }
}
void PObj::init() {
    LOG("%s: init capacity=%u element_size=%u (%s)", nm.c_str(), cap, es, L->tag);
    items->priority = prio; items->element = store;
    bool r = CALL(.lim(lim()).rw(q, sizeof *q).rw(store, (size_t)cap * es).rw(prio, cap * 4).ro(items, sizeof *items), "PriorityQueue_init", L->PriorityQueue_init(q, cap, es, items));
    CHECK(r, "init", "%s: PriorityQueue_init(capacity %u, element size %u) refused", nm.c_str(), cap, es);
    scribble(items, sizeof *items); // the descriptor is only an argument
    m.clear(); count = 0; broken = false; ++lives;
}
void PObj::enqueue(u32 p) {
    std::vector<u8> v; ct.next(v, es);
    memcpy(elem, v.data(), es); *pv = p; item->priority = pv; item->element = elem;
    bool r = CALL(.lim(lim()).rw(q, sizeof *q).rw(store, (size_t)cap * es).rw(prio, cap * 4).ro(item, sizeof *item).ro(pv, 4).ro(elem, es), "PriorityQueue_enqueue", L->PriorityQueue_enqueue(q, item));
    LOG("%s: enqueue priority %u %s -> %d (holds %u of %u)", nm.c_str(), p, hex(elem, es).c_str(), r, count, cap); dig(r);
    u64 t = clock++;
    if (count < cap) {
        CHECK(r, "enqueue-result", "%s: insert refused with %u of %u held", nm.c_str(), count, cap);
        m[p].l.push_back({ v, t }); ++count;
        return;
    }
    auto lo = m.begin(); // lowest priority present
    while (lo->second.l.size() == lo->second.disp.size()) lo = m.erase(lo);
    bool want = lo->first < p;
    CHECK(r == want, "enqueue-full-result", "%s: full queue %s priority %u while the lowest held is %u", nm.c_str(), r ? "accepted" : "refused", p, lo->first);
    if (r) { lo->second.disp.push_back(t); m[p].l.push_back({ v, clock++ }); PROBE("pq_displacement"); if (lo->second.l.size() - lo->second.disp.size() > 0) PROBE("pq_displacement_among_equals"); }
    else PROBE("pq_full_refusal");
}
// The element displaced among equals is not specified: an observed removal is
// legal if some assignment of the recorded displacements explains it.
void PObj::dequeue() {
    if (count) { auto hi = m.end(); --hi; if (!hi->second.l.empty()) almost(out, es, hi->second.l[0].b.data(), es); }
    bool r = CALL(.lim(lim()).rw(q, sizeof *q).rw(store, (size_t)cap * es).rw(prio, cap * 4).rw(out, es), "PriorityQueue_dequeue", L->PriorityQueue_dequeue(q, out));
    LOG("%s: dequeue -> %d %s (held %u)", nm.c_str(), r, r ? hex(out, es).c_str() : "", count); dig(r);
    CHECK(r == (count != 0), "dequeue-result", "%s: removal %s with %u held", nm.c_str(), r ? "succeeded" : "refused", count);
    if (!r) { PROBE("pq_empty_refusal"); return; }
    auto hi = m.end(); --hi;
    while (hi->second.l.size() == hi->second.disp.size()) { hi = --m.erase(hi); }
    G& g = hi->second;
    auto feasible = [](const std::deque<E>& l, size_t from, const std::vector<u64>& d, size_t dfrom) {
        // every remaining displacement needs its own element that was present then
        size_t j = from;
        for (size_t i = dfrom; i < d.size(); ++i, ++j) { if (j >= l.size() || l[j].t > d[i]) return false; }
        return true;
    };
    size_t k = 0; bool ok = false;
    for (; k <= g.disp.size() && k < g.l.size(); ++k) {
        if (k && g.l[k - 1].t > g.disp[k - 1]) break;
        if (!memcmp(g.l[k].b.data(), out, es) && feasible(g.l, k + 1, g.disp, k)) { ok = true; break; }
    }
    CHECK(ok, "dequeue-value", "%s: removed %s, but the longest-waiting element of the highest priority %u is %s", nm.c_str(), hex(out, es).c_str(), hi->first, hex(g.l[0].b.data(), es).c_str());
    g.l.erase(g.l.begin(), g.l.begin() + (long)k + 1); g.disp.erase(g.disp.begin(), g.disp.begin() + (long)k);
    if (g.l.empty()) m.erase(hi);
    --count;
}
void PObj::query() {
    bool e = CALL(.ro(q, sizeof *q).ro(store, (size_t)cap * es).ro(prio, cap * 4), "PriorityQueue_empty", L->PriorityQueue_empty(q)); dig(e);
    CHECK(e == (count == 0), "empty-query", "%s: empty()=%d with %u held", nm.c_str(), e, count);
}
void PObj::refused_init() {
    FAULT("refused_init"); u32 k = S.ch.pick(4);
    items->priority = prio; items->element = store;
    LOG("%s: unusable re-initialisation %u", nm.c_str(), k);
    bool r = CALL(.lim(lim()).rw(q, sizeof *q).rw(store, (size_t)cap * es).rw(prio, cap * 4).ro(items, sizeof *items), "PriorityQueue_init(unusable)", L->PriorityQueue_init(k == 3 ? nullptr : q, k == 0 ? 0 : cap + 1, k == 1 ? 0 : es + 1, k == 2 ? nullptr : items));
    CHECK(!r, "refused-init", "%s: unusable initialisation (case %u) accepted", nm.c_str(), k);
}
void PObj::drain() {
    LOG("%s: final drain of %u", nm.c_str(), count);
    if (cap > 400) { query(); for (u32 i = 0; i < 100 && count; ++i) dequeue(); init(); }
    query(); while (count) dequeue();
    dequeue(); query();
    enqueue(7); enqueue(7); query(); while (count) dequeue();
}

// -------------------------------------------------------------------- map
void MObj::create(int32_t c, int32_t k, int32_t v, size_t kr, size_t vr, const char* name) {
    L = &pick_lib(); q = make<Map_t>(); nm = name; cap = c; ksz = k; vsz = v;
    kroom = kr > (size_t)c * (size_t)k ? kr : (size_t)c * (size_t)k; vroom = vr > (size_t)c * (size_t)v ? vr : (size_t)c * (size_t)v;
    ks = alloc(kroom); vs = alloc(vroom); buffers(); ct.draw(); make_pool((u32)c * 2 + 2);
}
void MObj::buffers() { kb = alloc((size_t)ksz); vb = alloc((size_t)vsz); ob = alloc((size_t)vsz); }
void MObj::make_pool(u32 n) {
    pool.clear(); if (n > pool_max) n = pool_max;
    std::vector<u8> base((size_t)ksz); fill_bytes(base.data(), base.size());
    u32 mode = S.ch.pick(5); // where near-equal keys differ
    for (u32 i = 0; i < n; ++i) {
        std::vector<u8> k = base; u32 sz = (u32)ksz;
        switch (mode) {
            case 0: k[sz - 1] = (u8)i; if (sz > 1) k[sz - 2] = (u8)(k[sz - 2] + (i >> 8)); break;   // last byte
            case 1: k[0] = (u8)i; if (sz > 1) k[1] = (u8)(k[1] + (i >> 8)); break;                    // first byte
            case 2: k[i % sz] ^= (u8)(1 + i / sz); break;                                             // one byte anywhere
            case 4: if (i) k = pool[S.ch.pick(i)]; for (u32 t = 0; t < 8; ++t) { vary(k.data(), k.size()); if (i > 300 || std::find(pool.begin(), pool.end(), k) == pool.end()) break; } break; // an anagram, a compensated change, one bit
            default: { u64 x = i + 1; for (auto& b : k) b = (u8)(Choices::mix(x) % (sz < 3 ? 256 : 3)); break; } // many zero bytes
        }
        pool.push_back(k);
    }
    if (n && S.ch.pick(4) == 3) { // keys of nothing but zero or one bits
        PROBE("extreme_key"); u32 at = S.ch.pick(n), how = S.ch.pick(3);
        if (how != 1) pool[at].assign((size_t)ksz, 0);
        if (how != 0) pool[(at + (how == 2)) % n].assign((size_t)ksz, 0xFF);
    }
}
void MObj::init() {
    LOG("%s: init capacity=%d key=%d value=%d (%s)", nm.c_str(), cap, ksz, vsz, L->tag);
    bool r = CALL(.rw(q, sizeof *q).rw(ks, (size_t)(cap * ksz)).rw(vs, (size_t)(cap * vsz)), "Map_init", L->Map_init(q, ks, vs, ksz, vsz, cap));
    CHECK(r, "init", "%s: Map_init refused", nm.c_str());
    m.clear(); broken = false; ++lives;
}
void MObj::insert(u32 ki) {
    auto& k = pool[ki % pool.size()]; std::vector<u8> v; auto cur = m.find(k); ct.next(v, (size_t)vsz, cur == m.end() ? nullptr : &cur->second);
    memcpy(kb, k.data(), k.size()); memcpy(vb, v.data(), v.size());
    bool r = CALL(.rw(q, sizeof *q).rw(ks, (size_t)(cap * ksz)).rw(vs, (size_t)(cap * vsz)).ro(kb, (size_t)ksz).ro(vb, (size_t)vsz), "Map_insert", L->Map_insert(q, kb, vb));
    LOG("%s: insert %s=%s -> %d (holds %zu of %d)", nm.c_str(), hex(k.data(), k.size()).c_str(), hex(v.data(), v.size()).c_str(), r, m.size(), cap); dig(r);
    bool present = m.count(k) != 0, want = present || m.size() < (size_t)cap;
    CHECK(r == want, "insert-result", "%s: insertion of %s key %s with %zu of %d held", nm.c_str(), present ? "a present" : "a new", r ? "accepted" : "refused", m.size(), cap);
    if (r) { if (present) PROBE("map_overwrite"); m[k] = v; } else PROBE("map_full_refusal");
}
void MObj::get(u32 ki) {
    auto& k = pool[ki % pool.size()]; memcpy(kb, k.data(), k.size());
    { auto c = m.find(k); if (c != m.end()) almost(ob, (size_t)vsz, c->second.data(), c->second.size()); }
    bool r = CALL(.ro(q, sizeof *q).ro(ks, (size_t)(cap * ksz)).ro(vs, (size_t)(cap * vsz)).ro(kb, (size_t)ksz).rw(ob, (size_t)vsz), "Map_getValue", L->Map_getValue(q, kb, ob));
    LOG("%s: get %s -> %d %s", nm.c_str(), hex(k.data(), k.size()).c_str(), r, r ? hex(ob, (size_t)vsz).c_str() : ""); dig(r);
    auto it = m.find(k);
    CHECK(r == (it != m.end()), "get-result", "%s: lookup of %s key %s", nm.c_str(), it != m.end() ? "a present" : "an absent", r ? "succeeded" : "failed");
    if (r) CHECK(!memcmp(ob, it->second.data(), it->second.size()), "get-value", "%s: lookup gave %s, last inserted was %s", nm.c_str(), hex(ob, (size_t)vsz).c_str(), hex(it->second.data(), it->second.size()).c_str());
    else PROBE("map_miss");
}
void MObj::null_map() {
    FAULT("missing_argument");
    bool a = CALL(.ro(kb, (size_t)ksz).ro(vb, (size_t)vsz), "Map_insert(no map)", L->Map_insert(nullptr, kb, vb));
    bool b = CALL(.ro(kb, (size_t)ksz).rw(ob, (size_t)vsz), "Map_getValue(no map)", L->Map_getValue(nullptr, kb, ob));
    CHECK(!a && !b, "missing-argument", "call without a map succeeded");
}
void MObj::refused_init() {
    FAULT("refused_init"); u32 k = S.ch.pick(5);
    LOG("%s: unusable re-initialisation %u", nm.c_str(), k);
    bool r = CALL(.rw(q, sizeof *q).rw(ks, (size_t)(cap * ksz)).rw(vs, (size_t)(cap * vsz)), "Map_init(unusable)", L->Map_init(q, k == 0 ? nullptr : ks, k == 1 ? nullptr : vs, k == 2 ? 0 : ksz + 1, k == 3 ? 0 : vsz + 1, k == 4 ? 0 : cap + 1));
    CHECK(!r, "refused-init", "%s: unusable initialisation (case %u) accepted", nm.c_str(), k);
}
void MObj::verify_all() { for (u32 i = 0; i < pool.size() && i < 64; ++i) get(i); if (pool.size() > 64) for (u32 i = 0; i < 32; ++i) get(S.ch.pick((u32)pool.size())); }

// ----------------------------------------------------------- JSON builder
void JObj::check(const char* after) {
    if (size == 0 || (!started && doc.empty() && size < 1)) return;
    size_t n = doc.size();
    CHECK(n + 1 <= size && !memcmp(buf, doc.c_str(), n + 1), "document", "%s: after %s the buffer (size %zu) holds %s, expected %s", nm.c_str(), after, size, quote(buf, strnlen(buf, size)).c_str(), quote(doc.data(), n).c_str());
}
void JObj::start() {
    bool r = CALL(.rw(buf, size), "Json_startString", L->Json_startString(buf, size));
    LOG("%s: start in %zu bytes -> %d (%s)", nm.c_str(), size, r, L->tag); dig(r);
    CHECK(r == (size >= 2), "start-result", "%s: start in %zu bytes %s", nm.c_str(), size, r ? "succeeded" : "failed");
    if (r) { doc = "{"; mem.clear(); started = true; ended = false; broken = false; check("start"); }
    else PROBE("json_start_no_room");
}
void JObj::add(const std::string& k, const std::string& v) {
    char* kp = tmp_str(k, 1); char* vp = tmp_str(v, 2);
    std::string nd = doc; if (!doc.empty() && doc.back() == '"') nd += ','; nd += "\"" + k + "\":\"" + v + "\"";
    bool want = nd.size() + 1 <= size;
    if (doc.size() + 1 < size) almost(buf + doc.size() + 1, size - doc.size() - 1, nd.data() + doc.size() + 1, nd.size() - doc.size()); // an older document lies behind this one
    bool r = CALL(.rw(buf, size).ro(kp, k.size() + 1).ro(vp, v.size() + 1), "Json_addData", L->Json_addData(buf, size, kp, vp));
    LOG("%s: add %s:%s -> %d (needs %zu of %zu)", nm.c_str(), k.c_str(), v.c_str(), r, nd.size() + 1, size); dig(r);
    CHECK(r == want, "add-result", "%s: adding %s to %s needs %zu of %zu bytes and %s", nm.c_str(), k.c_str(), quote(doc.data(), doc.size()).c_str(), nd.size() + 1, size, r ? "succeeded" : "failed");
    if (r) { doc = nd; mem.push_back({ k, v }); } else FAULT("no_room");
    if (nd.size() + 1 == size) PROBE("json_exact_fit");
    if (nd.size() == size) PROBE("json_one_short");
    check(r ? "a successful add" : "a failed add");
}
void JObj::end() {
    bool want = doc.size() + 2 <= size;
    bool r = CALL(.rw(buf, size), "Json_endString", L->Json_endString(buf, size));
    LOG("%s: end -> %d", nm.c_str(), r); dig(r);
    CHECK(r == want, "end-result", "%s: closing needs %zu of %zu bytes and %s", nm.c_str(), doc.size() + 2, size, r ? "succeeded" : "failed");
    if (r) { doc += '}'; ended = true; } else FAULT("no_room");
    check(r ? "a successful end" : "a failed end");
    if (ended) { // the document closes into exactly the accepted members in order
        std::string want_doc = "{"; for (size_t i = 0; i < mem.size(); ++i) want_doc += (i ? "," : "") + ("\"" + mem[i].first + "\":\"" + mem[i].second + "\""); want_doc += "}";
        CHECK(doc == want_doc, "well-formed", "%s: closed document is %s, accepted members are %s", nm.c_str(), doc.c_str(), want_doc.c_str());
    }
}
