// C11 document building, C12 lookup in partly received objects, C13 text armour, C15 hostile input
#include "objects.h"
#include <algorithm>

static std::string nm(const char* p, u32 i) { return p + std::to_string(i); }
// ------------------------------------------------------------------- C11
static void doc_restart(JObj& o) {
    o.started = false; o.ended = false; o.broken = false; o.mem.clear(); o.doc.clear(); o.L = &pick_lib();
    o.start();
    if (!o.started && o.size) { o.buf[0] = 0; if (o.size == 1) PROBE("one_byte_buffer"); }
}
static void doc_task(JObj* o, u32 len, bool large) {
    for (u32 i = 0; i < len; ++i) {
        lock(o->lk);
        if (o->broken) { FAULT("restart"); if (S.ch.pick(2)) scribble(o->buf, o->size); doc_restart(*o); }
        else if (o->size == 0) { o->start(); }
        else switch (o->ended ? 2u : S.ch.weighted({ 70, 22, 4 })) {
            case 0: { std::string k = draw_text(5, 1), v = draw_text(large ? (S.ch.pick(2) ? 30000 : S.ch.logsize(20, 30000)) : o->size > 100 ? (u32)o->size / 3 : 9, 1); if (S.ch.pick(12) == 11) { o->raw = true; PROBE("quotes_in_members"); (S.ch.pick(2) ? k : v) = draw_text(6, 2); if (S.ch.pick(2)) { static const char* e[] = { "\"", "{\"", ",\"", "}", "{", "\\", "\"}", "\"\"" }; v += e[S.ch.pick(8)]; } } if (large && S.ch.pick(2)) k = std::string(200 + S.ch.pick(100), 'k'); o->add(k, v); break; }
            case 1: o->end(); break;
            default: if (S.ch.pick(2)) PROBE("new_document"); doc_restart(*o);
        }
        unlock(o->lk); op_end();
    }
}
static void run_c11() {
    if (u32 n = aged(307)) { // one document after the other in the same buffer
        JObj o; o.create(S.ch.pick(40), "recurring document"); std::string k = draw_text(4, 1), v = draw_text(5, 1), k2 = draw_text(3, 1); u32 what = S.ch.pick(3);
        age(n, [&](u32 i) { if (!o.size) { o.start(); return; } if (what || i == 0 || o.ended) { if (o.ended || i == 0 || what == 2) { o.started = o.ended = false; o.doc.clear(); o.start(); if (!o.started) { o.buf[0] = 0; return; } } } if (what != 1 || i % 3 == 0) { o.add(k, v); if (what == 2) o.add(k2, v); } if (what) o.end(); });
    }
    bool large = S.ch.pick(2000) == 1999; if (large) PROBE("large_document");
    auto ds = std::make_unique<std::deque<JObj>>(); u32 n = 1 + S.ch.pick(3);
    for (u32 i = 0; i < n; ++i) { ds->emplace_back(); ds->back().create(large ? 60000 + S.ch.pick(30000) : S.ch.pick(40) == 39 ? (S.ch.pick(2) ? S.ch.logsize(60, 6000) : 120 + S.ch.pick(500)) : S.ch.pick(6) == 5 ? S.ch.pick(8) : S.ch.pick(70), nm("document", i).c_str()); }
    u32 nt = crowd(1 + S.ch.pick(4), 104);
    draw_policy(S.ch.pick(3) == 2 ? 15 : 0);
    if (large) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    S.on_kill = [](Task* t) { if (t->user) ((JObj*)t->user)->broken = true; };
    u32 len = 1 + S.ch.pick(25); if (large) len = 6;
    for (u32 i = 0; i < nt; ++i) { JObj* o = &(*ds)[S.ch.pick(n)]; spawn(nm("builder", i), [o, len, large] { doc_task(o, len, large); })->user = o; }
    run_tasks();
    for (auto& o : *ds) solo("close", [&] { // after any history the document can still be continued or closed, if the brace fits
        if (o.broken) doc_restart(o);
        if (!o.size || o.doc.empty() || o.doc[0] != '{') return;
        if (!o.ended) { if (S.ch.pick(2)) o.add(draw_text(4), draw_text(4)); o.end(); }
        if (o.ended && !o.raw) for (auto& m : o.mem) { // an independent reader finds every member
            u32 same = 0; for (auto& x : o.mem) same += x.first == m.first;
            if (same == 1) { auto f = model::json_find(o.doc, m.first); CHECK(f.ok && f.value == m.second, "well-formed", "%s: closed document %s does not hold member %s", o.nm.c_str(), o.doc.c_str(), m.first.c_str()); }
        }
    });
}
// ------------------------------------------------------------------- C12
namespace {
struct Mem { std::string k, v; int scalar = 0; };
struct Rx { char* buf; u32 cap; std::string obj; std::vector<Mem> mem; u32 got = 0; bool term = false; Lock lk; std::string nm; u32 old = 0; int restarts = 0; bool dirtytail = true; u32 gen = 0; bool complete = false, longs = false; };
std::string stretch(const std::string& s) { static const u32 l[5] = { 256, 255, 254, 512, 250 }; u32 k = S.ch.pick(6); return s + std::string(k < 5 ? l[k] : 100 + S.ch.pick(300), (char)('q' + S.ch.pick(2))); }
const char* KEYS[] = { "a", "b", "ab", "aa", "ba", "aab", "key", "key1", "key12", "1key", "ykey", "public_key", "public_key_signature", "public", ":", ",", "{", "}", " ", "a:", ",a", "a,b", ":a", "[", "true", "1", "", "a b" };
std::string ws() { static const char w[] = " \t\n\r"; std::string s; u32 n = S.ch.weighted({ 70, 15, 10, 5 }); for (u32 i = 0; i < n; ++i) s += w[S.ch.pick(4)]; return s; }
// a nested array or object; its inner keys are never looked up
std::string nested(u32 depth, const std::function<std::string()>& w) {
    bool arr = S.ch.pick(2); std::string s = (arr ? "[" : "{") + w(); u32 n = S.ch.pick(3);
    if (depth == 1 && S.ch.pick(600) == 599) { u32 d = 250 + S.ch.pick(20); PROBE("deeply_nested_value"); return std::string(d, '[') + "1" + std::string(d, ']'); }
    for (u32 i = 0; i < n; ++i) {
        if (i) s += w() + "," + w();
        if (!arr) s += "\"inner#" + std::to_string(i) + "\"" + w() + ":" + w();
        switch (S.ch.pick(4)) {
            case 0: s += "\"" + std::string(KEYS[S.ch.pick(28)]) + "\""; break;
            case 1: s += "17"; break;
            case 2: { static const char* t[] = { "}", "]", "{", "[", "\\\"", "]}", "a\\\":\\\"b" }; s += "\"" + std::string(t[S.ch.pick(7)]) + "\""; break; }
            default: s += depth < 4 ? nested(depth + 1, w) : "null";
        }
    }
    return s + w() + (arr ? "]" : "}");
}
std::string lookalike(const std::string& k) { // differs little enough for sums, hashes, case or positions to miss it
    for (u32 t = 0; t < 6; ++t) {
        std::string v = k; if (S.ch.pick(5) == 4 && !v.empty()) { char& c = v[S.ch.pick((u32)v.size())]; if (isalpha((u8)c)) c ^= 32; } else vary((u8*)&v[0], v.size());
        bool ok = v != k && v.compare(0, 5, "inner"); for (char c : v) ok = ok && (u8)c >= 32 && (u8)c < 127 && c != '"' && c != '\\';
        if (ok) { PROBE("lookalike_key"); return v; }
    }
    return k + "_";
}
void new_object(Rx& r, bool large) {
    r.obj.clear(); r.mem.clear(); r.got = 0; ++r.gen;
    std::vector<std::string> ks; u32 n = S.ch.pick(6);
    for (u32 i = 0; i < n; ++i) { std::string k = S.ch.pick(5) == 4 ? draw_text(4, 1) : KEYS[S.ch.pick(28)]; if (r.longs && S.ch.pick(3) == 2) k = stretch(k); if (i && S.ch.pick(6) == 5) k = lookalike(ks[S.ch.pick((u32)ks.size())]); if (std::find(ks.begin(), ks.end(), k) == ks.end()) ks.push_back(k); }
    u32 many = large && S.ch.pick(4) == 3 ? r.cap > 800000 && S.ch.pick(3) ? 65500 + S.ch.pick(300) : S.ch.logsize(10, r.cap / 8) : r.longs && S.ch.pick(3) == 2 ? S.ch.logsize(6, 300) : 0, run = S.ch.pick(4) ? 0 : large ? S.ch.pick(2) ? 65500 + S.ch.pick(100) : S.ch.logsize(20, 60000) : r.longs ? S.ch.pick(2) ? 250 + S.ch.pick(270) : S.ch.logsize(5, 250) : 0;
    bool spaced = S.ch.pick(2);
    auto w = [&] { std::string s = spaced ? ws() : std::string(); if (run && S.ch.pick(5) == 4) { s += std::string(run, " \t\n\r"[S.ch.pick(4)]); run = 0; PROBE("long_whitespace"); } return s; };
    r.obj = w() + "{" + w();
    for (size_t i = 0; i < ks.size(); ++i) {
        Mem m; m.k = ks[i];
        switch (S.ch.pick(6)) {
            case 0: m.v = draw_text(8, 1); break;
            case 1: m.v = KEYS[S.ch.pick(28)]; break;
            case 2: m.v = ks[S.ch.pick((u32)ks.size())]; break;
            case 3: m.v = std::string(KEYS[S.ch.pick(28)]) + ":" + KEYS[S.ch.pick(28)]; break;
            case 4: m.scalar = 1; { static const char* sc[] = { "5", "true", "false", "null", "-1.5e3", "0" }; m.v = sc[S.ch.pick(6)]; } if (S.ch.pick(3) == 2) { m.v = nested(1, w); PROBE("nested_value"); } break;
            default: m.v = draw_text(20, 0);
        }
        if (!m.scalar && S.ch.pick(8) == 7) { static const char* es[] = { "\\\"", "\\\\", "\\n", "\\\"a\\\":\\\"b\\\"", "x\\\\" }; m.v.insert(S.ch.pick((u32)m.v.size() + 1), es[S.ch.pick(5)]); PROBE("escapes_in_value"); }
        if (r.longs && !m.scalar && S.ch.pick(3) == 2) m.v = stretch(m.v);
        if (large && i == 0) { m.scalar = 0; m.v = std::string(S.ch.pick(2) ? S.ch.logsize(500, 60000) : 66000 + S.ch.pick(100), 'v'); if (S.ch.pick(3) == 2) { m.v = "short"; m.k += std::string(65536, 'K'); PROBE("key_over_65535_characters"); } }
        if (large && i == 0 && S.ch.pick(4) == 3) { m.k = ks[i]; m.scalar = 1; u32 d = 65536 + S.ch.pick(3); m.v = std::string(d, '[') + "1" + std::string(d, ']'); PROBE("nesting_over_65535"); }
        if (i) r.obj += w() + "," + w();
        r.obj += "\"" + m.k + "\"" + w() + ":" + w() + (m.scalar ? m.v : "\"" + m.v + "\"");
        r.mem.push_back(m);
        if (many && (i == ks.size() / 2)) { // many small members before the others
            PROBE("many_members"); if (many > 65535) PROBE("members_over_65535");
            u32 st = S.ch.pick(3); for (u32 j = 0; j < many; ++j) { char t[16]; snprintf(t, sizeof t, "%x", j); Mem q; q.k = std::string("#") + t; q.scalar = st == 0 || (st == 2 && j % 2); q.v = "7"; r.obj += ",\"" + q.k + (q.scalar ? "\":7" : "\":\"7\""); if (j + 1 == many) r.mem.push_back(q); }
        }
    }
    r.obj += w() + "}"; r.complete = true;
    if (S.ch.pick(4) == 3) r.obj += ws();
    if (r.obj.size() + 1 > r.cap) { r.obj.resize(r.cap - 1); r.complete = false; FAULT("receive_buffer_overflow_cut"); }
}
void lookup(Rx& r) {
    const Lib& L = pick_lib();
    u32 bs = r.term ? (S.ch.pick(3) == 0 ? r.got : S.ch.pick(2) ? r.got + 1 : r.cap) : r.got;
    if (!r.term && r.complete && r.got == r.obj.size() && S.ch.pick(3) == 2) { bs = r.got + S.ch.pick(r.cap - r.got + 1); PROBE("declared_length_covers_older_object"); }
    std::string key = !r.mem.empty() && S.ch.pick(5) ? r.mem[S.ch.pick((u32)r.mem.size())].k : S.ch.pick(4) == 3 ? draw_text(5, 1) : KEYS[S.ch.pick(28)];
    if (S.ch.pick(12) == 11) key = lookalike(key);
    if (r.longs && S.ch.pick(2)) key = key.size() < 200 ? stretch(key) : key.substr(0, key.size() - (key.size() >= 256 ? 256 : S.ch.pick((u32)key.size())));
    if (key.size() > 65535 && S.ch.pick(2)) key.resize(key.size() - 65536);
    else if (!r.mem.empty() && r.mem[0].k.size() > 65535 && S.ch.pick(3) == 2) key += std::string(65536, 'K');
    if (r.got && S.ch.pick(40) == 39) { u32 a = S.ch.pick(r.got); std::string piece = r.obj.substr(a, S.ch.pick(std::min(r.got - a, 30u) + 1)); if (piece.compare(0, 6, "inner#")) key = piece; PROBE("key_is_a_piece_of_the_text"); }
    std::string text = r.obj.substr(0, r.got);
    auto f = model::json_find(text, key);
    u32 need = f.ok ? (u32)f.value.size() + 1 : 4; u32 room;
    switch (S.ch.weighted({ 40, 15, 15, 10, 20 })) { case 0: room = need + 20; break; case 1: room = need; break; case 2: room = need - 1; break; case 3: room = 0; break; default: room = S.ch.pick(need + 12); }
    char* kp = tmp_str(key, 1); char* out = (char*)tmp(room, 2); if (f.ok) almost(out, room, f.value.c_str(), f.value.size() + 1);
    bool res = CALL(.ro(r.buf, bs).ro(kp, key.size() + 1).rw(out, room).lim(4000000 + 100ull * (bs + key.size())), "Json_findByKey", L.Json_findByKey(r.buf, bs, kp, out, room));
    LOG("%s: look up %s in %s (%u of %zu received, declared %u, room %u) -> %d %s", r.nm.c_str(), quote(key.data(), key.size()).c_str(), quote(text.data(), text.size()).c_str(), r.got, r.obj.size(), bs, room, res, res ? quote(out, strnlen(out, room)).c_str() : ""); dig(res);
    bool want = f.ok && room >= f.value.size() + 1;
    if (r.got < r.obj.size()) PROBE("lookup_in_partial_object");
    if (f.ok && !want) FAULT("no_room");
    if (!res) { CHECK(!want, "not-found", "%s: member %s of %s not found (room %u)", r.nm.c_str(), quote(key.data(), key.size()).c_str(), quote(text.data(), text.size()).c_str(), room); PROBE("lookup_miss"); return; }
    size_t n = strnlen(out, room);
    CHECK(n < room, "unterminated", "%s: value of %s is not terminated within its room", r.nm.c_str(), key.c_str());
    CHECK(f.ok, "invented", "%s: lookup of %s in %s yields %s although that member is not there%s", r.nm.c_str(), quote(key.data(), key.size()).c_str(), quote(text.data(), text.size()).c_str(), quote(out, n).c_str(), r.got < r.obj.size() ? " (yet)" : "");
    CHECK(want, "no-room-accepted", "%s: value of %s does not fit %u bytes but was reported", r.nm.c_str(), key.c_str(), room);
    CHECK(std::string(out, n) == f.value, "wrong-value", "%s: lookup of %s in %s yields %s instead of %s", r.nm.c_str(), quote(key.data(), key.size()).c_str(), quote(text.data(), text.size()).c_str(), quote(out, n).c_str(), quote(f.value.data(), f.value.size()).c_str());
    PROBE("lookup_hit");
}
void arrive(Rx& r) { // next fragment
    u32 left = (u32)r.obj.size() - r.got; if (!left) return;
    u32 n = S.ch.pick(3) ? 1 + S.ch.pick(left) : 1 + S.ch.pick(std::min(left, 4u));
    memcpy(r.buf + r.got, r.obj.data() + r.got, n); r.got += n; if (r.term) r.buf[r.got] = 0;
    LOG("%s: fragment of %u bytes arrives", r.nm.c_str(), n); FAULT("fragmented_delivery");
}
void renew(Rx& r, bool large) { // buffer reused: older object stays behind the new one
    new_object(r, large); r.term = S.ch.pick(3) != 0; if (r.term) r.buf[0] = 0;
    if (r.gen > 1) { FAULT("buffer_reused"); }
    LOG("%s: new object %s%s", r.nm.c_str(), quote(r.obj.data(), r.obj.size()).c_str(), r.term ? " (terminated)" : "");
}
void rx_task(Rx* r, u32 len, bool large) {
    for (u32 i = 0; i < len; ++i) {
        lock(r->lk);
        switch (S.ch.weighted({ 55, 35, 5, 5 })) {
            case 0: lookup(*r); break;
            case 1: if (r->got < r->obj.size()) arrive(*r); else lookup(*r); break;
            case 2: renew(*r, large); break;
            default: if (r->got < r->obj.size() && S.ch.pick(2)) { FAULT("transfer_cut"); renew(*r, large); } else lookup(*r);
        }
        unlock(r->lk); op_end();
    }
}
}
static void run_c12() {
    if (u32 n = aged(308)) { // the same object is consulted again and again
        Rx r; r.nm = "long-lived receiver"; r.cap = 80; r.buf = (char*)alloc(r.cap); new_object(r, false); u32 got = S.ch.pick(3) ? (u32)r.obj.size() : S.ch.pick((u32)r.obj.size() + 1); std::string t = r.obj.substr(0, got); memcpy(r.buf, t.data(), got); const Lib* L = &pick_lib();
        std::vector<std::string> ks; for (auto& m : r.mem) ks.push_back(m.k); ks.push_back(draw_text(4, 1)); if (S.ch.pick(2)) ks.erase(ks.begin() + 1, ks.end()); std::vector<model::Found> fs; for (auto& k : ks) fs.push_back(model::json_find(t, k)); int32_t less = (int32_t)S.ch.pick(3) - 1;
        age(n, [&](u32 i) {
            size_t q = i % ks.size(); auto& k = ks[q]; auto& f = fs[q]; u32 room = (u32)((int32_t)(f.ok ? f.value.size() + 1 : 4) + less); char* kp = tmp_str(k, 1); char* out = (char*)tmp(room, 2);
            bool res = CALL(.ro(r.buf, got).ro(kp, k.size() + 1).rw(out, room), "Json_findByKey", L->Json_findByKey(r.buf, got, kp, out, room)), want = f.ok && room > f.value.size();
            CHECK(res == want && (!res || (strnlen(out, room) < room && f.value == out)), want ? "wrong-value" : "invented", "look-up number %u of %s in %s with room %u gives %d %s", i + 1, quote(k.data(), k.size()).c_str(), quote(t.data(), t.size()).c_str(), room, res, res ? quote(out, strnlen(out, room)).c_str() : "");
        }, true);
    }
    bool large = S.ch.pick(3000) == 2999; if (large) PROBE("large_object");
    auto rs = std::make_unique<std::deque<Rx>>(); u32 n = 1 + S.ch.pick(3), nt = crowd(1 + S.ch.pick(3), 105); if (large) n = nt = 1;
    for (u32 i = 0; i < n; ++i) {
        rs->emplace_back(); Rx& r = rs->back(); r.nm = nm("receiver", i); r.longs = S.ch.pick(60) == 59; if (r.longs) PROBE("long_keys_and_values"); r.cap = large ? (S.ch.pick(8) == 7 ? 850000 : S.ch.pick(2) ? 136000 : 68000) : r.longs ? 300 + S.ch.pick(2500) : 20 + S.ch.pick(140); r.buf = (char*)alloc(r.cap);
        if (S.ch.pick(2)) { // an older, longer object fills the buffer
            new_object(r, false); std::string o = r.obj; while (o.size() < r.cap) { new_object(r, false); o += r.obj; } memcpy(r.buf, o.data(), r.cap); PROBE("buffer_holds_older_object");
        }
        r.gen = 0; renew(r, large);
    }
    draw_policy(S.ch.pick(3) == 2 ? 10 : 0);
    if (large) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    u32 len = 2 + S.ch.pick(24);
    if (large) len = 8;
    for (u32 i = 0; i < nt; ++i) { Rx* r = &(*rs)[S.ch.pick(n)]; spawn(nm("node", i), [r, len, large] { rx_task(r, len, large); })->user = r; }
    run_tasks();
    for (auto& r : *rs) solo("complete", [&] { while (r.got < r.obj.size()) { arrive(r); if (S.ch.pick(2)) lookup(r); } for (int i = 0; i < 4; ++i) lookup(r); });
}
// ------------------------------------------------------------------- C13
namespace {
struct B64 { std::vector<u8> data; std::string nm; };
u32 draw_data(bool& big) { if (big && S.ch.pick(2)) { big = false; PROBE("data_of_any_magnitude"); return S.ch.logsize(30, 65000); } if (big) { big = false; PROBE("data_over_64KiB"); return 65500 + S.ch.pick(200); } switch (S.ch.weighted({ 55, 30, 15 })) { case 0: return 1 + S.ch.pick(9); case 1: return 1 + S.ch.pick(40); default: return 180 + S.ch.pick(120); } }
void b64_task(u32 n, bool big, const std::string& nmx) {
    for (u32 i = 0; i < n; ++i) {
        const Lib& L = pick_lib(); const Lib& L2 = pick_lib();
        u32 len = draw_data(big); u8* d = tmp(len, 1); fill_bytes(d, len); u64 lim = 200000 + 400ull * len;
        std::string want = model::b64(d, len); u32 need = (u32)want.size() + 1, room;
        switch (S.ch.weighted({ 35, 20, 15, 10, 20 })) { case 0: room = need + S.ch.pick(10); break; case 1: room = need; break; case 2: room = need - 1; break; case 3: room = need - std::min(need, 2 + S.ch.pick(5)); break; default: room = S.ch.pick(need); }
        char* out = (char*)tmp(room, 2); almost(out, room, want.c_str(), need);
        int32_t st = CALL(.ro(d, len).rw(out, room).lim(lim), "Base64_encode", L.Base64_encode((const char*)d, len, out, room));
        LOG("%s: armour %u bytes %s into %u (needs %u) -> %d", nmx.c_str(), len, hex(d, len).c_str(), room, need, st); dig((u64)st);
        if (room < need) { FAULT("no_room"); CHECK(st != 0, "no-room-accepted", "%s: armouring %u bytes needs %u bytes but reports success with %u", nmx.c_str(), len, need, room); if (room + 1 == need) PROBE("room_for_all_but_terminator"); }
        else {
            CHECK(st == 0, "refused", "%s: armouring %u bytes refused although %u bytes suffice and %u are there", nmx.c_str(), len, need, room);
            CHECK(!memcmp(out, want.c_str(), need), "armour", "%s: armour of %s is %s, standard text is %s", nmx.c_str(), hex(d, len).c_str(), quote(out, need - 1).c_str(), want.c_str());
        }
        op_end();
        // the text crosses a link that may cut it; receivers hold exactly what arrived
        u32 times = 1 + S.ch.pick(3);
        for (u32 t = 0; t < times; ++t) {
            bool cut = S.ch.pick(2); u32 k = cut ? (S.ch.pick(2) ? S.ch.pick((u32)want.size()) : (u32)want.size() - 1 - S.ch.pick(std::min<u32>((u32)want.size(), 5))) : (u32)want.size();
            if (t) { FAULT("repeated_transfer"); }
            if (cut) FAULT("text_cut");
            char* in = (char*)tmp_bytes(want.data(), k, 3); u32 sig = 0; while (sig < k && in[sig] != '=') ++sig;
            u32 full = cut ? sig * 6 / 8 : len, oroom;
            switch (S.ch.weighted({ 40, 25, 15, 20 })) { case 0: oroom = full + S.ch.pick(8); break; case 1: oroom = full; break; case 2: oroom = full - std::min(full, 1 + S.ch.pick(2)); break; default: oroom = S.ch.pick(full + 1); }
            u8* o = tmp(oroom, 4); almost(o, oroom, d, len);
            int32_t s2 = CALL(.ro(in, k).rw(o, oroom).lim(lim), "Base64_decode", L2.Base64_decode(in, k, o, oroom));
            LOG("%s: decode %u of %zu characters %s into %u -> %d", nmx.c_str(), k, want.size(), quote(in, k).c_str(), oroom, s2); dig((u64)s2);
            if (!cut) {
                if (oroom >= len) { CHECK(s2 == 0, "decode-refused", "%s: complete text %s of %u bytes refused with room %u", nmx.c_str(), quote(in, k).c_str(), len, oroom); CHECK(!memcmp(o, d, len), "decoded", "%s: %s decodes to %s, was %s", nmx.c_str(), quote(in, k).c_str(), hex(o, len).c_str(), hex(d, len).c_str()); }
                else CHECK(s2 != 0, "decode-no-room-accepted", "%s: %u bytes decoded into room %u reported successful", nmx.c_str(), len, oroom);
            } else if (s2 == 0) {
                CHECK(oroom >= full, "decode-no-room-accepted", "%s: cut text of %u characters holds %u bytes, room %u, reported successful", nmx.c_str(), k, full, oroom);
                CHECK(!memcmp(o, d, full), "cut-decoded", "%s: cut text %s decodes to %s, not a prefix of %s", nmx.c_str(), quote(in, k).c_str(), hex(o, full).c_str(), hex(d, len).c_str()); PROBE("cut_text_accepted");
            } else PROBE("cut_text_refused");
            if (oroom < full) FAULT("no_room");
            op_end();
        }
    }
}
}
static void run_c13() {
    if (u32 n = aged(309)) {
        u32 len = 1 + S.ch.pick(9), what = S.ch.pick(3); u8 m[16]; fill_bytes(m, len); std::string t = model::b64(m, len); u32 need = (u32)t.size() + 1, room = need - (S.ch.pick(4) == 3), room2 = len - (S.ch.pick(4) == 3); const Lib* L = &pick_lib();
        age(n, [&](u32 i) {
            if (what != 1) { u8* d = tmp_bytes(m, len, 1); char* out = (char*)tmp(room, 2); int32_t st = CALL(.ro(d, len).rw(out, room), "Base64_encode", L->Base64_encode((const char*)d, len, out, room)); CHECK((st == 0) == (room >= need) && (st || !memcmp(out, t.c_str(), need)), "armour", "armouring number %u of %s into room %u (needs %u) gives %d %s", i + 1, hex(m, len).c_str(), room, need, st, quote(out, room).c_str()); }
            if (what != 0) { char* in = (char*)tmp_bytes(t.data(), t.size(), 3); u8* o = tmp(room2, 4); int32_t st = CALL(.ro(in, t.size()).rw(o, room2), "Base64_decode", L->Base64_decode(in, t.size(), o, room2)); CHECK((st == 0) == (room2 >= len) && (st || !memcmp(o, m, len)), "decoded", "decoding number %u of %s into room %u (needs %u) gives %d %s", i + 1, t.c_str(), room2, len, st, hex(o, room2).c_str()); }
        }, true);
    }
    bool big = S.ch.pick(1200) == 1199; u32 k = crowd(1 + S.ch.pick(4), 106);
    draw_policy(S.ch.pick(3) == 2 ? 12 : 0);
    if (big) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    u32 n = big ? 1 : 1 + S.ch.pick(4);
    for (u32 i = 0; i < k; ++i) { std::string s = nm("transfer", i); spawn(s, [n, big, i, s] { b64_task(n, big && i == 0, s); }); }
    run_tasks();
    solo("afterwards", [] { b64_task(1, false, "afterwards"); });
}
// ------------------------------------------------------------------- C15
namespace {
u64 LIM = 3000000; u32 grow15 = 0; // enlarges inputs
std::string hostile(const std::string& valid, u32 maxlen) {
    std::string s = valid;
    switch (S.ch.pick(5)) {
        case 0: s.resize(S.ch.pick((u32)s.size() + 1)); FAULT("truncated"); break;
        case 1: { u32 k = 1 + S.ch.pick(6); for (u32 i = 0; i < k && !s.empty(); ++i) { static const char sp[] = "\"{}:,=\\ \0A0\xff\x80+/-"; s[S.ch.pick((u32)s.size())] = S.ch.pick(2) ? (char)S.ch.pick(256) : sp[S.ch.pick(17)]; } FAULT("bytes_altered"); break; }
        case 2: { u32 n = S.ch.pick(maxlen); s.resize(n); u64 x = S.ch.pick(65536); for (char& c : s) c = (char)Choices::mix(x); FAULT("garbage"); break; }
        case 3: { u32 a = S.ch.pick((u32)s.size() + 1), b = S.ch.pick((u32)s.size() + 1); s = s.substr(0, a) + s.substr(b); if (s.size() > 2 * maxlen) s.resize(2 * maxlen); FAULT("spliced"); break; }
        default: { u32 n = S.ch.pick(maxlen); s.clear(); u64 x = S.ch.pick(65536); static const char sp[] = "\"\"{}:,= a0A\\\0"; for (u32 i = 0; i < n; ++i) s += sp[(Choices::mix(x) >> 20) % 13]; FAULT("structural_garbage"); }
    }
    if (S.ch.pick(4) == 3 && !s.empty()) { s.resize(S.ch.pick((u32)s.size() + 1)); FAULT("truncated"); }
    return s;
}
void attack(u32 which) {
    const Lib& L = pick_lib();
    switch (which) {
        case 0: { // armoured text
            u32 n = grow15 ? S.ch.logsize(40, grow15) : S.ch.pick(40); std::vector<u8> d(n); for (u32 i = 0; i < n; ++i) d[i] = (u8)(i * 41);
            std::string t = hostile(model::b64(d.data(), n), grow15 ? grow15 : 60); u32 room = S.ch.pick(3) ? S.ch.pick(50) : (u32)(t.size() / 4 * 3 + S.ch.pick(4)) ;
            if (room > 1 && S.ch.pick(3) == 0) room -= 2;
            char* in = (char*)tmp_bytes(t.data(), t.size(), 1); u8* o = tmp(room, 2);
            int32_t r = CALL(.ro(in, t.size()).rw(o, room).lim(LIM), "Base64_decode", L.Base64_decode(in, t.size(), o, room));
            LOG("decode %s into %u -> %d", quote(in, t.size()).c_str(), room, r); dig((u64)r); break; }
        case 1: { // object text
            Rx r; r.cap = grow15 ? grow15 + 2000 : 120; new_object(r, grow15 > 66000); std::string t = hostile(r.obj, grow15 ? grow15 : 60); u32 room = S.ch.pick(30);
            std::string k = !r.mem.empty() && S.ch.pick(3) ? r.mem[0].k : S.ch.pick(4) == 0 ? std::string("\"") : S.ch.pick(3) ? KEYS[S.ch.pick(28)] : std::string(KEYS[S.ch.pick(28)]) + "\"";
            char* in = (char*)tmp_bytes(t.data(), t.size(), 1); char* kp = tmp_str(k, 3); char* o = (char*)tmp(room, 2);
            bool f = CALL(.ro(in, t.size()).ro(kp, k.size() + 1).rw(o, room).lim(LIM), "Json_findByKey", L.Json_findByKey(in, t.size(), kp, o, room));
            LOG("look up %s in %s with room %u -> %d", quote(k.data(), k.size()).c_str(), quote(in, t.size()).c_str(), room, f); dig(f);
            if (f) CHECK(strnlen(o, room) < room, "unterminated", "successful lookup in %s leaves a value that is not terminated within %u bytes", quote(in, t.size()).c_str(), room);
            break; }
        case 2: { // decimal text
            std::string t = hostile(std::to_string(S.ch.u32val()), 24); if (S.ch.pick(12) == 11) { t.resize(200 + S.ch.pick(56), '7'); } if (t.size() > 255) t.resize(255);
            char* in = (char*)tmp_bytes(t.data(), t.size(), 1); u32* o = (u32*)tmp(4, 4, 4);
            bool f = CALL(.ro(in, t.size()).rw(o, 4).lim(LIM), "Utils_stringToUint32", L.Utils_stringToUint32(in, (u8)t.size(), o));
            LOG("convert %s -> %d", quote(in, t.size()).c_str(), f); dig(f); break; }
        case 3: { // serialised fields cut to their stated width
            u8* b = tmp(4, 1); fill_bytes(b, 4); u32 v = 0;
            switch (S.ch.pick(7)) {
                case 0: v = CALL(.ro(b, 1), "Utils_deserialize8", L.Utils_deserialize8(b)); break;
                case 1: v = CALL(.ro(b, 2), "Utils_deserialize16BE", L.Utils_deserialize16BE(b)); break;
                case 2: v = CALL(.ro(b, 3), "Utils_deserialize24BE", L.Utils_deserialize24BE(b)); break;
                case 3: v = CALL(.ro(b, 4), "Utils_deserialize32BE", L.Utils_deserialize32BE(b)); break;
                case 4: v = CALL(.ro(b, 2), "Utils_deserialize16LE", L.Utils_deserialize16LE(b)); break;
                case 5: v = CALL(.ro(b, 3), "Utils_deserialize24LE", L.Utils_deserialize24LE(b)); break;
                default: v = CALL(.ro(b, 4), "Utils_deserialize32LE", L.Utils_deserialize32LE(b)); }
            FAULT("garbage"); dig(v); break; }
        case 4: { // blobs of hostile length
            u32 n = grow15 ? S.ch.logsize(100, grow15) : S.ch.pick(5) ? S.ch.pick(20) : S.ch.pick(400); u8* b = tmp(n, 1); u8* o = tmp(n, 2); fill_bytes(b, n); FAULT("garbage");
            if (S.ch.pick(2)) CALL(.ro(b, n).rw(o, n), "Utils_deserializeBlobBE", (L.Utils_deserializeBlobBE(b, o, n), 0)); else CALL(.ro(b, n).rw(o, n), "Utils_deserializeBlobLE", (L.Utils_deserializeBlobLE(b, o, n), 0));
            dig_bytes(o, n); break; }
        default: { // checksummed data
            std::string t = hostile(std::string(S.ch.pick(30), 'x'), grow15 ? grow15 : 50); u8* in = tmp_bytes(t.data(), t.size(), 1); const CrcVar& v = CRCS[S.ch.pick(NCRC)];
            u32 r = CALL(.ro(in, t.size()).lim(LIM), v.name, v.call(L, in, (u32)t.size(), S.ch.pick(2), nullptr)); dig(r); break; }
    }
}
}
// the same hostile input again and again
static void age15(u32 n) {
    u32 which = S.ch.pick(3); const Lib* L = &pick_lib(); std::string t, k; u32 room = S.ch.pick(16);
    if (which == 0) { u8 d[9] = { 1, 2, 200, 4, 5, 6, 77, 8, 9 }; t = model::b64(d, 1 + S.ch.pick(9)); } else if (which == 1) { Rx r; r.cap = 60; new_object(r, false); t = r.obj; k = r.mem.empty() ? "a" : r.mem[0].k; } else t = std::to_string(S.ch.u32val());
    if (S.ch.pick(4)) t = hostile(t, 30);
    age(n, [&](u32) {
        char* in = (char*)tmp_bytes(t.data(), t.size(), 1);
        if (which == 0) { u8* o = tmp(room, 2); CALL(.ro(in, t.size()).rw(o, room).lim(LIM), "Base64_decode", L->Base64_decode(in, t.size(), o, room)); }
        else if (which == 1) { char* kp = tmp_str(k, 3); char* o = (char*)tmp(room, 2); bool f = CALL(.ro(in, t.size()).ro(kp, k.size() + 1).rw(o, room).lim(LIM), "Json_findByKey", L->Json_findByKey(in, t.size(), kp, o, room)); if (f) CHECK(strnlen(o, room) < room, "unterminated", "successful lookup in %s leaves a value that is not terminated within %u bytes", quote(in, t.size()).c_str(), room); }
        else { u32* o = (u32*)tmp(4, 4, 4); CALL(.ro(in, t.size()).rw(o, 4).lim(LIM), "Utils_stringToUint32", L->Utils_stringToUint32(in, (u8)t.size(), o)); }
    }, true);
}
static void run_c15() {
    if (u32 n = aged(310)) age15(n);
    u32 k = crowd(1 + S.ch.pick(3), 107);
    draw_policy(S.ch.pick(3) == 2 ? 10 : 0);
    grow15 = S.ch.rare(3001, 5) ? S.ch.logsize(200, 70000) : 0; LIM = 3000000 + 3000ull * grow15; if (grow15) { PROBE("input_of_any_magnitude"); S.pol.max_preempt = 40; }
    u32 n = 1 + S.ch.pick(8);
    for (u32 i = 0; i < k; ++i) spawn(nm("victim", i), [n] { for (u32 j = 0; j < n; ++j) { attack(S.ch.weighted({ 28, 36, 14, 6, 6, 10 })); op_end(); } });
    run_tasks();
}
void register_text() {
    WL.push_back({ "C11", run_c11, 3500000, "one run = 1-3 documents (0-70 byte buffers, rarely >64 KiB) built by 1-4 parties (rarely up to 80): start, members, closing, restarts, crashes at drawn accesses; every step must succeed exactly when it fits and leave exactly the model text; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C12", run_c12, 2000000, "one run = 1-3 receive buffers (reused over older objects) filled by drawn fragments of objects with look-alike keys/values, nested values, escapes and whitespace (rarely beyond 65535 characters), looked up by 1-3 parties (rarely up to 80) at every stage with drawn declared lengths and rooms; oracle: independent reader of the text received so far; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C13", run_c13, 2500000, "one run = 1-4 interleaved transfers (rarely up to 80) armouring 1-4 payloads (1-300 bytes, rarely >64 KiB) into rooms around the exact need, the text cut at drawn characters and decoded (repeatedly) into rooms around the exact need; oracle: independent RFC 4648 encoder; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C15", run_c15, 5000000, "one run = 1-3 parties (rarely up to 80) feeding 1-8 truncated, altered, spliced or garbage inputs to the parsers and decoders, each input placed in memory of exactly its declared length; every access of the library is checked, every call must finish; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
