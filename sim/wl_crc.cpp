// C07 streamed checksums; C08 sealed frames over a corrupting link
#include "crcdef.h"
#include <algorithm>

namespace {
u32 draw_len(bool& big) {
    if (big && S.ch.pick(2)) { big = false; PROBE("message_of_any_magnitude"); return S.ch.logsize(40, 65000); }
    if (big) { big = false; PROBE("message_over_64KiB"); return 65530 + S.ch.pick(4000); }
    switch (S.ch.weighted({ 50, 30, 15, 5 })) { case 0: return S.ch.pick(13); case 1: return S.ch.pick(48); case 2: return 100 + S.ch.pick(40); default: return 250 + S.ch.pick(80); }
}
u32 draw_piece(u32 left, u32 style) {
    if (!left) return 0;
    switch (style) { case 0: return left; case 1: return 1; case 2: return S.ch.pick(std::min<u32>(left, 9) + 1); default: return S.ch.pick(left + 1); }
}

// ------------------------------------------------------------------- C07
struct Stream {
    Def* d; const u8* msg; u32 len; u32 off = 0; u32 saved = 0; bool first = true, done = false; std::vector<std::pair<u32, u32>> cps; // durable checkpoints (offset, value)
    u32 style = 0; std::string nm; u32 restarts = 0; u32 cut = 0;
};
void stream_body(Stream* s) {
    const Lib* L = &pick_lib();
    while (!s->done) {
        if (S.ch.pick(6) == 5) L = &pick_lib();
        u32 left = s->len - s->off; u32 n = s->len > 2000 ? (S.ch.pick(3) ? left : S.ch.pick(left + 1)) : draw_piece(left, s->style);
        if (s->cut > s->off && s->cut <= s->off + n && S.ch.pick(8)) { n = s->cut - s->off; PROBE("extreme_intermediate_value"); }
        bool fin = n == left && S.ch.pick(4) != 3;
        if (n == 0 && !fin) PROBE("empty_piece");
        if (n == 0 && fin) PROBE("empty_final_piece");
        u32 r = piece(*L, *s->d, s->msg + s->off, n, s->first, s->saved, fin);
        LOG("%s: piece [%u,+%u)%s%s -> %x", s->nm.c_str(), s->off, n, s->first ? " first" : "", fin ? " final" : "", r);
        dig(r);
        if (fin) {
            u32 want = s->d->oracle(s->msg, s->len);
            CHECK(r == want, "checksum", "%s (%s): streamed checksum of %u bytes is %x, catalogue value %x", s->nm.c_str(), s->d->nm.c_str(), s->len, r, want);
            s->done = true;
        } else {
            s->off += n; s->saved = r; s->first = false; s->cps.push_back({ s->off, r });
        }
        op_end();
        if (!s->done && S.ch.pick(12) == 11 && s->restarts < 6) { // roll back to a saved value
            ++s->restarts; FAULT("rollback_to_checkpoint");
            u32 k = S.ch.pick((u32)s->cps.size() + 1);
            if (k == 0) { s->off = 0; s->first = true; } else { s->off = s->cps[k - 1].first; s->saved = s->cps[k - 1].second; s->first = false; }
        }
    }
}
}
// a checksum that has been in use for long: the same one, or all of them in turn
static void age_crc(u32 n) {
    auto ds = std::make_unique<std::deque<Def>>(); u32 k = S.ch.pick(3) == 2 ? 2 + S.ch.pick(5) : 1; const Lib* L = &pick_lib(); bool tables = S.ch.pick(4) == 3;
    for (u32 i = 0; i < k; ++i) { ds->emplace_back(); make_def(ds->back(), S.ch.pick(4) == 3); solo("tables", [&] { make_table(ds->back()); }); }
    u8 m[8]; fill_bytes(m, 8); u32 len = S.ch.pick(9), cut = S.ch.pick(len + 1); bool split = S.ch.pick(2);
    age(n, [&](u32 i) {
        const Def& d = (*ds)[i % k]; if (tables) { Def t = d; make_table(t); }
        u32 r = split ? piece(*L, d, m, cut, true, 0, false) : 0; r = split ? piece(*L, d, m + cut, len - cut, false, r, true) : piece(*L, d, m, len, true, 0, true);
        u32 want = d.oracle(m, len); CHECK(r == want, "checksum", "%s: checksum number %u of %u bytes is %x, catalogue value %x", d.nm.c_str(), i + 1, len, r, want);
    }, true);
}
static void run_c07() {
    if (u32 n = aged(303)) age_crc(n);
    bool big = S.ch.pick(1000) == 999; bool anybig = big;
    auto defs = std::make_unique<std::deque<Def>>(); auto ss = std::make_unique<std::deque<Stream>>();
    u32 nm = 1 + S.ch.pick(3), k = crowd(1 + S.ch.pick(5), 101);
    std::vector<std::pair<u8*, u32>> msgs;
    for (u32 i = 0; i < nm; ++i) { u32 n = draw_len(big); u8* p = alloc(n); fill_bytes(p, n); msgs.push_back({ p, n }); }
    bool share = S.ch.pick(3) == 2;
    for (u32 i = 0; i < k; ++i) {
        Def* d;
        if (share && i) d = &defs->front();
        else { defs->emplace_back(); d = &defs->back(); make_def(*d, S.ch.pick(5) == 4); solo("tables", [&] { make_table(*d); }); }
        auto m = msgs[S.ch.pick(nm)];
        ss->emplace_back(); auto& s = ss->back(); s.d = d; s.msg = m.first; s.len = m.second; s.style = S.ch.pick(4); s.nm = "stream" + std::to_string(i);
        if (S.ch.pick(6) == 5 && s.len >= 4 && s.len < 2000) { // a message of its own that passes through an extreme value
            u8* p = dup_bytes(m.first, s.len); u32 at = 4 + S.ch.pick(S.ch.pick(2) ? 1 : s.len - 3); if (S.ch.pick(3) == 2) at = s.len;
            if (d->force(p, at, d->extreme())) { s.msg = p; s.cut = at; if (at == s.len) PROBE("extreme_checksum"); }
        }
    }
    draw_policy(S.ch.pick(2) ? 15 : 0);
    if (anybig) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    S.on_kill = [](Task* t) { // the party restarts and resumes from what it had saved
        Stream* s = (Stream*)t->user; if (!s || s->restarts > 6) { if (s) s->done = true; return; }
        ++s->restarts; FAULT("restart");
        u32 c = S.ch.pick((u32)s->cps.size() + 1);
        if (c == 0) { s->off = 0; s->first = true; } else { s->off = s->cps[c - 1].first; s->saved = s->cps[c - 1].second; s->first = false; PROBE("resumed_from_checkpoint"); }
        Task* n = spawn(t->name + "'", [s] { stream_body(s); }); n->user = s;
    };
    for (u32 i = 0; i < k; ++i) { Stream* s = &(*ss)[i]; Task* t = spawn(s->nm, [s] { stream_body(s); }); t->user = s; }
    run_tasks();
}
// ------------------------------------------------------------------- C08
namespace {
struct Link8 { Def* d; u32 frames; std::string nm; };
std::vector<u8> seal_bytes(const Def& d, u32 c) {
    std::vector<u8> v; int n = d.width / 8;
    for (int i = 0; i < n; ++i) v.push_back((u8)(c >> (d.seal_le ? 8 * i : 8 * (n - 1 - i))));
    return v;
}
u32 lib_crc(const Def& d, const u8* p, u32 n) { // streamed as the fragments arrive
    u32 style = S.ch.pick(4), off = 0, saved = 0; bool first = true; const Lib& L = pick_lib();
    for (;;) {
        u32 k = n > 2000 ? n - off : draw_piece(n - off, style); bool fin = off + k == n && (k || S.ch.pick(2));
        u32 r = piece(L, d, p + off, k, first, saved, fin);
        if (fin) return r;
        off += k; saved = r; first = false;
    }
}
void link_body(Link8* l, bool big) {
    const Def& d = *l->d; u32 w = (u32)d.width / 8;
    for (u32 f = 0; f < l->frames; ++f) {
        u32 n = draw_len(big); std::vector<u8> pay(n);
        u8* frame = alloc(n + w); fill_bytes(frame, n);
        if (S.ch.pick(10) == 9 && n < 2000 && d.force(frame, n, d.extreme())) PROBE("extreme_checksum");
        std::vector<u8> orig(frame, frame + n);
        bool wr_lib = S.ch.pick(4) != 3, rd_lib = !wr_lib || S.ch.pick(3) != 2;
        u32 c = wr_lib ? lib_crc(d, frame, n) : model::crc(*d.v, frame, n);
        auto sb = seal_bytes(d, c); memcpy(frame + n, sb.data(), w);
        if (!wr_lib) PROBE("independent_sealer");
        if (!rd_lib) PROBE("independent_verifier");
        dig_bytes(frame, n + w); LOG("%s: sealed %u bytes with %x by %s", l->nm.c_str(), n, c, wr_lib ? "library" : "independent peer");
        op_end();
        // the link
        u32 kind = S.ch.weighted({ 25, 55, 20 }); bool altered = false;
        u8* rx = dup_bytes(frame, n + w);
        if (kind == 1) { // alterations within w consecutive bytes
            u32 at = S.ch.pick(n + 1), style = S.ch.pick(4);
            for (u32 i = 0; i < w; ++i) { u8 x = style == 0 ? (u8)(i == 0 ? 1u << S.ch.pick(8) : 0) : style == 1 ? (u8)S.ch.pick(256) : style == 2 ? 0xFF : (u8)(1u << S.ch.pick(8)); rx[at + i] ^= x; altered |= x != 0; }
            if (altered) FAULT("burst_corruption");
        } else if (kind == 2) { u32 k = 1 + S.ch.pick(6); for (u32 i = 0; i < k; ++i) rx[S.ch.pick(n + w)] ^= (u8)(1 + S.ch.pick(255)); FAULT("scattered_corruption"); }
        altered = memcmp(rx, frame, n + w) != 0;
        u32 got = 0; for (u32 i = 0; i < w; ++i) got |= (u32)rx[n + i] << (d.seal_le ? 8 * i : 8 * (w - 1 - i));
        u32 calc = rd_lib ? lib_crc(d, rx, n) : model::crc(*d.v, rx, n);
        bool ok = calc == got, want = model::crc(*d.v, rx, n) == got;
        LOG("%s: received %s frame, verifier computes %x, frame carries %x", l->nm.c_str(), altered ? "an altered" : "an unaltered", calc, got); dig(calc);
        if (!altered) CHECK(ok, "good-frame-rejected", "%s: frame of %u bytes sealed with %s by %s is rejected by %s (computed %x, carried %x)", l->nm.c_str(), n, d.nm.c_str(), wr_lib ? "the library" : "an independent peer", rd_lib ? "the library" : "an independent peer", calc, got);
        else if (kind == 1) CHECK(!ok, "bad-frame-accepted", "%s: %s accepts a frame of %u bytes with alterations within %u bytes", l->nm.c_str(), d.nm.c_str(), n, w);
        else if (rd_lib && wr_lib) CHECK(ok == want, "verdict", "%s: %s verdict differs from the independent verifier", l->nm.c_str(), d.nm.c_str());
        op_end();
    }
}
}
static void run_c08() {
    if (u32 n = aged(304)) { // frames sealed and verified again and again
        Def d; make_def(d, false); const Lib *A = &pick_lib(), *B = &pick_lib(); u8 m[12]; fill_bytes(m, 12); u32 len = 1 + S.ch.pick(8), w = (u32)d.width / 8, at = S.ch.pick(len); u8 x = (u8)(1 + S.ch.pick(255)), b[12];
        age(n, [&](u32 i) {
            u32 c = piece(*A, d, m, len, true, 0, true); auto sb = seal_bytes(d, c); memcpy(b, m, len); u32 rx = 0; for (u32 j = 0; j < w; ++j) rx |= (u32)sb[j] << (d.seal_le ? 8 * j : 8 * (w - 1 - j));
            bool bad = i & 1; if (bad) b[at] ^= x;
            u32 v = piece(*B, d, b, len, true, 0, true);
            if (!bad) CHECK(v == rx && c == model::crc(*d.v, m, len), "good-frame-rejected", "%s: frame number %u sealed with %x, verifier computes %x", d.nm.c_str(), i + 1, rx, v);
            else CHECK(v != rx, "bad-frame-accepted", "%s: frame number %u with one altered byte accepted", d.nm.c_str(), i + 1);
        }, true);
    }
    bool big = S.ch.pick(1200) == 1199;
    auto defs = std::make_unique<std::deque<Def>>(); auto ls = std::make_unique<std::deque<Link8>>();
    u32 k = 1 + S.ch.pick(4);
    draw_policy(S.ch.pick(3) == 2 ? 10 : 0);
    if (big) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    for (u32 i = 0; i < k; ++i) {
        Def* d; if (i && S.ch.pick(2)) d = &defs->front(); else { defs->emplace_back(); d = &defs->back(); make_def(*d, false); }
        ls->push_back({ d, big ? 1 : 1 + S.ch.pick(5), "link" + std::to_string(i) });
    }
    for (u32 i = 0; i < k; ++i) { Link8* l = &(*ls)[i]; spawn(l->nm, [l, big, i] { link_body(l, big && i == 0); }); }
    run_tasks();
}
void register_crc() {
    WL.push_back({ "C07", run_c07, 2000000, "one run = 1-5 streams (rarely up to 80) over 1-3 shared read-only messages (0-330 bytes, rarely >64 KiB), each computed piecewise with a drawn fragmentation (empty pieces included) by one of the 45 variants or a generic engine with a generated table for a drawn polynomial/initial value/reflection, some messages solved for an extreme intermediate or final value, preempted at drawn accesses, crashed and resumed from saved intermediate values; oracle: bit-serial catalogue definition; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C08", run_c08, 1500000, "one run = 1-4 links each carrying 1-5 sealed frames between library and independent (bit-serial) peers, streamed in fragments, some frames solved for an extreme checksum; the link delivers unaltered, alters bits within one window of checksum width, or alters scattered bytes; unaltered frames must be accepted, window-altered ones rejected, scattered ones judged as the independent verifier judges them; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
