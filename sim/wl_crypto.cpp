// C09 stream-cipher segments over a lossy link; C10 classical-cipher traffic
#include "model.h"
#include "objects.h"
#include <algorithm>

namespace {
// ------------------------------------------------------------------- C09
struct Seg { u32 off, len; };
struct Sess9 {
    u8 *key, *nonce; u32 ctr; std::vector<u8> plain, cipher; std::vector<Seg> segs; std::vector<u8> have; u8* rx = nullptr; // receiver's reassembly buffer
    std::deque<std::pair<u32, u8*>> wire; std::vector<u8> acked; Lock lk; bool rx_inplace = false; u32 sent = 0; std::string nm; int restarts = 0; u64 lim = 0;
};
void crypt(const Lib& L, Sess9* s, const u8* in, u32 n, u32 off, u8* out) {
    u32 ctr = s->ctr + off / 64; u8 *key = s->key, *nonce = s->nonce;
    const u8* want = in; if (n && off + n <= s->plain.size()) want = memcmp(in, s->plain.data() + off, n) ? s->plain.data() + off : s->cipher.data() + off;
    if (in != out && !S.reuse && want == s->cipher.data() + off) almost(out, n, want, n); // not the receiver's buffer, which may hold the segment already
    if (S.reuse) { // a node with fixed key and work buffers
        key = tmp_bytes(key, 32, 1); nonce = tmp_bytes(nonce, 12, 2); u8* w = tmp_bytes(in, n, 3); u8* o = in == out ? w : tmp(n, 4); if (o != w) almost(o, n, want, n);
        if (w == o) CALL(.rw(o, n).ro(key, 32).ro(nonce, 12).lim(s->lim), "Chacha20_crypt", (L.Chacha20_crypt(w, n, key, nonce, ctr, o), 0));
        else CALL(.ro(w, n).rw(o, n).ro(key, 32).ro(nonce, 12).lim(s->lim), "Chacha20_crypt", (L.Chacha20_crypt(w, n, key, nonce, ctr, o), 0));
        if (n) memcpy(out, o, n);
    } else if (in == out) CALL(.rw(out, n).ro(s->key, 32).ro(s->nonce, 12).lim(s->lim), "Chacha20_crypt", (L.Chacha20_crypt(in, n, s->key, s->nonce, ctr, out), 0));
    else CALL(.ro(in, n).rw(out, n).ro(s->key, 32).ro(s->nonce, 12).lim(s->lim), "Chacha20_crypt", (L.Chacha20_crypt(in, n, s->key, s->nonce, ctr, out), 0));
    if (ctr + (n + 63) / 64 < ctr) PROBE("counter_wrap");
}
void sender9(Sess9* s) {
    u32 guard = 0;
    for (;;) {
        u32 left = 0; for (u8 a : s->acked) left += !a;
        if (!left || ++guard > 40) break;
        // pick an unacknowledged segment, in any order
        u32 k = S.ch.pick(left), i = 0; for (;; ++i) if (!s->acked[i] && k-- == 0) break;
        const Lib& L = pick_lib(); Seg g = s->segs[i];
        u8* buf = alloc(g.len); bool inplace = S.ch.pick(2);
        if (inplace) { memcpy(buf, s->plain.data() + g.off, g.len); crypt(L, s, buf, g.len, g.off, buf); PROBE("encrypt_in_place"); }
        else { u8* in = dup_bytes(s->plain.data() + g.off, g.len); crypt(L, s, in, g.len, g.off, buf); }
        dig_bytes(buf, g.len);
        LOG("%s: segment %u [%u,+%u) encrypted %s", s->nm.c_str(), i, g.off, g.len, inplace ? "in place" : "to a separate buffer");
        for (u32 q = 0; q < g.len; ++q) CHECK(buf[q] == s->cipher[g.off + q], "ciphertext", "%s: byte %u of segment [%u,+%u) (counter %u + %u blocks) is %02x, RFC 8439 gives %02x", s->nm.c_str(), q, g.off, g.len, s->ctr, g.off / 64, buf[q], s->cipher[g.off + q]);
        u32 fate = guard > 20 ? 0 : S.ch.weighted({ 60, 15, 15, 10 });
        if (fate == 1) FAULT("segment_lost");
        else { s->wire.push_back({ i, buf }); if (fate == 2) { s->wire.push_back({ i, dup_bytes(buf, g.len) }); FAULT("segment_duplicated"); } if (fate == 3) { std::rotate(s->wire.begin(), s->wire.end() - 1, s->wire.end()); FAULT("segment_overtakes"); } }
        op_end();
    }
}
void receiver9(Sess9* s, u32 polls) {
    for (u32 t = 0; t < polls; ++t) {
        op_end();
        if (s->wire.empty()) continue;
        u32 k = S.ch.pick(4) ? 0 : S.ch.pick((u32)s->wire.size()); if (k) FAULT("segment_reordered");
        auto p = s->wire[k]; s->wire.erase(s->wire.begin() + k);
        Seg g = s->segs[p.first]; const Lib& L = pick_lib();
        u8* dst = s->rx + g.off;
        if (s->have[p.first]) PROBE("duplicate_segment_processed");
        if (s->rx_inplace) { memcpy(dst, p.second, g.len); crypt(L, s, dst, g.len, g.off, dst); }
        else crypt(L, s, p.second, g.len, g.off, dst);
        for (u32 q = 0; q < g.len; ++q) CHECK(dst[q] == s->plain[g.off + q], "plaintext", "%s: decrypted byte %u of segment [%u,+%u) is %02x, sent was %02x", s->nm.c_str(), q, g.off, g.len, dst[q], s->plain[g.off + q]);
        LOG("%s: segment %u decrypted", s->nm.c_str(), p.first);
        s->have[p.first] = 1; if (S.ch.pick(5)) s->acked[p.first] = 1; else FAULT("acknowledgement_lost");
    }
}
}
// more blocks than 16 bits can count; in place, by one party
static void huge9() {
    PROBE("message_over_65535_blocks"); cpu_limit(600);
    u32 n = 65535 * 64 + S.ch.pick(400), ctr = S.ch.u32val(); u8* key = alloc(32); fill_bytes(key, 32); u8* nonce = alloc(12); fill_bytes(nonce, 12);
    u8* m = alloc(n); u64 x = S.ch.pick(65536); for (u32 i = 0; i < n; ++i) m[i] = (u8)Choices::mix(x);
    std::vector<u8> plain(m, m + n); auto want = model::chacha(key, nonce, ctr, plain.data(), n); bool inplace = S.ch.pick(2); u8* o = inplace ? m : alloc(n);
    solo("huge message", [&] {
        const Lib& L = pick_lib(); u64 lim = 200000 + 3000ull * n;
        if (inplace) CALL(.rw(m, n).ro(key, 32).ro(nonce, 12).lim(lim), "Chacha20_crypt", (L.Chacha20_crypt(m, n, key, nonce, ctr, m), 0));
        else CALL(.ro(m, n).rw(o, n).ro(key, 32).ro(nonce, 12).lim(lim), "Chacha20_crypt", (L.Chacha20_crypt(m, n, key, nonce, ctr, o), 0));
        for (u32 i = 0; i < n; ++i) CHECK(o[i] == want[i], "ciphertext", "byte %u of a message of %u bytes is %02x, RFC 8439 gives %02x", i, n, o[i], want[i]);
        dig_bytes(o, n);
    });
}
static void run_c09() {
    if (u32 n = aged(305, 20011)) { // many short segments with the same key
        auto s = std::make_unique<Sess9>(); s->key = alloc(32); fill_bytes(s->key, 32); s->nonce = alloc(12); fill_bytes(s->nonce, 12); s->ctr = S.ch.u32val(); s->lim = 300000; u32 len = 1 + S.ch.pick(66); u8 m[72], o[72]; fill_bytes(m, len); bool inplace = S.ch.pick(2); const Lib* L = &pick_lib();
        auto want = model::chacha(s->key, s->nonce, s->ctr, m, len);
        age(n, [&](u32 i) { if (inplace) { memcpy(o, m, len); crypt(*L, s.get(), o, len, 0, o); } else crypt(*L, s.get(), m, len, 0, o); CHECK(!memcmp(o, want.data(), len), "ciphertext", "segment number %u of %u bytes encrypts to %s, RFC 8439 gives %s", i + 1, len, hex(o, len).c_str(), hex(want.data(), len).c_str()); }, true);
    }
    u32 big = S.ch.pick(1500) == 1499 ? 1 + S.ch.pick(2) : 0; bool mid = S.ch.rare(501, 5);
    if (S.ch.rare(130003, 60001)) { huge9(); return; }
    auto ss = std::make_unique<std::deque<Sess9>>();
    u32 k = big ? 1 : crowd(1 + S.ch.pick(3), 102);
    u8* skey = alloc(32); fill_bytes(skey, 32); u8* sn = alloc(12); fill_bytes(sn, 12);
    for (u32 i = 0; i < k; ++i) {
        ss->emplace_back(); auto& s = ss->back(); s.nm = "session" + std::to_string(i);
        if (S.ch.pick(3) == 2) s.key = skey; else { s.key = alloc(32); fill_bytes(s.key, 32); }
        if (S.ch.pick(3) == 2) s.nonce = sn; else { s.nonce = alloc(12); fill_bytes(s.nonce, 12); }
        s.ctr = S.ch.pick(3) ? S.ch.u32val() : 0xFFFFFFFFu - S.ch.pick(6);
        u32 n = 0;
        if (big == 1) { n = 16300 + S.ch.pick(500); PROBE("message_over_255_blocks"); }
        else if (big == 2) { n = 65500 + S.ch.pick(200); PROBE("message_around_64KiB"); }
        else if (mid && i == 0) { n = S.ch.logsize(400, 20000); PROBE("message_of_any_magnitude"); }
        else n = S.ch.pick(5) == 4 ? S.ch.pick(6) * 64 + S.ch.pick(2) : S.ch.pick(i ? 200 : 420);
        s.plain.resize(n); u8* tmp = alloc(n); fill_bytes(tmp, n); std::copy(tmp, tmp + n, s.plain.begin());
        s.cipher = model::chacha(s.key, s.nonce, s.ctr, s.plain.data(), n);
        u32 blocks = (n + 63) / 64, b = 0, style = S.ch.pick(3);
        while (b < blocks) { u32 m = big ? blocks - b : style == 0 ? blocks - b : style == 1 ? 1 : 1 + S.ch.pick(blocks - b); if (big && S.ch.pick(2)) m = (m + 1) / 2; u32 off = b * 64; s.segs.push_back({ off, std::min(n - off, m * 64) }); b += m; }
        if (!n) s.segs.push_back({ 0, 0 });
        s.have.assign(s.segs.size(), 0); s.acked = s.have; s.rx = alloc(n); s.rx_inplace = S.ch.pick(2); s.lim = 200000 + 3000ull * n;
    }
    draw_policy(S.ch.pick(3) == 2 ? 8 : 0);
    if (big) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    S.on_kill = [](Task* t) {
        Sess9* s = (Sess9*)t->user; if (!s) return;
        FAULT("restart");
        bool rx = t->name[0] == 'r';
        if (rx) { scribble(s->rx, s->plain.size()); std::fill(s->have.begin(), s->have.end(), 0); std::fill(s->acked.begin(), s->acked.end(), 0); PROBE("receiver_restart"); }
        if (s->restarts++ > 4) return;
        Task* n = rx ? spawn(t->name, [s] { receiver9(s, 60); }) : spawn(t->name, [s] { sender9(s); });
        n->user = s;
    };
    for (auto& s : *ss) {
        Sess9* p = &s;
        spawn("sender-" + s.nm, [p] { sender9(p); })->user = p;
        spawn("receiver-" + s.nm, [p] { receiver9(p, 60); })->user = p;
    }
    run_tasks();
    // faults stop: whatever is missing is sent again, and the whole message must be there
    for (auto& s : *ss) solo("drain", [&] {
        for (u32 i = 0; i < s.segs.size(); ++i) if (!s.have[i]) {
            Seg g = s.segs[i]; u8* c = alloc(g.len); u8* in = dup_bytes(s.plain.data() + g.off, g.len);
            crypt(pick_lib(), &s, in, g.len, g.off, c);
            if (S.ch.pick(2)) { CHECK(!memcmp(c, s.cipher.data() + g.off, g.len), "ciphertext", "%s: segment [%u,+%u) differs from RFC 8439", s.nm.c_str(), g.off, g.len); }
            crypt(pick_lib(), &s, c, g.len, g.off, s.rx + g.off);
        }
        CHECK(!memcmp(s.rx, s.plain.data(), s.plain.size()), "plaintext", "%s: reassembled message differs from the one sent", s.nm.c_str());
        if (S.ch.pick(3) == 2) { // the whole message at once
            u8* in = dup_bytes(s.plain.data(), s.plain.size()); u8* o = alloc(s.plain.size());
            crypt(pick_lib(), &s, in, (u32)s.plain.size(), 0, o);
            CHECK(!memcmp(o, s.cipher.data(), s.plain.size()), "ciphertext", "%s: the whole message encrypted at once differs from RFC 8439", s.nm.c_str());
        }
    });
}
// ------------------------------------------------------------------- C10
namespace {
struct Msg10 { std::string text; std::string key; int shift; bool vern; char* wire = nullptr; bool expect_textbook; const Lib* L = nullptr; };
struct Sess10 { std::vector<Msg10> msgs; std::deque<std::pair<u32, char*>> wire; std::vector<u8> got; std::string nm; int restarts = 0; u32 next = 0; };
char alpha() { u32 v = S.ch.pick(52); return (char)(v < 26 ? 'A' + v : 'a' + v - 26); }
std::string draw_msg(bool& big) {
    u32 n = S.ch.pick(6) == 5 ? S.ch.pick(2) : S.ch.pick(24); if (S.ch.pick(25) == 24) n = 250 + S.ch.pick(80);
    if (big && S.ch.pick(2)) { big = false; n = S.ch.logsize(24, 65000); PROBE("message_of_any_magnitude"); }
    if (big) { big = false; n = 65530 + S.ch.pick(30); PROBE("message_over_64KiB"); }
    std::string s; u32 style = S.ch.pick(4); u64 x = S.ch.pick(65536);
    for (u32 i = 0; i < n; ++i) {
        u64 r = Choices::mix(x); char c;
        switch (style) { case 0: c = (char)((r & 1 ? 'A' : 'a') + (r >> 8) % 26); break; case 1: c = (char)(32 + (r >> 8) % 95); break; case 2: c = (char)(1 + (r >> 8) % 255); break; default: { static const char ed[] = "AZazMNmn@[`{ 09"; c = ed[(r >> 8) % 15]; } }
        s += c;
    }
    if (n && S.ch.pick(8) == 7) { u32 per = 1 + S.ch.pick(6); for (u32 i = per; i < n; ++i) s[i] = s[i - per]; PROBE("periodic_message"); }
    return s;
}
char* terminated(const std::string& s) { return dup_str(s); }
void handle(const Lib& L, Msg10& m, char* msg, bool enc, const char* nm) {
    size_t n = m.text.size(); char* buf = S.reuse ? (char*)tmp_bytes(msg, n + 1, 2) : msg;
    if (!m.vern) {
        if (enc) CALL(.rw(buf, n + 1).lim(100000 + 200ull * n), "CaesarCipher_encrypt", (L.CaesarCipher_encrypt(buf, (u8)m.shift), 0));
        else CALL(.rw(buf, n + 1).lim(100000 + 200ull * n), "CaesarCipher_decrypt", (L.CaesarCipher_decrypt(buf, (u8)m.shift), 0));
    } else {
        char* k = (char*)tmp_bytes(m.key.data(), m.key.size(), 1); // exactly the key, no terminator
        bool r = enc ? CALL(.rw(buf, n + 1).ro(k, m.key.size()).lim(100000 + 200ull * n), "VernamCipher_encrypt", L.VernamCipher_encrypt(buf, k, (int32_t)m.key.size()))
                     : CALL(.rw(buf, n + 1).ro(k, m.key.size()).lim(100000 + 200ull * n), "VernamCipher_decrypt", L.VernamCipher_decrypt(buf, k, (int32_t)m.key.size()));
        CHECK(r, "refused", "%s: key of the message's length (%zu) refused", nm, n);
    }
    if (buf != msg) memcpy(msg, buf, n + 1);
    dig_bytes(msg, n + 1);
}
void wrong_key(Sess10* s) {
    const Lib& L = pick_lib(); bool nb = false; std::string t = draw_msg(nb); char* b = tmp_str(t, 2);
    int32_t kl = (int32_t)S.ch.pick(2 * (u32)t.size() + 3) - 1; if (kl == (int32_t)t.size()) kl += S.ch.pick(2) ? 1 : -1;
    char* k = (char*)tmp(kl > 0 ? (size_t)kl : 0, 1); for (int32_t i = 0; i < kl; ++i) k[i] = alpha();
    bool enc = S.ch.pick(2);
    bool r = enc ? CALL(.rw(b, t.size() + 1).ro(k, kl > 0 ? (size_t)kl : 0), "VernamCipher_encrypt", L.VernamCipher_encrypt(b, k, kl))
                 : CALL(.rw(b, t.size() + 1).ro(k, kl > 0 ? (size_t)kl : 0), "VernamCipher_decrypt", L.VernamCipher_decrypt(b, k, kl));
    LOG("%s: key of wrong length %d for %zu characters -> %d", s->nm.c_str(), kl, t.size(), r); FAULT("wrong_length_key");
    CHECK(!r, "wrong-key-accepted", "%s: key of length %d accepted for a message of length %zu", s->nm.c_str(), kl, t.size());
    CHECK(!memcmp(b, t.c_str(), t.size() + 1), "refused-changed", "%s: a refused key changed the message", s->nm.c_str());
}
void sender10(Sess10* s) {
    for (; s->next < s->msgs.size();) {
        u32 i = s->next; Msg10& m = s->msgs[i]; const Lib& L = m.L ? *m.L : pick_lib();
        if (S.ch.pick(8) == 7) wrong_key(s);
        char* b = terminated(m.text);
        handle(L, m, b, true, s->nm.c_str());
        LOG("%s: message %u %s with %s -> %s by %s", s->nm.c_str(), i, quote(m.text.data(), m.text.size()).c_str(), m.vern ? ("key " + quote(m.key.data(), m.key.size())).c_str() : ("shift " + std::to_string(m.shift)).c_str(), quote(b, m.text.size()).c_str(), L.tag);
        if (m.expect_textbook) {
            std::string want = m.vern ? model::vernam(m.text, m.key) : model::caesar(m.text, m.shift);
            CHECK(!memcmp(b, want.c_str(), want.size() + 1), "ciphertext", "%s: enciphering %s with %s gives %s instead of %s", s->nm.c_str(), quote(m.text.data(), m.text.size()).c_str(), m.vern ? ("key " + quote(m.key.data(), m.key.size())).c_str() : ("shift " + std::to_string(m.shift)).c_str(), quote(b, m.text.size()).c_str(), quote(want.data(), want.size()).c_str());
        }
        s->next = i + 1;
        u32 fate = S.ch.weighted({ 65, 20, 15 });
        s->wire.push_back({ i, b });
        if (fate == 1) { s->wire.push_back({ i, (char*)dup_bytes(b, m.text.size() + 1) }); FAULT("message_duplicated"); }
        if (fate == 2) { std::rotate(s->wire.begin(), s->wire.end() - 1, s->wire.end()); FAULT("message_overtakes"); }
        op_end();
    }
}
void open10(Sess10* s, u32 k) {
    if (k) FAULT("message_reordered");
    auto p = s->wire[k]; s->wire.erase(s->wire.begin() + k);
    Msg10& m = s->msgs[p.first]; const Lib& L = m.L ? *m.L : pick_lib();
    char* mine = (char*)dup_bytes(p.second, m.text.size() + 1);
    handle(L, m, mine, false, s->nm.c_str());
    LOG("%s: message %u deciphered by %s: %s", s->nm.c_str(), p.first, L.tag, quote(mine, m.text.size()).c_str());
    CHECK(!memcmp(mine, m.text.c_str(), m.text.size() + 1), "plaintext", "%s: message %s came back as %s (%s)", s->nm.c_str(), quote(m.text.data(), m.text.size()).c_str(), quote(mine, m.text.size()).c_str(), m.vern ? ("key " + quote(m.key.data(), m.key.size())).c_str() : ("shift " + std::to_string(m.shift)).c_str());
    s->got[p.first] = 1;
}
void receiver10(Sess10* s, u32 polls) {
    for (u32 t = 0; t < polls; ++t) { op_end(); if (!s->wire.empty()) open10(s, S.ch.pick(3) ? 0 : S.ch.pick((u32)s->wire.size())); }
}
}
// many short messages with the same key
static void age10(u32 n) {
    Msg10 m; m.text = draw_text(8, 1); m.vern = S.ch.pick(2); m.shift = (int)S.ch.pick(256); m.key.resize(m.text.size()); for (char& c : m.key) c = alpha(); bool mix = S.ch.pick(3) == 2; u32 what = S.ch.pick(3); const Lib* L = &pick_lib();
    std::string vc = model::vernam(m.text, m.key), cc = model::caesar(m.text, m.shift); char* b = (char*)alloc(m.text.size() + 1); size_t len = m.text.size() + 1; char* bad = (char*)alloc(len); memset(bad, 'K', len);
    age(n, [&](u32 i) {
        m.vern = mix ? i & 1 : m.vern;
        const std::string& c = m.vern ? vc : cc;
        if (what != 1) { memcpy(b, m.text.c_str(), len); handle(*L, m, b, true, "long session"); CHECK(!memcmp(b, c.c_str(), len), "ciphertext", "message number %u %s is enciphered to %s instead of %s", i + 1, quote(m.text.data(), len - 1).c_str(), quote(b, len - 1).c_str(), quote(c.data(), len - 1).c_str()); }
        if (what != 0) { memcpy(b, c.c_str(), len); handle(*L, m, b, false, "long session"); CHECK(!memcmp(b, m.text.c_str(), len), "plaintext", "message number %u %s came back as %s", i + 1, quote(m.text.data(), len - 1).c_str(), quote(b, len - 1).c_str()); }
        if (m.vern && what == 2) { bool r = CALL(.rw(b, len).ro(bad, len), "VernamCipher_encrypt", L->VernamCipher_encrypt(b, bad, (int32_t)len)); CHECK(!r && !memcmp(b, m.text.c_str(), len), "wrong-key-accepted", "message number %u: key of length %zu accepted for %zu characters", i + 1, len, len - 1); }
    }, true);
}
static void run_c10() {
    if (u32 n = aged(306)) age10(n);
    bool big = S.ch.pick(1500) == 1499, anybig = big;
    auto ss = std::make_unique<std::deque<Sess10>>(); u32 k = crowd(1 + S.ch.pick(3), 103);
    for (u32 i = 0; i < k; ++i) {
        ss->emplace_back(); auto& s = ss->back(); s.nm = "session" + std::to_string(i);
        u32 n = 1 + S.ch.pick(4);
        for (u32 j = 0; j < n; ++j) {
            Msg10 m; m.text = draw_msg(big); if (j && S.ch.pick(6) == 5 && s.msgs.back().text.size() < 2000) { m.text = s.msgs.back().text; vary((u8*)&m.text[0], m.text.size()); for (char& c : m.text) if (!c) c = 'z'; } m.vern = S.ch.pick(2); m.shift = (int)(S.ch.pick(3) ? S.ch.pick(256) : S.ch.pick(27)); m.expect_textbook = true;
            if (m.vern) {
                bool letters = S.ch.pick(2); m.expect_textbook = letters; u32 special = S.ch.pick(8); char one = alpha();
                u64 x = S.ch.pick(65536);
                for (size_t q = 0; q < m.text.size(); ++q) { u64 r = Choices::mix(x); m.key += letters ? (char)((r & 1 ? 'A' : 'a') + (r >> 8) % 26) : (char)(32 + (r >> 8) % 95); }
                if (special == 7 && !m.key.empty()) { // one character, or a short word, over and over
                    u32 per = S.ch.pick(2) ? 1 : 1 + S.ch.pick(5); if (letters) m.key[0] = one; for (size_t q = per; q < m.key.size(); ++q) m.key[q] = m.key[q - per]; PROBE("periodic_key");
                }
                if (special == 5 && !letters) { // keys of any bytes; both ends built alike
                    m.L = &pick_lib(); for (char& c : m.key) c = (char)(Choices::mix(x) >> 11); PROBE("key_of_any_bytes");
                }
                if (special == 4) for (char& c : m.key) c = letters ? (char)(Choices::mix(x) & 64 ? c & ~0x20 : c | 0x20) : (char)('0' + (u8)c % 10);
                if (special == 3 && letters) { bool up = S.ch.pick(2); for (char& c : m.key) c = (char)(up ? c & ~0x20 : c | 0x20); PROBE("key_of_one_case"); }
                if (special == 6) { // the message is its own key, as far as the key's alphabet allows
                    PROBE("key_like_the_message");
                    for (size_t q = 0; q < m.key.size(); ++q) { char c = m.text[q]; if (letters ? (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') : c >= 32 && c < 127) m.key[q] = c; }
                }
            }
            s.msgs.push_back(m);
        }
        s.got.assign(n, 0);
    }
    draw_policy(S.ch.pick(2) ? 10 : 0);
    if (anybig) { S.pol.max_preempt = 40; S.pol.kill_pm = 0; }
    S.on_kill = [](Task* t) {
        Sess10* s = (Sess10*)t->user; if (!s || s->restarts++ > 4) return;
        FAULT("restart");
        Task* n = t->name[0] == 'r' ? spawn(t->name, [s] { receiver10(s, 20); }) : spawn(t->name, [s] { sender10(s); });
        n->user = s;
    };
    for (auto& s : *ss) { Sess10* p = &s; spawn("sender-" + s.nm, [p] { sender10(p); })->user = p; spawn("receiver-" + s.nm, [p] { receiver10(p, 20); })->user = p; }
    run_tasks();
    for (auto& s : *ss) solo("drain", [&] { sender10(&s); while (!s.wire.empty()) open10(&s, S.ch.pick((u32)s.wire.size())); });
}
void register_crypto() {
    WL.push_back({ "C09", run_c09, 130000, "one run = 1-3 cipher sessions (rarely up to 80; 0-420 bytes, rarely >255 blocks or >64 KiB; counters including wrap-around), segments at block boundaries encrypted in any order, lost, duplicated, reordered, decrypted in place or to a separate buffer by either build, with preemption, crashes and restarts; every segment checked against an independent RFC 8439 model and the plaintext; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C10", run_c10, 2500000, "one run = 1-3 sessions (rarely up to 80) of 1-4 messages (any bytes but NUL; shifts 0-255; letter and printable keys; wrong-length keys) enciphered and deciphered by either build over a link that duplicates and reorders, with preemption, crashes and restarts; ciphertext checked against the textbook cipher, restored text against the original; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
