// C16 end-to-end: two nodes built from the library exchange messages over a bad link
#include "objects.h"
#include <algorithm>

namespace {
typedef std::vector<u8> Bytes;
u32 MAXPAY, SLOT, WS, VAL; // limits of the run: payload, frame buffer, workspace, map value
struct Profile {
    const CrcVar* crc; int cipher; bool rev, armour, json, crc_be, be[4]; u8 key[32], nonce[12]; u32 ctr0; u8 shift; std::string letters; u32 base; u32 rot;
};
std::string vkey(const Profile& p, u32 seq, size_t n) { std::string k(n, 'A'); for (size_t i = 0; i < n; ++i) k[i] = p.letters[(i * 7 + seq) % p.letters.size()]; return k; }
u32 ctr_of(const Profile& p, u32 seq) { return p.ctr0 + (seq - p.base) * ((MAXPAY + 63) / 64); }

// The primitives a frame is built from: once through the library, once through
// the independent models.
struct Api {
    virtual ~Api() {}
    virtual void put(u8* b, u32 v, int n, bool be) = 0;
    virtual u32 get(const u8* b, int n, bool be) = 0;
    virtual u32 flag(u32 f, u32 bit, int op) = 0;      // 0 clear 1 set 2 toggle
    virtual bool has(u32 f, u32 bit) = 0;
    virtual bool command(u32 f, u8 bit, u32 op, u32& v) = 0; // bit and exponent come from the peer: refused when out of range
    virtual bool power(u8 e, u32& v) = 0;
    virtual u32 mix(u32 v, u32 rot, u32 nb) = 0;
    virtual Bytes blob(const Bytes& in, bool le, bool writing) = 0;
    virtual Bytes crypt(const Profile& p, const Bytes& in, u32 seq, u32 cut) = 0;
    virtual Bytes letters(const Profile& p, const Bytes& in, u32 seq, bool enc) = 0;
    virtual Bytes arm(const Bytes& in) = 0;
    virtual bool disarm(const Bytes& in, Bytes& out) = 0;
    virtual Bytes object(const std::vector<std::pair<std::string, Bytes>>& m) = 0;
    virtual bool member(const Bytes& obj, const std::string& k, Bytes& v) = 0;
    virtual Bytes number(u32 v) = 0;
    virtual bool parse_number(const Bytes& t, u32& v) = 0;
    virtual u32 crc(const CrcVar& c, const u8* p, u32 n, u32 cut) = 0;
};
struct ModelApi : Api {
    void put(u8* b, u32 v, int n, bool be) override { for (int i = 0; i < n; ++i) b[i] = (u8)(v >> (8 * (be ? n - 1 - i : i))); }
    u32 get(const u8* b, int n, bool be) override { u32 v = 0; for (int i = 0; i < n; ++i) v |= (u32)b[i] << (8 * (be ? n - 1 - i : i)); return v; }
    u32 flag(u32 f, u32 bit, int op) override { u32 m = 1u << bit; return op == 0 ? f & ~m : op == 1 ? f | m : f ^ m; }
    bool has(u32 f, u32 bit) override { return f >> bit & 1; }
    bool command(u32 f, u8 bit, u32 op, u32& v) override { if (bit > 31) return false; v = op == 3 ? (f >> bit & 1) : flag(f, bit, (int)op); return true; }
    bool power(u8 e, u32& v) override { if (e > 9) return false; v = 1; while (e--) v *= 10; return true; }
    u32 mix(u32 v, u32 r, u32 nb) override { return (r ? (v << r) | (v >> (32 - r)) : v) ^ model::reflect(v & (nb < 32 ? (1u << nb) - 1 : ~0u), (int)nb); }
    Bytes blob(const Bytes& in, bool le, bool) override { Bytes o = in; if (le) std::reverse(o.begin(), o.end()); return o; }
    Bytes crypt(const Profile& p, const Bytes& in, u32 seq, u32) override { return model::chacha(p.key, p.nonce, ctr_of(p, seq), in.data(), in.size()); }
    Bytes letters(const Profile& p, const Bytes& in, u32 seq, bool enc) override {
        std::string m(in.begin(), in.end()), k = vkey(p, seq, m.size());
        if (enc) m = model::vernam(model::caesar(m, p.shift), k);
        else { for (char& c : k) { int s = c >= 'a' ? c - 'a' : c - 'A'; c = (char)('a' + (26 - s) % 26); } m = model::caesar(model::vernam(m, k), -(int)p.shift); }
        return Bytes(m.begin(), m.end());
    }
    Bytes arm(const Bytes& in) override { std::string s = model::b64(in.data(), in.size()); return Bytes(s.begin(), s.end()); }
    bool disarm(const Bytes& in, Bytes& out) override { return model::b64_dec(std::string(in.begin(), in.end()), out); }
    Bytes object(const std::vector<std::pair<std::string, Bytes>>& m) override { std::string s = "{"; for (auto& x : m) { if (s.size() > 1) s += ","; s += "\"" + x.first + "\":\"" + std::string(x.second.begin(), x.second.end()) + "\""; } s += "}"; return Bytes(s.begin(), s.end()); }
    bool member(const Bytes& obj, const std::string& k, Bytes& v) override { auto f = model::json_find(std::string(obj.begin(), obj.end()), k); v.assign(f.value.begin(), f.value.end()); return f.ok; }
    Bytes number(u32 v) override { std::string s = std::to_string(v); return Bytes(s.begin(), s.end()); }
    bool parse_number(const Bytes& t, u32& v) override { return model::str_u32(std::string(t.begin(), t.end()), v); }
    u32 crc(const CrcVar& c, const u8* p, u32 n, u32) override { return model::crc(c, p, n); }
} MODEL;
struct LibApi : Api {
    const Lib* L = nullptr; u8 *a, *b, *c, *k, *no; u32* w; u8* bit; void* last; std::string who;
    void create() { a = alloc(WS); b = alloc(WS); c = alloc(WS); k = alloc(32); no = alloc(12); w = make<u32>(); bit = alloc(1); last = alloc(4, 4); }
    void put(u8* d, u32 v, int n, bool be) override {
        u8 img[4] = {}; for (int i = 0; i < n && i < 4; ++i) { img[i] = (u8)(v >> 8 * (be ? n - 1 - i : i)); }
        almost(a, (size_t)n, img, (size_t)n);
        switch (n) {
            case 1: CALL(.rw(a, 1), "Utils_serialize8", (L->Utils_serialize8(a, (u8)v), 0)); break;
            case 2: if (be) CALL(.rw(a, 2), "Utils_serialize16BE", (L->Utils_serialize16BE(a, (u16)v), 0)); else CALL(.rw(a, 2), "Utils_serialize16LE", (L->Utils_serialize16LE(a, (u16)v), 0)); break;
            case 3: if (be) CALL(.rw(a, 3), "Utils_serialize24BE", (L->Utils_serialize24BE(a, v), 0)); else CALL(.rw(a, 3), "Utils_serialize24LE", (L->Utils_serialize24LE(a, v), 0)); break;
            default: if (be) CALL(.rw(a, 4), "Utils_serialize32BE", (L->Utils_serialize32BE(a, v), 0)); else CALL(.rw(a, 4), "Utils_serialize32LE", (L->Utils_serialize32LE(a, v), 0));
        }
        memcpy(d, a, (size_t)n);
    }
    u32 get(const u8* s, int n, bool be) override {
        memcpy(a, s, (size_t)n);
        switch (n) {
            case 1: return CALL(.ro(a, 1), "Utils_deserialize8", L->Utils_deserialize8(a));
            case 2: return be ? CALL(.ro(a, 2), "Utils_deserialize16BE", L->Utils_deserialize16BE(a)) : CALL(.ro(a, 2), "Utils_deserialize16LE", L->Utils_deserialize16LE(a));
            case 3: return be ? CALL(.ro(a, 3), "Utils_deserialize24BE", L->Utils_deserialize24BE(a)) : CALL(.ro(a, 3), "Utils_deserialize24LE", L->Utils_deserialize24LE(a));
            default: return be ? CALL(.ro(a, 4), "Utils_deserialize32BE", L->Utils_deserialize32BE(a)) : CALL(.ro(a, 4), "Utils_deserialize32LE", L->Utils_deserialize32LE(a));
        }
    }
    u32 flag(u32 f, u32 n, int op) override {
        bool r = op == 0 ? CALL(.rw(w, 4), "BitManipulation_clearBit", L->BitManipulation_clearBit(f, (u8)n, w)) : op == 1 ? CALL(.rw(w, 4), "BitManipulation_setBit", L->BitManipulation_setBit(f, (u8)n, w)) : CALL(.rw(w, 4), "BitManipulation_toggleBit", L->BitManipulation_toggleBit(f, (u8)n, w));
        CHECK(r, "flag-refused", "%s: bit %u refused", who.c_str(), n); return *w;
    }
    bool has(u32 f, u32 n) override { bool r = CALL(.rw(bit, 1), "BitManipulation_bitSet", L->BitManipulation_bitSet(f, (u8)n, (bool*)bit)); CHECK(r, "flag-refused", "%s: bit %u refused", who.c_str(), n); return *bit != 0; }
    bool command(u32 f, u8 n, u32 op, u32& v) override {
        if (op == 3) { bool r = CALL(.rw(bit, 1), "BitManipulation_bitSet", L->BitManipulation_bitSet(f, n, (bool*)bit)); if (r) v = *bit != 0; return r; }
        bool r = op == 0 ? CALL(.rw(w, 4), "BitManipulation_clearBit", L->BitManipulation_clearBit(f, n, w)) : op == 1 ? CALL(.rw(w, 4), "BitManipulation_setBit", L->BitManipulation_setBit(f, n, w)) : CALL(.rw(w, 4), "BitManipulation_toggleBit", L->BitManipulation_toggleBit(f, n, w));
        if (r) v = *w;
        return r;
    }
    bool power(u8 e, u32& v) override { bool r = CALL(.rw(w, 4), "Utils_quickUint32Pow10", L->Utils_quickUint32Pow10(e, w)); if (r) v = *w; return r; }
    u32 mix(u32 v, u32 r, u32 nb) override { u32 x = CALL(.lim(100000), "BitManipulation_rotl32", L->BitManipulation_rotl32(v, r)), y = CALL(.lim(100000), "BitManipulation_reflect", L->BitManipulation_reflect(v & (nb < 32 ? (1u << nb) - 1 : ~0u), (u8)nb)); return x ^ y; }
    Bytes blob(const Bytes& in, bool le, bool wr) override {
        u32 n = (u32)in.size(); if (n) memcpy(a, in.data(), n);
        if (wr) { if (le) CALL(.ro(a, n).rw(b, n), "Utils_serializeBlobLE", (L->Utils_serializeBlobLE(b, a, n), 0)); else CALL(.ro(a, n).rw(b, n), "Utils_serializeBlobBE", (L->Utils_serializeBlobBE(b, a, n), 0)); }
        else { if (le) CALL(.ro(a, n).rw(b, n), "Utils_deserializeBlobLE", (L->Utils_deserializeBlobLE(a, b, n), 0)); else CALL(.ro(a, n).rw(b, n), "Utils_deserializeBlobBE", (L->Utils_deserializeBlobBE(a, b, n), 0)); }
        return Bytes(b, b + n);
    }
    Bytes crypt(const Profile& p, const Bytes& in, u32 seq, u32 cut) override { // in segments at block boundaries
        u32 n = (u32)in.size(), ctr = ctr_of(p, seq); memcpy(k, p.key, 32); memcpy(no, p.nonce, 12); if (n) memcpy(a, in.data(), n);
        u32 first = cut & 1 ? n : std::min(n, 64u * (1 + (cut >> 1 & 1)));
        CALL(.ro(a, first).rw(b, first).ro(k, 32).ro(no, 12), "Chacha20_crypt", (L->Chacha20_crypt(a, first, k, no, ctr, b), 0));
        if (first < n) { memcpy(b + first, a + first, n - first); CALL(.rw(b + first, n - first).ro(k, 32).ro(no, 12), "Chacha20_crypt", (L->Chacha20_crypt(b + first, n - first, k, no, ctr + first / 64, b + first), 0)); }
        return Bytes(b, b + n);
    }
    Bytes letters(const Profile& p, const Bytes& in, u32 seq, bool enc) override {
        u32 n = (u32)in.size(); memcpy(a, in.data(), n); a[n] = 0; std::string ks = vkey(p, seq, n); memcpy(b, ks.c_str(), n + 1); char *m = (char*)a, *kk = (char*)b; bool ok;
        if (enc) { CALL(.rw(m, n + 1), "CaesarCipher_encrypt", (L->CaesarCipher_encrypt(m, p.shift), 0)); ok = CALL(.rw(m, n + 1).ro(kk, n + 1), "VernamCipher_encrypt", L->VernamCipher_encrypt(m, kk, (int32_t)n)); }
        else { ok = CALL(.rw(m, n + 1).ro(kk, n + 1), "VernamCipher_decrypt", L->VernamCipher_decrypt(m, kk, (int32_t)n)); CALL(.rw(m, n + 1), "CaesarCipher_decrypt", (L->CaesarCipher_decrypt(m, p.shift), 0)); }
        CHECK(ok, "key-refused", "%s: key of the message's length %u refused", who.c_str(), n);
        return Bytes(a, a + n);
    }
    Bytes arm(const Bytes& in) override {
        u32 n = (u32)in.size(), room = 4 * ((n + 2) / 3) + 1; memcpy(a, in.data(), n);
        int32_t st = CALL(.ro(a, n).rw(b, room), "Base64_encode", L->Base64_encode((char*)a, n, (char*)b, room));
        CHECK(st == 0, "armour-refused", "%s: armouring %u bytes into %u refused", who.c_str(), n, room);
        return Bytes(b, b + strnlen((char*)b, room));
    }
    bool disarm(const Bytes& in, Bytes& out) override {
        u32 n = (u32)in.size(), pad = 0; while (pad < n && pad < 2 && in[n - 1 - pad] == '=') ++pad; u32 len = n / 4 * 3 - std::min(pad, n / 4 * 3); if (n) memcpy(a, in.data(), n);
        int32_t st = CALL(.ro(a, n).rw(b, len), "Base64_decode", L->Base64_decode((char*)a, n, b, len));
        out.assign(b, b + len); return st == 0;
    }
    Bytes object(const std::vector<std::pair<std::string, Bytes>>& m) override {
        char* d = (char*)a; u32 room = 3; for (auto& x : m) room += (u32)(x.first.size() + x.second.size() + 6);
        bool ok = CALL(.rw(d, room), "Json_startString", L->Json_startString(d, room));
        for (auto& x : m) { memcpy(b, x.first.c_str(), x.first.size() + 1); memcpy(c, x.second.data(), x.second.size()); c[x.second.size()] = 0; ok = ok && CALL(.rw(d, room).ro(b, x.first.size() + 1).ro(c, x.second.size() + 1), "Json_addData", L->Json_addData(d, room, (char*)b, (char*)c)); }
        ok = ok && CALL(.rw(d, room), "Json_endString", L->Json_endString(d, room));
        CHECK(ok, "object-refused", "%s: object with sufficient room %u refused", who.c_str(), room);
        return Bytes(a, a + strnlen(d, room));
    }
    bool member(const Bytes& obj, const std::string& key, Bytes& v) override {
        u32 n = (u32)obj.size(); memcpy(a, obj.data(), n); memcpy(b, key.c_str(), key.size() + 1);
        bool ok = CALL(.ro(a, n).ro(b, key.size() + 1).rw(c, SLOT), "Json_findByKey", L->Json_findByKey((char*)a, n, (char*)b, (char*)c, SLOT));
        if (ok) { v.assign(c, c + strnlen((char*)c, SLOT)); }
        return ok;
    }
    Bytes number(u32 v) override { // digits by powers of ten
        Bytes t; bool lead = true;
        for (int e = 9; e >= 0; --e) { bool r = CALL(.rw(w, 4), "Utils_quickUint32Pow10", L->Utils_quickUint32Pow10((u8)e, w)); CHECK(r && *w, "power-refused", "%s: ten to the %d refused", who.c_str(), e); u32 dgt = v / *w % 10; if (dgt || !lead || e == 0) { t.push_back((u8)('0' + dgt)); lead = false; } }
        return t;
    }
    bool parse_number(const Bytes& t, u32& v) override {
        u32 n = (u32)t.size(); if (!n || n > 200) return false; memcpy(a, t.data(), n);
        bool r = CALL(.ro(a, n).rw(w, 4), "Utils_stringToUint32", L->Utils_stringToUint32((char*)a, (u8)n, w)); v = r ? *w : 0; return r;
    }
    u32 crc(const CrcVar& v, const u8* p, u32 n, u32 cut) override {
        memcpy(a, p, n); if (!n) return CALL(.ro(a, 0), v.name, v.call(*L, a, 0, true, nullptr));
        u32 at = cut % (n + 1); if (at == n) return CALL(.ro(a, n), v.name, v.call(*L, a, n, true, nullptr));
        u32 r = CALL(.ro(a, at), v.name, v.call(*L, a, at, false, nullptr)); size_t wd = (size_t)v.width / 8;
        if (wd == 1) *(u8*)last = (u8)r; else if (wd == 2) *(u16*)last = (u16)r; else *(u32*)last = r;
        return CALL(.ro(a + at, n - at).ro(last, wd), v.name, v.call(*L, a + at, n - at, true, last));
    }
};
struct Msg { u32 stamp; Bytes pay; };
struct Frame { bool ack = false; u32 seq = 0, stamp = 0; Bytes pay; u32 extra = 0, cmd = 0; int forge = 0; u8 fbit = 0; Bytes ftext; }; // forge: 1 bit position, 2 exponent, 3 number
const u32 HDR = 38;
u32 hash(u32 a, u32 b) { u32 h = a * 0x9E3779B1u ^ (b + 0x7F4A7C15u) * 0x85EBCA6Bu; h ^= h >> 15; h *= 0xC2B2AE35u; return h ^ h >> 13; }
u32 status(Api& x, u32 seq, u32 stamp) { // a status word the sender edits bit by bit
    u32 h = hash(seq, stamp), v = (h & 3) == 0 ? 0 : (h & 3) == 1 ? ~0u : stamp; h >>= 2;
    for (int i = 0; i < 3; ++i, h >>= 8) v = x.flag(v, h & 31, (int)((h >> 5) % 3));
    return v;
}
u32 width(u32 seq) { static const u32 w[6] = { 32, 8, 16, 1, 24, 31 }; return seq & 1 ? w[(seq >> 1) % 6] : 1 + hash(seq, 1) % 32; }
Bytes build(Api& x, const Profile& p, const Frame& f, u32 cut) {
    Bytes body;
    if (!f.ack) {
        body = f.pay;
        if (p.cipher == 1) body = x.crypt(p, body, f.seq, cut);
        if (p.cipher == 2) body = x.letters(p, body, f.seq, true);
        body = x.blob(body, p.rev, true);
        if (p.armour) body = x.arm(body);
        if (p.json) body = x.object({ { "d", body }, { "dn", x.number(f.stamp) }, { "n", x.number(f.seq) }, { "x", f.forge == 3 ? f.ftext : x.number(hash(f.seq, f.stamp)) } });
    } else if (p.json) body = x.object({ { "a", x.number(f.seq) } });
    Bytes r(HDR + body.size() + (size_t)p.crc->width / 8);
    x.put(&r[0], 0xA5, 1, true);
    u32 fl = f.ack ? x.flag(0, 31, 1) : x.flag(0x80000000u, 31, 0); fl = x.flag(fl, f.seq % 31, 2);
    x.put(&r[1], fl, 4, p.be[0]);
    x.put(&r[5], f.seq, 3, p.be[1]);
    x.put(&r[8], (u32)body.size(), 2, p.be[2]);
    x.put(&r[10], f.stamp, 4, p.be[3]);
    x.put(&r[14], x.mix(f.stamp, p.rot, width(f.seq)), 4, !p.be[3]);
    u32 h = hash(f.stamp, f.seq);
    x.put(&r[18], status(x, f.seq, f.stamp), 4, p.be[1]); x.put(&r[22], h & 0xFFFF, 2, p.be[3]); x.put(&r[24], h >> 16 & 0xFF, 1, true); x.put(&r[25], h >> 8, 3, p.be[0]);
    u8 cb = f.forge == 1 ? f.fbit : (u8)(h % 32), ce = f.forge == 2 ? f.fbit : (u8)((h >> 5) % 10); u32 pw = 0; // command: bit position, power of ten
    if (f.forge != 2) x.power(ce, pw);
    x.put(&r[28], cb, 1, true); x.put(&r[29], ce, 1, true); x.put(&r[30], pw, 4, p.be[2]); x.put(&r[34], x.mix(h, h >> 10 & 31, 8), 4, p.be[2]);
    std::copy(body.begin(), body.end(), r.begin() + HDR);
    u32 n = (u32)(HDR + body.size());
    x.put(&r[n], x.crc(*p.crc, r.data(), n, cut), p.crc->width / 8, p.crc_be);
    return r;
}
bool parse(Api& x, const Profile& p, const Bytes& r, Frame& f, u32 cut) {
    u32 w = (u32)p.crc->width / 8; if (r.size() < HDR + w) return false;
    u32 n = (u32)r.size() - w;
    if (x.get(&r[8], 2, p.be[2]) != n - HDR) return false;
    if (x.crc(*p.crc, r.data(), n, cut) != x.get(&r[n], (int)w, p.crc_be)) return false;
    if (x.get(&r[0], 1, true) != 0xA5) return false;
    u32 fl = x.get(&r[1], 4, p.be[0]); f.seq = x.get(&r[5], 3, p.be[1]); f.ack = x.has(fl, 31);
    if (x.flag(fl, f.seq % 31, 2) != (f.ack ? 0x80000000u : 0)) return false;
    f.stamp = x.get(&r[10], 4, p.be[3]); if (x.get(&r[14], 4, !p.be[3]) != x.mix(f.stamp, p.rot, width(f.seq))) return false;
    u32 h = hash(f.stamp, f.seq), st = x.get(&r[18], 4, p.be[1]), want = status(MODEL, f.seq, f.stamp);
    if (st != want || x.get(&r[22], 2, p.be[3]) != (h & 0xFFFF) || x.get(&r[24], 1, true) != (h >> 16 & 0xFF) || x.get(&r[25], 3, p.be[0]) != h >> 8) return false;
    for (u32 i = 0; i < 3; ++i) if (x.has(st, (h >> (5 * i)) & 31) != ((want >> ((h >> (5 * i)) & 31) & 1) != 0)) return false;
    u32 pw = 0, op = (h >> 15) & 3; if (!x.command(st, (u8)x.get(&r[28], 1, true), op, f.cmd)) return false;
    if (!x.power((u8)x.get(&r[29], 1, true), pw) || pw != x.get(&r[30], 4, p.be[2]) || x.get(&r[34], 4, p.be[2]) != x.mix(h, h >> 10 & 31, 8)) return false;
    Bytes body(r.begin() + HDR, r.begin() + n), t; u32 v = 0; f.pay.clear();
    if (f.ack) { if (p.json) { if (!x.member(body, "a", t) || !x.parse_number(t, v) || v != f.seq) return false; } return p.json || body.empty(); }
    if (p.json) {
        if (!x.member(body, "n", t) || !x.parse_number(t, v) || v != f.seq) return false;
        if (!x.member(body, "dn", t) || !x.parse_number(t, v) || v != f.stamp) return false;
        if (!x.member(body, "x", t) || !x.parse_number(t, f.extra)) return false;
        if (!x.member(body, "d", t)) return false;
        body = t;
    }
    if (p.armour) { if (!x.disarm(body, t)) return false; body = t; }
    body = x.blob(body, p.rev, false);
    if (p.cipher == 1) body = x.crypt(p, body, f.seq, cut);
    if (p.cipher == 2) body = x.letters(p, body, f.seq, false);
    f.pay = body; return true;
}
struct World; struct Node;
struct Dgram { u64 due; Bytes b; bool damaged; };
struct Link { std::vector<Dgram> air; u32 loss = 0, dup = 0, delay = 0, cut = 0, corrupt = 0; u32 dark = 0; };
struct Node {
    World* w; u32 id; std::string nm; Image img; LibApi api; bool peer_model = false; // peer_model: the node is an independent implementation
    // durable
    std::vector<Msg> out; u32 acked = 0; std::vector<Msg> got;
    // volatile, lost in a crash
    u32 clock = 0; u32 win = 4, rto = 10; std::vector<u8> sent; std::vector<u32> sent_at; bool need_ack = false; u32 down = 0; u32 sentn = 0;
    Queue_t* rxq; u8* rxs; u32 rxcap; std::deque<Bytes> rxm; Bytes rxcur;
    PriorityQueue_t* txq; u8* txs; u32* txp; u32 txcap; PriorityQueueItem_t* item; u32* pv; u8* slot;
    Map_t* map; u8 *mk, *mv; int32_t mcap; u32 ksz; u8 *kcell, *vcell; u8* arr;
    SchedulerTask_t* tab; SchedulerTask_t* nt; u32 tabn; int txslot = -1; u32 alg; u32 ran = 0, order_seed = 0;
    Node *peer; Link* link; u32 ticks = 0, restarts = 0;
};
struct World { Profile p; Node n[2]; Link l[2]; bool calm = false, forging = false; u64 now = 0; };
World* W16;
Node* self() { if (!S.cur || !S.cur->user) fail("stray-callback", "task invoked outside any pass"); return (Node*)S.cur->user; }
bool cmp32(void* a, void* b) { u32 x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x > y; }
Api& api(Node* n) { return n->peer_model ? (Api&)MODEL : (Api&)n->api; }

void link_send(Node* n, const Bytes& b) {
    World* w = n->w; Link& l = *n->link; bool faulty = !w->calm;
    LOG("%s: sends %zu bytes %s", n->nm.c_str(), b.size(), hex(b.data(), b.size()).c_str()); dig_bytes(b.data(), b.size());
    if (faulty) {
        if (l.dark) { FAULT("partition_drop"); return; }
        if (l.loss && S.ch.pick(100) >= 100 - l.loss) { FAULT("frame_lost"); return; }
    }
    u32 copies = 1; if (faulty && l.dup && S.ch.pick(100) >= 100 - l.dup) { FAULT("frame_duplicated"); copies = 2; }
    for (u32 i = 0; i < copies; ++i) {
        Dgram d; d.b = b; d.damaged = false; d.due = w->now + 1;
        if (faulty && l.delay && S.ch.pick(100) >= 100 - l.delay) { d.due += 1 + S.ch.pick(25); FAULT("frame_delayed"); }
        if (faulty && l.cut && S.ch.pick(100) >= 100 - l.cut) { d.b.resize(S.ch.pick((u32)b.size())); d.damaged = true; FAULT("frame_cut"); }
        else if (faulty && l.corrupt && S.ch.pick(100) >= 100 - l.corrupt) {
            u32 cw = (u32)w->p.crc->width / 8, at = S.ch.pick((u32)b.size()); bool ch = false;
            for (u32 k = 0; k < cw && at + k < b.size(); ++k) { u8 x = (u8)(S.ch.pick(2) ? 1u << S.ch.pick(8) : S.ch.pick(256)); d.b[at + k] ^= x; ch |= x != 0; }
            if (ch) { d.damaged = true; FAULT("frame_corrupted"); }
        }
        l.air.push_back(d);
    }
}
// driver interrupt: due frames go from the air into the receive queue
void driver_rx(Node* n) {
    Link& l = *n->peer->link; std::vector<Dgram> rest;
    size_t m = l.air.size();
    std::vector<size_t> ord(m); for (size_t i = 0; i < m; ++i) ord[i] = i;
    std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return l.air[a].due < l.air[b].due; });
    std::vector<Dgram> due; for (size_t i : ord) if (l.air[i].due <= n->w->now) due.push_back(l.air[i]);
    for (auto& d : l.air) if (d.due > n->w->now) rest.push_back(d);
    l.air = rest;
    for (auto& d : due) {
        if (d.b.size() > SLOT - 2) continue;
        memset(n->slot, 0, SLOT); n->slot[0] = (u8)d.b.size(); n->slot[1] = (u8)(d.b.size() >> 8); if (!d.b.empty()) memcpy(n->slot + 2, d.b.data(), d.b.size());
        bool r = CALL(.rw(n->rxq, sizeof *n->rxq).rw(n->rxs, (size_t)n->rxcap * SLOT).ro(n->slot, SLOT), "Queue_enqueue", n->api.L->Queue_enqueue(n->rxq, n->slot));
        CHECK(r == (n->rxm.size() < n->rxcap), "buffer", "%s: receive queue %s a frame with %zu of %u held", n->nm.c_str(), r ? "accepts" : "refuses", n->rxm.size(), n->rxcap);
        if (r) n->rxm.push_back(d.b); else FAULT("receive_queue_overflow");
    }
}
void forge_frame(Node* n, Frame f);
bool send_frame(Node* n, const Frame& f, u32 prio) {
    World* w = n->w; Bytes b = build(api(n), w->p, f, S.ch.pick(64));
    if (!n->peer_model) {
        Bytes m = build(MODEL, w->p, f, 0);
        CHECK(b == m, "frame-bytes", "%s (%s): frame %s seq %u built by the library is %s, an independent implementation builds %s", n->nm.c_str(), n->api.L->tag, f.ack ? "ack" : "data", f.seq, hex(b.data(), b.size()).c_str(), hex(m.data(), m.size()).c_str());
    }
    if (b.size() > SLOT - 2) fail("harness", "frame too long");
    memset(n->slot, 0, SLOT); n->slot[0] = (u8)b.size(); n->slot[1] = (u8)(b.size() >> 8); memcpy(n->slot + 2, b.data(), b.size());
    *n->pv = prio; n->item->priority = n->pv; n->item->element = n->slot;
    bool r = CALL(.rw(n->txq, sizeof *n->txq).rw(n->txs, (size_t)n->txcap * SLOT).rw(n->txp, n->txcap * 4).ro(n->item, sizeof *n->item).ro(n->pv, 4).ro(n->slot, SLOT), "PriorityQueue_enqueue", n->api.L->PriorityQueue_enqueue(n->txq, n->item));
    if (!r) FAULT("transmit_queue_full");
    LOG("%s: %s seq %u queued -> %d", n->nm.c_str(), f.ack ? "ack" : "data", f.seq, r);
    if (!w->calm && w->forging && S.ch.pick(6) == 5) forge_frame(n, f);
    return r;
}
// a peer of another version, or a malicious one: the checksum is good, but a
// number is malformed or does not fit, a bit position or an exponent is out of range
void forge_frame(Node* n, Frame f) {
    World* w = n->w; f.forge = 1 + (int)S.ch.pick(w->p.json && !f.ack ? 4 : 2); if (f.forge == 4) f.forge = 3;
    if (f.forge == 1) f.fbit = (u8)(S.ch.pick(2) ? 32 + S.ch.pick(3) * 32 : 32 + S.ch.pick(224));
    else if (f.forge == 2) f.fbit = (u8)(S.ch.pick(2) ? 10 + S.ch.pick(3) : 10 + S.ch.pick(246));
    else {
        std::string s = std::to_string(S.ch.u32val());
        switch (S.ch.pick(7)) {
            case 0: s = std::to_string(4294967296ull + S.ch.u32val()); break;                    // would wrap to a 32-bit value
            case 1: s = std::to_string(4294967290ull + S.ch.pick(12)); break;
            case 2: s = std::string(S.ch.pick(2) ? 11 - std::min<size_t>(s.size(), 10) : S.ch.pick(12), '0') + s; break;
            case 3: { static const char bad[] = " +-./:;aA\t\x80\xb1\xff"; s[S.ch.pick((u32)s.size())] = bad[S.ch.pick(13)]; break; }
            case 4: s.insert(S.ch.pick((u32)s.size() + 1), 1, " +-.x"[S.ch.pick(5)]); break;
            case 5: { u32 l = S.ch.pick(13); s.clear(); for (u32 i = 0; i < l; ++i) s += (char)('0' + S.ch.pick(10)); break; }
            default: s = std::to_string(S.ch.pick(2) ? S.ch.u32val() : 9999999999ull - S.ch.pick(3)); break;
        }
        f.ftext.assign(s.begin(), s.end());
    }
    Dgram d; d.b = build(MODEL, w->p, f, 0); if (d.b.size() > SLOT - 2) return;
    d.due = w->now + 1 + S.ch.pick(4); d.damaged = true; n->link->air.push_back(d); FAULT("malformed_frame");
    LOG("%s: a malformed frame (kind %d, %u, %s) follows %s", n->nm.c_str(), f.forge, f.fbit, quote((char*)f.ftext.data(), f.ftext.size()).c_str(), hex(d.b.data(), d.b.size()).c_str());
}
void map_key(Node* n, u32 seq) { u32 v = seq % n->win; memset(n->kcell, 0, 8); MODEL.put(n->kcell, v, (int)std::min(n->ksz, 4u), true); }
#define MAPS .rw(n->map, sizeof *n->map).rw(n->mk, (size_t)n->mcap * n->ksz).rw(n->mv, (size_t)n->mcap * VAL)
#define MAPR .ro(n->map, sizeof *n->map).ro(n->mk, (size_t)n->mcap * n->ksz).ro(n->mv, (size_t)n->mcap * VAL)
// -------------------------------------------------- tasks run by the scheduler
void t_rx() {
    Node* n = self(); World* w = n->w; ++n->ran;
    for (int i = 0; i < 4; ++i) {
        bool r = CALL(.rw(n->rxq, sizeof *n->rxq).rw(n->rxs, (size_t)n->rxcap * SLOT).rw(n->slot, SLOT), "Queue_dequeue", n->api.L->Queue_dequeue(n->rxq, n->slot));
        CHECK(r == !n->rxm.empty(), "buffer", "%s: receive queue gives %d with %zu frames held", n->nm.c_str(), r, n->rxm.size());
        if (!r) break;
        Bytes b = n->rxm.front(); n->rxm.pop_front();
        u32 len = n->slot[0] | (u32)n->slot[1] << 8;
        CHECK(len == b.size() && (b.empty() || !memcmp(n->slot + 2, b.data(), len)), "buffer", "%s: frame left the receive queue altered or out of order", n->nm.c_str());
        Frame f, g; bool ok = parse(api(n), w->p, b, f, S.ch.pick(64)); bool want = n->peer_model ? ok : parse(MODEL, w->p, b, g, 0);
        LOG("%s: frame of %zu bytes %s", n->nm.c_str(), b.size(), ok ? "accepted" : "rejected"); dig(ok);
        CHECK(ok == want, "verdict", "%s: frame %s is %s by the library, %s by an independent implementation", n->nm.c_str(), hex(b.data(), b.size()).c_str(), ok ? "accepted" : "rejected", want ? "accepted" : "rejected");
        if (!ok) continue;
        if (!n->peer_model) CHECK(f.ack == g.ack && f.seq == g.seq && f.stamp == g.stamp && f.extra == g.extra && f.cmd == g.cmd && f.pay == g.pay, "field", "%s: fields read from %s differ: seq %u/%u stamp %x/%x number %u/%u command %x/%x content %s / %s", n->nm.c_str(), hex(b.data(), b.size()).c_str(), f.seq, g.seq, f.stamp, g.stamp, f.extra, g.extra, f.cmd, g.cmd, hex(f.pay.data(), f.pay.size()).c_str(), hex(g.pay.data(), g.pay.size()).c_str());
        u32 idx = f.seq - w->p.base;
        if (f.ack) { if (idx > n->acked && idx <= n->out.size()) { n->acked = idx; LOG("%s: %u acknowledged", n->nm.c_str(), idx); } continue; }
        u32 exp = (u32)n->got.size();
        if (idx < exp) { n->need_ack = true; PROBE("stale_or_duplicate_frame"); continue; }
        if (idx >= exp + n->win || f.pay.size() > MAXPAY) { PROBE("frame_beyond_window"); continue; }
        if (idx > exp) PROBE("out_of_order_frame_buffered");
        map_key(n, f.seq); memset(n->vcell, 0, VAL); MODEL.put(n->vcell, idx + 1, 4, true); MODEL.put(n->vcell + 4, f.stamp, 4, true); MODEL.put(n->vcell + 8, (u32)f.pay.size(), 2, true); memcpy(n->vcell + 10, f.pay.data(), f.pay.size());
        bool ins = CALL(MAPS.ro(n->kcell, n->ksz).ro(n->vcell, VAL), "Map_insert", n->api.L->Map_insert(n->map, n->kcell, n->vcell));
        CHECK(ins, "buffer", "%s: reorder buffer of %d slots refuses slot %u of window %u", n->nm.c_str(), n->mcap, f.seq % n->win, n->win);
    }
}
void t_app() { // deliver what is in order
    Node* n = self(); World* w = n->w; ++n->ran; u32 exp = (u32)n->got.size(), cnt = 0; std::map<u32, Bytes> held;
    for (u32 i = 0; i < n->win; ++i) {
        map_key(n, i); if (!CALL(MAPR.ro(n->kcell, n->ksz).rw(n->vcell, VAL), "Map_getValue", n->api.L->Map_getValue(n->map, n->kcell, n->vcell))) continue;
        u32 idx = MODEL.get(n->vcell, 4, true) - 1; if (idx < exp || idx >= exp + n->win) continue;
        u32 v = idx; memcpy(n->arr + 4 * cnt, &v, 4); ++cnt; held[idx] = Bytes(n->vcell, n->vcell + VAL);
    }
    auto f = n->alg == 0 ? n->api.L->BubbleSort_sort : n->alg == 1 ? n->api.L->SelectionSort_sort : n->alg == 2 ? n->api.L->HeapSort_sort : n->api.L->InsertionSort_sort;
    CALL(.rw(n->arr, 4 * cnt), "sort", (f(n->arr, (int32_t)cnt, 4, cmp32), 0));
    for (u32 i = 0; i < cnt; ++i) {
        u32 idx; memcpy(&idx, n->arr + 4 * i, 4); if (idx != n->got.size() || !held.count(idx)) break;
        Bytes& v = held[idx]; Msg m; m.stamp = MODEL.get(&v[4], 4, true); u32 len = MODEL.get(&v[8], 2, true); m.pay.assign(v.begin() + 10, v.begin() + 10 + std::min(len, MAXPAY));
        CHECK(idx < n->peer->out.size(), "delivery", "%s: message %u delivered that was never submitted", n->nm.c_str(), idx);
        Msg& s = n->peer->out[idx];
        CHECK(s.stamp == m.stamp && s.pay == m.pay, "delivery", "%s: message %u delivered as %x %s, submitted was %x %s", n->nm.c_str(), idx, m.stamp, hex(m.pay.data(), m.pay.size()).c_str(), s.stamp, hex(s.pay.data(), s.pay.size()).c_str());
        n->got.push_back(m); n->need_ack = true; LOG("%s: message %u delivered", n->nm.c_str(), idx); dig(idx);
    }
    (void)w;
}
void t_timer() { // decides whether the transmit task has work
    Node* n = self(); ++n->ran; bool work = n->need_ack;
    for (u32 i = n->acked; i < n->out.size() && i < n->acked + n->win; ++i) if (!n->sent[i] || n->clock - n->sent_at[i] >= n->rto) work = true;
    if (n->txslot >= 0) n->tab[n->txslot].active = work;
}
void t_tx() {
    Node* n = self(); World* w = n->w; ++n->ran; u32 k = 0;
    if (n->need_ack) { Frame f; f.ack = true; f.seq = w->p.base + (u32)n->got.size(); f.stamp = n->clock; if (send_frame(n, f, 9)) n->need_ack = false; }
    for (u32 i = n->acked; i < n->out.size() && i < n->acked + n->win && k < 2; ++i) if (!n->sent[i] || n->clock - n->sent_at[i] >= n->rto) {
        if (n->sent[i]) PROBE("retransmission");
        Frame f; f.seq = w->p.base + i; f.stamp = n->out[i].stamp; f.pay = n->out[i].pay; if (!send_frame(n, f, 8 - (i - n->acked))) break; // the oldest goes first and is never displaced by a newer one
        n->sent[i] = 1; n->sent_at[i] = n->clock; ++k;
    }
    if (n->txslot >= 0) n->tab[n->txslot].active = false; // sleeps until the timer task wakes it
}
void t_out() { // one frame per tick leaves the node
    Node* n = self(); ++n->ran;
    bool r = CALL(.rw(n->txq, sizeof *n->txq).rw(n->txs, (size_t)n->txcap * SLOT).rw(n->txp, n->txcap * 4).rw(n->slot, SLOT), "PriorityQueue_dequeue", n->api.L->PriorityQueue_dequeue(n->txq, n->slot));
    if (!r) return;
    u32 len = n->slot[0] | (u32)n->slot[1] << 8; CHECK(len <= SLOT - 2, "buffer", "%s: frame left the transmit queue altered", n->nm.c_str());
    Bytes b(n->slot + 2, n->slot + 2 + len); Frame g; CHECK(parse(MODEL, n->w->p, b, g, 0), "buffer", "%s: frame %s leaving the transmit queue is not one that was put in", n->nm.c_str(), hex(b.data(), b.size()).c_str());
    link_send(n, b);
}
void t_idle() { Node* n = self(); ++n->ran; }

void boot(Node* n) { // power-up: all volatile memory is garbage
    World* w = n->w; (void)w;
    n->api.L = &pick_lib(); n->api.who = n->nm;
    n->rxcap = 1 + S.ch.pick(5); n->txcap = 1 + S.ch.pick(5); n->mcap = (int32_t)(n->win + S.ch.pick(3)); n->ksz = 1 + S.ch.pick(5); n->alg = S.ch.pick(4); n->tabn = 5 + S.ch.pick(3); n->rto = 6 + S.ch.pick(10);
    for (auto b : { std::make_pair((void*)n->rxq, sizeof(Queue_t)), std::make_pair((void*)n->rxs, (size_t)n->rxcap * SLOT), std::make_pair((void*)n->txq, sizeof(PriorityQueue_t)), std::make_pair((void*)n->txp, (size_t)n->txcap * 4), std::make_pair((void*)n->map, sizeof(Map_t)), std::make_pair((void*)n->mk, (size_t)n->mcap * n->ksz) }) scribble(b.first, b.second);
    bool r = CALL(.rw(n->rxq, sizeof *n->rxq).rw(n->rxs, (size_t)n->rxcap * SLOT), "Queue_init", n->api.L->Queue_init(n->rxq, n->rxcap, SLOT, n->rxs)); n->rxm.clear();
    n->item->priority = n->txp; n->item->element = n->txs;
    r = r && CALL(.rw(n->txq, sizeof *n->txq).rw(n->txs, (size_t)n->txcap * SLOT).rw(n->txp, n->txcap * 4).ro(n->item, sizeof *n->item), "PriorityQueue_init", n->api.L->PriorityQueue_init(n->txq, n->txcap, SLOT, n->item));
    r = r && CALL(MAPS, "Map_init", n->api.L->Map_init(n->map, n->mk, n->mv, (int32_t)n->ksz, (int32_t)VAL, n->mcap));
    CHECK(r, "boot", "%s: start-up refused", n->nm.c_str());
    size_t tn = sizeof(SchedulerTask_t) * n->tabn;
    CALL(.rw(n->tab, tn), "Scheduler_init", (n->api.L->Scheduler_init(n->tab, n->tabn), 0));
    void (*fs[6])(void) = { t_rx, t_app, t_timer, t_tx, t_out, t_idle }; u32 rot = S.ch.pick(5), cnt = n->tabn >= 6 ? 6 : 5; n->txslot = -1;
    for (u32 i = 0; i < cnt; ++i) {
        u32 k = i < 5 ? (i + rot) % 5 : 5; n->nt->function = fs[k]; n->nt->active = k != 3;
        bool ok = CALL(.rw(n->tab, tn).ro(n->nt, sizeof *n->nt), "Scheduler_addTask", n->api.L->Scheduler_addTask(n->tab, n->tabn, n->nt)); CHECK(ok, "boot", "%s: task %u of a table of %u refused", n->nm.c_str(), i, n->tabn);
        for (u32 s = 0; s < n->tabn; ++s) if (n->tab[s].function == t_tx) n->txslot = (int)s;
    }
    n->clock = S.ch.u32val(); n->sent.assign(n->out.size(), 0); n->sent_at.assign(n->out.size(), 0); n->need_ack = S.ch.pick(2); 
    LOG("%s: boots (%s), receive queue %u, transmit queue %u, window %u, %zu delivered, %u acknowledged", n->nm.c_str(), n->api.L->tag, n->rxcap, n->txcap, n->win, n->got.size(), n->acked);
}
void tick(Node* n) {
    World* w = n->w; ++S.ticks; ++n->ticks; ++w->now; ++n->clock;
    if (!w->calm) {
        if (S.ch.pick(150) == 149) { FAULT("clock_jump"); n->clock += S.ch.pick(2) ? S.ch.pick(100) : (u32)-(int)S.ch.pick(20); }
        if (n->link->dark) { if (!--n->link->dark) LOG("%s: link heals", n->nm.c_str()); }
        else if (S.ch.pick(200) == 199) { n->link->dark = 1 + S.ch.pick(25); FAULT("partition"); LOG("%s: link dark", n->nm.c_str()); }
        if (S.ch.pick(60) == 59) { FAULT("slow_node"); w->now += S.ch.pick(12); return; }
    }
    driver_rx(n);
    CALL(.ro(n->tab, sizeof(SchedulerTask_t) * n->tabn), "Scheduler_run", (n->api.L->Scheduler_run(n->tab, n->tabn), 0));
}
void node_body(Node* n, u32 ticks) {
    if (n->down) { LOG("%s: down for %u ticks", n->nm.c_str(), n->down); while (n->down) { --n->down; ++n->w->now; ++S.ticks; op_end(); } }
    if (n->restarts || S.cur->name.find('\'') != std::string::npos) boot(n);
    while (n->ticks < ticks) { tick(n); op_end(); }
}
bool finished(World* w) { for (auto& n : w->n) if (n.got.size() < n.peer->out.size() || n.acked < n.out.size()) return false; return true; }
}
// bulk fields: one node writes a blob of any size, the other (another image, perhaps another build) reads it
static void bulk(Node& a, Node& b) {
    PROBE("bulk_blob"); u32 n = S.ch.pick(2) ? 65536 + S.ch.pick(300) : 32700 + S.ch.pick(33000); bool le = S.ch.pick(2);
    u8 *src = alloc(n), *wire = alloc(n), *dst = alloc(n); fill_bytes(src, n); const Lib *A = a.api.L, *B = b.api.L;
    solo(a.nm.c_str(), [&] { CALL(.ro(src, n).rw(wire, n).lim(50000000), "Utils_serializeBlob", ((le ? A->Utils_serializeBlobLE : A->Utils_serializeBlobBE)(wire, src, n), 0)); }, &a.img);
    for (u32 i = 0; i < n; ++i) CHECK(wire[i] == src[le ? n - 1 - i : i], "frame-bytes", "%s: blob of %u bytes written %s: byte %u is wrong", a.nm.c_str(), n, le ? "reversed" : "in order", i);
    solo(b.nm.c_str(), [&] { CALL(.ro(wire, n).rw(dst, n).lim(50000000), "Utils_deserializeBlob", ((le ? B->Utils_deserializeBlobLE : B->Utils_deserializeBlobBE)(wire, dst, n), 0)); }, &b.img);
    for (u32 i = 0; i < n; ++i) CHECK(dst[i] == src[i], "field", "%s: blob of %u bytes read %s: byte %u is wrong", b.nm.c_str(), n, le ? "reversed" : "in order", i);
}
// a node that has been up for long: every primitive, again and again, against the models
static void age16(Node& q, u32 n) {
    const Profile& p = q.w->p; Node* nq = &q; u32 focus = S.ch.pick(12); Bytes pay(1 + S.ch.pick(9)); fill_bytes(pay.data(), pay.size()); std::string ts = draw_text(8); if (ts.empty()) ts = "x"; Bytes txt(ts.begin(), ts.end()); Bytes armd = MODEL.arm(pay), lt = MODEL.letters(p, txt, 1, true), ct = MODEL.crypt(p, pay, p.base, 1); std::vector<std::pair<std::string, Bytes>> ms = { { "d", armd }, { "n", MODEL.number(77) } }; Bytes obj = MODEL.object(ms); u32 cs = MODEL.crc(*p.crc, pay.data(), (u32)pay.size(), 0);
    auto same = [nq](bool ok, const char* what, u32 i) { CHECK(ok, "old-node", "%s: %s goes wrong on call number %u", nq->nm.c_str(), what, i + 1); };
    age(n, [&](u32 i) {
        Api& x = q.api; u32 h = hash(i, 3), k = focus < 11 ? focus : i % 11; u8 b[4]; u32 v; Bytes o; bool be = h & 1;
        switch (k) {
            case 0: { int w = 1 + (int)(i % 4); u32 f = h & (w == 4 ? ~0u : (1u << (8 * w)) - 1); x.put(b, f, w, be); u8 m[4]; MODEL.put(m, f, w, be); same(!memcmp(b, m, (size_t)w), "writing a field", i); same(x.get(m, w, !be) == MODEL.get(m, w, !be), "reading a field", i); break; }
            case 1: same(x.flag(h, i & 31, (int)(i % 3)) == MODEL.flag(h, i & 31, (int)(i % 3)), "editing a flag", i); same(x.has(h, i & 31) == MODEL.has(h, i & 31), "testing a flag", i); same(!x.command(h, (u8)(32 + i % 200), i % 4, v), "refusing a bit position", i); break;
            case 2: same(x.power((u8)(i % 10), v) && ({ u32 w; MODEL.power((u8)(i % 10), w); w == v; }), "a power of ten", i); same(!x.power((u8)(10 + i % 240), v), "refusing an exponent", i); break;
            case 3: same(x.mix(h, h & 31, 1 + i % 32) == MODEL.mix(h, h & 31, 1 + i % 32), "mixing bits", i); break;
            case 4: same(x.blob(pay, be, true) == MODEL.blob(pay, be, true), "writing a blob", i); same(x.blob(pay, !be, false) == MODEL.blob(pay, !be, false), "reading a blob", i); break;
            case 5: same(x.crypt(p, pay, p.base, h) == ct, "encryption", i); break;
            case 6: same(x.letters(p, txt, 1, true) == lt, "enciphering", i); same(x.letters(p, lt, 1, false) == txt, "deciphering", i); break;
            case 7: same(x.arm(pay) == armd, "armour", i); same(x.disarm(armd, o) && o == pay, "decoding", i); break;
            case 8: same(x.object(ms) == obj, "building an object", i); break;
            case 9: same(x.member(obj, "n", o) && o == ms[1].second, "look-up", i); same(!x.member(obj, "zz", o), "look-up of an absent member", i); break;
            default: same(x.parse_number(MODEL.number(h), v) && v == h, "reading a number", i); same(x.crc(*p.crc, pay.data(), (u32)pay.size(), h) == cs, "the checksum", i);
        }
    }, true, &q.img);
}
static void run_c16() {
    u32 mag = S.ch.rare(101, 5) ? 1 + S.ch.pick(3) : 0; static const u32 mp[4] = { 200, 300, 700, 2500 }; MAXPAY = mp[mag]; SLOT = MAXPAY * 3 / 2 + 180; WS = SLOT + 220; VAL = 10 + MAXPAY; if (mag) PROBE("messages_over_255_bytes");
    auto wp = std::make_unique<World>(); World* w = wp.get(); W16 = w; Profile& p = w->p;
    p.crc = &CRCS[S.ch.pick(NCRC)]; p.cipher = (int)S.ch.pick(3); p.rev = S.ch.pick(2); p.json = S.ch.pick(2); p.armour = p.json ? (p.cipher != 2 || S.ch.pick(2)) : S.ch.pick(3) == 2; p.crc_be = S.ch.pick(2); for (bool& b : p.be) b = S.ch.pick(2);
    fill_bytes(p.key, 32); fill_bytes(p.nonce, 12); p.ctr0 = S.ch.u32val(); p.shift = (u8)S.ch.pick(256); p.rot = S.ch.pick(32); w->forging = S.ch.pick(2);
    u32 nl = 1 + S.ch.pick(40); for (u32 i = 0; i < nl; ++i) p.letters += (char)((S.ch.pick(2) ? 'a' : 'A') + S.ch.pick(26));
    static const u32 bases[6] = { 0, 200, 65500, 0x7FFFF0, 0xFFFF00, 0x123456 }; p.base = bases[S.ch.pick(6)];
    bool text = p.cipher == 2;
    u32 win = 1 + S.ch.pick(6);
    for (int i = 0; i < 2; ++i) {
        Node& n = w->n[i]; n.w = w; n.id = (u32)i; n.nm = i ? "nodeB" : "nodeA"; n.peer = &w->n[1 - i]; n.link = &w->l[i]; n.win = win; image_boot(n.img); n.api.create();
        n.peer_model = S.ch.pick(6) == 5 && !(i && w->n[0].peer_model); if (n.peer_model) PROBE("independent_peer");
        n.rxq = make<Queue_t>(); n.rxs = alloc(5 * SLOT); n.txq = make<PriorityQueue_t>(); n.txs = alloc(5 * SLOT); n.txp = make_n<u32>(5); n.item = make<PriorityQueueItem_t>(); n.pv = make<u32>(); n.slot = alloc(SLOT);
        n.map = make<Map_t>(); n.mk = alloc(9 * 8); n.mv = alloc(9 * VAL); n.kcell = alloc(8); n.vcell = alloc(VAL); n.arr = alloc(4 * 8, 4); n.tab = make_n<SchedulerTask_t>(8); n.nt = make<SchedulerTask_t>();
        u32 k = S.ch.pick(8); if (i == 0) ++k;
        for (u32 j = 0; j < k; ++j) {
            Msg m; m.stamp = S.ch.u32val(); u32 len = S.ch.weighted({ 60, 30, 10 }) == 0 ? 1 + S.ch.pick(12) : 1 + S.ch.pick(S.ch.pick(3) ? (mag ? 300 : 40) : MAXPAY - 1);
            if (text) { std::string s = draw_text(len); if (s.empty()) s = "x"; m.pay.assign(s.begin(), s.end()); } else { m.pay.resize(len); fill_bytes(m.pay.data(), len); }
            n.out.push_back(m);
        }
        Link& l = w->l[i]; static const u32 in[4] = { 0, 5, 20, 45 }; l.loss = in[S.ch.pick(4)]; l.dup = in[S.ch.pick(4)]; l.delay = in[S.ch.pick(4)]; l.cut = in[S.ch.pick(4)] / 2; l.corrupt = in[S.ch.pick(4)];
    }
    draw_policy(10, false); if (S.pol.mode > 1 && S.ch.pick(3)) S.pol.mode = 1;
    S.pol.max_preempt = 120; S.pol.switch_pct = S.pol.switch_pct < 60 ? 60 : S.pol.switch_pct;
    u32 ticks = 10 + S.ch.pick(70);
    S.on_kill = [](Task* t) {
        Node* n = (Node*)t->user; if (!n || n->restarts > 5) return;
        ++n->restarts; FAULT("node_crash"); n->down = S.ch.pick(12); image_boot(n->img);
        u32 tk = 0; memcpy(&tk, &n->order_seed, 4);
        Task* s = spawn(n->nm + "'", [n, tk] { node_body(n, tk); }); s->user = n; s->img = &n->img; FAULT("node_restart");
    };
    auto as = [](Node* n, std::function<void()> f) { solo(n->nm.c_str(), [n, f] { S.cur->user = n; f(); }, &n->img); };
    for (auto& n : w->n) { n.order_seed = ticks; Node* q = &n; as(q, [q] { boot(q); }); }
    if (u32 old = aged(23, 20011)) age16(w->n[S.ch.pick(2)], old);
    for (auto& n : w->n) { Node* q = &n; Task* t = spawn(n.nm, [q, ticks] { node_body(q, ticks); }); t->user = q; t->img = &n.img; }
    run_tasks();
    // the faults stop: every node is up, the link is good
    w->calm = true; S.pol = Policy(); LOG("faults stop");
    bool any = false;
    for (auto& n : w->n) { Node* q = &n; if (n.down || n.ticks < ticks) { n.down = 0; any = true; image_boot(n.img); as(q, [q] { boot(q); }); } }
    (void)any;
    u32 left = 0; for (auto& n : w->n) left += (u32)n.out.size();
    u32 bound = 120 + 40 * left, used = 0;
    while (!finished(w) && used < bound) { for (auto& n : w->n) { Node* q = &n; as(q, [q] { tick(q); }); } ++used; }
    static int idb = stat_id("probe.ticks_to_completion_after_faults"); stat_add(idb, used);
    CHECK(finished(w), "stalled", "%u ticks after the faults stopped %zu of %zu and %zu of %zu messages are delivered, %u and %u acknowledged", used, w->n[1].got.size(), w->n[0].out.size(), w->n[0].got.size(), w->n[1].out.size(), w->n[0].acked, w->n[1].acked);
    for (auto& n : w->n) CHECK(n.got.size() == n.peer->out.size(), "delivery", "%s: %zu messages delivered, %zu submitted", n.nm.c_str(), n.got.size(), n.peer->out.size());
    if (used > bound / 3) PROBE("slow_completion");
    if (S.ch.rare(1501, 9)) for (int i = 0; i < 2; ++i) bulk(w->n[i], w->n[1 - i]);
}
void register_e2e() {
    WL.push_back({ "C16", run_c16, 200000, "one run = two nodes (each with its own library image and compiler settings, sometimes one independent implementation) running receive, delivery, timer and transmit tasks from a library task table, exchanging up to 15 messages of 1-200 bytes through library queues, priority queues, maps and sorts in frames of a drawn format (byte orders, cipher, armour, object, checksum), over links with loss, duplication, delay, cuts, corruption within the checksum's guarantee and partitions, with node crashes at drawn accesses, restarts with another build or geometry, clock jumps and slow nodes; then a fault-free phase with a bounded number of ticks; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
