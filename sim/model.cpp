#include "model.h"
#include <cstdio>
#include <cstdlib>
namespace model {
u32 reflect(u32 v, int bits) { u32 r = 0; for (int i = 0; i < bits; ++i) if (v >> i & 1) r |= 1u << (bits - 1 - i); return r; }
u32 crc_reg(int w, u32 poly, u32 reg, bool refl_in, const u8* d, size_t n) {
    const u64 top = 1ull << (w - 1), mask = (top << 1) - 1; u64 r = reg & mask;
    for (size_t i = 0; i < n; ++i) for (int b = 0; b < 8; ++b) {
        int bit = refl_in ? (d[i] >> b) & 1 : (d[i] >> (7 - b)) & 1;
        bool hi = ((r & top) != 0) != (bit != 0);
        r = (r << 1) & mask; if (hi) r ^= poly;
    }
    return (u32)r;
}
u32 crc(int w, u32 poly, u32 init, bool refl, u32 xorout, const u8* d, size_t n) {
    u32 r = crc_reg(w, poly, init, refl, d, n);
    if (refl) r = reflect(r, w);
    u32 mask = w == 32 ? 0xFFFFFFFFu : (1u << w) - 1;
    return (r ^ xorout) & mask;
}
static u32 rl(u32 v, int n) { return (v << n) | (v >> (32 - n)); }
std::vector<u8> chacha(const u8 key[32], const u8 nonce[12], u32 counter, const u8* d, size_t n) {
    std::vector<u8> out(n);
    auto le = [](const u8* p) { return (u32)p[0] | (u32)p[1] << 8 | (u32)p[2] << 16 | (u32)p[3] << 24; };
    for (size_t off = 0; off < n; off += 64, ++counter) {
        u32 in[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 }, x[16];
        for (int i = 0; i < 8; ++i) in[4 + i] = le(key + 4 * i);
        in[12] = counter; for (int i = 0; i < 3; ++i) in[13 + i] = le(nonce + 4 * i);
        memcpy(x, in, sizeof x);
        auto qr = [&](int a, int b, int c, int e) { x[a] += x[b]; x[e] = rl(x[e] ^ x[a], 16); x[c] += x[e]; x[b] = rl(x[b] ^ x[c], 12); x[a] += x[b]; x[e] = rl(x[e] ^ x[a], 8); x[c] += x[e]; x[b] = rl(x[b] ^ x[c], 7); };
        for (int r = 0; r < 10; ++r) { for (int i = 0; i < 4; ++i) qr(i, 4 + i, 8 + i, 12 + i); for (int i = 0; i < 4; ++i) qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
        for (size_t i = 0; i < 64 && off + i < n; ++i) out[off + i] = d[off + i] ^ (u8)((x[i / 4] + in[i / 4]) >> (8 * (i % 4)));
    }
    return out;
}
static const char* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string b64(const u8* d, size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i += 3) {
        u32 v = (u32)d[i] << 16 | (i + 1 < n ? (u32)d[i + 1] << 8 : 0) | (i + 2 < n ? (u32)d[i + 2] : 0);
        s += AL[v >> 18]; s += AL[v >> 12 & 63]; s += i + 1 < n ? AL[v >> 6 & 63] : '='; s += i + 2 < n ? AL[v & 63] : '=';
    }
    return s;
}
bool b64_dec(const std::string& t, std::vector<u8>& out) {
    out.clear(); if (t.size() % 4) return false;
    for (size_t i = 0; i < t.size(); i += 4) {
        u32 v = 0; int pad = 0;
        for (int k = 0; k < 4; ++k) {
            char c = t[i + (size_t)k]; const char* p = c ? strchr(AL, c) : nullptr;
            if (c == '=' && i + 4 == t.size() && k >= 2) { ++pad; v <<= 6; continue; }
            if (!p || pad) return false;
            v = v << 6 | (u32)(p - AL);
        }
        out.push_back((u8)(v >> 16)); if (pad < 2) out.push_back((u8)(v >> 8)); if (pad < 1) out.push_back((u8)v);
    }
    return true;
}
std::string caesar(const std::string& m, int shift) {
    std::string r = m;
    for (char& c : r) { if (c >= 'a' && c <= 'z') c = (char)('a' + ((c - 'a' + shift) % 26 + 26) % 26); else if (c >= 'A' && c <= 'Z') c = (char)('A' + ((c - 'A' + shift) % 26 + 26) % 26); }
    return r;
}
std::string vernam(const std::string& m, const std::string& k) {
    std::string r = m;
    for (size_t i = 0; i < r.size(); ++i) { int s = k[i] >= 'a' && k[i] <= 'z' ? k[i] - 'a' : k[i] - 'A'; r[i] = caesar(std::string(1, r[i]), s)[0]; }
    return r;
}
bool str_u32(const std::string& s, u32& v) {
    if (s.empty() || s.size() > 10) return false;
    u64 x = 0; for (char c : s) { if (c < '0' || c > '9') return false; x = x * 10 + (u64)(c - '0'); }
    if (x > 0xFFFFFFFFull) return false;
    v = (u32)x; return true;
}
// Recursive-descent reader of a flat object, stopping where the text ends.
Found json_find(const std::string& t, const std::string& key) {
    Found f; size_t i = 0;
    auto ws = [&] { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) ++i; };
    auto str = [&](std::string& out) { if (i >= t.size() || t[i] != '"') return false; size_t e = i + 1; while (e < t.size() && t[e] != '"') e += t[e] == '\\' ? 2 : 1; if (e >= t.size()) return false; out = t.substr(i + 1, e - i - 1); i = e + 1; return true; };
    ws(); if (i >= t.size() || t[i] != '{') return f; ++i;
    for (;;) {
        ws(); std::string k, v;
        if (!str(k)) return f;
        ws(); if (i >= t.size() || t[i] != ':') return f; ++i; ws();
        if (i >= t.size()) return f;
        if (t[i] == '"') { if (!str(v)) return f; if (k == key) { f.ok = true; f.value = v; return f; } }
        else if (t[i] == '{' || t[i] == '[') { // a nested value: skipped as a whole
            u32 d = 0;
            do {
                if (i >= t.size()) return f;
                if (t[i] == '"') { if (!str(v)) return f; continue; }
                if (t[i] == '{' || t[i] == '[') ++d; else if (t[i] == '}' || t[i] == ']') --d;
                ++i;
            } while (d);
            if (k == key) return f;
        }
        else { while (i < t.size() && t[i] != ',' && t[i] != '}') ++i; if (k == key) return f; }
        ws(); if (i >= t.size() || t[i] != ',') return f; ++i;
    }
}
void self_test() {
    auto die = [](const char* w) { fprintf(stderr, "model self-test failed: %s\n", w); exit(4); };
    for (auto& v : CRCS) if (crc(v, (const u8*)"123456789", 9) != v.check) die(v.name);
    u8 key[32], nonce[12] = { 0, 0, 0, 9, 0, 0, 0, 0x4a }, z[64] = {};
    for (int i = 0; i < 32; ++i) key[i] = (u8)i;
    static const u8 ks[16] = { 0x10, 0xf1, 0xe7, 0xe4, 0xd1, 0x3b, 0x59, 0x15, 0x50, 0x0f, 0xdd, 0x1f, 0xa3, 0x20, 0x71, 0xc4 };
    nonce[7] = 0x4a; nonce[3] = 9;
    auto o = chacha(key, nonce, 1, z, 64);
    if (memcmp(o.data(), ks, 16)) die("chacha20 RFC 8439 2.3.2");
    if (b64((const u8*)"foobar", 6) != "Zm9vYmFy" || b64((const u8*)"foob", 4) != "Zm9vYg==" || b64((const u8*)"fooba", 5) != "Zm9vYmE=") die("base64 RFC 4648");
    std::vector<u8> d; if (!b64_dec("Zm9vYg==", d) || d.size() != 4) die("base64 decode");
    if (vernam("ATTACKATDAWN", "LEMONLEMONLE") != "LXFOPVEFRNHR") die("key-letter cipher");
    if (caesar("xyz", 3) != "abc") die("shift cipher");
    if (json_find("{\"a\":\"b\", \"b\" : \"c\"}", "b").value != "c" || json_find("{\"a\":\"b", "a").ok || json_find("{\"a\":[\"]\",{\"x\":{}}] ,\"b\":\"c\"}", "b").value != "c") die("json");
}
}
