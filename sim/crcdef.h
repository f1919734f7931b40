// Checksum definitions used by several workloads.
#pragma once
#include "model.h"
#include <cstdio>
// a checksum definition: one of the offered variants or a generic engine with a generated table
struct Def {
    const CrcVar* v = nullptr; int width = 8; u32 poly = 7, init = 0, xo = 0; bool rin = false, rout = false, seal_le = false;
    u8* table = nullptr; std::string nm;
    u32 mask() const { return width == 32 ? 0xFFFFFFFFu : (1u << width) - 1; }
    u32 oracle(const u8* d, size_t n) const {
        if (v) return model::crc(*v, d, n);
        u32 r = model::crc_reg(width, poly, init, rin, d, n); if (rout) r = model::reflect(r, width);
        return (r ^ xo) & mask();
    }
    u32 linear(const u8* d, size_t n) const { // what a change of these last bytes changes in the checksum
        if (v) return model::crc(v->width, v->poly, 0, v->refl, 0, d, n);
        u32 r = model::crc_reg(width, poly, 0, rin, d, n); return rout ? model::reflect(r, width) : r;
    }
    u32 extreme() const { // values an implementation might take for something else
        u32 x = v ? v->xorout : xo, i = v ? v->init : init, m = mask();
        u32 t[] = { 0, m, x, x ^ m, i, i ^ x, 1, 1u << (width - 1), x ^ 1 };
        return t[S.ch.pick(9)] & m;
    }
    // choose the last width/8 bytes of a message so that its checksum takes a given value
    bool force(u8* d, size_t n, u32 target) const {
        size_t w = (size_t)width / 8; if (n < w) return false;
        u8* e = d + n - w; memset(e, 0, w);
        u32 want = oracle(d, n) ^ target, col[32], comb[32]; int rows = 0; u32 x = 0;
        for (int i = 0; i < width; ++i) {
            u8 b[4] = { 0, 0, 0, 0 }; b[i / 8] = (u8)(1 << (i % 8)); u32 c = linear(b, w), k = 1u << i;
            for (int j = 0; j < rows; ++j) if ((c ^ col[j]) < c) { c ^= col[j]; k ^= comb[j]; }
            if (!c) continue;
            int at = rows++; while (at > 0 && col[at - 1] < c) { col[at] = col[at - 1]; comb[at] = comb[at - 1]; --at; }
            col[at] = c; comb[at] = k;
        }
        for (int j = 0; j < rows; ++j) if ((want ^ col[j]) < want) { want ^= col[j]; x ^= comb[j]; }
        for (size_t i = 0; i < w; ++i) e[i] = (u8)(x >> (8 * i));
        return want == 0;
    }
};
inline void make_def(Def& d, bool generic) {
    if (!generic) { d.v = &CRCS[S.ch.pick(NCRC)]; d.width = d.v->width; d.seal_le = d.v->refl; d.nm = d.v->name; return; }
    d.width = 8 << S.ch.pick(3); u32 m = d.mask();
    d.poly = S.ch.pick(3) ? (S.ch.u32val() & m) : (CRCS[S.ch.pick(NCRC)].poly & m);
    d.init = S.ch.u32val() & m; d.xo = S.ch.u32val() & m; d.rin = S.ch.pick(2); d.rout = S.ch.pick(2);
    d.table = alloc(256 * (size_t)d.width / 8, (u32)d.width / 8);
    char b[96]; snprintf(b, sizeof b, "Crc%dBase(poly=%x init=%x xor=%x rin=%d rout=%d)", d.width, d.poly, d.init, d.xo, d.rin, d.rout); d.nm = b;
}
inline void make_table(Def& d) {
    if (d.v) return;
    const Lib& L = pick_lib(); size_t n = 256 * (size_t)d.width / 8;
    if (d.width == 8) CALL(.rw(d.table, n), "Crc8Base_tableCalculator", (L.Crc8Base_tableCalculator((u8)d.poly, d.table), 0));
    else if (d.width == 16) CALL(.rw(d.table, n), "Crc16Base_tableCalculator", (L.Crc16Base_tableCalculator((u16)d.poly, (u16*)d.table), 0));
    else CALL(.rw(d.table, n), "Crc32Base_tableCalculator", (L.Crc32Base_tableCalculator(d.poly, (u32*)d.table), 0));
    dig_bytes(d.table, n);
}
// one library call on one piece; "last" lives in its own read-only cell
inline u32 piece(const Lib& L, const Def& d, const u8* p, u32 n, bool first, u32 saved, bool fin) {
    size_t w = (size_t)d.width / 8; u8* cell = tmp(w, 1, 4); if (S.reuse) p = tmp_bytes(p, n, 2); // every piece arrives in the same receive buffer
    if (w == 1) *cell = (u8)saved; else if (w == 2) { u16 x = (u16)saved; memcpy(cell, &x, 2); } else memcpy(cell, &saved, 4);
    u32 r; u64 lim = 50000 + 5000ull * n;
    if (d.v) {
        if (first) r = CALL(.ro(p, n).lim(lim), d.v->name, d.v->call(L, p, n, fin, nullptr));
        else { r = CALL(.ro(p, n).ro(cell, w).lim(lim), d.v->name, d.v->call(L, p, n, fin, cell)); }
    } else {
        u32 init = first ? d.init : saved; size_t tn = 256 * w; bool ro = fin && d.rout;
        if (w == 1) r = CALL(.ro(p, n).ro(d.table, tn).lim(lim), "Crc8Base", L.Crc8Base(d.table, p, n, (u8)init, (u8)d.xo, ro, d.rin, fin));
        else if (w == 2) r = CALL(.ro(p, n).ro(d.table, tn).lim(lim), "Crc16Base", L.Crc16Base((u16*)d.table, p, n, (u16)init, (u16)d.xo, ro, d.rin, fin));
        else r = CALL(.ro(p, n).ro(d.table, tn).lim(lim), "Crc32Base", L.Crc32Base((u32*)d.table, p, n, init, d.xo, ro, d.rin, fin));
    }
    return r;
}
