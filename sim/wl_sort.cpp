// C05 concurrent, nested and abandoned sorts; C06 faulty comparison callbacks
#include "lib.h"
#include <algorithm>

namespace {
struct World;
struct Sort {
    World* w; const Lib* L; int alg; int32_t n, es; u8* a = nullptr; std::vector<u8> orig; std::vector<std::string> elems;
    u32 koff = 0, klen = 1; bool big_endian = false, down = false; u64 cmps = 0, max_cmps = 0; int mode = 0; u32 p1 = 0, p2 = 0; u32 depth = 0; std::string nm;
};
struct World { bool faulty = false; int nested = 0; u32 nest_pct = 0; bool same_alg = false; int alg0 = 0; bool yielding = true; u32 chain = 0; };
const char* ALG[4] = { "BubbleSort_sort", "SelectionSort_sort", "HeapSort_sort", "InsertionSort_sort" };

u32 key(const Sort* s, const u8* p) {
    u32 v = 0;
    for (u32 i = 0; i < s->klen; ++i) v = s->big_endian ? (v << 8) | p[s->koff + i] : v | (u32)p[s->koff + i] << (8 * i);
    return v;
}
bool greater_than(const Sort* s, const u8* a, const u8* b) { u32 x = key(s, a), y = key(s, b); return s->down ? x < y : x > y; }
void do_sort(World* w, u32 depth, const char* why, u32 large = 0);

bool compare(void* p1, void* p2) {
    if (!S.cur || S.cur->ctx.empty()) fail("stray-callback", "comparison callback invoked outside any sort");
    Sort* s = (Sort*)S.cur->ctx.back();
    const u8* pp[2] = { (const u8*)p1, (const u8*)p2 };
    if (s->w->faulty) for (int k = 0; k < 2; ++k) {
        const u8* p = pp[k];
        if (in_arena(p)) {
            long off = (long)(p - s->a);
            CHECK(off >= 0 && off + s->es <= (long)s->n * s->es, "foreign-compare", "%s: the %s argument of a comparison lies %s the array of %d elements (offset %ld, element size %d)", s->nm.c_str(), k ? "second" : "first", off < 0 ? "before" : "behind", s->n, off, s->es);
            CHECK(off % s->es == 0, "foreign-compare", "%s: comparison of something that is not an element (offset %ld, element size %d)", s->nm.c_str(), off, s->es);
        } else {
            CHECK(readable_private(p, (size_t)s->es), "foreign-compare", "%s: comparison argument outside any memory the sort owns", s->nm.c_str());
            std::string c((const char*)p, (size_t)s->es);
            CHECK(std::binary_search(s->elems.begin(), s->elems.end(), c), "foreign-compare", "%s: the sort compares a private copy %s that is none of its elements", s->nm.c_str(), hex(p, (size_t)s->es).c_str());
        }
    }
    ++s->cmps;
    CHECK(s->cmps <= s->max_cmps, "comparisons", "%s: %llu comparisons for %d elements", s->nm.c_str(), (unsigned long long)s->cmps, s->n);
    bool r = greater_than(s, pp[0], pp[1]);
    switch (s->mode) { // wrong answers
        case 0: break;
        case 1: r = true; break;
        case 2: r = false; break;
        case 3: r = S.ch.pick(2) != 0; break;
        case 4: r = !greater_than(s, pp[1], pp[0]); break;               // not strict
        case 5: if (s->cmps > s->p1) r = !r; break;                      // order reverses half way
        case 6: r = ((s->cmps * s->p2) % (s->p1 + 2)) < (s->p1 + 2) / 2; break; // periodic
        case 7: if (S.ch.pick(8) == 7) r = !r; break;                    // occasional lie
        default: { u32 x = key(s, pp[0]) % 3, y = key(s, pp[1]) % 3; r = (x + 1) % 3 == y; } // rock, paper, scissors
    }
    if (s->mode) FAULT("wrong_comparison_answer");
    if (s->w->yielding) preempt_point();
    if (s->depth < s->w->chain && s->cmps == 1) { FAULT("sort_inside_comparison"); do_sort(s->w, s->depth + 1, "deeply nested"); }
    else if (s->depth < 2 && s->w->nest_pct && S.ch.permille(s->w->nest_pct)) { FAULT("sort_inside_comparison"); do_sort(s->w, s->depth + 1, "nested"); }
    return r;
}
void prepare(Sort* s, World* w, u32 depth, u32 large) {
    s->w = w; s->depth = depth; s->L = &pick_lib();
    s->alg = w->same_alg ? w->alg0 : (int)S.ch.pick(4);
    s->n = (int32_t)(depth ? S.ch.pick(5) : S.ch.weighted({ 50, 40, 10 }) == 0 ? S.ch.pick(7) : S.ch.pick(26));
    if (depth < w->chain && s->n < 2) s->n = 2 + (int32_t)S.ch.pick(3);
    static const int32_t sizes[12] = { 1, 4, 2, 8, 3, 16, 5, 64, 63, 65, 100, 300 };
    s->es = S.ch.pick(3) ? sizes[S.ch.pick(s->alg == 3 ? 9 : 12)] : (int32_t)(1 + S.ch.pick(s->alg == 3 ? 64 : 90));
    bool passes = false;
    if (large == 3) { // any magnitude
        if (S.ch.pick(2)) { s->n = (int32_t)S.ch.logsize(20, s->alg == 2 ? 6000 : w->faulty ? 500 : 1200); s->es = 1 + (int32_t)S.ch.pick(8); PROBE("element_count_of_any_magnitude"); }
        else { s->n = 2 + (int32_t)S.ch.pick(5); s->es = (int32_t)S.ch.logsize(20, s->alg == 3 ? 64 : 70000); PROBE("element_size_of_any_magnitude"); }
    } else if (large > 1) { // beyond 16-bit element counts; the quadratic sorts get an array that is sorted but for a few elements, or are left at 2^15
        PROBE("more_than_32767_elements");
        passes = s->alg == 0 && S.ch.rare(666668 * 2, 55); // more than 32767 passes: the smallest element comes last
        s->n = (s->alg != 1 && !passes && S.ch.pick(2) ? 65536 : 32768) + (int32_t)S.ch.pick(400); s->es = 1 + (int32_t)S.ch.pick(4);
    } else if (large) {
        PROBE("large_array");
        if (S.ch.pick(2)) { s->n = 257 + (int32_t)S.ch.pick(60); s->es = 1 + (int32_t)S.ch.pick(4); }
        else { s->alg = s->alg == 3 ? 3 : 1 + (int)S.ch.pick(2); s->es = s->alg == 3 ? 60 + (int32_t)S.ch.pick(5) : 1800 + (int32_t)S.ch.pick(300); s->n = 66000 / s->es + 3; if (s->alg == 3) s->n = 150; }
    }
    size_t bytes = (size_t)s->n * (size_t)s->es;
    u8* a = tmp(bytes, depth);
    u32 distinct = S.ch.pick(4);
    u32 lim = distinct == 0 ? 256 : distinct == 1 ? 3 : distinct == 2 ? 1 : 8;
    s->klen = std::min<u32>((u32)s->es, 1 + S.ch.pick(4)); s->koff = S.ch.pick((u32)s->es - s->klen + 1); s->big_endian = S.ch.pick(2); s->down = S.ch.pick(4) == 3;
    fill_bytes(a, bytes);
    if (large == 2) {
        u32 mul = s->alg == 1 || s->alg == 2 ? 1 + 2 * S.ch.pick(30000) : 1; s->big_endian = false; s->down = false; s->koff = 0; s->klen = std::min<u32>((u32)s->es, 3);
        for (int32_t i = 0; i < s->n; ++i) { u32 v = s->klen == 1 ? (u32)i >> 9 : s->klen == 2 ? (u32)i >> 2 : (u32)i; v *= mul; for (u32 k = 0; k < s->klen; ++k) a[(size_t)i * (size_t)s->es + k] = (u8)(v >> (8 * k)); }
        if (passes) { PROBE("more_than_32767_passes"); u8* last = a + bytes - (size_t)s->es; a[s->klen - 1] |= 1; memset(last, 0, s->klen); }
        else if (mul == 1) for (u32 t = S.ch.pick(3); t; --t) { u32 i = (u32)s->n - 1 - S.ch.pick(200), j = i - S.ch.pick(40); for (int32_t k = 0; k < s->es; ++k) std::swap(a[i * (u32)s->es + (u32)k], a[j * (u32)s->es + (u32)k]); }
    } else {
    u32 pat = S.ch.pick(8), N = (u32)s->n, x = S.ch.pick(256), y = S.ch.pick(256); if (pat > 4) pat = 4 + S.ch.pick(7); else if (pat == 4) pat = 0;
    for (int32_t i = 0; i < s->n; ++i) for (u32 k = 0; k < s->klen; ++k) {
        u32 I = (u32)i, px = x % N, py = y % N; // positions
        u32 v = pat == 4 ? (I == px ? y : I) : pat == 5 ? (I + px) % N : pat == 6 ? (I == px ? y : 100) : pat == 7 ? (I < px ? I : 2 * N - I) : pat == 8 ? I ^ 1 : pat == 9 ? (I < N / 2 ? 2 * I : 2 * (I - N / 2) + 1) : pat == 10 ? (I == px ? py : I == py ? px : I) : pat == 0 ? S.ch.pick(lim) : pat == 1 ? (u32)i : pat == 2 ? (u32)(s->n - i) : (lim < 256 ? (u32)i % lim : (u32)(i * 37));
        a[(size_t)i * (size_t)s->es + s->koff + k] = (u8)v;
    }
    if (N > 1 && S.ch.pick(5) == 4) for (u32 t = 1 + S.ch.pick(3); t; --t) { // elements that differ from another one in little
        size_t i = S.ch.pick(N), j = S.ch.pick(N), e = (size_t)s->es; if (i != j) { memcpy(a + i * e, a + j * e, e); vary(a + i * e, e); }
    }
    }
    s->orig.assign(a, a + bytes);
    for (int32_t i = 0; i < s->n; ++i) s->elems.emplace_back((const char*)a + (size_t)i * (size_t)s->es, (size_t)s->es);
    std::sort(s->elems.begin(), s->elems.end());
    s->a = a;
    s->max_cmps = 4ull * (u64)s->n * (u64)s->n + 64ull * (u64)s->n + 64;
    if (w->faulty) { s->mode = (int)S.ch.pick(9); if (s->n > 60 && (s->mode == 3 || s->mode == 7)) s->mode = 6; s->p1 = S.ch.pick(20); s->p2 = 1 + S.ch.pick(13); }
}
void verify(Sort* s) {
    std::vector<std::string> now;
    for (int32_t i = 0; i < s->n; ++i) now.emplace_back((const char*)s->a + (size_t)i * (size_t)s->es, (size_t)s->es);
    if (s->mode == 0) for (int32_t i = 1; i < s->n; ++i) CHECK(!greater_than(s, s->a + (size_t)(i - 1) * (size_t)s->es, s->a + (size_t)i * (size_t)s->es), "unsorted", "%s: elements %d and %d are out of order after the sort (%d elements of %d bytes)", s->nm.c_str(), i - 1, i, s->n, s->es);
    std::sort(now.begin(), now.end());
    CHECK(now == s->elems, "lost-element", "%s: the array is not a permutation of its original elements (%d elements of %d bytes)", s->nm.c_str(), s->n, s->es);
}
void do_sort(World* w, u32 depth, const char* why, u32 large) {
    auto* s = new Sort(); std::unique_ptr<Sort> own(s);
    prepare(s, w, depth, large);
    s->nm = std::string(ALG[s->alg]) + " (" + S.cur->name + ", " + why + ", " + s->L->tag + ")";
    LOG("%s: starts on %d elements of %d bytes, comparison mode %d: %s", s->nm.c_str(), s->n, s->es, s->mode, hex(s->orig.data(), s->orig.size()).c_str());
    S.cur->ctx.push_back(s);
    size_t bytes = s->orig.size();
    auto f = s->alg == 0 ? s->L->BubbleSort_sort : s->alg == 1 ? s->L->SelectionSort_sort : s->alg == 2 ? s->L->HeapSort_sort : s->L->InsertionSort_sort;
    CALL(.rw(s->a, bytes).lim(s->n > 30000 ? (s->alg < 2 ? 30000000000ull : 1000000000ull) : 100000000ull), ALG[s->alg], f(s->a, s->n, s->es, compare));
    S.cur->ctx.pop_back();
    LOG("%s: ends: %s", s->nm.c_str(), hex(s->a, bytes).c_str());
    dig_bytes(s->a, bytes);
    verify(s);
    if (s->n <= 1) PROBE("sort_of_at_most_one");
}
void age_sorts(World* w, u32 n) {
    auto own = std::make_unique<Sort>(); Sort* s = own.get(); u32 which = S.ch.pick(5); bool y = w->yielding; w->yielding = false;
    w->same_alg = true; w->alg0 = 3; u32 np = w->nest_pct; w->nest_pct = 0; prepare(s, w, 1, 0); if (s->mode == 3 || s->mode == 7) s->mode = 6;
    size_t bytes = s->orig.size();
    age(n, [&](u32 i) {
        s->alg = (int)(which < 4 ? which : i % 4); s->cmps = 0; if (bytes) memcpy(s->a, s->orig.data(), bytes);
        s->nm = std::string(ALG[s->alg]) + " (call number " + std::to_string(i + 1) + ", " + s->L->tag + ")"; S.cur->ctx.push_back(s);
        auto f = s->alg == 0 ? s->L->BubbleSort_sort : s->alg == 1 ? s->L->SelectionSort_sort : s->alg == 2 ? s->L->HeapSort_sort : s->L->InsertionSort_sort;
        CALL(.rw(s->a, bytes), ALG[s->alg], f(s->a, s->n, s->es, compare));
        S.cur->ctx.pop_back(); verify(s);
    }, true);
    w->yielding = y; w->nest_pct = np;
}
void run_sorts(bool faulty) {
    auto w = std::make_unique<World>(); w->faulty = faulty;
    u32 large = S.ch.pick(1500) == 1499 ? 1 : S.ch.rare(1501, 5) ? 3 : 0; int lalg = -1;
    if (!faulty) for (int a = 0; a < 4; ++a) if (S.ch.rare(666668, 55 + 166667 * (u64)a)) { large = 2; lalg = a; cpu_limit(800); } // every algorithm gets its turn
    static const u32 np[4] = { 0, 4, 20, 80 };
    if (u32 n = aged(faulty ? 301 : 302)) age_sorts(w.get(), n);
    bool chain = S.ch.rare(503, 77);
    w->nest_pct = np[S.ch.pick(4)]; w->same_alg = S.ch.pick(2); w->alg0 = (int)S.ch.pick(4);
    if (faulty && S.ch.pick(2)) w->nest_pct = 0;
    u32 k = large ? 1 : crowd(1 + S.ch.pick(4), 110);
    draw_policy(S.ch.pick(3) == 2 ? 12 : 0);
    u32 each = 1 + S.ch.pick(3);
    if (large == 2) { k = 1; w->yielding = false; w->same_alg = true; w->alg0 = lalg; }
    if (large) { k = large == 2 ? 1 : 1 + S.ch.pick(2); each = 1; w->nest_pct = 0; S.pol.kill_pm = 0; S.pol.max_preempt = 60; }
    World* wp = w.get();
    for (u32 i = 0; i < k; ++i) spawn("sorter" + std::to_string(i), [wp, each, large, i] { for (u32 j = 0; j < each; ++j) { do_sort(wp, 0, "outer", i == 0 ? large : 0); op_end(); } });
    run_tasks();
    w->nest_pct = 0;
    if (chain) { // every sort's first comparison sorts as well
        PROBE("deep_nesting"); w->chain = S.ch.pick(S.ch.pick(2) ? 60 : 100); w->same_alg = S.ch.pick(2); solo("chain", [&] { do_sort(wp, 0, "outermost"); }); w->chain = 0;
    }
    u32 fin = S.ch.pick(3);
    for (u32 i = 0; i < fin; ++i) solo("afterwards", [&] { do_sort(wp, 1, "afterwards"); });
}
}
static void run_c05() { run_sorts(false); }
static void run_c06() { run_sorts(true); }
void register_sort() {
    WL.push_back({ "C05", run_c05, 1500000, "one run = 1-4 tasks (rarely up to 80) each sorting 1-3 own arrays (0-25 elements, rarely any magnitude, >64 KiB or >32767 elements for each algorithm; 1-300 byte elements; any algorithm, both builds), preempted at drawn accesses and comparisons, nested from comparison callbacks (rarely 60-100 deep), abandoned by crashes, rarely after thousands of earlier calls; each finished array must be an ordered permutation of its original bytes; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C06", run_c06, 1300000, "as C05 with comparison callbacks that lie (always true/false, random, non-strict, reversing, periodic, occasional lies, cyclic); every pointer handed to a callback must be an element of the array or a private copy of one, comparisons bounded by 4n^2+64n+64, result a permutation; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
