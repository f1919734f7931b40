// C14 calls on separate data never influence each other; C18 concurrent readers of shared objects; C22 fixed resources
#include "crcdef.h"
#include "objects.h"
#include <algorithm>
#include "engine.h"
#include <cstring>

static std::string nm(const char* p, u32 i) { return p + std::to_string(i); }
// ------------------------------------------------------------------- C14
// A program is a fixed sequence of calls on its own memory.  Its expected
// results come from executing it alone on a freshly loaded library image; the
// same program is then executed while others run, are preempted inside it, or
// are abandoned, and once more afterwards.
namespace {
typedef std::vector<u8> Res;
struct Step { std::string what; std::function<void(Res&)> f; };
struct Prog {
    const Lib* L; std::string nm; struct B { u8* p; size_t n; Res init; bool input; }; std::vector<B> bufs; std::vector<Step> steps; std::vector<Res> want; bool dead = false; u32 stepno = 0;
    std::vector<std::shared_ptr<void>> keep; u32 es = 1; int cmpmode = 0; std::vector<int> fired;
    u8* buf(size_t n, bool input, u32 align = 1) { u8* p = alloc(n, align); if (input) fill_bytes(p, n); bufs.push_back({ p, n, {}, input }); return p; }
    u8* cell(const void* c, size_t n, u32 align = 1) { u8* p = alloc(n, align); if (n) memcpy(p, c, n); bufs.push_back({ p, n, {}, true }); return p; }
    void snapshot() { for (auto& b : bufs) b.init.assign(b.p, b.p + b.n); }
    void restore() { for (auto& b : bufs) { if (b.n) memcpy(b.p, b.init.data(), b.n); } }
};
void put(Res& r, u64 v) { for (int i = 0; i < 8; ++i) r.push_back((u8)(v >> (8 * i))); }
void put(Res& r, const void* p, size_t n) { r.insert(r.end(), (const u8*)p, (const u8*)p + n); }
Prog* cur_prog() { if (!S.cur || S.cur->ctx.empty()) fail("stray-callback", "callback invoked outside any call that takes one"); return (Prog*)S.cur->ctx.back(); }
bool iso_cmp(void* a, void* b) { Prog* p = cur_prog(); preempt_point(); int c = memcmp(a, b, p->es); return p->cmpmode ? c < 0 : c > 0; }
template <int N> void iso_fn() { cur_prog()->fired.push_back(N); preempt_point(); }
typedef void (*F)(void);
const F iso_fns[8] = { iso_fn<0>, iso_fn<1>, iso_fn<2>, iso_fn<3>, iso_fn<4>, iso_fn<5>, iso_fn<6>, iso_fn<7> };

#define STEP(name, ...) p->steps.push_back({ name, [=](Res& r) { (void)r; __VA_ARGS__; } })
const u32 KINDS = 14, KINDS_C22 = 17;
void make_prog(Prog* p, u32 kind, u32 scale = 0) {
    const Lib* L = p->L = &pick_lib(); u32 g = scale ? scale : S.ch.pick(50) == 49 ? 2u << S.ch.pick(5) : 1; if (g > 1) PROBE("large_data"); // scale of the data
    const u32 mo = scale ? scale : 1; // scale of the history
    switch (kind) {
        case 0: {
            u32 cap = 1 + S.ch.pick(4 * g), es = draw_es(); auto* q = (Queue_t*)p->buf(sizeof(Queue_t), false, alignof(Queue_t)); u8* st = p->buf(cap * es, false); u8* out = p->buf(es, false);
            STEP("Queue_init", put(r, CALL(.rw(q, sizeof *q).rw(st, cap * es), "Queue_init", L->Queue_init(q, cap, es, st))));
            u32 n = 2 + S.ch.pick(8 * mo);
            for (u32 i = 0; i < n; ++i) switch (S.ch.weighted({ 50, 25, 10, 15 })) {
                case 0: { u8* e = p->buf(es, true); STEP("Queue_enqueue", put(r, CALL(.rw(q, sizeof *q).rw(st, cap * es).ro(e, es), "Queue_enqueue", L->Queue_enqueue(q, e)))); break; }
                case 1: STEP("Queue_dequeue", put(r, CALL(.rw(q, sizeof *q).rw(st, cap * es).rw(out, es), "Queue_dequeue", L->Queue_dequeue(q, out))); put(r, out, es)); break;
                case 2: STEP("Queue_rear", put(r, CALL(.ro(q, sizeof *q).ro(st, cap * es).rw(out, es), "Queue_rear", L->Queue_rear(q, out))); put(r, out, es)); break;
                default: STEP("Queue_front", put(r, CALL(.ro(q, sizeof *q).ro(st, cap * es).rw(out, es), "Queue_front", L->Queue_front(q, out))); put(r, out, es));
            }
            STEP("Queue_full", put(r, CALL(.ro(q, sizeof *q).ro(st, cap * es), "Queue_full", L->Queue_full(q)))); STEP("Queue_empty", put(r, CALL(.ro(q, sizeof *q).ro(st, cap * es), "Queue_empty", L->Queue_empty(q))));
            break; }
        case 1: {
            u32 cap = 1 + S.ch.pick(4 * g), es = draw_es(); auto* q = (PriorityQueue_t*)p->buf(sizeof(PriorityQueue_t), false, alignof(PriorityQueue_t)); u8* st = p->buf(cap * es, false); u32* pr = (u32*)p->buf(cap * 4, false, 4); u8* out = p->buf(es, false);
            PriorityQueueItem_t items; items.priority = pr; items.element = st; auto* im = (PriorityQueueItem_t*)p->cell(&items, sizeof items, alignof(PriorityQueueItem_t));
            STEP("PriorityQueue_init", put(r, CALL(.rw(q, sizeof *q).rw(st, cap * es).rw(pr, cap * 4).ro(im, sizeof *im), "PriorityQueue_init", L->PriorityQueue_init(q, cap, es, im))));
            u32 n = 2 + S.ch.pick(8 * mo);
            for (u32 i = 0; i < n; ++i) if (S.ch.pick(3) != 2) {
                u8* e = p->buf(es, true); u32 v = S.ch.pick(4); u32* pv = (u32*)p->cell(&v, 4, 4); PriorityQueueItem_t it; it.priority = pv; it.element = e; auto* ip = (PriorityQueueItem_t*)p->cell(&it, sizeof it, alignof(PriorityQueueItem_t));
                STEP("PriorityQueue_enqueue", put(r, CALL(.rw(q, sizeof *q).rw(st, cap * es).rw(pr, cap * 4).ro(ip, sizeof *ip).ro(pv, 4).ro(e, es), "PriorityQueue_enqueue", L->PriorityQueue_enqueue(q, ip))));
            } else STEP("PriorityQueue_dequeue", put(r, CALL(.rw(q, sizeof *q).rw(st, cap * es).rw(pr, cap * 4).rw(out, es), "PriorityQueue_dequeue", L->PriorityQueue_dequeue(q, out))); put(r, out, es));
            STEP("PriorityQueue_empty", put(r, CALL(.ro(q, sizeof *q).ro(st, cap * es).ro(pr, cap * 4), "PriorityQueue_empty", L->PriorityQueue_empty(q))));
            break; }
        case 2: {
            int32_t cap = (int32_t)(1 + S.ch.pick(4 * g)), ks = (int32_t)draw_es(), vs = (int32_t)draw_es(); size_t kn = (size_t)(cap * ks), vn = (size_t)(cap * vs);
            auto* m = (Map_t*)p->buf(sizeof(Map_t), false, alignof(Map_t)); u8 *kb = p->buf(kn, false), *vb = p->buf(vn, false), *out = p->buf((size_t)vs, false);
            STEP("Map_init", put(r, CALL(.rw(m, sizeof *m).rw(kb, kn).rw(vb, vn), "Map_init", L->Map_init(m, kb, vb, ks, vs, cap))));
            u32 nk = 1 + S.ch.pick(5 * mo); std::vector<u8*> keys; for (u32 i = 0; i < nk; ++i) { u8* k = p->buf((size_t)ks, true); k[ks - 1] = (u8)i; keys.push_back(k); }
            u32 n = 2 + S.ch.pick(8 * mo);
            for (u32 i = 0; i < n; ++i) { u8* k = keys[S.ch.pick(nk)];
                if (S.ch.pick(2)) { u8* v = p->buf((size_t)vs, true); STEP("Map_insert", put(r, CALL(.rw(m, sizeof *m).rw(kb, kn).rw(vb, vn).ro(k, (size_t)ks).ro(v, (size_t)vs), "Map_insert", L->Map_insert(m, k, v)))); }
                else STEP("Map_getValue", put(r, CALL(.ro(m, sizeof *m).ro(kb, kn).ro(vb, vn).ro(k, (size_t)ks).rw(out, (size_t)vs), "Map_getValue", L->Map_getValue(m, k, out))); put(r, out, (size_t)vs)); }
            break; }
        case 3: {
            p->es = 1 + S.ch.pick(S.ch.pick(3) ? 8 : 64); u32 n = S.ch.pick(9), alg = S.ch.pick(4); if (g > 1) { if (S.ch.pick(2) && alg != 3) p->es = 1 + S.ch.pick(64 * g); else n = S.ch.pick(5 * g); } u32 es = p->es; p->cmpmode = (int)S.ch.pick(2); u8* a = p->buf(n * es, true);
            for (u32 i = 0; i < n; ++i) a[i * es] = (u8)S.ch.pick(5);
            STEP("sort", S.cur->ctx.push_back(p); auto f = alg == 0 ? L->BubbleSort_sort : alg == 1 ? L->SelectionSort_sort : alg == 2 ? L->HeapSort_sort : L->InsertionSort_sort;
                static const char* const SN[4] = { "BubbleSort_sort", "SelectionSort_sort", "HeapSort_sort", "InsertionSort_sort" }; CALL(.rw(a, n * es).lim(100000000), SN[alg], (f(a, (int32_t)n, (int32_t)es, iso_cmp), 0)); S.cur->ctx.pop_back(); put(r, a, n * es));
            break; }
        case 4: {
            auto d = std::make_shared<Def>(); make_def(*d, false); p->keep.push_back(d); u32 n = S.ch.pick(40 * g), cut = S.ch.pick(n + 1); u8* m = p->buf(n, true);
            STEP(d->nm, put(r, piece(*L, *d, m, n, true, 0, true)));
            STEP(d->nm, u32 a = piece(*L, *d, m, cut, true, 0, false); put(r, a); put(r, piece(*L, *d, m + cut, n - cut, false, a, true)));
            break; }
        case 5: {
            auto d = std::make_shared<Def>(); make_def(*d, true); p->keep.push_back(d); p->bufs.push_back({ d->table, 256 * (size_t)d->width / 8, {}, false }); u32 n = S.ch.pick(40 * g); u8* m = p->buf(n, true); size_t tn = 256 * (size_t)d->width / 8;
            STEP("table calculator",
                if (d->width == 8) CALL(.rw(d->table, tn), "Crc8Base_tableCalculator", (L->Crc8Base_tableCalculator((u8)d->poly, d->table), 0));
                else if (d->width == 16) CALL(.rw(d->table, tn), "Crc16Base_tableCalculator", (L->Crc16Base_tableCalculator((u16)d->poly, (u16*)d->table), 0));
                else CALL(.rw(d->table, tn), "Crc32Base_tableCalculator", (L->Crc32Base_tableCalculator(d->poly, (u32*)d->table), 0));
                put(r, d->table, tn));
            STEP(d->nm, put(r, piece(*L, *d, m, n, true, 0, true)));
            break; }
        case 6: {
            u32 n = S.ch.pick(4) ? S.ch.pick(70) : S.ch.pick(200 * g), ctr = S.ch.u32val(); u8 *k = p->buf(32, true), *no = p->buf(12, true), *in = p->buf(n, true), *out = p->buf(n, false);
            STEP("Chacha20_crypt", CALL(.ro(in, n).rw(out, n).ro(k, 32).ro(no, 12), "Chacha20_crypt", (L->Chacha20_crypt(in, n, k, no, ctr, out), 0)); put(r, out, n));
            STEP("Chacha20_crypt", CALL(.rw(out, n).ro(k, 32).ro(no, 12), "Chacha20_crypt", (L->Chacha20_crypt(out, n, k, no, ctr + 1, out), 0)); put(r, out, n));
            break; }
        case 7: {
            u32 n = 1 + S.ch.pick(20 * g), room = 12 + 20 * g * 2; u8* in = p->buf(n, true); char* t = (char*)p->buf(room, false); u8* o = p->buf(room, false); std::string want = model::b64(in, n); u32 tl = (u32)want.size(), rm = S.ch.pick(room + 1);
            STEP("Base64_encode", put(r, (u64)CALL(.ro(in, n).rw(t, room), "Base64_encode", L->Base64_encode((char*)in, n, t, room))); put(r, t, tl + 1 < room ? tl + 1 : room));
            STEP("Base64_decode", if (tl <= room) { put(r, (u64)CALL(.ro(t, tl).rw(o, n), "Base64_decode", L->Base64_decode(t, tl, o, n))); put(r, o, n); });
            STEP("Base64_encode", put(r, (u64)CALL(.ro(in, n).rw(t, rm), "Base64_encode", L->Base64_encode((char*)in, n, t, rm))));
            break; }
        case 8: {
            u32 room = 2 + S.ch.pick(60 * g), orm = 24 * g; char* b = (char*)p->buf(room, false); char* out = (char*)p->buf(orm, false); u32 n = 1 + S.ch.pick(4 * mo); std::vector<char*> keys;
            STEP("Json_startString", put(r, CALL(.rw(b, room), "Json_startString", L->Json_startString(b, room))); put(r, b, strnlen(b, room)));
            for (u32 i = 0; i < n; ++i) {
                std::string ks = draw_text(5 * g), vs = draw_text(10 * g); char* k = (char*)p->cell(ks.c_str(), ks.size() + 1); char* v = (char*)p->cell(vs.c_str(), vs.size() + 1); size_t kl = ks.size() + 1, vl = vs.size() + 1; keys.push_back(k);
                STEP("Json_addData", put(r, CALL(.rw(b, room).ro(k, kl).ro(v, vl), "Json_addData", L->Json_addData(b, room, k, v))); put(r, b, strnlen(b, room)));
            }
            STEP("Json_endString", put(r, CALL(.rw(b, room), "Json_endString", L->Json_endString(b, room))); put(r, b, strnlen(b, room)));
            for (char* k : keys) STEP("Json_findByKey", bool ok = CALL(.ro(b, room).ro(k, strlen(k) + 1).rw(out, orm), "Json_findByKey", L->Json_findByKey(b, room, k, out, orm)); put(r, ok); if (ok) put(r, out, strnlen(out, orm)));
            break; }
        case 9: {
            std::string ms = draw_text(20 * g), ks = std::string(ms.size() + (S.ch.pick(5) == 4), 'A'); for (char& c : ks) c = (char)((S.ch.pick(2) ? 'a' : 'A') + S.ch.pick(26)); u32 sh = S.ch.pick(256); size_t n = ms.size() + 1, kl = ks.size() + 1;
            char* m = (char*)p->cell(ms.c_str(), n); char* k = (char*)p->cell(ks.c_str(), kl); int32_t kn = (int32_t)ks.size();
            STEP("CaesarCipher_encrypt", CALL(.rw(m, n), "CaesarCipher_encrypt", (L->CaesarCipher_encrypt(m, (u8)sh), 0)); put(r, m, n));
            STEP("VernamCipher_encrypt", put(r, CALL(.rw(m, n).ro(k, kl), "VernamCipher_encrypt", L->VernamCipher_encrypt(m, k, kn))); put(r, m, n));
            STEP("VernamCipher_decrypt", put(r, CALL(.rw(m, n).ro(k, kl), "VernamCipher_decrypt", L->VernamCipher_decrypt(m, k, kn))); put(r, m, n));
            STEP("CaesarCipher_decrypt", CALL(.rw(m, n), "CaesarCipher_decrypt", (L->CaesarCipher_decrypt(m, (u8)sh), 0)); put(r, m, n));
            break; }
        case 10: {
            u32 n = 1 + S.ch.pick(5 * g), adds = S.ch.pick(7 * g), passes = 1 + S.ch.pick(3); size_t tn = sizeof(SchedulerTask_t) * n; auto* t = (SchedulerTask_t*)p->buf(tn, false, alignof(SchedulerTask_t)); memset((void*)t, 0, tn);
            STEP("Scheduler_init", CALL(.rw(t, tn), "Scheduler_init", (L->Scheduler_init(t, n), 0)); for (u32 i = 0; i < n; ++i) put(r, t[i].function == nullptr));
            for (u32 i = 0; i < adds; ++i) { SchedulerTask_t x; memset((void*)&x, 0, sizeof x); x.function = iso_fns[S.ch.pick(8)]; x.active = S.ch.pick(4) != 3; auto* xp = (SchedulerTask_t*)p->cell(&x, sizeof x, alignof(SchedulerTask_t));
                STEP("Scheduler_addTask", put(r, CALL(.rw(t, tn).ro(xp, sizeof *xp), "Scheduler_addTask", L->Scheduler_addTask(t, n, xp)))); }
            for (u32 i = 0; i < passes; ++i) STEP("Scheduler_run", S.cur->ctx.push_back(p); p->fired.clear(); CALL(.ro(t, tn), "Scheduler_run", (L->Scheduler_run(t, n), 0)); S.cur->ctx.pop_back(); for (int f : p->fired) put(r, (u64)f));
            break; }
        case 11: {
            std::string s; u32 n = S.ch.pick(13); for (u32 i = 0; i < n; ++i) s += S.ch.pick(12) == 11 ? (char)S.ch.pick(256) : (char)('0' + S.ch.pick(10)); char* t = (char*)p->cell(s.data(), n); u32* o = (u32*)p->buf(4, false, 4); u32* o2 = (u32*)p->buf(4, false, 4); u32 e = S.ch.pick(12);
            STEP("Utils_stringToUint32", bool ok = CALL(.ro(t, n).rw(o, 4), "Utils_stringToUint32", L->Utils_stringToUint32(t, (u8)n, o)); put(r, ok); if (ok) put(r, *o));
            STEP("Utils_quickUint32Pow10", bool ok = CALL(.rw(o2, 4), "Utils_quickUint32Pow10", L->Utils_quickUint32Pow10((u8)e, o2)); put(r, ok); if (ok) put(r, *o2));
            u32 k = 1 + S.ch.pick(80 * g); u8 *a = p->buf(k, true), *b = p->buf(k, true);
            STEP("Utils_swapElements", CALL(.rw(a, k).rw(b, k), "Utils_swapElements", (L->Utils_swapElements(a, b, k), 0)); put(r, a, k); put(r, b, k));
            break; }
        case 12: {
            u8* b = p->buf(4, false); u32 v = S.ch.u32val(); u32 k = S.ch.pick(40 * g); u8 *x = p->buf(k, true), *y = p->buf(k, false), *z = p->buf(k, false);
            STEP("serialize16", CALL(.rw(b, 2), "Utils_serialize16BE", (L->Utils_serialize16BE(b, (u16)v), 0)); put(r, b, 2); put(r, CALL(.ro(b, 2), "Utils_deserialize16LE", L->Utils_deserialize16LE(b))));
            STEP("serialize24", CALL(.rw(b, 3), "Utils_serialize24LE", (L->Utils_serialize24LE(b, v & 0xFFFFFF), 0)); put(r, b, 3); put(r, CALL(.ro(b, 3), "Utils_deserialize24BE", L->Utils_deserialize24BE(b))));
            STEP("serialize32", CALL(.rw(b, 4), "Utils_serialize32BE", (L->Utils_serialize32BE(b, v), 0)); put(r, b, 4); put(r, CALL(.ro(b, 4), "Utils_deserialize32LE", L->Utils_deserialize32LE(b))));
            STEP("serializeBlobLE", CALL(.ro(x, k).rw(y, k), "Utils_serializeBlobLE", (L->Utils_serializeBlobLE(y, x, k), 0)); put(r, y, k); CALL(.ro(y, k).rw(z, k), "Utils_deserializeBlobLE", (L->Utils_deserializeBlobLE(y, z, k), 0)); put(r, z, k));
            STEP("serializeBlobBE", CALL(.ro(x, k).rw(y, k), "Utils_serializeBlobBE", (L->Utils_serializeBlobBE(y, x, k), 0)); put(r, y, k); CALL(.ro(y, k).rw(z, k), "Utils_deserializeBlobBE", (L->Utils_deserializeBlobBE(y, z, k), 0)); put(r, z, k));
            break; }
        case 14: { // a received object with everything that may be in one
            std::string t; std::vector<std::string> ks; u32 n = S.ch.pick(4 * g) + 1;
            auto ws = [&] { if (S.ch.pick(8) == 7) t.append(S.ch.pick(4 * g), " \t\n\r"[S.ch.pick(4)]); };
            auto str = [&](u32 m) { std::string q = draw_text(m); t += '"'; for (char c : q) { if (S.ch.pick(16) == 15) t += S.ch.pick(2) ? "\\\"" : "\\\\"; t += c; } t += '"'; return q; };
            t = "{"; ws();
            for (u32 i = 0; i < n; ++i) {
                if (i) { t += ','; ws(); }
                ks.push_back(str(n > 20 ? 8 : 8 * g)); ws(); t += ':'; ws();
                switch (S.ch.pick(4)) {
                    case 0: { u32 d = 1 + S.ch.pick(4 * g), ob = S.ch.pick(3); for (u32 k = 0; k < d; ++k) t += (ob == 2 ? k & 1 : ob) ? "{\"a\":" : "["; t += "\"x\""; for (u32 k = d; k-- > 0;) t += (ob == 2 ? k & 1 : ob) ? '}' : ']'; break; }
                    case 1: t += std::to_string(S.ch.u32val()); break;
                    default: str(n > 20 ? 10 : 20 * g);
                }
                ws();
            }
            t += '}'; if (S.ch.pick(6) == 5) t.resize(S.ch.pick((u32)t.size()) + 1); ks.push_back("nosuch"); ks.push_back("a");
            u32 tn = (u32)t.size(), orm = S.ch.pick(2) ? 24 * g + 8 : 1 + S.ch.pick(12); char* b = (char*)p->cell(t.data(), tn); char* out = (char*)p->buf(orm, false); u32 look = 1 + S.ch.pick(3);
            for (u32 i = 0; i < look; ++i) { std::string k = ks[S.ch.pick(2) ? ks.size() - 1 - S.ch.pick(3) % ks.size() : S.ch.pick((u32)ks.size())]; char* kb = (char*)p->cell(k.c_str(), k.size() + 1); size_t kl = k.size() + 1;
                STEP("Json_findByKey", bool ok = CALL(.ro(b, tn).ro(kb, kl).rw(out, orm).lim(100000000), "Json_findByKey", L->Json_findByKey(b, tn, kb, out, orm)); put(r, ok); if (ok) put(r, out, strnlen(out, orm))); }
            break; }
        case 15: { // many elements for the sort that takes them
            p->es = 1 + S.ch.pick(4); u32 n = S.ch.pick(40 * g) + (g > 1 ? 20 * g : 0), es = p->es; p->cmpmode = (int)S.ch.pick(2); u8* a = p->buf(n * es, true);
            STEP("HeapSort_sort", S.cur->ctx.push_back(p); CALL(.rw(a, n * es).lim(100000000), "HeapSort_sort", (L->HeapSort_sort(a, (int32_t)n, (int32_t)es, iso_cmp), 0)); S.cur->ctx.pop_back(); put(r, a, n * es));
            break; }
        case 16: { // long texts of digits
            u32 n = S.ch.pick(std::min(14 * g, 255u)); std::string s(n, '0'); u32 z = S.ch.pick(n + 1); for (u32 i = z; i < n; ++i) s[i] = (char)('0' + S.ch.pick(10)); if (n && S.ch.pick(5) == 4) s[S.ch.pick(n)] = 'x'; char* t = (char*)p->cell(s.data(), n); u32* o = (u32*)p->buf(4, false, 4);
            STEP("Utils_stringToUint32", bool ok = CALL(.ro(t, n).rw(o, 4), "Utils_stringToUint32", L->Utils_stringToUint32(t, (u8)n, o)); put(r, ok); if (ok) put(r, *o));
            break; }
        default: {
            u32 v = S.ch.u32val(), n = S.ch.pick(40), w = 1 + S.ch.pick(32), ro = 1 + S.ch.pick(31); u32* o = (u32*)p->buf(4, false, 4); bool* bo = (bool*)p->buf(1, false);
            STEP("BitManipulation_reflect", put(r, CALL(.lim(100000), "BitManipulation_reflect", L->BitManipulation_reflect(v, (u8)w))));
            STEP("BitManipulation_rotl32", put(r, CALL(.lim(100000), "BitManipulation_rotl32", L->BitManipulation_rotl32(v, ro))));
            STEP("BitManipulation_setBit", bool ok = CALL(.rw(o, 4), "BitManipulation_setBit", L->BitManipulation_setBit(v, (u8)n, o)); put(r, ok); if (ok) put(r, *o));
            STEP("BitManipulation_clearBit", bool ok = CALL(.rw(o, 4), "BitManipulation_clearBit", L->BitManipulation_clearBit(v, (u8)n, o)); put(r, ok); if (ok) put(r, *o));
            STEP("BitManipulation_toggleBit", bool ok = CALL(.rw(o, 4), "BitManipulation_toggleBit", L->BitManipulation_toggleBit(v, (u8)n, o)); put(r, ok); if (ok) put(r, *o));
            STEP("BitManipulation_bitSet", bool ok = CALL(.rw(bo, 1), "BitManipulation_bitSet", L->BitManipulation_bitSet(v, (u8)n, bo)); put(r, ok); if (ok) put(r, (u64)*(u8*)bo)); }
    }
}
bool starved;
void exec(Prog* p, int phase) { // 0 records the reference, 1 and 2 compare
    p->restore(); p->fired.clear();
    for (u32 i = 0; i < p->steps.size(); ++i) {
        Res r; p->stepno = i; p->steps[i].f(r);
        if (phase == 0) { p->want.push_back(r); continue; }
        LOG("%s: %s -> %s", p->nm.c_str(), p->steps[i].what.c_str(), hex(r.data(), r.size()).c_str()); dig_bytes(r.data(), r.size());
        CHECK(r == p->want[i], starved ? "no-memory" : phase == 1 ? "interference" : "aftermath", "%s (%s): %s %s gives %s, alone it gives %s", p->nm.c_str(), p->L->tag, p->steps[i].what.c_str(), starved ? "when the system refuses memory" : phase == 1 ? "while other calls are in progress" : "after other calls were made or abandoned", hex(r.data(), r.size()).c_str(), hex(p->want[i].data(), p->want[i].size()).c_str());
        op_end();
    }
}
}
static void run_c14() {
    S.no_static_writes = true;
    auto ps = std::make_unique<std::deque<Prog>>(); u32 k = crowd(2 + S.ch.pick(4), 108); bool same = S.ch.pick(2); u32 kind0 = S.ch.pick(KINDS);
    for (u32 i = 0; i < k; ++i) { ps->emplace_back(); Prog& p = ps->back(); u32 kd = same ? kind0 : S.ch.pick(KINDS); p.nm = nm("program", i); make_prog(&p, kd); p.snapshot(); }
    for (auto& p : *ps) { image_reset(); solo("alone", [&] { exec(&p, 0); }); }
    image_reset();
    draw_policy(S.ch.pick(2) ? 25 : 0);
    S.on_kill = [](Task* t) { if (t->user) ((Prog*)t->user)->dead = true; };
    for (auto& p : *ps) { Prog* q = &p; spawn(p.nm, [q] { exec(q, 1); })->user = q; }
    run_tasks();
    u32 dead = 0; for (auto& p : *ps) dead += p.dead;
    if (dead) PROBE("abandoned_calls_before_aftermath");
    for (auto& p : *ps) solo("afterwards", [&] { exec(&p, 2); });
}
// ------------------------------------------------------------------- C22
// The same programs at any scale.  The reference execution may obtain memory
// from the system, the others may not; and no call, however large its data,
// may use more stack than calls of the same function on small data do.
namespace {
const size_t SLACK = 384; const double TIMES = 8;
struct Small { size_t stack = 0; double rate = 0; u64 n = 0; };
std::map<std::pair<const Lib*, std::string>, Small> small_calls; bool calibrating, judge_work;
// what a call's work may be proportional to: the memory it was given; the element for queues; squared number of elements for sorts
double extent(Prog* p, const Scope& sc) {
    std::string f = sc.name; bool q = f.rfind("Queue_", 0) == 0 && f != "Queue_init", c = f == "Crc8Base" || f == "Crc16Base" || f == "Crc32Base"; // storage, table
    double total = 0; for (int i = 0; i < sc.n; ++i) if (i != 1 || !(q || c)) total += (double)(sc.r[i].hi - sc.r[i].lo);
    if (f.find("Sort_sort") != std::string::npos) { double n = total / p->es; return (n + 4) * (n + 4) * (p->es + 16.0); }
    return total + 32;
}
void on_call22(Scope& sc, size_t use) {
    if (!S.cur || !S.cur->user) return;
    auto* p = (Prog*)S.cur->user; std::pair<const Lib*, std::string> k(p->L, sc.name); double x = extent(p, sc), rate = (double)sc.steps / x;
    if (calibrating) { Small& m = small_calls[k]; ++m.n; if (use > m.stack) m.stack = use; if (rate > m.rate) m.rate = rate; return; }
    auto it = small_calls.find(k); if (it == small_calls.end() || it->second.n < 10) { PROBE("no_small_calls_to_compare_with"); return; }
    const Small& m = it->second;
    if (!judge_work) {
        PROBE("stack_use_compared");
        CHECK(use <= m.stack + SLACK, "stack-growth", "%s (%s) used %zu bytes of stack, calls of it on small data use at most %zu", p->nm.c_str(), p->L->tag, use, m.stack);
    } else {
        PROBE("work_compared");
        CHECK(rate <= TIMES * m.rate + 1, "too-slow", "%s (%s) took %llu steps for data of extent %.0f, that is %.1f each; calls of it on small data take at most %.1f", p->nm.c_str(), p->L->tag, (unsigned long long)sc.steps, x, rate, m.rate);
    }
}
void calibrate_one() {
    auto ps = std::make_unique<std::deque<Prog>>(); S.heap = 1; S.on_call = on_call22;
    for (u32 kind = 0; kind < KINDS_C22; ++kind) { u32 n = kind == 4 || kind == 5 ? 12 : 2; for (u32 i = 0; i < n; ++i) { ps->emplace_back(); Prog& p = ps->back(); make_prog(&p, kind, 1); p.snapshot(); solo("small", [&] { S.cur->user = &p; exec(&p, 0); }); } }
}
void calibrate() {
    Workload w = { "C22", calibrate_one, 0, "", nullptr }; Choices keep = S.ch; calibrating = true; S.tracing = false;
    for (u32 i = 0; i < 120; ++i) { S.ch.replay = false; S.ch.idx = i; S.ch.s = 0x1234567ull + i * 7919ull; engine_run(w); }
    calibrating = false; S.ch = keep; memset(ST.v, 0, sizeof ST.v); memset(ST.edge, 0, sizeof ST.edge);
}
}
static void run_scaled(bool work) {
    judge_work = work;
    auto ps = std::make_unique<std::deque<Prog>>(); u32 k = crowd(1 + S.ch.pick(3), work ? 123 : 122); starved = !work; S.min_budget = 400000000; S.on_call = on_call22;
    for (u32 i = 0; i < k; ++i) { ps->emplace_back(); Prog& p = ps->back(); p.nm = nm("program", i); u32 kind = S.ch.pick(KINDS_C22); bool linear = (kind >= 4 && kind <= 7) || kind == 9 || kind == 11 || kind == 12; u32 sh = S.crowd ? S.ch.pick(3) : linear ? S.ch.weighted({ 60, 80, 80, 60, 40, 20, 10, 6, 5, 4, 3, 3 }) : S.ch.weighted({ 6, 8, 8, 6, 4, 2, 1 }); if (S.ch.rare(2503, 71) && i == 0) { cpu_limit(300); kind = std::array<u32, 7>{ 4, 5, 6, 7, 9, 11, 12 }[S.ch.pick(7)]; sh = kind == 9 ? 13 : 13 + S.ch.pick(3); PROBE("data_over_8000_times"); } else if (S.ch.rare(997, 31) && i == 0) { cpu_limit(300); kind = std::array<u32, 7>{ 0, 1, 2, 3, 8, 10, 14 }[S.ch.pick(7)]; sh = 7 + S.ch.pick(2); PROBE("many_held_or_sorted"); } if (sh > 9) PROBE("data_over_1000_times"); make_prog(&p, kind, 1u << sh); p.snapshot(); }
    S.heap = work ? 0 : 1;
    for (auto& p : *ps) { image_reset(); solo("alone", [&] { S.cur->user = &p; exec(&p, 0); }); }
    image_reset(); S.heaps.clear(); S.heap = work ? 0 : S.ch.pick(3) == 2 ? 2 : 0;
    draw_policy(S.ch.pick(2) ? 10 : 0);
    S.on_kill = [](Task* t) { if (t->user) ((Prog*)t->user)->dead = true; };
    for (auto& p : *ps) { Prog* q = &p; spawn(p.nm, [q] { exec(q, 1); })->user = q; }
    run_tasks();
    S.heap = 0;
    for (auto& p : *ps) if (S.ch.pick(2)) solo("afterwards", [&] { S.cur->user = &p; exec(&p, 2); });
}
static void run_c22() { run_scaled(false); }
static void run_c23() { run_scaled(true); }
// ------------------------------------------------------------------- C18
namespace {
struct Shared18 { std::string nm; std::function<void()> read; u32 inside = 0; };
struct Pass18 { std::vector<int> fired; };
template <int N> void sh_fn() { if (!S.cur || S.cur->ctx.empty()) fail("stray-callback", "task invoked outside any pass"); ((Pass18*)S.cur->ctx.back())->fired.push_back(N); preempt_point(); }
const F sh_fns[8] = { sh_fn<0>, sh_fn<1>, sh_fn<2>, sh_fn<3>, sh_fn<4>, sh_fn<5>, sh_fn<6>, sh_fn<7> };
struct Keep { std::deque<std::shared_ptr<void>> k; template <class T> T* mk() { auto p = std::make_shared<T>(); k.push_back(p); return p.get(); } };
void make_shared_obj(Shared18& s, Keep& K, u32 kind) {
    u32 g = S.ch.pick(50) == 49 ? 2u << S.ch.pick(5) : 1; if (g > 1) PROBE("large_data"); // scale of the data
    switch (kind) {
        case 0: {
            auto* o = K.mk<MObj>(); int32_t c = (int32_t)draw_cap(), ks = (int32_t)draw_es(), vs = (int32_t)draw_es(); if (c > 60 && g == 1) c = 60;
            o->create(c, ks, vs, 0, 0, "shared map"); s.nm = "map";
            solo("fill", [&] { o->init(); u32 n = S.ch.pick((u32)c * 2 + 1); for (u32 i = 0; i < n; ++i) o->insert(S.ch.pick((u32)o->pool.size())); });
            s.read = [o] {
                const Lib& L = pick_lib(); u32 ki = S.ch.pick((u32)o->pool.size()); u8* kb = dup_bytes(o->pool[ki].data(), (size_t)o->ksz); u8* out = alloc((size_t)o->vsz);
                bool r = CALL(.ro(o->q, sizeof *o->q).ro(o->ks, (size_t)(o->cap * o->ksz)).ro(o->vs, (size_t)(o->cap * o->vsz)).ro(kb, (size_t)o->ksz).rw(out, (size_t)o->vsz), "Map_getValue", L.Map_getValue(o->q, kb, out)); dig(r);
                auto it = o->m.find(o->pool[ki]); LOG("look up key %u -> %d", ki, r);
                CHECK(r == (it != o->m.end()), "map", "look-up of key %s %s", hex(kb, (size_t)o->ksz).c_str(), r ? "succeeded although it was never inserted" : "failed although it was inserted");
                if (r) CHECK(!memcmp(out, it->second.data(), (size_t)o->vsz), "map", "look-up of key %s gives %s, stored is %s", hex(kb, (size_t)o->ksz).c_str(), hex(out, (size_t)o->vsz).c_str(), hex(it->second.data(), it->second.size()).c_str());
            };
            break; }
        case 1: {
            auto* o = K.mk<QObj>(); u32 c = draw_cap(), e = draw_es(); if (c > 60 && g == 1) c = 60; o->create(c, e, 0, "shared queue"); s.nm = "queue";
            solo("fill", [&] { o->init(); u32 n = S.ch.pick(2 * c + 1), d = 0; for (u32 i = 0; i < n; ++i) { if (o->m.size() < c) o->enqueue(); else { o->dequeue(); ++d; o->enqueue(); } } u32 rm = S.ch.pick((u32)o->m.size() + 1); if (S.ch.pick(2)) for (u32 i = 0; i < rm; ++i) o->dequeue(); });
            s.read = [o] {
                const Lib& L = pick_lib(); size_t bn = (size_t)o->cap * o->es; u8* out = alloc(o->es); u32 op = S.ch.pick(4); bool r;
                switch (op) {
                    case 0: r = CALL(.ro(o->q, sizeof *o->q).ro(o->store, bn).rw(out, o->es), "Queue_front", L.Queue_front(o->q, out)); CHECK(r == !o->m.empty() && (!r || !memcmp(out, o->m.front().data(), o->es)), "queue", "front gives %d %s with %zu held", r, hex(out, o->es).c_str(), o->m.size()); break;
                    case 1: r = CALL(.ro(o->q, sizeof *o->q).ro(o->store, bn).rw(out, o->es), "Queue_rear", L.Queue_rear(o->q, out)); CHECK(r == !o->m.empty() && (!r || !memcmp(out, o->m.back().data(), o->es)), "queue", "rear gives %d %s with %zu held", r, hex(out, o->es).c_str(), o->m.size()); break;
                    case 2: r = CALL(.ro(o->q, sizeof *o->q).ro(o->store, bn), "Queue_full", L.Queue_full(o->q)); CHECK(r == (o->m.size() == o->cap), "queue", "full() = %d with %zu of %u held", r, o->m.size(), o->cap); break;
                    default: r = CALL(.ro(o->q, sizeof *o->q).ro(o->store, bn), "Queue_empty", L.Queue_empty(o->q)); CHECK(r == o->m.empty(), "queue", "empty() = %d with %zu held", r, o->m.size());
                }
                LOG("queue query %u -> %d", op, r); dig(r);
            };
            break; }
        case 2: {
            auto* o = K.mk<PObj>(); u32 c = draw_cap(), e = draw_es(); if (c > 60 && g == 1) c = 60; o->create(c, e, 0, 0, "shared priority queue"); s.nm = "priority queue";
            solo("fill", [&] { o->init(); u32 n = S.ch.pick(3) ? S.ch.pick(c + 1) : 0; for (u32 i = 0; i < n; ++i) o->enqueue(o->draw_prio()); });
            s.read = [o] { const Lib& L = pick_lib(); bool r = CALL(.ro(o->q, sizeof *o->q).ro(o->store, (size_t)o->cap * o->es).ro(o->prio, o->cap * 4), "PriorityQueue_empty", L.PriorityQueue_empty(o->q)); dig(r); LOG("empty -> %d", r); CHECK(r == (o->count == 0), "priority-queue", "empty() = %d with %u held", r, o->count); };
            break; }
        case 3: {
            struct J { std::string t; char* b; std::vector<std::string> keys; u32 sz; }; auto* o = K.mk<J>(); s.nm = "received object";
            u32 n = S.ch.pick(6); o->t = "{"; for (u32 i = 0; i < n; ++i) { std::string k = draw_text(5 * g), v = S.ch.pick(3) ? draw_text(14 * g) : k; o->t += std::string(i ? (S.ch.pick(2) ? "," : " , ") : "") + "\"" + k + (S.ch.pick(2) ? "\":\"" : "\" : \"") + v + "\""; o->keys.push_back(k); } o->t += "}"; o->keys.push_back(draw_text(5));
            if (S.ch.pick(4) == 3) o->t.resize(S.ch.pick((u32)o->t.size() + 1));
            o->b = dup_str(o->t); o->sz = (u32)o->t.size() + S.ch.pick(2);
            s.read = [o] {
                const Lib& L = pick_lib(); const std::string& k = o->keys[S.ch.pick((u32)o->keys.size())]; auto f = model::json_find(o->t, k); u32 room = f.ok ? (u32)f.value.size() + S.ch.pick(3) : S.ch.pick(20); char* kb = dup_str(k); char* out = (char*)alloc(room);
                bool r = CALL(.ro(o->b, o->sz).ro(kb, k.size() + 1).rw(out, room), "Json_findByKey", L.Json_findByKey(o->b, o->sz, kb, out, room)); dig(r); LOG("find %s -> %d", k.c_str(), r);
                bool want = f.ok && room > f.value.size();
                CHECK(r == want && (!r || !strcmp(out, f.value.c_str())), "object", "look-up of %s in %s gives %d %s", quote(k.data(), k.size()).c_str(), quote(o->t.data(), o->t.size()).c_str(), r, r ? quote(out, strnlen(out, room)).c_str() : "");
            };
            break; }
        case 4: {
            struct T { SchedulerTask_t* t; u32 n; std::vector<int> want; }; auto* o = K.mk<T>(); s.nm = "task table"; o->n = 1 + S.ch.pick(7 * g); o->t = make_n<SchedulerTask_t>(o->n); const Lib* L0 = &pick_lib(); size_t tn = sizeof(SchedulerTask_t) * o->n; auto* x = make<SchedulerTask_t>();
            solo("fill", [&] { CALL(.rw(o->t, tn), "Scheduler_init", (L0->Scheduler_init(o->t, o->n), 0)); u32 a = S.ch.pick(o->n + 1); for (u32 i = 0; i < a; ++i) { u32 f = S.ch.pick(8); x->function = sh_fns[f]; x->active = S.ch.pick(4) != 3; CALL(.rw(o->t, tn).ro(x, sizeof *x), "Scheduler_addTask", L0->Scheduler_addTask(o->t, o->n, x)); } });
            for (u32 i = 0; i < o->n; ++i) if (o->t[i].function && o->t[i].active) for (int f = 0; f < 8; ++f) if (sh_fns[f] == o->t[i].function) o->want.push_back(f);
            s.read = [o] {
                const Lib& L = pick_lib(); Pass18 p; S.cur->ctx.push_back(&p); ++S.ticks; CALL(.ro(o->t, sizeof(SchedulerTask_t) * o->n), "Scheduler_run", (L.Scheduler_run(o->t, o->n), 0)); S.cur->ctx.pop_back(); dig(p.fired.size()); LOG("pass ran %zu tasks", p.fired.size());
                CHECK(p.fired == o->want, "task-table", "a pass over an unchanging table of %u slots with %zu active tasks ran %zu tasks%s", o->n, o->want.size(), p.fired.size(), p.fired.size() == o->want.size() ? ", but not those" : "");
            };
            break; }
        case 5: {
            struct C { Def d; u8* m; u32 n, cut, last; }; auto* o = K.mk<C>(); make_def(o->d, S.ch.pick(2)); s.nm = "message and checksum table of " + o->d.nm; o->n = S.ch.pick(40 * g); o->m = alloc(o->n); fill_bytes(o->m, o->n); o->cut = S.ch.pick(o->n + 1);
            solo("table", [&] { make_table(o->d); const Lib& L = pick_lib(); o->last = piece(L, o->d, o->m, o->cut, true, 0, false); });
            s.read = [o] {
                const Lib& L = pick_lib(); bool whole = S.ch.pick(2); u32 r = whole ? piece(L, o->d, o->m, o->n, true, 0, true) : piece(L, o->d, o->m + o->cut, o->n - o->cut, false, o->last, true); dig(r);
                u32 w = o->d.oracle(o->m, o->n); LOG("%s -> %x", o->d.nm.c_str(), r);
                CHECK(r == w, "checksum", "%s over the shared message is %x, catalogue value %x", o->d.nm.c_str(), r, w);
            };
            break; }
        case 6: {
            struct C { u8 *k, *no, *m; u32 n; }; auto* o = K.mk<C>(); s.nm = "cipher key, nonce and message"; o->k = alloc(32); o->no = alloc(12); o->n = S.ch.pick(150 * g); o->m = alloc(o->n); fill_bytes(o->k, 32); fill_bytes(o->no, 12); fill_bytes(o->m, o->n);
            s.read = [o] {
                const Lib& L = pick_lib(); u32 ctr = S.ch.pick(3), n = S.ch.pick(o->n + 1); u8* out = alloc(n); CALL(.ro(o->m, n).ro(o->k, 32).ro(o->no, 12).rw(out, n), "Chacha20_crypt", (L.Chacha20_crypt(o->m, n, o->k, o->no, ctr, out), 0));
                auto w = model::chacha(o->k, o->no, ctr, o->m, n); LOG("encrypted %u bytes", n); dig_bytes(out, n);
                CHECK(!n || !memcmp(out, w.data(), n), "cipher", "%u bytes of the shared message encrypt to %s, RFC 8439 gives %s", n, hex(out, n).c_str(), hex(w.data(), n).c_str());
            };
            break; }
        case 7: {
            struct C { u8* m; u32 n; std::string t; char* tb; char* num; u32 nv; u32 nl; u8 w[4]; u8* wb; }; auto* o = K.mk<C>(); s.nm = "message bytes"; o->n = 1 + S.ch.pick(30 * g); o->m = alloc(o->n); fill_bytes(o->m, o->n); o->t = model::b64(o->m, o->n); o->tb = (char*)dup_bytes(o->t.data(), o->t.size());
            o->nv = S.ch.u32val(); std::string ns = std::to_string(o->nv); o->num = (char*)dup_bytes(ns.data(), ns.size()); o->nl = (u32)ns.size(); o->wb = alloc(4); fill_bytes(o->wb, 4);
            s.read = [o] {
                const Lib& L = pick_lib(); u32 op = S.ch.pick(6); u8* b = o->wb;
                switch (op) {
                    case 0: { u32 rm = (u32)o->t.size() + 1; char* out = (char*)alloc(rm); int32_t r = CALL(.ro(o->m, o->n).rw(out, rm), "Base64_encode", L.Base64_encode((char*)o->m, o->n, out, rm)); CHECK(r == 0 && o->t == out, "text-armour", "shared message armours to %s", quote(out, strnlen(out, rm)).c_str()); break; }
                    case 1: { u8* out = alloc(o->n); int32_t r = CALL(.ro(o->tb, o->t.size()).rw(out, o->n), "Base64_decode", L.Base64_decode(o->tb, o->t.size(), out, o->n)); CHECK(r == 0 && !memcmp(out, o->m, o->n), "text-armour", "shared text %s decodes to %s (status %d)", o->t.c_str(), hex(out, o->n).c_str(), r); break; }
                    case 2: { u32* out = make<u32>(); bool r = CALL(.ro(o->num, o->nl).rw(out, 4), "Utils_stringToUint32", L.Utils_stringToUint32(o->num, (u8)o->nl, out)); CHECK(r && *out == o->nv, "number", "shared text of %u converts to %d %u", o->nv, r, *out); break; }
                    case 3: { u32 r = CALL(.ro(b, 4), "Utils_deserialize32BE", L.Utils_deserialize32BE(b)); CHECK(r == ((u32)b[0] << 24 | (u32)b[1] << 16 | (u32)b[2] << 8 | b[3]), "codec", "big-endian field %s reads %x", hex(b, 4).c_str(), r); break; }
                    case 4: { u32 r = CALL(.ro(b, 3), "Utils_deserialize24LE", L.Utils_deserialize24LE(b)); CHECK(r == ((u32)b[2] << 16 | (u32)b[1] << 8 | b[0]), "codec", "little-endian field %s reads %x", hex(b, 3).c_str(), r); break; }
                    default: { u8* out = alloc(o->n); CALL(.ro(o->m, o->n).rw(out, o->n), "Utils_deserializeBlobLE", (L.Utils_deserializeBlobLE(o->m, out, o->n), 0)); for (u32 i = 0; i < o->n; ++i) CHECK(out[i] == o->m[o->n - 1 - i], "codec", "reversed blob of the shared message is wrong at byte %u", i); }
                }
                LOG("message input %u", op);
            };
            break; }
        default: {
            struct C { std::string key; char* k; }; auto* o = K.mk<C>(); s.nm = "cipher letter key"; u32 n = S.ch.pick(24 * g); o->key.resize(n); for (char& c : o->key) c = (char)((S.ch.pick(2) ? 'a' : 'A') + S.ch.pick(26)); o->k = dup_str(o->key);
            s.read = [o] {
                const Lib& L = pick_lib(); std::string m = draw_text((u32)o->key.size()); m.resize(o->key.size(), 'q'); char* b = dup_str(m); size_t n = m.size() + 1; int32_t kl = (int32_t)o->key.size();
                bool r = CALL(.rw(b, n).ro(o->k, n), "VernamCipher_encrypt", L.VernamCipher_encrypt(b, o->k, kl)); CHECK(r && model::vernam(m, o->key) == b, "letter-cipher", "%s with key %s enciphers to %s", quote(m.data(), m.size()).c_str(), o->key.c_str(), quote(b, n - 1).c_str());
                r = CALL(.rw(b, n).ro(o->k, n), "VernamCipher_decrypt", L.VernamCipher_decrypt(b, o->k, kl)); CHECK(r && m == b, "letter-cipher", "%s with key %s is restored as %s", quote(m.data(), m.size()).c_str(), o->key.c_str(), quote(b, n - 1).c_str()); LOG("letter cipher");
            };
        }
    }
}
}
static void run_c18() {
    auto K = std::make_unique<Keep>(); auto objs = std::make_unique<std::deque<Shared18>>(); u32 n = 1 + S.ch.pick(2);
    for (u32 i = 0; i < n; ++i) { objs->emplace_back(); make_shared_obj(objs->back(), *K, S.ch.weighted({ 20, 15, 4, 18, 15, 12, 8, 8, 5 })); }
    u32 old = aged(311); if (old) age(old > 5000 ? 5000 : old, [&](u32 i) { (*objs)[i % n].read(); }, true);
    else image_reset(); // readers are the first to call into a freshly started library
    u32 k = crowd(2 + S.ch.pick(4), 109);
    draw_policy(S.ch.pick(2) ? 15 : 0);
    if (S.pol.mode == 0 && S.ch.pick(4)) S.pol.mode = 1 + S.ch.pick(3);
    u32 len = 1 + S.ch.pick(6);
    auto* ob = objs.get();
    S.on_kill = [](Task* t) { if (t->user) --((Shared18*)t->user)->inside; };
    for (u32 i = 0; i < k; ++i) spawn(nm("reader", i), [ob, n, len] {
        for (u32 j = 0; j < len; ++j) {
            Shared18& s = (*ob)[S.ch.pick(n)];
            if (s.inside) PROBE("concurrent_readers_of_one_object");
            S.cur->user = &s; ++s.inside; s.read(); --s.inside; S.cur->user = nullptr; op_end();
        }
    });
    run_tasks();
    for (auto& s : *objs) solo("afterwards", [&] { s.read(); s.read(); }); // nothing was left changed
}
void register_iso() {
    WL.push_back({ "C14", run_c14, 2000000, "one run = 2-5 programs (rarely up to 80), each a fixed sequence of calls (any of the library's functions, both builds) on its own memory, first executed alone on a freshly loaded library image to record returns and outputs, then executed concurrently with preemption, nesting and abandonment at drawn accesses, then once more afterwards; every return and output must equal the recorded one and every access stay in the call's own memory; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
    WL.push_back({ "C22", run_c22, 400000, "one run = 1-3 programs (rarely up to 80), each a fixed sequence of calls at a drawn scale of its data (1-64 times), first executed alone with memory obtainable, then concurrently with preemption, nesting and abandonment while the system refuses memory always or at drawn moments, then again; every return and output must equal the recorded one, every access stay in the call's own memory, and no call use over 384 bytes more stack than small calls of the same function; non-trivial: at least 3 library calls and one fault; distinct: different digest", calibrate });
    WL.push_back({ "C23", run_c23, 400000, "as C22 without memory requests; a call may take at most eight times the steps per unit of its data that small calls of the same function take (unit: byte of the memory it was given; for queue operations of the element; for sorts the squared number of elements times their size); non-trivial: at least 3 library calls and one fault; distinct: different digest", calibrate });
    WL.push_back({ "C18", run_c18, 2500000, "one run = 1-2 shared objects (map, queue, priority queue, received object, task table, checksum table with message, cipher key/nonce/message, text, letter key) filled once and then read by 2-5 readers (rarely up to 80) preempted, nested or abandoned at drawn accesses, all shared memory declared read-only; answers compared with the model of the unchanging content; non-trivial: at least 3 library calls and one fault; distinct: different digest" });
}
