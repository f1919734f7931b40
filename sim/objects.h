// Library objects paired with reference models; every operation is checked
// against the model.  All methods must run inside a task.
#pragma once
#include "model.h"

// What the elements and values hold: mostly unique patterns, so that a mix-up
// shows, and at times equal, all-zero, all-one or arbitrary bytes.
struct Content {
    u32 mode = 0; u64 id = 1; std::vector<u8> last;
    void draw();
    void next(std::vector<u8>& v, size_t n, const std::vector<u8>* like = nullptr); // like: what it may resemble
};
struct QObj {
    const Lib* L = nullptr; Queue_t* q = nullptr; u8* store = nullptr; size_t room = 0;
    u32 cap = 0, es = 0; std::deque<std::vector<u8>> m; Lock lk; bool broken = true; u32 lives = 0; Content ct; u8* elem = nullptr; u8* out = nullptr; std::string nm;
    void create(u32 c, u32 e, size_t room_, const char* name) { ct.draw(); L = &pick_lib(); q = make<Queue_t>(); room = room_ > (size_t)c * e ? room_ : (size_t)c * e; store = alloc(room); cap = c; es = e; nm = name; buffers(); }
    void buffers() { elem = alloc(es); out = alloc(es); }
    void init();
    void regeometry(u32 c, u32 e) { cap = c; es = e; buffers(); }
    void enqueue(); void dequeue(); void front(); void rear(); void query(); void reject(); void refused_init();
    void drain();
};
struct PObj {
    const Lib* L = nullptr; PriorityQueue_t* q = nullptr; u8* store = nullptr; u32* prio = nullptr; size_t room = 0; u32 prio_room = 0;
    u32 cap = 0, es = 0; u64 lim() const { return 4000000 + 500ull * cap + 30ull * cap * es; }
    Lock lk; bool broken = true; u32 lives = 0; Content ct; u64 clock = 1; u8* elem = nullptr; u8* out = nullptr; u32* pv = nullptr; PriorityQueueItem_t* item = nullptr; PriorityQueueItem_t* items = nullptr; std::string nm;
    struct E { std::vector<u8> b; u64 t; };
    struct G { std::deque<E> l; std::vector<u64> disp; };
    std::map<u32, G> m; u32 count = 0; u32 pat = 0; u32 seqp = 0;
    void create(u32 c, u32 e, u32 prio_room_, size_t room_, const char* name);
    void buffers() { elem = alloc(es); out = alloc(es); }
    void regeometry(u32 c, u32 e) { cap = c; es = e; buffers(); }
    void init(); void enqueue(u32 p); void dequeue(); void query(); void refused_init(); void drain(); u32 draw_prio();
};
struct MObj {
    const Lib* L = nullptr; Map_t* q = nullptr; u8* ks = nullptr; u8* vs = nullptr; size_t kroom = 0, vroom = 0; int32_t cap = 0, ksz = 0, vsz = 0; Lock lk; bool broken = true; u32 lives = 0;
    std::vector<std::vector<u8>> pool; std::map<std::vector<u8>, std::vector<u8>> m; Content ct; u8 *kb = nullptr, *vb = nullptr, *ob = nullptr; std::string nm;
    u32 pool_max = 700;
    void create(int32_t c, int32_t k, int32_t v, size_t kr, size_t vr, const char* name);
    void buffers(); void make_pool(u32 n);
    void regeometry(int32_t c, int32_t k, int32_t v) { cap = c; ksz = k; vsz = v; buffers(); make_pool((u32)c * 2 + 2); }
    void init(); void insert(u32 ki); void get(u32 ki); void null_map(); void refused_init(); void verify_all();
};
struct JObj { // document builder
    const Lib* L = nullptr; char* buf = nullptr; size_t size = 0; bool started = false, ended = false, broken = true, raw = false; std::string doc; std::vector<std::pair<std::string, std::string>> mem; std::string nm; Lock lk;
    void create(size_t n, const char* name) { L = &pick_lib(); size = n; buf = (char*)alloc(n); nm = name; }
    void check(const char* after);
    void start(); void add(const std::string& k, const std::string& v); void end();
};
std::string draw_text(u32 maxlen, u32 flavour = 0); // printable, no quotes or backslashes
u32 draw_cap(); u32 draw_es();
