#pragma once
#include "core.h"
struct Stats {
    static const int MAX = 400;
    int n = 0; char name[MAX][56] = {}; u64 v[MAX] = {};
    u8 edge[16384] = {};
};
extern Stats ST;
void engine_init();
void engine_run(const Workload& w);
u32 engine_edges_total();
