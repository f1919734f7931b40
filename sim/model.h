// Independent executable models (written from the public definitions, sharing
// no code with the library).
#pragma once
#include "lib.h"
namespace model {
u32 crc(int width, u32 poly, u32 init, bool refl, u32 xorout, const u8* d, size_t n);
inline u32 crc(const CrcVar& v, const u8* d, size_t n) { return crc(v.width, v.poly, v.init, v.refl, v.xorout, d, n); }
u32 crc_reg(int width, u32 poly, u32 reg, bool refl_in, const u8* d, size_t n); // raw register update
u32 reflect(u32 v, int bits);
std::vector<u8> chacha(const u8 key[32], const u8 nonce[12], u32 counter, const u8* d, size_t n);
std::string b64(const u8* d, size_t n);
bool b64_dec(const std::string& t, std::vector<u8>& out); // strict
std::string caesar(const std::string& m, int shift);
std::string vernam(const std::string& m, const std::string& key); // letter keys
bool str_u32(const std::string& s, u32& v);
// first string member of that key that has completely arrived in a flat object text
struct Found { bool ok = false; std::string value; };
Found json_find(const std::string& text, const std::string& key);
void self_test();
}
