#include "lib.h"
typedef void (*Api)(void);
extern "C" { extern const Api sim_api[], u_sim_api[]; } // compiled with each build (bin/build.sh)
static Lib make_lib(const char* tag, const Api* a) {
    Lib L; L.tag = tag;
#define X(f) L.f = (decltype(L.f))*a++;
    FUNCS(X)
#undef X
    return L;
}
const Lib LIB[2] = { make_lib("O0/signed-char", sim_api), make_lib("O2/unsigned-char", u_sim_api) };
template <class T> static u32 inv(T (*f)(const u8*, u32, const T*), const u8* d, u32 n, bool, const void* l) { return f(d, n, (const T*)l); }
template <class T> static u32 inv(T (*f)(const u8*, u32, bool, const T*), const u8* d, u32 n, bool fin, const void* l) { return f(d, n, fin, (const T*)l); }
template <class T> static constexpr bool hf(T (*)(const u8*, u32, const T*)) { return false; }
template <class T> static constexpr bool hf(T (*)(const u8*, u32, bool, const T*)) { return true; }
#define V(f, w, poly, init, refl, xo, chk) { #f, w, poly, init, refl, xo, chk, hf((decltype(&::f))nullptr), [](const Lib& L, const u8* d, u32 n, bool fin, const void* l) -> u32 { return inv(L.f, d, n, fin, l); } }
const CrcVar CRCS[45] = {
    V(Crc8, 8, 0x07, 0, false, 0, 0xF4), V(Crc8_8h2f, 8, 0x2F, 0xFF, false, 0xFF, 0xDF), V(Crc8_cdma2000, 8, 0x9B, 0xFF, false, 0, 0xDA),
    V(Crc8_darc, 8, 0x39, 0, true, 0, 0x15), V(Crc8_dvbS2, 8, 0xD5, 0, false, 0, 0xBC), V(Crc8_ebu, 8, 0x1D, 0xFF, true, 0, 0x97),
    V(Crc8_icode, 8, 0x1D, 0xFD, false, 0, 0x7E), V(Crc8_itu, 8, 0x07, 0, false, 0x55, 0xA1), V(Crc8_maxim, 8, 0x31, 0, true, 0, 0xA1),
    V(Crc8_rohc, 8, 0x07, 0xFF, true, 0, 0xD0), V(Crc8_saeJ1850, 8, 0x1D, 0xFF, false, 0xFF, 0x4B), V(Crc8_saeJ1850Zero, 8, 0x1D, 0, false, 0, 0x37),
    V(Crc8_wcdma, 8, 0x9B, 0, true, 0, 0x25),
    V(Crc16_a, 16, 0x1021, 0xC6C6, true, 0, 0xBF05), V(Crc16_arc, 16, 0x8005, 0, true, 0, 0xBB3D), V(Crc16_augCcit, 16, 0x1021, 0x1D0F, false, 0, 0xE5CC),
    V(Crc16_buypass, 16, 0x8005, 0, false, 0, 0xFEE8), V(Crc16_ccitFalse, 16, 0x1021, 0xFFFF, false, 0, 0x29B1), V(Crc16_ccitZero, 16, 0x1021, 0, false, 0, 0x31C3),
    V(Crc16_cdma2000, 16, 0xC867, 0xFFFF, false, 0, 0x4C06), V(Crc16_dds110, 16, 0x8005, 0x800D, false, 0, 0x9ECF), V(Crc16_dectR, 16, 0x0589, 0, false, 1, 0x007E),
    V(Crc16_dectX, 16, 0x0589, 0, false, 0, 0x007F), V(Crc16_dnp, 16, 0x3D65, 0, true, 0xFFFF, 0xEA82), V(Crc16_en13757, 16, 0x3D65, 0, false, 0xFFFF, 0xC2B7),
    V(Crc16_genibus, 16, 0x1021, 0xFFFF, false, 0xFFFF, 0xD64E), V(Crc16_kermit, 16, 0x1021, 0, true, 0, 0x2189), V(Crc16_maxim, 16, 0x8005, 0, true, 0xFFFF, 0x44C2),
    V(Crc16_mcrf4xx, 16, 0x1021, 0xFFFF, true, 0, 0x6F91), V(Crc16_modbus, 16, 0x8005, 0xFFFF, true, 0, 0x4B37), V(Crc16_riello, 16, 0x1021, 0xB2AA, true, 0, 0x63D0),
    V(Crc16_t10Dif, 16, 0x8BB7, 0, false, 0, 0xD0DB), V(Crc16_teledisk, 16, 0xA097, 0, false, 0, 0x0FB3), V(Crc16_tms37157, 16, 0x1021, 0x89EC, true, 0, 0x26B1),
    V(Crc16_usb, 16, 0x8005, 0xFFFF, true, 0xFFFF, 0xB4C8), V(Crc16_x25, 16, 0x1021, 0xFFFF, true, 0xFFFF, 0x906E),
    V(Crc32, 32, 0x04C11DB7, 0xFFFFFFFF, true, 0xFFFFFFFF, 0xCBF43926), V(Crc32_bzip2, 32, 0x04C11DB7, 0xFFFFFFFF, false, 0xFFFFFFFF, 0xFC891918),
    V(Crc32_c, 32, 0x1EDC6F41, 0xFFFFFFFF, true, 0xFFFFFFFF, 0xE3069283), V(Crc32_d, 32, 0xA833982B, 0xFFFFFFFF, true, 0xFFFFFFFF, 0x87315576),
    V(Crc32_jamcrc, 32, 0x04C11DB7, 0xFFFFFFFF, true, 0, 0x340BC6D9), V(Crc32_mpeg2, 32, 0x04C11DB7, 0xFFFFFFFF, false, 0, 0x0376E6E7),
    V(Crc32_posix, 32, 0x04C11DB7, 0, false, 0xFFFFFFFF, 0x765E7680), V(Crc32_q, 32, 0x814141AB, 0, false, 0, 0x3010BF7F),
    V(Crc32_xfer, 32, 0x000000AF, 0, false, 0, 0xBD0BE338),
};
