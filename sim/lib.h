// The library under test: two builds of /repo's sources, reached through one
// table of function pointers per build.
#pragma once
#include "core.h"
extern "C" {
#include "all_headers.inc"   // generated: every public header
}
#define CRC_FUNCS(X) \
 X(Crc8) X(Crc8_8h2f) X(Crc8_cdma2000) X(Crc8_darc) X(Crc8_dvbS2) X(Crc8_ebu) X(Crc8_icode) X(Crc8_itu) X(Crc8_maxim) X(Crc8_rohc) X(Crc8_saeJ1850) X(Crc8_saeJ1850Zero) X(Crc8_wcdma) \
 X(Crc16_a) X(Crc16_arc) X(Crc16_augCcit) X(Crc16_buypass) X(Crc16_ccitFalse) X(Crc16_ccitZero) X(Crc16_cdma2000) X(Crc16_dds110) X(Crc16_dectR) X(Crc16_dectX) X(Crc16_dnp) X(Crc16_en13757) X(Crc16_genibus) X(Crc16_kermit) X(Crc16_maxim) X(Crc16_mcrf4xx) X(Crc16_modbus) X(Crc16_riello) X(Crc16_t10Dif) X(Crc16_teledisk) X(Crc16_tms37157) X(Crc16_usb) X(Crc16_x25) \
 X(Crc32) X(Crc32_bzip2) X(Crc32_c) X(Crc32_d) X(Crc32_jamcrc) X(Crc32_mpeg2) X(Crc32_posix) X(Crc32_q) X(Crc32_xfer)
#define FUNCS(X) CRC_FUNCS(X) \
 X(Crc8Base) X(Crc8Base_tableCalculator) X(Crc16Base) X(Crc16Base_tableCalculator) X(Crc32Base) X(Crc32Base_tableCalculator) \
 X(Base64_encode) X(Base64_decode) \
 X(BitManipulation_reflect) X(BitManipulation_bitSet) X(BitManipulation_setBit) X(BitManipulation_clearBit) X(BitManipulation_toggleBit) X(BitManipulation_rotl32) \
 X(CaesarCipher_encrypt) X(CaesarCipher_decrypt) X(VernamCipher_encrypt) X(VernamCipher_decrypt) X(Chacha20_crypt) \
 X(Json_startString) X(Json_addData) X(Json_endString) X(Json_findByKey) \
 X(Map_init) X(Map_insert) X(Map_getValue) \
 X(PriorityQueue_init) X(PriorityQueue_empty) X(PriorityQueue_enqueue) X(PriorityQueue_dequeue) \
 X(Queue_init) X(Queue_full) X(Queue_empty) X(Queue_enqueue) X(Queue_dequeue) X(Queue_front) X(Queue_rear) \
 X(Scheduler_init) X(Scheduler_addTask) X(Scheduler_run) \
 X(BubbleSort_sort) X(HeapSort_sort) X(InsertionSort_sort) X(SelectionSort_sort) \
 X(Utils_stringToUint32) X(Utils_swapElements) X(Utils_quickUint32Pow10) \
 X(Utils_serialize8) X(Utils_deserialize8) X(Utils_serialize16BE) X(Utils_serialize24BE) X(Utils_serialize32BE) X(Utils_serializeBlobBE) \
 X(Utils_deserialize16BE) X(Utils_deserialize24BE) X(Utils_deserialize32BE) X(Utils_deserializeBlobBE) \
 X(Utils_serialize16LE) X(Utils_serialize24LE) X(Utils_serialize32LE) X(Utils_serializeBlobLE) \
 X(Utils_deserialize16LE) X(Utils_deserialize24LE) X(Utils_deserialize32LE) X(Utils_deserializeBlobLE) \
 X(Utils_isUpperChar) X(Utils_isLowerChar) X(Utils_isAlpha)
struct Lib {
    const char* tag;
#define X(f) decltype(&::f) f;
    FUNCS(X)
#undef X
};
extern const Lib LIB[2];
inline const Lib& pick_lib() { return LIB[S.ch.pick(2)]; }

// ---- checksum variants: parameters from the public catalogue
struct CrcVar {
    const char* name; int width; u32 poly, init; bool refl; u32 xorout; u32 check;
    bool has_final;
    u32 (*call)(const Lib&, const u8*, u32, bool, const void*);
};
extern const CrcVar CRCS[45];
static const int NCRC = 45;
