/* The C functions, called the way a C program calls them: through the header. */
#include "divans/ffi.h"

#define C(ret, name, params, args) ret shim_##name params; ret shim_##name params { return name args; }
#define V(name, params, args) void shim_##name params; void shim_##name params { name args; }
typedef struct DivansCompressorState Enc;
typedef struct DivansDecompressorState Dec;
C(Enc *, divans_new_compressor, (void), ())
C(Enc *, divans_new_compressor_with_custom_alloc, (struct CAllocator a), (a))
C(uint8_t, divans_encode, (Enc *s, const uint8_t *i, size_t n, size_t *io, uint8_t *o, size_t m, size_t *oo), (s, i, n, io, o, m, oo))
C(uint8_t, divans_encode_flush, (Enc *s, uint8_t *o, size_t m, size_t *oo), (s, o, m, oo))
V(divans_free_compressor, (Enc *s), (s))
C(Dec *, divans_new_decompressor, (void), ())
C(Dec *, divans_new_decompressor_with_custom_alloc, (struct CAllocator a, uint8_t skip_crc, uint8_t multithread), (a, skip_crc, multithread))
C(uint8_t, divans_decode, (Dec *s, const uint8_t *i, size_t n, size_t *io, uint8_t *o, size_t m, size_t *oo), (s, i, n, io, o, m, oo))
V(divans_free_decompressor, (Dec *s), (s))

/* selectors by what their names say */
static DivansOptionSelect selector(uint8_t k) {
    switch (k) {
    case 1: return DIVANS_OPTION_QUALITY;
    case 2: return DIVANS_OPTION_WINDOW_SIZE;
    case 3: return DIVANS_OPTION_LGBLOCK;
    case 4: return DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING;
    case 5: return DIVANS_OPTION_USE_BROTLI_COMMAND_SELECTION;
    case 6: return DIVANS_OPTION_USE_BROTLI_BITSTREAM;
    case 7: return DIVANS_OPTION_USE_CONTEXT_MAP;
    case 8: return DIVANS_OPTION_LITERAL_ADAPTATION_CM_HIGH;
    case 9: return DIVANS_OPTION_FORCE_STRIDE_VALUE;
    case 10: return DIVANS_OPTION_STRIDE_DETECTION_QUALITY;
    case 11: return DIVANS_OPTION_PRIOR_DEPTH;
    case 12: return DIVANS_OPTION_LITERAL_ADAPTATION_STRIDE_HIGH;
    case 13: return DIVANS_OPTION_LITERAL_ADAPTATION_CM_LOW;
    case 14: return DIVANS_OPTION_LITERAL_ADAPTATION_STRIDE_LOW;
    case 15: return DIVANS_OPTION_BROTLI_LITERAL_BYTE_SCORE;
    case 16: return DIVANS_OPTION_SPEED_DETECTION_QUALITY;
    case 17: return DIVANS_OPTION_PRIOR_BITMASK_DETECTION;
    case 18: return DIVANS_OPTION_Q9_5;
    case 19: return DIVANS_OPTION_FORCE_LITERAL_CONTEXT_MODE;
    default: return k;
    }
}
uint8_t shim_divans_set_option(Enc *s, uint8_t k, uint32_t v);
uint8_t shim_divans_set_option(Enc *s, uint8_t k, uint32_t v) {
    return divans_set_option(s, selector(k), v);
}
/* what a C program compares answers with */
uint8_t shim_meaning(uint8_t k);
uint8_t shim_meaning(uint8_t k) {
    static const DivansResult all[4] = {DIVANS_SUCCESS, DIVANS_NEEDS_MORE_INPUT, DIVANS_NEEDS_MORE_OUTPUT, DIVANS_FAILURE};
    return all[k & 3];
}
