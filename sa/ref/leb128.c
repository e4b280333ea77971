/*
 * LEB128 numbers as the binary format defines them: seven bits per byte, low
 * bits first, bit 7 set on all but the last byte; a number of N bits takes at
 * most ceil(N / 7) bytes, and the bits of the last byte beyond N are copies
 * of the sign bit (signed) or zero (unsigned).  Without an end of input the
 * number was checked before, when the module was loaded.
 */
#include <errno.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stddef.h>

#include "leb128.h"

typedef const uint8_t **pos_t;
typedef const uint8_t *end_t;

static int
decode(pos_t pp, end_t ep, unsigned int bits, bool is_signed, uint64_t *out)
{
        const uint8_t *p = *pp;
        const bool check = ep != NULL;
        if (check && ep - p < 1) {
                return EINVAL;
        }
        uint8_t b = *p++;
        if (b < 0x80) {
                *out = is_signed ? (uint64_t)((int64_t)((uint64_t)b << 57) >>
                                              57)
                                 : b;
                *pp = p;
                return 0;
        }
        if (check) {
                end_t last = p - 1 + (bits + 6) / 7;
                if (last < ep) {
                        ep = last;
                }
        }
        uint64_t value = 0;
        unsigned int at = 0;
        bool minus = false;
        while (true) {
                uint8_t v = b % 128;
                if (check) {
                        if (at < bits) {
                                unsigned int left = bits - at;
                                if (is_signed) {
                                        minus = (b & 0x40) != 0;
                                }
                                if (left < 7) {
                                        uint8_t high =
                                                is_signed
                                                        ? (uint8_t)(~0U
                                                                    << (left -
                                                                        1))
                                                        : (uint8_t)(~0U
                                                                    << left);
                                        uint8_t odd = minus ? (~b & 0x7f) : v;
                                        if ((odd & high) != 0) {
                                                return E2BIG;
                                        }
                                }
                        } else if (v != (minus ? 0x7f : 0)) {
                                return E2BIG;
                        }
                }
                value |= (uint64_t)v << at;
                at += 7;
                if (b < 0x80) {
                        break;
                }
                if (ep != NULL && ep - p < 1) {
                        return EINVAL;
                }
                b = *p++;
        }
        if (!check && is_signed) {
                minus = (b & 0x40) != 0;
        }
        if (minus && at < 64) {
                value |= UINT64_MAX << at;
        }
        *out = value;
        *pp = p;
        return 0;
}

#define BODY(BITS, SIGNED, TYPE)                                              \
        {                                                                     \
                uint64_t v;                                                   \
                int ret = decode(pp, ep, BITS, SIGNED, &v);                   \
                if (ret == 0) {                                               \
                        *out = (TYPE)v;                                       \
                }                                                             \
                return ret;                                                   \
        }
#define KNOWN(BITS, SIGNED, TYPE)                                             \
        {                                                                     \
                uint64_t v;                                                   \
                decode(pp, NULL, BITS, SIGNED, &v);                           \
                return (TYPE)v;                                               \
        }

int
ref_read_leb_u32__0(pos_t pp, end_t ep, uint32_t *out)
BODY(32, false, uint32_t)

/* an uninterpreted number is encoded as a signed one */
int
ref_read_leb_i32__0(pos_t pp, end_t ep, uint32_t *out)
BODY(32, true, uint32_t)

int
ref_read_leb_s32__0(pos_t pp, end_t ep, int32_t *out)
BODY(32, true, int32_t)

int
ref_read_leb_u64__0(pos_t pp, end_t ep, uint64_t *out)
BODY(64, false, uint64_t)

int
ref_read_leb_i64__0(pos_t pp, end_t ep, uint64_t *out)
BODY(64, true, uint64_t)

int
ref_read_leb_s64__0(pos_t pp, end_t ep, int64_t *out)
BODY(64, true, int64_t)

int
ref_read_leb_u__0(pos_t pp, end_t ep, unsigned int bits, uint64_t *out)
BODY(bits, false, uint64_t)

int
ref_read_leb_s__0(pos_t pp, end_t ep, unsigned int bits, int64_t *out)
BODY(bits, true, int64_t)

uint32_t
ref_read_leb_u32_nocheck__0(pos_t pp)
KNOWN(32, false, uint32_t)

uint32_t
ref_read_leb_i32_nocheck__0(pos_t pp)
KNOWN(32, true, uint32_t)

uint64_t
ref_read_leb_i64_nocheck__0(pos_t pp)
KNOWN(64, true, uint64_t)

int64_t
ref_read_leb_s33_nocheck__0(pos_t pp)
KNOWN(33, true, int64_t)
