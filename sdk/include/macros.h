#pragma once
/* Host stand-in for the Ledger SDK header of the same name. */
#define MEMBER_SIZE(type, member) (sizeof(((type *) 0)->member))
#define ARRAY_LENGTH(array)       (sizeof((array)) / sizeof((array)[0]))
#define ARRAYLEN(array)           (sizeof((array)) / sizeof((array)[0]))
#ifndef WEAK
#define WEAK __attribute__((weak))
#endif
#ifndef UNUSED
#define UNUSED(x) (void) (x)
#endif
#ifndef MIN
#define MIN(x, y) ((x) < (y) ? (x) : (y))
#endif
#ifndef MAX
#define MAX(x, y) ((x) > (y) ? (x) : (y))
#endif
#ifndef U2BE
#define U2BE(buf, off) ((((buf)[off] & 0xFF) << 8) | ((buf)[off + 1] & 0xFF))
#define U4BE(buf, off) ((((uint32_t) (buf)[off]) << 24) | ((buf)[off + 1] << 16) | ((buf)[off + 2] << 8) | ((buf)[off + 3]))
#define U8BE(buf, off) ((((uint64_t) U4BE(buf, off)) << 32) | ((uint64_t) U4BE(buf, off + 4)))
#define U4LE(buf, off) ((((uint32_t) (buf)[off + 3]) << 24) | ((buf)[off + 2] << 16) | ((buf)[off + 1] << 8) | ((buf)[off]))
#define U2BE_ENCODE(buf, off, value) do { (buf)[(off)] = ((value) >> 8) & 0xFF; (buf)[(off) + 1] = (value) & 0xFF; } while (0)
#define U4BE_ENCODE(buf, off, value) do { U2BE_ENCODE(buf, off, (uint32_t) (value) >> 16); U2BE_ENCODE(buf, (off) + 2, (uint32_t) (value)); } while (0)
#define U8BE_ENCODE(buf, off, value) do { U4BE_ENCODE(buf, off, (uint64_t) (value) >> 32); U4BE_ENCODE(buf, (off) + 4, (uint64_t) (value)); } while (0)
#endif
