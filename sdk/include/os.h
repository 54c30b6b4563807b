#pragma once
/* Host stand-in for the Ledger SDK header of the same name. */
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include "macros.h"
#ifdef __cplusplus
extern "C" {
#endif
#define PIC(x) (x)
#ifndef PRINTF
#ifdef HAVE_PRINTF
void stub_printf(const char *fmt, ...);
#define PRINTF stub_printf
#else
#define PRINTF(...)
#endif
#endif
typedef uint32_t cx_err_t_os;
#define os_memcpy  memcpy
#define os_memset  memset
#define os_memmove memmove
#define os_memcmp  memcmp
char os_secure_memcmp(const void *a, const void *b, size_t len);
void os_sched_exit(int code);
void explicit_bzero(void *p, size_t n);
uint32_t os_derive_bip32_no_throw(uint32_t curve,
                                  const uint32_t *path,
                                  size_t path_len,
                                  uint8_t raw_key[64],
                                  uint8_t *chain_code);
#ifdef __cplusplus
}
#endif
