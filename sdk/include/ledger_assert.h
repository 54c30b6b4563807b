#pragma once
#include <stdlib.h>
void stub_assert_failed(const char *file, int line);
#define LEDGER_ASSERT(test, ...)                           \
    do {                                                   \
        if (!(test)) stub_assert_failed(__FILE__, __LINE__); \
    } while (0)
#define LEDGER_ASSERT_EXIT(x) stub_assert_failed(__FILE__, __LINE__)
