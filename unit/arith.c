// Plain C doors to the checked arithmetic.
#include "common/safeint.h"
// 0 add u64, 1 sub u64, 2 add i64, 3 sub i64
int vp_checked(int op, uint64_t l, uint64_t r, uint64_t *out) {
    int64_t s = 0; int ok;
    switch (op) {
        case 0: return checked_add_u64(l, r, out);
        case 1: return checked_sub_u64(l, r, out);
        case 2: ok = checked_add_i64((int64_t) l, r, &s); *out = s; return ok;
        default: ok = checked_sub_i64((int64_t) l, r, &s); *out = s; return ok;
    }
}
