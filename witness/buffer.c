/* Uses of the inline length helpers of sc_buf.h (found through the include
 * path of /repo's current tree). */
#include "sc_buf.h"

uint64_t w_len_bool(bool v) { return sc_buf_bool_len(v); }
uint64_t w_len_8(uint8_t v) { return sc_buf_8_len(v); }
uint64_t w_len_16(uint16_t v) { return sc_buf_16_len(v); }
uint64_t w_len_32(uint32_t v) { return sc_buf_32_len(v); }
uint64_t w_len_64(uint64_t v) { return sc_buf_64_len(v); }
uint64_t w_len_double(double v) { return sc_buf_double_len(v); }
uint64_t w_len_blob(void *p, uint64_t n) { return sc_buf_blob_len(p, n); }
uint64_t w_len_str(const char *s) { return sc_buf_str_len(s); }
