// Analysis driver for the number conversions. Never executed; compiled to LLVM IR only.
#include <cachelot/common.h>
#include <cachelot/string_conv.h>
using namespace cachelot;
#define DRV(N, T) \
    T drv_parse_##N(const char * b, const char * e) { return str_to_int<T>(b, e); } \
    T drv_parse_ec_##N(const char * b, const char * e, error_code & ec) { return str_to_int<T>(b, e, ec); } \
    size_t drv_print_##N(T v, char * d) { return int_to_str(v, d); } \
    size_t prb_len_##N() { return internal::numeric<T>::max_str_length; }
DRV(16, uint16)
DRV(32, uint32)
DRV(64, uint64)
size_t prb_abuf() { return sizeof(AsciiIntegerBuffer); }
