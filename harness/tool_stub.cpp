// The library is compiled with coverage counters for the harnesses; the tools do not use them.
#include <cstdint>
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t*, uint8_t*) { }
