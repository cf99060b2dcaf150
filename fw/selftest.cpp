#include "host.h"
#include <avr/io.h>
#include "selftest.inc"
int main() { for (;;) { uint8_t c = SIM_CMD; (void) c; uint32_t s = sim_arg32(); uint16_t n = sim_arg16(); sim_out32( st_run( s, n ) ); SIM_MARK = 1; } }
