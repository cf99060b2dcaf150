// Ports of the simulator (reserved addresses of the real chip).
#pragma once
#include <stdint.h>
#define SIM_PORT( a ) ( *(volatile uint8_t *)( a ) )
#define SIM_CMD  SIM_PORT( 0xD0 )   // read: next command for the main program
#define SIM_ARG  SIM_PORT( 0xD1 )   // read: next argument byte for the main program
#define SIM_OUT  SIM_PORT( 0xD2 )   // write: result byte of the main program
#define SIM_MARK SIM_PORT( 0xD3 )   // write: mark a point of the main program
#define SIM_ICMD SIM_PORT( 0xD8 )   // the same for interrupt handlers
#define SIM_IARG SIM_PORT( 0xD9 )
#define SIM_IOUT SIM_PORT( 0xDA )
#define SIM_IMARK SIM_PORT( 0xDB )
inline uint16_t sim_arg16() { uint8_t l = SIM_ARG; return l | uint16_t( SIM_ARG ) << 8; }
inline uint32_t sim_arg32() { uint16_t l = sim_arg16(); return l | uint32_t( sim_arg16() ) << 16; }
inline void sim_out16( uint16_t v ) { SIM_OUT = v; SIM_OUT = v >> 8; }
inline void sim_out32( uint32_t v ) { sim_out16( v ); sim_out16( v >> 16 ); }
inline uint16_t sim_iarg16() { uint8_t l = SIM_IARG; return l | uint16_t( SIM_IARG ) << 8; }
inline uint32_t sim_iarg32() { uint16_t l = sim_iarg16(); return l | uint32_t( sim_iarg16() ) << 16; }
inline void sim_iout16( uint16_t v ) { SIM_IOUT = v; SIM_IOUT = v >> 8; }
inline void sim_iout32( uint32_t v ) { sim_iout16( v ); sim_iout16( v >> 16 ); }
