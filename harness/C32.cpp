// CORDIC sine
// absint: --overflow --max-cells 400000 --time 400
#include "types.h"
#include <eirin/ext/cordic.hpp>
#ifdef THOROUGH
#define LIM (14 << 16)
#define WIN 128
#define STEP 16
#else
#define LIM (7 << 16)
#define WIN 64
#define STEP 8
#endif
// more than two turns around zero (thorough: [-14, 14]), every value
OB(sine_f32) { auto x = fx_in<fixed32>(-LIM, LIM, 1024); near(R_SIN, x, cordic_sine(x), 0x1p-11, 0); }
// windows over several turns
OB(turns_f32) { int j = any_in<int>(-56, 56, 113), d = any_in<int>(-WIN, WIN); auto x = mk<fixed32>((i128)j * 8192 + d); near(R_SIN, x, cordic_sine(x), 0x1p-11, 0); }
OB(turns_f64) { int j = any_in<int>(-7 * STEP, 7 * STEP, 14 * STEP + 1); long d = any_in<long>(-WIN, WIN); auto x = mk<fixed64>((i128)j * ((1LL << 32) / STEP) + d); near(R_SIN, x, cordic_sine(x), 0x1p-26, 0); }
// far arguments keep the sine's bounds
OB(extreme_f32) { int s = any_in<int>(0, 1, 2), d = any_in<int>(0, WIN); auto x = mk<fixed32>(s ? (i128)INT32_MAX - d : (i128)INT32_MIN + d); auto r = raw(cordic_sine(x)); CHECK(r <= 65536 + 32 && r >= -65536 - 32); }
OB(extreme_f64) { int s = any_in<int>(0, 1, 2), d = any_in<int>(0, 1); auto x = mk<fixed64>(s ? (i128)INT64_MAX - d : (i128)INT64_MIN + d); auto r = raw(cordic_sine(x)); CHECK(r <= (1LL << 32) + 64 && r >= -(1LL << 32) - 64); }
// odd
OB(odd_f32) { auto x = fx_in<fixed32>(0, 200000, 64); CHECK(raw(cordic_sine(-x)) == -raw(cordic_sine(x))); }
