// vectorised angle reduction
// flags: -mavx2
// absint: --overflow --time 20
#include "types.h"
#include <iostream>
#include <eirin/ext/simd_math.hpp>
constexpr i128 TP = 26986075408LL; // twice the constant pi (32 fractional bits)
// y is x brought into one turn: the same angle, the same sign
inline void reduced(i128 x, i128 y)
{
    i128 ax = x < 0 ? -x : x, ay = x < 0 ? -y : y;
    CHECK(ay >= 0);
    CHECK(ay < 2 * TP);
    CHECK(ay <= TP + (ax >> 29) + 2);
    CHECK((ax - ay) % TP == 0);
    CHECK(ax >= TP || ay == ax);
}
inline std::array<fixed64, 4> run(std::array<fixed64, 4> x) { return simd::simd_reduce_angle(x); }
inline std::array<fixed64, 2> run(std::array<fixed64, 2> x) { return simd::simd_reduce_angle_2(x); }
template <int N> void all()
{
    std::array<fixed64, N> x;
    int lane = any_in<int>(0, N - 1, N);
    for(int i = 0; i < N; ++i) x[i] = mk<fixed64>(i == lane ? (i128)any_in<long long>(INT64_MIN, INT64_MAX) : (i128)(7777777 * (i + 1)) << 30);
    auto y = run(x);
    reduced(raw(x[lane]), raw(y[lane]));
}
OB(four) { all<4>(); }
OB(two) { all<2>(); }
// lanes do not influence one another
template <int N> void separate()
{
    std::array<fixed64, N> x, z;
    int lane = any_in<int>(0, N - 1, N);
    for(int i = 0; i < N; ++i) x[i] = z[i] = mk<fixed64>((i128)(((i + 1) * 7919L) << 29) * (i % 2 ? -1 : 1));
    z[lane] = anyfx<fixed64>();
    auto y = run(x), w = run(z);
    for(int i = 0; i < N; ++i) if(i != lane) { CHECK(raw(y[i]) == raw(w[i])); reduced(raw(x[i]), raw(y[i])); }
}
OB(separate_four) { separate<4>(); }
OB(separate_two) { separate<2>(); }
// both widths agree
OB(agree)
{
    fixed64 x = mk<fixed64>(any_in<long long>(INT64_MIN, INT64_MAX));
    auto y = run(std::array<fixed64, 4>{x, x, x, x});
    auto z = run(std::array<fixed64, 2>{x, x});
    CHECK(raw(y[0]) == raw(z[0]) && raw(y[1]) == raw(z[1]) && raw(y[2]) == raw(y[0]) && raw(y[3]) == raw(y[0]));
}
// scattered values over the whole range
template <int N> void scattered()
{
    i128 v = (i128)any_in<int>(0, 254, 255) * 72340172838076673LL - ((i128)1 << 63);
    std::array<fixed64, N> x;
    for(int i = 0; i < N; ++i) x[i] = mk<fixed64>((v >> (2 * i)) + i);
    auto y = run(x);
    for(int i = 0; i < N; ++i) reduced(raw(x[i]), raw(y[i]));
}
OB(scattered_four) { scattered<4>(); }
OB(scattered_two) { scattered<2>(); }
