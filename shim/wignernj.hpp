// Stand-in for libwignernj (absent in this sandbox): exact Gaunt integrals
//   gaunt(2l1,2m1,2l2,2m2,2l3,2m3) = int Y_l1m1 Y_l2m2 Y_l3m3 dOmega
// evaluated from Racah's formula with arbitrary-precision integers and
// rounded once, like the real library.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <quadmath.h>
#include <cmath>
#include <cstdlib>
#include <mutex>
#include <vector>

namespace vshim {
  using boost::multiprecision::cpp_int;
  inline const cpp_int & fact(int n) {
    static std::vector<cpp_int> tab = [] {
      std::vector<cpp_int> t(1, cpp_int(1));
      for (int i = 1; i <= 1200; i++) t.push_back(t.back() * i);
      return t;
    }();
    return tab.at(n);
  }
  // integer -> mantissa in [2^112..) and exponent
  inline __float128 to_q(const cpp_int & a, int & ex) {
    cpp_int b = a < 0 ? cpp_int(-a) : a;
    ex = 0;
    if (b == 0) return 0;
    int bits = (int) boost::multiprecision::msb(b) + 1;
    if (bits > 126) { b >>= (bits - 126); ex = bits - 126; }
    __float128 r = 0;
    unsigned long long lo = (unsigned long long) (b & cpp_int(0xffffffffffffffffULL));
    unsigned long long hi = (unsigned long long) (b >> 64);
    r = (__float128) hi * 18446744073709551616.0Q + (__float128) lo;
    return a < 0 ? -r : r;
  }
  inline __float128 ratio(const cpp_int & n, const cpp_int & d) {
    int en, ed;
    __float128 a = to_q(n, en), b = to_q(d, ed);
    return ldexpq(a / b, en - ed);
  }
  // 3j symbol for integer arguments: returns sign*sqrt(rational)*sum as float128
  inline __float128 threej(int j1, int m1, int j2, int m2, int j3, int m3) {
    if (m1 + m2 + m3 != 0) return 0;
    if (std::abs(m1) > j1 || std::abs(m2) > j2 || std::abs(m3) > j3) return 0;
    if (j3 < std::abs(j1 - j2) || j3 > j1 + j2) return 0;
    cpp_int num = fact(j1 + j2 - j3) * fact(j1 - j2 + j3) * fact(-j1 + j2 + j3)
                  * fact(j1 + m1) * fact(j1 - m1) * fact(j2 + m2) * fact(j2 - m2) * fact(j3 + m3) * fact(j3 - m3);
    cpp_int den = fact(j1 + j2 + j3 + 1);
    int tmin = std::max(0, std::max(j2 - j3 - m1, j1 - j3 + m2));
    int tmax = std::min(j1 + j2 - j3, std::min(j1 - m1, j2 + m2));
    if (tmin > tmax) return 0;
    // common denominator: sum_t (-1)^t / prod ; bring to integers with D = lcm-ish product of the largest factorials
    cpp_int D = fact(tmax) * fact(j3 - j2 + tmax + m1) * fact(j3 - j1 + tmax - m2)
                * fact(j1 + j2 - j3 - tmin) * fact(j1 - tmin - m1) * fact(j2 - tmin + m2);
    cpp_int S = 0;
    for (int t = tmin; t <= tmax; t++) {
      cpp_int d = fact(t) * fact(j3 - j2 + t + m1) * fact(j3 - j1 + t - m2)
                  * fact(j1 + j2 - j3 - t) * fact(j1 - t - m1) * fact(j2 - t + m2);
      cpp_int q = D / d;   // exact: each factorial divides its maximum
      if (t & 1) S -= q; else S += q;
    }
    if (S == 0) return 0;
    __float128 v = sqrtq(ratio(num * S * S, den * D * D));
    if (S < 0) v = -v;
    if ((j1 - j2 - m3) & 1) v = -v;
    return v;
  }
  inline __float128 gaunt_exact(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3) {
    int l1 = tl1 / 2, m1 = tm1 / 2, l2 = tl2 / 2, m2 = tm2 / 2, l3 = tl3 / 2, m3 = tm3 / 2;
    if ((l1 + l2 + l3) & 1) return 0;
    if (l1 < 0 || l2 < 0 || l3 < 0) return 0;
    __float128 a = threej(l1, 0, l2, 0, l3, 0);
    if (a == 0) return 0;
    __float128 b = threej(l1, m1, l2, m2, l3, m3);
    if (b == 0) return 0;
    __float128 pre = sqrtq((__float128)((2 * l1 + 1)) * (2 * l2 + 1) * (2 * l3 + 1) / (4 * M_PIq));
    return pre * a * b;
  }
}

namespace wignernj {
  template <typename T> inline T gaunt(int tl1, int tm1, int tl2, int tm2, int tl3, int tm3) {
    return (T) vshim::gaunt_exact(tl1, tm1, tl2, tm2, tl3, tm3);
  }
}
