// Reference conversions of the generated value texts
#ifndef CONV_REF_HPP
#define CONV_REF_HPP
#include "ref.hpp"
#include <cstdlib>
#include <cmath>
// ---- model of the values
inline bool int_of(const std::string& s, long long lo, long long hi, long long& v)
{
   std::size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { neg = s[i] == '-'; ++i; }
   if (neg && lo == 0) return false;
   if (i == s.size()) return false; __int128 x = 0;
   for (; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (s[i] - '0'); if (x > (static_cast<__int128>(1) << 70)) return false; }
   if (neg) x = -x; if (x < lo || x > hi) return false; v = static_cast<long long>(x); return true;
}
inline bool real_of(const std::string& s, double& v)
{
   // the generated reals: [-]digits[.digits]; everything else generated is not a number
   std::size_t i = 0; if (i < s.size() && s[i] == '-') ++i; std::size_t d = 0; while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { ++i; ++d; } if (!d) return false;
   if (i < s.size() && s[i] == '.') { ++i; std::size_t f = 0; while (i < s.size() && isdigit(static_cast<unsigned char>(s[i]))) { ++i; ++f; } if (!f) return false; }
   if (i != s.size()) return false; v = strtod(s.c_str(),0); return true;
}
#endif
