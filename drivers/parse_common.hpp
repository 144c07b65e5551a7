// Typed slots with an independent conversion oracle, used by the parse drivers.
#ifndef VH_PARSE_COMMON
#define VH_PARSE_COMMON
#include "ref.hpp"
#include <climits>
#include <cmath>
#include <cfloat>
#include <tuple>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <type_traits>

namespace slot
{
   inline bool digits(const std::string& s, std::size_t from = 0)
   { if (from >= s.size()) return false; for (std::size_t i = from; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }

   template <typename T, typename E = void> struct of;

   template <typename T> struct of<T,typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 1)>::type>
   {
      static bool conv(const std::string& s, T& t)
      {
         const bool sg = !s.empty() && (s[0] == '+' || (std::is_signed<T>::value && s[0] == '-'));
         if (!digits(s,sg)) return false;
         std::string d = s.substr(sg); std::size_t z = d.find_first_not_of('0'); d = z == std::string::npos ? "0" : d.substr(z);
         if (d.size() > 20) return false;
         __int128 v = 0; for (std::size_t i = 0; i < d.size(); ++i) v = v * 10 + (d[i] - '0');
         if (s[0] == '-') v = -v;
         if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max())) return false;
         t = static_cast<T>(v); return true;
      }
      static T value(vh::Rng& r)
      {
         switch (r.below(6))
         {
            case 0 : return std::numeric_limits<T>::max();
            case 1 : return std::numeric_limits<T>::min();
            case 2 : return static_cast<T>(r.below(10));
            case 3 : return static_cast<T>(r.range(-128,127));
            default: return static_cast<T>(r.next() >> r.below(64));
         }
      }
      static std::string good(vh::Rng& r) { std::string s = std::to_string(value(r)); if (s[0] != '-' && r.chance(1,8)) s = "+" + s; return s; }
      static std::string bad(vh::Rng& r)
      { static const char* b[] = { "x", "12a", "-", "+", "1.5", "--1", "99999999999999999999999", "0x10", "1-", "a1" }; return b[r.below(10)]; }
      static T junk() { return static_cast<T>(55); }
      static bool same(const T& a, const T& b) { return a == b; }
   };
   template <typename T> struct of<T,typename std::enable_if<std::is_floating_point<T>::value>::type>
   {
      static bool conv(const std::string& s, T& t)
      {
         const std::size_t sg = !s.empty() && (s[0] == '+' || s[0] == '-');
         std::size_t dots = 0, ds = 0;
         for (std::size_t i = sg; i < s.size(); ++i) { if (s[i] == '.') ++dots; else if (s[i] >= '0' && s[i] <= '9') ++ds; else return false; }
         if (!ds || dots > 1) return false;
         t = static_cast<T>(strtod(s.c_str(),0)); return true;
      }
      static std::string good(vh::Rng& r) // short decimals with an exact value in every real type
      { char b[64]; snprintf(b,64,"%.*f",static_cast<int>(2 * r.below(2)),static_cast<double>(r.range(-4000,4000)) / 4.0); return b; }
      static std::string bad(vh::Rng& r)
      { static const char* b[] = { "x", "1.2.3", "12a", "-x", "1,5x", "--1", "1..2" , "abc.5"}; return b[r.below(8)]; }
      static T junk() { return static_cast<T>(55.5); }
      static bool same(const T& a, const T& b) { return std::abs(a - b) <= static_cast<T>(1e-5) * (1 + std::abs(b)); }
   };
   template <typename T> struct of<T,typename std::enable_if<sizeof(T) == 1 && !std::is_same<T,bool>::value>::type>
   {
      static bool conv(const std::string& s, T& t) { if (s.size() != 1) return false; t = static_cast<T>(s[0]); return true; }
      static std::string good(vh::Rng& r) { return std::string(1,r.pick("azAZ09*.")); }
      static std::string bad(vh::Rng& r) { return r.flip() ? "ab" : "xyz"; }
      static T junk() { return 'J'; }
      static bool same(const T& a, const T& b) { return a == b; }
   };
   template <> struct of<bool>
   {
      static bool conv(const std::string& s, bool& t) { if (s.size() != 1) return false; t = s[0] != '0'; return true; }
      static std::string good(vh::Rng& r) { return r.flip() ? "0" : "1"; }
      static std::string bad(vh::Rng& r) { return r.flip() ? "01" : "11"; }
      static bool junk() { return true; }
      static bool same(bool a, bool b) { return a == b; }
   };
   template <> struct of<std::string>
   {
      static bool conv(const std::string& s, std::string& t) { t = s; return true; }
      static std::string good(vh::Rng& r) { return r.str(1 + r.below(r.chance(1,10) ? 60 : 8),"abcXYZ019.-_ "); }
      static std::string bad(vh::Rng& r) { return good(r); }
      static std::string junk() { return "junk"; }
      static bool same(const std::string& a, const std::string& b) { return a == b; }
   };

   inline std::string record(vh::Rng& r, const std::vector<std::string>& toks, const std::string& delims)
   {
      std::string s;
      if (r.chance(1,12)) s += delims[r.below(delims.size())];
      for (std::size_t i = 0; i < toks.size(); ++i)
      {
         if (i) for (std::size_t k = r.chance(1,4) ? 1 + r.below(3) : 1; k-- > 0;) s += delims[r.below(delims.size())];
         s += toks[i];
      }
      if (r.chance(1,6)) for (std::size_t k = 1 + r.below(2); k-- > 0;) s += delims[r.below(delims.size())];
      return s;
   }
   inline std::string delims(vh::Rng& r)
   { static const char* d[] = { "|", "|;", "\t", ",:|", "#", "|\xFF" }; return d[r.below(6)]; }
}
#endif
