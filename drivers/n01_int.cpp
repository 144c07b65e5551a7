// N01: integer/byte/bool conversion is exact.
#include <strtk.hpp>
#include "vh.hpp"
#include "parse_common.hpp"

template <typename T> static T poison() { return static_cast<T>(77); }

// every entry point that converts one token
template <typename T> static void judge(vh::Case& c, const std::string& s)
{
   T want = poison<T>(); const bool ok = slot::of<T>::conv(s,want);
   vh::Buf<char> b(s);
   c.context = "type size " + vh::show(sizeof(T)) + (std::is_signed<T>::value ? "s" : "u") + " text " + vh::q(s);
   { T t = poison<T>(); const bool g = strtk::string_to_type_converter(static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),t);
     V_EQ(g,ok,"pointer form verdict"); V_EQ(t,(ok ? want : poison<T>()),"pointer form value"); }
   { T t = poison<T>(); const bool g = strtk::string_to_type_converter(reinterpret_cast<const unsigned char*>(b.begin()),reinterpret_cast<const unsigned char*>(b.end()),t);
     V_EQ(g,ok,"byte pointer form verdict"); V_EQ(t,(ok ? want : poison<T>()),"byte pointer form value"); }
   { T t = poison<T>(); const bool g = strtk::string_to_type_converter(s,t);
     V_EQ(g,ok,"string form verdict"); V_EQ(t,(ok ? want : poison<T>()),"string form value"); }
   { T t = poison<T>(); const bool g = strtk::string_to_type_converter(std::make_pair(s.begin(),s.end()),t);
     V_EQ(g,ok,"range form verdict"); V_EQ(t,(ok ? want : poison<T>()),"range form value"); }
   { T t = poison<T>(); bool threw = false; try { t = strtk::string_to_type_converter<T>(s); } catch (const std::invalid_argument&) { threw = true; }
     V_EQ(threw,!ok,"throwing form verdict"); if (ok) V_EQ(t,want,"throwing form value"); }
   { T t = poison<T>(); bool threw = false; try { t = strtk::string_to_type_converter<T>(static_cast<const char*>(b.begin()),static_cast<const char*>(b.end())); } catch (const std::invalid_argument&) { threw = true; }
     V_EQ(threw,!ok,"throwing pointer form verdict"); if (ok) V_EQ(t,want,"throwing pointer form value"); }
   { T t = poison<T>(); bool threw = false; try { t = strtk::string_to_type_converter<T>(std::make_pair(s.begin(),s.end())); } catch (const std::invalid_argument&) { threw = true; }
     V_EQ(threw,!ok,"throwing range form verdict"); if (ok) V_EQ(t,want,"throwing range form value"); }
   c.event(ok ? "accepted" : "refused");
   if (!s.empty()) c.cover(vh::hash_str(s) + sizeof(T) * 2 + std::is_signed<T>::value);
   c.sample(c.context + (ok ? " accepted" : " refused"));
}

static std::string dec(unsigned __int128 v) { std::string s; do { s.insert(s.begin(),static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v); return s; }

template <typename T> static std::string text(vh::Rng& r)
{
   const unsigned __int128 mx = static_cast<unsigned __int128>(std::numeric_limits<T>::max());
   unsigned __int128 v = 0;
   switch (r.below(9))
   {
      case 0 : v = mx + r.below(12); break;
      case 1 : v = mx - r.below(12); break;
      case 2 : v = mx * 10 + r.below(20); break;
      case 3 : v = mx / 10 + r.below(6); break;
      case 4 : v = mx + 1 + r.below(1000000); break;
      case 5 : v = (mx + 1) * (1 + r.below(12)) + r.below(40) - 20; break;             // wraps around the type
      case 6 : { v = 1; for (unsigned k = r.below(25); k > 0; --k) v *= 10; v += static_cast<unsigned __int128>(r.below(3)) - 1; break; }
      case 7 : v = r.next() >> r.below(64); break;
      default: v = (static_cast<unsigned __int128>(r.next()) << (r.below(20))) + r.next(); break;
   }
   std::string s = dec(v);
   if (s.size() > 30) s.resize(30);
   if (r.chance(1,3)) s.insert(0,std::string(r.below((r.chance(1,8) ? 60 : 4) * (r.boost > 1 && r.flip() ? r.boost : 1)),'0'));
   switch (r.below(6)) { case 0 : case 1 : case 2 : s.insert(s.begin(),'-'); break; case 3 : s.insert(s.begin(),'+'); break; default : break; }
   if (r.chance(1,6)) // corrupt
   {
      const std::size_t p = r.below(s.size() + 1);
      switch (r.below(4))
      {
         case 0 : s.insert(p,1,r.pick(" -+./:;xeE,'\t")); break;
         case 1 : if (p < s.size()) s[p] = static_cast<char>(r.next()); break;
         case 2 : if (p < s.size()) s[p] = static_cast<char>(s[p] + (r.flip() ? 128 : 10)); break;
         default: s.resize(p); break;
      }
   }
   return s;
}

template <typename T> static void batch(vh::Case& c) { for (int i = 0; i < 40; ++i) judge<T>(c,text<T>(c.r)); }

V_SECTION(integers,2600)
{
   switch (c.index % 8)
   {
      case 0 : batch<short>(c); break;
      case 1 : batch<unsigned short>(c); break;
      case 2 : batch<int>(c); break;
      case 3 : batch<unsigned int>(c); break;
      case 4 : batch<long>(c); break;
      case 5 : batch<unsigned long>(c); break;
      case 6 : batch<long long>(c); break;
      default: batch<unsigned long long>(c); break;
   }
}

// every 16-bit value and its out-of-range neighbourhood
V_SECTION(sixteen_bit,1000)
{
   const long lo = static_cast<long>(c.index % 1000) * 200 - 100000;
   for (long v = lo; v < lo + 200; ++v)
   {
      const std::string s = std::to_string(v);
      judge<short>(c,s); judge<unsigned short>(c,s);
   }
   c.event("sixteen_bit_values",200);
}

V_SECTION(boundaries,24)
{
   for (int d = -30; d <= 30; ++d)
   {
      #define BD(T) { const __int128 hi = static_cast<__int128>(std::numeric_limits<T>::max()) + d; judge<T>(c,dec(static_cast<unsigned __int128>(hi))); judge<T>(c,"-" + dec(static_cast<unsigned __int128>(hi))); \
                      judge<T>(c,"+00" + dec(static_cast<unsigned __int128>(hi))); judge<T>(c,"-000" + dec(static_cast<unsigned __int128>(hi))); c.event("boundary_values",4); }
      switch (c.index % 8) { case 0 : BD(short) break; case 1 : BD(unsigned short) break; case 2 : BD(int) break; case 3 : BD(unsigned int) break;
                             case 4 : BD(long) break; case 5 : BD(unsigned long) break; case 6 : BD(long long) break; default : BD(unsigned long long) break; }
   }
}

// every string of up to three characters over the interesting alphabet
V_SECTION(short_strings,200)
{
   static const std::string al = "0159-+ .x/:\xB0";
   std::vector<std::string> all(1,"");
   for (std::size_t i = 0, n = 0; n < 3; ++n) { const std::size_t e = all.size(); for (; i < e; ++i) for (std::size_t k = 0; k < al.size(); ++k) all.push_back(all[i] + al[k]); }
   for (std::size_t i = c.index % 200; i < all.size(); i += 200)
   {
      judge<int>(c,all[i]); judge<unsigned short>(c,all[i]); judge<long long>(c,all[i]); judge<unsigned long>(c,all[i]);
      judge<char>(c,all[i]); judge<unsigned char>(c,all[i]); judge<signed char>(c,all[i]); judge<bool>(c,all[i]);
      c.event("short_strings");
   }
}

// every single byte, for the one-character types
V_SECTION(single_bytes,64)
{
   for (int k = 0; k < 4; ++k)
   {
      const std::string s(1,static_cast<char>((c.index * 4 + k) & 0xFF));
      judge<char>(c,s); judge<unsigned char>(c,s); judge<signed char>(c,s); judge<bool>(c,s); judge<short>(c,s); judge<unsigned long long>(c,s);
      const std::string s2 = s + static_cast<char>(c.r.next());
      judge<char>(c,s2); judge<bool>(c,s2);
      c.event("bytes_judged");
   }
}

V_MAIN
