// N03: type_to_string is the exact decimal text for integers and parses back to the value.
#include <strtk.hpp>
#include "vh.hpp"
#include "parse_common.hpp"

template <typename T> static std::string text_of(T v)
{
   unsigned __int128 m = v < 0 ? -static_cast<__int128>(v) : static_cast<unsigned __int128>(v);
   std::string s; do { s.insert(s.begin(),static_cast<char>('0' + static_cast<int>(m % 10))); m /= 10; } while (m);
   return v < 0 ? "-" + s : s;
}

template <typename T> static void judge(vh::Case& c, T v)
{
   const std::string want = text_of<T>(v);
   c.context = "value " + want;
   V_EQ(strtk::type_to_string(v),want,"type_to_string(value)");
   std::string s = "previous content"; V_CHECK(strtk::type_to_string(v,s),"type_to_string(value,string)"); V_EQ(s,want,"type_to_string(value,string)");
   T back = static_cast<T>(1); V_CHECK(strtk::string_to_type_converter(s,back),"parses back"); V_EQ(back,v,"round trip");
   c.cover(want + static_cast<char>('0' + sizeof(T)));
   c.event("integers_formatted"); c.sample(c.context);
}

template <typename T> static void batch(vh::Case& c)
{
   for (int i = 0; i < 60; ++i)
   {
      T v;
      switch (c.r.below(6))
      {
         case 0 : v = static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(c.r.below(1200))); break;
         case 1 : v = static_cast<T>(std::numeric_limits<T>::min() + static_cast<T>(c.r.below(1200))); break;
         case 2 : { v = 1; const unsigned n = c.r.below(std::numeric_limits<T>::digits10 + 1); for (unsigned k = 0; k < n; ++k) v = static_cast<T>(v * 10); v = static_cast<T>(v - c.r.below(2)); if (std::is_signed<T>::value && c.r.flip()) v = static_cast<T>(-v); break; }
         case 3 : v = static_cast<T>(c.r.below(1100)); break;
         default: v = static_cast<T>(c.r.next() >> c.r.below(64)); break;
      }
      judge<T>(c,v);
   }
}

V_SECTION(integers,2400)
{
   switch (c.index % 8)
   {
      case 0 : batch<short>(c); break;
      case 1 : batch<unsigned short>(c); break;
      case 2 : batch<int>(c); break;
      case 3 : batch<unsigned int>(c); break;
      case 4 : batch<long>(c); break;
      case 5 : batch<unsigned long>(c); break;
      case 6 : batch<long long>(c); break;
      default: batch<unsigned long long>(c); break;
   }
}

// all 16-bit values, and every value below 1e6 by stride (all three-digit groups in every position)
V_SECTION(sixteen_bit,256)
{
   for (int k = 0; k < 256; ++k) { const int v = static_cast<int>(c.index % 256) * 256 + k; judge<unsigned short>(c,static_cast<unsigned short>(v)); judge<short>(c,static_cast<short>(v - 32768)); }
   c.event("sixteen_bit_values",256);
}
V_SECTION(digit_groups,250)
{
   for (int k = 0; k < 4; ++k)
   {
      const unsigned long long g = (c.index % 250) * 4 + k;
      unsigned long long m = 1;
      for (int p = 0; p < 6; ++p, m *= 1000) { judge<unsigned long long>(c,g * m); judge<unsigned long long>(c,g * m + 1000000000000000000ULL); judge<long long>(c,-static_cast<long long>(g * m)); }
      judge<int>(c,static_cast<int>(g * 1000000)); judge<unsigned int>(c,static_cast<unsigned>(g * 1000000));
      c.event("digit_groups");
   }
}

template <typename T> static T real_value(vh::Rng& r)
{
   switch (r.below(8))
   {
      case 0 : return static_cast<T>(r.range(-1000000,1000000)) / static_cast<T>(100);
      case 1 : return static_cast<T>(r.range(-1000,1000));
      case 2 : return static_cast<T>(r.unit());
      case 3 : return std::numeric_limits<T>::epsilon() * static_cast<T>(r.range(-100000,100000));
      case 4 : return 0;
      default:
      {
         const int lim = std::is_same<T,float>::value ? 36 : 290;
         T v = static_cast<T>(1 + r.unit()) * std::pow(static_cast<T>(10),static_cast<T>(r.range(-lim,lim)));
         return r.flip() ? -v : v;
      }
   }
}

// ten significant digits: the text is within 5e-10 of the value, which identifies a float exactly
template <typename T> static void real_trip(vh::Case& c, T tol, T back_tol)
{
   for (int i = 0; i < 20; ++i)
   {
      const T v = real_value<T>(c.r);
      std::string s = "junk"; c.context = "real " + vh::show(v);
      V_CHECK(strtk::type_to_string(v,s),"formats"); V_EQ(strtk::type_to_string(v),s,"both forms");
      c.context += " text " + vh::q(s);
      char* e = 0; const long double ref = strtold(s.c_str(),&e);
      V_CHECK(*e == 0 && !s.empty(),"is a decimal real");
      V_CHECK(std::fabs(ref - static_cast<long double>(v)) <= static_cast<long double>(tol) * std::fabs(static_cast<long double>(v)),"text denotes the value within the format precision, got " << ref);
      T back = 5; V_CHECK(strtk::string_to_type_converter(s,back),"parses back");
      V_CHECK(std::fabs(back - v) <= back_tol * std::fabs(v),"round trip gives " << back);
      c.cover(s); c.event("reals_formatted"); c.sample(c.context);
   }
}

V_SECTION(reals,1500)
{
   switch (c.index % 3)
   {
      case 0 : real_trip<float>(c,5.1e-10f,0); break;
      case 1 : real_trip<double>(c,5.001e-10,5.001e-10); break;
      default: real_trip<long double>(c,5.001e-10L,5.001e-10L); break;
   }
}

V_SECTION(bytes_and_strings,256)
{
   const char ch = static_cast<char>(c.index & 0xFF);
   c.context = "byte " + vh::show(static_cast<int>(ch));
   V_EQ(strtk::type_to_string(ch),std::string(1,ch),"char");
   V_EQ(strtk::type_to_string(static_cast<unsigned char>(ch)),std::string(1,ch),"unsigned char");
   V_EQ(strtk::type_to_string(static_cast<signed char>(ch)),std::string(1,ch),"signed char");
   V_EQ(strtk::type_to_string(true),std::string("1"),"true"); V_EQ(strtk::type_to_string(false),std::string("0"),"false");
   const std::string s = c.r.bytes(c.r.len(40));
   V_EQ(strtk::type_to_string(s),s,"string");
   { std::string o = "previous content"; V_CHECK(strtk::type_to_string(true,o),"true"); V_EQ(o,std::string("1"),"true into a string"); V_CHECK(strtk::type_to_string(false,o),"false"); V_EQ(o,std::string("0"),"false into a string");
     V_CHECK(strtk::type_to_string(s,o),"string"); V_EQ(o,s,"string into a string");
     o = "previous content"; V_CHECK(strtk::type_to_string(ch,o),"char"); V_EQ(o,std::string(1,ch),"char into a string"); }
   char back = 0; if (true) { V_CHECK(strtk::string_to_type_converter(strtk::type_to_string(ch),back),"byte parses back"); V_EQ(back,ch,"byte round trip"); }
   c.cover(s + ch); c.event("bytes_formatted");
}

V_MAIN
