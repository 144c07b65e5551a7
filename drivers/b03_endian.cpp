// B03: byte order conversions.
#include "bin_common.hpp"

template <typename T> static T swapped(T v) { unsigned char b[sizeof(T)]; memcpy(b,&v,sizeof(T)); std::reverse(b,b + sizeof(T)); memcpy(&v,b,sizeof(T)); return v; }
static bool host_le() { const unsigned short x = 1; unsigned char b; memcpy(&b,&x,1); return b == 1; }

template <typename T> static void judge(vh::Case& c, T v)
{
   namespace d = strtk::binary::details;
   c.context = "value " + vh::show(v) + " size " + vh::show(sizeof(T));
   V_EQ(d::is_little_endian(),host_le(),"host order"); V_EQ(d::is_big_endian(),!host_le(),"host order");
   V_EQ(d::convert(v),swapped(v),"convert reverses the bytes"); V_EQ(d::convert(d::convert(v)),v,"convert twice");
   V_EQ(d::convert_to_be(v),(host_le() ? swapped(v) : v),"convert_to_be"); V_EQ(static_cast<T>(d::convert_to_le(v)),(host_le() ? v : swapped(v)),"convert_to_le");
   std::string be(sizeof(T),'\0'); for (std::size_t i = 0; i < sizeof(T); ++i) be[i] = static_cast<char>(static_cast<typename std::make_unsigned<T>::type>(v) >> (8 * (sizeof(T) - 1 - i)));
   const std::string le(be.rbegin(),be.rend());
   vh::Buf<char> b(2 * sizeof(T)); strtk::binary::writer w(b.begin(),b.size());
   V_CHECK(w.template native_to_be<T>(v) && w.template native_to_le<T>(v),"writes"); V_EQ(b.str(),be + le,"stored byte order"); V_CHECK(!w.template native_to_be<T>(v) && !w.template native_to_le<T>(v),"full buffer refuses"); V_EQ(b.str(),be + le,"untouched");
   strtk::binary::reader r(b.begin(),b.size()); T x = 1, y = 2;
   V_CHECK(r.template be_to_native<T>(x) && r.template le_to_native<T>(y),"reads"); V_EQ(x,v,"big-endian back to native"); V_EQ(y,v,"little-endian back to native"); V_CHECK(!r.template be_to_native<T>(x) && !r.template le_to_native<T>(y),"exhausted buffer refuses");
   c.cover(be); c.event("conversions"); c.sample(c.context);
}
template <typename T> static T val(vh::Rng& r) { switch (r.below(6)) { case 4 : return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(r.below(3))); case 5 : return static_cast<T>(static_cast<long long>(r.below(5)) - 2); case 0 : return static_cast<T>(static_cast<T>(1) << r.below(8 * sizeof(T) - 1)); case 1 : return static_cast<T>(0xFFULL << (8 * r.below(sizeof(T)))); case 2 : return std::numeric_limits<T>::min(); default : return static_cast<T>(r.next()); } }
V_SECTION(values,12000)
{
   switch (c.index % 6)
   {
      case 0 : judge<short>(c,val<short>(c.r)); break; case 1 : judge<int>(c,val<int>(c.r)); break; case 2 : judge<long long>(c,val<long long>(c.r)); break;
      case 3 : judge<unsigned short>(c,val<unsigned short>(c.r)); break; case 4 : judge<unsigned int>(c,val<unsigned int>(c.r)); break; default : judge<unsigned long long>(c,val<unsigned long long>(c.r)); break;
   }
}
V_SECTION(sixteen_bit,256) { for (int i = 0; i < 256; ++i) { const unsigned short v = static_cast<unsigned short>((c.index % 256) * 256 + i); judge<unsigned short>(c,v); judge<short>(c,static_cast<short>(v)); } c.event("sixteen_bit_values",256); }
V_MAIN
