// C01: hexadecimal codec.
#include <strtk.hpp>
#include "vh.hpp"

static std::string ref_hex(const std::string& b) { static const char* d = "0123456789ABCDEF"; std::string s; for (std::size_t i = 0; i < b.size(); ++i) { unsigned char x = b[i]; s += d[x >> 4]; s += d[x & 15]; } return s; }
static std::string lower_some(vh::Rng& r, std::string s) { const unsigned m = r.below(3); for (std::size_t i = 0; i < s.size(); ++i) if (s[i] >= 'A' && s[i] <= 'F' && (m == 0 || (m == 1 && r.flip()))) s[i] = static_cast<char>(s[i] + 32); return s; }

template <typename C> static void raw(vh::Case& c, const std::string& bin, const std::string& want, bool pair_form)
{
   vh::Buf<C> in(bin); vh::Buf<C> out(want.size());
   if (pair_form) strtk::convert_bin_to_hex(std::make_pair(const_cast<const C*>(in.begin()),const_cast<const C*>(in.end())),out.begin());
   else strtk::convert_bin_to_hex(in.begin(),in.end(),out.begin());
   V_EQ(out.str(),want,"encoded bytes"); V_EQ(in.str(),bin,"input unchanged");
}
template <typename C> static void rawback(vh::Case& c, const std::string& hex, const std::string& bin, unsigned form)
{
   vh::Buf<C> in(hex); vh::Buf<C> out(bin.size(),0xCD); bool ok;
   if (form == 0) ok = strtk::convert_hex_to_bin(in.begin(),in.end(),out.begin());
   else if (form == 1) ok = strtk::convert_hex_to_bin(std::make_pair(const_cast<const C*>(in.begin()),const_cast<const C*>(in.end())),out.begin());
   else ok = strtk::convert_hex_to_bin(std::make_pair(in.begin(),in.end()),out.begin());
   V_EQ(ok,!bin.empty(),"decode verdict"); if (ok) V_EQ(out.str(),bin,"decoded bytes");
}

static void judge(vh::Case& c, const std::string& bin)
{
   c.context = "bytes " + vh::q(bin);
   const std::string want = ref_hex(bin);
   raw<unsigned char>(c,bin,want,false); raw<char>(c,bin,want,false); raw<unsigned char>(c,bin,want,true); raw<char>(c,bin,want,true);
   { vh::Buf<unsigned char> in(bin); vh::Buf<unsigned char> out(want.size()); strtk::convert_bin_to_hex(std::make_pair(in.begin(),in.end()),out.begin()); V_EQ(out.str(),want,"mutable pair form"); }
   std::string o = c.r.bytes(c.r.below(20)); strtk::convert_bin_to_hex(bin,o); V_EQ(o,want,"string form");
   V_EQ(strtk::convert_bin_to_hex(bin),want,"returning form");
   const std::string hex = lower_some(c.r,want);
   for (unsigned k = 0; k < 3; ++k) { rawback<unsigned char>(c,hex,bin,k); rawback<char>(c,hex,bin,k); }
   std::string back = "stale"; const bool ok = strtk::convert_hex_to_bin(hex,back);
   V_EQ(ok,!bin.empty(),"string decode verdict"); if (ok) V_EQ(back,bin,"string round trip");
   c.event("round_trips");
   // an odd number of digits is refused and nothing is written
   const std::string odd = hex + c.r.pick("0123456789abcdefABCDEF");
   back = "stale"; V_CHECK(!strtk::convert_hex_to_bin(odd,back),"odd length refused"); V_EQ(back,std::string("stale"),"refused output untouched");
   { vh::Buf<char> in(odd); vh::Buf<char> out(bin.size() + 1,0x5A); V_CHECK(!strtk::convert_hex_to_bin(in.begin(),in.end(),out.begin()),"odd length refused"); V_EQ(out.str(),std::string(bin.size() + 1,0x5A),"refused output untouched"); }
   c.event("odd_refused");
   if (!bin.empty()) c.cover(bin);
   c.sample(c.context + " -> " + want);
}

V_SECTION(random_bytes,6000) { judge(c,c.r.bytes(c.r.len(c.r.chance(1,20) ? 600 : 40))); }
// sizes at and around powers of two, where counters and buffers of a fixed width end
V_SECTION(large_inputs,60)
{
   static const std::size_t base[] = { 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072 };
   const std::size_t n = base[c.index % 10] + c.r.below(3) - 1; judge(c,c.r.chance(1,4) ? std::string(n,static_cast<char>(c.r.next())) : c.r.bytes(n)); c.event("large_inputs");
   if (c.index % 5 == 4) judge(c,c.r.bytes(base[c.index % 10])); 
}
V_SECTION(all_bytes,256) { const char b = static_cast<char>(c.index & 0xFF); judge(c,std::string(1,b)); judge(c,std::string(3,b)); judge(c,std::string("\0",1) + b + c.r.bytes(1)); c.event("byte_values"); }
V_SECTION(all_pairs,256)
{
   // every two-digit text, in every case mix
   static const char* d = "0123456789abcdefABCDEF";
   for (int i = 0; i < 22; ++i) for (int j = 0; j < 22; ++j)
   {
      if ((i * 22 + j) % 256 != static_cast<int>(c.index % 256)) continue;
      const std::string h = std::string(1,d[i]) + d[j]; std::string o; c.context = h;
      V_CHECK(strtk::convert_hex_to_bin(h,o),"two digits"); V_EQ(o,std::string(1,static_cast<char>(strtol(h.c_str(),0,16))),"two digits");
      c.cover(h); c.event("digit_pairs");
   }
}
V_MAIN
