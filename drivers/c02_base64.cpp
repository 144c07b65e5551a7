// C02: base64 codec.
#include <strtk.hpp>
#include "vh.hpp"

static std::string ref64(const std::string& b)
{
   static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
   std::string s; unsigned acc = 0; int bits = 0;
   for (std::size_t i = 0; i < b.size(); ++i) { acc = (acc << 8) | static_cast<unsigned char>(b[i]); bits += 8; while (bits >= 6) { bits -= 6; s += t[(acc >> bits) & 63]; } }
   if (bits) s += t[(acc << (6 - bits)) & 63];
   while (s.size() % 4) s += '=';
   return s;
}
template <typename C> static void raw(vh::Case& c, const std::string& bin, const std::string& want)
{
   { vh::Buf<C> in(bin), out(want.size()); const std::size_t n = strtk::convert_bin_to_base64(in.begin(),in.end(),out.begin()); V_EQ(n,want.size(),"encoded length"); V_EQ(out.str(),want,"encoded"); }
   { vh::Buf<C> in(want), out(bin.size()); const std::size_t n = strtk::convert_base64_to_bin(in.begin(),in.end(),out.begin()); V_EQ(n,bin.size(),"decoded length"); V_EQ(out.str(),bin,"decoded"); }
}
static void judge(vh::Case& c, const std::string& bin)
{
   c.context = "bytes " + vh::q(bin);
   const std::string want = ref64(bin);
   raw<unsigned char>(c,bin,want); raw<char>(c,bin,want);
   std::string o = c.r.bytes(c.r.below(20)); strtk::convert_bin_to_base64(bin,o); V_EQ(o,want,"string form");
   std::string back = c.r.bytes(c.r.below(20)); strtk::convert_base64_to_bin(o,back); V_EQ(back,bin,"string round trip");
   // the padding carries no data, so unpadded text decodes to the same bytes
   std::string bare = want; while (!bare.empty() && bare[bare.size() - 1] == '=') bare.resize(bare.size() - 1);
   strtk::convert_base64_to_bin(bare,back); V_EQ(back,bin,"unpadded text");
   c.event("round_trips"); if (bin.size() % 3) c.event("padded");
   if (!bin.empty()) c.cover(bin);
   c.sample(c.context + " -> " + want);
}
V_SECTION(random_bytes,8000) { judge(c,c.r.bytes(c.r.len(c.r.chance(1,20) ? 700 : 40))); }
// sizes at and around powers of two, where counters and buffers of a fixed width end
V_SECTION(large_inputs,60)
{
   static const std::size_t base[] = { 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072 };
   const std::size_t n = base[c.index % 10] + c.r.below(3) - 1; judge(c,c.r.chance(1,4) ? std::string(n,static_cast<char>(c.r.next())) : c.r.bytes(n)); c.event("large_inputs");
   if (c.index % 5 == 4) judge(c,c.r.bytes(base[c.index % 10])); 
}
V_SECTION(small_exhaustive,512)
{
   // every one- and two-byte input
   if (c.index % 512 == 0) { judge(c,""); for (int i = 0; i < 256; ++i) judge(c,std::string(1,static_cast<char>(i))); }
   for (int i = 0; i < 128; ++i) { const int v = static_cast<int>(c.index % 512) * 128 + i; judge(c,std::string(1,static_cast<char>(v >> 8)) + static_cast<char>(v)); }
   c.event("two_byte_inputs",128);
}
V_SECTION(sextets,64)
{
   // every alphabet letter in every position of a block
   static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
   for (int p = 0; p < 4; ++p)
   {
      std::string s(4,'A'); s[p] = t[c.index % 64]; const unsigned v = static_cast<unsigned>(c.index % 64) << (6 * (3 - p));
      std::string o; strtk::convert_base64_to_bin(s,o); c.context = s;
      V_EQ(o,std::string(1,static_cast<char>(v >> 16)) + static_cast<char>(v >> 8) + static_cast<char>(v),"letter value"); c.cover(s); c.event("letters");
   }
}
V_SECTION(hostile,3000)
{
   // arbitrary text: the decoder stays inside its input and inside floor(3*n/4) output bytes
   std::string s = c.r.flip() ? c.r.bytes(c.r.len(40)) : c.r.str(c.r.len(16),"A=/+z.");
   c.context = "text " + vh::q(s);
   vh::Buf<char> in(s), out((s.size() * 3) / 4); const std::size_t n = strtk::convert_base64_to_bin(in.begin(),in.end(),out.begin());
   V_CHECK(n <= (s.size() * 3) / 4,"decoded length " << n);
   std::string o; strtk::convert_base64_to_bin(s,o); V_EQ(o.size(),n,"string form length"); V_EQ(in.str(),s,"input unchanged");
   c.cover(s); c.event("hostile_texts");
}
V_MAIN
