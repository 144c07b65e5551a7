// O01: bit level operations against one bit at a time definitions
#include "ref.hpp"
#include <list>
#include <memory>
#include "strtk.hpp"
typedef std::string Str;
typedef std::vector<bool> Bits;
static Bits bits_of(const Str& s) { Bits b; for (char ch : s) for (int k = 0; k < 8; ++k) b.push_back(((static_cast<unsigned char>(ch) >> k) & 1) != 0); return b; }
static Str text_of(const Bits& b) { Str s; for (std::size_t i = 0; i + 8 <= b.size(); i += 8) { unsigned v = 0; for (std::size_t k = 0; k < 8; ++k) if (b[i + k]) v += 1u << k; s.push_back(static_cast<char>(v)); } return s; }
static std::size_t ones(const Bits& b) { std::size_t n = 0; for (bool x : b) n += x ? 1 : 0; return n; }
static const unsigned char* U(const vh::Buf<char>& b) { return reinterpret_cast<const unsigned char*>(b.begin()); }
static Str data(vh::Case& c) { const std::size_t n = c.r.chance(1,60) ? 250 + c.r.below(600) : c.r.len(60); switch (c.r.below(5)) { case 0 : return Str(n,'\0'); case 1 : return Str(n,'\xff'); case 2 : { Str s(n,'\0'); for (auto& ch : s) if (c.r.chance(1,6)) ch = static_cast<char>(1u << c.r.below(8)); return s; } default: return c.r.bytes(n); } }

V_SECTION(single_bits, 3000)
{
   // a history of bit writes over a buffer of exactly the needed size
   const Str s = data(c) + static_cast<char>(c.r.next()); vh::Buf<char> b(s); unsigned char* p = reinterpret_cast<unsigned char*>(b.begin()); Bits m = bits_of(s); c.context = vh::q(s);
   for (std::size_t k = 0, n = 1 + c.r.below(40); k < n; ++k)
   {
      const std::size_t i = c.r.chance(1,6) ? (c.r.flip() ? 0 : m.size() - 1) : c.r.below(m.size()); const bool v = c.r.flip(); V_EQ(strtk::bit_state(i,p),static_cast<bool>(m[i]),"bit_state before"); const bool changed = m[i] != v;
      if (v) strtk::set_bit_high(i,p); else strtk::set_bit_low(i,p); m[i] = v; V_EQ(strtk::bit_state(i,p),v,"bit_state after"); V_CHECK(Str(b.begin(),b.end()) == text_of(m),"no other bit moved"); c.event(v ? (changed ? "raised" : "kept_high") : (changed ? "lowered" : "kept_low"),1);
   }
   for (std::size_t i = 0; i < m.size(); ++i) V_EQ(strtk::bit_state(i,p),static_cast<bool>(m[i]),"every bit");
   c.cover(c.context);
}
V_SECTION(counts, 6000)
{
   const Str s = data(c); const Bits m = bits_of(s); vh::Buf<char> b(s); c.context = vh::q(s); V_EQ(strtk::high_bit_count(s),ones(m),"high_bit_count of a string"); V_EQ(strtk::high_bit_count(b.begin(),b.end()),ones(m),"high_bit_count of a range"); V_EQ(strtk::high_bit_count(U(b),U(b) + s.size()),ones(m),"high_bit_count of bytes");
   const unsigned long long v = c.r.next() & (c.r.flip() ? ~0ull : c.r.next()); std::size_t n8 = 0, n16 = 0, n32 = 0, n64 = 0; for (int k = 0; k < 64; ++k) if ((v >> k) & 1) { n64++; if (k < 32) n32++; if (k < 16) n16++; if (k < 8) n8++; }
   const unsigned char b8 = static_cast<unsigned char>(v); const unsigned short b16 = static_cast<unsigned short>(v); const unsigned b32 = static_cast<unsigned>(v); const long long b64 = static_cast<long long>(v); V_EQ(strtk::high_bit_count(b8),n8,"bits of a byte"); V_EQ(strtk::high_bit_count(b16),n16,"bits of a short"); V_EQ(strtk::high_bit_count(b32),n32,"bits of an int"); V_EQ(strtk::high_bit_count(b64),n64,"bits of a long long");
   if (c.index < 256) { const unsigned char u = static_cast<unsigned char>(c.index); std::size_t n = 0; for (int k = 0; k < 8; ++k) n += (u >> k) & 1; V_EQ(strtk::high_bit_count(u),n,"bits of byte " + vh::show(c.index)); c.event("all_bytes",1); }
   c.event("counted",1); c.cover(c.context);
}
V_SECTION(distances, 6000)
{
   const Str s = data(c); Str t = s; const bool same_size = !c.r.chance(1,6); if (same_size) { if (c.r.chance(1,6)) t = c.r.bytes(s.size()); for (std::size_t k = c.r.below(5); k && !t.empty(); --k) { char& ch = t[c.r.below(t.size())]; ch = static_cast<char>(ch ^ (c.r.flip() ? 1 << c.r.below(8) : static_cast<int>(c.r.next()))); } } else do t = data(c); while (t.size() == s.size());
   const Bits x = bits_of(s), y = bits_of(t); std::size_t d = 0, e = 0; const std::size_t none = std::numeric_limits<std::size_t>::max(); if (same_size) { for (std::size_t i = 0; i < x.size(); ++i) d += x[i] != y[i]; for (std::size_t i = 0; i < s.size(); ++i) e += s[i] != t[i]; } else d = e = none;
   vh::Buf<char> a(s), b(t); c.context = vh::q(s) + " " + vh::q(t);
   V_EQ(strtk::hamming_distance(s,t),d,"hamming_distance of strings"); V_EQ(strtk::hamming_distance(a.begin(),a.end(),b.begin(),b.end()),d,"hamming_distance of ranges"); V_EQ(strtk::hamming_distance(U(a),U(a) + s.size(),U(b),U(b) + t.size()),d,"hamming_distance of bytes"); V_EQ(strtk::hamming_distance(t,s),d,"hamming_distance both ways");
   V_EQ(strtk::hamming_distance_elementwise(a.begin(),a.end(),b.begin(),b.end()),e,"hamming_distance_elementwise"); { const std::list<char> l(s.begin(),s.end()), r(t.begin(),t.end()); V_EQ(strtk::hamming_distance_elementwise(l.begin(),l.end(),r.begin(),r.end()),e,"hamming_distance_elementwise of lists"); }
   c.event(!same_size ? "sizes_differ" : d ? "distant" : "equal",1); c.cover(c.context);
}
V_SECTION(transforms, 6000)
{
   const Str s = data(c); const bool same_size = !c.r.chance(1,8); Str t; if (same_size) t = c.r.bytes(s.size()); else do t = data(c); while (t.size() == s.size()); vh::Buf<char> a(s), b(t); c.context = vh::q(s) + " " + vh::q(t);
   static const strtk::bitwise_operation::type ops[] = { strtk::bitwise_operation::eAND, strtk::bitwise_operation::eOR, strtk::bitwise_operation::eXOR };
   const Bits x = bits_of(s), y = bits_of(t);
   for (int op = 0; op < 3; ++op)
   {
      Str out = "old"; if (!same_size) { strtk::bitwise_transform(ops[op],s,t,out); V_EQ(out,Str("old"),"strings of different sizes are left alone"); continue; }
      Bits w; for (std::size_t i = 0; i < x.size(); ++i) w.push_back(op == 0 ? x[i] && y[i] : op == 1 ? x[i] || y[i] : x[i] != y[i]); const Str want = text_of(w);
      strtk::bitwise_transform(ops[op],s,t,out); V_EQ(out,want,"bitwise_transform of strings"); { vh::Buf<char> o(s.size()); strtk::bitwise_transform(ops[op],a.begin(),a.end(),b.begin(),o.begin()); V_EQ(Str(o.begin(),o.end()),want,"bitwise_transform of ranges"); } { vh::Buf<char> o(s.size()); strtk::bitwise_transform(ops[op],U(a),U(a) + s.size(),U(b),reinterpret_cast<unsigned char*>(o.begin())); V_EQ(Str(o.begin(),o.end()),want,"bitwise_transform of bytes"); }
      // the result may replace either operand
      { vh::Buf<char> o(s); strtk::bitwise_transform(ops[op],o.begin(),o.end(),b.begin(),o.begin()); V_EQ(o.str(),want,"bitwise_transform over its first operand"); } { vh::Buf<char> o(t); strtk::bitwise_transform(ops[op],a.begin(),a.end(),o.begin(),o.begin()); V_EQ(o.str(),want,"bitwise_transform over its second operand"); }
      { Str o = s; strtk::bitwise_transform(ops[op],o,t,o); V_EQ(o,want,"bitwise_transform of strings over its first operand"); o = t; strtk::bitwise_transform(ops[op],s,o,o); V_EQ(o,want,"bitwise_transform of strings over its second operand"); }
   }
   V_CHECK(Str(a.begin(),a.end()) == s && Str(b.begin(),b.end()) == t,"inputs are left alone"); c.event(same_size ? "transformed" : "refused",1); c.cover(c.context);
}
V_SECTION(interleave, 6000)
{
   const Str s = data(c); const bool same_size = !c.r.chance(1,8); Str t; if (same_size) t = c.r.bytes(s.size()); else do t = data(c); while (t.size() == s.size()); vh::Buf<char> a(s), b(t); c.context = vh::q(s) + " " + vh::q(t); Str out = "old";
   const Bits x = bits_of(s), y = bits_of(t); Bits w; if (same_size) for (std::size_t i = 0; i < x.size(); ++i) { w.push_back(x[i]); w.push_back(y[i]); } const Str want = text_of(w);
   V_EQ(strtk::twoway_bitwise_interleave(s,t,out),same_size,"interleaving strings"); if (same_size) V_EQ(out,want,"interleaved strings"); else V_EQ(out,Str("old"),"strings of different sizes are left alone");
   vh::Buf<char> o(same_size ? 2 * s.size() : 0); V_EQ(strtk::twoway_bitwise_interleave(a.begin(),a.end(),b.begin(),b.end(),o.begin()),same_size,"interleaving ranges"); if (same_size) V_EQ(Str(o.begin(),o.end()),want,"interleaved ranges");
   vh::Buf<char> p(same_size ? 2 * s.size() : 0); V_EQ(strtk::twoway_bitwise_interleave(U(a),U(a) + s.size(),U(b),U(b) + t.size(),reinterpret_cast<unsigned char*>(p.begin())),same_size,"interleaving bytes"); if (same_size) V_EQ(Str(p.begin(),p.end()),want,"interleaved bytes");
   c.event(same_size ? "interleaved" : "lengths_differ",1); c.cover(c.context);
}
template <std::size_t n> static void table(vh::Case& c)
{
   typedef typename strtk::interleave_ary<n>::type type; std::unique_ptr<type[]> t(new type[256]); for (std::size_t i = 0; i < 256; ++i) t[i] = static_cast<type>(c.r.next()); strtk::create_nway_interleave_table<n>(t.get());
   for (std::size_t i = 0; i < 256; ++i) { type w = 0; for (std::size_t j = 0; j < 8; ++j) if ((i >> j) & 1) w = static_cast<type>(w | (static_cast<type>(1) << (j * n))); V_EQ(t[i],w,vh::show(n) + "-way spread of byte " + vh::show(i)); c.event("spread_bytes",1); }
}
V_SECTION(tables, 12) { c.context = "tables"; table<2>(c); table<4>(c); table<8>(c); c.cover(c.context); }
V_MAIN
