// H01: hashing - every element counts, equal sequences hash alike through every form
#include "vh.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
typedef std::string Str;

template <typename T> struct gen;
template <> struct gen<char> { static char make(vh::Rng& r) { return static_cast<char>(r.next()); } static char other(vh::Rng& r, char t) { return static_cast<char>(t ^ (1u << r.below(8))); } };
template <> struct gen<unsigned char> { static unsigned char make(vh::Rng& r) { return static_cast<unsigned char>(r.next()); } static unsigned char other(vh::Rng& r, unsigned char t) { return static_cast<unsigned char>(t ^ (1u << r.below(8))); } };
template <> struct gen<short> { static short make(vh::Rng& r) { return static_cast<short>(r.next()); } static short other(vh::Rng& r, short t) { return static_cast<short>(t ^ (1 << r.below(15))); } };
template <> struct gen<int> { static int make(vh::Rng& r) { return static_cast<int>(r.next() >> r.below(64)); } static int other(vh::Rng& r, int t) { return static_cast<int>(static_cast<unsigned>(t) ^ (1u << r.below(32))); } };
template <> struct gen<unsigned int> { static unsigned int make(vh::Rng& r) { return static_cast<unsigned int>(r.next() >> r.below(64)); } static unsigned int other(vh::Rng& r, unsigned int t) { return t ^ (1u << r.below(32)); } };
template <> struct gen<unsigned long long> { static unsigned long long make(vh::Rng& r) { return r.next() >> r.below(64); } static unsigned long long other(vh::Rng& r, unsigned long long t) { return t ^ (1ull << r.below(64)); } };
template <> struct gen<double> { static double make(vh::Rng& r) { return static_cast<double>(r.range(-1000000,1000000)) / 64.0; } static double other(vh::Rng& r, double t) { return t + (1 + static_cast<double>(r.below(100))) / 64.0; } };

// generated lengths around the block sizes 1, 2, 4 .. 64 and their sums
static std::size_t length(vh::Rng& r) { return r.chance(1,3) ? r.below(10) : r.chance(1,2) ? (1u << r.below(8)) + r.below(4) : r.below(300); }

template <typename T> static void forms(vh::Case& c, const std::vector<T>& v, unsigned seed, unsigned want)
{
   std::deque<T> d(v.begin(),v.end()); std::list<T> l(v.begin(),v.end());
   vh::Buf<char> b(v.size() * sizeof(T)); if (!v.empty()) memcpy(b.begin(),&v[0],v.size() * sizeof(T));
   T* p = reinterpret_cast<T*>(static_cast<char*>(b.begin())); const T* cp = p;
   V_EQ(strtk::hash(v,seed),want,"hash(vector)"); V_EQ(strtk::hash(d,seed),want,"hash(deque)"); V_EQ(strtk::hash(l,seed),want,"hash(list)");
   V_EQ(strtk::hash(v.begin(),v.size(),seed),want,"hash(iterator)"); V_EQ(strtk::hash(d.begin(),d.size(),seed),want,"hash(deque iterator)");
   V_EQ(strtk::hash(cp,v.size(),seed),want,"hash(const pointer)"); V_EQ(strtk::hash(p,v.size(),seed),want,"hash(pointer)");
   V_CHECK(v.empty() || memcmp(b.begin(),&v[0],v.size() * sizeof(T)) == 0,"hashing changed its input");
   c.event("forms_agreed",7);
}

// over all cases of this process: how many single-element changes left the hash as it was
VH_TLS unsigned long long tried = 0, kept = 0;
static void judge(vh::Case& c, bool same)
{
   ++tried; if (same) ++kept;
   c.event("changes_judged",1);
   V_CHECK(kept <= 3 + tried / 2000,"a change of one element leaves the hash unchanged (" << kept << " of " << tried << ")");
}

template <typename T> static void hashing(vh::Case& c, const char* type)
{
   const std::size_t n = length(c.r) + (c.r.chance(1,100) ? c.r.below(5000) : 0); std::vector<T> v; for (std::size_t k = 0; k < n; ++k) v.push_back(gen<T>::make(c.r));
   const unsigned seed = c.r.flip() ? 0xAAAAAAAAu : static_cast<unsigned>(c.r.next()) | 1u;
   c.context = std::string(type) + " n=" + std::to_string(n) + " seed=" + std::to_string(seed);
   const unsigned h = strtk::hash(v,seed);
   forms(c,v,seed,h);
   if (seed == 0xAAAAAAAAu) { V_EQ(strtk::hash(v),h,"default seed"); V_EQ(strtk::hash(v.begin(),v.size()),h,"default seed (iterator)"); }
   if (n == 0) { V_EQ(h,seed,"hash of nothing is its seed"); V_EQ(strtk::hash(v,0u),0u,"hash of nothing is its seed"); V_EQ(strtk::hash(v.begin(),0,c.r.flip() ? 1u : ~0u) == 0xAAAAAAAAu,false,"hash of nothing is its seed"); return; }
   // every position counts; so do the order, the length and the seed
   unsigned same_at = 0; std::size_t where = 0;
   for (std::size_t k = 0; k < n; k += n < 400 ? 1 : 1 + c.r.below(n / 200))
   {
      std::vector<T> w = v; w[k] = gen<T>::other(c.r,v[k]); bool s = strtk::hash(w,seed) == h;
      if (s) { w[k] = gen<T>::make(c.r); if (!(w[k] == v[k]) && strtk::hash(w,seed) == h) { w[k] = gen<T>::make(c.r); if (!(w[k] == v[k]) && strtk::hash(w,seed) == h) { ++same_at; where = k; } } }
      judge(c,s);
   }
   V_CHECK(same_at == 0,"element " << where << " of " << n << " has no influence on the hash");
   { std::vector<T> w(v.begin(),v.end() - 1); judge(c,strtk::hash(w,seed) == h); }
   { std::vector<T> w = v; w.push_back(gen<T>::make(c.r)); judge(c,strtk::hash(w,seed) == h); }
   judge(c,strtk::hash(v,seed ^ (1u << c.r.below(32))) == h);
   if (n > 1) { std::vector<T> w = v; const std::size_t i = c.r.below(n), j = c.r.below(n); if (!(w[i] == w[j])) { std::swap(w[i],w[j]); judge(c,strtk::hash(w,seed) == h); c.event("swaps_judged",1); } }
   c.cover(c.context + " " + std::to_string(h));
}
V_SECTION(elements, 3000)
{
   switch (c.index % 7)
   {
      case 0 : hashing<char>(c,"char"); break; case 1 : hashing<unsigned char>(c,"unsigned char"); break; case 2 : hashing<short>(c,"short"); break; case 3 : hashing<int>(c,"int"); break;
      case 4 : hashing<unsigned int>(c,"unsigned"); break; case 5 : hashing<unsigned long long>(c,"unsigned long long"); break; default : hashing<double>(c,"double"); break;
   }
}
V_SECTION(texts, 3000)
{
   const Str s = c.r.chance(1,2) ? c.r.bytes(length(c.r) + (c.r.chance(1,100) ? c.r.below(9000) : 0)) : c.r.str(length(c.r),"abcdefgh"); c.context = "s=" + vh::q(s);
   const unsigned h = strtk::hash(s); std::vector<char> v(s.begin(),s.end()); V_EQ(strtk::hash(Str()),0xAAAAAAAAu,"hash of the empty text"); V_EQ(strtk::hash(Str(),0u),0u,"hash of the empty text with a seed"); V_EQ(strtk::hash(s,0xAAAAAAAAu),h,"default seed");
   V_EQ(strtk::hash(v),h,"hash(string) agrees with hash(vector<char>)"); V_EQ(strtk::hash(s.data(),s.size()),h,"hash(string) agrees with hash(pointer)"); V_EQ(strtk::hash(s,7u),strtk::hash(v,7u),"seeded");
   vh::Buf<char> b(s); V_EQ(strtk::hash(b.begin(),s.size()),h,"hash(exact block)");
   // texts sharing all but one character, also beyond the largest block
   for (std::size_t k = s.size() > 40 ? s.size() - 40 : 0; k < s.size(); ++k) { Str t = s; t[k] = static_cast<char>(t[k] ^ (1 << c.r.below(8))); judge(c,strtk::hash(t) == h); }
   c.event("texts_hashed",1);
   if (!s.empty()) c.cover(s);
}
V_MAIN
