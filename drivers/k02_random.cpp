// K02: seeded random data, permutations, combinations and selections
#define strtk_enable_random
#include "ref.hpp"
#include <memory>
#include <list>
#include <deque>
#include <map>
#include <climits>
#include <cfloat>
#include "strtk.hpp"
typedef std::string Str;
struct Unit { vh::Rng* r; bool edge; double operator()() { if (edge && r->chance(1,3)) return r->flip() ? 0.0 : 1.0 - DBL_EPSILON / 2; return r->unit(); } double min() const { return 0.0; } double max() const { return 1.0; } };

V_SECTION(bytes, 6000)
{
   const std::size_t n = c.r.below(70), m = n + c.r.below(20); const unsigned skip = static_cast<unsigned>(c.r.below(6)), seed = static_cast<unsigned>(c.r.next());
   c.context = "length " + vh::show(n) + " skip " + vh::show(skip) + " seed " + vh::show(seed);
   vh::Buf<unsigned char> a(n), b(m), d(m + 4 * skip);
   strtk::generate_random_data(a.begin(),n,skip,seed); strtk::generate_random_data(b.begin(),m,skip,seed); strtk::generate_random_data(d.begin(),m + 4 * skip,0,seed);
   V_CHECK(std::equal(a.begin(),a.end(),b.begin()),"shorter data is a prefix of longer data"); V_CHECK(std::equal(b.begin(),b.end(),d.begin() + 4 * skip),"skipping starts later in the same stream");
   vh::Buf<unsigned char> e(n); strtk::generate_random_data(e.begin(),n,skip,seed); V_CHECK(std::equal(a.begin(),a.end(),e.begin()),"same seed, same data");
   if (n >= 8) { strtk::generate_random_data(e.begin(),n,skip,seed + 1); V_CHECK(!std::equal(a.begin(),a.end(),e.begin()),"another seed, other data"); }
   c.event("random_bytes",n); c.cover(c.context);
}

template <typename T> void ints(vh::Case& c, const char* name)
{
   T lo = static_cast<T>(c.r.next()), hi = static_cast<T>(c.r.next());
   if (c.r.chance(1,3)) { lo = std::numeric_limits<T>::min(); hi = std::numeric_limits<T>::max(); } else if (c.r.chance(1,3)) { lo = static_cast<T>(c.r.below(20)); hi = static_cast<T>(lo + c.r.below(8)); }
   if (hi < lo) std::swap(lo,hi);
   const std::size_t n = c.r.below(60), seed = static_cast<std::size_t>(c.r.next()), skip = c.r.below(5);
   c.context = Str(name) + " [" + vh::show(+lo) + "," + vh::show(+hi) + "] n=" + vh::show(n) + " seed=" + vh::show(seed) + " skip=" + vh::show(skip);
   std::unique_ptr<T[]> o(new T[n]); strtk::generate_random_values<T>(n,lo,hi,o.get(),seed,skip);
   for (std::size_t i = 0; i < n; ++i) V_CHECK(o[i] >= lo && o[i] <= hi,"value " + vh::show(+o[i]) + " in range");
   std::vector<T> v(1,lo); strtk::generate_random_values(n,lo,hi,v,seed,skip); V_CHECK(v.size() == n + 1 && v[0] == lo && std::equal(o.get(),o.get() + n,v.begin() + 1),"sequence form appends the same values");
   std::list<T> l; strtk::generate_random_values(n,lo,hi,l,seed,skip); V_CHECK(l.size() == n && std::equal(l.begin(),l.end(),o.get()),"list form");
   if (static_cast<unsigned long long>(hi) - static_cast<unsigned long long>(lo) < 256)
   {
      std::vector<T> w; strtk::generate_random_values(n + skip,lo,hi,w,seed); V_CHECK(std::equal(o.get(),o.get() + n,w.begin() + static_cast<std::ptrdiff_t>(skip)),"pregen starts later in the same stream"); if (skip) c.event("skipped_streams",1);
   }
   c.event("random_values",n);
   if (static_cast<unsigned long long>(hi) - static_cast<unsigned long long>(lo) < 8)
   {
      std::vector<T> w; strtk::generate_random_values(static_cast<std::size_t>(400),lo,hi,w,seed); const std::set<T> s(w.begin(),w.end());
      V_EQ(s.size(),static_cast<std::size_t>(hi - lo + 1),"every value of a small range appears"); c.event("small_ranges",1);
   }
}
template <typename T> void reals(vh::Case& c, const char* name)
{
   T lo = static_cast<T>((c.r.unit() - 0.5) * 1000), hi = static_cast<T>(lo + (c.r.chance(1,3) ? 1e-3 : 1 + c.r.unit() * 1e6));
   const std::size_t n = c.r.below(60), seed = static_cast<std::size_t>(c.r.next());
   c.context = Str(name) + " [" + vh::show(lo) + "," + vh::show(hi) + ") n=" + vh::show(n) + " seed=" + vh::show(seed);
   std::unique_ptr<T[]> o(new T[n]); strtk::generate_random_values<T>(n,lo,hi,o.get(),seed);
   for (std::size_t i = 0; i < n; ++i) V_CHECK(o[i] >= lo && o[i] <= hi,"value " + vh::show(o[i]) + " in range");
   std::deque<T> v; strtk::generate_random_values(n,lo,hi,v,seed); V_CHECK(v.size() == n && std::equal(v.begin(),v.end(),o.get()),"sequence form");
   const std::size_t skip = c.r.below(5); std::vector<T> w, x; strtk::generate_random_values(n + skip,lo,hi,w,seed); strtk::generate_random_values(n,lo,hi,x,seed,skip);
   V_EQ(x.size(),n,"number of values");
   if (sizeof(T) > 4) // (floats that round to the end of the range are drawn again)
   { V_CHECK(std::equal(x.begin(),x.end(),w.begin() + static_cast<std::ptrdiff_t>(skip)),"pregen starts later in the same stream"); if (skip) c.event("skipped_streams",1); }
   strtk::generate_random_values<T>(n,lo,hi,o.get(),seed,skip); V_CHECK(std::equal(x.begin(),x.end(),o.get()),"iterator form with pregen");
   c.event("random_values",n);
}
V_SECTION(values, 6000)
{
   switch (c.r.below(9)) { case 0 : ints<int>(c,"int"); break; case 1 : ints<unsigned int>(c,"unsigned"); break; case 2 : ints<short>(c,"short"); break; case 3 : ints<unsigned short>(c,"ushort"); break; case 4 : ints<long>(c,"long"); break; case 5 : ints<unsigned long>(c,"ulong"); break; case 6 : ints<unsigned char>(c,"uchar"); break; case 7 : reals<double>(c,"double"); break; default : reals<float>(c,"float"); }
   c.cover(c.context);
}

V_SECTION(arrangements, 8000)
{
   const std::size_t n = c.r.below(c.r.chance(1,20) ? 60 : 20), k = c.r.below(n + 2), seed = static_cast<std::size_t>(c.r.next()), skip = c.r.below(4);
   Str s; for (std::size_t i = 0; i < n; ++i) s += static_cast<char>('A' + i);
   c.context = "n=" + vh::show(n) + " k=" + vh::show(k) + " seed=" + vh::show(seed) + " skip=" + vh::show(skip);
   const std::vector<char> v(s.begin(),s.end());
   { vh::Buf<char> b(s), o(n), p(n); strtk::random_permutation(b.begin(),b.end(),o.begin(),seed,skip); Str x = o.str(); strtk::random_permutation(v,p.begin(),seed,skip); V_EQ(p.str(),x,"sequence form, same seed"); std::sort(x.begin(),x.end()); V_EQ(x,s,"a permutation uses every element once");
     Unit u = { &c.r, true }; strtk::random_permutation(b.begin(),b.end(),u,o.begin()); x = o.str(); std::sort(x.begin(),x.end()); V_EQ(x,s,"a permutation with a given generator"); }
   {
      const std::size_t want = k <= n ? k : 0; vh::Buf<char> b(s), o(want), p(want); strtk::random_combination(b.begin(),b.end(),k,o.begin(),seed,skip); Str x = o.str(); strtk::random_combination(v,k,p.begin(),seed,skip); V_EQ(p.str(),x,"sequence form, same seed");
      std::sort(x.begin(),x.end()); V_CHECK(std::unique(x.begin(),x.end()) == x.end() && x.find_first_not_of(s) == Str::npos,"a combination has distinct elements of the input");
      Unit u = { &c.r, true }; V_EQ(strtk::random_combination(b.begin(),b.end(),k,u,o.begin()),k <= n,"random_combination verdict"); x = o.str(); std::sort(x.begin(),x.end()); V_CHECK(std::unique(x.begin(),x.end()) == x.end() && x.find_first_not_of(s) == Str::npos,"a combination with a given generator");
   }
   {
      const std::size_t want = std::min(n,k); vh::Buf<char> b(s), o(want); Unit u = { &c.r, true }; V_EQ(strtk::select_k_randomly(b.begin(),b.end(),k,o.begin(),u),want,"select_k_randomly count");
      Str x = o.str(); if (k >= n) V_EQ(x,s,"everything is selected, in order"); std::sort(x.begin(),x.end()); V_CHECK(std::unique(x.begin(),x.end()) == x.end() && x.find_first_not_of(s) == Str::npos,"selected elements are distinct elements of the input");
      vh::Buf<char> one(n ? 1 : 0); strtk::select_1_randomly(b.begin(),b.end(),one.begin(),u); if (n) V_CHECK(s.find(*one.begin()) != Str::npos,"select_1_randomly picks an element"); 
   }
   { const double lim = 1.0; strtk::uniform_real_rng a(seed,skip), b(seed,skip); for (int i = 0; i < 20; ++i) { const double x = a(); V_CHECK(x >= 0 && x < lim,"uniform_real_rng in [0,1)"); V_EQ(b(),x,"same seed, same numbers"); } }
   {
      // pregen draws are the draws of the stream without it
      strtk::uniform_real_rng a(seed), b(seed,skip), e(b); for (std::size_t i = 0; i < skip; ++i) a(); 
      std::vector<double> va, vb, ve; for (int i = 0; i < 20; ++i) { va.push_back(a()); vb.push_back(b()); ve.push_back(e()); }
      V_CHECK(va == vb,"uniform_real_rng: pregen starts later in the same stream"); V_CHECK(vb == ve,"a copied uniform_real_rng continues like the original"); if (skip) c.event("skipped_streams",1);
   }
   {
      // the seeded forms use the stream of uniform draws of that seed
      struct Draws { strtk::uniform_real_rng g; double operator()() { return g(); } double min() const { return 0.0; } double max() const { return 1.0; } };
      vh::Buf<char> b(s), o(n), p(n); Draws d = { strtk::uniform_real_rng(seed,skip) };
      strtk::random_permutation(b.begin(),b.end(),o.begin(),seed,skip); strtk::random_permutation(b.begin(),b.end(),d,p.begin()); V_EQ(o.str(),p.str(),"seeded permutation equals the one drawn from the seeded stream");
      if (k <= n) { vh::Buf<char> q(k), r(k); Draws f = { strtk::uniform_real_rng(seed,skip) }; strtk::random_combination(b.begin(),b.end(),k,q.begin(),seed,skip); strtk::random_combination(b.begin(),b.end(),k,f,r.begin()); V_EQ(q.str(),r.str(),"seeded combination equals the one drawn from the seeded stream"); }
   }
   c.event("arrangements",6); if (n) c.cover(c.context);
}

V_SECTION(large_sets, 12)
{
   // in larger sets, every element reaches either half of the result and every place is filled from either half
   const std::size_t n = 20 + c.r.below(80), k = n / 4 + c.r.below(n / 2); const int N = 1500; Unit u = { &c.r, false }; const std::size_t base = static_cast<std::size_t>(c.r.next() >> 8);
   c.context = "n=" + vh::show(n) + " k=" + vh::show(k) + " base seed " + vh::show(base);
   Str s; for (std::size_t i = 0; i < n; ++i) s += static_cast<char>(i + 1);
   std::vector<int> early(n), low(n), comb(n), clow(k), sel(n); int one = 0; const std::size_t h = n / 2;
   for (int i = 0; i < N; ++i)
   {
      Str o; strtk::random_permutation(s.begin(),s.end(),vh::into(o),base + i); for (std::size_t j = 0; j < n; ++j) { const std::size_t e = static_cast<std::size_t>(o[j] - 1); early[e] += j < h; low[j] += e < h; }
      o.clear(); strtk::random_combination(s.begin(),s.end(),k,vh::into(o),base + i); for (std::size_t j = 0; j < k; ++j) { const std::size_t e = static_cast<std::size_t>(o[j] - 1); ++comb[e]; clow[j] += e < h; }
      o.clear(); strtk::select_k_randomly(s.begin(),s.end(),k,vh::into(o),u); for (char ch : o) ++sel[static_cast<std::size_t>(ch - 1)];
      o.clear(); strtk::select_1_randomly(s.begin(),s.end(),vh::into(o),u); one += static_cast<std::size_t>(o[0] - 1) < h;
   }
   auto even = [&](double p, double got, const Str& what) { const double sd = std::sqrt(N * p * (1 - p)); V_CHECK(std::fabs(got - N * p) <= 8 * sd,what + ": " + vh::show(got) + " of " + vh::show(N) + " expected about " + vh::show(N * p)); c.event("frequencies",1); };
   const double ph = static_cast<double>(h) / static_cast<double>(n), pk = static_cast<double>(k) / static_cast<double>(n);
   for (std::size_t j = 0; j < n; ++j) { even(ph,early[j],"permuted into the first half: element " + vh::show(j)); even(ph,low[j],"filled from the first half: place " + vh::show(j)); even(pk,comb[j],"in a combination: element " + vh::show(j)); even(pk,sel[j],"selected: element " + vh::show(j)); }
   for (std::size_t j = 0; j < k; ++j) even(ph,clow[j],"place of a combination filled from the first half: " + vh::show(j));
   even(ph,one,"single selection from the first half");
   {
      // the first k elements, chosen provisionally, have no advantage over the others
      const int M = 8000; double sum = 0; for (int i = 0; i < M; ++i) { Str o; strtk::select_k_randomly(s.begin(),s.end(),k,vh::into(o),u); for (char ch : o) sum += static_cast<std::size_t>(ch - 1) < k; }
      const double N1 = static_cast<double>(n), K = static_cast<double>(k), sd = std::sqrt(M * K * pk * (1 - pk) * (N1 - K) / (N1 - 1)); V_CHECK(std::fabs(sum - M * K * pk) <= 8 * sd,"selected among the first k: " + vh::show(sum) + " expected about " + vh::show(M * K * pk)); c.event("frequencies",1);
   }
   c.cover(c.context);
}

V_SECTION(uniformity, 12)
{
   // every arrangement of a small set is about equally likely over many seeds (8 standard deviations)
   const Str s = "ABCD"; std::map<Str,int> perm, comb; std::map<char,int> sel, one; const int N = 3000; Unit u = { &c.r, false };
   const std::size_t base = static_cast<std::size_t>(c.r.next() >> 8);
   for (int i = 0; i < N; ++i)
   {
      Str o; strtk::random_permutation(s.begin(),s.end(),vh::into(o),base + i); ++perm[o];
      o.clear(); strtk::random_combination(s.begin(),s.end(),2,vh::into(o),base + i); ++comb[o];
      o.clear(); strtk::select_k_randomly(s.begin(),s.end(),2,vh::into(o),u); for (char ch : o) ++sel[ch];
      o.clear(); strtk::select_1_randomly(s.begin(),s.end(),vh::into(o),u); ++one[o[0]];
   }
   auto even = [&](double p, double got, const Str& what) { const double sd = std::sqrt(N * p * (1 - p)); V_CHECK(std::fabs(got - N * p) <= 8 * sd,what + ": " + vh::show(got) + " of " + vh::show(N) + " expected about " + vh::show(N * p)); c.event("frequencies",1); };
   V_EQ(perm.size(),std::size_t(24),"all permutations appear"); for (auto& e : perm) even(1 / 24.0,e.second,"permutation " + e.first);
   V_EQ(comb.size(),std::size_t(12),"all ordered pairs appear"); for (auto& e : comb) even(1 / 12.0,e.second,"pair " + e.first);
   for (auto& e : sel) even(0.5,e.second,Str("selection of ") + e.first); for (auto& e : one) even(0.25,e.second,Str("single selection of ") + e.first);
   V_EQ(sel.size(),s.size(),"all selected at times"); V_EQ(one.size(),s.size(),"all selected at times");
   c.context = "base seed " + vh::show(base); c.cover(c.context);
}
V_MAIN
