// K01: combinations, permutations and their rankings
#include "ref.hpp"
#include <memory>
#include <list>
#include <deque>
#include <map>
#include "strtk.hpp"
typedef std::string Str;
typedef unsigned long long u64;
typedef std::vector<Str> Strs;

// all k-subsets of positions in lexicographic order
static void subsets(std::size_t n, std::size_t k, std::vector<std::vector<std::size_t> >& out, std::vector<std::size_t> cur = std::vector<std::size_t>(), std::size_t from = 0)
{
   if (cur.size() == k) { out.push_back(cur); return; }
   for (std::size_t i = from; i < n && cur.size() + (n - i) >= k; ++i) { cur.push_back(i); subsets(n,k,out,cur,i + 1); cur.pop_back(); }
}
static Str take(const Str& s, const std::vector<std::size_t>& ix) { Str r; for (std::size_t i : ix) r += s[i]; return r; }
// the distinct k-multisets of a sorted text in lexicographic order
static Strs multisets(const Str& s, std::size_t k)
{
   std::vector<std::vector<std::size_t> > ix; subsets(s.size(),k,ix);
   Strs r; for (auto& i : ix) r.push_back(take(s,i));
   std::sort(r.begin(),r.end(),[](const Str& a, const Str& b) { return std::lexicographical_compare(a.begin(),a.end(),b.begin(),b.end()); }); r.erase(std::unique(r.begin(),r.end()),r.end()); return r;
}

#ifdef VH_THREADS
static const bool vh_filled = (strtk::initialize_n_choose_k(),true); // (the table is shared once it is filled)
#endif
V_SECTION(binomials, 200)
{
   // Pascal's triangle in 128 bits, asked in any order
   static std::vector<std::vector<unsigned __int128> > tri;
   if (tri.empty()) { tri.resize(160); for (std::size_t n = 0; n < 160; ++n) { tri[n].assign(n + 1,1); for (std::size_t k = 1; k < n; ++k) { tri[n][k] = tri[n - 1][k - 1] + tri[n - 1][k]; const unsigned __int128 lim = static_cast<unsigned __int128>(1) << 100; if (tri[n][k] > lim) tri[n][k] = lim; } } }
   if (c.r.chance(1,20)) { strtk::initialize_n_choose_k(); c.event("tables_prefilled",1); }
   for (int i = 0; i < 60; ++i)
   {
      u64 n = c.r.below(c.r.chance(1,6) ? 150 : 68), k = c.r.below(n + 3);
      if (k <= n && (tri[n][k] >> 63) != 0) { n = c.r.below(64); k = c.r.below(n + 1); }
      c.context = "n=" + vh::show(n) + " k=" + vh::show(k);
      V_EQ(strtk::n_choose_k(n,k),k > n ? 0ull : static_cast<u64>(tri[n][k]),"n_choose_k");
      c.event("binomials",1); c.cover(c.context);
   }
}

V_SECTION(large_tables, 60)
{
   // tables on the heap: a coefficient beyond 64 bits has no defined value, but its computation stays inside the table
   const u64 n = 98 + c.r.below(110), k = c.r.chance(1,2) ? n / 2 - 2 + c.r.below(5) : c.r.below(n + 1);
   c.context = "n=" + vh::show(n) + " k=" + vh::show(k);
   const u64 a = strtk::n_choose_k(n,k); V_EQ(strtk::n_choose_k(n,n - k),a,"symmetry");
   V_EQ(strtk::n_choose_k(n,2),n * (n - 1) / 2,"k = 2"); V_EQ(strtk::n_choose_k(n,n - 1),n,"k = n - 1");
   c.event("large_tables",1); c.cover(c.context);
}

V_SECTION(next_combination, 6000)
{
   static const char* als[] = { "abcdefghijkl", "ab", "aabc", "\x01\x7F\x80\xFF" }; const bool large = c.r.chance(1,40);
   Str s = c.r.chance(1,3) ? Str("abcdefghijkl").substr(0,c.r.below(9)) : c.r.str(c.r.below(9),als[c.r.below(4)]);
   if (large) s = c.r.str(10 + c.r.below(50),"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789");
   std::sort(s.begin(),s.end());
   const std::size_t k = large ? c.r.below(s.size() > 24 ? 3 : 4) : c.r.below(s.size() + 1);
   c.context = "s=" + vh::q(s) + " k=" + vh::show(k);
   Strs want = multisets(s,k);
   {
      Str x = s; vh::Buf<char> b(s); std::list<char> l(s.begin(),s.end()); std::vector<int> v(s.begin(),s.end());
      auto lk = l.begin(); std::advance(lk,k);
      std::size_t i = 0; bool more = true;
      while (more)
      {
         V_CHECK(i < want.size(),"too many combinations at #" + vh::show(i));
         V_EQ(x.substr(0,k),want[i],"combination #" + vh::show(i)); V_EQ(b.str().substr(0,k),want[i],"combination (range) #" + vh::show(i));
         V_EQ(Str(l.begin(),l.end()).substr(0,k),want[i],"combination (list) #" + vh::show(i)); V_EQ(Str(v.begin(),v.end()).substr(0,k),want[i],"combination (vector<int>) #" + vh::show(i));
         more = strtk::next_combination(x.begin(),x.begin() + k,x.end());
         V_EQ(strtk::next_combination(b.begin(),b.begin() + k,b.end()),more,"next_combination(range)"); V_EQ(strtk::next_combination(l.begin(),lk = [&]{ auto t = l.begin(); std::advance(t,k); return t; }(),l.end()),more,"next_combination(list)"); V_EQ(strtk::next_combination(v,k),more,"next_combination(sequence)");
         ++i; c.event("combinations",4);
      }
      V_EQ(i,want.size(),"number of combinations");
      V_EQ(x,s,"after the last combination the sequence is sorted again");
   }
   // the iterator adaptor over the same combinations
   Str sh = s; const bool sorted = c.r.flip(); if (!sorted) { std::vector<char> t(s.begin(),s.end()); c.r.shuffle(t); sh.assign(t.begin(),t.end()); }
   typedef strtk::combination_iterator<std::vector<char>::iterator> CI;
   if (!s.empty())
   {
      std::vector<char> v(sh.begin(),sh.end()); const int form = static_cast<int>(c.r.below(2));
      CI it = form ? CI(k,v,sorted) : CI(k,v.begin(),v.end(),sorted), end(v.end()); const CI end2(v);
      V_CHECK(end == end2,"end iterators are equal");
      std::size_t i = 0;
      while (it != end) { V_CHECK(i < want.size(),"iterator yields too many"); const CI::range_type r = *it; V_EQ(Str(r.first,r.second),want[i],"iterator combination #" + vh::show(i)); ++i; if (c.r.flip()) ++it; else it++; c.event("iterator_combinations",1); }
      V_EQ(i,want.size(),"iterator count"); ++it; V_CHECK(it == end,"stays at the end");
      // skipping ahead
      std::vector<char> w(s.begin(),s.end()); CI a(k,w); const std::size_t skip = c.r.below(want.size() + 2); a += static_cast<int>(skip); const CI e2(w.end());
      V_EQ(a == e2,skip >= want.size(),"+= reaches the end"); if (skip < want.size()) V_EQ(Str((*a).first,(*a).second),want[skip],"+= lands on combination");
      Str x = sh; typedef strtk::combination_iterator<char*> CS; CS si(k,x,sorted), se(x); std::size_t n = 0;
      while (si != se) { V_CHECK(n < want.size() && Str((*si).first,(*si).second) == want[n],"string combination #" + vh::show(n)); ++n; ++si; } V_EQ(n,want.size(),"string combination count");
   }
   c.cover(c.context);
}

struct Collect { Strs* out; std::size_t limit; void operator()(char* b, char* e) { out->push_back(Str(b,e)); } };
struct CollectIf { Strs* out; std::size_t limit; bool operator()(char* b, char* e) { out->push_back(Str(b,e)); return out->size() < limit; } };
struct CollectI { Strs* out; void operator()(std::vector<int>::iterator b, std::vector<int>::iterator e) { out->push_back(Str(b,e)); } };

V_SECTION(for_each, 4000)
{
   // positions are distinct letters, order arbitrary: combinations go by position
   // also long sequences with few (or all but few) positions
   const bool large = c.r.chance(1,40); const std::size_t n = large ? 9 + c.r.below(50) : c.r.below(9), k = large ? (n > 24 ? c.r.below(3) : c.r.flip() ? c.r.below(4) : n - c.r.below(3)) : c.r.below(n + 2);
   std::vector<char> t; for (std::size_t i = 0; i < n; ++i) t.push_back(static_cast<char>('A' + i)); if (c.r.flip()) c.r.shuffle(t);
   const Str s(t.begin(),t.end()); c.context = "s=" + vh::q(s) + " k=" + vh::show(k);
   std::vector<std::vector<std::size_t> > ix; if (k <= n) subsets(n,k,ix);
   std::set<Str> want; for (auto& i : ix) { Str x = take(s,i); std::sort(x.begin(),x.end()); want.insert(x); }
   auto norm = [](Strs v) { for (Str& x : v) std::sort(x.begin(),x.end()); return std::set<Str>(v.begin(),v.end()); };
   { vh::Buf<char> b(s); Strs got; Collect f = { &got, 0 }; strtk::for_each_combination(b.begin(),b.end(),k,f); V_EQ(got.size(),want.size(),"for_each_combination calls"); V_CHECK(norm(got) == want,"every combination once"); for (const Str& x : got) V_EQ(x.size(),k,"size of a combination"); V_EQ(b.str(),s,"the sequence is restored"); c.event("combinations",got.size()); }
   { std::vector<int> v(s.begin(),s.end()); Strs got; CollectI f = { &got }; strtk::for_each_combination(v.begin(),v.end(),k,f); V_CHECK(got.size() == want.size() && norm(got) == want,"for_each_combination(vector)"); }
   {
      vh::Buf<char> b(s); Strs all, got; { vh::Buf<char> a(s); Collect f = { &all, 0 }; strtk::for_each_combination(a.begin(),a.end(),k,f); }
      const std::size_t limit = 1 + c.r.below(want.size() + 2); CollectIf f = { &got, limit }; strtk::for_each_combination_conditional(b.begin(),b.end(),k,f);
      V_EQ(got.size(),std::min(limit,want.size()),"conditional stops at the first refusal"); V_CHECK(std::equal(got.begin(),got.end(),all.begin()),"conditional visits the same combinations in the same order");
      Str x = b.str(), y = s; if (limit > want.size()) V_EQ(x,s,"restored after a complete run"); std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); V_EQ(x,y,"elements are only rearranged"); c.event("conditional_runs",1);
   }
   if (n <= 6)
   {
      Str p = c.r.flip() ? s : c.r.str(n,"aab"); std::vector<char> sp(p.begin(),p.end()); if (c.r.flip()) std::sort(sp.begin(),sp.end()); p.assign(sp.begin(),sp.end());
      Strs perms; Str x = p; do perms.push_back(x); while (std::next_permutation(x.begin(),x.end()));
      c.context += " p=" + vh::q(p);
      { vh::Buf<char> b(p); Strs got; Collect f = { &got, 0 }; strtk::for_each_permutation(b.begin(),b.end(),f); V_CHECK(got == perms,"for_each_permutation"); }
      { vh::Buf<char> b(p); Strs got; const std::size_t limit = 1 + c.r.below(perms.size() + 2); CollectIf f = { &got, limit }; V_EQ(strtk::for_each_permutation_conditional(b.begin(),b.end(),f),limit > perms.size(),"for_each_permutation_conditional result"); V_CHECK(got.size() == std::min(limit,perms.size()) && std::equal(got.begin(),got.end(),perms.begin()),"for_each_permutation_conditional"); }
      c.event("permutations",perms.size());
   }
   c.cover(c.context);
}

V_SECTION(rankings, 3000)
{
   // the n-th combination and permutation for every n of one shape
   const std::size_t r = c.r.below(9), k = c.r.below(r + 1);
   std::vector<std::vector<std::size_t> > ix; subsets(r,k,ix);
   const Str s = Str("qwertyuiop").substr(0,r); c.context = "r=" + vh::show(r) + " k=" + vh::show(k);
   for (std::size_t n = 0; n < ix.size(); ++n)
   {
      if (ix.size() > 20 && !c.r.chance(1,4)) continue;
      std::vector<std::size_t> all = ix[n]; for (std::size_t i = 0; i < r; ++i) if (std::find(ix[n].begin(),ix[n].end(),i) == ix[n].end()) all.push_back(i);
      { std::unique_ptr<std::size_t[]> o(new std::size_t[r]); strtk::nth_combination_sequence(n,r,k,o.get()); V_CHECK(std::equal(all.begin(),all.end(),o.get()),"nth_combination_sequence #" + vh::show(n)); }
      { std::unique_ptr<std::size_t[]> o(new std::size_t[k]); strtk::nth_combination_sequence(n,r,k,o.get(),false); V_CHECK(std::equal(ix[n].begin(),ix[n].end(),o.get()),"nth_combination_sequence (incomplete) #" + vh::show(n)); }
      { vh::Buf<char> b(s), o(r); strtk::nth_combination_sequence(n,k,b.begin(),b.end(),o.begin()); V_EQ(o.str(),take(s,all),"nth_combination_sequence(range) #" + vh::show(n)); }
      { vh::Buf<char> b(s), o(k); strtk::nth_combination_sequence(n,k,b.begin(),b.end(),o.begin(),false); V_EQ(o.str(),take(s,ix[n]),"nth_combination_sequence(range, incomplete) #" + vh::show(n)); }
      c.event("ranked_combinations",4);
   }
   if (r <= 6)
   {
      std::vector<std::size_t> p; for (std::size_t i = 0; i < r; ++i) p.push_back(i); std::size_t n = 0;
      do
      {
         if (r < 5 || c.r.chance(1,8))
         {
            std::unique_ptr<std::size_t[]> o(new std::size_t[r]); strtk::nth_permutation_sequence(n,r,o.get()); V_CHECK(std::equal(p.begin(),p.end(),o.get()),"nth_permutation_sequence #" + vh::show(n));
            vh::Buf<char> b(s), q(r); strtk::nth_permutation_sequence(n,b.begin(),b.end(),q.begin()); V_EQ(q.str(),take(s,p),"nth_permutation_sequence(range) #" + vh::show(n)); V_EQ(strtk::nth_permutation_sequence(n,s),take(s,p),"nth_permutation_sequence(string) #" + vh::show(n));
            c.event("ranked_permutations",3);
         }
         ++n;
      } while (std::next_permutation(p.begin(),p.end()));
   }
   c.cover(c.context + " #" + vh::show(c.index % 500));
}

V_SECTION(large_rankings, 2000)
{
   // unranking large shapes, checked by ranking the answer with an independent count
   const std::size_t r = 10 + c.r.below(45), k = 1 + c.r.below(std::min<std::size_t>(r,20));
   auto choose = [](u64 n, u64 q) { if (q > n) return static_cast<unsigned __int128>(0); unsigned __int128 v = 1; for (u64 i = 1; i <= q; ++i) v = v * (n - q + i) / i; return v; };
   const unsigned __int128 total = choose(r,k); const u64 n = c.r.chance(1,6) ? static_cast<u64>(total - 1) : c.r.chance(1,6) ? 0 : c.r.next() % static_cast<u64>(total);
   c.context = "n=" + vh::show(n) + " r=" + vh::show(r) + " k=" + vh::show(k);
   std::unique_ptr<std::size_t[]> o(new std::size_t[k]); strtk::nth_combination_sequence(n,r,k,o.get(),false);
   unsigned __int128 rank = 0; std::size_t from = 0;
   for (std::size_t i = 0; i < k; ++i) { V_CHECK(o[i] < r && o[i] >= from,"indices ascend within range"); for (std::size_t j = from; j < o[i]; ++j) rank += choose(r - 1 - j,k - 1 - i); from = o[i] + 1; }
   V_EQ(static_cast<u64>(rank),n,"rank of the n-th combination"); c.event("ranked_combinations",1);
   const std::size_t m = 7 + c.r.below(14); u64 f = 1; for (std::size_t i = 2; i <= m; ++i) f *= i;
   const u64 pn = c.r.chance(1,6) ? f - 1 : c.r.next() % f; std::unique_ptr<std::size_t[]> p(new std::size_t[m]); strtk::nth_permutation_sequence(static_cast<std::size_t>(pn),m,p.get());
   c.context += " pn=" + vh::show(pn) + " m=" + vh::show(m);
   u64 pr = 0, w = f; std::vector<bool> used(m,false);
   for (std::size_t i = 0; i < m; ++i) { w /= m - i; V_CHECK(p[i] < m && !used[p[i]],"a permutation"); std::size_t less = 0; for (std::size_t j = 0; j < p[i]; ++j) less += !used[j]; used[p[i]] = true; pr += w * less; }
   V_EQ(pr,pn,"rank of the n-th permutation"); c.event("ranked_permutations",1);
   c.cover(c.context);
}
V_MAIN
