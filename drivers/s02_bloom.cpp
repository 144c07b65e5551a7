// S02: bloom filters never forget, keep their false positive rate, and survive copy, set operations, compression and files
#include "ref.hpp"
#include <memory>
#include <set>
#include <cmath>
#include <unistd.h>
#include "strtk.hpp"
typedef std::string Str;
using strtk::bloom::parameters; using strtk::bloom::filter; using strtk::bloom::compressible_filter;

static Str describe(const parameters& p)
{
   return "n=" + vh::show(p.projected_element_count) + " fpp=" + vh::show(p.false_positive_probability) + " hashes " + vh::show(p.minimum_number_of_hashes) + ".." + vh::show(p.maximum_number_of_hashes) +
          " bits " + vh::show(p.minimum_size) + ".." + vh::show(p.maximum_size) + " seed=" + vh::show(p.random_seed) + " -> k=" + vh::show(p.optimal_parameters.number_of_hashes) + " m=" + vh::show(p.optimal_parameters.table_size);
}
static parameters make(vh::Rng& r)
{
   parameters p;
   p.projected_element_count = 1 + r.below(r.chance(1,6) ? 3000 : 120);
   p.false_positive_probability = std::pow(10.0,-static_cast<double>(r.below(60)) / 10.0 - 0.01);
   do p.random_seed = r.chance(1,3) ? r.below(100) + 1 : r.next(); while (p.random_seed == 0 || p.random_seed == ~0ULL);
   if (r.chance(1,4)) p.maximum_number_of_hashes = 1 + static_cast<unsigned>(r.below(4));
   if (r.chance(1,6)) { p.minimum_number_of_hashes = r.chance(1,4) ? 129 + static_cast<unsigned>(r.below(40)) : 1 + static_cast<unsigned>(r.below(20)); if (p.maximum_number_of_hashes < p.minimum_number_of_hashes) p.maximum_number_of_hashes = p.minimum_number_of_hashes; }
   if (r.chance(1,4)) p.maximum_size = 1 + r.below(2000);
   if (r.chance(1,5)) { p.minimum_size = 1 + r.below(3000); if (p.maximum_size < p.minimum_size) p.maximum_size = p.minimum_size; }
   p.compute_optimal_parameters();
   return p;
}
static Str bits(const filter& f) { return Str(reinterpret_cast<const char*>(f.table()),static_cast<std::size_t>((f.size() + 7) / 8)); }
struct Key { Str s; int kind; };
static Key make_key(vh::Rng& r) { Key k; k.kind = static_cast<int>(r.below(6)); k.s = k.kind == 4 ? r.bytes(4) : k.kind == 5 ? r.bytes(8) : r.chance(1,3) ? r.str(r.below(24),"ab") : r.bytes(r.chance(1,40) ? r.below(3000) : r.below(24)); return k; }
template <typename T> T pod(const Str& s) { T t; memcpy(&t,s.data(),sizeof t); return t; }
static void put(filter& f, const Key& k, int how)
{
   const vh::Buf<char> b(k.s);
   switch (how) {
      case 0 : f.insert(k.s); break;
      case 1 : f.insert(static_cast<const char*>(b.begin()),k.s.size()); break;
      case 2 : f.insert(reinterpret_cast<const unsigned char*>(b.begin()),k.s.size()); break;
      case 3 : { const std::vector<Str> v(1,k.s); f.insert(v.begin(),v.end()); break; }
      case 4 : f.insert(pod<unsigned>(k.s)); break;
      default : f.insert(pod<unsigned long long>(k.s)); }
}
static void must(vh::Case& c, const filter& f, const Key& k, const char* when)
{
   const vh::Buf<char> b(k.s);
   V_CHECK(f.contains(k.s),Str("contains(string) ") + when + " key=" + vh::q(k.s));
   V_CHECK(f.contains(static_cast<const char*>(b.begin()),k.s.size()),Str("contains(const char*) ") + when);
   V_CHECK(f.contains(reinterpret_cast<const unsigned char*>(b.begin()),k.s.size()),Str("contains(const unsigned char*) ") + when);
   if (k.kind == 4) V_CHECK(f.contains(pod<unsigned>(k.s)),Str("contains(unsigned) ") + when);
   if (k.kind == 5) V_CHECK(f.contains(pod<unsigned long long>(k.s)),Str("contains(u64) ") + when);
}
static void must_all(vh::Case& c, const filter& f, const std::vector<Key>& ks, const char* when)
{
   std::vector<Str> v; for (const Key& k : ks) { must(c,f,k,when); v.push_back(k.s); }
   V_CHECK(f.contains_all(v.begin(),v.end()) == v.end(),Str("contains_all ") + when);
   if (!v.empty()) V_CHECK(f.contains_none(v.begin(),v.end()) == v.begin(),Str("contains_none stops at the first member ") + when);
   // both scans stop exactly at the first key for which contains() says so, members among strangers included
   std::vector<Str> mix; for (std::size_t i = 0, n = c.r.below(10); i < n; ++i) mix.push_back(v.empty() || c.r.chance(2,3) ? c.r.bytes(1 + c.r.below(12)) : v[c.r.below(v.size())]);
   std::size_t all = 0, none = 0; while (all < mix.size() && f.contains(mix[all])) ++all; while (none < mix.size() && !f.contains(mix[none])) ++none;
   V_EQ(static_cast<std::size_t>(f.contains_all(mix.begin(),mix.end()) - mix.begin()),all,Str("contains_all over strangers ") + when);
   V_EQ(static_cast<std::size_t>(f.contains_none(mix.begin(),mix.end()) - mix.begin()),none,Str("contains_none over strangers ") + when);
   c.event("memberships_checked",ks.size());
}

V_SECTION(parameters_, 3000)
{
   parameters p = make(c.r); c.context = describe(p);
   V_CHECK(!!p,"valid parameters");
   // the optimum over k, clamped
   long double best = HUGE_VALL; unsigned k = 0;
   for (unsigned i = 1; i < 1000; ++i)
   {
      const long double m = -static_cast<long double>(i) * p.projected_element_count / std::log(1.0L - std::pow(static_cast<long double>(p.false_positive_probability),1.0L / i));
      if (m < best) { best = m; k = i; }
   }
   const unsigned got_k = p.optimal_parameters.number_of_hashes; const unsigned long long got_m = p.optimal_parameters.table_size;
   V_CHECK(got_k >= p.minimum_number_of_hashes && got_k <= p.maximum_number_of_hashes,"hash count within limits");
   V_CHECK(got_m >= p.minimum_size && got_m <= p.maximum_size,"table size within limits");
   const unsigned want_k = std::min(std::max(k,p.minimum_number_of_hashes),p.maximum_number_of_hashes);
   V_CHECK(got_k + 1 >= want_k && got_k <= want_k + 1,"hash count is the best one: got " + vh::show(got_k) + " want " + vh::show(want_k));
   const double lo = std::min<double>(std::max<double>(static_cast<double>(best) * (1 - 1e-9) - 1,p.minimum_size),p.maximum_size), hi = std::min<double>(std::max<double>(static_cast<double>(best) * (1 + 1e-9) + 9,p.minimum_size),p.maximum_size);
   V_CHECK(got_m >= lo && got_m <= hi,"table size " + vh::show(got_m) + " for optimum " + vh::show(static_cast<double>(best)));
   if (got_m != p.minimum_size && got_m != p.maximum_size) V_EQ(got_m % 8,0ull,"whole bytes");
   filter f(p); V_EQ(f.size(),got_m,"filter size"); V_EQ(f.hash_count(),static_cast<std::size_t>(got_k),"filter hash count"); V_EQ(f.element_count(),std::size_t(0),"no elements"); V_CHECK(!!f || got_m == 0,"filter usable");
   { std::set<Str> none; V_CHECK(bits(f).find_first_not_of('\0') == Str::npos,"table starts empty"); }
   // invalid parameters are refused and leave the computed values alone
   parameters bad = p;
   switch (c.r.below(6)) { case 0 : bad.minimum_size = 2; bad.maximum_size = 1; break; case 1 : bad.minimum_number_of_hashes = 3; bad.maximum_number_of_hashes = 2; break; case 2 : bad.projected_element_count = 0; break;
      case 3 : bad.false_positive_probability = -0.1; break; case 4 : bad.random_seed = c.r.flip() ? 0 : ~0ULL; break; default : bad.minimum_number_of_hashes = 0; }
   V_CHECK(!bad,"invalid parameters are recognized"); V_CHECK(!bad.compute_optimal_parameters(),"invalid parameters are refused");
   V_CHECK(bad.optimal_parameters.number_of_hashes == got_k && bad.optimal_parameters.table_size == got_m,"refusal keeps the earlier result");
   { unsigned char buf[128]; strtk::binary::writer w(buf,sizeof buf); parameters q; V_CHECK(p(w),"write parameters"); strtk::binary::reader rd(buf,w.position()); V_CHECK(q(rd),"read parameters");
     V_CHECK(q.minimum_size == p.minimum_size && q.maximum_size == p.maximum_size && q.minimum_number_of_hashes == p.minimum_number_of_hashes && q.maximum_number_of_hashes == p.maximum_number_of_hashes &&
             q.projected_element_count == p.projected_element_count && q.false_positive_probability == p.false_positive_probability && q.random_seed == p.random_seed,"parameters read back"); }
   c.event("parameter_sets",1); c.cover(c.context);
}

V_SECTION(members, 1500)
{
   const parameters p = make(c.r); c.context = describe(p);
   std::unique_ptr<filter> f(new filter(p)); std::vector<Key> in; Str log;
   const std::size_t steps = 1 + (c.r.chance(1,100) ? c.r.below(4000) : c.r.below(40));
   for (std::size_t s = 0; s < steps; ++s)
   {
      switch (c.r.below(steps > 40 ? 6 : 8))
      {
         default : { const Key k = make_key(c.r); put(*f,k,k.kind); in.push_back(k); log += "i"; c.event("insertions",1); break; }
         case 5 : { log += "c"; std::unique_ptr<filter> g(new filter(*f)); V_CHECK(*g == *f && !(*g != *f),"a copy equals its source"); if (!in.empty() && c.r.flip()) { const Key k = make_key(c.r); put(*f,k,0); V_CHECK(*g != *f,"copies are independent"); } f.swap(g); break; }
         case 6 : { log += "a"; filter g(make(c.r)); put(g,make_key(c.r),0); g = *f; V_CHECK(g == *f,"an assigned filter equals its source"); const filter& self = g; g = self; V_CHECK(g == *f,"self assignment"); filter h; h = g; *f = h; break; }
         case 7 : if (c.r.chance(1,4)) { log += "!"; f->clear(); in.clear(); V_EQ(f->element_count(),std::size_t(0),"count after clear"); V_CHECK(bits(*f).find_first_not_of('\0') == Str::npos,"table after clear"); V_CHECK(*f == filter(p),"a cleared filter equals a new one"); } break;
      }
      V_EQ(f->element_count(),in.size(),"element_count");
      V_EQ(f->size(),p.optimal_parameters.table_size,"size");
   }
   c.context += " steps " + log;
   must_all(c,*f,in,"after the history");
   // the state is the union over keys: order and way of insertion do not matter
   filter g(p); std::vector<Key> sh = in; c.r.shuffle(sh); for (const Key& k : sh) put(g,k,static_cast<int>(c.r.below(4)));
   V_CHECK(bits(g) == bits(*f),"table depends only on the set of keys"); V_CHECK(g == *f,"filters with the same parameters and keys are equal");
   const double m = static_cast<double>(p.optimal_parameters.table_size), k = p.optimal_parameters.number_of_hashes, want = std::pow(1.0 - std::exp(-k * in.size() / m),k);
   V_CHECK(std::fabs(f->effective_fpp() - want) <= 1e-12 + 1e-9 * want,"effective_fpp");
   std::size_t set = 0; for (unsigned char ch : bits(*f)) for (int b = 0; b < 8; ++b) set += (ch >> b) & 1;
   V_CHECK(set <= in.size() * p.optimal_parameters.number_of_hashes,"no more bits than hashes times keys"); V_CHECK(in.empty() == (set == 0),"bits set exactly when something was inserted");
   c.cover(c.context);
}

V_SECTION(set_operations, 1500)
{
   const parameters p = make(c.r); c.context = describe(p);
   filter a(p), b(p); std::vector<Key> ka, kb, both;
   const std::size_t n = 1 + c.r.below(30);
   for (std::size_t i = 0; i < n; ++i) { const Key k = make_key(c.r); switch (c.r.below(3)) { case 0 : put(a,k,0); ka.push_back(k); break; case 1 : put(b,k,0); kb.push_back(k); break; default : put(a,k,0); put(b,k,0); both.push_back(k); } }
   const Str ta = bits(a), tb = bits(b); Str ti = ta, tu = ta, tx = ta; for (std::size_t i = 0; i < ta.size(); ++i) { ti[i] &= tb[i]; tu[i] |= tb[i]; tx[i] ^= tb[i]; }
   { filter x(a); V_CHECK(&(x &= b) == &x,"returns itself"); V_EQ(bits(x),ti,"intersection"); V_EQ(bits(a & b),ti,"operator &"); must_all(c,x,both,"in the intersection"); }
   { filter x(a); V_CHECK(&(x |= b) == &x,"returns itself"); V_EQ(bits(x),tu,"union"); V_EQ(bits(a | b),tu,"operator |"); must_all(c,x,ka,"in the union (left)"); must_all(c,x,kb,"in the union (right)"); must_all(c,x,both,"in the union (both)"); }
   { filter x(a); V_CHECK(&(x ^= b) == &x,"returns itself"); V_EQ(bits(x),tx,"difference"); V_EQ(bits(a ^ b),tx,"operator ^"); x ^= x; V_CHECK(bits(x).find_first_not_of('\0') == Str::npos,"x ^ x is empty"); }
   V_CHECK(bits(a) == ta && bits(b) == tb,"operands unchanged");
   // filters of a different shape or seed are not combined
   parameters q = p; const unsigned other = static_cast<unsigned>(c.r.below(4)); switch (other & 1) { case 0 : q.random_seed = p.random_seed == 5 ? 6 : 5; break; default : q.projected_element_count += 7; q.maximum_size = ~0ULL; q.minimum_size = p.optimal_parameters.table_size + 8; }
   q.compute_optimal_parameters();
   // (also shapes that differ in nothing but the number of hashes or the size of the table)
   if (other >= 2) { q = p; if (other == 2) q.optimal_parameters.number_of_hashes += p.optimal_parameters.number_of_hashes > 1 && c.r.flip() ? -1 : 1; else q.optimal_parameters.table_size += 8 * (1 + c.r.below(3)); }
   filter d(q); put(d,make_key(c.r),0); const Str td = bits(d);
   { filter x(a); x &= d; x |= d; x ^= d; V_EQ(bits(x),ta,"a filter of another shape or seed is ignored"); must_all(c,x,ka,"after ignored operations"); d |= a; V_EQ(bits(d),td,"ignored in the other direction"); V_CHECK(d != a,"different filters differ"); }
   c.event("set_operations",9); c.cover(c.context);
}

V_SECTION(compression, 1500)
{
   const parameters p = make(c.r); c.context = describe(p);
   compressible_filter f(p); std::vector<Key> in; Str log; std::size_t size = static_cast<std::size_t>(f.size());
   const std::size_t steps = 1 + c.r.below(30);
   for (std::size_t s = 0; s < steps; ++s)
   {
      if (c.r.chance(3,4)) { const Key k = make_key(c.r); put(f,k,k.kind); in.push_back(k); log += "i"; }
      else
      {
         const double pc = c.r.chance(1,6) ? (c.r.flip() ? 0.0 : c.r.flip() ? 100.0 : c.r.flip() ? -3.0 : 250.0) : c.r.unit() * (c.r.flip() ? 100 : 20);
         const Str before = bits(f); const double fpp = f.effective_fpp();
         std::size_t ns = pc > 0 && pc < 100 ? static_cast<std::size_t>(size * (1.0 - pc / 100.0)) : 0; const bool want = pc > 0 && pc < 100 && (ns / 8 * 8) >= 8 && (ns / 8 * 8) < size; ns = ns / 8 * 8;
         const bool ok = f.compress(pc); log += " compress(" + vh::show(pc) + ")=" + vh::show(ok) + " "; c.context = describe(p) + " steps " + log;
         V_EQ(ok,want,"compress accepted");
         if (ok) { V_EQ(static_cast<std::size_t>(f.size()),ns,"compressed size"); size = ns; V_CHECK(f.effective_fpp() >= fpp,"the false positive estimate does not improve"); c.event("compressions",1); }
         else { V_EQ(static_cast<std::size_t>(f.size()),size,"refused compression keeps the size"); V_CHECK(bits(f) == before,"refused compression keeps the table"); c.event("compressions_refused",1); }
      }
      V_EQ(f.element_count(),in.size(),"element_count");
   }
   c.context = describe(p) + " steps " + log;
   must_all(c,f,in,"after compression");
   compressible_filter g(f); must_all(c,g,in,"in a copy"); const Key k = make_key(c.r); put(g,k,0); must(c,g,k,"inserted after copying");
   compressible_filter h(p); h = f; must_all(c,h,in,"in an assigned filter"); V_CHECK(bits(h) == bits(f),"assigned table"); V_EQ(h.size(),f.size(),"assigned size");
   f.clear(); V_CHECK(bits(f).find_first_not_of('\0') == Str::npos,"cleared"); put(f,k,0); must(c,f,k,"inserted after clear");
   c.cover(c.context);
}

// compressed filters keep their keys through set operations and refuse files that could not bring them back
V_SECTION(compressed_combinations, 700)
{
   const parameters p = make(c.r); const Str fn = vh::tmp() + "/s02c_" + vh::show(getpid()); c.context = describe(p);
   compressible_filter a(p), b(p); std::vector<Key> ka, kb, both; Str log;
   for (std::size_t round = 0, rounds = c.r.below(4); round < rounds; ++round)
   {
      for (std::size_t n = c.r.below(8); n > 0; --n) { const Key k = make_key(c.r); const int to = static_cast<int>(c.r.below(3)); if (to != 1) { put(a,k,k.kind); ka.push_back(k); } if (to != 0) { put(b,k,k.kind); kb.push_back(k); } if (to == 2) both.push_back(k); }
      const double pc = c.r.unit() * 90; const bool ra = a.compress(pc), rb = b.compress(pc); V_EQ(ra,rb,"equal shapes compress alike"); log += vh::show(pc) + (ra ? " " : "(refused) "); c.event("compressions",ra);
   }
   c.context += " compressed by " + log; const bool squeezed = a.size() != compressible_filter(p).size();
   auto u = a | b; must_all(c,u,ka,"in a union of compressed filters"); must_all(c,u,kb,"in a union of compressed filters"); V_EQ(u.size(),a.size(),"size of the union");
   auto i = a & b; must_all(c,i,both,"in an intersection of compressed filters"); auto x = a ^ b; { const Key k = make_key(c.r); put(x,k,k.kind); must(c,x,k,"inserted into a difference"); put(u,k,k.kind); must(c,u,k,"inserted into a union"); if (u.compress(30)) { must_all(c,u,ka,"in a union compressed further"); must(c,u,k,"in a union compressed further"); } }
   { compressible_filter y(a); y &= b; V_EQ(bits(i),bits(y),"operator & is &="); compressible_filter z(a); z ^= b; V_EQ(bits(a ^ b),bits(z),"operator ^ is ^="); compressible_filter w(a); w |= b; V_EQ(bits(a | b),bits(w),"operator | is |=");
     const Str ta = bits(a), tb = bits(b), ty = bits(y), tz = bits(z), tw = bits(w); bool same = true; for (std::size_t j = 0; j < ta.size(); ++j) same = same && ty[j] == static_cast<char>(ta[j] & tb[j]) && tz[j] == static_cast<char>(ta[j] ^ tb[j]) && tw[j] == static_cast<char>(ta[j] | tb[j]); V_CHECK(same,"bitwise combination of compressed filters"); }
   { compressible_filter y(a); y |= b; must_all(c,y,ka,"after |="); must_all(c,y,kb,"after |="); y &= a; must_all(c,y,ka,"after &="); }
   // a file written brings the keys back, into a filter of any shape and history
   if (a.write_to_file(fn))
   {
      parameters q = make(c.r); compressible_filter g(q); if (c.r.flip()) g.compress(40); filter& base = g; V_CHECK(c.r.flip() ? g.read_from_file(fn) : base.read_from_file(fn),"read_from_file");
      must_all(c,g,ka,"in the filter read back"); V_EQ(g.size(),a.size(),"size read back"); V_CHECK(g == a,"equal to the one written"); for (std::size_t n = 5; n > 0; --n) { const Key k = make_key(c.r); put(g,k,k.kind); must(c,g,k,"inserted after reading"); } const Key k = make_key(c.r); put(g,k,k.kind); g.compress(25); must_all(c,g,ka,"compressed after reading"); must(c,g,k,"compressed after reading");
      Str raw; { std::ifstream s(fn.c_str(),std::ios::binary); raw.assign(std::istreambuf_iterator<char>(s),std::istreambuf_iterator<char>()); } { std::ofstream s(fn.c_str(),std::ios::binary); s << raw.substr(0,c.r.below(raw.size())); }
      V_CHECK(!g.read_from_file(fn) && !g,"a truncated file is refused"); V_CHECK(!g.compress(10),"nothing to compress"); V_EQ(g.size(),0ULL,"size of an empty filter"); g = a; must_all(c,g,ka,"assigned after a refused file"); c.event("compressible_files",1);
   }
   else { V_CHECK(squeezed,"a filter that was not compressed can be written"); c.event("compressed_files_refused",1); }
   { compressible_filter g(a); V_CHECK(!g.read_from_file(fn + "_missing"),"missing file"); must_all(c,g,ka,"a missing file changes nothing"); V_EQ(g.size(),a.size(),"a missing file changes nothing"); }
   unlink(fn.c_str()); c.event("set_operations",6); c.cover(c.context);
}

V_SECTION(rates, 60)
{
   parameters p; p.projected_element_count = 200 + c.r.below(2000); p.false_positive_probability = std::pow(10.0,-0.5 - c.r.unit() * 2.2); p.random_seed = 1 + c.r.next() / 3; p.compute_optimal_parameters();
   c.context = describe(p);
   compressible_filter f(p); std::set<Str> in; const std::size_t n = static_cast<std::size_t>(p.projected_element_count);
   auto gen = [&]() { return c.r.bytes(8 + c.r.below(16)); };
   while (in.size() < n) { const Str k = gen(); if (in.insert(k).second) f.insert(k); }
   V_CHECK(f.contains_all(in.begin(),in.end()) == in.end(),"no false negatives");
   std::vector<std::size_t> sizes(1,static_cast<std::size_t>(f.size()));
   for (int round = 0; round < 3; ++round)
   {
      // a random key hits with the probability that all its bits are set, given how original positions fold onto the table
      const Str tab = bits(f); std::size_t on = 0;
      for (std::size_t i = 0; i < sizes[0]; ++i) { std::size_t x = i; for (std::size_t m : sizes) x %= m; on += (static_cast<unsigned char>(tab[x / 8]) >> (x % 8)) & 1; }
      const double target = round == 0 ? p.false_positive_probability : std::pow(static_cast<double>(on) / sizes[0],static_cast<double>(f.hash_count()));
      std::size_t hit = 0, tried = 0; while (tried < 6000) { const Str k = gen(); if (in.count(k)) continue; ++tried; hit += f.contains(k); }
      const double expect = target * tried;
      V_CHECK(hit <= 2.0 * expect + 8 * std::sqrt(expect) + 12,"false positives " + vh::show(hit) + " of " + vh::show(tried) + ", expected about " + vh::show(expect) + " round " + vh::show(round));
      c.event("false_positive_trials",tried);
      if (!f.compress(10 + c.r.below(30))) break;
      sizes.push_back(static_cast<std::size_t>(f.size()));
      V_CHECK(f.contains_all(in.begin(),in.end()) == in.end(),"no false negatives after compression");
   }
   c.cover(c.context);
}

// a near-empty filter tells a key from its neighbours: no byte of a key is ignored, nor its length, nor the seed
V_SECTION(discrimination, 600)
{
   parameters p; p.projected_element_count = 500 + c.r.below(2000); p.false_positive_probability = std::pow(10.0,-4.0 - c.r.unit() * 2.0); p.random_seed = 1 + c.r.next() / 3; p.compute_optimal_parameters();
   // (a table of m * 2^k bits with small m uses the low bits of the hash only, which the high bytes of a word do not reach: not judged)
   while (0 == (p.optimal_parameters.table_size & 63)) { ++p.projected_element_count; p.compute_optimal_parameters(); }
   const std::size_t n = 1 + c.index % 40; const Str k = c.r.bytes(n); c.context = describe(p) + " key " + vh::q(k);
   filter f(p); { vh::Buf<unsigned char> b(n); std::copy(k.begin(),k.end(),b.begin()); f.insert(b.begin(),n); }
   std::size_t tried = 0, hit = 0;
   auto deaf = [&](const filter& t, const Str& key, std::size_t i) { std::size_t same = 0; for (int j = 0; j < 3; ++j) { Str v = key; v[i] = static_cast<char>(v[i] ^ (1 + (j * 85 + c.r.below(85)))); same += t.contains(v); } return same == 3; };
   for (std::size_t i = 0; i < n; ++i)
   {
      tried += 3;
      if (!deaf(f,k,i)) continue;
      // about one key in 10^7 meets a factor that swallows a byte: only what other keys and seeds confirm is a violation
      std::size_t confirmed = 0;
      for (int j = 0; j < 6; ++j) { parameters o = p; o.random_seed = 1 + c.r.next() / 3; filter t(o); const Str key = c.r.bytes(n); t.insert(key); confirmed += deaf(t,key,i); }
      V_CHECK(confirmed < 3,"byte " + vh::show(i) + " of the key has no influence on the membership");
   }
   for (std::size_t i = 1; i < n; ++i) { tried += 1; hit += f.contains(k.substr(0,i)); }
   for (int j = 0; j < 6; ++j) { tried += 1; hit += f.contains(k + c.r.bytes(1 + c.r.below(6))); }
   V_CHECK(hit <= 2,"a filter with one key accepts " + vh::show(hit) + " of " + vh::show(tried) + " neighbours of the key");
   parameters q = p; q.random_seed ^= 1ULL << c.r.below(32); if (!q.random_seed) q.random_seed = 7;
   filter g(q); g.insert(k); for (int j = 0; j < 10; ++j) { const Str x = c.r.bytes(12); f.insert(x); g.insert(x); }
   if (q.random_seed != p.random_seed) { V_CHECK(!(f == g),"filters of different seeds are equal"); if (f.size() == g.size()) V_CHECK(bits(f) != bits(g),"the seed has no influence on the table"); }
   c.event("neighbours_tried",tried); c.event("seeds_compared",1); c.cover(c.context);
}

V_SECTION(files, 400)
{
   const parameters p = make(c.r); c.context = describe(p);
   const Str fn = vh::tmp() + "/s02_" + vh::show(getpid());
   filter f(p); std::vector<Key> in; const std::size_t n = c.r.below(30); for (std::size_t i = 0; i < n; ++i) { const Key k = make_key(c.r); put(f,k,k.kind); in.push_back(k); }
   V_CHECK(f.write_to_file(fn),"write_to_file");
   filter g; if (c.r.flip()) g = filter(make(c.r)); V_CHECK(g.read_from_file(fn),"read_from_file"); V_CHECK(g == f,"the filter read back equals the one written"); must_all(c,g,in,"in the filter read back"); { const Key k = make_key(c.r); put(g,k,0); put(f,k,0); V_CHECK(g == f,"both evolve alike"); }
   // truncated, extended or damaged files: refused or usable, never a memory error
   Str raw; { std::ifstream s(fn.c_str(),std::ios::binary); raw.assign(std::istreambuf_iterator<char>(s),std::istreambuf_iterator<char>()); }
   for (int i = 0; i < 4; ++i)
   {
      Str bad = raw; bool cut = false;
      switch (c.r.below(4)) { case 0 : bad.resize(c.r.below(raw.size())); cut = true; break; case 1 : { const std::size_t k = 1 + c.r.below(6); for (std::size_t j = 0; j < k; ++j) bad[c.r.below(std::min<std::size_t>(bad.size(),64))] = static_cast<char>(c.r.next()); break; } case 2 : bad[c.r.below(bad.size())] ^= static_cast<char>(1u << c.r.below(8)); break; default : bad = c.r.bytes(c.r.below(200)); }
      { std::ofstream s(fn.c_str(),std::ios::binary); s << bad; }
      filter h(p); put(h,make_key(c.r),0);
      const bool ok = h.read_from_file(fn);
      if (cut) V_CHECK(!ok,"a truncated file is refused");
      if (!ok) { V_CHECK(!h,"a refused file leaves an unusable, empty filter"); V_EQ(h.hash_count(),std::size_t(0),"no hashes"); filter x(h); h = filter(p); V_CHECK(h == filter(p),"usable again after assignment"); }
      else { const Key k = make_key(c.r); put(h,k,0); must(c,h,k,"in a filter from a damaged but accepted file"); }
      c.event(ok ? "damaged_accepted" : "damaged_refused",1);
   }
   unlink(fn.c_str());
   filter h(p); V_CHECK(!h.read_from_file(fn + "_missing"),"missing file"); V_CHECK(!filter().write_to_file(fn + "_empty"),"an empty filter is not written"); V_CHECK(!f.write_to_file(fn + "_nodir/x"),"unwritable path"); V_CHECK(!f.write_to_file("/dev/full"),"a full disk"); V_CHECK(!h.read_from_file(vh::tmp()),"a directory is not a filter"); V_CHECK(!h,"nothing was read");
   c.event("files_read_back",1); c.cover(c.context);
}
V_MAIN
