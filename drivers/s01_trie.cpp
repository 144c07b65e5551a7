// S01: prefix trie against an ordered map
#include "ref.hpp"
#include <map>
#include <memory>
#include "strtk.hpp"
typedef std::string Str;
struct Live { static VH_TLS long n; int v; Live() : v(0) { ++n; } Live(int x) : v(x) { ++n; } Live(const Live& o) : v(o.v) { ++n; } Live& operator=(const Live& o) { v = o.v; return *this; } ~Live() { --n; } bool operator==(const Live& o) const { return v == o.v; } };
VH_TLS long Live::n = 0;
static std::ostream& operator<<(std::ostream& o, const Live& l) { return o << l.v; }
static int num(const Live& l) { return l.v; }
static int num(int v) { return v; }
static int num(const Str& s) { return atoi(s.c_str()); }
template <typename T> T mk(int v) { return T(v); }
template <> Str mk<Str>(int v) { return std::to_string(v) + Str(40,'x'); }

static Str all_bytes() { Str s; for (int i = 0; i < 256; ++i) s += static_cast<char>(i); return s; }
static bool has_prefix(const std::map<Str,int>& m, const Str& p) { if (p.empty()) return false; auto i = m.lower_bound(p); return i != m.end() && i->first.compare(0,p.size(),p) == 0; }

static Str key(vh::Rng& r, const std::map<Str,int>& m, const Str& al)
{
   if (!m.empty() && r.chance(1,2))
   {
      auto i = m.begin(); std::advance(i,r.below(std::min<std::size_t>(m.size(),20)));
      Str k = i->first;
      switch (r.below(4)) { case 0 : return k; case 1 : return k.substr(0,r.below(k.size() + 1)); case 2 : return k + r.str(1 + r.below(2),al); default : if (!k.empty()) k[r.below(k.size())] = al[r.below(al.size())]; return k; }
   }
   return r.str(r.len(8),al);
}

template <typename V> void string_history(vh::Case& c, const char* kind)
{
   static const char* als[] = { "ab", "abc", "az\xFF\x80 ", "xyz" };
   const Str al = c.r.chance(1,6) ? Str("\0a\xFF",3) : c.r.chance(1,6) ? all_bytes() : Str(als[c.r.below(4)]);
   typedef typename strtk::prefix_trie<V>::std_string Trie;
   std::unique_ptr<Trie> t(new Trie);
   std::map<Str,int> m; Str log;
   const std::size_t steps = 1 + c.r.len(40);
   for (std::size_t s = 0; s < steps; ++s)
   {
      const Str k = key(c.r,m,al);
      const int v = 1 + static_cast<int>(c.r.below(1000)); if (log.size() > 2000) log = " ...";
      switch (c.r.below(5))
      {
         case 0 : case 1 :
            log += " insert " + vh::q(k) + "=" + vh::show(v); c.context = Str(kind) + log;
            if (c.r.flip()) strtk::trie::insert(*t,k,mk<V>(v));
            else { const vh::Buf<char> b(k); t->insert(b.begin(),b.end(),mk<V>(v)); }
            if (!k.empty()) m[k] = v;
            c.event("keys_inserted",1);
            break;
         case 2 : case 3 :
         {
            log += " find " + vh::q(k); c.context = Str(kind) + log;
            auto i = m.find(k); const bool want = i != m.end();
            V got = mk<V>(-7); V_EQ(strtk::trie::find(*t,k,got),want,"find"); V_EQ(num(got),want ? i->second : -7,"value after find");
            V g2 = mk<V>(-7); const vh::Buf<char> b(k); V_EQ(t->find(b.begin(),b.end(),g2),want,"find(range)"); V_EQ(num(g2),want ? i->second : -7,"value after find(range)");
            if (k.find('\0') == Str::npos) { V g3 = mk<V>(-7); V_EQ(strtk::trie::find(*t,k.c_str(),g3),want,"find(const char*)"); V_EQ(num(g3),want ? i->second : -7,"value after find(const char*)"); }
            c.event(want ? "keys_found" : "keys_missed",3);
            break;
         }
         default :
         {
            log += " prefix " + vh::q(k); c.context = Str(kind) + log;
            const bool want = has_prefix(m,k);
            V_EQ(strtk::trie::find_prefix(*t,k),want,"find_prefix"); const vh::Buf<char> b(k); V_EQ(t->find_prefix(b.begin(),b.end()),want,"find_prefix(range)");
            if (k.find('\0') == Str::npos) V_EQ(strtk::trie::find_prefix(*t,k.c_str()),want,"find_prefix(const char*)");
            c.event(want ? "prefixes_found" : "prefixes_missed",2);
         }
      }
   }
   // at the end every key is there with its last value and every prefix of it is a prefix
   c.context = Str(kind) + log + " final";
   for (auto& e : m)
   {
      V got = mk<V>(-7); V_CHECK(strtk::trie::find(*t,e.first,got) && num(got) == e.second,"final find of " + vh::q(e.first));
      for (std::size_t n = 1; n <= e.first.size(); n += 1 + (e.first.size() > 40 ? c.r.below(e.first.size() / 10) : 0)) { const Str p = e.first.substr(0,n); V_CHECK(strtk::trie::find_prefix(*t,p),"final prefix " + vh::q(p)); if (!m.count(p)) { V x = mk<V>(-7); V_CHECK(!strtk::trie::find(*t,p,x) && num(x) == -7,"inner node " + vh::q(p) + " has no value"); } }
      c.event("final_keys",1);
   }
   c.cover(c.context);
}

V_SECTION(strings, 6000) { string_history<int>(c,"int:"); }
V_SECTION(string_values, 2000) { string_history<Str>(c,"string:"); }
V_SECTION(lifetimes, 2000)
{
   const long before = Live::n;
   { string_history<Live>(c,"counted:"); V_CHECK(Live::n >= before,"live values"); }
   V_EQ(Live::n,before,"values left alive after the trie is gone");
   c.event("lifetimes_closed",1);
}

template <typename K> void sequence_history(vh::Case& c, const char* kind)
{
   // keys of other element types, in exact blocks
   typedef strtk::trie::prefix<const K*,int> Trie; Trie t;
   std::map<std::vector<K>,int> m; const std::size_t steps = 1 + c.r.below(30);
   for (std::size_t s = 0; s < steps; ++s)
   {
      std::vector<K> k; const std::size_t n = c.r.below(5); for (std::size_t i = 0; i < n; ++i) k.push_back(static_cast<K>(c.r.chance(1,6) ? c.r.next() : c.r.below(3)));
      std::unique_ptr<K[]> b(new K[n]); std::copy(k.begin(),k.end(),b.get());
      const K *kb = b.get(), *ke = b.get() + n; const int v = static_cast<int>(c.r.below(1000));
      if (c.r.flip()) { t.insert(kb,ke,v); if (n) m[k] = v; c.event("keys_inserted",1); }
      int got = -7; auto i = m.find(k); const bool want = i != m.end();
      V_EQ(t.find(kb,ke,got),want,Str(kind) + " find"); V_EQ(got,want ? i->second : -7,Str(kind) + " value");
      bool pre = false; for (auto& e : m) if (n && e.first.size() >= n && std::equal(k.begin(),k.end(),e.first.begin())) pre = true;
      V_EQ(t.find_prefix(kb,ke),pre,Str(kind) + " find_prefix");
      c.event(want ? "keys_found" : "keys_missed",1); c.event(pre ? "prefixes_found" : "prefixes_missed",1);
   }
   c.context = Str(kind) + " history of " + vh::show(steps) + " keys " + vh::show(m.size()) + " #" + vh::show(c.index); c.cover(c.context);
}
V_SECTION(sequences, 3000)
{
   switch (c.r.below(3)) { case 0 : sequence_history<int>(c,"int keys"); break; case 1 : sequence_history<unsigned char>(c,"byte keys"); break; default : sequence_history<unsigned long long>(c,"64-bit keys"); }
}

V_SECTION(long_keys, 40)
{
   // long shared paths and wide nodes
   strtk::prefix_trie<int>::std_string t; std::map<Str,int> m;
   const Str base = c.r.bytes(200 + c.r.below(1500));
   for (int i = 0; i < 60; ++i) { Str k = base.substr(0,1 + c.r.below(base.size())); if (c.r.flip()) k += static_cast<char>(c.r.below(256)); strtk::trie::insert(t,k,i); m[k] = i; }
   for (int i = 0; i < 200; ++i) { const Str k(1,static_cast<char>(c.r.below(256))); strtk::trie::insert(t,k,1000 + i); m[k] = 1000 + i; }
   c.context = "base length " + vh::show(base.size()) + " keys " + vh::show(m.size());
   for (auto& e : m) { int v = -7; V_CHECK(strtk::trie::find(t,e.first,v) && v == e.second,"find key of length " + vh::show(e.first.size())); c.event("keys_found",1); }
   for (int i = 0; i < 200; ++i) { const Str k = base.substr(0,c.r.below(base.size())) + static_cast<char>(c.r.below(256)); int v = -7; V_EQ(strtk::trie::find(t,k,v),m.count(k) != 0,"find derived key"); V_EQ(strtk::trie::find_prefix(t,k),has_prefix(m,k),"find_prefix derived key"); }
   V_CHECK(!strtk::trie::find_prefix(t,base + "z" + base),"longer than any key");
   c.cover(c.context);
}
V_MAIN
