// R02: wildcard matching
#include "ref.hpp"
#include <memory>
#include <list>
#include <deque>
#include "strtk.hpp"
typedef std::string Str;
typedef strtk::string_condition SC;

// plain recursion over all choices, memoized on (pattern position, data position)
struct Ref
{
   const Str& p; const Str& d; char many, one; std::vector<signed char> memo;
   Ref(const Str& p_, const Str& d_, char m, char o) : p(p_), d(d_), many(m), one(o), memo((p_.size() + 1) * (d_.size() + 1),-1) {}
   bool run(std::size_t i, std::size_t j)
   {
      signed char& m = memo[i * (d.size() + 1) + j];
      if (m >= 0) return m != 0;
      bool r;
      if (i == p.size()) r = j == d.size();
      else if (p[i] == many) r = run(i + 1,j) || (j < d.size() && run(i,j + 1));
      else if (p[i] == one) r = run(i + 1,j) || (j < d.size() && run(i + 1,j + 1));
      else r = j < d.size() && p[i] == d[j] && run(i + 1,j + 1);
      m = r; return r;
   }
};
static bool expect(const Str& p, const Str& d, char many = '*', char one = '?') { return Ref(p,d,many,one).run(0,0); }

static void check(vh::Case& c, const Str& p, const Str& d)
{
   const bool want = expect(p,d);
   c.context = "pattern=" + vh::q(p) + " data=" + vh::q(d);
   V_EQ(strtk::match(p,d),want,"match(string,string)");
   SC like(SC::like,p); V_EQ(like(d),want,"string_condition like");
   vh::Buf<char> bp(p), bd(d);
   V_EQ(strtk::match(static_cast<const char*>(bp.begin()),static_cast<const char*>(bp.end()),static_cast<const char*>(bd.begin()),static_cast<const char*>(bd.end()),'*','?'),want,"match(range)");
   c.event(want ? "accepted" : "rejected",3);
}

V_SECTION(exhaustive, 16)
{
   // every pattern of up to 4 characters over {a,b,*,?} against every text of up to 5 over {a,b}; sharded by index
   if (c.index >= 16) return;
   static const char pa[] = "ab*?";
   std::size_t k = 0;
   for (std::size_t n = 0; n <= 4; ++n)
   {
      std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) total *= 4;
      for (std::size_t v = 0; v < total; ++v, ++k)
      {
         if (k % 16 != c.index) continue;
         Str p; std::size_t x = v; for (std::size_t i = 0; i < n; ++i) { p += pa[x % 4]; x /= 4; }
         for (std::size_t m = 0; m <= 5; ++m) for (std::size_t w = 0; w < (1u << m); ++w)
         {
            Str d; for (std::size_t i = 0; i < m; ++i) d += (w >> i) & 1 ? 'b' : 'a';
            check(c,p,d);
         }
         c.cover("exhaustive " + p);
      }
   }
}

// derive a pattern from a text so that matches are common
static Str derive(vh::Rng& r, const Str& d, char many, char one)
{
   Str p;
   for (std::size_t i = 0; i < d.size();)
   {
      switch (r.below(7))
      {
         case 0  : p += many; i += r.below(4); break;
         case 1  : p += one; ++i; break;
         case 2  : if (r.flip()) { p += one; break; } p += d[i++]; break;
         default : p += d[i++]; break;
      }
   }
   if (r.chance(1,5)) p += many;
   if (r.chance(1,6)) p += one;
   if (r.chance(1,6) && !p.empty()) p[r.below(p.size())] = r.flip() ? 'a' : one;
   if (r.chance(1,8) && !p.empty()) p.erase(r.below(p.size()),1);
   return p;
}

V_SECTION(random, 30000)
{
   static const char* als[] = { "ab", "abc*?", "\xFF\x80\x7F\x01", "aA bB\n\t" };
   const Str al = c.r.chance(1,8) ? Str("\0ab",3) : Str(als[c.r.below(4)]);
   const Str d = c.r.chance(1,12) ? c.r.bytes(c.r.below(20)) : c.r.str(c.r.len(26),al);
   const Str p = c.r.chance(1,4) ? c.r.str(c.r.len(12),al + "**??") : derive(c.r,d,'*','?');
   check(c,p,d);
   c.cover(c.context);
   // the iterator form with any pair of wildcard symbols and any sequence type
   const char many = c.r.pick("*%#\xFE"), one = c.r.pick("?_.\xFD");
   const Str q = derive(c.r,d,many,one);
   const bool want = expect(q,d,many,one);
   c.context = "many=" + vh::q(Str(1,many)) + " one=" + vh::q(Str(1,one)) + " pattern=" + vh::q(q) + " data=" + vh::q(d);
   V_EQ(strtk::match(q.begin(),q.end(),d.begin(),d.end(),many,one),want,"match(string iterators, custom symbols)");
   const std::list<int> lp(q.begin(),q.end()), ld(d.begin(),d.end());
   V_EQ(strtk::match(lp.begin(),lp.end(),ld.begin(),ld.end(),static_cast<int>(many),static_cast<int>(one)),want,"match(list<int> iterators)");
   c.event("custom_symbols",2);
   c.event(want ? "accepted" : "rejected",2);
}

V_SECTION(hostile, 60)
{
   // patterns that defeat backtracking: must be answered (in time) and correctly
   const std::size_t n = 20 + c.r.below(180);
   const Str d = Str(n,'a') + (c.r.flip() ? "b" : "");
   Str p; const std::size_t k = 5 + c.r.below(40);
   for (std::size_t i = 0; i < k; ++i) { p += c.r.chance(3,4) ? '*' : '?'; if (c.r.chance(3,4)) p += 'a'; }
   if (c.r.flip()) p += c.r.flip() ? 'b' : 'c';
   check(c,p,d);
   c.event("hostile_patterns",1);
   c.cover(c.context);
}

V_SECTION(conditions, 15000)
{
   // the condition object used for filtering rows: every kind, through copies and assignment
   const Str al = c.r.chance(1,3) ? Str("ab") : Str("ab\xFF\x80 A");
   const Str d = c.r.str(c.r.len(14),al);
   const Str p = (!d.empty() && c.r.flip()) ? (c.r.flip() ? d.substr(c.r.below(d.size()),1 + c.r.below(4)) : (c.r.flip() ? d.substr(0,1 + c.r.below(d.size())) : d)) : c.r.str(1 + c.r.len(5),al + "*?");
   c.context = "condition text=" + vh::q(p) + " data=" + vh::q(d);
   const SC::condition_type kinds[] = { SC::equal, SC::notequal, SC::like, SC::begins_with, SC::ends_with, SC::within, SC::notwithin };
   const bool pre = d.size() >= p.size() && d.compare(0,p.size(),p) == 0, suf = d.size() >= p.size() && d.compare(d.size() - p.size(),p.size(),p) == 0, in = d.find(p) != Str::npos;
   const bool wants[] = { p == d, p != d, expect(p,d), pre, suf, in, !in };
   for (std::size_t k = 0; k < 7; ++k)
   {
      SC a(kinds[k],p), b(kinds[(k + 3) % 7],"zz");
      V_EQ(a(d),wants[k],"string_condition #" + vh::show(k));
      std::unique_ptr<SC> t(new SC(a)); SC cp(*t); b = *t; t.reset();
      V_EQ(cp(d),wants[k],"copied string_condition #" + vh::show(k));
      V_EQ(b(d),wants[k],"assigned string_condition #" + vh::show(k));
      vh::Buf<unsigned char> u(d.size()); std::copy(d.begin(),d.end(),u.begin());
      V_EQ(a(static_cast<const unsigned char*>(u.begin()),static_cast<const unsigned char*>(u.end())),wants[k],"string_condition(range) #" + vh::show(k));
      c.event(wants[k] ? "conditions_met" : "conditions_unmet",4);
   }
   c.cover(c.context);
}
V_MAIN
