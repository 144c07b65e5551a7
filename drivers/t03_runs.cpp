// T03: fixed-width, consecutive-run and regular-expression splitting.
// instantiating boost.regex under the sanitizers costs half a minute: the regex section runs in the plain build
#ifndef VH_VARIANT_plain
#define strtk_no_tr1_or_boost
#endif
#include "strtk.hpp"
#include "ref.hpp"
#include <regex.h>
using namespace vh;
typedef std::pair<const char*,const char*> R;

template <typename Pred>
static void offs_check(Case& c, const std::string& s, const Pred& p, const std::vector<int>& offs, bool rotate)
{
   ref::Spans want; std::size_t pos = 0, k = 0;
   while (pos < s.size())
   {
      if (k >= offs.size()) { if (!rotate) break; k = 0; }
      if (offs[k] <= 0) break;
      const std::size_t e = std::min<std::size_t>(s.size(),pos + static_cast<std::size_t>(offs[k]));
      want.push_back(ref::Span(pos,e)); pos = e; ++k;
   }
   c.context = "offsets " + show(offs) + (rotate ? " rotating" : "") + " text=" + q(s);
   Buf<> b(s); V_EQ(p.size(),offs.size(),"size of the offset list"); V_CHECK(!!p,"usable offset list");
   for (int pass = 0; pass < 2; ++pass)
   {
      std::vector<R> v;
      p.reset();
      const std::size_t n = strtk::offset_splitter(static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),p,vh::into(v));
      V_EQ(n,want.size(),"returned count");
      V_EQ(v.size(),want.size(),"emitted tokens");
      for (std::size_t i = 0; i < v.size(); ++i)
      {
         const ref::Span g(static_cast<std::size_t>(v[i].first - b.begin()),static_cast<std::size_t>(v[i].second - b.begin()));
         V_EQ(g,want[i],"token " << i);
      }
      c.event("fixed_width_tokens",n);
   }
   std::vector<R> v;
   strtk::offset_splitter(s,p,vh::into(v)); // reuse without reset: stays inside its list and the text
   for (std::size_t i = 0; i < v.size(); ++i) V_CHECK(v[i].first >= s.data() && v[i].second <= s.data() + s.size() && v[i].first < v[i].second,"token inside the text");
   if (!s.empty()) c.cover(c.context);
   c.sample(c.context + " -> " + show(ref::strings(s,want)));
}

V_SECTION(offset_split, 5000)
{
   const bool wide = c.r.chance(1,25); // fields of hundreds and, seldom, tens of thousands of characters
   const std::string s = c.r.bytes(wide ? (c.r.chance(1,12) ? 60000 + c.r.below(90000) : c.r.below(3000)) : c.r.len(50));
   const bool rot = c.r.flip();
   std::vector<int> o(1 + c.r.below(12));
   for (std::size_t i = 0; i < o.size(); ++i) o[i] = c.r.chance(1,40) ? (c.r.flip() ? 0 : -1) : static_cast<int>(1 + c.r.below(9));
   if (wide) { static const int w[] = { 127, 128, 255, 256, 257, 511, 1024, 32767, 32768, 65535, 65536, 70000 };
               for (std::size_t i = 0; i < o.size(); ++i) if (c.r.flip()) o[i] = c.r.flip() ? w[c.r.below(12)] : static_cast<int>(1 + c.r.below(700)); c.event("wide_fields"); }
   switch (o.size())
   {
      case 1  : offs_check(c,s,strtk::offsets(o[0],rot),o,rot); break;
      case 2  : offs_check(c,s,strtk::offsets(o[0],o[1],rot),o,rot); break;
      case 3  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],rot),o,rot); break;
      case 4  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],rot),o,rot); break;
      case 5  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],rot),o,rot); break;
      case 6  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],rot),o,rot); break;
      case 7  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],rot),o,rot); break;
      case 8  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],rot),o,rot); break;
      case 9  : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],rot),o,rot); break;
      case 10 : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9],rot),o,rot); break;
      case 11 : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9],o[10],rot),o,rot); break;
      default : offs_check(c,s,strtk::offsets(o[0],o[1],o[2],o[3],o[4],o[5],o[6],o[7],o[8],o[9],o[10],o[11],rot),o,rot); break;
   }
}

static bool in_class(strtk::find_type::type t, char ch)
{
   const bool dg = ch >= '0' && ch <= '9', lo = ch >= 'a' && ch <= 'z', up = ch >= 'A' && ch <= 'Z';
   switch (t)
   {
      case strtk::find_type::digits            : return dg;
      case strtk::find_type::letters           : return lo || up;
      case strtk::find_type::lowercase_letters : return lo;
      case strtk::find_type::uppercase_letters : return up;
      default                                  : return lo || up || dg;
   }
}

template <typename In>
static ref::Spans run_spans(const std::string& s, std::size_t n, bool exact, In in)
{
   ref::Spans w; std::size_t i = 0;
   while (i < s.size())
   {
      if (!in(s[i])) { ++i; continue; }
      std::size_t e = i; while (e < s.size() && in(s[e])) ++e;
      if (exact) { for (std::size_t k = i; k + n <= e; k += n) w.push_back(ref::Span(k,k + n)); }
      else if (e - i >= n) w.push_back(ref::Span(i,e));
      i = e;
   }
   return w;
}

// runs of exactly n positions
template <typename In>
static ref::Spans run_spans_at(std::size_t size, std::size_t n, In in)
{
   ref::Spans w; std::size_t run = 0;
   for (std::size_t i = 0; i < size; ++i) { run = in(i) ? run + 1 : 0; if (run == n) { w.push_back(ref::Span(i + 1 - n,i + 1)); run = 0; } }
   return w;
}
// answers by the number of times it was asked
struct Turn { const std::vector<char>* in; std::size_t* asked; bool operator()(const char) const { const std::size_t i = (*asked)++; return i < in->size() && (*in)[i]; } };
struct IsVowel { bool operator()(const char ch) const { return ch && strchr("aeiou",ch); } };
static bool is_semi(const char ch) { return ';' == ch || ',' == ch; }

template <typename P>
static void spans_eq(Case& c, const std::vector<P>& v, const char* base, std::size_t n, const ref::Spans& want, const char* how)
{
   V_EQ(n,want.size(),how << ": returned count");
   V_EQ(v.size(),want.size(),how << ": emitted matches");
   for (std::size_t i = 0; i < v.size(); ++i)
   {
      const ref::Span g(static_cast<std::size_t>(v[i].first - base),static_cast<std::size_t>(v[i].second - base));
      V_EQ(g,want[i],how << ": match " << i);
   }
   c.event("runs_observed",n);
}

V_SECTION(consecutive, 8000)
{
   static const strtk::find_type::type types[] = { strtk::find_type::digits, strtk::find_type::letters, strtk::find_type::lowercase_letters,
                                                   strtk::find_type::uppercase_letters, strtk::find_type::letters_digits };
   const unsigned ti = static_cast<unsigned>(c.r.below(5));
   const strtk::find_type::type t = types[ti];
   const bool exact = c.r.flip();
   const strtk::find_mode::type m = exact ? strtk::find_mode::exactly_n : strtk::find_mode::atleast_n;
   static const char* alph[] = { "0123456789 ","abZ,9","aaaaaaab1","ABab01;\x80\xFF","az AZ 09 @[`{/:" };
   std::string s; const std::string al = alph[c.r.below(5)];
   const std::size_t len = c.r.len(40);
   while (s.size() < len) { std::size_t run = 1 + c.r.below(5); char ch = al[c.r.below(al.size())]; while (run-- && s.size() < len) s += c.r.chance(1,3) ? al[c.r.below(al.size())] : ch; }
   std::size_t n = 1 + c.r.below(c.r.chance(1,6) ? 12 : 4);
   if (c.r.chance(1,60))
   {
      // runs hundreds of characters long, at and around a multiple of the wanted length
      n = 1 + c.r.below(c.r.chance(1,4) ? 4000 : 400); s.clear();
      for (std::size_t k = c.r.below(6) + 1; k; --k) { const std::size_t m = n * (1 + c.r.below(3)), d = c.r.below(3); s += std::string(m + d > 1 ? m + d - 1 : 1,al[c.r.below(al.size())]); s += al[c.r.below(al.size())]; }
      c.event("long_runs",1);
   }
   c.context = std::string(exact ? "exactly " : "at least ") + show(n) + " class " + show(ti) + " text=" + q(s);
   const ref::Spans want = run_spans(s,n,exact,[&](char ch) { return in_class(t,ch); });
   Buf<> b(s); const char* base = b.begin();
   { std::vector<R> v; std::size_t r = strtk::split_on_consecutive(n,t,m,static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v)); spans_eq(c,v,base,r,want,"split_on_consecutive"); }
   { std::vector<R> v; std::size_t r = strtk::split_on_consecutive(n,t,m,s,vh::into(v)); spans_eq(c,v,s.data(),r,want,"split_on_consecutive(string)"); }
   { std::vector<R> v; V_EQ(strtk::split_on_consecutive(0,t,m,static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v)),0u,"runs of length zero"); V_CHECK(v.empty(),"runs of length zero"); }
   {
      const std::size_t k = c.r.below(want.size() + 2);
      std::vector<R> v; std::size_t r = strtk::split_on_consecutive_n(k,n,t,m,static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v));
      spans_eq(c,v,base,r,ref::Spans(want.begin(),want.begin() + std::min(k,want.size())),"split_on_consecutive_n");
      v.clear(); r = strtk::split_on_consecutive_n(k,n,t,m,s,vh::into(v));
      spans_eq(c,v,s.data(),r,ref::Spans(want.begin(),want.begin() + std::min(k,want.size())),"split_on_consecutive_n(string)");
   }
   {
      const R f = strtk::find_n_consecutive<const char*>(n,t,m,R(b.begin(),b.end()));
      if (want.empty()) V_CHECK(f.first == b.end() && f.second == b.end(),"find_n_consecutive: nothing to find");
      else { const ref::Span g(static_cast<std::size_t>(f.first - base),static_cast<std::size_t>(f.second - base)); V_EQ(g,want[0],"find_n_consecutive"); }
      std::size_t p = 0; while (p < s.size() && in_class(t,s[p])) ++p;
      V_EQ(strtk::match_n_consecutive<const char*>(n,t,m,R(b.begin(),b.end())),p >= n,"match_n_consecutive");
   }
   {
      std::vector<R> v; const ref::Spans wv = run_spans(s,n,true,IsVowel());
      std::size_t r = strtk::split_on_consecutive(n,IsVowel(),s,vh::into(v)); spans_eq(c,v,s.data(),r,wv,"split_on_consecutive(functor)");
      v.clear(); const ref::Spans ws = run_spans(s,n,true,is_semi);
      r = strtk::split_on_consecutive(n,is_semi,static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v)); spans_eq(c,v,base,r,ws,"split_on_consecutive(function)");
   }
   {  // a predicate with a state is asked about every element in turn, once
      std::vector<char> in(s.size() + 1); for (std::size_t i = 0; i < s.size(); ++i) in[i] = c.r.chance(1,4) ? c.r.flip() : in_class(t,s[i]);
      std::size_t asked = 0, at = 0; const ref::Spans ws = run_spans_at(s.size(),n,[&](std::size_t i) { return 0 != in[i]; });
      const Turn turn = { &in, &asked }; std::vector<R> v; std::size_t r = 0;
      r = strtk::split_on_consecutive(n,turn,s,vh::into(v),true); spans_eq(c,v,s.data(),r,ws,"split_on_consecutive(stateful, string)"); V_CHECK(asked <= s.size(),"every element is asked about once"); at = asked;
      asked = 0; v.clear(); r = strtk::split_on_consecutive(n,turn,static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v),true); spans_eq(c,v,base,r,ws,"split_on_consecutive(stateful)"); V_EQ(asked,at,"elements asked about");
      asked = 0; v.clear(); r = strtk::split_on_consecutive(n,turn,reinterpret_cast<const unsigned char*>(b.begin()),reinterpret_cast<const unsigned char*>(b.end()),vh::into(v),true); spans_eq(c,v,base,r,ws,"split_on_consecutive(stateful, unsigned)");
      if (!ws.empty()) c.event("stateful_runs",1);
   }
   {  // unsigned bytes and the type erased predicate forms deliver the same matches
      const unsigned char* ub = reinterpret_cast<const unsigned char*>(b.begin()); const unsigned char* ue = ub + s.size(); const std::size_t k = c.r.below(want.size() + 2); const ref::Spans wk(want.begin(),want.begin() + std::min(k,want.size())), wv = run_spans(s,n,true,IsVowel());
      std::vector<R> v; std::size_t r = strtk::split_on_consecutive(n,t,m,ub,ue,vh::into(v)); spans_eq(c,v,base,r,want,"split_on_consecutive(unsigned)");
      v.clear(); r = strtk::split_on_consecutive_n(k,n,t,m,ub,ue,vh::into(v)); spans_eq(c,v,base,r,wk,"split_on_consecutive_n(unsigned)");
      v.clear(); r = strtk::split_on_consecutive(n,IsVowel(),ub,ue,vh::into(v)); spans_eq(c,v,base,r,wv,"split_on_consecutive(functor, unsigned)");
   }
   if (!s.empty()) c.cover(c.context);
   if (want.size() > 1) c.sample(c.context + " -> " + show(ref::strings(s,want)));
}

#ifdef strtk_enable_regex
V_SECTION(regex_split, 1500)
{
   static const char* pats[] = { "[a-c]+", "[0-9]+", "(a)(b+)", "[xyz][0-9]{1,2}", "([a-z0-9_]+)=([a-z0-9_]+)", "ab|cd", "[ \t]+" , "(foo|bar)([0-9]*)", "([a-z0-9])([a-z0-9_])([a-z0-9])([a-z0-9=])([a-z0-9])([a-z0-9])([a-z0-9])([a-z0-9])([a-z0-9])" };
   static const unsigned groups[] = { 0,0,2,0,2,0,0,2,9 };
   static const char* frags[] = { "a","ab","abb","c","cd","x1","y22","z333","foo","bar9","foo12","k=v","1","42"," ","\t","=",",","xx","_" };
   const unsigned pi = static_cast<unsigned>(c.r.below(9));
   std::string s; std::size_t n = c.r.len(14); while (n--) s += frags[c.r.below(20)];
   const unsigned g = static_cast<unsigned>(c.r.below(groups[pi] + 1));
   c.context = std::string("regex ") + pats[pi] + " group " + show(g) + " text=" + q(s);
   ref::Spans want;
   regex_t re; // POSIX matcher as the independent oracle: leftmost-longest equals leftmost-first on these patterns
   if (regcomp(&re,pats[pi],REG_EXTENDED)) { fprintf(stderr,"regcomp\n"); exit(2); }
   regmatch_t m[10];
   for (std::size_t off = 0; off < s.size() && 0 == regexec(&re,s.c_str() + off,10,m,0); off += static_cast<std::size_t>(m[0].rm_eo))
      want.push_back(ref::Span(off + static_cast<std::size_t>(m[g].rm_so),off + static_cast<std::size_t>(m[g].rm_eo)));
   regfree(&re);
   typedef std::pair<std::string::const_iterator,std::string::const_iterator> SR;
   const strtk::regex_match_mode::type mode = static_cast<strtk::regex_match_mode::type>(g);
   const std::size_t k = c.r.below(want.size() + 3);
   const ref::Spans wk(want.begin(),want.begin() + std::min(k,want.size()));
   for (int pass = 0; pass < 4; ++pass)
   {
      std::vector<SR> v; std::size_t r = 0;
      switch (pass)
      {
         case 0 : r = strtk::split_regex(pats[pi],s,vh::into(v),mode); break;
         case 1 : r = strtk::split_regex(boost::regex(pats[pi]),s,vh::into(v),mode); break;
         case 2 : r = strtk::split_regex_n(pats[pi],s,k,vh::into(v),mode); break;
         default: r = strtk::split_regex_n(boost::regex(pats[pi]),s,k,vh::into(v),mode); break;
      }
      const ref::Spans& w = pass < 2 ? want : wk;
      V_EQ(r,w.size(),"pass " << pass << " returned count"); V_EQ(v.size(),w.size(),"pass " << pass << " matches");
      for (std::size_t i = 0; i < v.size(); ++i)
      {
         const ref::Span gsp(static_cast<std::size_t>(v[i].first - s.begin()),static_cast<std::size_t>(v[i].second - s.begin()));
         V_EQ(gsp,w[i],"pass " << pass << " match " << i);
      }
      c.event("regex_matches",r);
   }
   if (!s.empty()) c.cover(c.context);
}
#endif
V_MAIN
