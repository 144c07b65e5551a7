// T02: split / split_n / split_pair / for_each_token == reference tokenization.
#include "strtk.hpp"
#include "ref.hpp"
#include <deque>
#include <list>
using namespace vh;

typedef std::pair<const char*,const char*> R;
static const char* optname(unsigned o) { static const char* n[] = { "default","compress","first","first+compress","all","all+compress","first+all","first+all+compress" }; return n[o]; }

template <typename V, typename Base>
static void same(Case& c, const V& got, const Base base, std::size_t ret, const ref::Spans& want, const std::string& how)
{
   V_EQ(got.size(),want.size(),how << ": number of emitted tokens");
   V_EQ(ret,want.size(),how << ": returned count");
   std::size_t k = 0;
   for (typename V::const_iterator i = got.begin(); i != got.end(); ++i, ++k)
   {
      const ref::Span g(static_cast<std::size_t>(std::distance(base,static_cast<Base>(i->first))),static_cast<std::size_t>(std::distance(base,static_cast<Base>(i->second))));
      V_EQ(g,want[k],how << ": token " << k);
   }
   c.event("tokens_observed",k);
   c.event("splits");
}

static ref::Spans firstn(const ref::Spans& s, std::size_t n) { return ref::Spans(s.begin(),s.begin() + std::min(n,s.size())); }

struct Collect { std::vector<std::string>* v; void operator()(const R& r) { v->push_back(std::string(r.first,r.second)); } };

// Now and then one character of the text is repeated a few hundred or thousand times: a token or a
// run of delimiters that is far longer than any fixed width buffer or narrow counter.
static std::string stretched(Case& c, std::string s, const std::string& d)
{
   if (!c.r.chance(1,30)) return s;
   static const std::size_t n[] = { 64, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 4096, 5000, 33000, 66000 };
   const bool run = c.r.chance(1,3);
   const std::size_t len = n[c.r.below(!run && c.r.chance(1,8) ? 15 : 12)];
   const char ch = run ? d[c.r.below(d.size())] : static_cast<char>('a' + c.r.below(26));
   s.insert(c.r.chance(1,3) ? 0 : c.r.below(s.size() + 1),len,ch);
   c.event("long_texts");
   return s;
}

V_SECTION(split_overloads, 8000)
{
   std::string d = ref::delim_set(c.r);
   if (c.r.chance(1,4)) d = std::string(1,static_cast<char>(1 + c.r.below(255)));
   const std::string s = stretched(c,ref::delimited(c.r,80,d,ref::alphabet(c.r)),d);
   const unsigned opt = c.r.pick(ref::options());
   c.context = std::string(optname(opt)) + " delims=" + q(d) + " text=" + q(s);
   const ref::Spans want = ref::tokens(s,d,opt);
   if (!s.empty()) c.cover(c.context);
   if (want.size() > 2) c.sample(c.context + " -> " + show(ref::strings(s,want)));
   const char* base = s.data();
   std::size_t n;
   { std::vector<R> v; n = strtk::split(d,s,vh::into(v),opt); same(c,v,base,n,want,"split(string delims)"); }
   { std::vector<R> v; n = strtk::split(d.c_str(),s,vh::into(v),opt); same(c,v,base,n,want,"split(char* delims)"); }
   { std::deque<R> v;  n = strtk::split(d,s,v,opt); same(c,v,base,n,want,"split(delims,sequence)"); }
   { std::list<R> v;   n = strtk::split(d.c_str(),s,v,opt); same(c,v,base,n,want,"split(char* delims,sequence)"); }
   { std::vector<R> v; n = strtk::split(strtk::multiple_char_delimiter_predicate(d),s,vh::into(v),opt); same(c,v,base,n,want,"split(predicate)"); }
   {
      Buf<> b(s); std::vector<R> v;
      n = strtk::split(strtk::multiple_char_delimiter_predicate(d),static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v),opt);
      same(c,v,static_cast<const char*>(b.begin()),n,want,"split(exact buffer)");
      v.clear();
      n = strtk::split(strtk::multiple_char_delimiter_predicate(d),R(b.begin(),b.end()),vh::into(v),opt);
      same(c,v,static_cast<const char*>(b.begin()),n,want,"split(range)");
      if (1 == d.size())
      {
         v.clear();
         n = strtk::split(strtk::single_delimiter_predicate<char>(d[0]),static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),vh::into(v),opt);
         same(c,v,static_cast<const char*>(b.begin()),n,want,"split(single predicate)");
      }
   }
   if (1 == d.size()) { std::vector<R> v; n = strtk::split(d[0],s,vh::into(v),opt); same(c,v,base,n,want,"split(char)"); }
   {
      typedef std::pair<std::string::const_iterator,std::string::const_iterator> SR; std::vector<SR> v;
      n = strtk::split(strtk::multiple_char_delimiter_predicate(d),s.begin(),s.end(),vh::into(v),opt);
      same(c,v,s.begin(),n,want,"split(string iterators)");
   }
   {  // token views to owned strings and through a caller's function
      const std::vector<std::string> ws = ref::strings(s,want);
      std::vector<std::string> v;
      n = strtk::split(d,s,strtk::range_to_type_back_inserter(v),opt);
      V_EQ(v,ws,"range_to_type_back_inserter"); V_EQ(n,ws.size(),"count");
      std::vector<std::string> f; Collect col = { &f };
      n = strtk::split(d,s,strtk::functional_inserter(col),opt);
      V_EQ(f,ws,"functional_inserter"); V_EQ(n,ws.size(),"count");
      std::size_t counter = 0;
      n = strtk::split(d,s,strtk::counting_back_inserter<R>(counter),opt);
      V_EQ(counter,ws.size(),"counting_back_inserter"); V_EQ(n,ws.size(),"count");
      std::set<std::string> st; 
      strtk::split(d,s,strtk::range_to_type_inserter(st),opt);
      V_EQ(st,std::set<std::string>(ws.begin(),ws.end()),"range_to_type_inserter");
   }
   {
      std::vector<std::string> f; Collect col = { &f };
      strtk::multiple_char_delimiter_predicate p(d);
      strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type tok(s,p,opt);
      n = strtk::for_each_token(s,tok,col);
      V_EQ(f,ref::strings(s,want),"for_each_token(tokenizer)"); V_EQ(n,want.size(),"for_each_token(tokenizer) count");
   }
   if (0 == opt)
   {
      const std::vector<std::string> ws = ref::strings(s,want);
      std::vector<std::string> f; Collect col = { &f };
      const std::string& cd = d;
      n = strtk::for_each_token(s,cd,col); V_EQ(f,ws,"for_each_token"); V_EQ(n,ws.size(),"for_each_token count");
      f.clear(); n = strtk::for_each_token(s,d.c_str(),col); V_EQ(f,ws,"for_each_token(char*)"); V_EQ(n,ws.size(),"for_each_token count");
   }
}

V_SECTION(split_n_prefix, 8000)
{
   std::string d = ref::delim_set(c.r);
   if (c.r.chance(1,4)) d = std::string(1,static_cast<char>(1 + c.r.below(255)));
   const std::string s = stretched(c,ref::delimited(c.r,70,d,ref::alphabet(c.r)),d);
   const unsigned opt = c.r.pick(ref::options());
   const ref::Spans full = ref::tokens(s,d,opt);
   const std::size_t k = c.r.chance(1,5) ? full.size() : c.r.below(full.size() + 3);
   const ref::Spans want = firstn(full,k);
   c.context = std::string(optname(opt)) + " n=" + show(k) + " delims=" + q(d) + " text=" + q(s);
   if (!s.empty() && k) c.cover(c.context);
   const char* base = s.data();
   std::size_t n;
   { std::vector<R> v; n = strtk::split_n(d,s,k,vh::into(v),opt); same(c,v,base,n,want,"split_n(string delims)"); }
   { std::vector<R> v; n = strtk::split_n(d.c_str(),s,k,vh::into(v),opt); same(c,v,base,n,want,"split_n(char* delims)"); }
   { std::vector<R> v; n = strtk::split_n(strtk::multiple_char_delimiter_predicate(d),s,k,vh::into(v),opt); same(c,v,base,n,want,"split_n(predicate)"); }
   {
      Buf<> b(s); std::vector<R> v;
      n = strtk::split_n(strtk::multiple_char_delimiter_predicate(d),static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),k,vh::into(v),opt);
      same(c,v,static_cast<const char*>(b.begin()),n,want,"split_n(exact buffer)");
      // writes exactly the returned number of tokens into caller storage
      R* out = new R[want.size()];
      n = strtk::split_n(strtk::multiple_char_delimiter_predicate(d),static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),k,out,opt);
      std::vector<R> w(out,out + std::min(n,want.size())); delete[] out;
      same(c,w,static_cast<const char*>(b.begin()),n,want,"split_n(output array)");
      v.clear();
      n = strtk::split_n(d,static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),k,vh::into(v),opt);
      same(c,v,static_cast<const char*>(b.begin()),n,want,"split_n(delims,exact buffer)");
   }
   if (1 == d.size()) { std::vector<R> v; n = strtk::split_n(d[0],s,k,vh::into(v),opt); same(c,v,base,n,want,"split_n(char)"); }
}

V_SECTION(pair_split, 6000)
{
   std::string d = ref::delim_set(c.r);
   const std::string s = stretched(c,ref::delimited(c.r,24,d,ref::alphabet(c.r)),d);
   c.context = "split_pair delims=" + q(d) + " text=" + q(s);
   Buf<> b(s);
   const char* const bb = b.begin();
   {
      const std::size_t at = s.find_first_of(d);
      const bool want = at != std::string::npos && at + 1 < s.size();
      R a(static_cast<const char*>(0),static_cast<const char*>(0)), e(a);
      const bool got = strtk::split_pair(bb,static_cast<const char*>(b.end()),strtk::multiple_char_delimiter_predicate(d),a,e);
      V_EQ(got,want,"split_pair result");
      if (want)
      {
         V_EQ(std::string(a.first,a.second),s.substr(0,at),"left part"); V_EQ(std::string(e.first,e.second),s.substr(at + 1),"right part");
         V_CHECK(a.first == bb && e.second == b.end(),"parts are views of the input");
      }
      R a2, e2;
      V_EQ(strtk::split_pair(strtk::multiple_char_delimiter_predicate(d),s,a2,e2),want,"split_pair(predicate,string)");
      if (want) { V_EQ(std::string(a2.first,a2.second),s.substr(0,at),"left part"); V_EQ(std::string(e2.first,e2.second),s.substr(at + 1),"right part"); c.cover(c.context); }
   }
   {
      const std::size_t at = s.find(d[0]);
      const bool want = at != std::string::npos && at + 1 < s.size();
      R a, e;
      V_EQ(strtk::split_pair(d[0],s,a,e),want,"split_pair(char) result");
      if (want) { V_EQ(std::string(a.first,a.second),s.substr(0,at),"left part"); V_EQ(std::string(e.first,e.second),s.substr(at + 1),"right part"); }
   }
   c.event("pair_splits");
}

V_SECTION(int_sequences, 2000)
{
   std::vector<int> v(c.r.len(40)); for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<int>(c.r.below(6));
   const unsigned opt = c.r.pick(ref::options());
   const int dv = static_cast<int>(c.r.below(4));
   c.context = std::string(optname(opt)) + " delim=" + show(dv) + " seq=" + show(v);
   const ref::Spans want = ref::tokens(v.size(),[&](std::size_t i) { return v[i] == dv; },opt);
   typedef std::pair<std::vector<int>::const_iterator,std::vector<int>::const_iterator> IR;
   std::vector<IR> out;
   const std::vector<int>& cv = v;
   std::size_t n = strtk::split(strtk::single_delimiter_predicate<int>(dv),cv.begin(),cv.end(),vh::into(out),opt);
   same(c,out,cv.begin(),n,want,"split ints");
   out.clear();
   const std::size_t k = c.r.below(want.size() + 2);
   n = strtk::split_n(strtk::single_delimiter_predicate<int>(dv),cv.begin(),cv.end(),k,vh::into(out),opt);
   same(c,out,cv.begin(),n,firstn(want,k),"split_n ints");
   if (!v.empty()) c.cover(c.context);
}

V_SECTION(all_short_strings, 12)
{
   const unsigned opt = static_cast<unsigned>(c.index % 6);
   const std::string d = (c.index / 6) % 2 ? ",;" : ",";
   const std::string al = "a,;";
   for (std::size_t n = 0; n <= 6; ++n)
   {
      std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) total *= 3;
      for (std::size_t k = 0; k < total; ++k)
      {
         std::string s; std::size_t t = k; for (std::size_t i = 0; i < n; ++i) { s += al[t % 3]; t /= 3; }
         c.context = std::string(optname(opt)) + " delims=" + q(d) + " text=" + q(s);
         const ref::Spans want = ref::tokens(s,d,opt);
         std::vector<R> v; std::size_t r = strtk::split(d,s,vh::into(v),opt); same(c,v,s.data(),r,want,"split");
         for (std::size_t m = 0; m <= want.size() + 1; ++m)
         { v.clear(); r = strtk::split_n(d,s,m,vh::into(v),opt); same(c,v,s.data(),r,firstn(want,m),"split_n n=" + show(m)); }
         c.cover(c.context);
      }
   }
}
V_MAIN
