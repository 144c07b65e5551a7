// T01: tokenizer iteration == reference tokenization.
#include "strtk.hpp"
#include "ref.hpp"
#include <deque>
using namespace vh;

static const char* optname(unsigned o) { static const char* n[] = { "default","compress","first","first+compress","all","all+compress","first+all","first+all+compress" }; return n[o]; }

template <typename Tok, typename Base>
static void walk(Case& c, const Tok& tok, const Base base, const ref::Spans& want, const std::string& what)
{
   typename Tok::iterator itr = tok.begin();
   const typename Tok::iterator end = tok.end();
   std::size_t k = 0;
   while (end != itr)
   {
      V_CHECK(k < want.size(),"more tokens than expected (" << want.size() << ") " << what);
      const ref::Span got(static_cast<std::size_t>(std::distance(base,(*itr).first)),static_cast<std::size_t>(std::distance(base,(*itr).second)));
      V_EQ(got,want[k],"token " << k << " " << what);
      // alternate pre/post increment and +=
      switch ((k + c.index) % 3)
      {
         case 0 : ++itr; break;
         case 1 : { typename Tok::iterator old = itr++; const ref::Span o(std::distance(base,(*old).first),std::distance(base,(*old).second)); V_EQ(o,want[k],"post-increment result " << what); break; }
         default: itr += 1; break;
      }
      ++k;
   }
   V_EQ(k,want.size(),"token count " << what);
   c.event("tokens_observed",k);
   c.event("tokenizations");
   ++itr; // at the end: stays at the end
   V_CHECK(end == itr,"increment at the end leaves the end " << what);
}

V_SECTION(single_char, 6000)
{
   const char d = static_cast<char>(c.r.chance(1,2) ? ',' : c.r.below(256));
   const std::string s = ref::delimited(c.r,60,std::string(1,d),ref::alphabet(c.r));
   const unsigned opt = c.r.pick(ref::options());
   Buf<> b(s);
   const std::string what = std::string(optname(opt)) + " delim=" + q(std::string(1,d)) + " text=" + q(s);
   c.context = what;
   strtk::single_delimiter_predicate<char> p(d);
   typedef strtk::tokenizer<const char*,strtk::single_delimiter_predicate<char> > tok_t;
   const tok_t tok(b.begin(),b.end(),p,opt);
   const ref::Spans want = ref::tokens(s,std::string(1,d),opt);
   walk(c,tok,static_cast<const char*>(b.begin()),want,what);
   std::size_t k = 0;
   for (tok_t::iterator i = tok.begin(); i != tok.end(); ++i, ++k)
   {
      V_EQ(i.as_string(),ref::sub(s,want[k]),"as_string token " << k);
      V_EQ(i.remaining(),s.substr(want[k].first),"remaining at token " << k);
   }
   if (!s.empty()) c.cover(what);
   if (want.size() > 2) c.sample(what + " -> " + show(ref::strings(s,want)));
   // jumping by n equals n single steps
   const int n = static_cast<int>(c.r.below(want.size() + 3));
   tok_t::iterator j = tok.begin(); j += n;
   if (static_cast<std::size_t>(n) < want.size()) V_EQ(std::string((*j).first,(*j).second),ref::sub(s,want[n]),"operator+= " << n);
   else V_CHECK(j == tok.end(),"operator+= past the end");
}

template <typename T> static void print(std::ostream& os, const T& t) { os << t << '|'; }
V_SECTION(std_string_multi, 6000)
{
   const std::string d = ref::delim_set(c.r) + (c.r.chance(1,6) ? std::string(1,'\0') : std::string());
   const std::string s = ref::delimited(c.r,90,d,ref::alphabet(c.r));
   const unsigned opt = c.r.pick(ref::options());
   const std::string what = std::string(optname(opt)) + " delims=" + q(d) + " text=" + q(s);
   c.context = what;
   strtk::multiple_char_delimiter_predicate p(d);
   typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type tok_t;
   tok_t tok(s,p,opt);
   walk(c,tok,s.data(),ref::tokens(s,d,opt),what);
   if (!s.empty()) c.cover(what);
   { // a streamed iterator and a streamed range print their token
      std::ostringstream got, want; for (tok_t::iterator i = tok.begin(); i != tok.end(); ++i) { print(got,i); print(got,*i); }
      for (const ref::Span& w : ref::tokens(s,d,opt)) want << ref::sub(s,w) << '|' << ref::sub(s,w) << '|';
      V_EQ(got.str(),want.str(),"streamed tokens");
   }
   // re-assignment retargets the same tokenizer, also after partial iteration
   const std::string s2 = ref::delimited(c.r,40,d,ref::alphabet(c.r));
   tok_t::iterator keep = tok.begin();
   tok.assign(s2);
   walk(c,tok,s2.data(),ref::tokens(s2,d,opt),"after assign: " + q(s2));
   if (c.r.flip())
   {
      Buf<> b(s);
      tok.assign(b.begin(),b.end());
      walk(c,tok,static_cast<const char*>(b.begin()),ref::tokens(s,d,opt),"after assign(begin,end)");
   }
   // a copied iterator continues independently of the original
   const ref::Spans want = ref::tokens(s,d,opt);
   if (want.size() > 1)
   {
      tok_t t2(s,p,opt);
      tok_t::iterator a = t2.begin(); ++a;
      tok_t::iterator b2 = a; 
      tok_t::iterator b3 = t2.begin();
      while (b2 != t2.end()) ++b2;
      V_EQ(a.as_string(),ref::sub(s,want[1]),"copy of iterator is independent");
      b3 = a;
      V_EQ(b3.as_string(),ref::sub(s,want[1]),"assigned iterator");
      ++b3;
      if (want.size() > 2) V_EQ(b3.as_string(),ref::sub(s,want[2]),"assigned iterator advanced");
      else V_CHECK(b3 == t2.end(),"assigned iterator reaches the end");
      tok_t t3(t2);
      walk(c,t3,s.data(),want,"copied tokenizer");
      tok_t t4(s2,p,0);
      t4 = t2;
      walk(c,t4,s.data(),want,"assigned tokenizer");
      t4.assign(s2); // options come along with assignment
      walk(c,t4,s2.data(),ref::tokens(s2,d,opt),"assigned tokenizer, new text");
   }
   (void)keep;
}

struct ModPred
{
   explicit ModPred(int m) : m_(m), calls_(0) {}
   bool operator()(int v) const { ++calls_; return 0 == (v % m_); }
   int m_; mutable std::size_t calls_;
};

template <typename Cont>
static void int_case(Case& c)
{
   const int m = 2 + static_cast<int>(c.r.below(5));
   Cont v; const std::size_t n = c.r.len(50); std::vector<int> raw;
   for (std::size_t i = 0; i < n; ++i) { const int x = 1 + static_cast<int>(c.r.below(12)); v.push_back(x); raw.push_back(x); }
   const unsigned opt = c.r.pick(ref::options());
   const std::string what = std::string(optname(opt)) + " every multiple of " + show(m) + " in " + show(raw);
   c.context = what;
   ModPred p(m);
   typedef strtk::tokenizer<typename Cont::const_iterator,ModPred> tok_t;
   const typename Cont::const_iterator b = v.begin();
   const tok_t tok(b,v.end(),p,opt);
   walk(c,tok,b,ref::tokens(n,[&](std::size_t i) { return 0 == raw[i] % m; },opt),what);
   if (n) c.cover(what);
   c.sample(what);
}
V_SECTION(vector_of_int, 2500) { int_case<std::vector<int> >(c); }
V_SECTION(deque_of_int,  1500) { int_case<std::deque<int> >(c); }

V_SECTION(multi_value_predicate, 2500)
{
   // up to 80 distinct delimiters: both the inline and the heap storage of the predicate
   const std::size_t nd = c.r.chance(1,50) ? 80 + c.r.below(600) : 1 + c.r.below(80);
   const unsigned range = nd > 80 ? static_cast<unsigned>(nd) * 3 : 200;
   Buf<char> db(nd * sizeof(unsigned int));
   unsigned int* dl = reinterpret_cast<unsigned int*>(db.begin());
   std::vector<unsigned int> dv;
   for (std::size_t i = 0; i < nd; ++i) { dl[i] = static_cast<unsigned int>(c.r.below(range)); dv.push_back(dl[i]); }
   std::vector<unsigned int> v(c.r.len(70));
   for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<unsigned int>(c.r.below(range + c.r.below(400)));
   const unsigned opt = c.r.pick(ref::options());
   const std::string what = std::string(optname(opt)) + " delims=" + show(dv) + " seq=" + show(v);
   c.context = what;
   typedef strtk::multiple_delimiter_predicate<unsigned int> pred_t;
   pred_t p(dl,dl + nd);
   typedef strtk::tokenizer<const unsigned int*,pred_t> tok_t;
   Buf<unsigned char> vb(v.empty() ? 0 : &v[0],v.size() * sizeof(unsigned int));
   const unsigned int* b = reinterpret_cast<const unsigned int*>(vb.begin());
   const tok_t tok(b,b + v.size(),p,opt);
   walk(c,tok,b,ref::tokens(v.size(),[&](std::size_t i) { return std::find(dv.begin(),dv.end(),v[i]) != dv.end(); },opt),what);
   pred_t p2(dv.begin(),dv.end());
   const pred_t p3(dl,nd), p4((strtk::range::adapter<unsigned int>(dl,nd)));
   for (std::size_t i = 0; i < v.size(); ++i)
   {
      const bool w = std::find(dv.begin(),dv.end(),v[i]) != dv.end();
      V_EQ(p2(v[i]),w,"predicate on " << v[i]); V_EQ(p3(v[i]),w,"predicate (pointer and count) on " << v[i]); V_EQ(p4(v[i]),w,"predicate (adapter) on " << v[i]);
   }
   for (std::size_t i = 0; i < nd; ++i) V_CHECK(p(dv[i]) && p2(dv[i]) && p3(dv[i]) && p4(dv[i]),"every delimiter is one: " << dv[i]);
   if (!v.empty()) c.cover(what);
}

V_SECTION(all_short_strings, 12)
{
   // exhaustive: every string over {a , ;} up to length 6 (1093 strings) for one option/delimiter choice
   const unsigned opt = static_cast<unsigned>(c.index % 6);
   const std::string d = (c.index / 6) % 2 ? ",;" : ",";
   const std::string al = "a,;";
   strtk::multiple_char_delimiter_predicate p(d);
   typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type tok_t;
   for (std::size_t n = 0; n <= 6; ++n)
   {
      std::size_t total = 1; for (std::size_t i = 0; i < n; ++i) total *= 3;
      for (std::size_t k = 0; k < total; ++k)
      {
         std::string s; std::size_t t = k; for (std::size_t i = 0; i < n; ++i) { s += al[t % 3]; t /= 3; }
         c.context = std::string(optname(opt)) + " delims=" + q(d) + " text=" + q(s);
         tok_t tok(s,p,opt);
         walk(c,tok,s.data(),ref::tokens(s,d,opt),c.context);
         c.cover(c.context);
      }
   }
}

V_SECTION(large, 24)
{
   const std::string d = ref::delim_set(c.r);
   std::string s; const std::string al = ref::alphabet(c.r);
   const std::size_t n = 20000 + c.r.below(60000);
   while (s.size() < n) s += ref::delimited(c.r,900,d,al);
   const unsigned opt = c.r.pick(ref::options());
   strtk::multiple_char_delimiter_predicate p(d);
   typedef strtk::tokenizer<const char*,strtk::multiple_char_delimiter_predicate> tok_t;
   Buf<> b(s);
   c.context = "large text of " + show(s.size()) + " bytes, delims " + q(d) + " " + optname(opt);
   const tok_t tok(b.begin(),b.end(),p,opt);
   walk(c,tok,static_cast<const char*>(b.begin()),ref::tokens(s,d,opt),c.context);
   c.cover(s);
}
V_MAIN
