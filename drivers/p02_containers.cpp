// P02: parsing into containers (parse, parse_n, parse_line, parse_line_n, leading scalars + container tail)
#include "parse_common.hpp"
#include "strtk.hpp"
#include <fstream>
#include <functional>
typedef std::string Str;

template <typename T> static std::vector<T> content(const std::vector<T>& v) { return v; }
template <typename T> static std::vector<T> content(const std::deque<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(const std::list<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(const std::set<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(const std::multiset<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(std::queue<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.front()); v.pop(); } return r; }
template <typename T> static std::vector<T> content(std::stack<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.top()); v.pop(); } std::reverse(r.begin(),r.end()); return r; }
template <typename T> static std::vector<T> content(std::priority_queue<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.top()); v.pop(); } std::reverse(r.begin(),r.end()); return r; }
template <typename C> struct add_to { template <typename T> static void add(C& c, const T& t) { c.push_back(t); } };
template <typename T> struct add_to<std::set<T> > { static void add(std::set<T>& c, const T& t) { c.insert(t); } };
template <typename T> struct add_to<std::multiset<T> > { static void add(std::multiset<T>& c, const T& t) { c.insert(t); } };
template <typename T> struct add_to<std::queue<T> > { static void add(std::queue<T>& c, const T& t) { c.push(t); } };
template <typename T> struct add_to<std::stack<T> > { static void add(std::stack<T>& c, const T& t) { c.push(t); } };
template <typename T> struct add_to<std::priority_queue<T> > { static void add(std::priority_queue<T>& c, const T& t) { c.push(t); } };

struct In { std::string text, delims, path; unsigned opt; std::size_t n; bool range_set_ok; };

template <typename C>
static void one(vh::Case& c, const In& in, const char* kind)
{
   typedef typename C::value_type T;
   C start;
   for (std::size_t k = c.r.below(3); k-- > 0;) { T t; slot::of<T>::conv(slot::of<T>::good(c.r),t); add_to<C>::add(start,t); }
   const std::vector<std::string> all = ref::strings(in.text,ref::tokens(in.text,in.delims,in.opt));
   const std::vector<std::string> firstn(all.begin(),all.begin() + std::min(in.n,all.size()));
   C wa = start, wn = start; T t;
   for (auto& s : all) if (slot::of<T>::conv(s,t)) add_to<C>::add(wa,t);
   for (auto& s : firstn) if (slot::of<T>::conv(s,t)) add_to<C>::add(wn,t);
   const std::vector<T> ca = content(wa), cn = content(wn);
   const std::size_t added = wn.size() - start.size();
   vh::Buf<char> b(in.text); const char* p = b.begin(); const char* e = b.end();
   const strtk::split_options::type opt = in.opt;
   const std::string ctx = c.context; c.context += std::string(" container=") + kind;
   { C x = start; const std::size_t r = strtk::parse(p,e,in.delims,x,opt); V_EQ(content(x),ca,"parse(ptr)"); V_EQ(r,all.size(),"parse(ptr) token count"); }
   { C x = start; const std::size_t r = strtk::parse(in.text,in.delims,x,opt); V_EQ(content(x),ca,"parse(string)"); V_EQ(r,all.size(),"parse(string) token count"); }
   { C x = start; const std::size_t r = strtk::parse(std::make_pair(p,e),in.delims,x,opt); V_EQ(content(x),ca,"parse(range)"); V_EQ(r,all.size(),"parse(range) token count"); }
   { C x = start; const std::size_t r = strtk::parse_n(p,e,in.delims,in.n,x,opt); V_EQ(content(x),cn,"parse_n(ptr)"); V_EQ(r,added,"parse_n(ptr) count"); }
   { C x = start; const std::size_t r = strtk::parse_n(in.text,in.delims,in.n,x,opt); V_EQ(content(x),cn,"parse_n(string)"); V_EQ(r,added,"parse_n(string) count"); }
   { C x = start; const std::size_t r = strtk::parse_n(std::make_pair(p,e),in.delims,in.n,x,opt); V_EQ(content(x),cn,"parse_n(range)"); V_EQ(r,added,"parse_n(range) count"); }
   if (!in.path.empty())
   {
      // one line of a file; the following line is left for the next call
      { std::ofstream o(in.path.c_str(),std::ios::binary); o << in.text << "\n" << in.text << "\n7|8\n"; }
      std::ifstream f(in.path.c_str(),std::ios::binary);
      { C x = start; const std::size_t r = strtk::parse_line(f,in.delims,x,opt); V_EQ(content(x),ca,"parse_line"); V_EQ(r,all.size(),"parse_line token count"); }
      { C x = start; const std::size_t r = strtk::parse_line_n(f,in.delims,in.n,x,opt); V_EQ(content(x),cn,"parse_line_n"); V_EQ(r,added,"parse_line_n count"); }
      std::string rest; std::getline(f,rest); V_EQ(rest,std::string("7|8"),"exactly one line consumed per call");
      std::getline(f,rest);
      { C x = start; V_EQ(strtk::parse_line(f,in.delims,x,opt),static_cast<std::size_t>(0),"parse_line at end of file"); V_EQ(content(x),content(start),"container at end of file"); }
      { C x = start; V_EQ(strtk::parse_line_n(f,in.delims,in.n,x,opt),static_cast<std::size_t>(0),"parse_line_n at end of file"); V_EQ(content(x),content(start),"container at end of file"); }
      { std::ifstream g(in.path.c_str(),std::ios::binary); C x = start; V_EQ(strtk::parse_line(g,std::string(),x,opt),static_cast<std::size_t>(0),"parse_line without delimiters"); V_EQ(strtk::parse_line_n(g,std::string(),in.n,x,opt),static_cast<std::size_t>(0),"parse_line_n without delimiters"); V_EQ(content(x),content(start),"container when there are no delimiters"); std::getline(g,rest); V_EQ(rest,std::string("7|8"),"lines consumed without delimiters"); }
      c.event("lines_parsed",3);
   }
   c.event("containers_parsed",6);
   c.event("elements_stored",ca.size());
   c.context = ctx;
}

template <typename T> static void all_containers(vh::Case& c, const In& in)
{
   one<std::vector<T> >(c,in,"vector");
   switch (c.r.below(7))
   {
      case 0 : one<std::deque<T> >(c,in,"deque"); break;
      case 1 : one<std::list<T> >(c,in,"list"); break;
      case 2 : one<std::set<T> >(c,in,"set"); break;
      case 3 : one<std::multiset<T> >(c,in,"multiset"); break;
      case 4 : one<std::queue<T> >(c,in,"queue"); break;
      case 5 : one<std::stack<T> >(c,in,"stack"); break;
      case 6 : one<std::priority_queue<T> >(c,in,"priority_queue"); break;
   }
}

template <bool ints> static void containers(vh::Case& c)
{
   In in;
   in.delims = slot::delims(c.r);
   std::vector<std::string> toks;
   for (std::size_t k = c.r.len(c.r.chance(1,50) ? 400 : 14); k-- > 0;)
      toks.push_back(ints ? (c.r.chance(1,8) ? slot::of<int>::bad(c.r) : slot::of<int>::good(c.r)) : slot::of<std::string>::good(c.r));
   in.text = slot::record(c.r,toks,in.delims);
   if (c.r.chance(1,60)) in.text.insert(c.r.below(in.text.size() + 1),std::string(c.r.below(6000),in.delims[c.r.below(in.delims.size())])); // a line longer than any buffer
   in.opt = c.r.chance(2,3) ? ref::compress : c.r.below(2) ? 0 : c.r.pick(ref::options());
   in.n = c.r.chance(1,3) ? toks.size() : c.r.below(toks.size() + 3);
   if (c.r.chance(1,12) && !in.text.empty() && in.text.find('\n') == std::string::npos) in.path = vh::tmp() + "/p02.txt";
   c.context = "delims=" + vh::q(in.delims) + " opt=" + vh::show(in.opt) + " n=" + vh::show(in.n) + " text=" + vh::q(in.text);
   all_containers<typename std::conditional<ints,int,std::string>::type>(c,in);
   c.sample(c.context);
   if (!in.text.empty()) c.cover(c.context);
   if (ints)
   {
      // into an exactly sized array
      std::vector<int> want; int t; std::size_t k = 0;
      for (auto& s : ref::strings(in.text,ref::tokens(in.text,in.delims,in.opt))) { if (k++ >= in.n) break; if (slot::of<int>::conv(s,t)) want.push_back(t); }
      vh::Buf<int> arr(want.size() * sizeof(int));
      int* out = arr.begin();
      vh::Buf<char> b(in.text);
      V_EQ(strtk::parse_n(static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()),in.delims,in.n,out,strtk::split_options::type(in.opt)),want.size(),"parse_n(array) count");
      V_CHECK(want.empty() || memcmp(out,&want[0],want.size() * sizeof(int)) == 0,"parse_n(array) content");
      memset(arr.begin(),0xCD,want.size() * sizeof(int)); V_EQ(strtk::parse_n(in.text,in.delims,in.n,arr.begin(),strtk::split_options::type(in.opt)),want.size(),"parse_n(string,array) count");
      V_CHECK(want.empty() || memcmp(arr.begin(),&want[0],want.size() * sizeof(int)) == 0,"parse_n(string,array) content");
      c.event("arrays_filled");
   }
}

#if VH_IN(0)
V_SECTION(int_containers, 10000) { containers<true>(c); }
#endif
#if VH_IN(1)
V_SECTION(string_containers, 6000) { containers<false>(c); }
#endif

#if VH_IN(2) || VH_IN(3)
// leading scalars followed by a container taking the rest of the record
template <typename C, std::size_t... I>
static bool tail_call(const char* b, const char* e, const std::string& d, std::vector<long long>& v, C& cont, std::index_sequence<I...>) { return strtk::parse(b,e,d,v[I]...,strtk::details::container_adder(cont)); }
template <typename C, std::size_t... I>
static bool tail_call_s(const std::string& s, const std::string& d, std::vector<long long>& v, C& cont, std::index_sequence<I...>) { return strtk::parse(s,d,v[I]...,cont); }
template <typename C> static bool tail(int form, const vh::Buf<char>& b, const std::string& s, const std::string& d, std::vector<long long>& v, C& cont)
{
   const char* p = b.begin(); const char* e = b.end();
   switch (v.size())
   {
      #define X(N) case N : return form ? tail_call_s(s,d,v,cont,std::make_index_sequence<N>()) : tail_call(p,e,d,v,cont,std::make_index_sequence<N>());
      X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
      #undef X
   }
   return false;
}
template <typename C> static void tail_case(vh::Case& c, const std::string& text, const std::string& d, std::size_t n, const char* kind)
{
   typedef typename C::value_type T;
   c.context = std::string("scalars=") + vh::show(n) + " container=" + kind + " delims=" + vh::q(d) + " text=" + vh::q(text);
   const std::vector<std::string> toks = ref::strings(text,ref::tokens(text,d,ref::compress));
   std::vector<long long> wv(n,-77); C wc; bool want = toks.size() >= n + 1; T t;
   for (std::size_t i = 0; want && i < n; ++i) want = slot::of<long long>::conv(toks[i],wv[i]);
   for (std::size_t i = n; want && i < toks.size(); ++i) { want = slot::of<T>::conv(toks[i],t); if (want) add_to<C>::add(wc,t); }
   vh::Buf<char> b(text);
   for (int form = 0; form < 2; ++form)
   {
      std::vector<long long> v(n,-77); C x;
      const bool got = tail(form,b,text,d,v,x);
      V_EQ(got,want,"scalars+container verdict, form " << form);
      V_EQ(v,wv,"scalars, form " << form);
      V_EQ(content(x),content(wc),"container tail, form " << form);
      c.event(want ? "tails_accepted" : "tails_refused");
   }
   if (!text.empty()) c.cover(c.context);
}
#if VH_IN(2)
static void tail_a(vh::Case& c, const std::string& text, const std::string& d, std::size_t n)
{
      switch (c.r.below(4))
      {
         case 0 : tail_case<std::vector<int> >(c,text,d,n,"vector<int>"); break;
         case 1 : tail_case<std::deque<int> >(c,text,d,n,"deque<int>"); break;
         case 2 : tail_case<std::list<long long> >(c,text,d,n,"list<long long>"); break;
         case 3 : tail_case<std::set<int> >(c,text,d,n,"set<int>"); break;
      }
}
#endif
#if VH_IN(3)
static void tail_b(vh::Case& c, const std::string& text, const std::string& d, std::size_t n)
{
      switch (c.r.below(5))
      {
         case 0 : tail_case<std::multiset<int> >(c,text,d,n,"multiset<int>"); break;
         case 1 : tail_case<std::queue<int> >(c,text,d,n,"queue<int>"); break;
         case 2 : tail_case<std::stack<int> >(c,text,d,n,"stack<int>"); break;
         case 3 : tail_case<std::priority_queue<int> >(c,text,d,n,"priority_queue<int>"); break;
         case 4 : tail_case<std::vector<std::string> >(c,text,d,n,"vector<string>"); break;
      }
}
#endif
typedef void (*TailFn)(vh::Case&, const std::string&, const std::string&, std::size_t);
static void container_tail(vh::Case& c, TailFn tail_pick)
{
   const std::size_t n = 1 + c.index % 11;
   const std::string d = slot::delims(c.r);
   std::vector<std::string> toks;
   const std::size_t m = c.r.chance(4,5) ? n + 1 + c.r.below(6) : c.r.below(n + 2);
   for (std::size_t i = 0; i < m; ++i) toks.push_back(c.r.chance(1,30) ? slot::of<int>::bad(c.r) : slot::of<int>::good(c.r));
   const std::string text = slot::record(c.r,toks,d);
   tail_pick(c,text,d,n);
}
#endif
#if VH_IN(2)
V_SECTION(container_tail_a, 8000) { container_tail(c,tail_a); }
#endif
#if VH_IN(3)
V_SECTION(container_tail_b, 8000) { container_tail(c,tail_b); }
#endif

#if VH_IN(0)
// range_to_type inserters used directly as split outputs and as functors
V_SECTION(inserters, 8000)
{
   const std::string d = slot::delims(c.r);
   std::vector<std::string> toks;
   for (std::size_t k = c.r.len(14); k-- > 0;) toks.push_back(c.r.chance(1,8) ? slot::of<int>::bad(c.r) : slot::of<int>::good(c.r));
   const std::string text = slot::record(c.r,toks,d);
   c.context = "delims=" + vh::q(d) + " text=" + vh::q(text);
   std::vector<int> want; int t;
   const std::vector<std::string> rt = ref::strings(text,ref::tokens(text,d,0));
   for (auto& s : rt) if (slot::of<int>::conv(s,t)) want.push_back(t);
   std::vector<int> v; strtk::split(d,text,strtk::range_to_type_back_inserter(v)); V_EQ(v,want,"range_to_type_back_inserter");
   std::multiset<int> ms; strtk::split(d,text,strtk::range_to_type_inserter(ms)); V_EQ(content(ms),content(std::multiset<int>(want.begin(),want.end())),"range_to_type_inserter");
   std::queue<int> q; strtk::split(d,text,strtk::range_to_type_push_inserter(q)); V_EQ(content(q),want,"range_to_type_push_inserter");
   vh::Buf<int> a1(want.size() * sizeof(int)), a2(want.size() * sizeof(int)); std::size_t cnt = 3;
   strtk::split(d,text,strtk::range_to_ptr_type(static_cast<int*>(a1.begin()))); strtk::split(d,text,strtk::range_to_ptr_type(static_cast<int*>(a2.begin()),cnt));
   V_CHECK(want.empty() || memcmp(a1.begin(),&want[0],want.size() * 4) == 0,"range_to_ptr_type"); V_CHECK(want.empty() || memcmp(a2.begin(),&want[0],want.size() * 4) == 0,"range_to_ptr_type counted"); V_EQ(cnt,3 + want.size(),"insert count");
   std::size_t n = 5; strtk::split(d,text,strtk::counting_back_inserter<std::pair<const char*,const char*> >(n)); V_EQ(n,5 + rt.size(),"counting_back_inserter");
   std::vector<int> v2; auto bi = strtk::range_to_type_back_inserter(v2);
   for (auto& s : rt) { *bi++ = s; } V_EQ(v2,want,"string assignment");
   struct F { std::vector<std::string>* o; void operator()(const std::pair<const char*,const char*>& r) { o->push_back(std::string(r.first,r.second)); } };
   std::vector<std::string> fo; F f = { &fo }; const char* p = text.data(); strtk::split(strtk::multiple_char_delimiter_predicate(d),p,p + text.size(),strtk::functional_inserter(f)); V_EQ(fo,rt,"functional_inserter");
   std::vector<std::string> sv; for (auto& s : rt) if (!s.empty()) { *strtk::back_inserter_with_valuetype(sv) = s; } 
   std::vector<std::string> ne; for (auto& s : rt) if (!s.empty()) ne.push_back(s); V_EQ(sv,ne,"back_inserter_with_valuetype");
   // the same inserters fed by call, by string and by post-increment
   {
      typedef std::pair<const char*,const char*> R; std::vector<int> w; std::multiset<int> ws; std::queue<int> wq; std::stack<int> wst; std::vector<int> arr(rt.size() + 1,-5), wa = arr; int* ap = arr.data(); std::size_t ai = 0;
      auto fb = strtk::range_to_type_back_inserter(w); auto fi = strtk::range_to_type_inserter(ws); auto fq = strtk::range_to_type_push_inserter(wq); auto fs = strtk::range_to_type_push_inserter(wst); auto fp = strtk::range_to_ptr_type(ap);
      std::vector<Str> vt; std::multiset<Str> mt; std::queue<Str> qt; std::size_t ct = 0; std::vector<Str> ft; std::function<void(const Str&)> ff = [&](const Str& x) { ft.push_back(x); };
      auto bv = strtk::back_inserter_with_valuetype(vt); auto bm = strtk::inserter_with_valuetype(mt); auto bq = strtk::push_inserter(qt); strtk::counting_back_inserter_iterator<Str> bc(ct); auto bf = strtk::functional_inserter(ff);
      for (auto& s : rt)
      {
         const R r(s.data(),s.data() + s.size()); int x; const bool ok = slot::of<int>::conv(s,x);
         switch (c.r.below(3)) { case 0 : fb(r); fi(r); fq(r); fs(r); fp(r); break; case 1 : *fb++ = r; *fi++ = r; *fq++ = r; *fs++ = r; *fp++ = r; break; default : *fb = s; ++fb; *fi = r; ++fi; *fq = r; ++fq; *fs = r; ++fs; *fp = s; ++fp; break; }
         if (ok) wa[ai++] = x;
         switch (c.r.below(3)) { case 0 : bv(s); bm(s); *bq = s; bc(s); bf(s); break; case 1 : *bv++ = s; *bm++ = s; *bq++ = s; *bc++ = s; *bf++ = s; break; default : *bv = s; ++bv; *bm = s; ++bm; *bq = s; ++bq; *bc = s; ++bc; *bf = s; ++bf; break; }
      }
      V_EQ(w,want,"back inserter by call"); V_EQ(content(ws),content(std::multiset<int>(want.begin(),want.end())),"inserter by call"); V_EQ(content(wq),want,"queue inserter by call"); V_EQ(content(wst),want,"stack inserter by call"); V_EQ(arr,wa,"pointer inserter by call");
      V_EQ(vt,rt,"value back inserter"); V_EQ(content(mt),content(std::multiset<Str>(rt.begin(),rt.end())),"value inserter"); V_EQ(content(qt),rt,"push inserter"); V_EQ(ct,rt.size(),"counting inserter"); V_EQ(ft,rt,"functional inserter");
   }
   c.event("inserters_used",18);
   if (!text.empty()) c.cover(c.context);
}
#endif
V_MAIN
