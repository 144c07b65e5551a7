// P01: fixed-arity parse / parse_line / argv parse / construct
#include "parse_common.hpp"
#include "strtk.hpp"
#include <fstream>

typedef std::tuple<int,std::string,unsigned int,double,long long,char,short,unsigned short,float,std::string,unsigned long long,bool,long,unsigned long,unsigned char,int> Row;
template <std::size_t K> using El = typename std::tuple_element<K,Row>::type;

template <std::size_t... I> static void reset(Row& r, std::index_sequence<I...>) { int d[] = { (std::get<I>(r) = slot::of<El<I> >::junk(),0)... }; (void)d; }
static void reset(Row& r) { reset(r,std::make_index_sequence<16>()); }
template <std::size_t... I> static void gen(vh::Rng& r, std::size_t k, bool bad, std::string& out, std::index_sequence<I...>)
{ int d[] = { (I == k ? (out = bad ? slot::of<El<I> >::bad(r) : slot::of<El<I> >::good(r),0) : 0)... }; (void)d; }
static std::string gen(vh::Rng& r, std::size_t k, bool bad) { std::string s; gen(r,k,bad,s,std::make_index_sequence<16>()); return s; }
template <std::size_t... I> static bool conv(std::size_t k, const std::string& s, Row& row, std::index_sequence<I...>)
{ bool ok = false; int d[] = { (I == k ? (ok = slot::of<El<I> >::conv(s,std::get<I>(row)),0) : 0)... }; (void)d; return ok; }
template <std::size_t... I> static int differ(const Row& a, const Row& b, std::index_sequence<I...>)
{ int bad = -1; int d[] = { ((bad < 0 && !slot::of<El<I> >::same(std::get<I>(a),std::get<I>(b))) ? (bad = static_cast<int>(I)) : 0)... }; (void)d; return bad; }

// reference outcome: conversion stops at the first refused token
static bool expected(const std::vector<std::string>& toks, std::size_t n, Row& row, std::size_t& converted)
{
   reset(row); converted = 0;
   if (toks.size() < n) return false;
   for (std::size_t i = 0; i < n; ++i) { if (!conv(i,toks[i],row,std::make_index_sequence<16>())) return false; ++converted; }
   return true;
}

template <typename F, std::size_t N, std::size_t... I> static bool call(F f, Row& row, std::index_sequence<I...>) { return f(std::get<I>(row)...); }

struct PtrParse { const char* b; const char* e; const std::string& d; template <typename... T> bool operator()(T&... t) const { return strtk::parse(b,e,d,t...); } };
struct UPtrParse { const unsigned char* b; const unsigned char* e; const std::string& d; template <typename... T> bool operator()(T&... t) const { return strtk::parse(b,e,d,t...); } };
struct StrParse { const std::string& s; const std::string& d; template <typename... T> bool operator()(T&... t) const { return strtk::parse(s,d,t...); } };
struct ItParse { const std::string& s; const std::string& d; template <typename... T> bool operator()(T&... t) const { return strtk::parse(s.begin(),s.end(),d,t...); } };
struct LineParse { std::ifstream& f; const std::string& d; template <typename... T> bool operator()(T&... t) const { return strtk::parse_line(f,d,t...); } };

template <typename F, std::size_t N> static bool apply_n(F f, Row& row) { return call<F,N>(f,row,std::make_index_sequence<N>()); }
template <typename F> static bool apply(F f, std::size_t n, Row& row)
{
   switch (n)
   {
      #define X(N) case N : return apply_n<F,N>(f,row);
      X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
      default : return apply_n<F,16>(f,row);
      #undef X
   }
}
static bool apply12(LineParse f, std::size_t n, Row& row)
{
   switch (n)
   {
      #define X(N) case N : return apply_n<LineParse,N>(f,row);
      X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11)
      default : return apply_n<LineParse,12>(f,row);
      #undef X
   }
}

static std::vector<std::string> tokens_for(vh::Rng& r, std::size_t n)
{
   std::vector<std::string> v;
   std::size_t m = n;
   switch (r.below(6)) { case 0 : m = r.below(n + 1); break; case 1 : m = n + 1 + r.below(3); break; case 2 : m = n - 1; break; default : break; }
   const std::size_t badpos = r.chance(1,3) ? r.below(n) : 99;
   for (std::size_t i = 0; i < m; ++i) v.push_back(i < 16 ? gen(r,i,i == badpos) : std::string("extra"));
   return v;
}

static void judge(vh::Case& c, const char* what, std::size_t n, bool got, const Row& row, bool want, const Row& ref)
{
   if (got != want) c.fail(std::string(what) + " arity " + vh::show(n) + ": returned " + vh::show(got) + " expected " + vh::show(want));
   const int d = differ(row,ref,std::make_index_sequence<16>());
   if (d >= 0) c.fail(std::string(what) + " arity " + vh::show(n) + ": variable " + vh::show(d + 1) + " has the wrong value");
   c.event(want ? "parse_success" : "parse_refused");
}

V_SECTION(fixed_arity, 40000)
{
   const std::size_t n = 1 + c.index % 16;
   const std::string d = slot::delims(c.r);
   const std::string text = slot::record(c.r,tokens_for(c.r,n),d);
   c.context = "arity=" + vh::show(n) + " delims=" + vh::q(d) + " text=" + vh::q(text);
   Row ref, row; std::size_t conv_n;
   const std::vector<std::string> toks = ref::strings(text,ref::tokens(text,d,ref::compress));
   const bool want = expected(toks,n,ref,conv_n);
   vh::Buf<char> b(text);
   PtrParse pp = { b.begin(), b.end(), d };
   reset(row); { bool g = apply(pp,n,row); judge(c,"parse(ptr)",n,g,row,want,ref); }
   StrParse sp = { text, d };
   reset(row); { bool g = apply(sp,n,row); judge(c,"parse(string)",n,g,row,want,ref); }
   if (c.r.chance(1,4))
   {
      vh::Buf<unsigned char> ub(text);
      UPtrParse up = { ub.begin(), ub.end(), d };
      reset(row); { bool g = apply(up,n,row); judge(c,"parse(uchar ptr)",n,g,row,want,ref); }
   }
   else if (c.r.flip())
   {
      ItParse ip = { text, d };
      reset(row); { bool g = apply(ip,n,row); judge(c,"parse(iterator)",n,g,row,want,ref); }
   }
   c.sample(c.context + " -> " + vh::show(want));
   if (!text.empty()) c.cover(vh::show(n) + d + text);
}

V_SECTION(line_arity, 6000)
{
   const std::string path = vh::tmp() + "/p01_lines.txt";
   const std::string d = slot::delims(c.r);
   std::vector<std::string> lines; std::vector<std::size_t> arity;
   for (std::size_t k = 1 + c.r.below(5); k-- > 0;)
   {
      const std::size_t n = 1 + c.r.below(12);
      arity.push_back(n); lines.push_back(c.r.chance(1,8) ? std::string() : slot::record(c.r,tokens_for(c.r,n),d));
      if (c.r.chance(1,30)) { std::string& l = lines.back(); const std::size_t at = l.find_first_of(d); if (at != std::string::npos) l.insert(at,c.r.below(9000),l[at]); } // longer than any buffer
   }
   const bool final_nl = c.r.chance(3,4);
   { std::ofstream o(path.c_str(),std::ios::binary); for (std::size_t i = 0; i < lines.size(); ++i) o << lines[i] << ((i + 1 < lines.size() || final_nl) ? "\n" : ""); }
   std::ifstream f(path.c_str(),std::ios::binary);
   Row ref, row; std::size_t cn;
   for (std::size_t i = 0; i < lines.size(); ++i)
   {
      if (i + 1 == lines.size() && !final_nl && lines[i].empty()) break; // no such line in the file
      c.context = "arity=" + vh::show(arity[i]) + " delims=" + vh::q(d) + " line=" + vh::q(lines[i]);
      const bool want = expected(ref::strings(lines[i],ref::tokens(lines[i],d,ref::compress)),arity[i],ref,cn);
      LineParse lp = { f, d };
      reset(row); const bool g = apply12(lp,arity[i],row);
      judge(c,"parse_line",arity[i],g,row,want,ref);
      c.event("lines_parsed");
      c.cover(c.context);
   }
   reset(ref); reset(row);
   LineParse lp = { f, d };
   const bool g = apply12(lp,1 + c.r.below(12),row);
   judge(c,"parse_line at end of file",0,g,row,false,ref);
   std::ifstream f2(path.c_str(),std::ios::binary); const std::string none;
   LineParse lp2 = { f2, none };
   for (std::size_t i = 0; i < lines.size(); ++i) { reset(row); const bool h = apply12(lp2,c.r.chance(2,3) ? 1 : 1 + c.r.below(12),row); judge(c,"parse_line without delimiters",0,h,row,false,ref); }
}

// argv form: argc arguments, one per variable; returns how many leading arguments converted
struct ArgvParse { int argc; char** argv; template <typename... T> std::size_t operator()(T&... t) const { return strtk::parse(argc,argv,t...); } };
template <std::size_t... I> static std::size_t argv_n(ArgvParse f, Row& row, std::index_sequence<I...>) { return f(std::get<I>(row)...); }
V_SECTION(argv_arity, 10000)
{
   const std::size_t n = 1 + c.r.below(9);
   std::size_t m = c.r.chance(3,4) ? n : c.r.below(10);
   std::vector<std::string> a; const std::size_t badpos = c.r.chance(1,3) ? c.r.below(n) : 99;
   for (std::size_t i = 0; i < m; ++i) a.push_back(gen(c.r,i,i == badpos));
   std::vector<char*> argv; for (std::size_t i = 0; i < m; ++i) argv.push_back(strdup(a[i].c_str()));
   vh::Buf<char*> block(argv.empty() ? 0 : static_cast<const void*>(&argv[0]),argv.size() * sizeof(char*));
   char** av = reinterpret_cast<char**>(block.begin());
   c.context = "argv=" + vh::show(a) + " arity=" + vh::show(n);
   Row ref, row; std::size_t cn = 0;
   if (m == n) expected(a,n,ref,cn); else reset(ref);
   reset(row);
   ArgvParse f = { static_cast<int>(m), av };
   std::size_t got = 0;
   switch (n)
   {
      #define X(N) case N : got = argv_n(f,row,std::make_index_sequence<N>()); break;
      X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9)
      #undef X
   }
   for (auto p : argv) free(p);
   V_EQ(got,cn,"converted arguments");
   const int d = differ(row,ref,std::make_index_sequence<16>());
   V_CHECK(d < 0,"argv variable " << d + 1);
   c.event("argv_parsed"); c.cover(c.context);
   // sequence form
   std::vector<std::string> nums; for (std::size_t i = c.r.below(6); i-- > 0;) nums.push_back(c.r.chance(1,4) ? slot::of<int>::bad(c.r) : slot::of<int>::good(c.r));
   std::vector<char*> nv; for (auto& s : nums) nv.push_back(const_cast<char*>(s.c_str())); nv.push_back(0);
   for (int brk = 0; brk < 2; ++brk)
   {
      std::vector<int> want, seq; std::size_t ret = nums.size(); int t;
      for (std::size_t i = 0; i < nums.size(); ++i) { if (slot::of<int>::conv(nums[i],t)) want.push_back(t); else if (brk) { ret = i; break; } }
      c.context = "argv=" + vh::show(nums) + " break=" + vh::show(brk != 0);
      V_EQ(strtk::parse(static_cast<int>(nums.size()),&nv[0],seq,brk != 0),ret,"argv sequence result");
      V_EQ(seq,want,"argv sequence");
   }
}

// construct joins the textual forms with the delimiter, and parse takes them apart again
struct Construct { std::string& o; const std::string& d; template <typename... T> bool operator()(T&... t) const { strtk::construct(o,d,t...); return true; } };
struct Text { std::vector<std::string>& o; template <typename T> int one(const T& t) const { o.push_back(strtk::type_to_string(t)); return 0; } template <typename... T> bool operator()(T&... t) const { int d[] = { one(t)... }; (void)d; return true; } };
V_SECTION(construct_parse, 10000)
{
   const std::size_t n = 2 + c.r.below(11);
   const std::string d(1,c.r.pick("|;\t#"));
   Row row, back; reset(row);
   for (std::size_t i = 0; i < n; ++i) { std::string s = gen(c.r,i,false); conv(i,s,row,std::make_index_sequence<16>()); }
   std::get<5>(row) = static_cast<char>('a' + c.r.below(26)); std::get<11>(row) = c.r.flip();
   std::vector<std::string> parts; std::string out = c.r.flip() ? "" : "prefix:"; const std::string prefix = out;
   Construct k = { out, d }; Text t = { parts };
   #define X(N) case N : apply_n<Construct,N>(k,row); apply_n<Text,N>(t,row); break;
   switch (n) { X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) }
   #undef X
   std::string want = prefix; for (std::size_t i = 0; i < parts.size(); ++i) want += (i ? d : "") + parts[i];
   V_EQ(out,want,"construct");
   const std::string text = out.substr(prefix.size());
   c.context = "arity=" + vh::show(n) + " text=" + vh::q(text);
   reset(back); StrParse sp = { text, d };
   const bool g = apply(sp,n,back);
   V_CHECK(g,"constructed text parses back");
   for (std::size_t i = n; i < 16; ++i) {}
   Row cmp; reset(cmp);
   Row full = row; // variables beyond n were never constructed
   { Row j; reset(j); const int dd = differ(back,row,std::make_index_sequence<12>()); if (dd >= 0 && static_cast<std::size_t>(dd) < n) c.fail("variable " + vh::show(dd + 1) + " does not survive construct/parse"); }
   c.event("round_trips"); c.cover(out);
}

// join over a range
V_SECTION(joins, 6000)
{
   std::vector<std::string> v; for (std::size_t i = c.r.len(8); i-- > 0;) v.push_back(c.r.str(c.r.len(5),"ab,"));
   std::deque<int> q; for (std::size_t i = c.r.len(8); i-- > 0;) q.push_back(slot::of<int>::value(c.r));
   const std::string d = c.r.str(c.r.below(4),",;ab");
   std::string w1 = "P", w2; for (std::size_t i = 0; i < v.size(); ++i) w1 += (i ? d : "") + v[i]; for (std::size_t i = 0; i < q.size(); ++i) w2 += (i ? d : "") + std::to_string(q[i]);
   std::string o = "P"; strtk::join(o,d,v.begin(),v.end()); V_EQ(o,w1,"join iterators appends");
   o = "P"; strtk::join(o,d,std::make_pair(v.begin(),v.end())); V_EQ(o,w1,"join pair");
   o = "P"; strtk::join(o,d,v); V_EQ(o,w1,"join sequence");
   V_EQ(strtk::join(d,q.begin(),q.end()),w2,"join result"); V_EQ(strtk::join(d,std::make_pair(q.begin(),q.end())),w2,"join range result");
   V_EQ(strtk::join(d,q),w2,"join sequence result");
   std::string w3; bool first = true; for (auto x : q) if (x > 0) { w3 += (first ? "" : d) + std::to_string(x); first = false; }
   struct Positive { bool operator()(int x) const { return x > 0; } } pos;
   V_EQ(strtk::join_if(d,pos,q.begin(),q.end()),w3,"join_if iterators");
   V_EQ(strtk::join_if(d,pos,std::make_pair(q.begin(),q.end())),w3,"join_if pair");
   V_EQ(strtk::join_if(d,pos,q),w3,"join_if sequence");
   o = "P"; strtk::join_if(o,d,pos,q); V_EQ(o,"P" + w3,"join_if sequence appends");
   o = "P"; strtk::join_if(o,d,pos,std::make_pair(q.begin(),q.end())); V_EQ(o,"P" + w3,"join_if pair appends");
   const std::multiset<int> ms(q.begin(),q.end()); const std::set<int> st(q.begin(),q.end());
   std::string wm, ws, wmp, wsp;
   for (auto x : ms) { wm += (wm.empty() ? "" : d) + std::to_string(x); if (x > 0) wmp += (wmp.empty() ? "" : d) + std::to_string(x); }
   for (auto x : st) { ws += (ws.empty() ? "" : d) + std::to_string(x); if (x > 0) wsp += (wsp.empty() ? "" : d) + std::to_string(x); }
   V_EQ(strtk::join(d,ms),wm,"join multiset"); V_EQ(strtk::join(d,st),ws,"join set");
   V_EQ(strtk::join_if(d,pos,ms),wmp,"join_if multiset"); V_EQ(strtk::join_if(d,pos,st),wsp,"join_if set");
   o = "P"; strtk::join(o,d,ms); V_EQ(o,"P" + wm,"join multiset appends"); o = "P"; strtk::join(o,d,st); V_EQ(o,"P" + ws,"join set appends");
   o = "P"; strtk::join_if(o,d,pos,ms); V_EQ(o,"P" + wmp,"join_if multiset appends"); o = "P"; strtk::join_if(o,d,pos,st); V_EQ(o,"P" + wsp,"join_if set appends");
   std::vector<char*> av; for (auto& x : v) av.push_back(const_cast<char*>(x.c_str())); av.push_back(0);
   V_EQ(strtk::join(d,static_cast<int>(v.size()),&av[0]),w1.substr(1),"join argv");
   c.event("joins"); c.cover(w1 + d + w2);
}
V_MAIN
