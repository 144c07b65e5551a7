// U02: column selection and column parsing
#include "conv_ref.hpp"
#include <memory>
#include <climits>
#include <cfloat>
#include <list>
#include <deque>
#include "strtk.hpp"
typedef std::string Str;
typedef std::vector<std::size_t> Cols;

static bool conv(const Str& s, Str& t) { t = s; return true; }
static bool conv(const Str& s, double& t) { return real_of(s,t); }
template <typename T> static bool conv(const Str& s, T& t) { long long v; if (!int_of(s,std::numeric_limits<T>::min(),std::numeric_limits<T>::max(),v)) return false; t = static_cast<T>(v); return true; }
static Str word(vh::Rng& r)
{
   switch (r.below(14)) { case 0 : return r.str(1 + r.below(3),"xyz"); case 1 : return vh::show(r.range(-40000,70000)); case 2 : return vh::show(r.below(10)) + "." + vh::show(r.below(1000)); case 3 : return vh::show(static_cast<long long>(INT_MAX) + r.range(0,1)); default : return vh::show(r.below(65536)); }
}
struct Line { Str text; std::vector<Str> tok; };
static Line line(vh::Rng& r, const Str& ds, bool numbers)
{
   Line l; const std::size_t n = r.chance(1,10) ? 0 : 1 + r.below(r.chance(1,3) ? 20 : 8);
   for (std::size_t i = 0; i < n; ++i) { if (i || r.chance(1,8)) l.text += r.str(r.chance(1,4) ? 1 + r.below(3) : 1,ds); l.text += numbers && r.chance(15,16) ? vh::show(r.below(60000)) : word(r); }
   if (r.chance(1,6)) l.text += r.str(1 + r.below(2),ds);
   return l;
}
static Cols columns(vh::Rng& r, std::size_t n, std::size_t tokens)
{
   Cols c; std::size_t at = r.below(3) ? 0 : r.below(3); const bool dense = r.chance(2,3);
   for (std::size_t i = 0; i < n; ++i) { if (!dense || r.chance(1,4)) at += r.below(3); c.push_back(at++); }
   // now and then end exactly at the last token, or just after it
   if (tokens && r.chance(1,4) && tokens >= n) { const std::size_t want = tokens - 1 + r.below(2); if (c.back() < want || n == 1) c.back() = want; }
   return c;
}
static Str show(const Cols& c) { Str s; for (std::size_t v : c) s += vh::show(v) + ' '; return s; }
struct Row
{
   int t0;
   Str t1;
   unsigned short t2;
   Str t3;
   double t4;
   int t5;
   Str t6;
   long long t7;
   int t8;
   Str t9;
   int t10;
   unsigned t11;
   Row() : t0(77), t1("old"), t2(77), t3("old"), t4(77), t5(77), t6("old"), t7(77), t8(77), t9("old"), t10(77), t11(77) {}
   bool operator==(const Row& o) const { return t0 == o.t0 && t1 == o.t1 && t2 == o.t2 && t3 == o.t3 && fabs(t4 - o.t4) <= fabs(o.t4) * 1e-13 && t5 == o.t5 && t6 == o.t6 && t7 == o.t7 && t8 == o.t8 && t9 == o.t9 && t10 == o.t10 && t11 == o.t11; }
   Str show() const { std::ostringstream o; o << t0 << "|" << t1 << "|" << t2 << "|" << t3 << "|" << t4 << "|" << t5 << "|" << t6 << "|" << t7 << "|" << t8 << "|" << t9 << "|" << t10 << "|" << t11; return o.str(); }
   bool set(std::size_t i, const Str& s) { switch (i) { case 0 : return conv(s,t0); case 1 : return conv(s,t1); case 2 : return conv(s,t2); case 3 : return conv(s,t3); case 4 : return conv(s,t4); case 5 : return conv(s,t5); case 6 : return conv(s,t6); case 7 : return conv(s,t7); case 8 : return conv(s,t8); case 9 : return conv(s,t9); case 10 : return conv(s,t10); case 11 : return conv(s,t11); } return false; }
};

template <std::size_t N> static strtk::details::column_list_impl<N> list_of(const Cols& c, bool array) { std::size_t a[N]; for (std::size_t i = 0; i < N; ++i) a[i] = c[i]; (void)array; return strtk::column_list(a); }
template <typename It> static bool parse_range(std::size_t n, It b, It e, const Str& d, const Cols& c, bool array, Row& r)
{
   switch (n)
   {
      case 1 : return array ? strtk::parse_columns(b,e,d,list_of<1>(c,true),r.t0) : strtk::parse_columns(b,e,d,strtk::column_list(c[0]),r.t0);
      case 2 : return array ? strtk::parse_columns(b,e,d,list_of<2>(c,true),r.t0,r.t1) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1]),r.t0,r.t1);
      case 3 : return array ? strtk::parse_columns(b,e,d,list_of<3>(c,true),r.t0,r.t1,r.t2) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2]),r.t0,r.t1,r.t2);
      case 4 : return array ? strtk::parse_columns(b,e,d,list_of<4>(c,true),r.t0,r.t1,r.t2,r.t3) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3]),r.t0,r.t1,r.t2,r.t3);
      case 5 : return array ? strtk::parse_columns(b,e,d,list_of<5>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4]),r.t0,r.t1,r.t2,r.t3,r.t4);
      case 6 : return array ? strtk::parse_columns(b,e,d,list_of<6>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5);
      case 7 : return array ? strtk::parse_columns(b,e,d,list_of<7>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6);
      case 8 : return array ? strtk::parse_columns(b,e,d,list_of<8>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7);
      case 9 : return array ? strtk::parse_columns(b,e,d,list_of<9>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8);
      case 10 : return array ? strtk::parse_columns(b,e,d,list_of<10>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9);
      case 11 : return array ? strtk::parse_columns(b,e,d,list_of<11>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10);
      case 12 : return array ? strtk::parse_columns(b,e,d,list_of<12>(c,true),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10,r.t11) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10],c[11]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10,r.t11);
   }
   return false;
}
static bool parse_string(std::size_t n, const Str& s, const Str& d, const Cols& c, Row& r)
{
   switch (n)
   {
      case 1 : return strtk::parse_columns(s,d,strtk::column_list(c[0]),r.t0);
      case 2 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1]),r.t0,r.t1);
      case 3 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2]),r.t0,r.t1,r.t2);
      case 4 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3]),r.t0,r.t1,r.t2,r.t3);
      case 5 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4]),r.t0,r.t1,r.t2,r.t3,r.t4);
      case 6 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5);
      case 7 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6);
      case 8 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7);
      case 9 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8);
      case 10 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9);
      case 11 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10);
      case 12 : return strtk::parse_columns(s,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10],c[11]),r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10,r.t11);
   }
   return false;
}
template <typename Seq> static bool parse_seq(std::size_t n, const char* b, const char* e, bool str, const Str& d, const Cols& c, Seq& q)
{
   switch (n)
   {
      case 1 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0]),q);
      case 2 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1]),q);
      case 3 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2]),q);
      case 4 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3]),q);
      case 5 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4]),q);
      case 6 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5]),q);
      case 7 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6]),q);
      case 8 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7]),q);
      case 9 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8]),q);
      case 10 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9]),q);
      case 11 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10]),q);
      case 12 : return str ? strtk::parse_columns(Str(b,e),d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10],c[11]),q) : strtk::parse_columns(b,e,d,strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10],c[11]),q);
   }
   return false;
}
template <typename Sel> static void run_selector(Sel s, const std::vector<Line>& ls, const Str& d, unsigned opt, unsigned mode, Row& r, std::vector<Row>& after)
{
   for (std::size_t i = 0; i < ls.size(); ++i)
   {
      const Str& t = ls[i].text;
      if (mode == 0) strtk::split(d,t,s,opt);                       // a copy of the selector each time
      else if (mode == 1) { s.reset(); for (const Str& w : ls[i].tok) { vh::Buf<char> b(w); *s = std::make_pair(b.begin(),b.end()); } }
      else if (mode == 2) { vh::Buf<char> b(t); strtk::split(strtk::multiple_char_delimiter_predicate(d),b.begin(),b.end(),s,opt); }
      else { s.reset(); for (const Str& w : ls[i].tok) { if (i % 2) { *s++ = std::make_pair(w.data(),w.data() + w.size()); } else { *s = std::make_pair(w.data(),w.data() + w.size()); ++s; s++; } } }
      after.push_back(r);
   }
}
static void select(std::size_t n, const std::vector<Line>& ls, const Str& d, unsigned opt, unsigned mode, const Cols& c, Row& r, std::vector<Row>& after)
{
   switch (n)
   {
      case 1 : { const strtk::details::column_list_impl<1> cl = strtk::column_list(c[0]); run_selector(strtk::column_selector(cl,r.t0),ls,d,opt,mode,r,after); } break;
      case 2 : { const strtk::details::column_list_impl<2> cl = strtk::column_list(c[0],c[1]); run_selector(strtk::column_selector(cl,r.t0,r.t1),ls,d,opt,mode,r,after); } break;
      case 3 : { const strtk::details::column_list_impl<3> cl = strtk::column_list(c[0],c[1],c[2]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2),ls,d,opt,mode,r,after); } break;
      case 4 : { const strtk::details::column_list_impl<4> cl = strtk::column_list(c[0],c[1],c[2],c[3]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3),ls,d,opt,mode,r,after); } break;
      case 5 : { const strtk::details::column_list_impl<5> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4),ls,d,opt,mode,r,after); } break;
      case 6 : { const strtk::details::column_list_impl<6> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5),ls,d,opt,mode,r,after); } break;
      case 7 : { const strtk::details::column_list_impl<7> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6),ls,d,opt,mode,r,after); } break;
      case 8 : { const strtk::details::column_list_impl<8> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7),ls,d,opt,mode,r,after); } break;
      case 9 : { const strtk::details::column_list_impl<9> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8),ls,d,opt,mode,r,after); } break;
      case 10 : { const strtk::details::column_list_impl<10> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9),ls,d,opt,mode,r,after); } break;
      case 11 : { const strtk::details::column_list_impl<11> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10),ls,d,opt,mode,r,after); } break;
      case 12 : { const strtk::details::column_list_impl<12> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9],c[10],c[11]); run_selector(strtk::column_selector(cl,r.t0,r.t1,r.t2,r.t3,r.t4,r.t5,r.t6,r.t7,r.t8,r.t9,r.t10,r.t11),ls,d,opt,mode,r,after); } break;
   }
}
template <typename Sel, typename Seq> static void run_seq(Sel s, const Line& l, const Str& d, unsigned opt, Seq&) { strtk::split(d,l.text,s,opt); }
template <typename Seq> static void select_seq(std::size_t n, const Line& l, const Str& d, unsigned opt, const Cols& c, Seq& q)
{
   switch (n)
   {
      case 2 : { const strtk::details::column_list_impl<2> cl = strtk::column_list(c[0],c[1]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 3 : { const strtk::details::column_list_impl<3> cl = strtk::column_list(c[0],c[1],c[2]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 4 : { const strtk::details::column_list_impl<4> cl = strtk::column_list(c[0],c[1],c[2],c[3]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 5 : { const strtk::details::column_list_impl<5> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 6 : { const strtk::details::column_list_impl<6> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 7 : { const strtk::details::column_list_impl<7> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 8 : { const strtk::details::column_list_impl<8> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 9 : { const strtk::details::column_list_impl<9> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
      case 10 : { const strtk::details::column_list_impl<10> cl = strtk::column_list(c[0],c[1],c[2],c[3],c[4],c[5],c[6],c[7],c[8],c[9]); run_seq(strtk::column_selector(cl,q),l,d,opt,q); } break;
   }
}

V_SECTION(parsing, 8000)
{
   const Str d = c.r.pick(std::vector<Str>({ ",", ",;", " \t", "|" })); Line l = line(c.r,d,c.r.chance(3,4)); l.tok = ref::strings(l.text,ref::tokens(l.text,d,ref::compress));
   const std::size_t n = 1 + c.r.below(12); const Cols k = columns(c.r,n,l.tok.size());
   c.context = vh::q(l.text) + " columns " + show(k);
   Row want; bool ok = l.tok.size() > k.back(); if (ok) for (std::size_t i = 0; ok && i < n; ++i) ok = want.set(i,l.tok[k[i]]);
   Row r; bool got; vh::Buf<char> b(l.text);
   switch (c.r.below(4))
   {
      case 0 : got = parse_range<const char*>(n,b.begin(),b.end(),d,k,c.r.flip(),r); break;
      case 1 : { vh::Buf<unsigned char> u(l.text); got = parse_range<const unsigned char*>(n,u.begin(),u.end(),d,k,c.r.flip(),r); } break;
      case 2 : got = parse_range<char*>(n,b.begin(),b.end(),d,k,c.r.flip(),r); break;
      default: got = parse_string(n,l.text,d,k,r);
   }
   V_EQ(got,ok,"verdict"); V_CHECK(r == want,"targets: " + r.show() + " expected " + want.show());
   c.event(ok ? "records_parsed" : l.tok.size() > k.back() ? "conversions_refused" : "short_records_refused",1); c.cover(c.context);
}

template <typename Seq> static void seq_case(vh::Case& c, const char* name, typename Seq::value_type init)
{
   const Str d = c.r.pick(std::vector<Str>({ ",", ",;", "|" })); Line l = line(c.r,d,true); l.tok = ref::strings(l.text,ref::tokens(l.text,d,ref::compress));
   const std::size_t n = 1 + c.r.below(12); const Cols k = columns(c.r,n,l.tok.size()); const std::size_t extra = c.r.below(3);
   c.context = Str(name) + " " + vh::q(l.text) + " columns " + show(k);
   Seq want(n + extra,init), got(n + extra,init); bool ok = l.tok.size() > k.back(); if (ok) for (std::size_t i = 0; ok && i < n; ++i) ok = conv(l.tok[k[i]],want[i]);
   vh::Buf<char> b(l.text);
   V_EQ(parse_seq(n,b.begin(),b.end(),c.r.flip(),d,k,got),ok,"verdict"); V_CHECK(got == want,"sequence elements");
   c.event(ok ? "sequences_parsed" : "sequences_refused",1); c.cover(c.context);
}
V_SECTION(sequences, 6000) { switch (c.r.below(4)) { case 0 : seq_case<std::vector<int> >(c,"vector<int>",-1); break; case 1 : seq_case<std::deque<Str> >(c,"deque<string>","o"); break; case 2 : seq_case<std::vector<unsigned short> >(c,"vector<ushort>",9); break; default : seq_case<std::deque<long long> >(c,"deque<long long>",-5); } }

V_SECTION(selectors, 8000)
{
   const Str d = c.r.pick(std::vector<Str>({ ",", ",;", " \t", "|" })); const unsigned opt = c.r.flip() ? 1 : 0; std::vector<Line> ls(1 + c.r.below(3)); const std::size_t n = 1 + c.r.below(12);
   c.context = "options " + vh::show(opt);
   for (Line& l : ls) { l = line(c.r,d,c.r.chance(3,4)); l.tok = ref::strings(l.text,ref::tokens(l.text,d,opt)); c.context += " " + vh::q(l.text); }
   const Cols k = columns(c.r,n,ls[0].tok.size()); const unsigned mode = static_cast<unsigned>(c.r.below(4)); c.context += " columns " + show(k) + " mode " + vh::show(mode);
   Row r; std::vector<Row> got; select(n,ls,d,opt,mode,k,r,got);
   Row m; for (std::size_t i = 0; i < ls.size(); ++i) { for (std::size_t j = 0; j < n; ++j) if (k[j] < ls[i].tok.size()) { const bool ok = m.set(j,ls[i].tok[k[j]]); c.event(ok ? "columns_selected" : "columns_refused",1); } else c.event("columns_absent",1); V_CHECK(got[i] == m,"after line " + vh::show(i) + ": " + got[i].show() + " expected " + m.show()); }
   c.cover(c.context);
}
template <typename Seq> static void selector_seq(vh::Case& c, const char* name, typename Seq::value_type init)
{
   const Str d = ","; const unsigned opt = c.r.flip() ? 1 : 0; Line l = line(c.r,d,true); l.tok = ref::strings(l.text,ref::tokens(l.text,d,opt));
   const std::size_t n = 2 + c.r.below(9); const Cols k = columns(c.r,n,l.tok.size()); const std::size_t size = n + c.r.below(3) - (c.r.chance(1,8) ? 1 : 0);
   c.context = Str(name) + " size " + vh::show(size) + " " + vh::q(l.text) + " columns " + show(k);
   Seq want(size,init), got(size,init); bool threw = false;
   try { select_seq(n,l,d,opt,k,got); } catch (const std::invalid_argument&) { threw = true; }
   V_EQ(threw,size < n,"too small a sequence is refused");
   if (!threw) { typename Seq::iterator w = want.begin(); for (std::size_t j = 0; j < n; ++j, ++w) if (k[j] < l.tok.size()) conv(l.tok[k[j]],*w); }
   V_CHECK(got == want,"sequence elements"); c.event(threw ? "small_sequences_refused" : "sequences_selected",1); c.cover(c.context);
}
V_SECTION(sequence_selectors, 5000) { switch (c.r.below(4)) { case 0 : selector_seq<std::vector<int> >(c,"vector<int>",-1); break; case 1 : selector_seq<std::deque<Str> >(c,"deque<string>","o"); break; case 2 : selector_seq<std::list<unsigned short> >(c,"list<ushort>",9); break; default : selector_seq<std::list<Str> >(c,"list<string>","q"); } }
// a selector made from a list on the spot keeps its columns for as long as it lives
V_SECTION(kept_selectors,4000)
{
   const std::size_t cols = 2 + c.r.below(8), lines = 1 + c.r.below(4); const std::size_t i = c.r.below(cols - 1), j = i + 1 + c.r.below(cols - i - 1); std::size_t k = j; if (j + 1 < cols) k = j + 1 + c.r.below(cols - j - 1);
   int a = -1, b = -1, d = -1; auto two = strtk::column_selector(strtk::column_list(i,j),a,b); auto one = strtk::column_selector(strtk::column_list(j),d); int x = -1, y = -1, z = -1; auto three = strtk::column_selector(strtk::column_list(i,j,k > j ? k : j),x,y,z); const bool has3 = k > j;
   for (std::size_t n = 0; n < lines; ++n)
   {
      std::vector<int> v; Str line; for (std::size_t q = 0; q < cols; ++q) { v.push_back(static_cast<int>(c.r.range(-99,99))); line += (q ? "," : "") + vh::show(v.back()); } c.context = line + " columns " + vh::show(i) + "," + vh::show(j) + "," + vh::show(k);
      two.reset(); one.reset(); three.reset();
      for (const auto& t : ref::tokens(line,",",0)) { const std::pair<const char*,const char*> p(line.data() + t.first,line.data() + t.second); *two = p; ++two; *one = p; ++one; if (has3) { *three = p; ++three; } }
      V_EQ(a,v[i],"first of two"); V_EQ(b,v[j],"second of two"); V_EQ(d,v[j],"only column"); if (has3) { V_EQ(x,v[i],"first of three"); V_EQ(y,v[j],"second of three"); V_EQ(z,v[k],"third of three"); }
      c.event("kept_selector_lines",1);
   }
   c.cover(c.context);
}
V_MAIN
