// T04: token consumers (expect/iexpect/like/inrange/trim/case/fill_array/truncated_int/decimal_sink/ignore_token)
// and token filters accept exactly what they describe and store exactly what they saw.
#include "ref.hpp"
#include <climits>
#include <cmath>
#include "strtk.hpp"

typedef std::pair<const char*,const char*> R;

static bool ref_match(const std::string& p, std::size_t i, const std::string& s, std::size_t j)
{
   std::vector<std::vector<char> > d(p.size() + 1,std::vector<char>(s.size() + 1,0));
   d[p.size()][s.size()] = 1;
   for (std::size_t a = p.size(); a-- > 0;)
      for (std::size_t b = s.size() + 1; b-- > 0;)
      {
         if (p[a] == '*') d[a][b] = d[a + 1][b] || (b < s.size() && d[a][b + 1]);
         else if (p[a] == '?') d[a][b] = d[a + 1][b] || (b < s.size() && d[a + 1][b + 1]);
         else d[a][b] = b < s.size() && p[a] == s[b] && d[a + 1][b + 1];
      }
   return d[i][j];
}
static char low(char ch) { return (ch >= 'A' && ch <= 'Z') ? static_cast<char>(ch + 32) : ch; }
static char upp(char ch) { return (ch >= 'a' && ch <= 'z') ? static_cast<char>(ch - 32) : ch; }
static std::string lows(std::string s) { for (auto& x : s) x = low(x); return s; }
static std::string upps(std::string s) { for (auto& x : s) x = upp(x); return s; }

static std::string token(vh::Rng& r, std::size_t max)
{
   static const std::string al[3] = { "aAbB", "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", "\x01\x20@[`{~zZaA\x7F" };
   return r.str(r.len(max),al[r.below(3)]);
}
static std::string mutate(vh::Rng& r, std::string s)
{
   switch (r.below(5))
   {
      case 0 : return s;
      case 1 : if (!s.empty()) s[r.below(s.size())] ^= 0x20; return s;
      case 2 : if (!s.empty()) s.erase(r.below(s.size()),1); return s;
      case 3 : s.insert(r.below(s.size() + 1),1,r.pick("abAB")); return s;
      default: for (auto& x : s) if (r.flip()) x = r.flip() ? low(x) : upp(x); return s;
   }
}

V_SECTION(expectations, 40000)
{
   const std::string want = token(c.r,14);
   const std::string got  = mutate(c.r,want);
   vh::Buf<char> b(got);
   const char* p = b.begin(); const char* e = b.end();
   c.context = "want=" + vh::q(want) + " got=" + vh::q(got);
   strtk::details::expect_impl ex = strtk::expect(want);
   strtk::details::iexpect_impl ix = strtk::iexpect(want);
   V_EQ(ex(p,e),want == got,"expect");
   V_EQ(ix(p,e),lows(want) == lows(got),"iexpect");
   V_EQ(strtk::string_to_type_converter(p,e,ex.ref()),want == got,"expect via converter");
   V_EQ(strtk::string_to_type_converter(p,e,ix.ref()),lows(want) == lows(got),"iexpect via converter");
   const std::string other = c.r.flip() ? got : token(c.r,5);
   ex.set_value(other); ix.set_value(other);
   V_EQ(ex(p,e),other == got,"expect after set_value " << other);
   V_EQ(ix(p,e),lows(other) == lows(got),"iexpect after set_value " << other);
   // case conversion sinks replace the whole previous content
   std::string lo = token(c.r,6), up = token(c.r,6);
   V_CHECK(strtk::as_lcase(lo)(p,e),"as_lcase"); V_EQ(lo,lows(got),"as_lcase value");
   V_CHECK(strtk::as_ucase(up)(p,e),"as_ucase"); V_EQ(up,upps(got),"as_ucase value");
   c.event("expectations_judged",6);
   if (!got.empty()) c.cover(want + "|" + got);
}

V_SECTION(like_pattern, 30000)
{
   const std::string s = c.r.str(c.r.len(10),"aab");
   std::string pat = c.r.flip() ? s : c.r.str(c.r.len(7),"ab*?");
   for (std::size_t k = c.r.below(4); k-- > 0;)
   {
      if (c.r.flip() && !pat.empty()) pat[c.r.below(pat.size())] = c.r.pick("*?ab");
      else pat.insert(c.r.below(pat.size() + 1),1,c.r.pick("*?"));
   }
   vh::Buf<char> b(s);
   const char* p = b.begin(); const char* e = b.end();
   c.context = "pattern=" + vh::q(pat) + " text=" + vh::q(s);
   const bool want = ref_match(pat,0,s,0);
   V_EQ(strtk::like(pat)(p,e),want,"like");
   strtk::details::like_impl lk = strtk::like("zzz");
   lk.set_pattern(pat);
   V_EQ(strtk::string_to_type_converter(p,e,lk.ref()),want,"like via converter");
   // the same pattern through the wildcard filter, both polarities, both call forms
   for (int allow = 0; allow < 2; ++allow)
   {
      std::vector<std::string> out;
      auto sink = [&](const R& x) { out.push_back(std::string(x.first,x.second)); };
      strtk::filter_on_wildcard_match<decltype(sink)> f(pat,sink,allow != 0);
      // the filter compares iterators of one type; give it std::string iterators as its callers do
      std::vector<std::string> out2;
      struct SS { std::vector<std::string>* o; void operator()(const std::string& x) const { o->push_back(x); }
                  void operator()(const std::pair<std::string::const_iterator,std::string::const_iterator>& x) const { o->push_back(std::string(x.first,x.second)); } } ss = { &out2 };
      strtk::filter_on_wildcard_match<SS> g(pat,ss,allow != 0);
      g(s);
      V_EQ(out2.size(),static_cast<std::size_t>(want == (allow != 0)),"filter_on_wildcard_match(string) allow=" << allow);
      g(std::make_pair(s.begin(),s.end()));
      V_EQ(out2.size(),static_cast<std::size_t>(2 * (want == (allow != 0))),"filter_on_wildcard_match(range) allow=" << allow);
      for (auto& x : out2) V_EQ(x,s,"passed token");
   }
   c.event("patterns_judged");
   c.event(want ? "pattern_hits" : "pattern_misses");
   if (!s.empty() && !pat.empty()) c.cover(pat + "|" + s);
}

template <typename T>
static void range_case(vh::Case& c, T lo, T hi, T v, const std::string& text)
{
   vh::Buf<char> b(text);
   const char* p = b.begin(); const char* e = b.end();
   const T old = static_cast<T>(77);
   T t = old;
   std::ostringstream ctx; ctx << "low=" << lo << " hi=" << hi << " text=" << text; c.context = ctx.str();
   const bool want = lo <= v && v <= hi;
   V_EQ(strtk::inrange(t,lo,hi)(p,e),want,"inrange");
   V_EQ(t,want ? v : old,"target after inrange");
   t = old;
   strtk::details::inrange_impl<T> r = strtk::inrange(t,T(1),T(0));
   V_CHECK(!r(p,e),"empty range accepts nothing"); V_EQ(t,old,"target kept");
   r.set_low_hi(lo,hi);
   V_EQ(strtk::string_to_type_converter(p,e,r.ref()),want,"inrange after set_low_hi");
   V_EQ(t,want ? v : old,"target after set_low_hi");
   const std::string bad = text + "x";
   t = old; vh::Buf<char> bb(bad);
   V_CHECK(!strtk::inrange(t,lo,hi)(const_cast<const char*>(bb.begin()),const_cast<const char*>(bb.end())),"inrange on malformed token");
   V_EQ(t,old,"target kept on malformed token");
   c.event("ranges_judged",3);
   c.cover(ctx.str());
}

V_SECTION(in_range, 20000)
{
   long long lo = c.r.range(-1000,1000), hi = lo + c.r.range(-2,200);
   if (c.r.chance(1,4)) { lo = INT_MIN; } if (c.r.chance(1,4)) hi = INT_MAX;
   long long v;
   switch (c.r.below(4)) { case 0 : v = lo - (lo > INT_MIN) ; break; case 1 : v = lo; break; case 2 : v = hi; break; default : v = hi + (hi < INT_MAX); }
   if (c.r.chance(1,4)) v = c.r.range(-2000,2000);
   range_case<int>(c,static_cast<int>(lo),static_cast<int>(hi),static_cast<int>(v),std::to_string(v));
   range_case<long long>(c,lo * 4000000000LL,hi * 4000000000LL,v * 4000000000LL,std::to_string(v * 4000000000LL));
   if (lo >= 0 && v >= 0 && hi >= 0) range_case<unsigned int>(c,static_cast<unsigned>(lo),static_cast<unsigned>(hi),static_cast<unsigned>(v),std::to_string(v));
   // quarters are exact in binary and in the conversion
   const double q = static_cast<double>(c.r.range(-400,400)) / 4, ql = static_cast<double>(c.r.range(-400,400)) / 4, qh = ql + static_cast<double>(c.r.range(0,100)) / 4;
   std::ostringstream o; o << q;
   range_case<double>(c,ql,qh,q,o.str());
   const std::string sl = token(c.r,3), sh = token(c.r,3), sv = token(c.r,3);
   if (!sv.empty())
   {
      vh::Buf<char> b(sv); std::string t = "old";
      const bool want = !(sv < sl) && !(sv > sh);
      V_EQ(strtk::inrange(t,sl,sh)(const_cast<const char*>(b.begin()),const_cast<const char*>(b.end())),want,"string inrange " << sl << " " << sh << " " << sv);
      V_EQ(t,want ? sv : std::string("old"),"string target");
   }
}

V_SECTION(trims, 30000)
{
   const std::string set = c.r.flip() ? std::string(" ") : c.r.str(1 + c.r.below(3)," _\t*");
   std::string core = c.r.str(c.r.len(8),"abc _");
   std::string s = c.r.str(c.r.len(4),set + "  ") + core + c.r.str(c.r.len(4),set + " ");
   vh::Buf<char> b(s);
   const char* p = b.begin(); const char* e = b.end();
   c.context = "set=" + vh::q(set) + " text=" + vh::q(s);
   if (s.empty()) return;
   const std::size_t f = s.find_first_not_of(set), l = s.find_last_not_of(set);
   const std::string lead = f == std::string::npos ? "" : s.substr(f), trail = f == std::string::npos ? "" : s.substr(0,l + 1);
   const std::string both = f == std::string::npos ? "" : s.substr(f,l - f + 1);
   std::string o1 = "junk", o2 = "junk", o3 = "junk";
   V_CHECK(strtk::trim(set,o1)(p,e),"trim"); V_EQ(o1,both,"trim");
   V_CHECK(strtk::trim_leading(set,o2)(p,e),"trim_leading"); V_EQ(o2,lead,"trim_leading");
   V_CHECK(strtk::trim_trailing(set,o3)(p,e),"trim_trailing"); V_EQ(o3,trail,"trim_trailing");
   // numbers behind padding
   const int v = static_cast<int>(c.r.range(-100000,100000));
   const std::string padl = c.r.str(c.r.len(3),"_ "), padr = c.r.str(c.r.len(3),"_ ");
   const std::string ns = padl + std::to_string(v) + padr;
   vh::Buf<char> nb(ns); const char* np = nb.begin(); const char* ne = nb.end();
   int t = 5;
   V_CHECK(strtk::trim("_ ",t)(np,ne),"trim int " << ns); V_EQ(t,v,"trim int " << ns);
   t = 5; V_EQ(strtk::trim_leading("_ ",t)(np,ne),padr.empty(),"trim_leading int " << ns); if (padr.empty()) V_EQ(t,v,"trim_leading int " << ns);
   t = 5; V_EQ(strtk::trim_trailing("_ ",t).ref()(np,ne),padl.empty(),"trim_trailing int " << ns); if (padl.empty()) V_EQ(t,v,"trim_trailing int " << ns);
   c.event("trims_judged",6);
   c.cover(set + "|" + s);
}

V_SECTION(fill, 20000)
{
   const std::string s = c.r.bytes(c.r.len(20));
   const std::size_t n = c.r.chance(3,4) ? s.size() : c.r.below(22);
   vh::Buf<char> b(s); const char* p = b.begin(); const char* e = b.end();
   vh::Buf<unsigned char> dst(n,0x5A);
   const std::string before = dst.str();
   c.context = "n=" + vh::show(n) + " text=" + vh::q(s);
   V_EQ(strtk::fill_array(dst.begin(),n)(p,e),n == s.size(),"fill_array");
   V_EQ(dst.str(),n == s.size() ? s : before,"array content");
   vh::Buf<char> d2(n,0x11);
   strtk::details::fill_array_impl fa = strtk::fill_array(reinterpret_cast<unsigned char*>(dst.begin()),0);
   fa.set_data(d2.begin()).set_size(n);
   V_EQ(strtk::string_to_type_converter(p,e,fa.ref()),n == s.size(),"fill_array via set");
   V_EQ(d2.str(),n == s.size() ? s : std::string(n,0x11),"array content via set");
   std::string str(n,'#');
   V_EQ(strtk::fill_array(str)(p,e),n == s.size(),"fill_array(string)");
   V_EQ(str,n == s.size() ? s : std::string(n,'#'),"string content");
   unsigned char fixed[6]; memset(fixed,7,6);
   V_EQ(strtk::fill_array(fixed)(p,e),s.size() == 6,"fill_array(T[6])");
   V_EQ(std::string(reinterpret_cast<char*>(fixed),6),s.size() == 6 ? s : std::string(6,7),"fixed array content");
   {
      vh::Buf<unsigned char> u(n,0x22); vh::Buf<char> v(n,0x33); unsigned char* up = u.begin(); char* vp = v.begin(); const bool ok = n == s.size();
      strtk::details::fill_array_impl fb = strtk::fill_array(vp,0);
      V_EQ(fb.set(up,n)(p,e),ok,"fill_array set(unsigned char*)"); V_EQ(u.str(),ok ? s : std::string(n,0x22),"content after set(unsigned char*)");
      fb.set_size(n + 1); V_EQ(fb.set(vp,n)(p,e),ok,"fill_array set(char*)"); V_EQ(v.str(),ok ? s : std::string(n,0x33),"content after set(char*)");
      vh::Buf<unsigned char> w(n,0x44); V_EQ(fb.set_data(w.begin())(p,e),ok,"fill_array set_data(unsigned char*)"); V_EQ(w.str(),ok ? s : std::string(n,0x44),"content after set_data");
      V_EQ(u.str() + v.str(),ok ? s + s : std::string(n,0x22) + std::string(n,0x33),"earlier targets stay as they were");
      std::string part(n + 3,'#'); V_EQ(strtk::fill_array(part,n)(p,e),ok,"fill_array(string,size)"); V_EQ(part,(ok ? s : std::string(n,'#')) + "###","the first n characters of the string");
      char six[6]; memset(six,7,6); V_EQ(strtk::fill_array(six)(p,e),s.size() == 6,"fill_array(char[6])"); V_EQ(std::string(six,6),s.size() == 6 ? s : std::string(6,7),"fixed char array content");
   }
   c.event("fills_judged",9);
   if (n) c.cover(s + vh::show(n));
}

V_SECTION(truncated, 20000)
{
   const int v = static_cast<int>(c.r.flip() ? c.r.range(-1000,1000) : c.r.range(INT_MIN,INT_MAX));
   const std::string frac = c.r.str(c.r.len(8),"0123456789");
   const bool dot = c.r.chance(3,4);
   const std::string s = std::to_string(v) + (dot ? "." + frac : "");
   vh::Buf<char> b(s); const char* p = b.begin(); const char* e = b.end();
   c.context = "text=" + s;
   int t = 1;
   strtk::truncated_int<int> ti;
   V_CHECK(!ti(p,e),"no target bound");
   V_CHECK(ti(t)(p,e),"truncated_int"); V_EQ(t,v,"truncated_int value");
   if (dot)
   {
      t = 1;
      V_CHECK(strtk::string_to_type_converter(p,e,ti.fractional_size(frac.size())(t)),"known fraction size"); V_EQ(t,v,"known fraction size");
      t = 1;
      V_CHECK(ti.fractional_unknown_size()(t)(p,e),"unknown size again"); V_EQ(t,v,"unknown size again");
   }
   else
   {
      ti.fractional_size(c.r.below(6)).fractional_unknown_size();
      t = 1; V_CHECK(ti(t)(p,e),"unknown size set back"); V_EQ(t,v,"unknown size set back");
      const std::string other = std::to_string(v / 7) + "." + c.r.str(c.r.len(9),"0123456789");
      t = 1; V_CHECK(ti.fractional_size(c.r.below(6)).fractional_unknown_size()(t)(other.data(),other.data() + other.size()),"unknown size, other text"); V_EQ(t,v / 7,"unknown size, other text");
   }
   t = 1;
   const std::size_t big = s.size() + c.r.below(3);
   strtk::truncated_int<int> tb; tb.fractional_size(big)(t);
   V_CHECK(!tb(p,e),"fraction longer than the token"); V_EQ(t,1,"target kept");
   c.event("truncations_judged",3);
   c.cover(s);
}

// decimal_sink: fixed-point text; values are chosen so that the exact result is a double
V_SECTION(decimals, 30000)
{
   const std::size_t is = 1 + c.r.below(8), fs = c.r.below(6);
   const bool neg = c.r.chance(1,3), plus = !neg && c.r.chance(1,5), dot = c.r.chance(3,4);
   const std::string ip = c.r.str(c.r.len(9),"0123456789"), fp = dot ? c.r.str(c.r.len(7),"0123456789") : "";
   const std::string s = std::string(neg ? "-" : plus ? "+" : "") + ip + (dot ? "." : "") + fp;
   if (s.empty() || s == "-" || s == "+")
   {
      vh::Buf<char> none(s); double d = 0.5; strtk::decimal_sink<double> ds(d,is,fs); c.context = "text=" + s;
      V_CHECK(!ds(const_cast<const char*>(none.begin()),const_cast<const char*>(none.end())),"no digits at all"); V_EQ(d,0.5,"target kept"); return;
   }
   if (ip.empty() && fp.empty()) return;
   const std::size_t z = ip.find_first_not_of('0');
   const std::string sig = z == std::string::npos ? "" : ip.substr(z);
   const std::string fu = fp.substr(0,fs);
   const bool want = sig.size() <= is;
   const std::string canon = (sig.empty() ? "0" : sig) + (fu.empty() ? "" : "." + fu);
   const double v = strtod(canon.c_str(),0) * (neg ? -1 : 1);
   vh::Buf<char> b(s); const char* p = b.begin(); const char* e = b.end();
   c.context = "text=" + s + " int=" + vh::show(is) + " frac=" + vh::show(fs);
   double d = 0.5;
   strtk::decimal_sink<double> ds(d,is,fs);
   V_EQ(ds(p,e),want,"decimal_sink accepts");
   if (want) V_CHECK(std::abs(d - v) <= 1e-12 * (1 + std::abs(v)),"decimal_sink value " << d << " want " << v);
   else V_EQ(d,0.5,"target kept");
   float f = 0.5f;
   strtk::decimal_sink<float> df(3,1);
   V_CHECK(!df(p,e),"no target bound");
   V_EQ(strtk::string_to_type_converter(p,e,df.int_size(is).frac_size(fs)(f)),want,"decimal_sink<float>");
   if (want) V_CHECK(std::abs(f - v) <= 1e-5 * (1 + std::abs(v)),"decimal_sink<float> value " << f << " want " << v);
   if (ip.empty()) { c.event("decimals_judged",3); c.cover(c.context); return; }
   // a foreign character among the consumed digits is refused
   std::string badtext = s; const std::size_t pos = (neg || plus) + c.r.below(ip.size());
   badtext[pos] = c.r.pick(pos ? "x,:/ -;\xB0\x80" : "x,:/ ;\xB0\x80");
   vh::Buf<char> bb(badtext); d = 0.5;
   V_CHECK(!ds(const_cast<const char*>(bb.begin()),const_cast<const char*>(bb.end())),"malformed integer part " << badtext);
   V_EQ(d,0.5,"target kept");
   if (want && !fu.empty())
   {
      badtext = s; badtext[s.size() - fp.size() + c.r.below(fu.size())] = c.r.pick(":/x.- \xB0;");
      vh::Buf<char> bf(badtext); d = 0.5;
      V_CHECK(!ds(const_cast<const char*>(bf.begin()),const_cast<const char*>(bf.end())),"malformed fraction " << vh::q(badtext)); V_EQ(d,0.5,"target kept"); c.event("fractions_refused",1);
   }
   c.event("decimals_judged",3);
   c.cover(c.context);
}

template <typename It> struct Collect { std::vector<std::string>* o; void operator()(const std::pair<It,It>& x) const { o->push_back(std::string(x.first,x.second)); }
                  void operator()(const std::string& x) const { o->push_back(x); } };

V_SECTION(filters, 20000)
{
   const std::string delims = ",;";
   const std::string text = ref::delimited(c.r,40,delims,"aAbB");
   c.context = "text=" + vh::q(text);
   const std::vector<std::string> toks = ref::strings(text,ref::tokens(text,delims,0));
   std::vector<std::string> words;
   for (std::size_t n = c.r.below(4); n-- > 0;) words.push_back(c.r.flip() && !toks.empty() ? mutate(c.r,c.r.pick(toks)) : c.r.str(c.r.len(3),"aAbB"));
   vh::Buf<char> b(text); const char* p = b.begin(); const char* e = b.end();
   std::vector<R> ranges;
   strtk::split(strtk::multiple_char_delimiter_predicate(delims),p,e,vh::into(ranges));
   V_EQ(ranges.size(),toks.size(),"ranges");
   for (int ci = 0; ci < 2; ++ci)
      for (int allow = 0; allow < 2; ++allow)
      {
         std::vector<std::string> want, got, got2;
         for (auto& t : toks)
         {
            bool m = false;
            for (auto& w : words) m = m || (ci ? lows(w) == lows(t) : w == t);
            if (m == (allow != 0)) want.push_back(t);
         }
         Collect<const char*> col = { &got }, col2 = { &got2 };
         const std::string* wb = words.empty() ? 0 : &words[0];
         strtk::filter_on_match<Collect<const char*> > f(wb,wb + words.size(),col,ci != 0,allow != 0);
         strtk::filter_on_match<Collect<const char*> > f2(wb,wb + words.size(),col2,ci != 0,allow != 0);
         for (auto& r : ranges) f(r);
         for (auto& t : toks) f2(t);
         V_EQ(got,want,"filter_on_match ranges ci=" << ci << " allow=" << allow << " words=" << vh::show(words));
         V_EQ(got2,want,"filter_on_match strings ci=" << ci << " allow=" << allow << " words=" << vh::show(words));
         c.event("filter_runs",2);
      }
   std::vector<R> ne;
   strtk::filter_non_empty_range<vh::into_iterator<std::vector<R> > > fn(vh::into(ne));
   for (auto& r : ranges) fn(r);
   std::vector<R> expect;
   for (auto& r : ranges) if (r.first != r.second) expect.push_back(r);
   V_CHECK(ne == expect,"filter_non_empty_range");
   for (auto& r : ranges)
   {
      const std::size_t n = r.second - r.first;
      V_EQ(strtk::empty_range()(r.first,r.second),n == 0,"empty_range"); V_EQ(strtk::nonempty_range()(r.first,r.second),n != 0,"nonempty_range");
      V_EQ(strtk::size_equal_to<2>()(r),n == 2,"size_equal_to"); V_EQ(strtk::size_equal_to<2>()(r.first,r.second),n == 2,"size_equal_to");
      V_EQ(strtk::size_less_than<2>()(r),n < 2,"size_less_than"); V_EQ(strtk::size_less_than<2>()(r.first,r.second),n < 2,"size_less_than");
      V_EQ(strtk::size_greater_than<2>()(r),n > 2,"size_greater_than"); V_EQ(strtk::size_greater_than<2>()(r.first,r.second),n > 2,"size_greater_than");
      V_EQ(strtk::size_is_even()(r),n % 2 == 0,"size_is_even"); V_EQ(strtk::size_is_even()(r.first,r.second),n % 2 == 0,"size_is_even");
      V_EQ(strtk::size_is_odd()(r),n % 2 == 1,"size_is_odd"); V_EQ(strtk::size_is_odd()(r.first,r.second),n % 2 == 1,"size_is_odd");
      const std::string s(r.first,r.second); const std::vector<char> v(r.first,r.second); const std::multiset<char> ms(r.first,r.second); const std::set<char> st(r.first,r.second);
      V_EQ(strtk::size_equal_to<3>()(s),n == 3,"string"); V_EQ(strtk::size_equal_to<3>()(v),n == 3,"vector"); V_EQ(strtk::size_equal_to<3>()(ms),n == 3,"multiset"); V_EQ(strtk::size_equal_to<2>()(st),st.size() == 2,"set");
      V_EQ(strtk::size_less_than<3>()(s),n < 3,"string"); V_EQ(strtk::size_less_than<3>()(v),n < 3,"vector"); V_EQ(strtk::size_less_than<3>()(ms),n < 3,"multiset"); V_EQ(strtk::size_less_than<2>()(st),st.size() < 2,"set");
      V_EQ(strtk::size_greater_than<3>()(s),n > 3,"string"); V_EQ(strtk::size_greater_than<3>()(v),n > 3,"vector"); V_EQ(strtk::size_greater_than<3>()(ms),n > 3,"multiset"); V_EQ(strtk::size_greater_than<1>()(st),st.size() > 1,"set");
      V_EQ(strtk::size_is_even()(s),n % 2 == 0,"string"); V_EQ(strtk::size_is_even()(v),n % 2 == 0,"vector"); V_EQ(strtk::size_is_even()(ms),n % 2 == 0,"multiset"); V_EQ(strtk::size_is_even()(st),st.size() % 2 == 0,"set");
      V_EQ(strtk::size_is_odd()(s),n % 2 == 1,"string"); V_EQ(strtk::size_is_odd()(v),n % 2 == 1,"vector"); V_EQ(strtk::size_is_odd()(ms),n % 2 == 1,"multiset"); V_EQ(strtk::size_is_odd()(st),st.size() % 2 == 1,"set");
   }
   const char* it = p;
   strtk::skip_while_matching(it,e,strtk::multiple_char_delimiter_predicate(delims));
   std::size_t skip = text.find_first_not_of(delims); if (skip == std::string::npos) skip = text.size();
   V_EQ(static_cast<std::size_t>(it - p),skip,"skip_while_matching");
   if (!text.empty()) c.cover(text + vh::show(words));
}

// a whole record parsed through consumers: succeeds exactly when every consumer accepts its token
V_SECTION(consumers_in_parse, 20000)
{
   const int v = static_cast<int>(c.r.range(-50,50)), lo = static_cast<int>(c.r.range(-50,50)), hi = lo + static_cast<int>(c.r.below(60));
   const std::string tag = c.r.str(1 + c.r.below(4),"aAb"), got = mutate(c.r,tag.empty() ? "q" : tag), word = c.r.str(1 + c.r.below(5),"aZ_");
   std::string f0 = got; for (auto& x : f0) if (x == '|') x = 'p';
   const std::string real = tag.empty() ? "q" : tag;
   if (f0.empty()) f0 = "k";
   const std::string line = f0 + "|" + std::to_string(v) + "|ignored|" + word + "|" + word + "|" + std::to_string(v) + ".75";
   c.context = "line=" + vh::q(line) + " tag=" + vh::q(real) + " lo=" + vh::show(lo) + " hi=" + vh::show(hi);
   int ranged = 1000, trunc = 1000; std::string lc, trimmed; strtk::ignore_token ig;
   strtk::truncated_int<int> ti;
   const bool ok = strtk::parse(line,"|",strtk::iexpect(real).ref(),strtk::inrange(ranged,lo,hi).ref(),ig,strtk::as_lcase(lc).ref(),strtk::trim("_",trimmed).ref(),ti(trunc));
   const bool w0 = lows(f0) == lows(real), w1 = lo <= v && v <= hi;
   V_EQ(ok,w0 && w1,"parse result");
   if (ok)
   {
      V_EQ(ranged,v,"ranged"); V_EQ(lc,lows(word),"lcase"); V_EQ(trunc,v,"truncated");
      const std::size_t f = word.find_first_not_of('_'), l = word.find_last_not_of('_');
      V_EQ(trimmed,f == std::string::npos ? std::string() : word.substr(f,l - f + 1),"trimmed");
   }
   else V_EQ(ranged,(w0 && w1) ? v : 1000,"target of a refused token is untouched");
   c.event(ok ? "records_accepted" : "records_refused");
   c.cover(c.context);
}
V_MAIN
