// N02: decimal reals are accepted exactly when well formed and converted accurately.
#include <strtk.hpp>
#include "vh.hpp"
#include "parse_common.hpp"

// well formed: [sign] (digits [. digits*] | . digits) [(e|E) [sign] digits]; other spellings are only judged when clearly malformed
struct Form { bool good; bool unspecified; std::size_t ip, fp; long exp; bool has_exp; bool zero_int, zero_frac; };

static Form classify(const std::string& text)
{
   const std::string s = !text.empty() && strchr("fFlL",text[text.size() - 1]) && text[text.size() - 1] ? text.substr(0,text.size() - 1) : text; // one type suffix
   Form f = Form(); std::size_t i = 0; f.zero_int = f.zero_frac = true;
   for (std::size_t k = 0; k < s.size(); ++k) if (strchr("#iInN",s[k]) && s[k]) { f.unspecified = true; return f; }
   if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
   std::size_t a = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (s[i] != '0') f.zero_int = false; ++i; } f.ip = i - a;
   if (i < s.size() && s[i] == '.') { ++i; a = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') { if (s[i] != '0') f.zero_frac = false; ++i; } f.fp = i - a; }
   if (!f.ip && !f.fp) return f;
   if (i == s.size()) { f.good = true; return f; }
   if (s[i] != 'e' && s[i] != 'E') return f;
   ++i; f.has_exp = true; bool neg = false; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; ++i; }
   a = i; while (i < s.size() && s[i] == '0') ++i; const std::size_t z = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
   if (i != s.size() || i == a) return f;
   if (i - z > (s.size() == text.size() ? 4u : 3u)) { f.unspecified = true; return f; }
   f.exp = atol(s.substr(z).c_str()); if (neg) f.exp = -f.exp;
   f.good = true; return f;
}

template <typename T> struct lim;
template <> struct lim<float>       { static float       ref(const char* s) { return strtof(s,0);  } static long double unit() { return FLT_EPSILON; } };
template <> struct lim<double>      { static double      ref(const char* s) { return strtod(s,0);  } static long double unit() { return DBL_EPSILON; } };
template <> struct lim<long double> { static long double ref(const char* s) { return strtold(s,0); } static long double unit() { return DBL_EPSILON; } }; // scaled through a table of doubles

template <typename T> static bool convert(const std::string& s, unsigned form, T& t)
{
   vh::Buf<char> b(s);
   switch (form)
   {
      case 0 : { const char* p = b.begin(); const char* e = b.end(); return strtk::string_to_type_converter(p,e,t); }
      case 1 : { const unsigned char* p = reinterpret_cast<unsigned char*>(b.begin()); const unsigned char* e = p + b.size(); return strtk::string_to_type_converter(p,e,t); }
      case 2 : return strtk::string_to_type_converter(s,t);
      case 3 : return strtk::string_to_type_converter(std::make_pair(s.begin(),s.end()),t);
      default: try { t = strtk::string_to_type_converter<T>(s); return true; } catch (const std::invalid_argument&) { return false; }
   }
}

static std::map<std::string,long double>& worst() { static VH_TLS std::map<std::string,long double> w; return w; }

template <typename T> static void judge(vh::Case& c, const std::string& s)
{
   const Form f = classify(s);
   const unsigned form = static_cast<unsigned>(c.r.below(5));
   c.context = "real size " + vh::show(sizeof(T)) + " form " + vh::show(form) + " text " + vh::q(s);
   T t = static_cast<T>(55.5);
   const bool ok = convert<T>(s,form,t);
   if (f.unspecified) { c.event("unspecified_forms"); return; }        // only memory safety is observed
   V_EQ(ok,f.good,"verdict");
   if (!s.empty()) c.cover(s + static_cast<char>('0' + sizeof(T)));
   if (!ok) { V_EQ(t,static_cast<T>(55.5),"refused target is untouched"); c.event("refused"); return; }
   c.event("accepted"); c.sample(c.context);
   const T ref = lim<T>::ref(s.c_str());
   c.context += " got " + vh::show(t) + " want " + vh::show(ref);
   if (ref == 0)
      V_CHECK(std::fabs(t) <= 4 * std::numeric_limits<T>::denorm_min(),"zero or underflow");
   else if (std::isinf(ref) || std::isinf(t))
   {
      // overflow: the neighbourhood of the largest value may round either way
      V_CHECK((ref > 0) == (t > 0),"sign of the overflow");
      V_CHECK(std::fabs(ref) >= std::numeric_limits<T>::max() * static_cast<T>(1 - 1e-6) && std::fabs(t) >= std::numeric_limits<T>::max() * static_cast<T>(1 - 1e-6),"overflow verdict");
      c.event("overflows");
   }
   else
   {
      // one rounding per accumulated digit beyond the exact ones plus a fixed number of scalings
      const std::size_t digits = f.ip + f.fp;
      const long double k = std::is_same<T,float>::value ? 1.01L : (8 + 2.0L * (digits > 15 ? digits - 15 : 0));
      const long double err = std::fabs(static_cast<long double>(t) - static_cast<long double>(ref));
      const long double tiny = 8 * static_cast<long double>(std::numeric_limits<T>::denorm_min());
      V_CHECK(err <= k * lim<T>::unit() * std::fabs(static_cast<long double>(ref)) + tiny,"accuracy: relative error " << err / std::fabs(static_cast<long double>(ref)));
      c.event("values_judged");
      if (err == 0) c.event("exact");
      long double& w = worst()[vh::show(sizeof(T))]; const long double u = err / (lim<T>::unit() * std::fabs(static_cast<long double>(ref)) + tiny) / k; if (u > w) w = u;
      if (getenv("VH_WORST")) { static long double lw[32]; if (u > lw[sizeof(T)]) { lw[sizeof(T)] = u; fprintf(stderr,"worst %zu %Lg %s\n",sizeof(T),u,c.context.c_str()); } }
   }
}

static std::string digs(vh::Rng& r, std::size_t n) { std::string s = r.str(n,"0123456789"); if (r.chance(1,8)) s = std::string(n,r.pick("09")); if (n > 3 && r.chance(1,6)) { for (std::size_t i = 0; i < n - 2; ++i) s[i] = '0'; } return s; }

static std::string good(vh::Rng& r, bool allow_exp = true)
{
   std::string s; switch (r.below(4)) { case 0 : s = "-"; break; case 1 : s = r.flip() ? "+" : ""; break; default : break; }
   const std::size_t ip = r.chance(1,12) ? r.below(60) : r.below(r.chance(1,3) ? 20 : 7);
   const std::size_t fp = r.chance(1,12) ? r.below(60) : r.below(r.chance(1,3) ? 20 : 7);
   s += digs(r,ip); const bool dot = fp || r.chance(1,4); if (dot) s += "." + digs(r,fp);
   if (!ip && !fp) s = "0";
   if (allow_exp && r.chance(1,2))
   {
      s += r.flip() ? 'e' : 'E'; switch (r.below(3)) { case 0 : s += '-'; break; case 1 : s += '+'; break; default : break; }
      s += std::string(r.chance(1,6) ? r.below(6) : 0,'0');
      long e; switch (r.below(7)) { case 0 : e = r.below(10); break; case 1 : e = 300 + r.below(40); break; case 2 : e = r.below(9999); break; case 3 : e = 30 + r.below(20); break; case 4 : e = 0; break; default : e = r.below(310); }
      s += std::to_string(e);
   }
   return s;
}

static std::string broken(vh::Rng& r)
{
   std::string s = good(r); const std::size_t p = r.below(s.size() + 1);
   switch (r.below(6))
   {
      case 0 : s.insert(p,1,r.pick(" x/:,;-+_\t.eEaz")); break;
      case 1 : if (p < s.size()) s[p] = static_cast<char>(r.next()); break;
      case 2 : s.resize(p); break;
      case 3 : s.insert(p,r.bytes(1 + r.below(2))); break;
      case 4 : if (p < s.size()) s[p] = static_cast<char>(s[p] | 0x80); break;
      default: { static const char* b[] = { "", "-", "+", ".", "-.", "+.", "e", "e5", ".e5", "1e", "1e+", "1e-", "1.5e", "--1", "+-1", "1..2", "1.2.3", "1e5.5", "1e5e5", "1 ", " 1", "0x10", "1,5", "1e 5" }; s = b[r.below(24)]; break; }
   }
   return s;
}

template <typename T> static void batch(vh::Case& c) { for (int i = 0; i < 30; ++i) judge<T>(c,c.r.chance(1,4) ? broken(c.r) : good(c.r)); }

V_SECTION(reals,3600)
{ switch (c.index % 3) { case 0 : batch<float>(c); break; case 1 : batch<double>(c); break; default : batch<long double>(c); } }

// every decimal exponent, both signs, several mantissas: the whole scaling table
V_SECTION(exponents,700)
{
   const int e = static_cast<int>(c.index % 700) - 350;
   static const char* m[] = { "1", "9.99999999999999", "-1.5", ".25", "123456789", "7e", "5" };
   for (int k = 0; k < 7; ++k) { const std::string s = std::string(m[k]) + (k == 5 ? "" : "e") + std::to_string(e); judge<double>(c,s); judge<long double>(c,s); judge<float>(c,s); c.event("table_exponents"); }
   if (e < 0) { const std::string s = "0." + std::string(static_cast<std::size_t>(-e % 250),'0') + "73"; judge<double>(c,s); judge<long double>(c,s); }
   if (e > 0 && e < 250) { const std::string s = "73" + std::string(static_cast<std::size_t>(e),'0'); judge<double>(c,s); judge<long double>(c,s); }
}

V_SECTION(short_strings,120)
{
   static const std::string al = "059.eE+-x\xB0";
   std::vector<std::string> all(1,"");
   for (std::size_t i = 0, n = 0; n < 4; ++n) { const std::size_t e = all.size(); for (; i < e; ++i) for (std::size_t k = 0; k < al.size(); ++k) all.push_back(all[i] + al[k]); }
   for (std::size_t i = c.index % 120; i < all.size(); i += 120) { judge<double>(c,all[i]); judge<float>(c,all[i]); c.event("short_strings"); }
}

// long inputs: memory safety and accuracy for many hundreds of digits
V_SECTION(long_texts,300)
{
   std::string s = c.r.flip() ? "-" : ""; const bool frac = c.r.flip();
   const std::size_t n = 60 + c.r.below(c.r.chance(1,8) ? 5000 : 500);
   std::string d = digs(c.r,n);
   if (frac) { s += digs(c.r,c.r.below(3)) + "." + d; } else { d.resize(std::min<std::size_t>(n,290)); s += d + (c.r.flip() ? "." : ""); }
   if (d.find_first_not_of('0') > 250) d[0] = '3', s = "0." + d;      // results below the normal range are not judged here
   c.event("long_texts");
   judge<double>(c,s);
}

V_SECTION(specials,64)
{
   static const char* names[] = { "inf", "INF", "infinity", "INFINITY", "nan", "NAN" };
   for (int k = 0; k < 6; ++k) for (int sg = 0; sg < 3; ++sg)
   {
      const std::string s = std::string(sg == 1 ? "-" : sg == 2 ? "+" : "") + names[k]; c.context = s;
      double d = 5; float f = 5; long double l = 5;
      const unsigned form = static_cast<unsigned>(c.r.below(5));
      V_CHECK(convert<double>(s,form,d) && convert<float>(s,form,f) && convert<long double>(s,form,l),"accepted");
      if (k < 4) V_CHECK(std::isinf(d) && std::isinf(f) && std::isinf(l) && (d < 0) == (sg == 1) && (f < 0) == (sg == 1) && (l < 0) == (sg == 1),"infinity with its sign");
      else V_CHECK(std::isnan(d) && std::isnan(f) && std::isnan(l),"not a number");
      // truncated or extended spellings are refused
      for (std::size_t n = 0; n <= strlen(names[k]) + 1; ++n)
      {
         std::string x = (n <= strlen(names[k])) ? s.substr(0,s.size() - strlen(names[k]) + n) : s + "x";
         if (n == strlen(names[k]) || (k > 1 && k < 4 && n == 3)) continue;
         double e = 5; c.context = x; V_CHECK(!convert<double>(x,form,e),"refused"); V_EQ(e,5.0,"untouched"); c.event("specials_refused");
      }
      c.cover(s); c.event("specials");
   }
}
// type suffixes and the spelled-out values of other runtimes ("1.5f", "-1.#INF", "1.#nan"): exactly these, and nothing near them
V_SECTION(suffixes,2500)
{
   std::string m = std::string(c.r.chance(1,3) ? "-" : c.r.chance(1,4) ? "+" : "") + c.r.str(1 + c.r.below(4),"0123456789"); const bool neg = m[0] == '-'; if (c.r.flip()) m += "." + c.r.str(c.r.below(4),"0123456789");
   const unsigned form = static_cast<unsigned>(c.r.below(5));
   {
      std::string e = m; if (c.r.chance(1,3)) e += std::string(1,c.r.pick("eE")) + (c.r.flip() ? "-" : "") + vh::show(c.r.below(9));
      const std::string s = e + std::string(1,c.r.pick("fFlL")); c.context = vh::q(s); double d = 55, want = 0; V_CHECK(convert<double>(s,form,d) && convert<double>(e,form,want),"a type suffix is accepted"); V_EQ(d,want,"value with a suffix"); c.event("suffixes"); c.cover(s);
      const std::string x = e + (c.r.flip() ? std::string(1,c.r.pick("gGkKmMxX%$ \t")) : std::string(1,c.r.pick("fFlL")) + c.r.pick("fFlL0 x")); c.context = vh::q(x); d = 55; V_CHECK(!convert<double>(x,form,d),"a wrong suffix is refused"); V_EQ(d,55.0,"untouched"); c.event("suffixes_refused");
   }
   static const char* words[] = { "INF", "inf", "INFINITY", "infinity", "NAN", "nan" }; const std::string w = words[c.r.below(6)], mark = c.r.flip() ? "#" : "", s = m + mark + w; c.context = vh::q(s); const bool inf = w[0] == 'I' || w[0] == 'i';
   double d = 55; float f = 55; V_CHECK(convert<double>(s,form,d) && convert<float>(s,form,f),"a spelled-out value is accepted"); if (inf) V_CHECK(std::isinf(d) && std::isinf(f) && (d < 0) == neg && (f < 0) == neg,"infinity with its sign"); else V_CHECK(std::isnan(d) && std::isnan(f),"not a number");
   c.event("spelled_out"); c.cover(s);
   for (int k = 0; k < 4; ++k)
   {
      std::string x = w; const std::size_t at = c.r.below(w.size());
      switch (c.r.below(5)) { case 0 : x[at] = static_cast<char>(x[at] ^ 32); break; case 1 : x.erase(at); break; case 2 : x.erase(at,1); break; case 3 : x.insert(at,1,c.r.pick("aAnNiIx#1 ")); break; default: x[at] = c.r.pick("abcjkmoqABCJKMOQ@`~# "); }
      bool valid = false; for (const char* y : words) if (x == y || x == std::string("#") + y) valid = true;
      if (valid || x.empty() || strchr("fFlLeE.0123456789",x[0])) continue;
      if (x[0] == '#' && mark.empty()) continue; // judged as a mark
      const std::string t = m + mark + x; c.context = vh::q(t); double e = 55; V_CHECK(!convert<double>(t,form,e),"a misspelled value is refused"); V_EQ(e,55.0,"untouched"); c.event("misspelled_refused");
   }
}
V_MAIN
