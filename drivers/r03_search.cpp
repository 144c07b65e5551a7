// R03: searching, case-insensitive comparison, prefixes and suffixes, and the string object built on them
#include "ref.hpp"
#include <memory>
#include <list>
#include <deque>
#include <set>
#include "strtk.hpp"
typedef std::string Str;
static char lc(char ch) { return ch >= 'A' && ch <= 'Z' ? static_cast<char>(ch - 'A' + 'a') : ch; }
static char uc(char ch) { return ch >= 'a' && ch <= 'z' ? static_cast<char>(ch - 'a' + 'A') : ch; }
static Str low(Str s) { for (char& ch : s) ch = lc(ch); return s; }
static Str mix(vh::Rng& r, Str s) { for (char& ch : s) if (r.chance(1,3)) ch = r.flip() ? uc(ch) : lc(ch); return s; }
typedef std::vector<std::size_t> Pos;
static Pos occurrences(const Str& p, const Str& d) { Pos r; if (!p.empty()) for (std::size_t i = 0; i + p.size() <= d.size();) if (d.compare(i,p.size(),p) == 0) { r.push_back(i); i += p.size(); } else ++i; return r; }
static const char* const als[] = { "ab", "abAB", "aZz@[`{9", "\xC0\xE0\x80\xFF" "aA", "a" };

V_SECTION(compare, 20000)
{
   const Str al = als[c.r.below(5)];
   const Str a = c.r.str(c.r.len(12),al), b = c.r.chance(2,3) ? mix(c.r,a) : c.r.str(c.r.len(12),al);
   Str m = b; if (!m.empty() && c.r.chance(1,3)) m[c.r.below(m.size())] ^= 0x20;
   c.context = "a=" + vh::q(a) + " b=" + vh::q(m);
   const bool want = low(a) == low(m);
   vh::Buf<char> x(a), y(m); const char *xb = x.begin(), *xe = x.end(), *yb = y.begin(), *ye = y.end();
   V_EQ(strtk::imatch(a,m),want,"imatch(string,string)"); V_EQ(strtk::imatch(xb,xe,yb,ye),want,"imatch(range,range)");
   V_EQ(strtk::imatch(m,a),want,"imatch is symmetric");
   { strtk::range::adapter<char> p(x.begin(),x.end()), q(y.begin(),y.end()); V_EQ(strtk::imatch(p,q),want,"imatch(adapter)"); }
   V_EQ(strtk::imatch(a.cbegin(),a.cend(),m.cbegin(),m.cend()),want,"imatch(string iterators)");
   V_EQ(strtk::ext_string(a).imatch(m),want,"ext_string::imatch(string)"); V_EQ(strtk::ext_string(a).imatch(strtk::ext_string(m)),want,"ext_string::imatch");
   // membership
   std::vector<Str> v; const std::size_t n = c.r.below(5); for (std::size_t i = 0; i < n; ++i) v.push_back(c.r.chance(1,3) ? mix(c.r,a) : c.r.str(c.r.len(4),al));
   std::size_t first = n; for (std::size_t i = n; i-- > 0;) if (low(v[i]) == low(a)) first = i;
   std::unique_ptr<Str[]> arr(new Str[n]); std::copy(v.begin(),v.end(),arr.get());
   const Str* ab = arr.get();
   V_EQ(static_cast<std::size_t>(strtk::imatch(a,ab,ab + n) - ab),first,"imatch(string, array)");
   V_EQ(static_cast<std::size_t>(strtk::imatch(a,v.begin(),v.end()) - v.begin()),first,"imatch(string, iterators)");
   V_EQ(strtk::imatch(a,v),first != n,"imatch(string, vector)"); V_EQ(strtk::imatch(a,std::deque<Str>(v.begin(),v.end())),first != n,"imatch(string, deque)");
   V_EQ(strtk::imatch(a,std::list<Str>(v.begin(),v.end())),first != n,"imatch(string, list)");
   V_EQ(strtk::imatch(a,std::set<Str>(v.begin(),v.end())),first != n,"imatch(string, set)"); V_EQ(strtk::imatch(a,std::multiset<Str>(v.begin(),v.end())),first != n,"imatch(string, multiset)");
   c.event(want ? "equal_pairs" : "unequal_pairs",7); c.event(first != n ? "members" : "non_members",7);
   if (!a.empty()) c.cover(c.context);
}

V_SECTION(find, 20000)
{
   const Str al = als[c.r.below(5)];
   const Str d = c.r.str(c.r.len(30),al);
   Str p = (!d.empty() && c.r.chance(2,3)) ? d.substr(c.r.below(d.size()),1 + c.r.below(5)) : c.r.str(c.r.len(5),al);
   if (c.r.chance(1,3)) p = mix(c.r,p);
   c.context = "pattern=" + vh::q(p) + " data=" + vh::q(d);
   vh::Buf<char> bp(p), bd(d); const char *pb = bp.begin(), *pe = bp.end(), *db = bd.begin(), *de = bd.end();
   for (int ci = 0; ci < 2; ++ci)
   {
      const Pos want = ci ? occurrences(low(p),low(d)) : occurrences(p,d);
      typedef std::pair<const char*,const char*> R;
      std::vector<R> got; std::size_t k = ci ? strtk::ifind_all(pb,pe,db,de,vh::into(got)) : strtk::find_all(pb,pe,db,de,vh::into(got));
      V_EQ(k,want.size(),"find_all(range) count"); V_EQ(got.size(),want.size(),"find_all(range) matches");
      for (std::size_t i = 0; i < got.size(); ++i) V_CHECK(got[i].first == db + want[i] && got[i].second == got[i].first + p.size(),"find_all(range) match #" + vh::show(i));
      const char* sb = d.data();
      std::vector<R> g2; k = ci ? strtk::ifind_all(p,d,vh::into(g2)) : strtk::find_all(p,d,vh::into(g2));
      std::deque<R> g3; const std::size_t k3 = ci ? strtk::ifind_all(p,d,g3) : strtk::find_all(p,d,g3);
      V_CHECK(k == want.size() && k3 == k && g2.size() == k && g3.size() == k,"find_all(string) count");
      for (std::size_t i = 0; i < k; ++i) V_CHECK(g2[i].first == sb + want[i] && g2[i].second == g2[i].first + p.size() && g3[i] == g2[i],"find_all(string) match #" + vh::show(i));
      if (!ci) { std::vector<R> g4; strtk::find_all(pb,pe,db,de,g4); V_CHECK(g4 == got,"find_all(range into sequence)"); }
      c.event(want.empty() ? "absent" : "occurrences",want.empty() ? 1 : want.size());
   }
   if (!p.empty())
   {
      const Pos w = occurrences(p,d), iw = occurrences(low(p),low(d));
      V_EQ(strtk::index_of(p,d),w.empty() ? Str::npos : w[0],"index_of"); V_EQ(strtk::ifind(p,d),iw.empty() ? Str::npos : iw[0],"ifind");
      c.event("positions",2);
   }
   else V_EQ(strtk::index_of(p,d),Str::npos,"index_of empty pattern");
   if (!d.empty()) c.cover(c.context);
}

V_SECTION(ends, 20000)
{
   const Str al = als[c.r.below(5)];
   const Str d = c.r.str(c.r.len(14),al);
   Str p; const std::size_t n = c.r.below(d.size() + 1);
   switch (c.r.below(5)) { case 0 : p = d.substr(0,n); break; case 1 : p = d.substr(n); break; case 2 : p = d + al[0]; break; case 3 : p = c.r.str(c.r.len(6),al); break; default : p = d; }
   if (c.r.chance(1,2)) p = mix(c.r,p);
   if (!p.empty() && c.r.chance(1,4)) p[c.r.flip() ? 0 : p.size() - 1] ^= c.r.flip() ? 0x20 : 1;
   c.context = "pattern=" + vh::q(p) + " data=" + vh::q(d);
   vh::Buf<char> bp(p), bd(d); const char *pb = bp.begin(), *pe = bp.end(), *db = bd.begin(), *de = bd.end();
   const Str lp = low(p), ld = low(d); const bool fits = p.size() <= d.size();
   const bool b = fits && d.substr(0,p.size()) == p, e = fits && d.substr(d.size() - p.size()) == p, ib = fits && ld.substr(0,p.size()) == lp, ie = fits && ld.substr(d.size() - p.size()) == lp;
   V_EQ(strtk::begins_with(p,d),b,"begins_with"); V_EQ(strtk::begins_with(pb,pe,db,de),b,"begins_with(range)");
   V_EQ(strtk::ends_with(p,d),e,"ends_with"); V_EQ(strtk::ends_with(pb,pe,db,de),e,"ends_with(range)");
   V_EQ(strtk::ibegins_with(p,d),ib,"ibegins_with"); V_EQ(strtk::ibegins_with(pb,pe,db,de),ib,"ibegins_with(range)");
   V_EQ(strtk::iends_with(p,d),ie,"iends_with"); V_EQ(strtk::iends_with(pb,pe,db,de),ie,"iends_with(range)");
   c.event(b ? "prefixes" : "non_prefixes",2); c.event(e ? "suffixes" : "non_suffixes",2);
   if (!d.empty()) c.cover(c.context);
}

static Str replace_all(const Str& s, const Str& p, const Str& r)
{
   if (p.empty()) return s;
   Str o; std::size_t i = 0; const Pos w = occurrences(p,s);
   for (std::size_t x : w) { o += s.substr(i,x - i) + r; i = x + p.size(); }
   return o + s.substr(i);
}

V_SECTION(string_object, 12000)
{
   typedef strtk::ext_string E;
   const Str al = c.r.flip() ? Str("ab,; ") : Str("aB,1;");
   Str model = c.r.str(c.r.len(16),al);
   vh::Buf<char> init(model);
   strtk::range::adapter<char> ad(init.begin(),init.end());
   E es = c.r.flip() ? E(model) : E(ad);
   c.context = "start=" + vh::q(model);
   V_EQ(E(model.c_str()).as_string(),model,"ext_string(const char*)"); V_EQ(E().as_string(),Str(),"ext_string()");
   const std::size_t steps = 1 + c.r.below(8);
   for (std::size_t st = 0; st < steps; ++st)
   {
      Str op;
      switch (c.r.below(13))
      {
         case 0 : { const int v = static_cast<int>(c.r.next()) >> c.r.below(31); op = "<<" + std::to_string(v); es << v; model += std::to_string(v); break; }
         case 1 : { const Str t = c.r.str(c.r.len(4),al); op = "+=" + t; es += t; model += t; break; }
         case 2 : { const Str t = model.empty() || c.r.flip() ? c.r.str(c.r.below(3),al) : model.substr(c.r.below(model.size()),1 + c.r.below(2)); op = "-=" + t; es -= t; model = replace_all(model,t,""); break; }
         case 3 : { if (model.size() > 60) break; const std::size_t n = 1 + c.r.below(3); op = "*=" + vh::show(n); es *= n; Str m; for (std::size_t i = 0; i < n; ++i) m += model; model = m; break; }
         case 4 : op = "lower"; es.to_lowercase(); model = low(model); break;
         case 5 : op = "upper"; es.to_uppercase(); for (char& ch : model) ch = uc(ch); break;
         case 6 : { const Str t = c.r.str(c.r.below(4),al); op = "remove_leading " + vh::q(t); es.remove_leading(t); std::size_t i = 0; while (i < model.size() && t.find(model[i]) != Str::npos) ++i; model.erase(0,i); break; }
         case 7 : { const Str t = c.r.str(c.r.below(4),al); op = "remove_trailing " + vh::q(t); es.remove_trailing(t); while (!model.empty() && t.find(model[model.size() - 1]) != Str::npos) model.erase(model.size() - 1); break; }
         case 8 : { const Str t = c.r.str(1 + c.r.below(2),al), n = c.r.str(c.r.below(4),al); op = "replace " + vh::q(t) + "->" + vh::q(n); es.replace(t,n); model = replace_all(model,t,n); break; }
         case 9 : { const std::size_t n = c.r.below(3); if (model.size() > 60) break; op = "n*"; E x = n * es; E y = es * n; Str m; for (std::size_t i = 0; i < n; ++i) m += model; V_EQ(x.as_string(),m,"n * ext_string"); V_EQ(y.as_string(),m,"ext_string * n"); break; }
         case 10: { const Str t = c.r.str(1 + c.r.below(2),al); op = "binary -" + vh::q(t); const Str m = replace_all(model,t,""); V_EQ((es - t).as_string(),m,"ext_string - string"); V_EQ((es - t.c_str()).as_string(),m,"ext_string - const char*"); V_EQ((es - E(t)).as_string(),m,"ext_string - ext_string"); break; }
         case 11: { op = "binary +"; const int v = static_cast<int>(c.r.below(2000)) - 1000; V_EQ((es + v).as_string(),model + std::to_string(v),"ext_string + int"); V_EQ((v + es).as_string(),std::to_string(v) + model,"int + ext_string"); break; }
         case 12: { op = "remove by predicate"; const strtk::single_delimiter_predicate<char> p('a'); es.remove_leading(p); es.remove_trailing(p); std::size_t i = 0; while (i < model.size() && model[i] == 'a') ++i; model.erase(0,i); while (!model.empty() && model[model.size() - 1] == 'a') model.erase(model.size() - 1); break; }
      }
      c.context += " | " + op;
      V_EQ(es.as_string(),model,"ext_string content");
      c.event("string_operations",1);
   }
   { E cp(es); V_EQ(cp.clone(),model,"copied ext_string"); const Str conv = es; V_EQ(conv,model,"conversion to string"); std::ostringstream os; os << es; V_EQ(os.str(),model,"stream output"); }
   // splitting and parsing go through the library's own split and parse: same tokens as the reference
   const strtk::single_delimiter_predicate<char> comma(',');
   Pos w = occurrences(",",model); std::vector<Str> toks; std::size_t i = 0; if (!model.empty()) { for (std::size_t x : w) { toks.push_back(model.substr(i,x - i)); i = x + 1; } toks.push_back(model.substr(i)); }
   std::vector<Str> g; std::deque<Str> g2; V_EQ(es.split(comma,g),toks.size(),"ext_string::split count"); V_CHECK(g == toks,"ext_string::split tokens");
   es.split(comma,strtk::range_to_type_back_inserter(g2)); V_CHECK(std::vector<Str>(g2.begin(),g2.end()) == toks,"ext_string::split(out)");
   const std::size_t n = 1 + c.r.below(3); g.clear(); const std::size_t k = es.split_n(comma,n,g); V_EQ(k,std::min(n,toks.size()),"ext_string::split_n count"); V_CHECK(g.size() == k && std::equal(g.begin(),g.end(),toks.begin()),"ext_string::split_n tokens");
   std::vector<Str> runs; for (std::size_t j = 0; j < toks.size(); ++j) if (!toks[j].empty() || j == 0 || j + 1 == toks.size()) runs.push_back(toks[j]);
   {
      // each of them passes the split option on
      const unsigned o = c.r.pick(ref::options()); const strtk::split_options::type so = strtk::split_options::type(o); const std::vector<Str> ot = ref::strings(model,ref::tokens(model,",",o)); const std::vector<Str> on(ot.begin(),ot.begin() + static_cast<std::ptrdiff_t>(std::min(n,ot.size())));
      std::vector<Str> x; V_EQ(es.split(comma,x,so),ot.size(),"ext_string::split(option) count"); V_CHECK(x == ot,"ext_string::split(option)");
      x.clear(); es.split(comma,strtk::range_to_type_back_inserter(x),so); V_CHECK(x == ot,"ext_string::split(out, option)");
      const std::vector<Str>& rn = on;
      x.clear(); V_EQ(es.split_n(comma,n,x,so),rn.size(),"ext_string::split_n(option) count"); V_CHECK(x == rn,"ext_string::split_n(option)");
      x.clear(); es.split_n(comma,n,strtk::range_to_type_back_inserter(x),so); V_CHECK(x == rn,"ext_string::split_n(out, option)"); c.event("ext_string_options",1);
   }
   std::vector<Str> ps; V_EQ(es.parse(",",ps),runs.size(),"ext_string::parse count"); V_CHECK(ps == runs,"ext_string::parse");
   { int v = 7; const Str t = std::to_string(static_cast<int>(c.r.next()) >> c.r.below(31)); const E num(t); V_CHECK(num.as_type(v) && std::to_string(v) == t,"ext_string::as_type"); V_EQ(std::to_string(num.as_type<int>()),t,"ext_string::as_type<int>()"); }
   c.cover(c.context);
}

V_SECTION(alphabets, 1)
{
   typedef strtk::ext_string E; Str lo, up, dg, all;
   for (char ch = 'a'; ch <= 'z'; ++ch) lo += ch;
   for (char ch = 'A'; ch <= 'Z'; ++ch) up += ch;
   for (char ch = '0'; ch <= '9'; ++ch) dg += ch;
   for (int i = 0; i < 256; ++i) all += static_cast<char>(i);
   V_EQ(E::all_digits().as_string(),dg,"all_digits"); V_EQ(E::all_letters().as_string(),lo + up,"all_letters"); V_EQ(E::all_lowercase_letters().as_string(),lo,"all_lowercase"); V_EQ(E::all_uppercase_letters().as_string(),up,"all_uppercase"); V_EQ(E::all_chars().as_string(),all,"all_chars");
   // every pair of ASCII characters
   for (int a = 0; a < 128; ++a) for (int b = 0; b < 128; ++b) V_EQ(strtk::imatch(Str(1,static_cast<char>(a)),Str(1,static_cast<char>(b))),lc(static_cast<char>(a)) == lc(static_cast<char>(b)),"imatch of " + vh::show(a) + "," + vh::show(b));
   c.event("character_pairs",128 * 128);
   c.cover("alphabets");
}
V_MAIN
