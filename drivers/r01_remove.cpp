// R01: removal, trimming and replacement of characters, runs and patterns
#include "ref.hpp"
#include <list>
#include <deque>
#include <set>
#include "strtk.hpp"

typedef std::string Str;
struct InSet { Str s; bool operator()(char ch) const { return s.find(ch) != Str::npos; } };
static Str rm(const Str& s, const Str& set) { Str r; for (char ch : s) if (set.find(ch) == Str::npos) r += ch; return r; }
static Str runs(const Str& s, const Str& set) { Str r; for (std::size_t i = 0; i < s.size(); ++i) { const bool in = set.find(s[i]) != Str::npos; if (in && i && set.find(s[i - 1]) != Str::npos) continue; r += s[i]; } return r; }
static Str lead(const Str& s, const Str& set) { std::size_t i = 0; while (i < s.size() && set.find(s[i]) != Str::npos) ++i; return s.substr(i); }
static Str trail(const Str& s, const Str& set) { std::size_t n = s.size(); while (n && set.find(s[n - 1]) != Str::npos) --n; return s.substr(0,n); }
static Str nodup(const Str& s) { Str r; for (char ch : s) if (r.find(ch) == Str::npos) r += ch; return r; }
static Str uniq(const Str& s) { Str r; for (char ch : s) if (r.empty() || r[r.size() - 1] != ch) r += ch; return r; }
// leftmost, non-overlapping
static Str repl(const Str& s, const Str& p, const Str& w, std::size_t& hits)
{
   Str r; hits = 0; if (p.empty()) return s;
   for (std::size_t i = 0; i < s.size();) if (s.compare(i,p.size(),p) == 0) { r += w; i += p.size(); ++hits; } else r += s[i++];
   return r;
}
static Str alphabet(vh::Rng& r) { static const char* a[] = { "ab", "aab c", "\t \r\nxy", "abcdefghij" }; const std::size_t k = r.below(6); return k < 4 ? Str(a[k]) : k == 4 ? Str("\x00\xFF\x80" "a",4) : ref::alphabet(r); }
static Str cset(vh::Rng& r, const Str& al)
{
   Str s; for (std::size_t k = r.below(4); k-- > 0;) s += al[r.below(al.size())];
   if (r.chance(1,20)) s = ref::delim_set(r);
   return s;
}
// (a set given as a C string is read up to 256 characters: longer ones, which must repeat characters, are not specified)
static Str noz(Str s) { Str r; for (char ch : s) if (ch && r.size() < 255) r += ch; return r; }

V_SECTION(removal, 40000)
{
   const Str al = alphabet(c.r), s = c.r.str(c.r.chance(1,40) ? 200 + c.r.below(300) : c.r.len(24),al), set = cset(c.r,al);
   const char ch = al[c.r.below(al.size())]; const Str one(1,ch);
   c.context = "s=" + vh::q(s) + " set=" + vh::q(set) + " c=" + vh::q(one);
   const strtk::multiple_char_delimiter_predicate mp(set); const InSet in = { set }; const strtk::single_delimiter_predicate<char> sp(ch);
   #define STR_FORM(CALL,WANT,WHAT) { Str x = s; CALL; V_EQ(x,(WANT),WHAT); c.event("strings_edited",1); }
   STR_FORM(strtk::remove_inplace(ch,x),rm(s,one),"remove_inplace(char)")
   STR_FORM(strtk::remove_inplace(mp,x),rm(s,set),"remove_inplace(predicate)")
   STR_FORM(strtk::remove_inplace(in,x),rm(s,set),"remove_inplace(functor)")
   STR_FORM(strtk::remove_consecutives_inplace(ch,x),runs(s,one),"remove_consecutives_inplace(char)")
   STR_FORM(strtk::remove_consecutives_inplace(set,x),runs(s,set),"remove_consecutives_inplace(set)")
   STR_FORM(strtk::remove_consecutives_inplace(noz(set).c_str(),x),runs(s,noz(set)),"remove_consecutives_inplace(C string)")
   STR_FORM(strtk::remove_consecutives_inplace(mp,x),runs(s,set),"remove_consecutives_inplace(predicate)")
   STR_FORM(strtk::remove_consecutives_inplace(x),uniq(s),"remove_consecutives_inplace()")
   STR_FORM(strtk::remove_trailing(ch,x),trail(s,one),"remove_trailing(char)")
   STR_FORM(strtk::remove_trailing(set,x),trail(s,set),"remove_trailing(set)")
   STR_FORM(strtk::remove_trailing(noz(set).c_str(),x),trail(s,noz(set)),"remove_trailing(C string)")
   STR_FORM(strtk::remove_trailing(mp,x),trail(s,set),"remove_trailing(predicate)")
   STR_FORM(strtk::remove_leading(ch,x),lead(s,one),"remove_leading(char)")
   STR_FORM(strtk::remove_leading(set,x),lead(s,set),"remove_leading(set)")
   STR_FORM(strtk::remove_leading(noz(set).c_str(),x),lead(s,noz(set)),"remove_leading(C string)")
   STR_FORM(strtk::remove_leading(mp,x),lead(s,set),"remove_leading(predicate)")
   STR_FORM(strtk::remove_leading_trailing(set,x),trail(lead(s,set),set),"remove_leading_trailing")
   { Str x = s; V_EQ(strtk::remove_duplicates(x),nodup(s),"remove_duplicates"); V_EQ(x,s,"remove_duplicates modified its input"); V_EQ(strtk::remove_duplicates_inplace(x),nodup(s),"remove_duplicates_inplace result"); V_EQ(x,nodup(s),"remove_duplicates_inplace"); }
   // ranges: the kept elements are moved to the front and the number removed is returned
   #define RANGE_FORM(CALL,WANT,WHAT) { vh::Buf<char> b(s); const std::size_t n = CALL; const Str w = WANT; V_EQ(n,s.size() - w.size(),WHAT << " count"); V_EQ(Str(b.begin(),b.begin() + w.size()),w,WHAT << " content"); c.event("ranges_edited",1); }
   RANGE_FORM(strtk::remove_inplace(mp,b.begin(),b.end()),rm(s,set),"remove_inplace(range)")
   RANGE_FORM(strtk::remove_inplace(mp,strtk::range::adapter<char>(b.begin(),b.end())),rm(s,set),"remove_inplace(adapter)")
   RANGE_FORM(strtk::remove_consecutives_inplace(mp,b.begin(),b.end()),runs(s,set),"remove_consecutives_inplace(range)")
   RANGE_FORM(strtk::remove_consecutives_inplace(mp,strtk::range::adapter<char>(b.begin(),b.end())),runs(s,set),"remove_consecutives_inplace(adapter)")
   RANGE_FORM(strtk::remove_consecutives_inplace(b.begin(),b.end()),uniq(s),"remove_consecutives_inplace(range, equal)")
   RANGE_FORM(strtk::remove_consecutives_inplace(strtk::range::adapter<char>(b.begin(),b.end())),uniq(s),"remove_consecutives_inplace(adapter, equal)")
   RANGE_FORM(strtk::remove_trailing(mp,b.begin(),b.end()),trail(s,set),"remove_trailing(range)")
   RANGE_FORM(strtk::remove_trailing(mp,strtk::range::adapter<char>(b.begin(),b.end())),trail(s,set),"remove_trailing(adapter)")
   RANGE_FORM(strtk::remove_leading(sp,b.begin(),b.end()),lead(s,one),"remove_leading(range)")
   RANGE_FORM(strtk::remove_leading(mp,strtk::range::adapter<char>(b.begin(),b.end())),lead(s,set),"remove_leading(adapter)")
   // sequences of other element types
   std::vector<int> v(s.begin(),s.end()); std::deque<int> d(s.begin(),s.end()); std::list<int> l(s.begin(),s.end());
   { std::vector<int> x = v; const std::size_t n = strtk::remove_inplace(strtk::single_delimiter_predicate<int>(ch),x); const Str w = rm(s,one); V_EQ(n,s.size() - w.size(),"remove_inplace(vector) count"); V_EQ(x,std::vector<int>(w.begin(),w.end()),"remove_inplace(vector)"); }
   { std::deque<int> x = d; strtk::remove_consecutives_inplace(x); const Str w = uniq(s); V_CHECK((x == std::deque<int>(w.begin(),w.end())),"remove_consecutives_inplace(deque)"); }
   { std::list<int> x = l; strtk::remove_inplace(strtk::single_delimiter_predicate<int>(ch),x); const Str w = rm(s,one); V_CHECK((x == std::list<int>(w.begin(),w.end())),"remove_inplace(list)"); }
   { std::vector<std::size_t> idx; for (std::size_t i = 0; i < v.size(); ++i) if (c.r.chance(1,3)) idx.push_back(i);
     std::vector<int> x = v, w; for (std::size_t i = 0; i < v.size(); ++i) if (!std::binary_search(idx.begin(),idx.end(),i)) w.push_back(v[i]);
     if (!idx.empty()) { strtk::remove_inplace(strtk::index_remover(idx),x); V_EQ(x,w,"remove_inplace(index_remover)"); c.event("indices_removed",idx.size()); } }
   c.event("sequences_edited",4);
   if (!s.empty()) c.cover(c.context);
}

template <typename C> static C strs(const std::vector<Str>& v) { return C(v.begin(),v.end()); }
V_SECTION(empties, 4000)
{
   std::vector<Str> v, w; for (std::size_t k = c.r.len(12); k-- > 0;) { v.push_back(c.r.flip() ? Str() : c.r.str(c.r.below(3),"ab")); if (!v.back().empty()) w.push_back(v.back()); }
   { std::vector<Str> x = v; strtk::remove_empty_strings(x); V_EQ(x,w,"remove_empty_strings(vector)"); }
   { std::deque<Str> x = strs<std::deque<Str> >(v); strtk::remove_empty_strings(x); V_CHECK(x == strs<std::deque<Str> >(w),"remove_empty_strings(deque)"); }
   { std::list<Str> x = strs<std::list<Str> >(v); strtk::remove_empty_strings(x); V_CHECK(x == strs<std::list<Str> >(w),"remove_empty_strings(list)"); }
   { std::set<Str> x(v.begin(),v.end()); strtk::remove_empty_strings(x); V_CHECK((x == std::set<Str>(w.begin(),w.end())),"remove_empty_strings(set)"); }
   { std::multiset<Str> x(v.begin(),v.end()); strtk::remove_empty_strings(x); V_CHECK((x == std::multiset<Str>(w.begin(),w.end())),"remove_empty_strings(multiset)"); }
   c.event("containers_purged",5);
   if (!v.empty()) { Str sig; for (auto& x : v) sig += x + "|"; c.cover(sig); }
}

V_SECTION(replacement, 30000)
{
   const Str al = alphabet(c.r);
   Str s = c.r.str(c.r.len(30),al), p = c.r.str(c.r.chance(1,10) ? 0 : 1 + c.r.below(4),al), w = c.r.str(c.r.below(6),al);
   if (c.r.chance(1,3) && !p.empty()) for (std::size_t k = c.r.below(5); k-- > 0;) s.insert(c.r.below(s.size() + 1),p);
   if (c.r.chance(1,8)) w = p;
   if (c.r.chance(1,200)) { Str big; for (int k = 0; k < 300; ++k) big += c.r.flip() ? p : w; s = big; }
   const char a = al[c.r.below(al.size())], b = al[c.r.below(al.size())];
   c.context = "s=" + vh::q(s.substr(0,200)) + " p=" + vh::q(p) + " r=" + vh::q(w);
   Str swapped = s; for (auto& x : swapped) if (x == a) x = b;
   { Str x = s; strtk::replace(a,b,x); V_EQ(x,swapped,"replace(char)"); }
   { vh::Buf<char> x(s); strtk::replace(a,b,x.begin(),x.end()); V_EQ(x.str(),swapped,"replace(range)"); }
   { vh::Buf<char> x(s); strtk::replace(a,b,strtk::range::adapter<char>(x.begin(),x.end())); V_EQ(x.str(),swapped,"replace(adapter)"); }
   std::size_t hits; const Str want = repl(s,p,w,hits);
   const Str old = c.r.str(c.r.below(40),"zy");
   { Str n = old; strtk::replace_pattern(s,p,w,n); V_EQ(n,want,"replace_pattern(string)"); }
   { std::size_t h2; Str n = old; strtk::remove_pattern(s,p,n); V_EQ(n,repl(s,p,"",h2),"remove_pattern"); }
   { vh::Buf<char> bs(s), bp(p), bw(w); Str n; const std::size_t k = strtk::replace_pattern(const_cast<const char*>(bs.begin()),const_cast<const char*>(bs.end()),const_cast<const char*>(bp.begin()),const_cast<const char*>(bp.end()),const_cast<const char*>(bw.begin()),const_cast<const char*>(bw.end()),vh::into(n));
     V_EQ(n,want,"replace_pattern(range, inserter)"); V_EQ(k,want.size(),"replace_pattern(range, inserter) size");
     vh::Buf<char> out(want.size()); const std::size_t k2 = strtk::replace_pattern(const_cast<const char*>(bs.begin()),const_cast<const char*>(bs.end()),const_cast<const char*>(bp.begin()),const_cast<const char*>(bp.end()),const_cast<const char*>(bw.begin()),const_cast<const char*>(bw.end()),out.begin());
     V_EQ(k2,want.size(),"replace_pattern(range, pointer) size"); V_EQ(out.str(),want,"replace_pattern(range, pointer)"); }
   c.event(hits ? "patterns_replaced" : "patterns_absent",hits ? hits : 1);
   if (!s.empty()) c.cover(c.context);
}
V_MAIN
