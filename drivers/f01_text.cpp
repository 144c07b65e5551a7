// F01: text alignment, character classes and single character edits
#include "ref.hpp"
#include <memory>
#include <climits>
#include "strtk.hpp"
typedef std::string Str;

static Str aligned(int how, std::size_t width, char pad, const Str& s)
{
   if (s.size() >= width) return s;
   const std::size_t n = width - s.size(); std::size_t before = how == 0 ? n / 2 : how == 1 ? n : 0; Str r; for (std::size_t i = 0; i < before; ++i) r.push_back(pad); for (char ch : s) r.push_back(ch); while (r.size() < width) r.push_back(pad); return r;
}
template <typename T> static void align_value(vh::Case& c, const T& v, std::size_t w, char pad)
{
   const Str t = vh::show(v);
   V_EQ(strtk::text::center(w,pad,v),aligned(0,w,pad,t),"center a value"); V_EQ(strtk::text::right_align(w,pad,v),aligned(1,w,pad,t),"right align a value"); V_EQ(strtk::text::left_align(w,pad,v),aligned(2,w,pad,t),"left align a value");
   V_EQ(strtk::text::center(w,v),aligned(0,w,' ',t),"center a value, blanks"); V_EQ(strtk::text::right_align(w,v),aligned(1,w,' ',t),"right align a value, blanks"); V_EQ(strtk::text::left_align(w,v),aligned(2,w,' ',t),"left align a value, blanks");
}
V_SECTION(alignment, 8000)
{
   const std::size_t w = c.r.len(40); const char pad = static_cast<char>(c.r.next()); const Str s = c.r.chance(1,4) ? c.r.bytes(w) : c.r.bytes(c.r.len(40)); c.context = "width " + vh::show(w) + " pad " + vh::q(Str(1,pad)) + " " + vh::q(s);
   V_EQ(strtk::text::center(w,pad,s),aligned(0,w,pad,s),"center"); V_EQ(strtk::text::right_align(w,pad,s),aligned(1,w,pad,s),"right_align"); V_EQ(strtk::text::left_align(w,pad,s),aligned(2,w,pad,s),"left_align");
   V_EQ(strtk::text::center(w,s),aligned(0,w,' ',s),"center with blanks"); V_EQ(strtk::text::right_align(w,s),aligned(1,w,' ',s),"right_align with blanks"); V_EQ(strtk::text::left_align(w,s),aligned(2,w,' ',s),"left_align with blanks");
   switch (c.r.below(4)) { case 0 : align_value(c,static_cast<int>(c.r.next()),w,pad); break; case 1 : align_value(c,c.r.next(),w,pad); break; case 2 : align_value(c,static_cast<short>(c.r.next()),w,pad); break; default: align_value(c,static_cast<unsigned>(c.r.below(1000)),w,pad); }
   c.event(s.size() < w ? "padded" : "left_alone",1); c.event(s.size() == w ? "exact_fits" : "other_fits",1); c.cover(c.context);
}
V_SECTION(character_classes, 256)
{
   const int u = static_cast<int>(c.index % 256); const char ch = static_cast<char>(u); c.context = "character " + vh::show(u);
   const bool low = u >= 97 && u <= 122, up = u >= 65 && u <= 90, dig = u >= 48 && u <= 57, hex = dig || (u >= 65 && u <= 70) || (u >= 97 && u <= 102);
   using namespace strtk::text;
   V_EQ(is_letter(ch),low || up,"is_letter"); V_EQ(is_lowercase_letter(ch),low,"is_lowercase_letter"); V_EQ(is_uppercase_letter(ch),up,"is_uppercase_letter"); V_EQ(is_digit(ch),dig,"is_digit"); V_EQ(is_hex_digit(ch),hex,"is_hex_digit"); V_EQ(is_letter_or_digit(ch),low || up || dig,"is_letter_or_digit");
   for (std::size_t n = 1; n < 6; ++n) for (std::size_t at = 0; at < n; ++at) { Str s(n,'Q'), d(n,'7'); s[at] = ch; d[at] = ch; V_EQ(is_all_letters(s),low || up,"is_all_letters"); V_EQ(is_all_digits(d),dig,"is_all_digits"); }
   V_CHECK(is_all_letters("") && is_all_digits(""),"nothing violates the class"); c.event("characters",1); c.cover(c.context);
}
V_SECTION(edits, 8000)
{
   const Str s = c.r.bytes(c.r.len(40)); const std::size_t n = s.size(), i = c.r.chance(1,6) ? n + c.r.below(3) : c.r.below(n + 1), j = c.r.chance(1,6) ? n + c.r.below(3) : c.r.below(n + 1); const char ch = static_cast<char>(c.r.next()); c.context = vh::q(s) + " at " + vh::show(i) + "," + vh::show(j);
   Str e = s; if (i < n) e.erase(i,1); V_EQ(strtk::text::remove(s,i),e,"remove"); { Str t = s; strtk::text::remove_inplace(t,i); V_EQ(t,e,"remove_inplace"); }
   e = s; if (i <= n) e.insert(i,1,ch); V_EQ(strtk::text::insert(s,i,ch),e,"insert"); { Str t = s; strtk::text::insert_inplace(t,i,ch); V_EQ(t,e,"insert_inplace"); }
   e = s; if (i < n && j < n) { e[i] = s[j]; e[j] = s[i]; } V_EQ(strtk::text::swap(s,i,j),e,"swap"); { Str t = s; strtk::text::swap_inplace(t,i,j); V_EQ(t,e,"swap_inplace"); }
   { Str r = "old"; const Str tail = i < n ? Str(s.begin() + static_cast<long>(i),s.end()) : s, none = i < n ? tail : Str(); V_EQ(strtk::text::remaining_string(i,s),tail,"remaining_string"); V_EQ(strtk::text::remaining_string(i,s,true),none,"remaining_string or nothing"); strtk::text::remaining_string(i,s,r); V_EQ(r,tail,"remaining_string into"); strtk::text::remaining_string(i,s,r,true); V_EQ(r,none,"remaining_string into or nothing"); }
   c.event(i < n ? "inside" : "outside",1); c.cover(c.context);
}
V_SECTION(runs, 6000)
{
   // searching and anchored matching of runs by character class
   static const char* als[] = { "a1", "aA1 ", "abAB01_-", "zZ09`{@[/:" }; const Str s = c.r.str(c.r.len(24),als[c.r.below(4)]); const std::size_t n = 1 + c.r.below(4); vh::Buf<char> b(s);
   const int t = static_cast<int>(c.r.below(5)); const bool exact = c.r.flip(); c.context = vh::q(s) + " n=" + vh::show(n) + " class " + vh::show(t) + (exact ? " exactly" : " at least");
   auto in = [&](char ch) { const bool low = ch >= 'a' && ch <= 'z', up = ch >= 'A' && ch <= 'Z', dig = ch >= '0' && ch <= '9'; return t == 0 ? dig : t == 1 ? low || up : t == 2 ? low : t == 3 ? up : low || up || dig; };
   const strtk::find_type::type ft[] = { strtk::find_type::digits, strtk::find_type::letters, strtk::find_type::lowercase_letters, strtk::find_type::uppercase_letters, strtk::find_type::letters_digits }; const strtk::find_mode::type fm = exact ? strtk::find_mode::exactly_n : strtk::find_mode::atleast_n;
   std::size_t lead = 0; while (lead < s.size() && in(s[lead])) ++lead;
   std::size_t f = s.size(), l = s.size(); for (std::size_t i = 0; i + n <= s.size() && f == s.size(); ++i) { if (!in(s[i]) || (!exact && i && in(s[i - 1]))) continue; std::size_t k = i; while (k < s.size() && in(s[k])) ++k; if (k - i >= n) { f = i; l = exact ? i + n : k; } }
   V_EQ((strtk::match_n_consecutive<char*>(n,ft[t],fm,std::make_pair(b.begin(),b.end()))),lead >= n,"match_n_consecutive");
   const std::pair<char*,char*> r = strtk::find_n_consecutive<char*>(n,ft[t],fm,std::make_pair(b.begin(),b.end()));
   V_EQ(static_cast<std::size_t>(r.first - b.begin()),f,"start of the run"); V_EQ(static_cast<std::size_t>(r.second - b.begin()),l,"end of the run");
   c.event(f < s.size() ? "runs_found" : "runs_absent",1); c.event(lead >= n ? "anchored_runs" : "unanchored",1); c.cover(c.context);
}
V_MAIN
