// M01: constant objects shared by all threads, read by every thread at once, and process wide tables
#include "ref.hpp"
#include <map>
#include <set>
#include <deque>
#include <memory>
#include "strtk.hpp"
typedef std::string Str;
typedef std::vector<Str> Strs;
typedef strtk::token_grid Grid;

struct World
{
   Strs words; Str text; std::vector<std::vector<long> > cell; Str grid_text; std::unique_ptr<const Grid> grid; std::unique_ptr<const strtk::bloom::filter> bloom; std::unique_ptr<const strtk::bloom::compressible_filter> small; strtk::prefix_trie<int>::std_string trie;
   typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type Tok; strtk::multiple_char_delimiter_predicate pred; std::unique_ptr<const Tok> tok; strtk::string_condition begins; Strs patterns; std::vector<std::vector<unsigned long long> > pascal; std::set<Str> folded; const strtk::ext_string ext; const strtk::range::adapter<const char> range;
   World() : pred("|;"), begins(strtk::string_condition::begins_with,"w1"), ext("Shared Text"), range(text_of().data(),text_of().data() + text_of().size())
   {
      for (int i = 0; i < 200; ++i) words.push_back("w" + std::to_string(i * 7919 % 1000)); for (std::size_t i = 0; i < words.size(); ++i) { text += words[i]; if (i + 1 < words.size()) text += i % 3 ? "|" : ";"; folded.insert(words[i]); }
      for (int r = 0; r < 30; ++r) { cell.push_back(std::vector<long>()); for (int k = 0; k < 7; ++k) { cell.back().push_back(r * 31 - k * 17); grid_text += std::to_string(cell.back().back()) + (k < 6 ? "," : "\n"); } }
      { Grid* g = new Grid(grid_text,grid_text.size(),","); grid.reset(g); }
      strtk::bloom::parameters p; p.projected_element_count = 300; p.false_positive_probability = 0.001; p.compute_optimal_parameters(); { strtk::bloom::filter* f = new strtk::bloom::filter(p); for (auto& w : words) f->insert(w); bloom.reset(f); } { strtk::bloom::compressible_filter* f = new strtk::bloom::compressible_filter(p); for (auto& w : words) f->insert(w); f->compress(40); small.reset(f); }
      for (std::size_t i = 0; i < words.size(); ++i) { const int v = static_cast<int>(i); strtk::trie::insert(trie,words[i],v); }; { Tok* t = new Tok(text,pred); tok.reset(t); }
      strtk::initialize_n_choose_k(); pascal.resize(68); for (std::size_t n = 0; n < 68; ++n) { pascal[n].assign(n + 1,1); for (std::size_t k = 1; k < n; ++k) pascal[n][k] = pascal[n - 1][k - 1] + pascal[n - 1][k]; }
   }
   static const Str& text_of() { static const Str s = "range of text"; return s; }
};
static const World& world() { static const World w; return w; }

V_SECTION(grids, 8000)
{
   const World& w = world(); const Grid& g = *w.grid; const std::size_t r = c.r.below(30), k = c.r.below(7); c.context = "row " + vh::show(r) + " column " + vh::show(k);
   V_EQ(g.row_count(),std::size_t(30),"rows"); V_EQ(g.min_column_count(),std::size_t(7),"columns"); V_EQ(g.max_column_count(),std::size_t(7),"columns"); const Grid::range_t t = g.token(r,k); V_EQ(Str(t.first,t.second),std::to_string(w.cell[r][k]),"token");
   const Grid::row_type row = g.row(r); V_EQ(row.size(),std::size_t(7),"row size"); V_EQ(row.get<int>(k),static_cast<int>(w.cell[r][k]),"row cell"); { std::vector<long> v; row.parse_checked(v); V_CHECK(v == w.cell[r],"whole row"); }
   long sum = 0, want = 0; V_EQ(g.accumulate_row(r,sum),std::size_t(7),"accumulate_row"); for (long x : w.cell[r]) want += x; V_EQ(sum,want,"sum of a row"); sum = want = 0; g.accumulate_column(k,sum); for (auto& x : w.cell) want += x[k]; V_EQ(sum,want,"sum of a column");
   { std::vector<long> v; g.extract_column_checked(k,v); std::vector<long> e; for (auto& x : w.cell) e.push_back(x[k]); V_CHECK(v == e,"column"); } 
   { long a, b; V_CHECK(row.parse(a,b),"row parse"); V_CHECK(a == w.cell[r][0] && b == w.cell[r][1],"row parse"); } V_CHECK(row.as_string().size() > 7,"as_string"); c.event("grid_reads",1); c.cover(c.context);
}
V_SECTION(members, 8000)
{
   const World& w = world(); const std::size_t i = c.r.below(w.words.size()); const Str& s = w.words[i], no = s + "x"; c.context = s; V_CHECK(w.bloom->contains(s) && w.bloom->contains(s.data(),s.size()) && w.small->contains(s),"members of the filters"); V_EQ(w.bloom->element_count(),200ull,"element_count"); V_CHECK(w.bloom->effective_fpp() > 0,"rate"); V_CHECK(w.bloom->contains_all(w.words.begin(),w.words.end()) == w.words.end(),"contains_all");
   int v = -1; strtk::prefix_trie<int>::std_string& t = const_cast<strtk::prefix_trie<int>::std_string&>(w.trie); V_CHECK(strtk::trie::find(t,s,v) && v == static_cast<int>(i),"trie find"); V_CHECK(!strtk::trie::find(t,no,v) && strtk::trie::find_prefix(t,s.substr(0,2)),"trie prefix"); { strtk::bloom::filter own(*w.bloom); own.insert(no); V_CHECK(own.contains(no) && own.contains(s),"copy of a shared filter"); V_CHECK(!(own == *w.bloom),"the copy differs"); }
   V_CHECK(w.folded.count(s) == 1,"folded set"); V_CHECK(strtk::imatch(strtk::as_uppercase(s),w.words.begin(),w.words.end()) == std::find(w.words.begin(),w.words.end(),s),"imatch"); c.event("member_reads",1); c.cover(c.context + vh::show(c.index % 64));
}
V_SECTION(tokens, 4000)
{
   const World& w = world(); const World::Tok& tk = *w.tok; Strs got; for (World::Tok::iterator it = tk.begin(); it != tk.end(); ++it) got.push_back(Str((*it).first,(*it).second)); V_CHECK(got == w.words,"a shared tokenizer"); c.context = "tokens";
   { Strs v; strtk::split(w.pred,w.text,strtk::range_to_type_back_inserter(v)); V_CHECK(v == w.words,"a shared predicate"); } { Strs v; strtk::parse(w.text,"|;",v); V_CHECK(v == w.words,"parse of a shared text"); } 
   const std::size_t i = c.r.below(w.words.size()); V_EQ(strtk::string_condition(w.begins)(reinterpret_cast<const unsigned char*>(w.words[i].data()),reinterpret_cast<const unsigned char*>(w.words[i].data()) + w.words[i].size()),w.words[i].compare(0,2,"w1") == 0,"shared condition"); V_EQ(w.ext.as_string(),Str("Shared Text"),"shared ext_string"); V_CHECK(w.ext.imatch("shared text"),"shared ext_string"); V_EQ(Str(w.range.begin(),w.range.end()),World::text_of(),"shared range"); { Str x = w.text; strtk::replace_pattern(w.text,"w","ww",x); V_EQ(x.size(),w.text.size() + w.words.size(),"replace_pattern of a shared text"); }
   { Str a, b; strtk::convert_bin_to_hex(w.text,a); strtk::convert_hex_to_bin(a,b); V_CHECK(b == w.text,"hex of a shared text"); strtk::convert_bin_to_base64(w.text,a); b.clear(); strtk::convert_base64_to_bin(a,b); V_CHECK(b == w.text,"base64 of a shared text"); } V_EQ(strtk::hash(w.text),strtk::hash(Str(w.text)),"hash of a shared text"); V_EQ(strtk::join(",",w.words).size(),w.text.size(),"join of shared words"); c.event("text_reads",1); c.cover(vh::show(c.index));
}
V_SECTION(coefficients, 8000) { const World& w = world(); const std::size_t n = c.r.below(68), k = c.r.below(n + 1); c.context = vh::show(n) + " choose " + vh::show(k); V_EQ(strtk::n_choose_k(n,k),w.pascal[n][k],"n_choose_k after initialize_n_choose_k"); c.event("coefficients",1); c.cover(c.context); }
V_MAIN
