// G02: removing rows and tokens from a grid, enforcing column counts, reloading and clearing
#include "grid_common.hpp"
#include <memory>

static Grid::options opts(const Layout& l) { return Grid::options(strtk::split_options::compress_delimiters,l.opt,l.rd,l.cd); }

// content-based predicates, with a log of what they were shown
struct RowPred
{
   int kind; std::size_t arg; std::string s;
   bool judge(std::size_t index, const Model::Row& r) const
   {
      switch (kind)
      {
         case 0 : return (index % 2) == (arg % 2);
         case 1 : return r.size() == arg;
         case 2 : return r[0] == s;
         case 3 : return std::find(r.begin(),r.end(),s) != r.end();
         case 4 : return true;
         case 5 : return false;
         default: { std::size_t h = index * 7 + arg; for (auto& x : r) for (char ch : x) h = h * 31 + static_cast<unsigned char>(ch); return (h >> 3) & 1; }
      }
   }
   static RowPred make(vh::Rng& r, const Model& m)
   {
      RowPred p; p.kind = static_cast<int>(r.below(8)); p.arg = r.below(5);
      if (!m.rows.empty()) { const Model::Row& w = m.rows[r.below(m.rows.size())]; p.s = w[r.below(w.size())]; }
      return p;
   }
};
typedef std::vector<std::pair<std::size_t,Model::Row> > RowLog;
struct RowFn
{
   const RowPred* p; RowLog* log;
   bool operator()(const Grid::row_type& row) const
   {
      Model::Row r; for (std::size_t k = 0; k < row.size(); ++k) r.push_back(S(row.token(k)));
      log->push_back(std::make_pair(row.index(),r));
      return p->judge(row.index(),r);
   }
};
struct TokPred
{
   int kind; std::string s;
   bool judge(const std::string& t) const
   { switch (kind) { case 0 : return t.empty(); case 1 : return t == s; case 2 : return t.size() > s.size(); case 3 : return true; case 4 : return false; default: { std::size_t h = 5; for (char ch : t) h = h * 33 + static_cast<unsigned char>(ch); return h & 1; } } }
};
struct TokFn
{
   const TokPred* p; std::vector<std::string>* log;
   bool operator()(const GR& r) const { const std::string t = S(r); log->push_back(t); return p->judge(t); }
};
static Grid::row_range_t rrange(vh::Rng& r, std::size_t n, bool& valid)
{
   Grid::row_range_t x = r.chance(1,4) ? Grid::row_range_t(0,static_cast<unsigned>(n))
                       : r.chance(1,4) ? Grid::row_range_t(static_cast<unsigned>(r.below(n + 3)),static_cast<unsigned>(r.below(n + 3)))
                       : Grid::row_range_t(0,0);
   if (x.first == 0 && x.second == 0) { const unsigned a = static_cast<unsigned>(r.below(n + 1)); x = Grid::row_range_t(a,a + static_cast<unsigned>(r.below(n - a + 1))); }
   valid = x.first <= n && x.second <= n && x.first <= x.second;
   return x;
}

V_SECTION(mutations, 6000)
{
   Layout l = layout(c.r);
   const std::string path = vh::tmp() + "/g02.txt";
   std::vector<std::unique_ptr<vh::Buf<unsigned char> > > bufs;
   Grid g; Model m; const unsigned char* base = 0; bool on_file = false;
   std::string first;
   for (std::size_t step = 0, n = 1 + c.r.len(14); step <= n; ++step)
   {
      const std::size_t op = step == 0 ? 9 + c.r.below(2) : c.r.below(13);
      std::string desc;
      if (op == 9 || op == 12) // load from a buffer
      {
         l = layout(c.r);
         const std::string t = grid_text(c.r,l,step || c.r.chance(9,10) ? 10 : 60,6,4);
         bufs.emplace_back(new vh::Buf<unsigned char>(t.size()));
         if (!t.empty()) std::memcpy(bufs.back()->begin(),t.data(),t.size());
         desc = "load(buffer " + vh::q(t) + " rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " opt=" + std::to_string(l.opt) + ")"; c.context += "; " + desc;
         V_CHECK(g.load(bufs.back()->begin(),t.size(),opts(l)),"load from a buffer"); V_CHECK(!!g,"state after load");
         m = Model::of(t,l.rd,l.cd,l.opt); base = bufs.back()->begin(); on_file = false;
         first += t; c.event("loads",1);
      }
      else if (op == 10) // load from a file (possibly missing or empty)
      {
         l = layout(c.r);
         const std::string t = grid_text(c.r,l,10,6,4);
         const bool missing = c.r.chance(1,8);
         { std::ofstream f(path.c_str(),std::ios::binary); f.write(t.data(),static_cast<std::streamsize>(t.size())); }
         desc = std::string("load(") + (missing ? "missing" : "") + "file " + vh::q(t) + " rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " opt=" + std::to_string(l.opt) + ")"; c.context += "; " + desc;
         const bool ok = !missing && !t.empty();
         V_EQ(g.load(missing ? path + ".none" : path,opts(l)),ok,"load from a file"); V_EQ(!g,!ok,"state after load");
         V_EQ(g.source_file(),ok ? path : std::string(),"source file");
         m = ok ? Model::of(t,l.rd,l.cd,l.opt) : Model(); base = 0; on_file = true;
         first += t; c.event("loads",1);
      }
      else if (op == 11)
      {
         if (!c.r.chance(1,4)) continue;
         c.context += "; clear"; g.clear(); m = Model(); V_CHECK(!g,"a cleared grid must be false"); desc = "clear"; c.event("clears",1);
      }
      else if (op <= 1)
      {
         const std::size_t i = c.r.below(m.rows.size() + 2); desc = "remove_row(" + std::to_string(i) + ")"; c.context += "; " + desc;
         g.remove_row(i); m.erase_rows(i,i + 1,[](std::size_t, const Model::Row&) { return true; }); c.event("rows_removed",i < m.rows.size() + 1);
      }
      else if (op <= 3)
      {
         bool valid; const bool whole = c.r.chance(1,3); Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
         if (whole) { rr = Grid::row_range_t(0,static_cast<unsigned>(m.rows.size())); valid = true; }
         const RowPred p = RowPred::make(c.r,m); RowLog log, want; RowFn f = { &p, &log };
         desc = "remove_row_if([" + std::to_string(rr.first) + "," + std::to_string(rr.second) + "),kind " + std::to_string(p.kind) + " arg " + std::to_string(p.arg) + " " + vh::q(p.s) + ")"; c.context += "; " + desc;
         const bool r = whole ? g.remove_row_if(f) : g.remove_row_if(rr,f);
         V_EQ(r,valid,"result of remove_row_if");
         if (valid) { for (std::size_t i = rr.first; i < rr.second; ++i) want.push_back(std::make_pair(i,m.rows[i])); m.erase_rows(rr.first,rr.second,[&](std::size_t i, const Model::Row& w) { return p.judge(i,w); }); }
         V_CHECK(log == want,"the predicate was not shown each row of the range once, in order"); c.event("row_predicates",log.size());
      }
      else if (op <= 5)
      {
         bool valid; Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
         TokPred p; p.kind = static_cast<int>(c.r.below(7)); p.s = c.r.str(c.r.below(3),l.alphabet);
         if (p.kind == 1 && !m.rows.empty()) { const Model::Row& w = m.rows[c.r.below(m.rows.size())]; p.s = w[c.r.below(w.size())]; }
         std::vector<std::string> log, want; TokFn f = { &p, &log };
         desc = "remove_token_if([" + std::to_string(rr.first) + "," + std::to_string(rr.second) + "),kind " + std::to_string(p.kind) + " " + vh::q(p.s) + ")"; c.context += "; " + desc;
         std::size_t wr = 0;
         if (valid) { for (std::size_t i = rr.first; i < rr.second; ++i) want.insert(want.end(),m.rows[i].begin(),m.rows[i].end()); wr = m.erase_tokens(rr.first,rr.second,[&](const std::string& s) { return p.judge(s); }); }
         V_EQ(g.remove_token_if(rr,f),wr,"tokens removed"); V_EQ(log,want,"tokens shown to the predicate"); c.event("token_predicates",log.size()); c.event("tokens_removed",wr);
      }
      else if (op == 6)
      {
         const bool whole = c.r.flip(); bool valid; Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
         if (whole) { rr = Grid::row_range_t(0,static_cast<unsigned>(m.rows.size())); valid = true; }
         desc = "remove_empty_tokens([" + std::to_string(rr.first) + "," + std::to_string(rr.second) + "))"; c.context += "; " + desc;
         const std::size_t wr = valid ? m.erase_tokens(rr.first,rr.second,[](const std::string& s) { return s.empty(); }) : 0;
         V_EQ(whole ? g.remove_empty_tokens() : g.remove_empty_tokens(rr),wr,"empty tokens removed"); c.event("tokens_removed",wr);
      }
      else
      {
         const bool minmax = op == 8, whole = c.r.flip(); bool valid; Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
         if (whole) { rr = Grid::row_range_t(0,static_cast<unsigned>(m.rows.size())); valid = true; }
         const std::size_t lo = c.r.below(6), hi = minmax ? (c.r.chance(1,8) ? c.r.below(3) : lo + c.r.below(4)) : lo;
         desc = "enforce [" + std::to_string(lo) + "," + std::to_string(hi) + "] rows [" + std::to_string(rr.first) + "," + std::to_string(rr.second) + ")"; c.context += "; " + desc;
         if (minmax) { if (whole) g.enforce_min_max_column_count(lo,hi); else g.enforce_min_max_column_count(rr,lo,hi); }
         else        { if (whole) g.enforce_column_count(lo); else g.enforce_column_count(rr,lo); }
         if (valid) m.erase_rows(rr.first,rr.second,[&](std::size_t, const Model::Row& w) { return w.size() < lo || w.size() > hi; });
         c.event("enforcements",1);
      }
      same_grid(c,g,m,on_file ? 0 : base,desc.substr(0,24).c_str());
      c.event("steps",1);
   }
   if (!first.empty()) c.cover(c.context);
}
V_MAIN
