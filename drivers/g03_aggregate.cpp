// G03: column/row aggregation, extraction, joining, partitioning and row iteration of a grid
#include "grid_common.hpp"
#include "parse_common.hpp"

static Grid::options opts(const Layout& l) { return Grid::options(strtk::split_options::compress_delimiters,l.opt,l.rd,l.cd); }
static Grid::row_range_t rrange(vh::Rng& r, std::size_t n, bool& valid)
{
   Grid::row_range_t x(0,static_cast<unsigned>(n));
   if (r.chance(1,4)) x = Grid::row_range_t(static_cast<unsigned>(r.below(n + 3)),static_cast<unsigned>(r.below(n + 3)));
   else if (r.flip()) { const unsigned a = static_cast<unsigned>(r.below(n + 1)); x = Grid::row_range_t(a,a + static_cast<unsigned>(r.below(n - a + 1))); }
   valid = x.first <= n && x.second <= n && x.first <= x.second;
   return x;
}
struct Setup
{
   Layout l; std::string t; Model m; std::string copy; Grid g;
   Setup(vh::Case& c, bool numeric, unsigned badness)
   {
      l = layout(c.r);
      if (numeric) l.alphabet = "0123456789";
      t = grid_text(c.r,l,10,6,4);
      if (badness) for (std::size_t k = c.r.below(badness); k-- > 0 && !t.empty();) t[c.r.below(t.size())] = 'x';
      m = Model::of(t,l.rd,l.cd,l.opt);
      copy = t; g.load(reinterpret_cast<unsigned char*>(const_cast<char*>(copy.data())),copy.size(),opts(l));
      c.context = "rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " opt=" + std::to_string(l.opt) + " text=" + vh::q(t);
   }
};
static bool rowsel(std::size_t seed, const std::string& s) { std::size_t h = seed; for (char ch : s) h = h * 31 + static_cast<unsigned char>(ch); return (h >> 2) % 3 != 0; }
struct RowSel { std::size_t seed; bool operator()(const Grid::row_type& r) const { return rowsel(seed,r.as_string()); } };
struct TokSel { std::size_t seed; bool operator()(const GR& r) const { return rowsel(seed,S(r)); } };
static std::string cat(const Model::Row& r) { std::string s; for (auto& x : r) s += x; return s; }

#if VH_IN(0)
V_SECTION(sums, 6000)
{
   Setup s(c,c.r.chance(4,5),c.r.chance(1,3) ? 3 : 0); Model& m = s.m; Grid& g = s.g;
   const std::size_t col = c.r.below(m.maxc() + 2);
   bool valid; const Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
   if (col != m.maxc())
   {
      // widths
      std::size_t w = 0, wall = 0;
      for (std::size_t i = 0; i < m.rows.size(); ++i) if (col < m.rows[i].size()) { wall = std::max(wall,m.rows[i][col].size()); if (valid && i >= rr.first && i < rr.second) w = std::max(w,m.rows[i][col].size()); }
      V_EQ(g.column_width(col,rr),valid ? w : 0,"column_width(" << col << ",[" << rr.first << "," << rr.second << "))");
      V_EQ(g.column_width(col),wall,"column_width(" << col << ")");
      // sums: every present token of the column must be a number
      long long sum = 1000, sel = 1000; std::size_t nsel = 0, ncol = 0; bool ok = valid, okp = valid;
      const std::size_t seed = c.r.below(1000); RowSel p = { seed };
      if (valid) for (std::size_t i = rr.first; i < rr.second; ++i) if (col < m.rows[i].size())
      {
         long long v; const bool good = slot::of<long long>::conv(m.rows[i][col],v);
         ++ncol;
         if (good) sum += v; else ok = false;
         if (rowsel(seed,cat(m.rows[i]))) { if (good) { sel += v; ++nsel; } else okp = false; }
      }
      if (col > m.maxc()) { ok = okp = false; }
      long long r = 1000; std::size_t n = g.accumulate_column(col,rr,r);
      if (!ok) V_EQ(n,static_cast<std::size_t>(0),"accumulate_column over a refused range, column or token");
      else { V_EQ(r,sum,"accumulate_column sum"); if (ncol == rr.second - rr.first) V_EQ(n,ncol,"accumulate_column count"); }
      r = 1000; n = g.accumulate_column(col,rr,p,r);
      if (!okp) V_EQ(n,static_cast<std::size_t>(0),"selective accumulate_column over a refused range, column or token");
      else { V_EQ(r,sel,"selective accumulate_column sum"); V_EQ(n,nsel,"selective accumulate_column count"); }
      if (rr.first == 0 && rr.second == m.rows.size() && valid)
      {
         long long a = 1000, b2 = 1000; g.accumulate_column(col,a); n = g.accumulate_column(col,p,b2);
         if (ok) V_EQ(a,sum,"accumulate_column over all rows"); if (okp) { V_EQ(b2,sel,"selective accumulate_column over all rows"); V_EQ(n,nsel,"selective count over all rows"); }
      }
      c.event(ok ? "column_sums" : "column_refusals",1);
   }
   std::vector<std::size_t> widths, want; std::deque<std::pair<std::size_t,std::size_t> > pw;
   for (std::size_t k = 0; k < m.maxc(); ++k) { std::size_t x = 0; for (auto& r : m.rows) if (k < r.size()) x = std::max(x,r[k].size()); want.push_back(x); }
   g.get_column_widths(widths); V_EQ(widths,want,"get_column_widths");
   g.get_column_widths(pw); V_EQ(pw.size(),want.size(),"get_column_widths pairs"); for (std::size_t k = 0; k < pw.size(); ++k) V_CHECK((pw[k] == std::make_pair(k,want[k])),"get_column_widths pair " << k);
   for (std::size_t i = 0; i < m.rows.size() + 2; ++i)
   {
      long long sum = 5, v; bool ok = i < m.rows.size(); if (ok) for (auto& t : m.rows[i]) if (slot::of<long long>::conv(t,v)) sum += v; else ok = false;
      long long r = 5; const std::size_t n = g.accumulate_row(i,r);
      V_EQ(n,ok ? m.rows[i].size() : static_cast<std::size_t>(0),"accumulate_row(" << i << ") count"); if (ok) V_EQ(r,sum,"accumulate_row(" << i << ") sum");
      c.event(ok ? "row_sums" : "row_refusals",1);
   }
   if (m.rows.size()) c.cover(c.context);
}
#endif

#if VH_IN(1)
template <typename T> static std::vector<T> colvals(const Model& m, std::size_t lo, std::size_t hi, std::size_t idx, std::size_t maxidx, bool& bad)
{ std::vector<T> v; T t; for (std::size_t i = lo; i < hi; ++i) if (maxidx < m.rows[i].size()) { if (slot::of<T>::conv(m.rows[i][idx],t)) v.push_back(t); else bad = true; } return v; }

V_SECTION(extraction, 6000)
{
   Setup s(c,c.r.chance(3,4),c.r.chance(1,3) ? 3 : 0); Model& m = s.m; Grid& g = s.g;
   bool valid; Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
   const std::size_t n = 1 + c.r.below(5), top = m.maxc();
   std::vector<std::size_t> x(n); std::size_t mx = 0;
   for (auto& i : x) { i = (c.r.chance(1,10) || top == 0) ? top + 1 + c.r.below(3) : c.r.below(top); mx = std::max(mx,i); }
   const bool ok = valid && mx < top;
   std::ostringstream ctx; for (auto i : x) ctx << " " << i;
   c.context += " columns" + ctx.str() + " rows [" + std::to_string(rr.first) + "," + std::to_string(rr.second) + ")";
   bool bad = false;
   std::vector<long long> w0; std::vector<std::string> w1; std::vector<int> w2; std::vector<std::string> w3; std::vector<long long> w4;
   if (ok)
   {
      w0 = colvals<long long>(m,rr.first,rr.second,x[0],mx,bad);
      if (n > 1) w1 = colvals<std::string>(m,rr.first,rr.second,x[1],mx,bad);
      if (n > 2) w2 = colvals<int>(m,rr.first,rr.second,x[2],mx,bad);
      if (n > 3) w3 = colvals<std::string>(m,rr.first,rr.second,x[3],mx,bad);
      if (n > 4) w4 = colvals<long long>(m,rr.first,rr.second,x[4],mx,bad);
   }
   std::vector<long long> o0; std::deque<std::string> o1; std::list<int> o2; std::vector<std::string> o3; std::deque<long long> o4;
   bool threw = false, r = false;
   try
   {
      switch (n)
      {
         case 1 : r = g.extract_column(rr,x[0],strtk::back_inserter_with_valuetype(o0)); break;
         case 2 : r = g.extract_column(rr,x[0],x[1],strtk::back_inserter_with_valuetype(o0),strtk::back_inserter_with_valuetype(o1)); break;
         case 3 : r = g.extract_column(rr,x[0],x[1],x[2],strtk::back_inserter_with_valuetype(o0),strtk::back_inserter_with_valuetype(o1),strtk::back_inserter_with_valuetype(o2)); break;
         case 4 : r = g.extract_column(rr,x[0],x[1],x[2],x[3],strtk::back_inserter_with_valuetype(o0),strtk::back_inserter_with_valuetype(o1),strtk::back_inserter_with_valuetype(o2),strtk::back_inserter_with_valuetype(o3)); break;
         default: r = g.extract_column(rr,x[0],x[1],x[2],x[3],x[4],strtk::back_inserter_with_valuetype(o0),strtk::back_inserter_with_valuetype(o1),strtk::back_inserter_with_valuetype(o2),strtk::back_inserter_with_valuetype(o3),strtk::back_inserter_with_valuetype(o4)); break;
      }
   }
   catch (const std::exception&) { threw = true; }
   V_EQ(threw,ok && bad,"extract_column: thrown");
   if (!threw)
   {
      V_EQ(r,ok,"extract_column: result");
      V_EQ(o0,w0,"extracted column 0");
      V_CHECK(std::vector<std::string>(o1.begin(),o1.end()) == w1,"extracted column 1"); V_CHECK(std::vector<int>(o2.begin(),o2.end()) == w2,"extracted column 2");
      V_EQ(o3,w3,"extracted column 3"); V_CHECK(std::vector<long long>(o4.begin(),o4.end()) == w4,"extracted column 4");
      c.event(ok ? "columns_extracted" : "extractions_refused",n);
   }
   else c.event("bad_tokens_thrown",1);
   // checked extraction of one column skips what does not convert
   const std::size_t col = x[0]; const bool cok = valid && col < top; bool dummy = false;
   const std::vector<int> cw = cok ? colvals<int>(m,rr.first,rr.second,col,col,dummy) : std::vector<int>();
   std::vector<int> co; V_EQ(g.extract_column_checked(rr,col,strtk::back_inserter_with_valuetype(co)),cok,"extract_column_checked result"); V_EQ(co,cw,"extract_column_checked values");
   const std::vector<int> ca = col < top ? colvals<int>(m,0,m.rows.size(),col,col,dummy) : std::vector<int>();
   std::vector<int> v; g.extract_column_checked(col,v); V_EQ(v,ca,"extract_column_checked vector");
   std::deque<int> d; g.extract_column_checked(col,d); V_CHECK(std::vector<int>(d.begin(),d.end()) == ca,"extract_column_checked deque");
   std::set<int> st; g.extract_column_checked(col,st); V_CHECK(st == std::set<int>(ca.begin(),ca.end()),"extract_column_checked set");
   std::multiset<int> ms; g.extract_column_checked(col,ms); V_CHECK(ms == std::multiset<int>(ca.begin(),ca.end()),"extract_column_checked multiset");
   if (!dummy) { std::vector<int> e; V_EQ(g.extract_column(col,strtk::back_inserter_with_valuetype(e)),col < top,"extract_column over all rows"); V_EQ(e,ca,"extract_column over all rows: values"); }
   c.event("checked_values",co.size());
   if (m.rows.size()) c.cover(c.context);
}
#endif

#if VH_IN(2)
struct RowSeen { std::vector<std::pair<std::size_t,std::string> >* log; void operator()(const Grid::row_type& r) const { log->push_back(std::make_pair(r.index(),r.as_string())); } };
struct Part
{
   const Grid* g; std::vector<Grid::row_range_t>* log; std::size_t stop;
   bool operator()(const Grid& x, const Grid::row_range_t& r) const { if (&x != g) return false; log->push_back(r); return log->size() != stop; }
};
static std::string joined(const std::vector<std::string>& v, const std::string& d) { std::string s; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += d; s += v[i]; } return s; }

V_SECTION(joins, 6000)
{
   Setup s(c,c.r.flip(),0); Model& m = s.m; Grid& g = s.g;
   const std::string d = c.r.str(c.r.below(4),"-+ ,"), start = c.r.chance(1,3) ? "old" : "";
   const std::size_t seed = c.r.below(1000); TokSel tp = { seed }; RowSel rp = { seed };
   c.context += " d=" + vh::q(d);
   for (std::size_t i = 0; i < m.rows.size() + 2; ++i)
   {
      const bool in = i < m.rows.size();
      std::vector<std::string> sel; bool full = in;
      if (in) for (auto& t : m.rows[i]) { if (t.empty()) full = false; else if (rowsel(seed,t)) sel.push_back(t); }
      std::string a = start, b = start, e = start;
      V_EQ(g.join_row(i,d,a),in,"join_row(" << i << ")");
      if (!in) V_EQ(a,start,"join_row beyond the last row"); else if (full) V_EQ(a,start + joined(m.rows[i],d),"join_row(" << i << ") text");
      V_EQ(g.join_row(i,tp,d,b),in,"selective join_row(" << i << ")"); V_EQ(b,in ? start + joined(sel,d) : start,"selective join_row(" << i << ") text");
      V_EQ(g.join_row(i,tp,d.c_str(),e),in,"selective join_row(" << i << "), C string"); V_EQ(e,b,"selective join_row(" << i << ") text, C string");
      c.event("rows_joined",in);
   }
   bool valid; const Grid::row_range_t rr = rrange(c.r,m.rows.size(),valid);
   const std::size_t col = c.r.below(m.maxc() + 2);
   if (col != m.maxc())
   {
      std::vector<std::string> all, sel; bool full = true; const bool ok = valid && col < m.maxc();
      if (ok) for (std::size_t i = rr.first; i < rr.second; ++i) if (col < m.rows[i].size())
      { const std::string& t = m.rows[i][col]; all.push_back(t); if (t.empty()) full = false; else if (rowsel(seed,cat(m.rows[i]))) sel.push_back(t); }
      std::string a = start, b = start;
      V_EQ(g.join_column(col,rr,d,a),ok,"join_column(" << col << ",[" << rr.first << "," << rr.second << "))"); if (!ok) V_EQ(a,start,"refused join_column"); else if (full) V_EQ(a,start + joined(all,d),"join_column text");
      V_EQ(g.join_column(col,rr,rp,d,b),ok,"selective join_column"); V_EQ(b,start + joined(sel,d),"selective join_column text");
      if (valid && rr.first == 0 && rr.second == m.rows.size())
      { std::string e = start, f = start; V_EQ(g.join_column(col,d,e),ok,"join_column over all rows"); V_EQ(e,a,"join_column over all rows: text"); V_EQ(g.join_column(col,rp,d,f),ok,"selective join_column over all rows"); V_EQ(f,b,"selective join_column over all rows: text"); }
      c.event("columns_joined",ok);
   }
   // iteration
   std::vector<std::pair<std::size_t,std::string> > log, want; RowSeen f = { &log };
   if (valid) for (std::size_t i = rr.first; i < rr.second; ++i) want.push_back(std::make_pair(i,cat(m.rows[i])));
   V_EQ(g.for_each_row(rr,f),want.size(),"for_each_row count"); V_CHECK(log == want,"for_each_row order");
   log.clear(); want.clear(); for (std::size_t i = 0; i < m.rows.size(); ++i) want.push_back(std::make_pair(i,cat(m.rows[i])));
   V_EQ(g.for_each_row(f),m.rows.size(),"for_each_row count over all rows"); V_CHECK(log == want,"for_each_row order over all rows");
   // partitioning: consecutive groups, a new one starts at each row the predicate accepts
   for (int whole = 0; whole < 2; ++whole)
   {
      const std::size_t lo = whole ? 0 : rr.first, hi = whole ? m.rows.size() : rr.second; const bool v = whole || valid;
      std::vector<Grid::row_range_t> parts, seen; const std::size_t stop = c.r.chance(1,3) ? 1 + c.r.below(3) : 0;
      if (v) { std::size_t from = lo; for (std::size_t i = lo; i <= hi; ++i) if (i == hi || rowsel(seed,cat(m.rows[i]))) { if (i != from) parts.push_back(Grid::row_range_t(static_cast<unsigned>(from),static_cast<unsigned>(i))); from = i; } }
      const bool stopped = stop && parts.size() >= stop; if (stopped) parts.resize(stop);
      Part p = { &g, &seen, stop };
      const bool r = whole ? g.sequential_partition(rp,p) : g.sequential_partition(rr,rp,p);
      V_EQ(r,v && !stopped,"sequential_partition result"); V_CHECK(seen == parts,"sequential_partition groups");
      c.event("partitions",seen.size());
   }
   if (m.rows.size()) c.cover(c.context);
}
#endif
V_MAIN
