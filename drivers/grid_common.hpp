// reference model of a delimited text grid, independent of the library
#ifndef VH_GRID_COMMON_HPP
#define VH_GRID_COMMON_HPP
#include "ref.hpp"
#include "strtk.hpp"
#include <fstream>

typedef strtk::token_grid Grid;
typedef Grid::range_t GR;
inline std::string S(const GR& r) { return r.first == r.second ? std::string() : std::string(r.first,r.second); }

struct Model
{
   typedef std::vector<std::string> Row;
   std::vector<Row> rows;
   std::vector<std::vector<ref::Span> > spans; // absolute offsets, parallel to rows
   std::size_t maxc() const { std::size_t m = 0; for (auto& r : rows) m = std::max(m,r.size()); return m; }
   std::size_t minc() const { std::size_t m = rows.empty() ? 0 : rows[0].size(); for (auto& r : rows) m = std::min(m,r.size()); return m; }
   bool operator==(const Model& o) const { return rows == o.rows; }

   // row pieces are the non-empty pieces between row delimiters; each is split into columns
   // quotes: a double quote toggles, column delimiters between quotes are ordinary text
   static Model of(const std::string& t, const std::string& rd, const std::string& cd, unsigned opt, bool quotes = false, bool trim = false)
   {
      Model m;
      const std::size_t n = t.size();
      std::size_t i = 0;
      while (i < n)
      {
         if (rd.find(t[i]) != std::string::npos) { ++i; continue; }
         std::size_t j = i;
         while (j < n && rd.find(t[j]) == std::string::npos) ++j;
         std::vector<char> isd(j - i);
         bool in = false;
         for (std::size_t k = i; k < j; ++k)
         {
            if (quotes && t[k] == '"') { in = !in; continue; }
            isd[k - i] = !in && cd.find(t[k]) != std::string::npos;
         }
         ref::Spans sp = ref::tokens(j - i,[&](std::size_t k) { return isd[k] != 0; },opt);
         Row row; ref::Spans as;
         for (auto& s : sp)
         {
            std::size_t a = i + s.first, b = i + s.second;
            if (quotes && trim && b - a >= 2 && t[a] == '"' && t[b - 1] == '"') { ++a; --b; }
            row.push_back(t.substr(a,b - a)); as.push_back(ref::Span(a,b));
         }
         m.rows.push_back(row); m.spans.push_back(as);
         i = j;
      }
      return m;
   }
   // the predicate sees (row index, row)
   template <typename P> void erase_rows(std::size_t lo, std::size_t hi, P p)
   {
      std::vector<Row> out; std::vector<std::vector<ref::Span> > os;
      for (std::size_t i = 0; i < rows.size(); ++i)
         if (!(i >= lo && i < hi && p(i,rows[i]))) { out.push_back(rows[i]); os.push_back(spans[i]); }
      rows.swap(out); spans.swap(os);
   }
   template <typename P> std::size_t erase_tokens(std::size_t lo, std::size_t hi, P p)
   {
      std::size_t removed = 0;
      std::vector<Row> out; std::vector<std::vector<ref::Span> > os;
      for (std::size_t i = 0; i < rows.size(); ++i)
      {
         if (i < lo || i >= hi) { out.push_back(rows[i]); os.push_back(spans[i]); continue; }
         Row r; std::vector<ref::Span> s;
         for (std::size_t k = 0; k < rows[i].size(); ++k)
            if (p(rows[i][k])) ++removed; else { r.push_back(rows[i][k]); s.push_back(spans[i][k]); }
         if (!r.empty()) { out.push_back(r); os.push_back(s); }
      }
      rows.swap(out); spans.swap(os);
      return removed;
   }
};

struct Layout { std::string rd, cd, alphabet; unsigned opt; };
inline Layout layout(vh::Rng& r)
{
   static const char* rds[] = { "\n", "\n\r", "\n", "#", "\x80\xFF" };
   static const char* cds[] = { ",", ",|;\t ", "|", ",;", "\xFE:" };
   static const char* als[] = { "ab", "0123456789", "12-", "xyzXYZ0189.", "a\xF0\x01_" };
   Layout l; l.rd = rds[r.below(5)]; l.cd = cds[r.below(5)]; l.alphabet = als[r.below(5)];
   l.opt = r.chance(3,5) ? 1 : static_cast<unsigned>(r.below(6));
   return l;
}
inline std::string grid_text(vh::Rng& r, const Layout& l, std::size_t maxrows, std::size_t maxcols, std::size_t maxtok)
{
   std::string t;
   const std::size_t rows = r.len(maxrows);
   if (r.chance(1,30)) maxcols = 10 + r.below(60);
   const bool ragged = r.chance(2,3);
   const std::size_t cols = 1 + r.below(maxcols);
   const unsigned empty = static_cast<unsigned>(r.below(4));
   if (r.chance(1,5)) t += l.rd[r.below(l.rd.size())];
   for (std::size_t i = 0; i < rows; ++i)
   {
      const std::size_t n = ragged ? 1 + r.below(maxcols) : cols;
      for (std::size_t k = 0; k < n; ++k)
      {
         if (k) { t += l.cd[r.below(l.cd.size())]; if (r.chance(1,9)) t += l.cd[r.below(l.cd.size())]; }
         if (!(empty && r.chance(empty,8))) t += r.str(1 + r.below(maxtok),l.alphabet);
      }
      if (i + 1 < rows || r.chance(2,3)) { t += l.rd[r.below(l.rd.size())]; if (r.chance(1,6)) t += l.rd[r.below(l.rd.size())]; }
   }
   return t;
}

// everything observable about the structure and contents of a grid
inline void same_grid(vh::Case& c, const Grid& g, const Model& m, const unsigned char* base, const char* what)
{
   V_EQ(g.row_count(),m.rows.size(),what << ": row_count");
   V_EQ(g.max_column_count(),m.maxc(),what << ": max_column_count");
   V_EQ(g.min_column_count(),m.minc(),what << ": min_column_count");
   V_CHECK((g.all_rows() == Grid::row_range_t(0,static_cast<unsigned>(m.rows.size()))),what << ": all_rows");
   std::size_t tokens = 0;
   for (std::size_t i = 0; i < m.rows.size(); ++i)
   {
      const Grid::row_type row = g.row(i);
      V_EQ(row.size(),m.rows[i].size(),what << ": size of row " << i);
      V_EQ(row.index(),i,what << ": index of row " << i);
      for (std::size_t k = 0; k < m.rows[i].size(); ++k)
      {
         const GR t = g.token(i,k), u = row.token(k);
         V_CHECK(t == u,what << ": grid token and row token differ at " << i << "," << k);
         V_EQ(S(t),m.rows[i][k],what << ": token " << i << "," << k);
         if (base)
         {
            V_EQ(static_cast<std::size_t>(t.first - base),m.spans[i][k].first,what << ": token begin " << i << "," << k);
            V_EQ(static_cast<std::size_t>(t.second - base),m.spans[i][k].second,what << ": token end " << i << "," << k);
         }
         ++tokens;
      }
      for (std::size_t k = 0; k < 3; ++k)
      {
         const GR t = g.token(i,m.rows[i].size() + (k == 2 ? 1000000 : k));
         V_CHECK(t.first == t.second && t.first == 0,what << ": token beyond the last column of row " << i);
      }
   }
   for (std::size_t k = 0; k < 3; ++k)
   {
      const GR t = g.token(m.rows.size() + (k == 2 ? 1000000 : k),0);
      V_CHECK(t.first == t.second && t.first == 0,what << ": token beyond the last row");
   }
   c.event("tokens_compared",tokens);
   c.event("grids_compared",1);
}
#endif
