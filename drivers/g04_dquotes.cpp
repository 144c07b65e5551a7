// G04: double quote support of the grid
#include "grid_common.hpp"

static const char* OPT[] = { "none", "compress", "first", "first+compress", "all", "all+compress" };
V_SECTION(quotes, 12000)
{
   Layout l = layout(c.r);
   if (c.r.flip()) l.opt = 1;
   std::string t;
   if (c.r.chance(1,3)) t = c.r.str(c.r.len(40),"\"\"" + l.rd.substr(0,1) + l.cd + "ab");
   else
      for (std::size_t rows = c.r.len(7); rows-- > 0;)
      {
         for (std::size_t k = 1 + c.r.below(5); k-- > 0;)
         {
            const bool quoted = c.r.flip();
            std::string x = c.r.str(c.r.below(6),quoted ? l.alphabet + l.cd : l.alphabet);
            if (quoted) x = "\"" + x + (c.r.chance(1,15) ? "" : "\"");
            if (c.r.chance(1,15)) x += "\"";
            if (c.r.chance(1,12)) x.insert(x.size() / 2,"\"\"");
            t += x; if (k) t += l.cd[c.r.below(l.cd.size())]; if (k && c.r.chance(1,8)) t += l.cd[0];
         }
         t += l.rd[0];
      }
   c.context = "rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " opt=" + OPT[l.opt] + " text=" + vh::q(t);
   vh::Buf<unsigned char> b(t.size());
   if (!t.empty()) std::memcpy(b.begin(),t.data(),t.size());
   for (int trim = 0; trim < 2; ++trim)
   {
      const Model m = Model::of(t,l.rd,l.cd,l.opt,true,trim != 0);
      Grid g(b.begin(),t.size(),Grid::options(strtk::split_options::compress_delimiters,l.opt,l.rd,l.cd,true,trim != 0));
      same_grid(c,g,m,b.begin(),trim ? "quotes, trimmed" : "quotes");
      if (!trim) for (auto& r : m.rows) for (auto& x : r) if (x.find_first_of(l.cd) != std::string::npos) c.event("delimiters_kept_in_quotes",1);
      if (trim) { const Model k = Model::of(t,l.rd,l.cd,l.opt,true,false); for (std::size_t i = 0; i < k.rows.size(); ++i) for (std::size_t j = 0; j < k.rows[i].size(); ++j) if (k.rows[i][j] != m.rows[i][j]) c.event("tokens_trimmed",1); }
   }
   // without the option, quotes are ordinary text
   { const Model m = Model::of(t,l.rd,l.cd,l.opt); Grid g(b.begin(),t.size(),Grid::options(strtk::split_options::compress_delimiters,l.opt,l.rd,l.cd,false,true)); same_grid(c,g,m,b.begin(),"quote support off"); }
   if (c.r.chance(1,6))
   {
      const std::string path = vh::tmp() + "/g04.txt";
      { std::ofstream f(path.c_str(),std::ios::binary); f.write(t.data(),static_cast<std::streamsize>(t.size())); }
      if (!t.empty()) { Grid g(path,Grid::options(strtk::split_options::compress_delimiters,l.opt,l.rd,l.cd,true,true)); same_grid(c,g,Model::of(t,l.rd,l.cd,l.opt,true,true),0,"quotes, file"); c.event("files_loaded",1); }
   }
   if (t.find('"') != std::string::npos) c.cover(c.context);
}
V_MAIN
