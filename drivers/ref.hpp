// Reference models shared by the drivers (independent of the library's code).
#ifndef VH_REF_HPP
#define VH_REF_HPP
#include "vh.hpp"
namespace ref
{
   typedef std::pair<std::size_t,std::size_t> Span;
   typedef std::vector<Span> Spans;

   enum { none = 0, compress = 1, first = 2, all = 4 };

   // token spans of a sequence of n elements, isd(i) == element i is a delimiter
   template <typename IsD>
   inline Spans tokens(std::size_t n, IsD isd, unsigned opt)
   {
      Spans out;
      if (0 == n) return out;
      std::size_t pos = 0;
      for (;;)
      {
         std::size_t j = pos;
         while (j < n && !isd(j)) ++j;
         if (j == n) { out.push_back(Span(pos,n)); return out; } // tail, empty after a trailing delimiter
         std::size_t run = j;
         if (opt & (compress | all)) { while (run < n && isd(run)) ++run; } // (used by these only: keeps long runs linear)
         if (opt & first)       { out.push_back(Span(pos,j + 1)); pos = (opt & compress) ? run : j + 1; }
         else if (opt & all)    { out.push_back(Span(pos,run));   pos = run; }
         else                   { out.push_back(Span(pos,j));     pos = (opt & compress) ? run : j + 1; }
      }
   }

   inline Spans tokens(const std::string& s, const std::string& delims, unsigned opt)
   {
      return tokens(s.size(),[&](std::size_t i) { return delims.find(s[i]) != std::string::npos; },opt);
   }

   inline std::string sub(const std::string& s, const Span& p) { return s.substr(p.first,p.second - p.first); }

   inline std::vector<std::string> strings(const std::string& s, const Spans& v)
   { std::vector<std::string> r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(sub(s,v[i])); return r; }

   inline const std::vector<unsigned>& options()
   { static const std::vector<unsigned> o = { 0,1,2,3,4,5 }; return o; } // (first and all together contradict each other)

   // text with a tunable density of delimiters: runs, leading and trailing delimiters are common
   inline std::string delimited(vh::Rng& r, std::size_t max, const std::string& delims, const std::string& alphabet)
   {
      std::string s;
      const std::size_t n = r.len(max);
      const unsigned dens = 1 + static_cast<unsigned>(r.below(6));
      while (s.size() < n)
      {
         if (r.chance(1,dens) && !delims.empty())
         {
            std::size_t run = r.chance(1,3) ? 1 + r.below(4) : 1;
            while (run-- && s.size() < n) s += delims[r.below(delims.size())];
         }
         else s += alphabet[r.below(alphabet.size())];
      }
      return s;
   }

   inline std::string delim_set(vh::Rng& r)
   {
      if (r.chance(1,60)) { std::string d = r.bytes(1 + r.below(r.flip() ? 300 : 700)); d.erase(std::remove(d.begin(),d.end(),static_cast<char>(0)),d.end()); return d.empty() ? "," : d; } // most bytes are delimiters
      switch (r.below(6))
      {
         case 0  : return ",";
         case 1  : return " \t\r\n";
         case 2  : return ",;|";
         case 3  : return std::string("\xFF\x80,",3);
         case 4  : return std::string(1,static_cast<char>(1 + r.below(255)));
         default : return ",.;:|!?[]{}()<>=-+*/\\\"'";
      }
   }

   inline std::string alphabet(vh::Rng& r)
   {
      switch (r.below(5))
      {
         case 0  : return "ab";
         case 1  : return "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
         case 2  : { std::string s; for (int i = 0; i < 256; ++i) s += static_cast<char>(i); return s; }
         case 3  : return std::string("a\0b\xFE",4);
         default : return "xyz0123456789,; ";
      }
   }
}
#endif
