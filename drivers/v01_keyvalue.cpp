// V01: key-value parser against a model of the text, with live re-registration and failing pairs
#include "conv_ref.hpp"
#include <map>
#include <memory>
#include <climits>
#include "strtk.hpp"
typedef std::string Str;
typedef unsigned char uc;

struct Slot { virtual ~Slot() {} virtual bool model(const Str&) = 0; virtual bool same() const = 0; virtual Str show() const = 0; };
struct Int_slot : Slot { int t, m; Int_slot(int v) : t(v), m(v) {} bool model(const Str& s) { long long v; if (!int_of(s,INT_MIN,INT_MAX,v)) return false; m = static_cast<int>(v); return true; } bool same() const { return t == m; } Str show() const { return "int " + vh::show(t) + " expected " + vh::show(m); } };
struct Short_slot : Slot { unsigned short t, m; Short_slot(int v) : t(static_cast<unsigned short>(v)), m(t) {} bool model(const Str& s) { long long v; if (!int_of(s,0,USHRT_MAX,v)) return false; m = static_cast<unsigned short>(v); return true; } bool same() const { return t == m; } Str show() const { return "ushort " + vh::show(t) + " expected " + vh::show(m); } };
struct Real_slot : Slot { double t, m; Real_slot(int v) : t(v), m(v) {} bool model(const Str& s) { double v; if (!real_of(s,v)) return false; m = v; return true; } bool same() const { return fabs(t - m) <= fabs(m) * 1e-13; } Str show() const { return "double " + vh::show(t) + " expected " + vh::show(m); } };
struct Text_slot : Slot { Str t, m; Text_slot(int v) : t(vh::show(v)), m(t) {} bool model(const Str& s) { m = s; return true; } bool same() const { return t == m; } Str show() const { return "string " + vh::q(t) + " expected " + vh::q(m); } };
struct Attr_slot : Slot { strtk::util::attribute<int> t; int m; bool init; Attr_slot(int v) : t(v), m(v), init(true) {} bool model(const Str& s) { long long v; if (!int_of(s,INT_MIN,INT_MAX,v)) return false; m = static_cast<int>(v); return true; } bool same() const { return t.value() == m && t.initialised(); } Str show() const { return "attribute " + vh::show(t.value()) + " expected " + vh::show(m); } };

struct World
{
   std::vector<std::unique_ptr<Slot> > slots; 
   template <typename F> void make(vh::Rng& r, F reg)
   {
      const int v = static_cast<int>(r.below(100));
      switch (r.below(5))
      {
         case 0 : { Int_slot* s = new Int_slot(v); slots.push_back(std::unique_ptr<Slot>(s)); reg(s->t); } break;
         case 1 : { Short_slot* s = new Short_slot(v); slots.push_back(std::unique_ptr<Slot>(s)); reg(s->t); } break;
         case 2 : { Real_slot* s = new Real_slot(v); slots.push_back(std::unique_ptr<Slot>(s)); reg(s->t); } break;
         case 3 : { Text_slot* s = new Text_slot(v); slots.push_back(std::unique_ptr<Slot>(s)); reg(s->t); } break;
         default: { Attr_slot* s = new Attr_slot(v); slots.push_back(std::unique_ptr<Slot>(s)); reg(s->t); } break;
      }
   }
};

static Str value_text(vh::Rng& r, char bd, char pd)
{
   switch (r.below(12))
   {
      case 0 : return "";
      case 1 : return r.str(1 + r.below(5),"xyzXQ_");
      case 2 : return vh::show(static_cast<long long>(INT_MAX) + r.range(-1,2));
      case 3 : return vh::show(static_cast<long long>(INT_MIN) + r.range(-2,1));
      case 4 : return vh::show(65535 + r.range(-1,2));
      case 5 : return vh::show(r.range(-5000,5000)) + "." + r.str(1 + r.below(4),"0123456789");
      case 6 : return "-" + vh::show(r.below(100));
      case 7 : return vh::show(r.below(100)) + "x";
      case 8 : return vh::show(r.below(10)) + Str(1,pd) + vh::show(r.below(10));
      case 9 : return "  x" + Str(1,static_cast<char>(0x80 + r.below(128)));
      default: (void)bd; return vh::show(r.below(70000));
   }
}

// Key policies: text of a key, and which registered slot a key text addresses (-1: none)
template <typename Parser, typename KeyText, typename Lookup, typename Register>
static void history(vh::Case& c, Parser* parser, char bd, char pd, KeyText key_text, Lookup lookup, Register do_register, const Str& name, bool no_x = false)
{
   World w; std::unique_ptr<Parser> p(parser); Str log; std::size_t counted = 0; bool any_ignore = false;
   const std::size_t steps = 1 + c.r.below(7);
   for (std::size_t k = 0; k < 1 + c.r.below(5); ++k) w.make(c.r,[&](auto& t) { log += do_register(*p,t,w.slots.size() - 1,true); });
   for (std::size_t st = 0; st < steps; ++st)
   {
      const std::size_t op = c.r.below(10);
      if (op == 0) { w.make(c.r,[&](auto& t) { log += do_register(*p,t,w.slots.size() - 1,c.r.flip()); }); c.event("registrations",1); continue; }
      if (op == 1) { std::unique_ptr<Parser> n(new Parser(*p)); p.swap(n); log += " copy"; c.event("copies",1); continue; }
      const std::size_t blocks = c.r.len(7); Str text;
      for (std::size_t b = 0; b < blocks; ++b)
      {
         if (b || c.r.chance(1,5)) text += bd;
         if (c.r.chance(1,8)) continue;
         const bool good = c.r.chance(7,8);
         text += key_text(good); if (c.r.chance(12,13)) text += pd; if (no_x && c.r.chance(1,4)) text += 'x'; text += value_text(c.r,bd,pd);
      }
      if (c.r.chance(1,5)) text += bd;
      const bool ignore = c.r.flip();
      c.context = name + " bd=" + vh::q(Str(1,bd)) + " pd=" + vh::q(Str(1,pd)) + log + (ignore ? " ignore " : " strict ") + vh::q(text); 
      // model: blocks between block delimiters, key up to the first pair delimiter, value the rest
      bool want = !text.empty() || ignore; std::size_t fails = 0, applied = 0; 
      if (!text.empty())
      {
         const ref::Spans bl = ref::tokens(text,Str(1,bd),0);
         for (std::size_t i = 0; i < bl.size(); ++i)
         {
            const Str blk = ref::sub(text,bl[i]); if (blk.empty()) continue;
            const std::size_t at = blk.find(pd); bool ok = at != Str::npos && at + 1 < blk.size();
            if (ok) { const int s = lookup(blk.substr(0,at)); ok = s >= 0 && !(no_x && blk[at + 1] == 'x') && w.slots[static_cast<std::size_t>(s)]->model(blk.substr(at + 1)); }
            if (ok) ++applied; else { ++fails; if (!ignore) { want = false; break; } }
         }
      }
      bool got;
      if (c.r.flip()) got = (*p)(text,ignore);
      else { vh::Buf<uc> buf(text); got = (*p)(std::make_pair(buf.begin(),buf.end()),ignore); }
      V_EQ(got,want,"verdict");
      if (ignore) { counted = fails; any_ignore = true; }
      if (any_ignore) V_EQ(p->failure_count(),counted,"failure_count"); else V_EQ(p->failure_count(),static_cast<std::size_t>(0),"failures before any ignoring parse");
      for (std::size_t i = 0; i < w.slots.size(); ++i) V_CHECK(w.slots[i]->same(),"variable " + vh::show(i) + ": " + w.slots[i]->show());
      log += ignore ? " I" : " S"; log += vh::q(text);
      c.event("pairs_applied",applied); c.event("pairs_refused",fails); c.event(ignore ? "ignoring_parses" : got ? "strict_accepted" : "strict_refused",1); c.cover(c.context);
   }
}

static void delims(vh::Rng& r, char& bd, char& pd) { static const char* ds = "|;,&\n=:#\x01\xFF"; bd = ds[r.below(9)]; do pd = ds[r.below(10)]; while (pd == bd && !r.chance(1,6)); }

V_SECTION(uint_keys, 5000)
{
   typedef strtk::keyvalue::uintkey_map M; typedef strtk::keyvalue::parser<M> P; M::options o; char bd, pd; delims(c.r,bd,pd); o.pair_block_delimiter = static_cast<uc>(bd); o.pair_delimiter = static_cast<uc>(pd);
   o.key_count = c.r.len(c.r.chance(1,4) ? 300 : 8); std::map<unsigned,int> reg;
   auto key_text = [&](bool good) -> Str { if (good && !reg.empty()) { auto it = reg.begin(); std::advance(it,static_cast<long>(c.r.below(reg.size()))); const Str t = vh::show(it->first); return Str(c.r.chance(1,8) ? c.r.below(20 - t.size()) : c.r.chance(1,4) ? c.r.below(4) : 0,'0') + t; }
      switch (c.r.below(7)) { case 0 : return ""; case 1 : return "-1"; case 2 : return "1x"; case 3 : return "18446744073709551616"; case 4 : return "1844674407370955161" + vh::show(c.r.below(10)) + vh::show(c.r.below(10)); case 5 : return vh::show(4294967296ull + c.r.below(9)); default: return vh::show(o.key_count + c.r.below(3)); } };
   auto lookup = [&](const Str& k) -> int { if (k.empty() || k.size() > 19 || k.find_first_not_of("0123456789") != Str::npos) return -1; __int128 v = 0; for (char ch : k) { v = v * 10 + (ch - '0'); if (v > UINT_MAX) return -1; } auto it = reg.find(static_cast<unsigned>(v)); return it == reg.end() ? -1 : it->second; };
   auto do_register = [&](P& p, auto& t, std::size_t slot, bool any) -> Str { unsigned k = static_cast<unsigned>(c.r.below(o.key_count + 2)); if (!any && !reg.empty()) k = reg.begin()->first; const bool ok = p.register_keyvalue(k,t); V_EQ(ok,k < o.key_count,"register key " + vh::show(k)); if (ok) reg[k] = static_cast<int>(slot); return " " + vh::show(k) + "->" + vh::show(slot); };
   history(c,new P(o),bd,pd,key_text,lookup,do_register,"uintkey_map(" + vh::show(o.key_count) + ")");
}

struct ci_less { bool operator()(const Str& a, const Str& b) const { return std::lexicographical_compare(a.begin(),a.end(),b.begin(),b.end(),[](char x, char y) { return tolower(x) < tolower(y); }); } };
struct short_key { template <typename R> bool operator()(const R& r) { return r.second - r.first <= 3; } };
struct no_leading_x { template <typename R> bool operator()(const R& r) { return *r.first != 'x'; } };

template <typename M> static void string_keys_(vh::Case& c, bool ci, bool validated, const Str& name, bool no_x = false)
{
   typedef strtk::keyvalue::parser<M> P; strtk::keyvalue::options<uc> o; char bd, pd; delims(c.r,bd,pd); o.pair_block_delimiter = static_cast<uc>(bd); o.pair_delimiter = static_cast<uc>(pd);
   std::map<Str,int> reg; Str last; auto fold = [&](Str s) { if (ci) for (char& ch : s) ch = static_cast<char>(tolower(ch)); return s; };
   auto key_text = [&](bool good) -> Str { if (good && !reg.empty()) { auto it = reg.begin(); std::advance(it,static_cast<long>(c.r.below(reg.size()))); return it->first; } return c.r.str(c.r.below(4),"abAB 7"); };
   auto look = [&](const Str& k) -> int { auto it = reg.find(fold(k)); if (it == reg.end()) return -1; if (validated && k.size() > 3) return -1; return it->second; };
   auto do_register = [&](P& p, auto& t, std::size_t slot, bool any) -> Str { Str k = c.r.str(c.r.below(validated ? 6 : 4),"abAB 7"); if (!any && !reg.empty()) k = reg.begin()->first; V_CHECK(p.register_keyvalue(k,t),"registration"); reg[fold(k)] = static_cast<int>(slot); return " " + vh::q(k) + "->" + vh::show(slot); };
   history(c,new P(o),bd,pd,key_text,look,do_register,name,no_x);
}
V_SECTION(string_keys, 5000) { string_keys_<strtk::keyvalue::stringkey_map>(c,false,false,"stringkey_map"); }
V_SECTION(folded_keys, 1500) { string_keys_<strtk::keyvalue::key_map<Str,std::map<Str,strtk::util::value,ci_less> > >(c,true,false,"key_map(folding)"); }
V_SECTION(validated_keys, 1500) { string_keys_<strtk::keyvalue::key_map<Str,std::map<Str,strtk::util::value>,short_key> >(c,false,true,"key_map(validated)"); }

V_SECTION(validated_values, 1500) { const bool both = c.r.flip(); if (both) string_keys_<strtk::keyvalue::key_map<Str,std::map<Str,strtk::util::value>,short_key,no_leading_x> >(c,false,true,"key_map(validated keys and values)",true); else string_keys_<strtk::keyvalue::key_map<Str,std::map<Str,strtk::util::value>,strtk::keyvalue::details::no_op_validator,no_leading_x> >(c,false,false,"key_map(validated values)",true); }

V_SECTION(sparse_uint_keys, 4000)
{
   typedef strtk::keyvalue::key_map<unsigned int> M; typedef strtk::keyvalue::parser<M> P; strtk::keyvalue::options<uc> o; char bd, pd; delims(c.r,bd,pd); o.pair_block_delimiter = static_cast<uc>(bd); o.pair_delimiter = static_cast<uc>(pd);
   std::map<unsigned,int> reg; static const unsigned ks[] = { 0, 1, 7, 99, 100, 65535, 65536, 999999999, 1000000000, 4294967294u };
   auto key_text = [&](bool good) -> Str { if (good && !reg.empty()) { auto it = reg.begin(); std::advance(it,static_cast<long>(c.r.below(reg.size()))); const Str t = vh::show(it->first); return Str(c.r.chance(1,8) ? c.r.below(20 - t.size()) : c.r.chance(1,4) ? c.r.below(3) : 0,'0') + t; }
      switch (c.r.below(6)) { case 0 : return ""; case 1 : return "+1"; case 2 : return "x"; case 3 : return vh::show(4294967295ull + c.r.below(12)); case 4 : return vh::show(4294967296ull * (1 + c.r.below(1000)) + ks[c.r.below(10)]); default: return vh::show(ks[c.r.below(10)]); } };
   auto lookup = [&](const Str& k) -> int { if (k.empty() || k.size() > 19 || k.find_first_not_of("0123456789") != Str::npos) return -1; __int128 v = 0; for (char ch : k) { v = v * 10 + (ch - '0'); if (v > UINT_MAX) return -1; } auto it = reg.find(static_cast<unsigned>(v)); return it == reg.end() ? -1 : it->second; };
   auto do_register = [&](P& p, auto& t, std::size_t slot, bool any) -> Str { unsigned k = ks[c.r.below(10)]; if (!any && !reg.empty()) k = reg.begin()->first; V_CHECK(p.register_keyvalue(k,t),"registration"); reg[k] = static_cast<int>(slot); return " " + vh::show(k) + "->" + vh::show(slot); };
   history(c,new P(o),bd,pd,key_text,lookup,do_register,"key_map<unsigned>");
}
V_MAIN
