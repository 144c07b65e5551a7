// C03: hexadecimal and base64 sinks store the number or bytes their text denotes, in parse and on their own.
#include <strtk.hpp>
#include "vh.hpp"
#include <climits>

static std::string b64(const std::string& b) { std::string s; strtk::convert_bin_to_base64(b,s); return s; } // judged by C02

template <typename T> static std::string hexof(vh::Rng& r, T v, std::size_t min_digits)
{
   char b[32]; snprintf(b,32,r.flip() ? "%llX" : "%llx",static_cast<unsigned long long>(static_cast<typename std::make_unsigned<T>::type>(v)));
   std::string s = b; while (s.size() < min_digits && s.size() < 2 * sizeof(T)) s = "0" + s;
   switch (r.below(4)) { case 0 : s = "0x" + s; break; case 1 : s = "0X" + s; break; default : break; }
   return s;
}
static bool is_hex(const std::string& s) { return !s.empty() && s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; }

template <typename Sink, typename T> static bool feed(vh::Case& c, Sink& k, T&, const std::string& s)
{
   switch (c.r.below(4))
   {
      case 0 : k = s; return k.valid();
      case 1 : { vh::Buf<char> b(s); k = std::make_pair(b.begin(),b.end()); return k.valid(); }
      case 2 : { vh::Buf<char> b(s); k = std::make_pair(const_cast<const char*>(b.begin()),const_cast<const char*>(b.end())); return k.valid(); }
      default: { vh::Buf<char> b(s); return strtk::string_to_type_converter(const_cast<const char*>(b.begin()),const_cast<const char*>(b.end()),k); }
   }
}

// a copy or an assigned sink serves the variable of the sink it was made from, and no other
template <typename Sink, typename T> static void copies(vh::Case& c, Sink& k, T& t, T stale, const std::string& text, T want, const bool rebinds = true)
{
   if (rebinds)
   {
   T other = stale; Sink asg(other); t = stale;
   asg = k; V_EQ(asg.valid(),k.valid(),"assigned verdict"); V_CHECK(feed(c,asg,t,text),"assigned sink takes " << vh::q(text)); V_EQ(t,want,"variable of the assigned sink"); V_EQ(other,stale,"former variable of the assigned sink");
      Sink back(other); k = back; V_CHECK(feed(c,k,other,text),"sink assigned from another"); V_EQ(other,want,"its new variable"); other = stale; k = asg; V_CHECK(feed(c,k,t,text),"sink assigned back"); V_EQ(other,stale,"left alone");
   }
   t = stale; Sink dup(k); V_EQ(dup.valid(),k.valid(),"verdict of a copy"); V_CHECK(feed(c,dup,t,text),"copy takes " << vh::q(text)); V_EQ(t,want,"variable of the copy");
   c.event("sinks_copied");
}

template <typename T> static T value(vh::Rng& r)
{ switch (r.below(5)) { case 0 : return std::numeric_limits<T>::max(); case 1 : return std::numeric_limits<T>::min(); case 2 : return static_cast<T>(r.below(300)); default : return static_cast<T>(r.next() >> r.below(64)); } }

template <typename T> static void hexcase(vh::Case& c)
{
   T t = static_cast<T>(0x55); strtk::hex_to_number_sink<T> k(t);
   V_CHECK(!k.valid(),"fresh sink");
   for (int i = 0; i < 6; ++i)
   {
      const T v = value<T>(c.r);
      std::string s = hexof<T>(c.r,v,1 + c.r.below(2 * sizeof(T)));
      bool good = true;
      if (c.r.chance(1,3))
         switch (c.r.below(4))
         {
            case 0 : s = ""; break;
            case 1 : s[c.r.below(s.size())] = c.r.pick("gGxX /:@`-.\xB0"); break;
            case 2 : s = std::string(2 * sizeof(T) + 1 + c.r.below(4),'0') + "1"; if (c.r.flip()) s = "0x" + s; break;
            default: s += std::string(1,static_cast<char>(c.r.next())); break;
         }
      std::string d = (s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) ? s.substr(2) : s;
      good = is_hex(d) && d.size() <= 2 * sizeof(T);
      const T before = t; const T want = good ? static_cast<T>(strtoull(d.c_str(),0,16)) : before;
      c.context = "hex size " + vh::show(sizeof(T)) + " text " + vh::q(s);
      const bool ok = feed(c,k,t,s);
      V_EQ(ok,good,"verdict"); V_EQ(k.valid(),good,"valid()"); V_EQ(t,want,"number");
      strtk::hex_to_number_sink<T> copy(k); V_EQ(copy.valid(),good,"copy"); T other = 1; strtk::hex_to_number_sink<T> asg(other); asg = k; V_EQ(asg.valid(),good,"assigned");
      if (0 == i) { const T keep = t; copies(c,k,t,static_cast<T>(0x33),std::string("0x1f"),static_cast<T>(0x1f)); t = keep; }
      c.event(good ? "hex_accepted" : "hex_refused"); if (!s.empty()) c.cover(s + static_cast<char>('0' + sizeof(T))); c.sample(c.context);
   }
}
template <typename T> static void b64case(vh::Case& c)
{
   T t = static_cast<T>(0x55); strtk::base64_to_number_sink<T> k(t);
   V_CHECK(!k.valid(),"fresh sink");
   for (int i = 0; i < 6; ++i)
   {
      std::string be; const std::size_t n = 1 + c.r.below(sizeof(T) + 3); be = c.r.bytes(n);
      std::string s = b64(be); bool good = n <= sizeof(T);
      if (c.r.chance(1,4))
      {
         if (c.r.flip()) s = ""; else s[c.r.below(s.size())] = c.r.pick("-_ .:@[`{\xC1");
         good = false;
      }
      const T before = t; typedef typename std::make_unsigned<T>::type U; U w = 0; for (std::size_t j = 0; j < n; ++j) w = static_cast<U>((static_cast<unsigned long long>(w) << 8) | static_cast<unsigned char>(be[j]));
      const T want = good ? static_cast<T>(w) : before;
      c.context = "base64 size " + vh::show(sizeof(T)) + " text " + vh::q(s);
      const bool ok = feed(c,k,t,s);
      V_EQ(ok,good,"verdict"); V_EQ(k.valid(),good,"valid()"); V_EQ(t,want,"number");
      if (0 == i) { const T keep = t; copies(c,k,t,static_cast<T>(0x33),b64("\x07"),static_cast<T>(7)); t = keep; }
      c.event(good ? "base64_accepted" : "base64_refused"); if (!s.empty()) c.cover(s + static_cast<char>('0' + sizeof(T))); c.sample(c.context);
   }
}
#define EACH(F) switch (c.index % 8) { case 0 : F<short>(c); break; case 1 : F<int>(c); break; case 2 : F<long>(c); break; case 3 : F<long long>(c); break; \
                case 4 : F<unsigned short>(c); break; case 5 : F<unsigned int>(c); break; case 6 : F<unsigned long>(c); break; default : F<unsigned long long>(c); break; }
V_SECTION(hex_numbers,8000) { EACH(hexcase) }
V_SECTION(base64_numbers,8000) { EACH(b64case) }

V_SECTION(hex_strings,6000)
{
   std::string out = "stale"; strtk::hex_to_string_sink k(out); V_CHECK(!k.valid(),"fresh sink");
   for (int i = 0; i < 3; ++i)
   {
      const std::string bin = c.r.bytes(c.r.len(20)); std::string h; for (std::size_t j = 0; j < bin.size(); ++j) { char b[4]; snprintf(b,4,c.r.flip() ? "%02x" : "%02X",static_cast<unsigned char>(bin[j])); h += b; }
      bool good = !bin.empty(); std::string s = h;
      if (c.r.chance(1,3)) { s += 'a'; good = false; }
      if (c.r.chance(1,3) && !s.empty()) s = (c.r.flip() ? "0x" : "0X") + s;
      c.context = "hex string " + vh::q(s);
      const bool ok = feed(c,k,out,s);
      V_EQ(ok,good,"verdict"); if (good) V_EQ(out,bin,"bytes");
      if (0 == i) { const std::string keep = out; copies(c,k,out,std::string("old"),std::string("414243"),std::string("ABC"),false); out = keep; }
      c.event(good ? "strings_accepted" : "strings_refused"); if (!s.empty()) c.cover(s); c.sample(c.context);
   }
}

V_SECTION(in_records,5000)
{
   const unsigned a = static_cast<unsigned>(c.r.next()); const long long b = value<long long>(c.r); const std::string bin = c.r.bytes(1 + c.r.below(12)); const int e = value<int>(c.r); const int id = static_cast<int>(c.r.range(-500,500));
   std::string be(4,0); for (int j = 0; j < 4; ++j) be[j] = static_cast<char>(static_cast<unsigned>(e) >> (8 * (3 - j)));
   std::string hx = strtk::convert_bin_to_hex(bin);
   std::string s = std::to_string(id) + "," + hexof<unsigned>(c.r,a,8) + "," + hexof<long long>(c.r,b,1) + "," + (c.r.flip() ? "0x" : "") + hx + "," + b64(be) + ",tail";
   const unsigned bad = static_cast<unsigned>(c.r.below(8)); // which field to break
   std::vector<std::string> f; strtk::parse(s,",",f);
   if (bad >= 1 && bad <= 2) f[bad] = "zz"; if (bad == 3) f[3] = "abc"; if (bad == 4) f[4] = "A*==";
   s = strtk::join(",",f); c.context = s;
   unsigned pa = 1; long long pb = 2; std::string ps = "x"; int pe = 3, pid = 4; std::string tail;
   strtk::hex_to_number_sink<unsigned> ha(pa); strtk::hex_to_number_sink<long long> hb(pb); strtk::hex_to_string_sink hs(ps); strtk::base64_to_number_sink<int> he(pe);
   const bool ok = strtk::parse(s,",",pid,ha,hb,hs,he,tail); const bool want = bad < 1 || bad > 4;
   V_EQ(ok,want,"record verdict");
   V_EQ(pid,id,"leading field");
   if (ok) { V_EQ(pa,a,"hex unsigned"); V_EQ(pb,b,"hex long long"); V_EQ(ps,bin,"hex string"); V_EQ(pe,e,"base64 int"); V_EQ(tail,std::string("tail"),"tail"); }
   else { V_EQ(tail,std::string(),"fields after the refused one"); if (bad <= 1) V_EQ(pa,1u,"refused"); if (bad <= 2) V_EQ(pb,2LL,"refused or later"); if (bad <= 4) V_EQ(pe,3,"refused or later"); }
   c.cover(s); c.event(ok ? "records_accepted" : "records_refused"); c.sample(c.context);
}
V_MAIN
