// N04: the unchecked fast:: conversions equal the checked ones on valid digit text; digit checks are exact.
#include <strtk.hpp>
#include "vh.hpp"
#include "parse_common.hpp"

static bool alldig(const std::string& s) { for (std::size_t i = 0; i < s.size(); ++i) if (s[i] < '0' || s[i] > '9') return false; return true; }

static std::string digits(vh::Rng& r, std::size_t n) { std::string s = r.str(n,"0123456789"); if (n && r.chance(1,6)) s = std::string(n,r.pick("0123456789")); return s; }

template <typename T> static T modular(const std::string& s) { T v = 0; for (std::size_t i = 0; i < s.size(); ++i) v = static_cast<T>(v * 10 + static_cast<T>(s[i] - '0')); return v; }

// overloads taking the length at run time; not templates on the length, so they are instantiated once per type
template <typename T> __attribute__((noinline)) static void run_time(vh::Case& c, const std::string& s, T want, bool chk)
{
   vh::Buf<char> b(s); const char* p = b.begin();
   { T t = 9; V_CHECK(strtk::fast::numeric_convert(s.size(),p,t,chk),"numeric_convert(n,itr)"); V_EQ(t,want,"numeric_convert(n,itr)"); }
   { T t = 9; V_CHECK(strtk::fast::numeric_convert(s,t,chk),"numeric_convert(string)"); V_EQ(t,want,"numeric_convert(string)"); }
   T slow = 1; if (!s.empty()) { V_CHECK(strtk::string_to_type_converter(s,slow),"checked conversion"); V_EQ(slow,want,"checked conversion"); }
}
template <typename T> __attribute__((noinline)) static void run_time_refused(vh::Case& c, const std::string& x)
{ T t = 9; V_CHECK(!strtk::fast::numeric_convert(x,t,true),"digit check refuses " << vh::q(x)); V_EQ(t,static_cast<T>(9),"refused target"); }
template <typename T> __attribute__((noinline)) static void run_time_signed(vh::Case& c, const std::string& s, T w, bool chk)
{
   vh::Buf<char> sb(s); const char* q = sb.begin();
   T t = 9; V_CHECK(strtk::fast::signed_numeric_convert(q,q + sb.size(),t,chk),"signed range"); V_EQ(t,w,"signed range");
   t = 9; V_CHECK(strtk::fast::signed_numeric_convert(s,t,chk),"signed string"); V_EQ(t,w,"signed string");
}

template <typename T> __attribute__((noinline)) static void run_time_signed_refused(vh::Case& c, const std::string& x)
{
   vh::Buf<char> b(x); const char* q = b.begin();
   T t = 9; V_CHECK(!strtk::fast::signed_numeric_convert(q,q + b.size(),t,true),"signed digit check refuses a range"); V_EQ(t,static_cast<T>(9),"refused target");
   V_CHECK(!strtk::fast::signed_numeric_convert(x,t,true),"signed digit check refuses a string"); V_EQ(t,static_cast<T>(9),"refused target");
}

template <int N> struct at

{
   static const std::size_t N1 = N ? N : 1; // the signed forms need at least one character
   static void digits_check(vh::Case& c)
   {
      for (int k = 0; k < 4 + 4 * N; ++k)
      {
         std::string s = digits(c.r,N);
         if (k >= 4) s[(k - 4) / 4] = "/:\x80\xB0"[k % 4]; // every position, both neighbours of the digits
         else if (N && k) { static const char bad[] = "/:a-+ .\xB0\xB9\x00"; s[c.r.below(N)] = c.r.flip() ? bad[c.r.below(10)] : static_cast<char>(c.r.next()); }
         vh::Buf<char> b(s); const char* p = b.begin();
         c.context = "N=" + vh::show(N) + " text " + vh::q(s);
         const bool want = alldig(s);
         V_EQ((strtk::fast::all_digits_check<static_cast<std::size_t>(N)>(p)),want,"all_digits_check<N>(itr)");
         V_EQ((strtk::fast::all_digits_check<static_cast<std::size_t>(N)>(s)),want,"all_digits_check<N>(string)");
         V_EQ(strtk::fast::all_digits_check(static_cast<std::size_t>(N),p),want,"all_digits_check(n,itr)");
         V_EQ(strtk::fast::all_digits_check(p,p + N),want,"all_digits_check(begin,end)");
         V_EQ(strtk::fast::all_digits_check(s),want,"all_digits_check(string)");
         if (N)
         {
            const bool swant = (s[0] == '-' || s[0] == '+') ? alldig(s.substr(1)) : want;
            V_EQ((strtk::fast::signed_all_digits_check<N1>(p)),swant,"signed_all_digits_check<N>(itr)");
            V_EQ((strtk::fast::signed_all_digits_check<N1>(s)),swant,"signed_all_digits_check<N>(string)");
         }
         {
            const bool swant = (N && (s[0] == '-' || s[0] == '+')) ? alldig(s.substr(1)) : want;
            V_EQ(strtk::fast::signed_all_digits_check(static_cast<std::size_t>(N),p),swant,"signed_all_digits_check(n,itr)");
            V_EQ(strtk::fast::signed_all_digits_check(p,p + N),swant,"signed_all_digits_check(begin,end)");
            V_EQ(strtk::fast::signed_all_digits_check(s),swant,"signed_all_digits_check(string)");
         }
         c.cover(s); c.event(want ? "checks_true" : "checks_false"); c.sample(c.context);
      }
   }

   template <typename T> static void convert(vh::Case& c)
   {
      std::string s = digits(c.r,N);
      if (c.r.chance(1,3)) { s = std::to_string(std::numeric_limits<T>::max() - static_cast<T>(c.r.below(3))); s = s.size() < static_cast<std::size_t>(N) ? std::string(N - s.size(),'0') + s : s.substr(0,N); }
      T want = 0; { unsigned __int128 v = 0; for (int i = 0; i < N; ++i) v = v * 10 + (s[i] - '0'); if (v > static_cast<unsigned __int128>(std::numeric_limits<T>::max())) { s = std::string(N,'0'); v = 0; if (N) { s[N - 1] = '7'; v = 7; } } want = static_cast<T>(v); }
      vh::Buf<char> b(s); const char* p = b.begin();
      c.context = "N=" + vh::show(N) + " size " + vh::show(sizeof(T)) + " text " + vh::q(s);
      const bool chk = (N < 20) && c.r.flip();
      { T t = 9; strtk::fast::numeric_convert<static_cast<std::size_t>(N)>(p,t,chk); V_EQ(t,want,"numeric_convert<N>(itr)"); }
      { T t = 9; strtk::fast::numeric_convert<static_cast<std::size_t>(N)>(s,t,chk); V_EQ(t,want,"numeric_convert<N>(string)"); }
      run_time<T>(c,s,want,chk);
      c.cover(s); c.event("conversions");
      if (N)
      {
         // a refused digit check leaves (n,itr) and (string) targets alone and zeroes the fixed-length ones
         std::string x = s; x[c.r.below(N)] = c.r.pick("/:a -+.");
         if (N < 20)
         {
            run_time_refused<T>(c,x);
            T t = 9; strtk::fast::numeric_convert<static_cast<std::size_t>(N)>(x,t,true); V_EQ(t,static_cast<T>(0),"fixed-length refused target");
            c.event("refusals");
         }
      }
      if (std::is_signed<T>::value && N == 0)
      {
         run_time_signed<T>(c,s,0,chk); c.event("empty_signed");
         const std::string lone(1,c.r.flip() ? '-' : '+'); c.context = "a lone " + lone; vh::Buf<char> lb(lone); const char* q = lb.begin();
         T t = 9; V_CHECK(!strtk::fast::signed_numeric_convert(q,q + 1,t,chk),"a lone sign is no number"); V_EQ(t,static_cast<T>(9),"target after a lone sign");
         V_CHECK(!strtk::fast::signed_numeric_convert(lone,t,chk),"a lone sign is no number"); V_EQ(t,static_cast<T>(9),"target after a lone sign");
      }
      if (std::is_signed<T>::value && N > 0 && N < 19)
      {
         const std::string sg[] = { "-" + s, "+" + s, s };
         for (int k = 0; k < 3; ++k)
         {
            const T w = k == 0 ? static_cast<T>(-want) : want;
            vh::Buf<char> sb(sg[k]); const char* q = sb.begin();
            c.context = "signed N=" + vh::show(N) + " text " + vh::q(sg[k]);
            run_time_signed<T>(c,sg[k],w,chk);
            T t = 9;
            if (k < 2) { strtk::fast::signed_numeric_convert<static_cast<std::size_t>(N + 1)>(q,t,chk); V_EQ(t,w,"signed fixed length");
                         t = 9; strtk::fast::signed_numeric_convert<static_cast<std::size_t>(N + 1)>(sg[k],t,chk); V_EQ(t,w,"signed fixed length string"); }
            else       { strtk::fast::signed_numeric_convert<N1>(q,t,chk); V_EQ(t,w,"signed fixed length"); }
            c.event("signed_conversions");
            // leading zeros behind the sign never matter in the run-time signed forms, however many there are
            { const std::size_t z = (c.r.flip() ? 20 : c.r.below(25)); const std::string zs = (k == 0 ? "-" : k == 1 ? "+" : "") + std::string(z,'0') + s; c.context = "signed zeros " + vh::q(zs);
              run_time_signed<T>(c,zs,w,chk); T slow = 1; V_CHECK(strtk::string_to_type_converter(zs,slow),"checked conversion"); V_EQ(slow,w,"checked conversion"); c.event("zero_padded"); }
            // a refused digit check of a signed number
            std::string y = sg[k]; y[(k < 2 ? 1 : 0) + c.r.below(N)] = c.r.pick("/:a .");
            c.context = "signed refused N=" + vh::show(N) + " text " + vh::q(y);
            run_time_signed_refused<T>(c,y);
            t = 9; strtk::fast::signed_numeric_convert<static_cast<std::size_t>(N + 1)>(k < 2 ? y : "-" + y,t,true); V_EQ(t,static_cast<T>(0),"fixed-length signed refused target");
            c.event("signed_refusals");
         }
      }
   }
};

#define EACH19(M) M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19)

#if VH_IN(3)
V_SECTION(digit_checks,2000)
{
   switch (c.index % 20)
   {
      #define DC(N) case N : at<N>::digits_check(c); break;
      EACH19(DC)
   }
}
#endif
#if VH_IN(0)
V_SECTION(int_conversions,1500)
{
   switch (c.index % 20)
   {
      #define CV0(N) case N : at<N>::convert<int>(c); break;
      EACH19(CV0)
   }
}
#endif
#if VH_IN(1)
V_SECTION(unsigned_int_conversions,1500)
{
   switch (c.index % 20)
   {
      #define CV1(N) case N : at<N>::convert<unsigned int>(c); break;
      EACH19(CV1)
   }
}
#endif
#if VH_IN(2)
V_SECTION(long_long_conversions,1500)
{
   switch (c.index % 20)
   {
      #define CV2(N) case N : at<N>::convert<long long>(c); break;
      EACH19(CV2)
   }
}
#endif
#if VH_IN(3)
V_SECTION(long_conversions,1500)
{
   switch (c.index % 20)
   {
      #define CV3(N) case N : at<N>::convert<long>(c); break;
      EACH19(CV3)
   }
}
#endif
#if VH_IN(0)
V_SECTION(unsigned_long_conversions,1500)
{
   switch (c.index % 20)
   {
      #define CV4(N) case N : at<N>::convert<unsigned long>(c); break;
      EACH19(CV4)
   }
}
#endif
#if VH_IN(1)
V_SECTION(unsigned_long_long_conversions,1500)
{
   switch (c.index % 20)
   {
      #define CV5(N) case N : at<N>::convert<unsigned long long>(c); break;
      EACH19(CV5)
   }
}
#endif
#if VH_IN(2)
V_SECTION(twenty_digits,200)
{
   const unsigned long long v = std::numeric_limits<unsigned long long>::max() - (c.index < 20 ? c.index : (c.r.next() % 8000000000000000000ULL));
   const std::string s = std::to_string(v); c.context = s;
   vh::Buf<char> b(s); const char* p = b.begin();
   unsigned long long t = 9; strtk::fast::numeric_convert<20>(p,t); V_EQ(t,v,"numeric_convert<20>");
   t = 9; V_CHECK(strtk::fast::numeric_convert(s,t),"numeric_convert(string)"); V_EQ(t,v,"numeric_convert(string)");
   c.cover(s); c.event("conversions");
}
V_SECTION(beyond_supported,200)
{
   const std::string s = digits(c.r,21 + c.r.below(10)); unsigned long long t = 9;
   V_CHECK(!strtk::fast::numeric_convert(s,t),"too many digits are refused"); V_EQ(t,9ULL,"target untouched");
   V_CHECK(!strtk::fast::numeric_convert(s,t,true),"too many digits are refused"); V_EQ(t,9ULL,"target untouched");
   c.cover(s); c.event("refusals");
}
#endif
V_MAIN
