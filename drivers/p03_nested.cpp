// P03: nested parsing - container sinks with their own delimiters, user-defined converters, user record types
#include "parse_common.hpp"
#include "strtk.hpp"
#include <fstream>

struct point { int x, y; point() : x(-7), y(-7) {} };
inline bool operator==(const point& a, const point& b) { return a.x == b.x && a.y == b.y; }
inline bool operator<(const point& a, const point& b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }
inline std::ostream& operator<<(std::ostream& o, const point& p) { return o << "(" << p.x << "/" << p.y << ")"; }
strtk_string_to_type_begin(point)
   static const std::string delimiters(":");
   return strtk::parse(begin,end,delimiters,t.x,t.y);
strtk_string_to_type_end()
strtk_register_userdef_type_sink(point)

namespace slot
{
   template <> struct of<point>
   {
      static bool conv(const std::string& s, point& t)
      {
         const std::vector<std::string> k = ref::strings(s,ref::tokens(s,":",ref::compress));
         if (k.size() < 2) return false;
         if (!of<int>::conv(k[0],t.x)) return false;
         return of<int>::conv(k[1],t.y);
      }
      static std::string good(vh::Rng& r) { return of<int>::good(r) + ":" + of<int>::good(r) + (r.chance(1,8) ? ":9" : ""); }
      static std::string bad(vh::Rng& r) { switch (r.below(4)) { case 0 : return "5"; case 1 : return "5:x"; case 2 : return "x:5"; default : return ":"; } }
      static point junk() { return point(); }
      static bool same(const point& a, const point& b) { return a == b; }
   };
}

template <typename C> static std::vector<typename C::value_type> content(const C& v) { return std::vector<typename C::value_type>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(std::queue<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.front()); v.pop(); } return r; }
template <typename T> static std::vector<T> content(std::stack<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.top()); v.pop(); } std::reverse(r.begin(),r.end()); return r; }
template <typename T> static std::vector<T> content(std::priority_queue<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.top()); v.pop(); } std::reverse(r.begin(),r.end()); return r; }
template <typename C> struct add_to { template <typename T> static void add(C& c, const T& t) { c.push_back(t); } };
template <typename T> struct add_to<std::set<T> > { static void add(std::set<T>& c, const T& t) { c.insert(t); } };
template <typename T> struct add_to<std::multiset<T> > { static void add(std::multiset<T>& c, const T& t) { c.insert(t); } };
template <typename T> struct add_to<std::queue<T> > { static void add(std::queue<T>& c, const T& t) { c.push(t); } };
template <typename T> struct add_to<std::stack<T> > { static void add(std::stack<T>& c, const T& t) { c.push(t); } };
template <typename T> struct add_to<std::priority_queue<T> > { static void add(std::priority_queue<T>& c, const T& t) { c.push(t); } };


static const std::size_t all = static_cast<std::size_t>(-1);

// one field: its text, and what its sink has to do with it
template <typename C>
struct field
{
   typedef typename C::value_type T;
   std::string text, delims; unsigned opt; std::size_t n; bool ok; C start, want;
   field(vh::Rng& r, const std::string& d, bool keep) : delims(d)
   {
      opt = r.chance(3,4) ? static_cast<unsigned>(ref::compress) : r.flip() ? 0u : r.pick(ref::options());
      std::vector<std::string> toks;
      for (std::size_t k = r.chance(1,10) ? r.len(300) : r.len(6); k-- > 0;) toks.push_back(r.chance(1,12) ? slot::of<T>::bad(r) : slot::of<T>::good(r));
      text = slot::record(r,toks,delims);
      n = r.chance(1,2) ? all : r.chance(2,3) ? toks.size() : r.below(toks.size() + 3);
      if (keep) for (std::size_t k = r.below(3); k-- > 0;) { T t; slot::of<T>::conv(slot::of<T>::good(r),t); add_to<C>::add(start,t); }
      judge(start);
   }
   void judge(const C& from)
   {
      want = from;
      const std::vector<std::string> tk = ref::strings(text,ref::tokens(text,delims,opt));
      std::size_t k = 0;
      for (auto& s : tk) { if (n != all && k++ >= n) break; T t; if (slot::of<T>::conv(s,t)) add_to<C>::add(want,t); }
      ok = n == all ? !tk.empty() : want.size() - from.size() == n;
   }
};

template <typename C>
static void one_sink(vh::Case& c, const char* kind)
{
   typedef strtk::sink_type<C> sink_t;
   static const char* ds[] = { ",", ",;", "#", "/" };
   const std::string d = ds[c.r.below(4)];
   field<C> f(c.r,d,true), g(c.r,d,true);
   const long long lead = c.r.range(-99,99), trail = c.r.range(0,9999);
   const std::string rec = std::to_string(lead) + "|" + f.text + "|" + g.text + "|" + std::to_string(trail);
   c.context = std::string("sink=") + kind + " d=" + vh::q(d) + " n=" + vh::show(f.n) + "," + vh::show(g.n) + " opt=" + vh::show(f.opt) + "," + vh::show(g.opt) + " rec=" + vh::q(rec);
   const strtk::split_options::type fo = f.opt, go = g.opt;
   const bool blank = f.text.empty() || g.text.empty();
   // direct, on an exact block, in every way of binding
   {
      vh::Buf<char> b(f.text); const char* p = b.begin(); const char* e = b.end();
      C x = f.start; sink_t k(d,fo);
      V_CHECK(!k.parse(p,e),"a sink without container refuses");
      V_EQ(k(x,"",fo).count(f.n).parse(p,e),f.ok,"bound sink verdict"); V_EQ(content(x),content(f.want),"bound sink content");
      C y = f.start; sink_t k2(y,d,fo); k2.count(f.n);
      V_EQ(k2.parse(f.text.begin(),f.text.end()),f.ok,"constructed sink verdict"); V_EQ(content(y),content(f.want),"constructed sink content");
      C z = f.start; sink_t k3("@");
      V_EQ(strtk::string_to_type_converter(p,e,k3(z,d,fo).count(f.n)),f.ok,"converted sink verdict"); V_EQ(content(z),content(f.want),"converted sink content");
      // the same sink again into another container, count and delimiters kept
      C w = g.start; field<C> h(g); h.opt = f.opt; h.n = f.n; h.judge(h.start);
      V_EQ(k3(w,"",fo).parse(g.text.data(),g.text.data() + g.text.size()),h.ok,"re-used sink verdict"); V_EQ(content(w),content(h.want),"re-used sink content"); V_EQ(content(z),content(f.want),"earlier container untouched");
      C v = g.start; field<C> q(g); q.opt = f.opt; q.n = all; q.judge(q.start);
      V_EQ(k3(v,"",fo).count().parse(g.text.data(),g.text.data() + g.text.size()),q.ok,"count reset verdict"); V_EQ(content(v),content(q.want),"count reset content");
      c.event(f.ok ? "sinks_filled" : "sinks_refused");
   }
   // a history of one sink: bound again with or without delimiters, counted and not, fed again without binding
   {
      sink_t k(d,fo); std::string kd = d; std::size_t kn = all; strtk::split_options::type ko = fo; C* bound = 0;
      std::list<C> kept; std::list<C> model; std::string log;
      for (std::size_t step = 2 + c.r.below(5); step-- > 0;)
      {
         const bool bind = !bound || c.r.chance(2,3);
         field<C> h(c.r,kd,true);
         if (bind)
         {
            const std::string nd = c.r.chance(1,3) ? std::string(ds[c.r.below(4)]) : std::string();
            if (!nd.empty()) { kd = nd; h = field<C>(c.r,kd,true); }
            kept.push_back(h.start); model.push_back(h.start); bound = &kept.back(); ko = h.opt;
            if (nd.empty() && c.r.chance(1,4)) { ko = strtk::split_options::compress_delimiters; k(*bound); } else k(*bound,nd,ko);
            log += " bind(" + nd + "," + vh::show(static_cast<int>(ko)) + ")";
         }
         switch (c.r.below(4))
         {
            case 0  : kn = h.n; k.count(kn); log += " count(" + vh::show(kn) + ")"; break;
            case 1  : if (c.r.chance(1,3)) { kn = all; k.count(); log += " count()"; } break;
            default : break;
         }
         h.opt = ko; h.n = kn; h.judge(*bound);
         log += " parse(" + vh::q(h.text) + ")";
         vh::Buf<char> b(h.text);
         V_EQ(k.parse(b.begin(),b.end()),h.ok,"verdict after" << log);
         V_EQ(content(*bound),content(h.want),"content after" << log);
         model.back() = h.want;
         typename std::list<C>::iterator m = model.begin();
         for (typename std::list<C>::iterator i = kept.begin(); i != kept.end(); ++i, ++m) V_EQ(content(*i),content(*m),"a container bound earlier changed after" << log);
         c.event("history_steps");
      }
   }
   // inside a record; '|' never occurs in the fields (an empty field collapses with its delimiters, so it is left out)
   if (!blank && f.text.find('|') == std::string::npos && g.text.find('|') == std::string::npos)
   {
      vh::Buf<char> b(rec); const char* p = b.begin(); const char* e = b.end();
      for (int form = 0; form < 4; ++form)
      {
         long long l = -1, t = -1; C x = f.start, y = g.start; bool got;
         sink_t k(d), k2(d);
         switch (form)
         {
            case 0  : got = strtk::parse(p,e,std::string("|"),l,k(x,"",fo).count(f.n),k2(y,"",go).count(g.n),t); break;
            case 1  : got = strtk::parse(rec,"|",l,k(x,"",fo).count(f.n),k2(y,"",go).count(g.n),t); break;
            case 2  : got = strtk::parse(rec.begin(),rec.end(),std::string("|"),l,sink_t(x,d,fo).count(f.n),sink_t(y,d,go).count(g.n).reference(),t); break;
            default : { strtk::util::value a(l), v(k(x,"",fo).count(f.n)), w(k2(y,"",go).count(g.n)), z(t); 
                        std::vector<strtk::util::value*> vs; vs.push_back(&a); vs.push_back(&v); vs.push_back(&w); vs.push_back(&z);
                        got = true; std::size_t i = 0; const std::vector<std::string> tk = ref::strings(rec,ref::tokens(rec,"|",ref::compress));
                        for (; got && i < 4; ++i) got = (*vs[i])(tk[i].data(),tk[i].data() + tk[i].size()); } break;
         }
         V_EQ(got,f.ok && g.ok,"record verdict, form " << form);
         V_EQ(l,lead,"leading scalar, form " << form);
         V_EQ(content(x),content(f.want),"first sink, form " << form);
         V_EQ(content(y),content(f.ok ? g.want : g.start),"second sink, form " << form);
         V_EQ(t,got ? trail : -1,"trailing scalar, form " << form);
         c.event(got ? "records_accepted" : "records_refused");
      }
   }
   if (!f.text.empty()) c.cover(c.context);
   c.sample(c.context);
}

#define KINDS(T)                                                                 \
   switch (c.index % 8)                                                          \
   {                                                                             \
      case 0 : one_sink<std::vector<T> >(c,"vector<" #T ">"); break;             \
      case 1 : one_sink<std::deque<T> >(c,"deque<" #T ">"); break;               \
      case 2 : one_sink<std::list<T> >(c,"list<" #T ">"); break;                 \
      case 3 : one_sink<std::set<T> >(c,"set<" #T ">"); break;                   \
      case 4 : one_sink<std::multiset<T> >(c,"multiset<" #T ">"); break;         \
      case 5 : one_sink<std::queue<T> >(c,"queue<" #T ">"); break;               \
      case 6 : one_sink<std::stack<T> >(c,"stack<" #T ">"); break;               \
      case 7 : one_sink<std::priority_queue<T> >(c,"priority_queue<" #T ">"); break; \
   }

#if VH_IN(0)
V_SECTION(int_sinks, 6000) { KINDS(int) }
#endif
#if VH_IN(1)
V_SECTION(text_sinks, 4000) { KINDS(std::string) }
#endif
#if VH_IN(2)
V_SECTION(real_sinks, 4000) { KINDS(double) }
#endif
#if VH_IN(3)
struct person { std::string name; unsigned int age; double height; long long id; char group; };
strtk_parse_begin(person)
   strtk_parse_type(name)
   strtk_parse_type(age)
   strtk_parse_type(height)
   strtk_parse_type(id)
   strtk_parse_type(group)
strtk_parse_end()

V_SECTION(user_sinks, 4000) { KINDS(point) }

// a user-defined converter at work wherever a conversion happens
V_SECTION(user_types, 6000)
{
   std::vector<std::string> toks; for (std::size_t k = 1 + c.r.len(8); k-- > 0;) toks.push_back(c.r.chance(1,10) ? slot::of<point>::bad(c.r) : slot::of<point>::good(c.r));
   const std::string text = slot::record(c.r,toks,"|");
   c.context = "text=" + vh::q(text);
   const std::vector<std::string> tk = ref::strings(text,ref::tokens(text,"|",ref::compress));
   std::vector<point> want; for (auto& s : tk) { point t; if (slot::of<point>::conv(s,t)) want.push_back(t); }
   vh::Buf<char> b(text); const char* p = b.begin(); const char* e = b.end();
   { std::vector<point> x; V_EQ(strtk::parse(p,e,std::string("|"),x),tk.size(),"tokens"); V_EQ(x,want,"vector of user values"); }
   { std::deque<point> x; strtk::parse(text,"|",x); V_EQ(content(x),want,"deque of user values"); }
   { std::set<point> x; strtk::parse(text,"|",x); V_EQ(content(x),content(std::set<point>(want.begin(),want.end())),"set of user values"); }
   { std::vector<point> x; strtk::split("|",text,strtk::range_to_type_back_inserter(x),strtk::split_options::compress_delimiters); V_EQ(x,want,"split into user values"); }
   for (auto& s : tk)
   {
      point w, g; const bool ok = slot::of<point>::conv(s,w);
      V_EQ(strtk::string_to_type_converter(s,g),ok,"user conversion"); V_EQ(g,w,"user value");
      bool threw = false; point h; try { h = strtk::string_to_type_converter<point>(s); } catch (const std::invalid_argument&) { threw = true; }
      V_EQ(threw,!ok,"throwing user conversion"); if (ok) V_EQ(h,w,"thrown-or-returned user value");
      c.event(ok ? "user_values" : "user_refusals");
   }
   if (tk.size() >= 2)
   {
      point a, b2, wa, wb; const bool oa = slot::of<point>::conv(tk[0],wa), ob = oa && slot::of<point>::conv(tk[1],wb);
      V_EQ(strtk::parse(text,"|",a,b2),ob,"record of user values"); V_EQ(a,wa,"first user value"); V_EQ(b2,wb,"second user value");
   }
   strtk::token_grid grid(text,text.size(),"|");
   if (!text.empty() && grid.row_count() == 1)
      for (std::size_t i = 0; i < grid.row(0).size(); ++i)
      {
         const std::string s(grid.row(0).token(i).first,grid.row(0).token(i).second); point w;
         if (slot::of<point>::conv(s,w)) { V_EQ(grid.row(0).get<point>(i),w,"grid token as user value"); c.event("grid_values"); }
      }
   if (!text.empty()) c.cover(c.context);
}

// a type known only by its operator<< can be turned into text and joined
struct ratio { int a, b; };
static std::ostream& operator<<(std::ostream& o, const ratio& r) { return o << r.a << '/' << r.b; }
V_SECTION(streamed_types, 2000)
{
   std::vector<ratio> x; std::string want;
   for (std::size_t n = c.r.len(6); n-- > 0;)
   {
      ratio r; r.a = static_cast<int>(c.r.next()); r.b = static_cast<int>(c.r.range(-99,99)); const std::string t = std::to_string(r.a) + "/" + std::to_string(r.b); std::string s = "old";
      V_CHECK(strtk::type_to_string(r,s),"written"); V_EQ(s,t,"streamed text"); V_EQ(strtk::type_to_string(r),t,"streamed text"); want += (x.empty() ? "" : ", ") + t; x.push_back(r); c.event("streamed_values");
   }
   V_EQ(strtk::join(", ",x),want,"joined streamed values"); const std::list<ratio> l(x.begin(),x.end()); V_EQ(strtk::join(", ",l.begin(),l.end()),want,"joined streamed values");
   if (!x.empty()) c.cover(want);
}

// a user record registered member by member
V_SECTION(user_records, 6000)
{
   std::vector<std::string> t(5);
   std::string bad; const std::size_t k = c.r.chance(1,3) ? c.r.below(5) : 9;
   t[0] = slot::of<std::string>::good(c.r); t[1] = k == 1 ? "-" : slot::of<unsigned int>::good(c.r); t[2] = k == 2 ? "1.2.3" : slot::of<double>::good(c.r);
   t[3] = k == 3 ? "9x" : slot::of<long long>::good(c.r); t[4] = k == 4 ? "ab" : slot::of<char>::good(c.r);
   if (c.r.chance(1,8)) t.resize(c.r.below(5));
   if (c.r.chance(1,8)) t.push_back("more");
   const std::string text = slot::record(c.r,t,"|"); c.context = "text=" + vh::q(text);
   person w = { "none", 1, 2.5, 3, '4' }, g = w;
   const std::vector<std::string> tk = ref::strings(text,ref::tokens(text,"|",ref::compress));
   bool ok = tk.size() >= 5;
   if (ok) { w.name = tk[0]; ok = slot::of<unsigned int>::conv(tk[1],w.age) && slot::of<double>::conv(tk[2],w.height) && slot::of<long long>::conv(tk[3],w.id) && slot::of<char>::conv(tk[4],w.group); }
   V_EQ(strtk::parse(text,"|",g),ok,"record verdict");
   V_EQ(g.name,w.name,"member name"); V_EQ(g.age,w.age,"member age"); V_CHECK(slot::of<double>::same(g.height,w.height),"member height"); V_EQ(g.id,w.id,"member id"); V_EQ(g.group,w.group,"member group");
   c.event(ok ? "user_records_accepted" : "user_records_refused");
   if (!text.empty()) c.cover(c.context);
}
#endif
V_MAIN
