// U01: type-erased values, attributes, semantic actions and container helpers
#include "conv_ref.hpp"
#include <memory>
#include <climits>
#include <list>
#include <deque>
#include <set>
#include <map>
#include <stack>
#include <queue>
#include "strtk.hpp"
#include <sys/time.h>
#include <unistd.h>
typedef std::string Str;
typedef unsigned char uc;

static Str word(vh::Rng& r)
{
   switch (r.below(12)) { case 0 : return ""; case 1 : return r.str(1 + r.below(4),"xyz "); case 2 : return vh::show(static_cast<long long>(INT_MAX) + r.range(-1,2)); case 3 : return vh::show(static_cast<long long>(INT_MIN) + r.range(-2,1));
      case 4 : return vh::show(65535 + r.range(-1,2)); case 5 : return vh::show(r.range(-99,99)) + "." + r.str(1 + r.below(3),"0123456789"); case 6 : return vh::show(r.below(9)) + "z"; case 7 : return Str("\x80\xFFq",3); default: return vh::show(r.range(-300,70000)); }
}
static bool conv(const Str& s, Str& t) { t = s; return true; }
static bool conv(const Str& s, double& t) { return real_of(s,t); }
template <typename T> static bool conv(const Str& s, T& t) { long long v; if (!int_of(s,std::numeric_limits<T>::min(),std::numeric_limits<T>::max(),v)) return false; t = static_cast<T>(v); return true; }
static bool same(double a, double b) { return fabs(a - b) <= fabs(b) * 1e-13; }
template <typename T> static bool same(const T& a, const T& b) { return a == b; }

struct Vars { int i; unsigned short u; long long l; double d; Str s; Vars() : i(1), u(2), l(3), d(4.5), s("five") {}
   bool set(std::size_t k, const Str& t) { switch (k) { case 0 : return conv(t,i); case 1 : return conv(t,u); case 2 : return conv(t,l); case 3 : return conv(t,d); default: return conv(t,s); } }
   Str text(std::size_t k) const { switch (k) { case 0 : return vh::show(i); case 1 : return vh::show(u); case 2 : return vh::show(l); case 3 : return strtk::type_to_string(d); default: return s; } }
   bool operator==(const Vars& o) const { return i == o.i && u == o.u && l == o.l && same(d,o.d) && s == o.s; } 
   template <typename F> void with(std::size_t k, F f) { switch (k) { case 0 : f(i); break; case 1 : f(u); break; case 2 : f(l); break; case 3 : f(d); break; default: f(s); } } };

V_SECTION(values, 6000)
{
   // a population of values bound to five variables (or to none)
   typedef strtk::util::value V; Vars x, m; std::vector<V> vs; std::vector<int> bound; Str log;
   const std::size_t steps = 4 + c.r.below(30);
   for (std::size_t st = 0; st < steps; ++st)
   {
      const std::size_t op = c.r.below(10), n = vs.size(), at = n ? c.r.below(n) : 0, k = c.r.below(5);
      c.context = log;
      if (op == 0 || !n) { log += " new"; vs.push_back(V()); bound.push_back(-1); }
      else if (op == 1) { log += " bind" + vh::show(k); x.with(k,[&](auto& t) { V v(t); vs.push_back(v); }); bound.push_back(static_cast<int>(k)); }
      else if (op == 2) { log += " assign" + vh::show(at) + ":" + vh::show(k); x.with(k,[&](auto& t) { vs[at].assign(t); }); bound[at] = static_cast<int>(k); }
      else if (op == 3) { const std::size_t f = c.r.below(n); log += " copy" + vh::show(f) + ">" + vh::show(at); vs[at] = vs[f]; bound[at] = bound[f]; }
      else if (op == 4) { const V& f = vs[at]; V g = f; const V h(f); vs.erase(vs.begin() + static_cast<long>(at)); const int b = bound[at]; bound.erase(bound.begin() + static_cast<long>(at)); log += " move" + vh::show(at); vs.insert(vs.begin(),c.r.flip() ? g : h); bound.insert(bound.begin(),b); }
      else if (op == 5) { Str s = "old"; const bool got = vs[at].to_string(s); V_EQ(got,bound[at] >= 0,"to_string verdict"); if (got) V_EQ(s,x.text(static_cast<std::size_t>(bound[at])),"to_string"); else V_EQ(s,Str("old"),"untouched"); if (got) { Str t; V_CHECK(strtk::type_to_string(vs[at],t),"type_to_string"); V_EQ(t,s,"type_to_string"); } }
      else
      {
         const Str w = word(c.r); const V& v = vs[at]; bool got; vh::Buf<char> b(w);
         log += " v" + vh::show(at) + "=" + vh::q(w); c.context = log;
         switch (c.r.below(5)) { case 0 : got = v(w); break; case 1 : got = v(static_cast<const char*>(b.begin()),static_cast<const char*>(b.end())); break; case 2 : { vh::Buf<uc> u(w); got = v(static_cast<const uc*>(u.begin()),static_cast<const uc*>(u.end())); } break; case 3 : got = v(std::make_pair(static_cast<const char*>(b.begin()),static_cast<const char*>(b.end()))); break; default: { const char* p = b.begin(); got = strtk::string_to_type_converter(p,static_cast<const char*>(b.end()),vs[at]); } }
         const bool want = bound[at] >= 0 && m.set(static_cast<std::size_t>(bound[at]),w);
         V_EQ(got,want,"verdict"); c.event(want ? "values_set" : bound[at] < 0 ? "unbound_refused" : "values_refused",1);
      }
      V_CHECK(x == m,"the bound variables, and only those");
      for (std::size_t i = 0; i < vs.size(); ++i) V_EQ(!vs[i],bound[i] < 0,"bound");
   }
   c.cover(log);
}

template <typename A, typename T> static void c_string_checks(vh::Case&, const A&, const T&) {}
template <typename A> static void c_string_checks(vh::Case& c, const A& a, const Str& v)
{ V_CHECK(v.c_str() == a,"C string equality"); V_CHECK(!(v.c_str() != a),"C string inequality"); V_CHECK((v + "x").c_str() != a && !((v + "x").c_str() == a),"C string difference"); }
template <typename T> static void attribute_case(vh::Case& c, const char* name, std::vector<T> pool)
{
   typedef strtk::util::attribute<T> A; Str log = name; T v = T(), p = T(); bool init = c.r.flip();
   // a default constructed attribute starts from the default value
   typedef typename std::aligned_storage<sizeof(A)>::type raw; std::unique_ptr<raw> mem(new raw); memset(mem.get(),0xA5,sizeof(raw)); A* a;
   if (init) { v = p = c.r.pick(pool); a = new (mem.get()) A(v); log += "(" + vh::show(v) + ")"; } else a = new (mem.get()) A();
   const std::size_t steps = 1 + c.r.below(12);
   for (std::size_t st = 0; st < steps; ++st)
   {
      const std::size_t op = c.r.below(6); const T t = c.r.pick(pool);
      if (op < 2) { log += " =" + vh::show(t); (*a) = t; p = v; v = t; init = true; }
      else if (op == 2) { const Str w = word(c.r); log += " <" + vh::q(w); c.context = log; T k = v; const bool ok = conv(w,k); V_EQ(strtk::string_to_type_converter(w,*a),ok,"parse verdict"); if (ok) { v = k; init = true; } c.event(ok ? "attributes_parsed" : "attributes_refused",1); }
      else if (op == 3) { A* b = new A(*a); a->~A(); memset(mem.get(),0x5A,sizeof(raw)); a = new (mem.get()) A(*b); delete b; log += " copy"; }
      else if (op == 4) { (*a)() = t; v = t; log += " ()" + vh::show(t); }
      else { log += " ," ; const Str w = "7," + vh::show(t) + ",x"; int i = 0; Str s; T k = v; const bool ok = conv(vh::show(t),k) && !vh::show(t).empty(); if (vh::show(t).find(',') == Str::npos && vh::show(t) != "") { V_EQ(strtk::parse(w,",",i,*a,s),ok,"record verdict"); if (ok) { v = k; init = true; V_EQ(s,Str("x"),"following field"); } } }
      c.context = log; const A& ca = *a;
      V_EQ(a->initialised(),init,"initialised"); V_EQ(ca.initialised(),init,"initialised");
      V_CHECK(same(a->value(),v) && same(ca.value(),v) && same(ca(),v) && same(static_cast<T>(*a),v) && same(static_cast<T>(ca),v),"value " + vh::show(a->value()) + " expected " + vh::show(v));
      V_CHECK(same(ca.previous(),p) && same(a->previous(),p),"previous " + vh::show(ca.previous()) + " expected " + vh::show(p));
      V_EQ(a->changed(),init && a->value() != a->previous(),"changed");
      V_EQ((*a) == t,init && a->value() == t,"equality"); V_EQ((*a) != t,!(init && a->value() == t),"inequality");
      Str s = "old"; V_EQ(strtk::type_to_string(ca,s),init,"to text"); if (init) { Str e; strtk::type_to_string(a->value(),e); V_EQ(s,e,"to text"); } else V_EQ(s,Str("old"),"to text");
      c_string_checks(c,ca,v);
      std::ostringstream o1, o2; o1 << ca; o2 << a->value(); V_EQ(o1.str(),o2.str(),"stream");
      c.event("attribute_states",1); c.event(a->changed() ? "changed_states" : "unchanged_states",1);
   }
   a->~A(); c.cover(log);
}
V_SECTION(attributes, 5000)
{
   switch (c.r.below(6))
   {
      case 0 : attribute_case<int>(c,"int",{ 0, 1, -7, INT_MAX, INT_MIN }); break; case 1 : attribute_case<unsigned short>(c,"ushort",{ 0, 1, 65535 }); break; case 2 : attribute_case<double>(c,"double",{ 0.0, 1.5, -2.25, 300.0 }); break;
      case 3 : attribute_case<Str>(c,"string",{ "", "a", "abc", "a b", Str(100,'x') }); break; case 4 : attribute_case<long long>(c,"long long",{ 0, 5, LLONG_MAX, -3 }); break; default : attribute_case<unsigned int>(c,"unsigned",{ 0, 3, UINT_MAX }); break;
   }
}

struct Recorder { std::vector<Str>* seen; Str refuse; template <typename It> bool operator()(It b, It e) const { const Str t(b,e); seen->push_back(t); return t != refuse; } };
V_SECTION(actions, 4000)
{
   // an action sees exactly its token, once, and its verdict decides the parse
   std::vector<Str> s1, s2; Recorder r1 = { &s1, c.r.chance(1,3) ? "x" : "none" }, r2 = { &s2, c.r.chance(1,3) ? "y" : "none" };
   const Str a = c.r.str(c.r.below(3),"xyz"), b = c.r.str(c.r.below(3),"xyz"), n = word(c.r); Str text = "7|" + a + "|" + n + "|" + b; c.context = vh::q(text) + " refusing " + r1.refuse + "," + r2.refuse;
   auto a1 = strtk::util::semantic_action(r1); auto a2 = strtk::util::semantic_action(r2); int i = 0, j = -5; V_CHECK(!!a1 && !!a2,"bound"); { strtk::util::semantic_action_impl none; V_CHECK(!none,"unbound"); V_CHECK(!none(text),"unbound"); strtk::util::semantic_action_impl still(none); V_CHECK(!still,"a copy of nothing"); V_CHECK(!still(text),"a copy of nothing"); }
   // runs of delimiters count as one
   const std::vector<Str> tok = ref::strings(text,ref::tokens(text,"|",ref::compress));
   std::vector<Str> e1, e2; bool want = tok.size() >= 4; int ej = -5;
   if (want) { e1.push_back(tok[1]); want = tok[1] != r1.refuse; if (want) { int k; want = conv(tok[2],k); if (want) { ej = k; e2.push_back(tok[3]); want = tok[3] != r2.refuse; } } }
   bool got;
   if (c.r.flip()) got = strtk::parse(text,"|",i,a1.ref(),j,a2.ref());
   else { const strtk::util::semantic_action_impl& ca = a1; strtk::util::semantic_action_impl cp(ca); vh::Buf<char> buf(text); const Str bar = "|"; got = strtk::parse(static_cast<const char*>(buf.begin()),static_cast<const char*>(buf.end()),bar,i,cp,j,a2.ref()); }
   V_EQ(got,want,"verdict"); V_CHECK(s1 == e1,"first action saw its token"); V_CHECK(s2 == e2,"second action saw its token"); V_EQ(j,ej,"number between");
   s1.clear(); V_EQ(a1(a),a != r1.refuse,"direct call"); V_EQ(s1.size(),std::size_t(1),"direct call"); V_EQ(a1(std::make_pair(a.data(),a.data() + a.size())),a != r1.refuse,"pair call"); V_CHECK(s1.back() == a,"pair call");
   c.event(want ? "actions_accepted" : "actions_refused",1); c.cover(c.context);
}

struct Obj { static VH_TLS long live; int v; Obj(int x) : v(x) { ++live; } ~Obj() { --live; v = -1; } private: Obj(const Obj&); Obj& operator=(const Obj&); };
VH_TLS long Obj::live = 0;
struct odd_ { int k; bool operator()(const Obj* o) const { return o->v % k == 0; } template <typename K> bool operator()(const std::pair<const K,Obj*>& p) const { return p.second->v % k == 0; } };
template <typename C> static std::vector<int> left(const C& x) { std::vector<int> r; for (auto* o : x) r.push_back(o->v); return r; }
template <typename K, typename M> static std::vector<int> left_map(const M& x) { std::vector<int> r; for (auto& o : x) r.push_back(o.second->v); return r; }
struct by_value { bool operator()(const Obj* a, const Obj* b) const { return a->v < b->v; } };
V_SECTION(owning_containers, 4000)
{
   V_EQ(Obj::live,0L,"nothing alive before"); const std::size_t n = c.r.len(12), kind = c.r.below(7); std::vector<int> vals; for (std::size_t i = 0; i < n; ++i) vals.push_back(static_cast<int>(c.r.below(9))); odd_ p = { 1 + static_cast<int>(c.r.below(4)) }; const bool some = c.r.flip();
   c.context = "kind " + vh::show(kind) + (some ? " delete_if k=" + vh::show(p.k) : Str(" delete_all")) + " values"; for (int v : vals) c.context += " " + vh::show(v);
   std::vector<int> keep, got; for (int v : vals) if (some && v % p.k != 0) keep.push_back(v); std::size_t size = 0;
   #define RUN(cont,get) if (some) { strtk::util::delete_if(p,cont); got = get; V_EQ(Obj::live,static_cast<long>(keep.size()),"alive after delete_if"); size = cont.size(); strtk::util::delete_all(cont); V_CHECK(cont.empty(),"emptied"); } else { strtk::util::delete_all(cont); size = cont.size(); }
   switch (kind)
   {
      case 0 : { std::vector<Obj*> x; for (int v : vals) x.push_back(new Obj(v)); RUN(x,left(x)) } break;
      case 1 : { std::list<Obj*> x; for (int v : vals) x.push_back(new Obj(v)); RUN(x,left(x)) } break;
      case 2 : { std::deque<Obj*> x; for (int v : vals) x.push_back(new Obj(v)); RUN(x,left(x)) } break;
      case 3 : { std::set<Obj*> x; for (int v : vals) x.insert(new Obj(v)); RUN(x,left(x)) std::sort(got.begin(),got.end()); std::sort(keep.begin(),keep.end()); } break;
      case 4 : { std::multiset<Obj*,by_value> x; for (int v : vals) x.insert(new Obj(v)); RUN(x,left(x)) std::sort(keep.begin(),keep.end()); } break;
      case 5 : { std::map<int,Obj*> x; int k = 0; for (int v : vals) x[k++] = new Obj(v); RUN(x,left_map<int>(x)) } break;
      default: { std::multimap<Str,Obj*> x; for (int v : vals) x.insert(std::make_pair(Str(1,static_cast<char>('a' + v / 3)),new Obj(v))); RUN(x,left_map<Str>(x)) std::sort(got.begin(),got.end()); std::sort(keep.begin(),keep.end()); }
   }
   V_CHECK(got == keep,"survivors"); V_EQ(size,keep.size(),"size"); V_EQ(Obj::live,0L,"everything deleted exactly once");
   c.event("objects_deleted",n - keep.size()); c.event("objects_kept",keep.size()); c.cover(c.context);
}

template <typename S> static void push_some(S& s, std::size_t n, const int* v)
{
   switch (n)
   {
      case 1 : strtk::util::push_back(s,v[0]); break; case 2 : strtk::util::push_back(s,v[0],v[1]); break; case 3 : strtk::util::push_back(s,v[0],v[1],v[2]); break; case 4 : strtk::util::push_back(s,v[0],v[1],v[2],v[3]); break;
      case 5 : strtk::util::push_back(s,v[0],v[1],v[2],v[3],v[4]); break; case 6 : strtk::util::push_back(s,v[0],v[1],v[2],v[3],v[4],v[5]); break; case 7 : strtk::util::push_back(s,v[0],v[1],v[2],v[3],v[4],v[5],v[6]); break;
      case 8 : strtk::util::push_back(s,v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7]); break; case 9 : strtk::util::push_back(s,v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8]); break; default: strtk::util::push_back(s,v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9]); break;
   }
}
template <std::size_t N> static void compare_n(vh::Case& c)
{
   const Str a = c.r.bytes(N); Str b = a; if (N && c.r.chance(2,3)) b[c.r.below(N)] ^= static_cast<char>(1u << c.r.below(8));
   vh::Buf<uc> x(a), y(b); c.context = "memcmp_n<" + vh::show(N) + "> " + vh::q(a) + " " + vh::q(b);
   V_EQ(strtk::memcmp_n<N>(static_cast<const uc*>(x.begin()),static_cast<const uc*>(y.begin())),a == b,"memcmp_n"); V_EQ(strtk::memcmp_n<N>(reinterpret_cast<const char*>(x.begin()),reinterpret_cast<const char*>(y.begin())),a == b,"memcmp_n (char)");
   c.event(a == b ? "equal_blocks" : "different_blocks",1); c.cover(c.context);
}
V_SECTION(containers, 4000)
{
   std::map<Str,int> m; std::multimap<int,Str> mm; const std::size_t n = c.r.len(9); std::vector<Str> keys; 
   for (std::size_t i = 0; i < n; ++i) { m[c.r.str(c.r.below(3),"ab")] = static_cast<int>(i); mm.insert(std::make_pair(static_cast<int>(c.r.below(4)),vh::show(i))); } for (auto& e : m) keys.push_back(e.first); c.context = "map of " + vh::show(m.size());
   { std::vector<Str> v(1,"q"); strtk::util::make_key_list(m,v); std::vector<Str> e(1,"q"); e.insert(e.end(),keys.begin(),keys.end()); V_CHECK(v == e,"keys into a vector"); std::deque<Str> d; strtk::util::make_key_list(m,d); V_CHECK(std::equal(d.begin(),d.end(),keys.begin()) && d.size() == keys.size(),"keys into a deque"); std::list<Str> l; strtk::util::make_key_list(m,l); V_CHECK(l.size() == keys.size() && std::equal(l.begin(),l.end(),keys.begin()),"keys into a list"); std::set<Str> s; strtk::util::make_key_list(m,s); V_CHECK(s == std::set<Str>(keys.begin(),keys.end()),"keys into a set"); std::multiset<Str> ms; ms.insert("a"); strtk::util::make_key_list(m,ms); std::multiset<Str> em(keys.begin(),keys.end()); em.insert("a"); V_CHECK(ms == em,"keys into a multiset"); }
   { const int k = static_cast<int>(c.r.below(5)); std::vector<Str> e; for (auto& x : mm) if (x.first == k) e.push_back(x.second); std::vector<Str> v; strtk::util::make_value_list(mm,k,v); V_CHECK(v == e,"values of a key"); std::deque<Str> d; strtk::util::make_value_list(mm,k,vh::into(d)); V_CHECK(d.size() == e.size() && std::equal(e.begin(),e.end(),d.begin()),"values of a key (iterator)"); }
   { int v[11]; for (int& x : v) x = static_cast<int>(c.r.below(8)); const std::size_t k = 1 + c.r.below(10); c.context = "push_back of " + vh::show(k); std::vector<int> q(1,99), e(1,99); e.insert(e.end(),v,v + k); push_some(q,k,v); V_CHECK(q == e,"vector"); std::list<int> l; push_some(l,k,v); V_CHECK(l.size() == k && std::equal(v,v + k,l.begin()),"list"); std::set<int> s; push_some(s,k,v); V_CHECK(s == std::set<int>(v,v + k),"set"); std::multiset<int> ms; push_some(ms,k,v); V_CHECK(ms == std::multiset<int>(v,v + k),"multiset"); std::vector<int> q11; strtk::util::push_back(q11,v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8],v[9],v[10]); V_CHECK(q11.size() == 11 && std::equal(v,v + 11,q11.begin()),"eleven");
     strtk::util::clear(q); strtk::util::clear(l); strtk::util::clear(s); strtk::util::clear(ms); V_CHECK(q.empty() && q.capacity() == 0 && l.empty() && s.empty() && ms.empty(),"cleared"); std::deque<int> d(3,1); strtk::util::clear(d); V_CHECK(d.empty(),"cleared deque"); }
   { const int was = static_cast<int>(c.r.below(12)); int t = was; const bool on = c.r.flip(), flip = c.r.chance(1,3); { strtk::util::scoped_restore<int> r(t,on); t = 9; if (flip) r.restore() = !on; } V_EQ(t,(on != flip) ? was : 9,"scoped_restore"); Str s(40,'a'); { strtk::util::scoped_restore<Str> r(s); s = "changed"; } V_EQ(s,Str(40,'a'),"restored string"); }
   c.event("key_lists",1);
   switch (c.r.below(12)) { case 0 : compare_n<1>(c); break; case 1 : compare_n<2>(c); break; case 2 : compare_n<3>(c); break; case 3 : compare_n<4>(c); break; case 4 : compare_n<5>(c); break; case 5 : compare_n<7>(c); break; case 6 : compare_n<8>(c); break; case 7 : compare_n<11>(c); break; case 8 : compare_n<15>(c); break; case 9 : compare_n<16>(c); break; case 10 : compare_n<23>(c); break; default: compare_n<64>(c); }
}

// timers: a stopped timer reports the time between start and stop, a running or unused one does not pretend to
static double wall() { timeval t; gettimeofday(&t,0); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_usec) * 1e-6; }
V_SECTION(timers, 40)
{
   strtk::util::timer t; V_CHECK(!t.in_use(),"fresh timer in use"); V_EQ(t.usec_time(),0ull,"fresh timer");
   for (std::size_t k = 1 + c.r.below(3); k-- > 0;)
   {
      const double a = wall(); t.start(); const double b = wall(); V_CHECK(t.in_use(),"running timer");
      const unsigned nap = static_cast<unsigned>(c.r.below(4)) * 1500u; if (nap) usleep(nap); c.context = "nap=" + std::to_string(nap);
      const double d = wall(); t.stop(); const double e = wall(); V_CHECK(!t.in_use(),"stopped timer in use");
      if (a <= b && b <= d && d <= e) // unless the clock was set back meanwhile
      {
         const double lo = d - b - 3e-6, hi = e - a + 3e-6; V_CHECK(t.time() >= lo && t.time() <= hi,"timer says " << t.time() << " outside [" << lo << "," << hi << "]");
         V_CHECK(std::abs(t.time() * 1e6 - static_cast<double>(t.usec_time())) < 0.5,"time() and usec_time() disagree"); c.event("intervals_timed",1);
      }
   }
   double x = -1; const double a = wall(); { strtk::util::scoped_timer st(x); V_EQ(x,-1.0,"a scoped timer reports at its end"); } const double b = wall(); if (a <= b) V_CHECK(x >= 0 && x <= b - a + 3e-6,"scoped timer " << x);
   c.cover(std::to_string(c.index));
}
V_MAIN
