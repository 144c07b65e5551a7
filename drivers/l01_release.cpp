// L01: every block and file handle acquired is released exactly once - over histories, when memory runs out, when user code throws
#include "ref.hpp"
#include <new>
#include <memory>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <set>
#include <map>
#include <fstream>
#include <sstream>
#include <dirent.h>
#include <unistd.h>
#include "strtk.hpp"
typedef std::string Str;

// ---- the monitor: every operator new and delete of the process, and every throwing point of user code ----
namespace mon
{
   struct Head { unsigned long long magic, size; };
   static const unsigned long long scalar = 0x5CA1A12B10C4ULL, array = 0xA22A7B10C4ULL, freed = 0xDEADB10C4ULL;
   static long live = 0, allocations = 0, ticks = 0, alloc_fuse = -1, tick_fuse = -1; static bool armed = false;
   static unsigned long blown = 0; static const char* bad = 0;
   static void* get(std::size_t n, unsigned long long kind)
   {
      ++allocations;
      if (alloc_fuse >= 0 && alloc_fuse-- == 0) { ++blown; return 0; }
      Head* h = static_cast<Head*>(malloc(sizeof(Head) + n)); if (!h) return 0;
      h->magic = kind; h->size = n; ++live; return h + 1;
   }
   static void put(void* p, unsigned long long kind)
   {
      if (!p) return;
      Head* h = static_cast<Head*>(p) - 1;
      if (h->magic != kind) { bad = h->magic == freed ? "a block was released twice" : h->magic == scalar || h->magic == array ? "a block was released by the wrong form of delete" : "something that is no block was released"; return; }
      h->magic = freed; --live; free(h);
   }
   struct UserError { };
   static void tick() { ++ticks; if (tick_fuse >= 0 && tick_fuse-- == 0) { ++blown; throw UserError(); } }
   static long files()
   {
      long n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0;
      while (readdir(d)) ++n;
      closedir(d); return n;
   }
   // whether the number of open files is back; a reading that differs is repeated, so that nothing but a file left open counts
   static bool files_are(long n) { for (int i = 0; i < 5; ++i) { if (files() == n) return true; usleep(3000); } return false; }
}
void* operator new(std::size_t n) { void* p = mon::get(n,mon::scalar); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = mon::get(n,mon::array); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return mon::get(n,mon::scalar); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return mon::get(n,mon::array); }
void operator delete(void* p) noexcept { mon::put(p,mon::scalar); }
void operator delete[](void* p) noexcept { mon::put(p,mon::array); }
void operator delete(void* p, std::size_t) noexcept { mon::put(p,mon::scalar); }
void operator delete[](void* p, std::size_t) noexcept { mon::put(p,mon::array); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mon::put(p,mon::scalar); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mon::put(p,mon::array); }

// an element whose copies may fail and whose instances are counted
struct Tracked
{
   int v; static long alive;
   Tracked(int x = 0) : v(x) { mon::tick(); ++alive; }
   Tracked(const Tracked& o) : v(o.v) { mon::tick(); ++alive; }
   Tracked& operator=(const Tracked& o) { mon::tick(); v = o.v; return *this; }
  ~Tracked() { --alive; }
   bool operator<(const Tracked& o) const { mon::tick(); return v < o.v; }
   bool operator==(const Tracked& o) const { return v == o.v; }
};
long Tracked::alive = 0;
inline std::istream& operator>>(std::istream& s, Tracked& t) { mon::tick(); return s >> t.v; }
inline std::ostream& operator<<(std::ostream& s, const Tracked& t) { mon::tick(); return s << t.v; }
strtk_string_to_type_begin(Tracked) mon::tick(); return string_to_type_converter(begin,end,t.v); strtk_string_to_type_end()
strtk_register_userdef_type_sink(Tracked)

// one step of a history: survives the injected fault and says whether it happened
struct Steps
{
   unsigned faults; Steps() : faults(0) {}
   template <typename F> bool operator()(F f)
   {
      try { f(); return true; }
      catch (const std::bad_alloc&) { ++faults; return false; }
      catch (const mon::UserError&) { ++faults; return false; }
      catch (const std::exception&) { if (mon::alloc_fuse >= 0 || !mon::armed) throw; ++faults; return false; } // strtk's own words for a failed conversion
   }
};

template <typename Op> static void probe(vh::Case& c, Op op)
{
   { Steps s; op(s); V_EQ(s.faults,0u,"fault without injection"); } // also fills whatever the library keeps once
   long live = mon::live; const long files = mon::files(), objects = Tracked::alive; mon::bad = 0;
   auto settled = [&](const char* how, long k) {
      mon::alloc_fuse = mon::tick_fuse = -1;
      V_CHECK(mon::bad == 0,mon::bad << how << k); V_CHECK(mon::live == live,mon::live - live << " memory blocks kept" << how << k);
      V_CHECK(Tracked::alive == objects,Tracked::alive - objects << " objects kept" << how << k); V_CHECK(mon::files_are(files),mon::files() - files << " files left open" << how << k); };
   live = mon::live; const long a0 = mon::allocations, t0 = mon::ticks;
   { Steps s; op(s); }
   const long total[2] = { mon::allocations - a0, mon::ticks - t0 };
   settled(" without any fault ",0);
   c.event("blocks_balanced",static_cast<vh::u64>(total[0])); c.event("histories_balanced",1);
   for (int kind = 0; kind < 2; ++kind)
   {
      const long n = total[kind]; std::vector<long> at;
      if (n <= 20) for (long k = 0; k < n; ++k) at.push_back(k);
      else { at.push_back(0); at.push_back(n - 1); for (int k = 0; k < 16; ++k) at.push_back(static_cast<long>(c.r.below(static_cast<vh::u64>(n)))); }
      for (std::size_t k = 0; k < at.size(); ++k)
      {
         const unsigned long before = mon::blown; bool thrown = false; Steps s;
         mon::armed = kind == 0; live = mon::live; (kind ? mon::tick_fuse : mon::alloc_fuse) = at[k];
         try { op(s); } catch (const std::bad_alloc&) { thrown = true; } catch (const mon::UserError&) { thrown = true; } catch (const std::exception&) { if (mon::blown == before) throw; thrown = true; } catch (...) { mon::alloc_fuse = mon::tick_fuse = -1; throw; }
         mon::alloc_fuse = mon::tick_fuse = -1; mon::armed = false;
         settled(kind ? " after user code threw at its call " : " after memory ran out at allocation ",at[k]);
         V_CHECK(mon::blown == before + 1 || !(thrown || s.faults),"a failure out of nowhere");
         V_CHECK(kind == 0 || mon::blown == before || thrown || s.faults,"an exception of user code vanished");
         if (mon::blown != before) { c.event(kind ? "user_exceptions" : "allocations_failed",1); c.event(thrown || s.faults ? "faults_reported" : "faults_absorbed",1); }
      }
   }
}
static void spill(const Str& path, const Str& data) { FILE* f = fopen(path.c_str(),"wb"); if (!f || fwrite(data.data(),1,data.size(),f) != data.size()) abort(); fclose(f); }
static Str grid_text(vh::Rng& r) { Str t; for (std::size_t k = r.below(8); k > 0; --k) { for (std::size_t n = 1 + r.below(5); n > 0; --n) { t += r.str(r.below(4),"ab12\""); t += n > 1 ? "," : ""; } t += "\n"; } return t; }
struct RowBomb { unsigned keep; template <typename Row> bool operator()(const Row& row) const { mon::tick(); return row.index() % keep == 0; } };
struct TokBomb { template <typename R> bool operator()(const R& range) const { mon::tick(); return std::distance(range.first,range.second) == 1; } };
static strtk::token_grid::options layout(int kind)
{
   strtk::token_grid::options o; o.set_row_delimiters("\n").set_column_delimiters(kind & 1 ? "," : ",;|ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"); o.support_dquotes = (kind & 2) != 0; o.trim_dquotes = (kind & 4) != 0;
   o.set_column_split_option(kind & 8 ? strtk::split_options::compress_delimiters : strtk::split_options::default_mode); return o;
}
V_SECTION(grid_histories, 900)
{
   const vh::u64 seed = c.r.next(); const Str path = vh::tmp() + "/l01.txt", none = vh::tmp() + "/l01.none", hollow = vh::tmp() + "/l01.empty"; const Str text = grid_text(c.r) + "a,b\n", user = grid_text(c.r);
   spill(path,text); spill(hollow,""); c.context = "history " + vh::show(seed) + " over file " + vh::q(text) + " and buffer " + vh::q(user);
   probe(c,[&](Steps& step) {
      vh::Rng r(seed); const int how = static_cast<int>(r.below(4)); const unsigned char* base = reinterpret_cast<const unsigned char*>(user.data());
      std::unique_ptr<strtk::token_grid> g; const int kind = static_cast<int>(r.below(16));
      step([&]() { switch (how) {
         case 0 : g.reset(new strtk::token_grid()); break;
         case 1 : g.reset(new strtk::token_grid(r.chance(1,5) ? none : r.chance(1,5) ? hollow : path)); break;
         case 2 : g.reset(new strtk::token_grid(path,layout(kind))); break;
         default: g.reset(new strtk::token_grid(base,user.size())); } });
      for (std::size_t n = 1 + r.below(6); n > 0 && g.get(); --n)
      {
         const int op = static_cast<int>(r.below(9)); const bool miss = r.chance(1,5), empty = r.chance(1,6); const int k = static_cast<int>(r.below(16)); const unsigned keep = 1 + static_cast<unsigned>(r.below(3));
         step([&]() { switch (op) {
            case 0 :
            case 1 : g->load(miss ? none : empty ? hollow : path,layout(k)); break;
            case 2 : g->load(const_cast<unsigned char*>(base),user.size(),layout(k)); break;
            case 3 : g->clear(); break;
            case 4 : { const RowBomb b = { keep }; g->remove_row_if(b); break; }
            case 5 : g->remove_empty_tokens(); break;
            case 7 :
            {
               // a buffer handed over: the grid deletes it when told to
               std::unique_ptr<unsigned char[]> p(new unsigned char[user.size() + 1]); std::copy(user.begin(),user.end(),p.get());
               if (!g->load(p.get(),user.size(),layout(k))) { g->clear(); break; }
               p.release(); g->clear(true); c.event("buffers_handed_over",1); break;
            }
            case 6 : { std::vector<Str> out; if (g->row_count()) g->extract_column(0,strtk::back_inserter_with_valuetype(out)); break; }
            default: { std::deque<Tracked> out; for (std::size_t i = 0; i < g->row_count(); ++i) g->row(i).parse(out); } } });
      }
      // whatever happened, the grid can be filled again
      const unsigned long was = mon::blown; bool got = false;
      if (g.get() && step([&]() { got = g->load(path,layout(1)); V_CHECK(got || mon::blown != was,"a file grid can be loaded after any history"); }) && got)
      {
         std::vector<Str> tok; const std::size_t rows = strtk::parse(text,"\n",tok); (void)rows;
         V_EQ(g->row_count(),static_cast<std::size_t>(std::count_if(tok.begin(),tok.end(),[](const Str& s) { return !s.empty(); })),"rows after a reload");
      }
   });
   c.event("grids",1); c.cover(c.context);
}
V_SECTION(bloom_histories, 600)
{
   using namespace strtk::bloom; const vh::u64 seed = c.r.next(); const Str path = vh::tmp() + "/l01.bloom", cut = vh::tmp() + "/l01.cut"; c.context = "history " + vh::show(seed);
   parameters p; p.projected_element_count = 5 + c.r.below(60); p.false_positive_probability = 0.05; p.random_seed = 1 + c.r.below(1000); p.compute_optimal_parameters();
   { filter f(p); f.insert(Str("there")); f.write_to_file(path); std::ifstream in(path.c_str(),std::ios::binary); Str all((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>()); spill(cut,all.substr(0,c.r.below(all.size()))); }
   probe(c,[&](Steps& step) {
      vh::Rng r(seed); std::unique_ptr<filter> f, g; std::unique_ptr<compressible_filter> z; parameters q = p; q.projected_element_count = 2 * p.projected_element_count; q.compute_optimal_parameters();
      if (!step([&]() { f.reset(new filter(p)); g.reset(new filter(q)); z.reset(new compressible_filter(p)); })) return;
      for (std::size_t n = 1 + r.below(8); n > 0; --n)
      {
         const int op = static_cast<int>(r.below(9)); const bool bad = r.chance(1,3); const double pc = static_cast<double>(r.below(100)); const Str key = r.str(r.below(9),"abc");
         step([&]() { switch (op) {
            case 0 : f->insert(key); g->insert(key); z->insert(key); break;
            case 1 : *f = *g; break;
            case 2 : *g = *f; break;
            case 3 : { filter h(*f); h.insert(key); *g = h; break; }
            case 4 : f->write_to_file(vh::tmp() + "/l01.out"); break;
            case 5 : { const unsigned long was = mon::blown; V_CHECK(f->read_from_file(bad ? cut : path) || bad || mon::blown != was,"reading a filter file"); break; }
            case 6 : z->compress(pc); break;
            case 7 : { compressible_filter y(*z); y.compress(pc); *z = y; break; }
            default: if (!!*f) f->clear(); } });
      }
      if (step([&]() { *f = filter(p); })) { step([&]() { f->insert(Str("again")); }); }
      const unsigned long was = mon::blown; bool got = false; if (step([&]() { got = f->read_from_file(path); V_CHECK(got || mon::blown != was,"a filter can be read after any history"); }) && got) V_CHECK(f->contains(Str("there")),"key of the file");
   });
   c.event("filters",1); c.cover(c.context);
}
V_SECTION(trie_histories, 600)
{
   const vh::u64 seed = c.r.next(); c.context = "history " + vh::show(seed);
   probe(c,[&](Steps& step) {
      vh::Rng r(seed); strtk::trie::prefix<Str::const_iterator,Tracked> t; strtk::trie::prefix<Str::const_iterator,Str> u; std::map<Str,Str> m; bool lost = false;
      for (std::size_t n = 1 + r.below(10); n > 0; --n)
      {
         const Str k = r.str(r.below(7),"ab"), v = r.str(r.below(40),"xyz"); const int op = static_cast<int>(r.below(3));
         if (op < 2) { step([&]() { strtk::trie::insert(t,k,Tracked(static_cast<int>(n))); }); if (step([&]() { strtk::trie::insert(u,k,v); })) { if (!k.empty() && !step([&]() { m[k] = v; })) lost = true; } }
         else step([&]() { Tracked out; strtk::trie::find(t,k,out); Str s; strtk::trie::find(u,k,s); strtk::trie::find_prefix(u,k); });
      }
      if (!lost) step([&]() { for (auto& e : m) { Str s; if (e.first.empty()) continue; V_CHECK(strtk::trie::find(u,e.first,s) && s == e.second,"key " << vh::q(e.first) << " after the fault"); } });
   });
   c.event("tries",1); c.cover(c.context);
}
struct Pointee { Tracked t; Pointee(int v) : t(v) {} };
struct Doomed { int mod; bool operator()(const Pointee* p) const { mon::tick(); return p->t.v % mod == 0; } template <typename K> bool operator()(const std::pair<const K,Pointee*>& p) const { return operator()(p.second); } };
template <typename C> static void drop(C& s) { for (auto p : s) delete p; s.clear(); }
template <typename C> static void drop_map(C& s) { for (auto& p : s) delete p.second; s.clear(); }
V_SECTION(pointer_containers, 800)
{
   const std::size_t n = c.r.below(12); const int mod = 1 + static_cast<int>(c.r.below(4)); const bool all = c.r.flip(); const int which = static_cast<int>(c.r.below(7)); c.context = vh::show(n) + " pointers, container " + vh::show(which) + (all ? " delete_all" : " delete_if mod " + vh::show(mod));
   probe(c,[&](Steps& step) {
      const Doomed d = { mod }; std::vector<Pointee*> v; std::deque<Pointee*> q; std::list<Pointee*> l; std::set<Pointee*> s; std::multiset<Pointee*> ms; std::map<int,Pointee*> m; std::multimap<int,Pointee*> mm;
      std::size_t left = 0; for (std::size_t k = 0; k < n; ++k) left += !all && k % static_cast<std::size_t>(mod) != 0;
      auto fill = [&](std::function<void(int,Pointee*)> add) { for (std::size_t k = 0; k < n; ++k) step([&]() { std::unique_ptr<Pointee> p(new Pointee(static_cast<int>(k))); add(static_cast<int>(k),p.get()); p.release(); }); };
      #define L01_CONTAINER(NR,C,ADD,DROP) if (which == NR) { fill([&](int k, Pointee* p) { (void)k; ADD; }); const bool ok = step([&]() { if (all) strtk::util::delete_all(C); else strtk::util::delete_if(d,C); }); if (ok && step.faults == 0) V_EQ(C.size(),left,"elements left"); DROP(C); }
      L01_CONTAINER(0,v,v.push_back(p),drop) L01_CONTAINER(1,q,q.push_back(p),drop) L01_CONTAINER(2,l,l.push_back(p),drop) L01_CONTAINER(3,s,s.insert(p),drop) L01_CONTAINER(4,ms,ms.insert(p),drop)
      L01_CONTAINER(5,m,m.insert(std::make_pair(k,p)),drop_map) L01_CONTAINER(6,mm,mm.insert(std::make_pair(k / 2,p)),drop_map)
   });
   c.event("containers",1); c.cover(c.context + vh::show(c.index));
}
struct Sink { std::vector<Str>* out; template <typename R> void operator()(const R& r) const { mon::tick(); out->push_back(Str(r.first,r.second)); } };
V_SECTION(splitting_and_parsing, 1500)
{
   const Str delims = c.r.flip() ? Str(",") : c.r.str(1 + c.r.below(90),",;|ABCDEFGHIJKLMNOPQRSTUVWXYZ"), text = c.r.str(c.r.len(60),"0123456789,,;Z"); const int op = static_cast<int>(c.r.below(9)); const vh::u64 seed = c.r.next();
   c.context = "op " + vh::show(op) + " " + vh::q(text) + " by " + vh::q(delims);
   probe(c,[&](Steps& step) {
      const char* const b = text.data(); const char* const e = b + text.size();
      switch (op)
      {
         case 0 : { strtk::multiple_char_delimiter_predicate p(delims); std::vector<Str> out; const Sink s = { &out }; strtk::split(p,b,e,strtk::functional_inserter(s)); break; }
         case 1 : { strtk::multiple_delimiter_predicate<char> p(delims.data(),delims.data() + delims.size()); typedef strtk::tokenizer<const char*,strtk::multiple_delimiter_predicate<char> > tok; tok t(b,e,p); std::vector<Str> out; for (tok::iterator i = t.begin(); i != t.end(); ++i) out.push_back(Str((*i).first,(*i).second)); break; }
         case 2 : { std::vector<Str> v; strtk::parse(text,delims,v); std::deque<Tracked> d; strtk::parse(text,delims,d); break; }
         case 3 : { std::set<Tracked> s; strtk::parse(text,delims,s); std::multiset<Str> m; strtk::parse(text,delims,m); break; }
         case 4 : { std::list<Tracked> l; std::priority_queue<Tracked> q; std::stack<Tracked> k; step([&]() { strtk::parse(text,delims,l); }); step([&]() { strtk::parse(text,delims,q); }); step([&]() { strtk::parse(text,delims,k); }); break; }
         case 5 : { Str s; Tracked t; int i = 0; std::vector<Tracked> v; strtk::parse(text,delims,s,t,i); strtk::vector_sink<Tracked>::type sink(delims); strtk::parse(text,"|",sink(v)); break; }
         case 6 : { std::vector<std::pair<Str::const_iterator,Str::const_iterator> > l; strtk::split_n(strtk::single_delimiter_predicate<char>(','),text.begin(),text.end(),3,std::back_inserter(l)); std::vector<Tracked> r; strtk::split(strtk::single_delimiter_predicate<char>(','),text.begin(),text.end(),strtk::range_to_type_back_inserter(r)); break; }
         case 7 : { spill(vh::tmp() + "/l01.lines",text + "\n" + text + "\n"); std::ifstream in((vh::tmp() + "/l01.lines").c_str()); std::vector<Tracked> v; std::string a; int n = 0; step([&]() { strtk::parse_line(in,delims,v); }); step([&]() { strtk::parse_line(in,delims,a,n); }); break; }
         default: { vh::Rng r(seed); std::vector<Str> v; for (std::size_t k = r.below(6); k > 0; --k) v.push_back(r.str(r.below(30),"ab")); Str j = strtk::join(delims,v); std::vector<Str> w; strtk::parse(j,delims,w); strtk::remove_inplace(delims[0],j); strtk::replace_pattern(text,Str("1"),Str("one"),j); Str rep; rep = strtk::replicate(3,text); std::vector<int> t(3,4); Str ts = strtk::join(",",t); break; }
      }
   });
   c.event("texts",1); c.cover(c.context);
}
struct LineBomb { std::vector<Str>* out; void operator()(const Str& l) const { mon::tick(); out->push_back(l); } };
struct LineJudge { bool operator()(const Str& l) const { mon::tick(); return l.size() < 9; } };
V_SECTION(files, 700)
{
   const Str path = vh::tmp() + "/l01.in", out = vh::tmp() + "/l01.res", none = vh::tmp() + "/l01.none"; Str text; std::vector<int> numbers; for (std::size_t k = c.r.below(9); k > 0; --k) { numbers.push_back(static_cast<int>(c.r.below(100000))); text += vh::show(numbers.back()) + "\n"; }
   spill(path,text); const int op = static_cast<int>(c.r.below(8)); const bool miss = c.r.chance(1,6); const Str& name = miss ? none : path; c.context = "op " + vh::show(op) + (miss ? " missing file" : "") + " lines " + vh::q(text);
   probe(c,[&](Steps&) {
      std::vector<Str> lines; const LineBomb f = { &lines }; const LineJudge j = LineJudge(); (void)j;
      switch (op)
      {
         case 0 : strtk::for_each_line(name,f); strtk::for_each_line_n(name,2,f); break;
         case 1 : strtk::for_each_line_conditional(name,j); strtk::for_each_line_n_conditional(name,2,j); break;
         case 2 : { std::vector<Tracked> v; strtk::load_from_text_file(name,v); break; }
         case 3 : { std::set<Tracked> s; std::list<Str> l; strtk::load_from_text_file(name,s); strtk::load_from_text_file(name,l); break; }
         case 4 : { std::deque<Tracked> v(numbers.begin(),numbers.end()); strtk::write_to_text_file(out,v,"\n"); strtk::write_to_text_file(vh::tmp() + "/no/such/place",v,"\n"); break; }
         case 5 : { Str s; if (!miss) strtk::fileio::load_file(path,s); strtk::fileio::write_file(out,s); strtk::fileio::write_file(vh::tmp() + "/no/such/place",s); break; }
         case 6 : { strtk::fileio::copy_file(name,out); strtk::fileio::concatenate(name,path,out); strtk::fileio::concatenate(path,name,out); strtk::fileio::file_size(name); strtk::fileio::file_exists(name); break; }
         default: { Str a, b; strtk::fileio::file_exists(name); std::vector<Str> v; strtk::for_each_line(name,f); strtk::write_to_text_file(out,lines,"|"); } }
   });
   c.event("file_operations",1); c.cover(c.context);
}
V_SECTION(binary_and_tables, 600)
{
   const std::size_t n = c.r.below(20); const int op = static_cast<int>(c.r.below(3)); const std::size_t room = c.r.flip() ? 4096 : c.r.below(300); const unsigned long long nn = 90 + c.r.below(70), kk = c.r.below(6); c.context = "op " + vh::show(op) + " n=" + vh::show(n) + " room " + vh::show(room);
   probe(c,[&](Steps&) {
      vh::Buf<char> b(room); strtk::binary::writer w(b.begin(),room); strtk::binary::reader r(b.begin(),room);
      if (op == 0)
      {
         int a[20]; for (std::size_t k = 0; k < 20; ++k) a[k] = static_cast<int>(k);
         const bool ok = w(static_cast<const int*>(a),static_cast<uint32_t>(n)); int* p = 0; unsigned len = 0; if (ok) { V_CHECK(r(p,len),"array"); V_EQ(len,n,"array length"); } std::unique_ptr<int[]> own(p);
         unsigned long long* q = 0; unsigned long long l64 = 0; strtk::binary::reader s(b.begin(),room); if (room >= 4) { s.reset(); int* p2 = 0; unsigned n2 = 0; s(p2,n2); std::unique_ptr<int[]> own2(p2); } (void)q; (void)l64;
      }
      else if (op == 1)
      {
         std::vector<Str> v(n,Str("some text that does not fit into a small string")); std::map<Str,Str> m; std::list<Str> l; std::set<Str> s; std::deque<Str> d;
         if (w(v)) { r(v); r.reset(); r(l); r.reset(); r(d); r.reset(); r(s); }
      }
      else { V_CHECK(strtk::n_choose_k(nn,kk) > 0,"n_choose_k"); std::vector<Tracked> v; for (int k = 0; k < 5; ++k) v.push_back(Tracked(k)); int out = 0; strtk::combination_iterator<std::vector<Tracked>::iterator> i(2,v.begin(),v.end()), e(v.end()); for (; i != e; ++i) ++out; V_EQ(out,10,"combinations"); strtk::for_each_combination(v.begin(),v.end(),2,[](std::vector<Tracked>::iterator, std::vector<Tracked>::iterator) { mon::tick(); }); std::vector<Tracked> sel(5); strtk::nth_combination_sequence(3,3,v.begin(),v.end(),sel.begin()); }
   });
   c.event("binary_runs",1); c.cover(c.context + vh::show(nn) + vh::show(kk));
}
V_MAIN
