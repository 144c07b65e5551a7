// F02: whole files, lines, text containers and PODs, against a shadow of what each file holds
#include "ref.hpp"
#include <map>
#include <set>
#include <list>
#include <deque>
#include <queue>
#include <stack>
#include <sstream>
#include <fstream>
#include <tuple>
#include <utility>
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "strtk.hpp"
typedef std::string Str;
typedef std::vector<Str> Strs;
namespace io = strtk::fileio;

static Str dir() { return vh::tmp() + "/f02_" + vh::show(getpid()) + "_"; }
static bool slurp(const Str& path, Str& out)
{
   out.clear(); FILE* f = fopen(path.c_str(),"rb"); if (!f) return false;
   char b[4096]; for (size_t n; (n = fread(b,1,sizeof b,f)) > 0; ) out.append(b,n);
   fclose(f); return true;
}
static void spill(const Str& path, const Str& data) { FILE* f = fopen(path.c_str(),"wb"); if (!f || fwrite(data.data(),1,data.size(),f) != data.size()) abort(); fclose(f); }
static Str content(vh::Case& c)
{
   static const std::size_t edge[] = { 0, 1, 2, 1023, 1024, 16383, 16384, 16385, 32767, 32768, 32769, 49152 };
   const std::size_t n = c.r.flip() ? edge[c.r.below(12)] : c.r.chance(1,4) ? c.r.below(c.r.chance(1,60) ? 4000000 : 70000) : c.r.len(300);
   Str s = n < 512 ? c.r.bytes(n) : Str(); if (s.size() < n) { s.reserve(n); while (s.size() + 8 <= n) { const unsigned long long v = c.r.next(); s.append(reinterpret_cast<const char*>(&v),8); } while (s.size() < n) s.push_back(static_cast<char>(c.r.next())); }
   return s;
}

V_SECTION(operations, 500)
{
   // a history of operations on a few files; every file is read back after each step
   const Str d = dir(); Strs names; for (int i = 0; i < 4; ++i) names.push_back(d + vh::show(i)); const Str nowhere = d + "no_such_directory/x";
   for (auto& n : names) ::unlink(n.c_str());
   std::map<Str,Str> model; const std::size_t steps = 6 + c.r.below(20); Str history;
   for (std::size_t step = 0; step < steps; ++step)
   {
      const std::size_t ia = c.r.below(4), ib = c.r.below(4), ic = c.r.below(4); const Str &a = names[ia], &b = names[ib], &e = names[ic];
      const bool ha = model.count(a), hb = model.count(b); const std::size_t op = c.r.below(11);
      history += " " + vh::show(op) + ":" + vh::show(ia) + vh::show(ib) + vh::show(ic); c.context = "history" + history;
      switch (op)
      {
         case 0 : case 1 :
         {
            const Str t = content(c); const bool big = t.size() > 16384; c.event(t.size() % 16384 == 0 ? "whole_blocks" : big ? "blocks_and_rest" : "short_files",1);
            if (op == 0) { V_CHECK(io::write_file(a,t),"write_file of a string"); }
            else { vh::Buf<char> buf(t); V_CHECK(io::write_file(a,buf.begin(),t.size()),"write_file of a buffer"); V_CHECK(Str(buf.begin(),buf.end()) == t,"write_file leaves its buffer alone"); }
            model[a] = t; break;
         }
         case 2 : ::unlink(a.c_str()); model.erase(a); break;
         case 3 : if (ia != ib) { V_EQ(io::copy_file(a,b),ha,"copy_file reports"); if (ha) { model[b] = model[a]; c.event("copies",1); } else c.event("missing_source",1); } break;
         case 4 : if (ic != ia && ic != ib) { V_EQ(io::concatenate(a,b,e),ha && hb,"concatenate reports"); if (ha && hb) { model[e] = model[a] + model[b]; c.event("concatenations",1); } else c.event("missing_source",1); } break;
         case 5 :
         {
            V_EQ(io::files_identical(a,b),ha && hb && model[a] == model[b],"files_identical");
            if (ha) { // one byte of difference anywhere
               Str t = model[a]; if (!t.empty()) { const std::size_t at = c.r.flip() ? c.r.below(t.size()) : c.r.flip() ? t.size() - 1 : std::min<std::size_t>(t.size() - 1,16384 * c.r.below(4)); t[at] = static_cast<char>(t[at] ^ (1 << c.r.below(8))); const Str o = d + "other"; spill(o,t); V_CHECK(!io::files_identical(a,o) && !io::files_identical(o,a),"one changed byte at " + vh::show(at) + " of " + vh::show(t.size())); spill(o,model[a]); V_CHECK(io::files_identical(a,o),"equal copies"); t = model[a]; t.push_back(t[0]); spill(o,t); V_CHECK(!io::files_identical(a,o) && !io::files_identical(o,a),"one is a prefix of the other"); ::unlink(o.c_str()); c.event("one_byte_differences",1); }
            }
            break;
         }
         case 6 : V_EQ(io::file_exists(a),ha,"file_exists"); V_EQ(io::file_size(a),ha ? model[a].size() : 0,"file_size"); break;
         case 7 :
         {
            Str got = c.r.bytes(c.r.len(20)); const bool ok = io::load_file(a,got); V_EQ(ok,ha,"load_file reports"); if (ha) V_CHECK(got == model[a],"load_file of a string gives the bytes of the file");
            if (ha) { const std::size_t n = c.r.below(model[a].size() + 1); vh::Buf<char> buf(n); V_CHECK(io::load_file(a,buf.begin(),n),"load_file of a buffer"); V_CHECK(Str(buf.begin(),buf.end()) == model[a].substr(0,n),"load_file of a buffer gives the first bytes"); c.event("loads",1); }
            break;
         }
         case 8 :
         {
            // reads at an offset succeed exactly when the whole range is there
            const std::size_t size = ha ? model[a].size() : 0, off = c.r.below(size + 3), n = c.r.flip() ? c.r.len(30) : off <= size ? size - off + c.r.below(2) : 1; const bool want = ha && off + n <= size;
            vh::Buf<char> buf(n); const bool inside = off <= size; 
            if (n || inside)
            {
               V_EQ(io::read_at_offset(a,off,buf.begin(),n),want,"read_at_offset into a buffer"); if (want) V_CHECK(Str(buf.begin(),buf.end()) == model[a].substr(off,n),"bytes at the offset");
               Str s = "old"; V_EQ(io::read_at_offset(a,off,s,n),want,"read_at_offset into a string"); if (want) V_CHECK(s == model[a].substr(off,n),"string at the offset");
               if (ha) { std::ifstream st(a.c_str(),std::ios::binary); char skip[8]; if (size > 8) st.read(skip,8); V_EQ(io::read_at_offset(st,off,buf.begin(),n),want,"read_at_offset of a stream"); if (want) V_CHECK(Str(buf.begin(),buf.end()) == model[a].substr(off,n),"bytes of the stream"); }
               c.event(want ? "ranges_inside" : "ranges_outside",1);
            }
            break;
         }
         case 9 :
         {
            V_CHECK(!io::write_file(nowhere,Str("x")) && !io::copy_file(a,nowhere) && !io::concatenate(a,b,nowhere) && !io::copy_file(nowhere,a) && !io::concatenate(nowhere,a,b) && !io::concatenate(a,nowhere,b) && !io::files_identical(a,nowhere) && !io::files_identical(nowhere,a) && !io::file_exists(nowhere),"operations on a path that cannot exist fail");
            Str got; char ch; V_CHECK(!io::load_file(nowhere,got) && !io::load_file(nowhere,&ch,1) && !io::read_at_offset(nowhere,0,&ch,1) && !io::read_at_offset(nowhere,0,got,1),"nothing to load"); V_EQ(io::file_size(nowhere),std::size_t(0),"no size"); c.event("impossible_paths",1);
            #ifndef VH_THREADS
            {
               // a directory can be opened but has nothing to read (an output growing beyond all bounds ends in a signal)
               const Str here = vh::tmp(), dst = d + "dst"; struct rlimit old; getrlimit(RLIMIT_FSIZE,&old); struct rlimit lim = old; lim.rlim_cur = 64 << 20; setrlimit(RLIMIT_FSIZE,&lim);
               V_EQ(io::file_size(here),std::size_t(0),"size of a directory"); V_CHECK(!io::load_file(here,got) && !io::load_file(here,&ch,1) && !io::read_at_offset(here,0,&ch,1),"a directory has nothing to load");
               V_CHECK(!io::copy_file(here,dst) && !io::concatenate(here,a,dst) && !io::concatenate(a,here,dst) && !io::files_identical(here,here) && !io::files_identical(a,here) && !io::files_identical(here,a) && !io::write_file(here,Str("x")) && !io::copy_file(a,here),"operations on a directory fail");
               Strs seen; V_CHECK(0 == strtk::for_each_line(here,[&](const Str& s) { seen.push_back(s); }) && seen.empty(),"a directory has no lines");
               setrlimit(RLIMIT_FSIZE,&old); ::unlink(dst.c_str()); c.event("directories",1);
            }
            #endif
            break;
         }
         default :
         {
            #ifdef VH_THREADS // (the limit belongs to the whole process)
            break;
            #endif
            // the disk fills up after k bytes: an operation that reports success stored everything
            struct rlimit old; getrlimit(RLIMIT_FSIZE,&old); signal(SIGXFSZ,SIG_IGN);
            const Str t = content(c); const std::size_t k = c.r.below(t.size() + 2); const Str src = d + "src", src2 = d + "src2", dst = d + "dst"; const std::size_t cut = c.r.below(t.size() + 1); spill(src,t); spill(src2,t.substr(cut)); Str head = t.substr(0,cut); const Str h = d + "head"; spill(h,head); ::unlink(dst.c_str());
            struct rlimit lim = old; lim.rlim_cur = k; setrlimit(RLIMIT_FSIZE,&lim); const int which = static_cast<int>(c.r.below(3));
            const bool ok = which == 0 ? io::write_file(dst,t) : which == 1 ? io::copy_file(src,dst) : io::concatenate(h,src2,dst);
            setrlimit(RLIMIT_FSIZE,&old); signal(SIGXFSZ,SIG_DFL);
            Str got; const bool there = slurp(dst,got); c.context += " operation " + vh::show(which) + " of " + vh::show(t.size()) + " bytes on a disk with room for " + vh::show(k);
            V_EQ(ok,k >= t.size(),"success is reported exactly when everything fits"); if (ok) V_CHECK(there && got == t,"everything was stored"); c.event(k >= t.size() ? "fitting_writes" : "full_disks",1);
            ::unlink(src.c_str()); ::unlink(src2.c_str()); ::unlink(h.c_str()); ::unlink(dst.c_str());
         }
      }
      for (auto& n : names) { Str got; const bool there = slurp(n,got); V_EQ(there,model.count(n) == 1,"existence of " + n.substr(d.size())); if (there) V_CHECK(got == model[n],"content of file " + n.substr(d.size()) + " after the step (" + vh::show(got.size()) + " bytes, expected " + vh::show(model[n].size()) + ")"); }
   }
   for (auto& n : names) ::unlink(n.c_str());
   c.event("histories",1); c.cover(c.context);
}
// files larger than 32 bit offsets (sparse: a few written bytes far apart)
V_SECTION(huge_files, 12)
{
   static const unsigned long long edges[] = { 0x3FFFFFULL, 0xFFFFFFULL, 0x7FFFFFFFULL, 0x80000000ULL, 0xFFFFFFFFULL, 0x100000000ULL, 0x140000001ULL };
   const unsigned long long size = edges[c.r.below(7)] + c.r.below(70000); const Str path = dir() + "huge"; c.context = "a sparse file of " + vh::show(size) + " bytes";
   FILE* f = fopen(path.c_str(),"wb"); if (!f) { c.event("huge_skipped",1); return; }
   std::map<unsigned long long,Str> pieces; bool ok = true;
   for (int k = 0; k < 4; ++k) { const unsigned long long at = k == 0 ? size - 40 : k == 1 ? c.r.below(200) : edges[c.r.below(7)] + c.r.below(60); if (at + 40 > size) continue; bool free = true; for (auto& q : pieces) if (q.first < at + 40 && at < q.first + 40) free = false; if (!free) continue; pieces[at] = c.r.bytes(40); ok = ok && 0 == fseeko(f,static_cast<off_t>(at),SEEK_SET) && 40 == fwrite(pieces[at].data(),1,40,f); }
   ok = (0 == fclose(f)) && ok; if (!ok) { ::unlink(path.c_str()); c.event("huge_skipped",1); return; }
   V_CHECK(io::file_exists(path),"file_exists"); V_EQ(static_cast<unsigned long long>(io::file_size(path)),size,"size of a huge file");
   for (auto& q : pieces)
   {
      vh::Buf<char> b(40); V_CHECK(io::read_at_offset(path,static_cast<std::size_t>(q.first),b.begin(),40u),"a range at " + vh::show(q.first)); V_CHECK(Str(b.begin(),b.end()) == q.second,"bytes at " + vh::show(q.first));
      Str t; V_CHECK(io::read_at_offset(path,static_cast<std::size_t>(q.first),t,40u) && t == q.second,"string at " + vh::show(q.first));
   }
   char ch[2]; V_CHECK(io::read_at_offset(path,static_cast<std::size_t>(size - 1),ch,1u) && !io::read_at_offset(path,static_cast<std::size_t>(size - 1),ch,2u) && !io::read_at_offset(path,static_cast<std::size_t>(size),ch,1u),"the end of a huge file");
   ::unlink(path.c_str()); c.event("huge_files",1); c.cover(c.context);
}
V_SECTION(lines, 2500)
{
   const std::size_t count = c.r.len(12); Str text; Strs lines; static const char* als[] = { "ab", " \t\r", "0123456789-" };
   const char* al = als[c.r.below(3)]; for (std::size_t i = 0; i < count; ++i) { lines.push_back(c.r.chance(1,4) ? Str() : c.r.chance(1,20) ? c.r.str(1000 + c.r.below(200),al) : c.r.str(c.r.len(10),al)); text += lines.back(); if (i + 1 < count || c.r.flip()) text += "\n"; else if (lines.back().empty()) lines.pop_back(); }
   // (a final line without its newline counts only when it has characters)
   const std::size_t total = lines.size(), n = 1 + c.r.below(total + 2), stop = c.r.below(total + 2), bs = c.r.chance(1,2) ? c.r.below(40) : 1024; const bool by_name = c.r.flip(); c.context = vh::q(text.substr(0,300)) + " n=" + vh::show(n) + " stop=" + vh::show(stop);
   const Str path = dir() + "lines"; spill(path,text);
   Strs seen; auto all = [&](const Str& s) { seen.push_back(s); }; auto until = [&](const Str& s) { seen.push_back(s); return seen.size() != stop + 1; };
   auto head = [&](std::size_t k) { return Strs(lines.begin(),lines.begin() + static_cast<long>(std::min(k,total))); };
   { seen.clear(); std::istringstream is(text); const std::size_t r = by_name ? strtk::for_each_line(path,all,bs) : strtk::for_each_line(is,all,bs); V_EQ(r,total,"for_each_line count"); V_CHECK(seen == lines,"for_each_line lines"); }
   { seen.clear(); std::istringstream is(text); const std::size_t r = by_name ? strtk::for_each_line_n(path,n,all,bs) : strtk::for_each_line_n(is,n,all,bs); V_EQ(r,std::min(n,total),"for_each_line_n count"); V_CHECK(seen == head(n),"for_each_line_n lines"); if (!by_name) { Str rest; std::getline(is,rest,'\0'); const std::size_t m = std::min(n,total); Str want; for (std::size_t i = m; i < total; ++i) want += lines[i] + (i + 1 < total || text[text.size() - 1] == '\n' ? "\n" : ""); V_CHECK(rest == want,"the stream is left at the next line"); } }
   { seen.clear(); std::istringstream is(text); const std::size_t r = by_name ? strtk::for_each_line_conditional(path,until,bs) : strtk::for_each_line_conditional(is,until,bs); V_EQ(r,std::min(stop,total),"for_each_line_conditional count"); V_CHECK(seen == head(stop + 1),"for_each_line_conditional lines"); }
   { seen.clear(); std::istringstream is(text); const std::size_t r = by_name ? strtk::for_each_line_n_conditional(path,n,until,bs) : strtk::for_each_line_n_conditional(is,n,until,bs); V_EQ(r,std::min(std::min(stop,n),total),"for_each_line_n_conditional count"); V_CHECK(seen == head(std::min(stop + 1,n)),"for_each_line_n_conditional lines"); }
   { std::istringstream is(text); for (std::size_t i = 0; i <= total; ++i) { Str v = "old"; const bool ok = strtk::read_line_as_value(is,v,bs); V_EQ(ok,i < total,"read_line_as_value"); if (ok) V_EQ(v,lines[i],"value of the line"); } }
   { ::unlink(path.c_str()); seen.clear(); V_CHECK(0 == strtk::for_each_line(path,all) && 0 == strtk::for_each_line_n(path,n,all) && 0 == strtk::for_each_line_conditional(path,until) && 0 == strtk::for_each_line_n_conditional(path,n,until) && seen.empty(),"a missing file has no lines"); }
   { std::istringstream is(text); is.setstate(std::ios::failbit); Str v = "old"; V_CHECK(0 == strtk::for_each_line(is,all) && 0 == strtk::for_each_line_n(is,n,all) && 0 == strtk::for_each_line_conditional(is,until) && 0 == strtk::for_each_line_n_conditional(is,n,until) && !strtk::read_line_as_value(is,v,bs) && seen.empty(),"a failed stream has no lines"); c.event("failed_line_streams",1); }
   c.event("texts",1); c.event(n < total ? "cut_by_count" : "count_beyond_text",1); c.event(stop < total ? "cut_by_condition" : "condition_never_false",1); c.event(by_name ? "by_name" : "by_stream",1); c.cover(c.context);
}
static Str plain(const Str& s) { return s; }
template <typename T> static Str plain(const T& v) { return vh::show(v); }
template <typename T> struct Gen;
template <> struct Gen<int> { static int make(vh::Case& c) { return c.r.chance(1,8) ? (c.r.flip() ? 2147483647 : -2147483647) : static_cast<int>(c.r.next()) >> c.r.below(31); } };
template <> struct Gen<unsigned long long> { static unsigned long long make(vh::Case& c) { return c.r.next() >> c.r.below(64); } };
template <> struct Gen<Str> { static Str make(vh::Case& c) { return c.r.str(c.r.len(9),"ab ,\t0"); } };
template <typename T, typename C> static Strs drained(C q) { Strs r; while (!q.empty()) { r.push_back(plain(q.front())); q.pop(); } return r; }
template <typename C> static Strs tops(C q) { Strs r; while (!q.empty()) { r.push_back(plain(q.top())); q.pop(); } return r; }
template <typename It> static Strs shown(It b, It e) { Strs r; for (; b != e; ++b) r.push_back(plain(*b)); return r; }
template <typename T> static void text_containers(vh::Case& c)
{
   std::vector<T> v; const std::size_t n = c.r.len(20); for (std::size_t i = 0; i < n; ++i) v.push_back(i && c.r.chance(1,5) ? v[c.r.below(i)] : Gen<T>::make(c)); const bool by_name = c.r.flip(), start = c.r.flip(); const std::size_t bs = c.r.below(50); const Str path = dir() + "text";
   Str text; for (auto& x : v) text += plain(x) + "\n"; c.context = vh::q(text); const std::deque<T> dq(v.begin(),v.end()); const std::list<T> li(v.begin(),v.end()); const std::set<T> se(v.begin(),v.end()); const std::multiset<T> ms(v.begin(),v.end());
   Str set_text, ms_text; for (auto& x : se) set_text += plain(x) + "\n"; for (auto& x : ms) ms_text += plain(x) + "\n";
   auto out = [&](auto& cont, const Str& delim) { Str r; if (by_name) { V_EQ(strtk::write_to_text_file(path,cont,delim),cont.size(),"elements written"); slurp(path,r); } else { std::ostringstream os; V_EQ(strtk::write_to_text_file(os,cont,delim),cont.size(),"elements written"); r = os.str(); } return r; };
   V_EQ(out(v,"\n"),text,"vector, a line each"); V_EQ(out(dq,"\n"),text,"deque, a line each"); V_EQ(out(li,"\n"),text,"list, a line each"); V_EQ(out(se,"\n"),set_text,"set, a line each"); V_EQ(out(ms,"\n"),ms_text,"multiset, a line each");
   { Str j, js, jm; for (auto& x : v) j += plain(x); for (auto& x : se) js += plain(x); for (auto& x : ms) jm += plain(x); V_EQ(out(v,""),j,"vector without a delimiter"); V_EQ(out(se,""),js,"set without a delimiter"); V_EQ(out(ms,""),jm,"multiset without a delimiter"); j.clear(); for (auto& x : v) j += plain(x) + "<>"; V_EQ(out(li,"<>"),j,"list with a longer delimiter"); }
   spill(path,text); auto in = [&](auto& cont) { std::istringstream is(text); return by_name ? strtk::load_from_text_file(path,cont,bs) : strtk::load_from_text_file(is,cont,bs); };
   { std::vector<T> g; std::vector<T> w = v; if (start) { g.push_back(T()); w.insert(w.begin(),T()); } V_EQ(in(g),n,"lines loaded"); V_CHECK(g == w,"vector gets every line at its end"); }
   { std::deque<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK(g == dq,"deque"); } { std::list<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK(g == li,"list"); }
   { std::set<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK(g == se,"set"); } { std::multiset<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK(g == ms,"multiset"); }
   { std::queue<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK((drained<T>(g) == shown(v.begin(),v.end())),"queue, first line first"); } { std::stack<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK(tops(g) == shown(v.rbegin(),v.rend()),"stack, last line on top"); } { std::priority_queue<T> g; V_EQ(in(g),n,"lines loaded"); V_CHECK(tops(g) == shown(ms.rbegin(),ms.rend()),"priority queue, greatest line on top"); }
   ::unlink(path.c_str());
   {
      auto none = [&](auto cont) { const std::size_t was = cont.size(); V_CHECK(0 == strtk::load_from_text_file(path,cont) && cont.size() == was,"a missing file has no lines"); std::istringstream is(text); is.setstate(std::ios::failbit); V_CHECK(0 == strtk::load_from_text_file(is,cont) && cont.size() == was,"a failed stream has no lines"); };
      none(v); none(dq); none(li); none(se); none(ms); none(std::queue<T>()); none(std::stack<T>()); none(std::priority_queue<T>());
      auto lost = [&](const auto& cont) { V_CHECK(0 == strtk::write_to_text_file(dir() + "no/such",cont,c.r.flip() ? "\n" : ""),"nothing is written to an impossible path"); std::ostringstream os; os.setstate(c.r.flip() ? std::ios::failbit : std::ios::badbit); V_CHECK(0 == strtk::write_to_text_file(os,cont,c.r.flip() ? "\n" : "") && os.str().empty(),"nothing is written to a failed stream"); };
      lost(v); lost(dq); lost(li); lost(se); lost(ms); c.event("failed_streams",16);
   }
   c.event("text_containers",1); c.cover(c.context);
}
V_SECTION(text_files, 1500) { switch (c.r.below(3)) { case 0 : text_containers<int>(c); break; case 1 : text_containers<unsigned long long>(c); break; default : text_containers<Str>(c); } }

struct Pod { short a; char b[5]; };
typedef std::tuple<int,char,double,Pod,unsigned short,float,long long,unsigned char,bool,unsigned,short,signed char> Row;
template <typename T> static void fill(vh::Case& c, T& t) { unsigned char* p = reinterpret_cast<unsigned char*>(&t); for (std::size_t i = 0; i < sizeof t; ++i) p[i] = static_cast<unsigned char>(c.r.next()); }
static void fill(vh::Case& c, bool& t) { t = c.r.flip(); }
template <typename T> static Str raw(const T& t) { return Str(reinterpret_cast<const char*>(&t),sizeof t); }
template <std::size_t... I> static void pods(vh::Case& c, std::index_sequence<I...>)
{
   Row r, g; Strs parts; int x[] = { (fill(c,std::get<I>(r)),parts.push_back(raw(std::get<I>(r))),0)... }; (void)x; Str bytes; for (auto& p : parts) bytes += p; c.context = vh::show(sizeof...(I)) + " PODs " + vh::q(bytes);
   vh::Buf<unsigned char> b(bytes.size()); V_EQ(static_cast<std::size_t>(strtk::write_pod(b.begin(),std::get<I>(r)...) - b.begin()),bytes.size(),"write_pod to memory ends after the last"); V_CHECK(Str(b.begin(),b.end()) == bytes,"write_pod to memory");
   V_EQ(static_cast<std::size_t>(strtk::read_pod(b.begin(),std::get<I>(g)...) - b.begin()),bytes.size(),"read_pod from memory ends after the last"); Strs got; int y[] = { (got.push_back(raw(std::get<I>(g))),0)... }; (void)y; V_CHECK(got == parts,"read_pod from memory"); V_CHECK(Str(b.begin(),b.end()) == bytes,"read_pod leaves memory alone"); c.event("pods",sizeof...(I));
}
template <std::size_t... I> static void file_pods(vh::Case& c, std::index_sequence<I...>)
{
   Row r, g; Strs parts; int x[] = { (fill(c,std::get<I>(r)),parts.push_back(raw(std::get<I>(r))),0)... }; (void)x; Str bytes, f; for (auto& p : parts) bytes += p; const Str path = dir() + "pods"; c.context = vh::show(sizeof...(I)) + " PODs in a file " + vh::q(bytes);
   { std::ofstream o(path.c_str(),std::ios::binary); V_CHECK(io::write_pod(o,std::get<I>(r)...),"write_pod to a file"); } V_CHECK(slurp(path,f) && f == bytes,"bytes of the file");
   { std::ifstream i(path.c_str(),std::ios::binary); V_CHECK(io::read_pod(i,std::get<I>(g)...),"read_pod from a file"); Strs got; int y[] = { (got.push_back(raw(std::get<I>(g))),0)... }; (void)y; V_CHECK(got == parts,"values read from a file"); }
   { const std::size_t k = c.r.below(bytes.size()); spill(path,bytes.substr(0,k)); std::ifstream i(path.c_str(),std::ios::binary); V_CHECK(!io::read_pod(i,std::get<I>(g)...),"read_pod from a file cut after " + vh::show(k) + " bytes fails"); }
   { std::ofstream o((dir() + "no/such").c_str()); V_CHECK(!io::write_pod(o,std::get<I>(r)...),"write_pod to a stream that is not open fails"); } ::unlink(path.c_str()); c.event("file_pods",sizeof...(I));
}
template <typename T> static void pod_runs(vh::Case& c)
{
   std::vector<T> v(c.r.len(20)); for (auto& x : v) fill(c,x); const std::size_t n = v.size(); Str bytes; for (auto& x : v) bytes += raw(x); const Str path = dir() + "run"; Str f; c.context = vh::show(n) + " elements " + vh::q(bytes); const std::deque<T> dq(v.begin(),v.end()); const std::list<T> li(v.begin(),v.end()); const std::set<T> se(v.begin(),v.end()); const std::multiset<T> ms(v.begin(),v.end()); Str sb, mb; for (auto& x : se) sb += raw(x); for (auto& x : ms) mb += raw(x);
   auto store = [&](const auto& cont, const Str& want) { std::ofstream o(path.c_str(),std::ios::binary); V_CHECK(io::write_pod(o,cont),"write_pod of a container"); o.close(); V_CHECK(slurp(path,f) && f == want,"bytes of a container"); };
   store(dq,bytes); store(li,bytes); store(se,sb); store(ms,mb); store(v,bytes);
   const std::size_t k = c.r.below(n + 2); const std::size_t have = std::min(k,n);
   auto load = [&](auto& cont) { std::ifstream i(path.c_str(),std::ios::binary); const std::size_t& kk = k; V_EQ(io::read_pod(i,kk,cont),k <= n,"read_pod of a container"); };
   { std::vector<T> g; load(g); V_CHECK(g == std::vector<T>(v.begin(),v.begin() + static_cast<long>(have)),"vector of PODs"); } { std::list<T> g; load(g); V_CHECK(g == std::list<T>(v.begin(),v.begin() + static_cast<long>(have)),"list of PODs"); } { std::set<T> g; load(g); V_CHECK(g == std::set<T>(v.begin(),v.begin() + static_cast<long>(have)),"set of PODs"); } { std::multiset<T> g; load(g); V_CHECK(g == std::multiset<T>(v.begin(),v.begin() + static_cast<long>(have)),"multiset of PODs"); }
   { T a[7], g[7]; for (auto& x : a) fill(c,x); Str ab; for (auto& x : a) ab += raw(x); std::ofstream o(path.c_str(),std::ios::binary); V_CHECK(io::write_pod(o,a),"write_pod of an array"); o.close(); V_CHECK(slurp(path,f) && f == ab,"bytes of an array"); std::ifstream i(path.c_str(),std::ios::binary); V_CHECK(io::read_pod(i,g),"read_pod of an array"); V_CHECK(std::equal(a,a + 7,g),"array of PODs");
     vh::Buf<unsigned char> b(sizeof a); V_CHECK(strtk::write_pod(b.begin(),a) == b.end() && Str(b.begin(),b.end()) == ab,"an array to memory"); T h[7]; V_CHECK(strtk::read_pod(b.begin(),h) == b.end() && std::equal(a,a + 7,h),"an array from memory"); }
   {
      auto to = [&](const auto& cont, const Str& want) { vh::Buf<unsigned char> b(want.size()); V_CHECK(strtk::write_pod(b.begin(),cont) == b.end(),"write_pod to memory ends after the container"); V_CHECK(Str(b.begin(),b.end()) == want,"a container to memory"); };
      to(v,bytes); to(dq,bytes); to(li,bytes); to(se,sb); to(ms,mb);
      vh::Buf<unsigned char> b(bytes.size()); for (std::size_t i = 0; i < bytes.size(); ++i) b.begin()[i] = static_cast<unsigned char>(bytes[i]);
      auto from = [&](auto& cont) { const std::size_t& k = have; V_EQ(static_cast<std::size_t>(strtk::read_pod(b.begin(),k,cont) - b.begin()),k * sizeof(T),"read_pod from memory ends after the elements"); };
      const auto last = v.begin() + static_cast<long>(have); { std::vector<T> g; from(g); V_CHECK(g == std::vector<T>(v.begin(),last),"vector from memory"); } { std::deque<T> g(2,T()); from(g); std::deque<T> w(2,T()); w.insert(w.end(),v.begin(),last); V_CHECK(g == w,"deque from memory, appended"); } { std::set<T> g; from(g); V_CHECK(g == std::set<T>(v.begin(),last),"set from memory"); } { std::multiset<T> g; from(g); V_CHECK(g == std::multiset<T>(v.begin(),last),"multiset from memory"); }
      c.event("memory_runs",1);
   }
   ::unlink(path.c_str()); c.event("pod_runs",1); c.event(k > n ? "short_runs" : "whole_runs",1); c.cover(c.context);
}
V_SECTION(pods, 2500)
{
   switch (c.r.below(12)) { case 0 : pods(c,std::make_index_sequence<1>()); break; case 1 : pods(c,std::make_index_sequence<2>()); break; case 2 : pods(c,std::make_index_sequence<3>()); break; case 3 : pods(c,std::make_index_sequence<4>()); break; case 4 : pods(c,std::make_index_sequence<5>()); break; case 5 : pods(c,std::make_index_sequence<6>()); break; case 6 : pods(c,std::make_index_sequence<7>()); break; case 7 : pods(c,std::make_index_sequence<8>()); break; case 8 : pods(c,std::make_index_sequence<9>()); break; case 9 : pods(c,std::make_index_sequence<10>()); break; case 10 : pods(c,std::make_index_sequence<11>()); break; default : pods(c,std::make_index_sequence<12>()); }
   c.cover(c.context);
   switch (c.r.below(10)) { case 0 : file_pods(c,std::make_index_sequence<1>()); break; case 1 : file_pods(c,std::make_index_sequence<2>()); break; case 2 : file_pods(c,std::make_index_sequence<3>()); break; case 3 : file_pods(c,std::make_index_sequence<4>()); break; case 4 : file_pods(c,std::make_index_sequence<5>()); break; case 5 : file_pods(c,std::make_index_sequence<6>()); break; case 6 : file_pods(c,std::make_index_sequence<7>()); break; case 7 : file_pods(c,std::make_index_sequence<8>()); break; case 8 : file_pods(c,std::make_index_sequence<9>()); break; default : file_pods(c,std::make_index_sequence<10>()); }
   switch (c.r.below(4)) { case 0 : pod_runs<int>(c); break; case 1 : pod_runs<unsigned char>(c); break; case 2 : pod_runs<unsigned long long>(c); break; default : pod_runs<short>(c); }
}
V_MAIN
