// Common runtime-monitoring harness for the strtk property drivers.
//
// A driver registers sections; each section is a function that performs ONE
// deterministic monitored execution derived from (seed, section, index).  The
// harness counts what the monitors observed (events, distinct case signatures,
// samples), attributes crashes and hangs to the running case and reports the
// first oracle mismatches.
#ifndef VH_HPP
#define VH_HPP
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <exception>
#include <iterator>
#include <limits>
#include <utility>
#ifdef VH_THREADS
#include <thread>
#include <sys/stat.h>
#ifndef VH_SKIP
#define VH_SKIP ""
#endif
#define VH_TLS thread_local
#else
#define VH_TLS
#endif

namespace vh
{
   typedef uint64_t u64;
   typedef int64_t  i64;

   inline u64 mix(u64 z)
   {
      z += 0x9E3779B97F4A7C15ULL;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
      return z ^ (z >> 31);
   }

   inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 1469598103934665603ULL)
   {
      const unsigned char* b = static_cast<const unsigned char*>(p);
      for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; }
      return mix(h ^ n);
   }
   inline u64 hash_str(const std::string& s, u64 h = 1469598103934665603ULL) { return hash_bytes(s.data(),s.size(),h); }

   struct Rng
   {
      u64 s; unsigned boost; // boost: some cases use much larger sizes than the rest
      explicit Rng(u64 seed = 0) : s(seed), boost(1) {}
      u64 next() { s += 0x9E3779B97F4A7C15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
      u64 below(u64 n) { return n ? next() % n : 0; }
      i64 range(i64 lo, i64 hi) { return lo + static_cast<i64>(below(static_cast<u64>(hi - lo) + 1)); }
      bool chance(unsigned num, unsigned den) { return below(den) < num; }
      bool flip() { return next() & 1; }
      double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
      template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
      char pick(const char* s) { return s[below(strlen(s))]; }
      // length with a bias towards small values and boundary sizes
      std::size_t len(std::size_t max)
      {
         max *= boost;
         switch (below(8))
         {
            case 0  : return 0;
            case 1  : return std::min<std::size_t>(1,max);
            case 2  : return max;
            case 3  : return below(std::min<std::size_t>(max,4) + 1);
            case 4  :
            case 5  : return below(std::min<std::size_t>(max,12) + 1);
            default : return below(max + 1);
         }
      }
      std::string str(std::size_t n, const std::string& alphabet)
      {
         std::string r(n,' ');
         for (std::size_t i = 0; i < n; ++i) r[i] = alphabet[below(alphabet.size())];
         return r;
      }
      std::string bytes(std::size_t n)
      {
         std::string r(n,' ');
         for (std::size_t i = 0; i < n; ++i) r[i] = static_cast<char>(next() & 0xFF);
         return r;
      }
      template <typename T> void shuffle(std::vector<T>& v)
      { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
   };

   // Exact-size heap block: the sanitizer sees any access outside [begin,end).
   template <typename C = char>
   class Buf
   {
   public:
      explicit Buf(const std::string& s) { init(s.data(),s.size()); }
      Buf(const void* p, std::size_t n) { init(p,n); }
      explicit Buf(std::size_t n, int fill = 0xCD) { alloc(n); memset(p_,fill,n_); }
     ~Buf() { free(base_); }
      C* begin() const { return p_; }
      C* end  () const { return p_ + n_; }
      std::size_t size() const { return n_; }
      std::string str() const { return std::string(reinterpret_cast<const char*>(p_),n_); }
   private:
      Buf(const Buf&); Buf& operator=(const Buf&);
      void alloc(std::size_t n) { base_ = static_cast<char*>(malloc(n ? n : 1)); p_ = reinterpret_cast<C*>(base_ + (n ? 0 : 1)); n_ = n; }
      void init(const void* s, std::size_t n) { alloc(n); if (n) memcpy(p_,s,n); }
      char* base_; C* p_; std::size_t n_;
   };

   inline std::string q(const std::string& s)
   {
      static const char* hex = "0123456789abcdef";
      std::string r = "\"";
      for (std::size_t i = 0; i < s.size(); ++i)
      {
         unsigned char c = static_cast<unsigned char>(s[i]);
         if (i > 400) { r += "...("; char b[32]; snprintf(b,32,"%zu",s.size()); r += b; r += " bytes)"; break; }
         if (c == '"' || c == '\\') { r += '\\'; r += s[i]; }
         else if (c >= 32 && c < 127) r += s[i];
         else { r += "\\x"; r += hex[c >> 4]; r += hex[c & 15]; }
      }
      return r + "\"";
   }
   template <typename T> inline std::string show(const T& t) { std::ostringstream o; o.precision(20); o << t; return o.str(); }
   inline std::string show(const std::string& s) { return q(s); }
   inline std::string show(const char* s) { return q(s); }
   inline std::string show(bool b) { return b ? "true" : "false"; }
   inline std::string show(char c) { return q(std::string(1,c)); }
   inline std::string show(unsigned char c) { return show(static_cast<int>(c)); }
   inline std::string show(signed char c) { return show(static_cast<int>(c)); }
   template <typename A, typename B> inline std::string show(const std::pair<A,B>& p) { return "(" + show(p.first) + "," + show(p.second) + ")"; }
   template <typename C> inline std::string show_seq(const C& c)
   {
      std::string r = "["; std::size_t n = 0;
      for (typename C::const_iterator i = c.begin(); i != c.end(); ++i)
      { if (n++) r += ", "; if (n > 60) { r += "..."; break; } r += show(*i); }
      return r + "]";
   }
   template <typename T, typename A> inline std::string show(const std::vector<T,A>& v) { return show_seq(v); }
   template <typename T, typename A> inline std::string show(const std::set<T,A>& v) { return show_seq(v); }

   struct Failure { std::string key; std::string msg; };

   struct Shared // survives a crash of the driver
   {
      volatile u64 index;
      volatile u64 progress;
      char section[120];
      char note[1024];
   };

   struct State
   {
      std::unordered_set<u64> distinct;
      std::map<std::string,u64> events;
      std::vector<std::string> samples;
      std::map<std::string,u64> section_cases;
      std::map<std::string,u64> section_samples;
      u64 evaluations;
      Shared* shared;
      unsigned hang_secs;
      u64 seen_progress; unsigned stuck;
   };
#ifdef VH_THREADS
   // every thread observes into a state of its own; they are merged when the threads have ended
   inline State*& own_state() { static thread_local State* p = 0; return p; }
   inline State& main_state() { static State s; return s; }
   inline State& state() { return own_state() ? *own_state() : main_state(); }
   inline std::string& own_dir() { static thread_local std::string d; return d; }
   inline std::string tmp() { if (!own_dir().empty()) return own_dir(); const char* e = getenv("VH_TMP"); return e ? e : "/tmp"; }
#else
   inline State& state() { static State s; return s; }
   inline State& main_state() { return state(); }
   inline std::string tmp() { const char* e = getenv("VH_TMP"); return e ? e : "/tmp"; }
#endif

   class Case
   {
   public:
      Rng r;
      const char* section;
      u64 index;
      std::string context;

      Case(u64 seed, const char* sec, u64 idx)
      : r(mix(seed ^ mix(hash_bytes(sec,strlen(sec)) ^ mix(idx)))), section(sec), index(idx), covered_(0)
      { const u64 h = mix(r.s ^ 0xB005ULL); r.boost = h % 1000 == 0 ? 100 : h % 100 == 1 ? 12 : 1; }

      // the case reached its oracle with this distinct, non-trivial input
      void cover(u64 sig) { if (!context.empty()) sample(context); state().distinct.insert(mix(sig ^ hash_bytes(section,strlen(section)))); ++covered_; }
      void cover(const std::string& s) { cover(hash_str(s)); }
      void event(const char* name, u64 n = 1) { state().events[name] += n; }
      bool want_sample() const { return state().section_samples[section] < 1 && state().samples.size() < 40; }
      void sample(const std::string& s) { if (want_sample()) { ++state().section_samples[section]; state().samples.push_back(std::string(section) + "#" + show(index) + ": " + s.substr(0,500)); } }
      void fail(const std::string& msg, const std::string& key = "") const
      { Failure f; f.key = key.empty() ? std::string(section) : key; f.msg = msg + (context.empty() ? "" : " | " + context); throw f; }
      u64 covered() const { return covered_; }
   private:
      u64 covered_;
   };

   typedef void (*SectionFn)(Case&);
   struct Section { const char* name; u64 cases; SectionFn fn; };
   inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
   struct Reg { Reg(const char* n, u64 cases, SectionFn f) { Section s = { n,cases,f }; sections().push_back(s); } };

   inline void on_alarm(int)
   {
      State& s = main_state();
      const u64 progress = __atomic_load_n(&s.shared->progress,__ATOMIC_RELAXED);
      if (progress == s.seen_progress)
      {
         if (++s.stuck >= s.hang_secs)
         {
            static const char m[] = "\nVH-HANG\n";
            if (write(2,m,sizeof(m) - 1)) {}
            _exit(97);
         }
      }
      else { s.seen_progress = progress; s.stuck = 0; }
   }

   inline std::string jstr(const std::string& s)
   {
      std::string r = "\"";
      for (std::size_t i = 0; i < s.size(); ++i)
      {
         unsigned char c = static_cast<unsigned char>(s[i]);
         char b[8];
         if (c == '"' || c == '\\') { r += '\\'; r += s[i]; }
         else if (c < 32 || c >= 127) { snprintf(b,8,"\\u%04x",c); r += b; }
         else r += s[i];
      }
      return r + "\"";
   }

   struct FailRec { std::string section; u64 index; std::string key, msg; };

   inline bool run_case(u64 seed, const Section& s, u64 i, FailRec& f)
   {
      Case c(seed,s.name,i);
      f.section = s.name; f.index = i; f.key = s.name;
      try { s.fn(c); return true; }
      catch (const Failure& e) { f.key = e.key; f.msg = e.msg; }
      catch (const std::exception& e) { f.msg = std::string("unexpected exception: ") + e.what() + (c.context.empty() ? "" : " | " + c.context); }
      catch (...) { f.msg = "unexpected exception"; }
      return false;
   }

#ifdef VH_THREADS
   // Threaded mode: the cases are dealt to VH_THREADS threads that start together and run different sections at any
   // one time.  A case that fails here is repeated alone: only one that then succeeds was disturbed by the other threads.
   inline void run_threads(u64 seed, const std::string& only, u64 base, u64 shard, u64 shards, double scale, std::vector<FailRec>& fails)
   {
      State& st = main_state();
      std::vector<std::pair<std::size_t,u64> > work[VH_THREADS];
      for (std::size_t t = 0; t < VH_THREADS; ++t)
      {
         Rng order(mix(seed + shard * 97 + t));
         std::vector<std::pair<std::size_t,u64> >& w = work[t];
         for (std::size_t k = 0; k < sections().size(); ++k)
         {
            const Section& s = sections()[k];
            if ((!only.empty() && only != s.name) || (std::string(VH_SKIP).find(std::string(" ") + s.name + " ") != std::string::npos)) continue;
            const u64 n = std::max<u64>(1,static_cast<u64>(static_cast<double>(s.cases) * scale / static_cast<double>(shards * VH_THREADS) + 0.5));
            for (u64 i = 0; i < n; ++i) w.push_back(std::make_pair(k,base + (i * shards + shard) * VH_THREADS + t));
         }
         // the first cases of all threads come from one section, so that first uses meet; the rest is shuffled
         std::vector<std::pair<std::size_t,u64> > head, tail; std::vector<bool> seen(sections().size());
         for (std::size_t i = 0; i < w.size(); ++i) { if (!seen[w[i].first]) { seen[w[i].first] = true; head.push_back(w[i]); } else tail.push_back(w[i]); }
         for (std::size_t i = tail.size(); i > 1; --i) std::swap(tail[i - 1],tail[order.below(i)]);
         if (shard & 1) std::reverse(head.begin(),head.end());
         w = head; w.insert(w.end(),tail.begin(),tail.end());
      }
      std::vector<State> own(VH_THREADS); std::vector<std::vector<FailRec> > bad(VH_THREADS); std::vector<std::thread> threads;
      static int waiting = VH_THREADS, active = 0; static const char* running[VH_THREADS]; const std::string dir = tmp();
      for (std::size_t t = 0; t < VH_THREADS; ++t)
      {
         own[t].evaluations = 0; own[t].shared = st.shared;
         threads.push_back(std::thread([&,t]()
         {
            own_state() = &own[t]; own_dir() = dir + "/thread" + show(t); mkdir(own_dir().c_str(),0700);
            Rng pace(mix(seed ^ (shard << 20) ^ t)); std::set<std::string> met;
            __atomic_sub_fetch(&waiting,1,__ATOMIC_RELAXED); while (__atomic_load_n(&waiting,__ATOMIC_RELAXED) > 0) { }
            for (std::size_t i = 0; i < work[t].size(); ++i)
            {
               const Section& s = sections()[work[t][i].first]; FailRec f;
               __atomic_add_fetch(&st.shared->progress,1,__ATOMIC_RELAXED);
               __atomic_store_n(&running[t],s.name,__ATOMIC_RELAXED);
               const int a = __atomic_add_fetch(&active,1,__ATOMIC_RELAXED);
               if (a > 1) ++own[t].events["cases_started_while_others_ran"];
               for (std::size_t o = 0; o < VH_THREADS; ++o) { const char* other = __atomic_load_n(&running[o],__ATOMIC_RELAXED); if (o != t && other) met.insert(std::string(s.name) + "|" + other); }
               if (pace.chance(1,16)) usleep(static_cast<useconds_t>(pace.below(200))); // move the threads against each other
               if (!run_case(seed,s,work[t][i].second,f)) bad[t].push_back(f);
               __atomic_sub_fetch(&active,1,__ATOMIC_RELAXED);
               __atomic_store_n(&running[t],static_cast<const char*>(0),__ATOMIC_RELAXED);
               ++own[t].evaluations; ++own[t].section_cases[s.name];
            }
            own[t].events["section_pairs_overlapped"] += met.size(); own[t].events["threads"] += 1;
         }));
      }
      for (std::size_t t = 0; t < VH_THREADS; ++t) threads[t].join();
      std::map<std::string,u64> ev;
      for (std::size_t t = 0; t < VH_THREADS; ++t)
      {
         State& o = own[t]; st.evaluations += o.evaluations; st.distinct.insert(o.distinct.begin(),o.distinct.end()); for (auto& e : o.section_cases) st.section_cases[e.first] += e.second;
         for (const char* n : { "cases_started_while_others_ran", "section_pairs_overlapped", "threads" }) ev[n] += o.events[n];
         for (auto& e : o.events) ev["self_checks"] += (ev.count(e.first) ? 0 : e.second);
         if (st.samples.size() < 3 && !o.samples.empty()) st.samples.push_back(o.samples[0]);
         for (auto& f : bad[t])
         {
            FailRec again; bool alone = true;
            for (std::size_t k = 0; k < sections().size(); ++k) if (f.section == sections()[k].name) alone = run_case(seed,sections()[k],f.index,again);
            if (alone && fails.size() < 12) { f.msg = "only while other threads run: " + f.msg; fails.push_back(f); fprintf(stderr,"VH-FAIL section=%s index=%llu key=%s: %s\n",f.section.c_str(),(unsigned long long)f.index,f.key.c_str(),f.msg.c_str()); }
            else ev["failed_also_alone"] += 1;
         }
      }
      st.events = ev;
   }
#endif

   inline int main_impl(int argc, char** argv)
   {
      u64 seed = 1, shard = 0, shards = 1, base = 0; double scale = 1.0;
      std::string out, cur, only; bool have_index = false; u64 only_index = 0; unsigned hang = 20, max_fail = 4;
      for (int i = 1; i < argc; ++i)
      {
         std::string a = argv[i]; std::string v = (i + 1 < argc) ? argv[i + 1] : "";
         if (a == "--seed") { seed = strtoull(v.c_str(),0,10); ++i; }
         else if (a == "--shard") { shard = strtoull(v.c_str(),0,10); ++i; }
         else if (a == "--shards") { shards = strtoull(v.c_str(),0,10); ++i; }
         else if (a == "--base") { base = strtoull(v.c_str(),0,10); ++i; }
         else if (a == "--scale") { scale = atof(v.c_str()); ++i; }
         else if (a == "--out") { out = v; ++i; }
         else if (a == "--cur") { cur = v; ++i; }
         else if (a == "--section") { only = v; ++i; }
         else if (a == "--index") { only_index = strtoull(v.c_str(),0,10); have_index = true; ++i; }
         else if (a == "--hang") { hang = static_cast<unsigned>(atoi(v.c_str())); ++i; }
         else if (a == "--list") { for (std::size_t k = 0; k < sections().size(); ++k) printf("%s %llu\n",sections()[k].name,(unsigned long long)sections()[k].cases); return 0; }
         else { fprintf(stderr,"bad argument %s\n",argv[i]); return 2; }
      }
      State& st = state();
      st.evaluations = 0; st.hang_secs = hang; st.seen_progress = 0; st.stuck = 0;
      static Shared local;
      st.shared = &local;
      if (!cur.empty())
      {
         int fd = open(cur.c_str(),O_RDWR | O_CREAT | O_TRUNC,0644);
         if (fd < 0 || ftruncate(fd,sizeof(Shared)) != 0) { perror("cur"); return 2; }
         void* p = mmap(0,sizeof(Shared),PROT_READ | PROT_WRITE,MAP_SHARED,fd,0);
         if (p == MAP_FAILED) { perror("mmap"); return 2; }
         st.shared = static_cast<Shared*>(p);
      }
      struct sigaction sa; memset(&sa,0,sizeof(sa)); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM,&sa,0);
      struct itimerval itv; itv.it_interval.tv_sec = 1; itv.it_interval.tv_usec = 0; itv.it_value = itv.it_interval; setitimer(ITIMER_REAL,&itv,0);

      std::vector<FailRec> fails;
      std::map<std::string,unsigned> per_key;

#ifdef VH_THREADS
      (void)max_fail; (void)have_index; (void)only_index;
      snprintf(st.shared->section,sizeof(st.shared->section),"threads");
      run_threads(seed,only,base,shard,shards,scale,fails);
#else
      for (std::size_t k = 0; k < sections().size(); ++k)
      {
         const Section& s = sections()[k];
         if (!only.empty() && only != s.name) continue;
         u64 n = static_cast<u64>(static_cast<double>(s.cases) * scale + 0.5);
         if (n == 0) n = 1;
         u64 lo = base + shard, hi = base + n, step = shards;
         if (have_index) { lo = only_index; hi = only_index + 1; step = 1; }
         snprintf(st.shared->section,sizeof(st.shared->section),"%s",s.name);
         for (u64 i = lo; i < hi; i += step)
         {
            st.shared->index = i;
            st.shared->progress = st.shared->progress + 1;
            FailRec f; const bool failed = !run_case(seed,s,i,f);
            ++st.evaluations;
            ++st.section_cases[s.name];
            if (failed)
            {
               if (per_key[f.key]++ < max_fail)
               {
                  fails.push_back(f);
                  fprintf(stderr,"VH-FAIL section=%s index=%llu key=%s: %s\n",s.name,(unsigned long long)i,f.key.c_str(),f.msg.c_str());
               }
               if (fails.size() >= 12) break;
            }
         }
         if (fails.size() >= 12) break;
      }
#endif
      itv.it_value.tv_sec = 0; itv.it_interval.tv_sec = 0; setitimer(ITIMER_REAL,&itv,0);

      if (!out.empty())
      {
         FILE* f = fopen(out.c_str(),"w");
         if (!f) { perror("out"); return 2; }
         fprintf(f,"{\"evaluations\":%llu,\"sections\":{",(unsigned long long)st.evaluations);
         bool first = true;
         for (std::map<std::string,u64>::iterator i = st.section_cases.begin(); i != st.section_cases.end(); ++i)
         { fprintf(f,"%s%s:%llu",first ? "" : ",",jstr(i->first).c_str(),(unsigned long long)i->second); first = false; }
         fprintf(f,"},\"events\":{"); first = true;
         for (std::map<std::string,u64>::iterator i = st.events.begin(); i != st.events.end(); ++i)
         { fprintf(f,"%s%s:%llu",first ? "" : ",",jstr(i->first).c_str(),(unsigned long long)i->second); first = false; }
         fprintf(f,"},\"samples\":["); 
         for (std::size_t i = 0; i < st.samples.size(); ++i) fprintf(f,"%s%s",i ? "," : "",jstr(st.samples[i]).c_str());
         fprintf(f,"],\"failures\":[");
         for (std::size_t i = 0; i < fails.size(); ++i)
            fprintf(f,"%s{\"section\":%s,\"index\":%llu,\"key\":%s,\"msg\":%s}",i ? "," : "",jstr(fails[i].section).c_str(),(unsigned long long)fails[i].index,jstr(fails[i].key).c_str(),jstr(fails[i].msg).c_str());
         fprintf(f,"]}\n");
         fclose(f);
         f = fopen((out + ".sig").c_str(),"wb");
         if (!f) { perror("sig"); return 2; }
         for (std::unordered_set<u64>::iterator i = st.distinct.begin(); i != st.distinct.end(); ++i) { u64 v = *i; fwrite(&v,8,1,f); }
         fclose(f);
      }
      return fails.empty() ? 0 : 1;
   }
}

namespace vh
{
   // output iterator with the discipline of a plain pointer: an element assigned without advancing is overwritten,
   // advancing without assigning leaves a default value behind
   template <typename C>
   class into_iterator
   {
   public:
      typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference;
      typedef C container_type;
      explicit into_iterator(C& c) : c_(&c), pos_(c.size()) {}
      class slot
      {
      public:
         slot(C* c, std::size_t p) : c_(c), p_(p) {}
         template <typename T> const slot& operator=(const T& t) const { if (c_->size() <= p_) c_->resize(p_ + 1); typename C::iterator i = c_->begin(); std::advance(i,p_); *i = t; return *this; }
      private:
         C* c_; std::size_t p_;
      };
      slot operator*() const { return slot(c_,pos_); }
      into_iterator& operator++() { ++pos_; if (c_->size() < pos_) c_->resize(pos_); return *this; }
      into_iterator operator++(int) { into_iterator o(*this); ++*this; return o; }
   private:
      C* c_; std::size_t pos_;
   };
   template <typename C> inline into_iterator<C> into(C& c) { return into_iterator<C>(c); }
}

#define V_SECTION(ident, cases) \
   static void vh_section_##ident(vh::Case& c); \
   static vh::Reg vh_reg_##ident(#ident,cases,vh_section_##ident); \
   static void vh_section_##ident(vh::Case& c)

#define V_CHECK(cond, msg) \
   do { if (!(cond)) { std::ostringstream vh_o; vh_o.precision(20); vh_o << "check failed: " #cond " -- " << msg; c.fail(vh_o.str()); } } while (0)

#define V_EQ(a, b, msg) \
   do { if (!((a) == (b))) { std::ostringstream vh_o; vh_o.precision(20); vh_o << "expected " #a " == " #b ": got " << vh::show(a) << " want " << vh::show(b) << " -- " << msg; c.fail(vh_o.str()); } } while (0)

// VH_IN(k): compile this block in part k when the driver is built in several parts (run.py, 'parts')
#ifdef VH_PART
#define VH_IN(k) (VH_PART == (k))
#else
#define VH_IN(k) 1
#endif
#if VH_IN(0)
#define V_MAIN int main(int argc, char** argv) { return vh::main_impl(argc,argv); }
#else
#define V_MAIN
#endif
#endif
