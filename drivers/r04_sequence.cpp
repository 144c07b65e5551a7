// R04: copying, cutting, translating, repeating, case conversion and other whole-sequence utilities
#include "ref.hpp"
#include <list>
#include <deque>
#include <set>
#include "strtk.hpp"
#include <sstream>
typedef std::string Str;
struct InSet { Str s; bool operator()(char ch) const { return s.find(ch) != Str::npos; } };

V_SECTION(copies, 15000)
{
   const Str al = ref::alphabet(c.r), s = c.r.str(c.r.len(24),al), set = c.r.str(c.r.below(4),al);
   const InSet in = { set };
   c.context = "s=" + vh::q(s) + " set=" + vh::q(set);
   Str yes, wh, un; for (char ch : s) if (in(ch)) yes += ch;
   for (char ch : s) { if (!in(ch)) break; wh += ch; } for (char ch : s) { if (in(ch)) break; un += ch; }
   vh::Buf<char> b(s); const char* p = b.begin(); const char* e = b.end();
   { vh::Buf<char> o(yes.size()); strtk::copy_if(in,p,e,o.begin()); V_EQ(o.str(),yes,"copy_if"); }
   { vh::Buf<char> o(wh.size()); V_EQ(static_cast<std::size_t>(strtk::copy_while(in,p,e,o.begin()) - p),wh.size(),"copy_while stop"); V_EQ(o.str(),wh,"copy_while"); }
   { vh::Buf<char> o(un.size()); V_EQ(static_cast<std::size_t>(strtk::copy_until(in,p,e,o.begin()) - p),un.size(),"copy_until stop"); V_EQ(o.str(),un,"copy_until"); }
   { const std::size_t n = c.r.below(s.size() + 1); vh::Buf<char> o(n); strtk::copy_n(p,n,o.begin()); V_EQ(o.str(),s.substr(0,n),"copy_n"); }
   std::set<char> u(s.begin(),s.end());
   { Str o; strtk::extract_unique(p,e,vh::into(o)); V_EQ(o,Str(u.begin(),u.end()),"extract_unique"); }
   V_EQ(strtk::range_only_contains(in,p,e),yes.size() == s.size(),"range_only_contains");
   std::size_t dup = 0; for (std::size_t i = 1; i < s.size(); ++i) dup += s[i] == s[i - 1];
   V_EQ(strtk::count_consecutive_duplicates(p,e),dup,"count_consecutive_duplicates");
   if (!s.empty())
   {
      const char lo = *std::min_element(s.begin(),s.end()), hi = *std::max_element(s.begin(),s.end()); char a, z;
      const std::vector<char> v(s.begin(),s.end()); const std::deque<char> d(s.begin(),s.end()); const std::set<char> st(s.begin(),s.end()); const std::multiset<char> ms(s.begin(),s.end());
      V_EQ(strtk::min_of_cont(v),lo,"min_of_cont"); V_EQ(strtk::max_of_cont(d),hi,"max_of_cont"); V_EQ(strtk::min_of_cont(st),lo,"min_of_cont(set)"); V_EQ(strtk::max_of_cont(st),hi,"max_of_cont(set)");
      V_EQ(strtk::min_of_cont(ms),lo,"min_of_cont(multiset)"); V_EQ(strtk::max_of_cont(ms),hi,"max_of_cont(multiset)");
      strtk::min_max_of_range(p,e,a,z); V_CHECK(a == lo && z == hi,"min_max_of_range");
      a = z = 0; strtk::min_max_of_cont(v,a,z); V_CHECK(a == lo && z == hi,"min_max_of_cont(vector)");
      a = z = 0; strtk::min_max_of_cont(st,a,z); V_CHECK(a == lo && z == hi,"min_max_of_cont(set)");
      a = z = 0; strtk::min_max_of_cont(ms,a,z); V_CHECK(a == lo && z == hi,"min_max_of_cont(multiset)");
      c.event("extremes",9);
   }
   // first character that occurs exactly once
   std::size_t f = Str::npos; for (std::size_t i = 0; f == Str::npos && i < s.size(); ++i) if (std::count(s.begin(),s.end(),s[i]) == 1) f = i;
   V_EQ(strtk::first_non_repeated_char(s),f,"first_non_repeated_char(string)");
   V_EQ(static_cast<std::size_t>(strtk::first_non_repeated_char(p,e) - p),f == Str::npos ? s.size() : f,"first_non_repeated_char(range)");
   { const unsigned char* up = reinterpret_cast<const unsigned char*>(p); V_EQ(static_cast<std::size_t>(strtk::first_non_repeated_char(up,up + s.size()) - up),f == Str::npos ? s.size() : f,"first_non_repeated_char(unsigned range)"); }
   c.event(f == Str::npos ? "all_repeated" : "non_repeated",1);
   c.event("copies",6);
   if (!s.empty()) c.cover(c.context);
}

V_SECTION(canonical, 12000)
{
   // the least rotation, compared with trying them all
   static const char* als[] = { "ab", "aab", "abc", "\x7F\x80\xFF" };
   Str s = c.r.str(c.r.len(22),als[c.r.below(4)]);
   if (c.r.chance(1,4)) { const Str u = s.substr(0,4); s.clear(); for (std::size_t k = c.r.below(6); k-- > 0;) s += u; }
   c.context = "s=" + vh::q(s);
   Str best = s; for (std::size_t k = 1; k < s.size(); ++k) { const Str t = s.substr(k) + s.substr(0,k); if (std::lexicographical_compare(t.begin(),t.end(),best.begin(),best.end())) best = t; }
   { Str x = s; strtk::lexicographically_canonicalize(x); V_EQ(x,best,"lexicographically_canonicalize(string)"); }
   { std::vector<char> x(s.begin(),s.end()); strtk::lexicographically_canonicalize(x); V_EQ(Str(x.begin(),x.end()),best,"lexicographically_canonicalize(vector)"); }
   { vh::Buf<char> x(s); strtk::lexicographically_canonicalize(x.begin(),x.end()); V_EQ(x.str(),best,"lexicographically_canonicalize(range)"); }
   c.event("rotations",3);
   if (!s.empty()) c.cover(s);
}

V_SECTION(cutting, 8000)
{
   std::vector<Str> v; for (std::size_t k = c.r.len(10); k-- > 0;) v.push_back(c.r.str(c.r.below(12),ref::alphabet(c.r)));
   const std::size_t r0 = c.r.below(8), r1 = c.r.chance(1,5) ? static_cast<std::size_t>(-1) : r0 + c.r.below(8);
   std::vector<Str> w, wi = v; for (auto& s : v) if (s.size() >= r0) w.push_back(s.substr(r0,std::min(r1,s.size()) - r0));
   for (auto& s : wi) if (s.size() >= r0) s = s.substr(r0,std::min(r1,s.size()) - r0);
   c.context = "cut " + std::to_string(r0) + ".." + std::to_string(r1) + " of " + vh::show(v);
   { std::vector<Str> o; strtk::cut(r0,r1,v.begin(),v.end(),vh::into(o)); V_EQ(o,w,"cut(range)"); }
   { std::deque<Str> d(v.begin(),v.end()); std::vector<Str> o; strtk::cut(r0,r1,d,vh::into(o)); V_EQ(o,w,"cut(sequence)"); }
   { std::vector<Str> x = v; strtk::cut_inplace(r0,r1,x.begin(),x.end()); V_EQ(x,wi,"cut_inplace"); }
   c.event("strings_cut",w.size());
   if (!v.empty()) { Str sig; for (auto& x : v) sig += x + "|"; c.cover(sig + std::to_string(r0) + "." + std::to_string(r1)); }
}

V_SECTION(tables, 6000)
{
   const Str al = ref::alphabet(c.r), s = c.r.str(c.r.len(40),al); const std::size_t n = c.r.below(10);
   const Str from = c.r.str(n,al), to = c.r.str(n,ref::alphabet(c.r));
   c.context = "s=" + vh::q(s) + " from=" + vh::q(from) + " to=" + vh::q(to);
   Str w = s; for (auto& ch : w) { const std::size_t k = from.rfind(ch); if (k != Str::npos) ch = to[k]; }
   const strtk::translation_table t(from,to);
   V_EQ(strtk::translate(t,s),w,"translate"); { Str x = s; strtk::translate_inplace(t,x); V_EQ(x,w,"translate_inplace"); }
   for (int k = 0; k < 256; ++k) { char ch = static_cast<char>(k); const std::size_t q = from.rfind(ch); const char want = q == Str::npos ? ch : to[q]; V_EQ(t(ch),want,"table entry " << k); V_EQ(t(static_cast<unsigned char>(k)),static_cast<unsigned char>(want),"unsigned table entry " << k); }
   bool threw = false; try { strtk::translation_table bad(from,to + "x"); } catch (const std::runtime_error&) { threw = true; } V_CHECK(threw,"tables of different length must be refused");
   // case conversion and printable conversion; every byte value is covered by one fixed text
   Str text = c.index < 4 ? Str() : s; if (c.index < 4) for (int k = 0; k < 256; ++k) text += static_cast<char>(k);
   Str up = text, lo = text, pr = text;
   for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
   for (auto& ch : lo) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
   for (auto& ch : pr) if (!(ch > 0x20 && ch < 0x7F)) ch = '.';
   #define FORMS(FN,WANT) { Str x = text; strtk::FN(x); V_EQ(x,WANT,#FN "(string)"); vh::Buf<char> b(text); strtk::FN(b.begin(),b.end()); V_EQ(b.str(),WANT,#FN "(range)"); \
      vh::Buf<char> u(text); unsigned char* up_ = reinterpret_cast<unsigned char*>(u.begin()); strtk::FN(up_,up_ + text.size()); V_EQ(u.str(),WANT,#FN "(unsigned range)"); }
   FORMS(convert_to_uppercase,up) FORMS(convert_to_lowercase,lo) FORMS(convert_to_printable_chars,pr)
   { vh::Buf<char> b(text); strtk::convert_to_lowercase(const_cast<const char*>(b.begin()),const_cast<const char*>(b.end())); V_EQ(b.str(),lo,"convert_to_lowercase(const range)"); }
   c.event("texts_converted",10); c.event("table_entries",512);
   if (!s.empty()) c.cover(c.context);
}

template <typename C> static std::vector<long long> vals(const C& v) { return std::vector<long long>(v.begin(),v.end()); }
V_SECTION(building, 8000)
{
   const Str al = ref::alphabet(c.r), s = c.r.str(c.r.below(c.r.chance(1,30) ? 300 : 8),al), old = c.r.str(c.r.below(6),al); const std::size_t n = c.r.below(12);
   Str rep; for (std::size_t k = 0; k < n; ++k) rep += s;
   c.context = "s=" + vh::q(s) + " n=" + std::to_string(n);
   V_EQ(strtk::replicate(n,s),rep,"replicate"); { Str x = old; strtk::replicate(n,s,x); V_EQ(x,old + rep,"replicate(append)"); } { Str x = s; strtk::replicate_inplace(n,x); V_EQ(x,s + rep,"replicate_inplace"); }
   // bracketize
   std::vector<int> v; for (std::size_t k = c.r.len(8); k-- > 0;) v.push_back(static_cast<int>(c.r.range(-1000,1000)));
   const Str pre = c.r.str(c.r.below(3),"[(<"), post = c.r.str(c.r.below(3),"])>");
   Str bw, bs, bm; std::set<int> st(v.begin(),v.end()); std::multiset<int> ms(v.begin(),v.end());
   for (int x : v) bw += pre + std::to_string(x) + post; for (int x : st) bs += pre + std::to_string(x) + post; for (int x : ms) bm += pre + std::to_string(x) + post;
   std::deque<int> d(v.begin(),v.end()); std::list<int> l(v.begin(),v.end());
   V_EQ(strtk::bracketize(pre,post,v),bw,"bracketize(vector)"); V_EQ(strtk::bracketize(pre,post,d),bw,"bracketize(deque)"); V_EQ(strtk::bracketize(pre,post,l),bw,"bracketize(list)");
   V_EQ(strtk::bracketize(pre,post,v.begin(),v.end()),bw,"bracketize(range)"); V_EQ(strtk::bracketize(pre,post,st),bs,"bracketize(set)"); V_EQ(strtk::bracketize(pre,post,ms),bm,"bracketize(multiset)");
   { Str x = old; strtk::bracketize(x,pre,post,v); V_EQ(x,old + bw,"bracketize(append vector)"); x = old; strtk::bracketize(x,pre,post,st); V_EQ(x,old + bs,"bracketize(append set)"); x = old; strtk::bracketize(x,pre,post,ms); V_EQ(x,old + bm,"bracketize(append multiset)"); x = old; strtk::bracketize(x,pre,post,v.begin(),v.end()); V_EQ(x,old + bw,"bracketize(append range)"); }
   // build_string
   { strtk::build_string b(c.r.below(80)); b << s << static_cast<int>(n) << "lit" << old << -5; const Str w = s + std::to_string(n) + "lit" + old + "-5"; V_EQ(b.to_str(),w,"build_string"); const char* cs = b; V_CHECK(std::memcmp(cs,w.data(),w.size()) == 0,"build_string data"); }
   // interval insertion
   const std::size_t iv = 1 + c.r.below(5); Str iw; for (std::size_t k = 0; k < rep.size(); ++k) { iw += rep[k]; if ((k + 1) % iv == 0) iw += '#'; }
   { Str o; V_EQ(strtk::inserter(strtk::interval_inserter<char>(iv,'#'),rep.begin(),rep.end(),vh::into(o)),iw.size(),"interval inserter count"); V_EQ(o,iw,"interval inserter"); }
   // iota
   const int from = static_cast<int>(c.r.range(-50,50)); std::vector<long long> iot; for (std::size_t k = 0; k < n; ++k) iot.push_back(from + static_cast<long long>(k));
   { std::vector<int> x(n); strtk::iota(x.begin(),x.end(),from); V_EQ(vals(x),iot,"iota(range)"); x.assign(n,0); strtk::iota(x,from); V_EQ(vals(x),iot,"iota(sequence)"); std::deque<int> q; strtk::iota(q,n,from); V_EQ(vals(q),iot,"iota(append)");
     std::set<int> a; strtk::iota(a,n,from); V_EQ(vals(a),iot,"iota(set)"); std::multiset<int> b; strtk::iota(b,n,from); V_EQ(vals(b),iot,"iota(multiset)"); std::vector<int> o; strtk::iota(n,from,vh::into(o)); V_EQ(vals(o),iot,"iota(output)"); }
   // arrays, fill, reverse, sort
   { unsigned char a[6]; std::fill_n(a,6,static_cast<unsigned char>('?')); const Str t = c.r.str(c.r.below(9),"abc"); const bool pad = c.r.flip(); Str w = "??????"; if (t.size() <= 6) { w.replace(0,t.size(),t); if (pad) for (std::size_t k = t.size(); k < 6; ++k) w[k] = '-'; }
     V_EQ(strtk::set_array(a,t,pad,'-'),t.size() <= 6,"set_array"); V_EQ(Str(a,a + 6),w,"set_array content");
     unsigned char b[4] = { 'w','x','y','z' }; std::fill_n(a,6,static_cast<unsigned char>('?')); V_CHECK(strtk::set_array(a,b,pad,'-'),"set_array(array)"); V_EQ(Str(a,a + 6),Str(pad ? "wxyz--" : "wxyz??"),"set_array(array) content"); V_CHECK(!strtk::set_array(b,a),"set_array from a longer array"); }
   { Str x = rep; std::reverse(x.begin(),x.end()); Str y = rep; strtk::reverse(y); V_EQ(y,x,"reverse(string)"); vh::Buf<char> b(rep); strtk::reverse(strtk::std_string::iterator_type(b.begin(),b.end())); V_EQ(b.str(),x,"reverse(range)"); vh::Buf<char> b2(rep); strtk::reverse(strtk::range::adapter<char>(b2.begin(),b2.end())); V_EQ(b2.str(),x,"reverse(adapter)");
     Str z = rep; std::sort(z.begin(),z.end()); strtk::sort(y); V_EQ(y,z,"sort"); strtk::fill(y,'q'); V_EQ(y,Str(rep.size(),'q'),"fill(string)"); std::vector<int> f(v); strtk::fill(f,7); V_EQ(f,std::vector<int>(v.size(),7),"fill(sequence)"); }
   c.event("values_built",24);
   if (!rep.empty() || !v.empty()) c.cover(s + "|" + std::to_string(n) + bw + pre + post);
}

// ranges, views and their conversions: every view shows exactly the elements it was made from
V_SECTION(views, 6000)
{
   const Str s = c.r.chance(1,8) ? c.r.bytes(c.r.below(300)) : c.r.str(c.r.below(20),ref::alphabet(c.r));
   c.context = "s=" + vh::q(s);
   vh::Buf<char> b(s); char* p = b.begin(); char* e = b.end(); const char* cp = p; const char* ce = e;
   typedef std::pair<const char*,const char*> CP;
   {
      const strtk::range::string r(cp,ce), r2(cp,s.size()), r3(CP(cp,ce)), r4 = strtk::range::type(s);
      V_EQ(r.size(),s.size(),"adapter size"); V_EQ(r2.size(),s.size(),"adapter(length) size"); V_EQ(r3.size(),s.size(),"adapter(pair) size"); V_EQ(r4.size(),s.size(),"range::type size");
      V_EQ(strtk::range::as_string(r),s,"as_string"); V_EQ(static_cast<Str>(r2),s,"adapter to string"); V_EQ(Str(r3.begin(),r3.end()),s,"adapter elements"); V_EQ(strtk::range::as_string(r4),s,"range::type elements");
      for (std::size_t k = 0; k < s.size(); ++k) V_EQ(r[k],s[k],"adapter element " << k);
      const unsigned char* u = reinterpret_cast<const unsigned char*>(cp); const strtk::range::ustring us(u,u + s.size()); V_EQ(strtk::range::as_string(us),s,"as_string(unsigned)");
      std::vector<int> v(s.begin(),s.end()), w = v; strtk::range::adapter<int> va(v.data(),v.size()); V_EQ(va.size(),v.size(),"int adapter size");
      for (std::size_t k = 0; k < v.size(); ++k) { V_EQ(va[k],v[k],"int adapter element"); va[k] += 3; w[k] += 3; } V_EQ(v,w,"writing through an adapter");
      strtk::iota<int>(va,5); for (std::size_t k = 0; k < v.size(); ++k) V_EQ(v[k],5 + static_cast<int>(k),"iota through an adapter");
      strtk::reverse(va); for (std::size_t k = 0; k < v.size(); ++k) V_EQ(v[v.size() - 1 - k],5 + static_cast<int>(k),"reverse through an adapter");
   }
   {
      const std::pair<char*,char*> m = strtk::make_pair<char*>(s), m2 = strtk::make_pair<char*,char*>(CP(cp,ce)), m3 = strtk::make_pair<char*>(CP(cp,ce)), m4 = strtk::make_pair<char*,char*>(strtk::range::string(cp,ce));
      const std::pair<unsigned char*,const char*> m5 = strtk::make_pair<unsigned char*,const char*>(s);
      V_CHECK(m.first == s.data() && m.second == s.data() + s.size(),"make_pair(string)"); V_CHECK(m2.first == p && m2.second == e,"make_pair(range)"); V_CHECK(m3.first == p && m3.second == e,"make_pair<T>(range)"); V_CHECK(m4.first == p && m4.second == e,"make_pair(adapter)");
      V_CHECK(reinterpret_cast<char*>(m5.first) == s.data() && m5.second == s.data() + s.size(),"make_pair<unsigned>(string)");
      V_EQ(strtk::make_string(CP(cp,ce)),s,"make_string(range)"); V_EQ(strtk::distance(CP(cp,ce)),s.size(),"distance");
      std::ostringstream o; const CP q(cp,ce); CP q2(cp,ce); o << q << "|" << q2; V_EQ(o.str(),s + "|" + s,"streamed ranges");
   }
   {
      char a[7]; unsigned char u[7]; int i[7]; const std::size_t n = c.r.below(10); Str t = c.r.bytes(7); std::copy(t.begin(),t.end(),a); std::copy(t.begin(),t.end(),u);
      V_EQ(strtk::make_string(a),t,"make_string(array)"); V_EQ(strtk::make_string(u),t,"make_string(unsigned array)"); V_EQ(strtk::make_string(a,n),n <= 7 ? t.substr(0,n) : Str(),"make_string(array,length)"); V_EQ(strtk::make_string(u,n),n <= 7 ? t.substr(0,n) : Str(),"make_string(unsigned array,length)");
      for (int k = 0; k < 7; ++k) i[k] = 10 + k;
      V_EQ(strtk::clear_array(i,-1,n),n <= 7,"clear_array verdict"); for (std::size_t k = 0; k < 7; ++k) V_EQ(i[k],n <= 7 && k < n ? -1 : 10 + static_cast<int>(k),"clear_array element " << k);
      V_CHECK(strtk::clear_array(a,'z'),"clear_array(all)"); V_EQ(Str(a,7),Str(7,'z'),"clear_array(all) content");
   }
   { vh::Buf<char> f(s); strtk::fill(strtk::range::string(static_cast<const char*>(f.begin()),static_cast<const char*>(f.end())),'#'); V_EQ(f.str(),Str(s.size(),'#'),"fill(adapter)"); }
   { vh::Buf<char> f(s); strtk::reverse(strtk::range::string(static_cast<const char*>(f.begin()),static_cast<const char*>(f.end()))); V_EQ(f.str(),Str(s.rbegin(),s.rend()),"reverse(const adapter)"); }
   {
      Str lo = s, up = s; for (auto& ch : lo) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32); for (auto& ch : up) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32);
      const Str keep = s; V_EQ(strtk::as_lowercase(s),lo,"as_lowercase"); V_EQ(strtk::as_uppercase(s),up,"as_uppercase"); V_EQ(s,keep,"argument of as_lowercase");
   }
   {
      std::pair<int,double> pr; int ar[4]; std::vector<Str> vs; std::set<int> st; const std::vector<int>& vi = std::vector<int>();
      V_EQ(strtk::type_name(1),Str("int"),"type_name(int)"); V_EQ(strtk::type_name(2.5),Str("double"),"type_name(double)"); V_EQ(strtk::type_name(s),Str("std::string"),"type_name(string)");
      V_EQ(strtk::type_name(pr),Str("std::pair<int,double>"),"type_name(pair)"); V_EQ(strtk::type_name(ar),Str("int[4]"),"type_name(array)"); V_EQ(strtk::type_name(vs),Str("std::vector<std::string>"),"type_name(vector)"); V_EQ(strtk::type_name(st),Str("std::set<int>"),"type_name(set)"); V_EQ(strtk::type_name(vi),Str("std::vector<int>"),"type_name(vector<int>)");
   }
   c.event("views_compared",30);
   if (!s.empty()) c.cover(s);
}
V_MAIN
