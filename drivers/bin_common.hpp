// Typed items for the binary reader/writer drivers: a reference encoder and decoder per type.
#ifndef VH_BIN_COMMON
#define VH_BIN_COMMON
#include <strtk.hpp>
#include "vh.hpp"
#include <climits>
#include <deque>
#include <list>
#include <memory>

namespace bin
{
   struct point // user defined record with both macros
   {
      int x; double y; std::string n; std::vector<short> v;
      point() : x(0), y(0) {}
      strtk_binary_reader_begin() strtk_binary_reader(x) strtk_binary_reader(y) strtk_binary_reader(n) strtk_binary_reader(v) strtk_binary_reader_end()
      strtk_binary_writer_begin() strtk_binary_writer(x) strtk_binary_writer(y) strtk_binary_writer(n) strtk_binary_writer(v) strtk_binary_writer_end()
      bool operator==(const point& p) const { return x == p.x && !memcmp(&y,&p.y,sizeof(y)) && n == p.n && v == p.v; }
   };

   // in: reference decoder over a string; out: reference encoder
   struct in { const std::string& s; std::size_t p; in(const std::string& t) : s(t), p(0) {} std::size_t left() const { return s.size() - p; }
               bool raw(void* d, std::size_t n) { if (left() < n) return false; if (n) memcpy(d,s.data() + p,n); p += n; return true; } };

   template <typename T, typename E = void> struct codec;
   template <typename T> struct codec<T,typename std::enable_if<std::is_arithmetic<T>::value>::type>
   {
      static void enc(std::string& o, const T& t) { o.append(reinterpret_cast<const char*>(&t),sizeof(T)); }
      static bool dec(in& i, T& t) { return i.raw(&t,sizeof(T)); }
      static T gen(vh::Rng& r, unsigned) { T t; unsigned char b[sizeof(T)]; for (std::size_t k = 0; k < sizeof(T); ++k) b[k] = static_cast<unsigned char>(r.next());
         if (std::is_same<T,bool>::value) b[0] &= 1; memcpy(&t,b,sizeof(T)); if (std::is_floating_point<T>::value) t = static_cast<T>(r.range(-100000,100000)) / static_cast<T>(8); return t; }
      static bool same(const T& a, const T& b) { return !memcmp(&a,&b,sizeof(T)); }
      static bool plain() { return true; }
   };
   template <> struct codec<std::string>
   {
      static void enc(std::string& o, const std::string& t) { codec<unsigned>::enc(o,static_cast<unsigned>(t.size())); o += t; }
      static bool dec(in& i, std::string& t) { unsigned n; if (!codec<unsigned>::dec(i,n) || i.left() < n) return false; t.assign(i.s,i.p,n); i.p += n; return true; }
      static std::string gen(vh::Rng& r, unsigned d) { return r.bytes(r.len(d ? 6 : 30)); }
      static bool same(const std::string& a, const std::string& b) { return a == b; }
   };
   template <typename A, typename B> struct codec<std::pair<A,B> >
   {
      typedef std::pair<A,B> P;
      static void enc(std::string& o, const P& t) { codec<A>::enc(o,t.first); codec<B>::enc(o,t.second); }
      static bool dec(in& i, P& t) { return codec<A>::dec(i,t.first) && codec<B>::dec(i,t.second); }
      static P gen(vh::Rng& r, unsigned d) { return P(codec<A>::gen(r,d + 1),codec<B>::gen(r,d + 1)); }
      static bool same(const P& a, const P& b) { return codec<A>::same(a.first,b.first) && codec<B>::same(a.second,b.second); }
   };
   template <typename S> struct seq_codec
   {
      typedef typename S::value_type T;
      static std::size_t least() { return std::is_arithmetic<T>::value ? sizeof(T) : 1; }
      static void enc(std::string& o, const S& s) { codec<unsigned>::enc(o,static_cast<unsigned>(s.size())); for (typename S::const_iterator i = s.begin(); i != s.end(); ++i) codec<T>::enc(o,*i); }
      static bool dec(in& i, S& s)
      {
         unsigned n; if (!codec<unsigned>::dec(i,n) || i.left() / least() < n) return false;
         s = S(); for (unsigned k = 0; k < n; ++k) { T t = T(); if (!codec<T>::dec(i,t)) return false; s.insert(s.end(),t); }
         return true;
      }
      static S gen(vh::Rng& r, unsigned d) { S s; for (std::size_t n = r.len(d ? 3 : 12); n-- > 0;) s.insert(s.end(),codec<T>::gen(r,d + 1)); return s; }
      static bool same(const S& a, const S& b)
      {
         if (a.size() != b.size()) return false; typename S::const_iterator i = a.begin(), j = b.begin();
         for (; i != a.end(); ++i, ++j) if (!codec<T>::same(*i,*j)) return false; return true;
      }
   };
   template <typename T> struct codec<std::vector<T> > : seq_codec<std::vector<T> > {};
   template <typename T> struct codec<std::deque<T> > : seq_codec<std::deque<T> > {};
   template <typename T> struct codec<std::list<T> > : seq_codec<std::list<T> > {};
   template <typename T> struct codec<std::set<T> > : seq_codec<std::set<T> > {};
   template <typename T> struct codec<std::multiset<T> > : seq_codec<std::multiset<T> > {};
   template <> struct codec<point>
   {
      static void enc(std::string& o, const point& t) { codec<int>::enc(o,t.x); codec<double>::enc(o,t.y); codec<std::string>::enc(o,t.n); codec<std::vector<short> >::enc(o,t.v); }
      static bool dec(in& i, point& t) { return codec<int>::dec(i,t.x) && codec<double>::dec(i,t.y) && codec<std::string>::dec(i,t.n) && codec<std::vector<short> >::dec(i,t.v); }
      static point gen(vh::Rng& r, unsigned d) { point p; p.x = codec<int>::gen(r,d); p.y = codec<double>::gen(r,d); p.n = codec<std::string>::gen(r,1); p.v = codec<std::vector<short> >::gen(r,1); return p; }
      static bool same(const point& a, const point& b) { return a == b; }
   };

   // one value of the stream
   struct item
   {
      virtual ~item() {}
      virtual std::string name() const = 0;
      virtual void enc(std::string& o) const = 0;
      virtual bool write(strtk::binary::writer& w) const = 0;
      virtual bool read(strtk::binary::reader& r) = 0;      // into a second value
      virtual bool decode(in& i) = 0;                       // reference, into a third value
      virtual bool read_ok() const = 0;                     // second equals the original
      virtual bool decode_ok() const = 0;                   // second equals third
   };
   template <typename T> struct item_of : item
   {
      T a, b, d; item_of(vh::Rng& r) : a(codec<T>::gen(r,0)), b(), d() {}
      std::string name() const { return std::string(typeid(T).name()).substr(0,40); }
      void enc(std::string& o) const { codec<T>::enc(o,a); }
      bool write(strtk::binary::writer& w) const { return w(a); }
      bool read(strtk::binary::reader& r) { b = T(); return r(b); }
      bool decode(in& i) { return codec<T>::dec(i,d); }
      bool read_ok() const { return codec<T>::same(a,b); }
      bool decode_ok() const { return codec<T>::same(d,b); }
   };
   // fixed array, length optionally stored
   template <typename T, std::size_t N> struct array_item : item
   {
      T a[N], b[N], d[N]; bool stored; array_item(vh::Rng& r) : stored(r.chance(1,3)) { for (std::size_t i = 0; i < N; ++i) { a[i] = codec<T>::gen(r,0); b[i] = d[i] = T(); } }
      std::string name() const { return stored ? "len+array" : "array"; }
      void enc(std::string& o) const { if (stored) codec<unsigned>::enc(o,static_cast<unsigned>(N)); o.append(reinterpret_cast<const char*>(a),sizeof(a)); }
      bool write(strtk::binary::writer& w) const { return stored ? w(a,true) : w(a); }
      bool read(strtk::binary::reader& r)
      {
         if (!stored) return r(b);
         T* p = 0; strtk::binary::reader::uint32_t n = 0; bool ok = r(p,n); if (ok) { ok = n == N; if (ok) std::copy(p,p + N,b); } delete [] p; return ok;
      }
      bool decode(in& i) { if (stored) { unsigned n = 0; if (!codec<unsigned>::dec(i,n) || n != N) return false; } return i.raw(d,sizeof(d)); }
      bool read_ok() const { return !memcmp(a,b,sizeof(a)); }
      bool decode_ok() const { return !memcmp(b,d,sizeof(a)); }
   };
   // pointer and length, length optionally stored
   template <typename T> struct ptr_item : item
   {
      std::vector<T> a, b, d; bool stored; unsigned kind;
      ptr_item(vh::Rng& r) : stored(r.flip()), kind(static_cast<unsigned>(r.below(4))) { for (std::size_t n = r.len(20); n-- > 0;) a.push_back(codec<T>::gen(r,0)); if (a.size() > 255) kind &= 1; }
      std::string name() const { return stored ? "ptr+len" : "ptr"; }
      void enc(std::string& o) const { if (stored) codec<unsigned>::enc(o,static_cast<unsigned>(a.size())); o.append(reinterpret_cast<const char*>(a.data()),a.size() * sizeof(T)); }
      bool write(strtk::binary::writer& w) const
      {
         const T* p = a.data();
         switch (kind)
         {
            case 0 : return w(p,static_cast<strtk::binary::writer::uint32_t>(a.size()),stored);
            case 1 : return w(p,static_cast<strtk::binary::writer::uint64_t>(a.size()),stored);
            case 2 : return w(p,static_cast<strtk::binary::writer::uint16_t>(a.size()),stored);
            default: return w(p,static_cast<strtk::binary::writer::uint8_t>(a.size()),stored);
         }
      }
      template <typename L> bool read_l(strtk::binary::reader& r)
      {
         if (stored)
         {
            T* p = 0; L n = 77; const bool ok = r(p,n,true);
            if (ok) b.assign(p,p + n);
            delete [] p; return ok;
         }
         std::vector<T> t(a.size()); T* p = t.data(); L n = static_cast<L>(a.size()); if (!r(p,n,false)) return false; b = t; return n == a.size();
      }
      bool read(strtk::binary::reader& r) { b.clear(); return (kind & 1) ? read_l<strtk::binary::reader::uint64_t>(r) : read_l<strtk::binary::reader::uint32_t>(r); }
      bool decode(in& i)
      {
         unsigned n = static_cast<unsigned>(a.size()); if (stored && !codec<unsigned>::dec(i,n)) return false;
         if (i.left() / sizeof(T) < n) return false; d.resize(n); return i.raw(d.data(),n * sizeof(T));
      }
      static bool eq(const std::vector<T>& x, const std::vector<T>& y) { return x.size() == y.size() && (x.empty() || !memcmp(x.data(),y.data(),x.size() * sizeof(T))); }
      bool read_ok() const { return eq(a,b); }
      bool decode_ok() const { return eq(d,b); }
   };
   // strings with 8 or 16 bit lengths
   template <typename S, typename L> struct short_item : item
   {
      std::string a, b, d; short_item(vh::Rng& r) : a(r.bytes(r.chance(1,8) ? 255 : std::min<std::size_t>(r.len(20),std::numeric_limits<L>::max()))) {}
      std::string name() const { return sizeof(L) == 1 ? "pascal" : "short"; }
      void enc(std::string& o) const { codec<L>::enc(o,static_cast<L>(a.size())); o += a; }
      bool write(strtk::binary::writer& w) const { std::string t = a; S s(t); return w(s); }
      bool read(strtk::binary::reader& r) { b = "stale"; S s(b); return r(s); }
      bool decode(in& i) { L n; if (!codec<L>::dec(i,n) || i.left() < n) return false; d.assign(i.s,i.p,n); i.p += n; return true; }
      bool read_ok() const { return a == b; }
      bool decode_ok() const { return d == b; }
   };
   // fixed-width text field
   struct text_item : item
   {
      int a, b, d; std::size_t width; bool left; char pad;
      text_item(vh::Rng& r) : a(static_cast<int>(r.range(-99999,99999))), b(0), d(0), width(6 + r.below(6)), left(r.flip()), pad('0') { if (!left || a < 0) { a = a < 0 ? -a : a; } if (!left) { width = std::to_string(a).size(); } }
      std::string name() const { return "text"; }
      void enc(std::string& o) const { std::string s = std::to_string(a); s = std::string(width - s.size(),pad) + s; o += s; }
      bool write(strtk::binary::writer& w) const { return w(a,width,left ? strtk::binary::writer::left_padding : strtk::binary::writer::right_padding,pad); }
      bool read(strtk::binary::reader& r) { b = -1; return r(b,width); }
      bool decode(in& i) { if (i.left() < width) return false; const std::string t = i.s.substr(i.p,width); i.p += width;
                           std::size_t k = (t[0] == '-' || t[0] == '+'); if (k == t.size()) return false; for (; k < t.size(); ++k) if (t[k] < '0' || t[k] > '9') return false;
                           const long v = strtol(t.c_str(),0,10); if (v > INT_MAX || v < INT_MIN) return false; d = static_cast<int>(v); return true; }
      bool read_ok() const { return a == b; }
      bool decode_ok() const { return d == b; }
   };

   inline std::unique_ptr<item> make(vh::Rng& r)
   {
      #define K(n,...) case n : return std::unique_ptr<item>(new __VA_ARGS__(r));
      switch (r.below(36))
      {
         K(0,item_of<char>) K(1,item_of<short>) K(2,item_of<int>) K(3,item_of<long long>) K(4,item_of<double>) K(5,item_of<unsigned char>) K(6,item_of<unsigned short>) K(7,item_of<unsigned int>)
         K(8,item_of<float>) K(9,item_of<bool>) K(10,item_of<long>) K(11,item_of<std::string>) K(12,item_of<std::vector<int> >) K(13,item_of<std::vector<std::string> >) K(14,item_of<std::deque<short> >)
         K(15,item_of<std::list<double> >) K(16,item_of<std::set<int> >) K(17,item_of<std::multiset<unsigned char> >) K(18,item_of<std::set<std::string> >) K(19,item_of<std::pair<int,std::string> >)
         K(20,item_of<std::vector<std::pair<short,std::string> > >) K(21,item_of<point>) K(22,item_of<std::vector<point> >) K(23,item_of<std::list<std::vector<char> > >) K(24,item_of<std::deque<std::string> >)
         K(25,array_item<int,5>) K(26,array_item<char,7>) K(27,array_item<double,3>) K(28,ptr_item<int>) K(29,ptr_item<char>) K(30,ptr_item<unsigned short>)
         K(31,short_item<strtk::binary::short_string,unsigned short>) K(32,short_item<strtk::binary::pascal_string,unsigned char>) K(33,text_item) K(34,item_of<std::vector<std::vector<long long> > >) K(35,item_of<unsigned long long>)
      }
      #undef K
      return std::unique_ptr<item>();
   }
   typedef std::vector<std::unique_ptr<item> > items;
   inline items stream(vh::Rng& r, std::size_t n) { items v; for (std::size_t i = 0; i < n; ++i) v.push_back(make(r)); return v; }
   inline std::string encode(const items& v) { std::string s; for (std::size_t i = 0; i < v.size(); ++i) v[i]->enc(s); return s; }
   inline std::string names(const items& v) { std::string s; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]->name(); return s; }
}
#endif
