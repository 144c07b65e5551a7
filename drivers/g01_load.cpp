// G01: loading a token grid and reading its rows and tokens
#include "grid_common.hpp"
#include "parse_common.hpp"

static Grid::options opts(const Layout& l, bool dq = false, bool trim = false)
{ return Grid::options(strtk::split_options::compress_delimiters,l.opt,l.rd,l.cd,dq,trim); }

#if VH_IN(0)
V_SECTION(loading, 5000)
{
   Layout l = layout(c.r);
   std::string t = c.r.chance(1,12) ? c.r.str(c.r.len(60),l.rd + l.cd + l.alphabet) : grid_text(c.r,l,14,7,6);
   if (c.r.chance(1,60)) t = grid_text(c.r,l,600,5,3);
   const std::string path = vh::tmp() + "/g01.txt";
   c.context = "rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " opt=" + std::to_string(l.opt) + " text=" + vh::q(t.substr(0,300));
   const Model m = Model::of(t,l.rd,l.cd,l.opt);
   vh::Buf<unsigned char> b(t.size());
   if (!t.empty()) std::memcpy(b.begin(),t.data(),t.size());
   { Grid g(b.begin(),t.size(),opts(l)); V_CHECK(!!g,"buffer grid state"); same_grid(c,g,m,b.begin(),"unsigned char buffer"); V_EQ(g.source_file(),std::string(),"source file"); }
   { vh::Buf<char> cb(t); Grid g(cb.begin(),t.size(),opts(l)); V_CHECK(!!g,"buffer grid state"); same_grid(c,g,m,reinterpret_cast<const unsigned char*>(cb.begin()),"char buffer"); }
   { std::string copy(t); Grid g(copy,copy.size(),opts(l)); V_CHECK(!!g,"string grid state"); same_grid(c,g,m,reinterpret_cast<const unsigned char*>(copy.data()),"string"); }
   { std::string copy(t); const std::size_t part = c.r.below(t.size() + 1); Grid g(copy,part,opts(l)); same_grid(c,g,Model::of(t.substr(0,part),l.rd,l.cd,l.opt),reinterpret_cast<const unsigned char*>(copy.data()),"string prefix"); }
   Grid::options o2; o2.set_column_delimiters(l.cd).set_row_delimiters(l.rd).set_column_split_option(l.opt).set_row_split_option(strtk::split_options::compress_delimiters);
   { Grid g(b.begin(),t.size(),o2); same_grid(c,g,m,b.begin(),"options set one by one"); }
   const Model mc = Model::of(t,l.rd,l.cd,1);
   { Grid g(b.begin(),t.size(),l.cd,l.rd); same_grid(c,g,mc,b.begin(),"unsigned char buffer, delimiters"); }
   { vh::Buf<char> cb(t); Grid g(cb.begin(),t.size(),l.cd,l.rd); same_grid(c,g,mc,0,"char buffer, delimiters"); }
   { std::string copy(t); Grid g(copy,copy.size(),l.cd,l.rd); same_grid(c,g,mc,0,"string, delimiters"); }
   { const Model md = Model::of(t,"\n\r",",|;\t ",1); Grid g(b.begin(),t.size(),Grid::options()); same_grid(c,g,md,b.begin(),"default options"); Grid g2(b.begin(),t.size(),Grid::default_options()); same_grid(c,g2,md,b.begin(),"default_options()"); }
   if (c.r.chance(1,4))
   {
      { std::ofstream f(path.c_str(),std::ios::binary); f.write(t.data(),static_cast<std::streamsize>(t.size())); }
      { Grid g(path,opts(l)); V_EQ(!g,t.empty(),"state of a file grid"); if (!t.empty()) { same_grid(c,g,m,0,"file"); V_EQ(g.source_file(),path,"source file"); } }
      { Grid g(path,l.cd,l.rd); V_EQ(!g,t.empty(),"state of a file grid"); if (!t.empty()) same_grid(c,g,mc,0,"file, delimiters"); }
      { Grid g; V_CHECK(!g,"an unloaded grid must be false"); same_grid(c,g,Model(),0,"unloaded"); V_EQ(g.load(path,opts(l)),!t.empty(),"load(file)"); if (!t.empty()) same_grid(c,g,m,0,"load(file)"); }
      { Grid g(path + ".missing",opts(l)); V_CHECK(!g,"a missing file"); same_grid(c,g,Model(),0,"missing file"); }
      { Grid g; V_CHECK(g.load(b.begin(),t.size(),opts(l)),"load(buffer)"); V_CHECK(!g.load(vh::tmp(),opts(l)),"a directory is not a grid"); V_CHECK(!g,"a directory"); same_grid(c,g,Model(),0,"directory"); c.event("directories"); }
      c.event("files_loaded",3);
   }
   { Grid g; V_CHECK(g.load(b.begin(),t.size(),opts(l)),"load(buffer)"); V_CHECK(!!g,"state after load"); same_grid(c,g,m,b.begin(),"load(buffer)"); }
   V_CHECK(0 == std::memcmp(b.begin(),t.data(),t.size()),"the buffer was modified");
   if (m.rows.size() && m.minc() != m.maxc()) c.event("ragged_grids",1);
   if (m.rows.size()) c.cover(l.rd + "/" + l.cd + "/" + char('0' + l.opt) + t);
}
#endif

#if VH_IN(1)
template <typename T> static void gets(vh::Case& c, Grid& g, const Model& m, const char* kind)
{
   for (std::size_t i = 0; i < m.rows.size(); ++i)
   {
      const Grid::row_type row = g.row(i);
      for (std::size_t k = 0; k < m.rows[i].size(); ++k)
      {
         T want = T(); const bool ok = slot::of<T>::conv(m.rows[i][k],want);
         for (int form = 0; form < 3; ++form)
         {
            bool threw = false; T got = T();
            try { got = form == 0 ? g.get<T>(i,k) : form == 1 ? row.get<T>(k) : row.operator[]<T>(k); } catch (const std::exception&) { threw = true; }
            V_EQ(threw,!ok,kind << " form " << form << " of " << vh::q(m.rows[i][k]) << ": thrown");
            if (ok) V_CHECK(slot::of<T>::same(got,want),kind << " form " << form << " value of " << vh::q(m.rows[i][k]));
            c.event(ok ? "values_read" : "values_refused",1);
         }
      }
   }
   bool threw = false;
   try { g.get<int>(m.rows.size(),0); } catch (const std::exception&) { threw = true; }
   V_CHECK(threw,"get<int> beyond the last row");
}
static Grid::col_range_t cols(vh::Rng& r, std::size_t n)
{
   if (r.chance(1,3)) return Grid::col_range_t(0,static_cast<unsigned>(n));
   return Grid::col_range_t(static_cast<unsigned>(r.below(n + 2)),static_cast<unsigned>(r.below(n + 2)));
}
template <typename T> static std::vector<T> content(const std::vector<T>& v) { return v; }
template <typename T> static std::vector<T> content(const std::deque<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(const std::list<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(const std::set<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(const std::multiset<T>& v) { return std::vector<T>(v.begin(),v.end()); }
template <typename T> static std::vector<T> content(std::queue<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.front()); v.pop(); } return r; }
template <typename T> static std::vector<T> content(std::stack<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.top()); v.pop(); } std::reverse(r.begin(),r.end()); return r; }
template <typename T> static std::vector<T> content(std::priority_queue<T> v) { std::vector<T> r; while (!v.empty()) { r.push_back(v.top()); v.pop(); } std::reverse(r.begin(),r.end()); return r; }
template <typename C> struct add_to { template <typename T> static void add(C& c, const T& t) { c.push_back(t); } };
template <typename T> struct add_to<std::set<T> > { static void add(std::set<T>& c, const T& t) { c.insert(t); } };
template <typename T> struct add_to<std::multiset<T> > { static void add(std::multiset<T>& c, const T& t) { c.insert(t); } };
template <typename T> struct add_to<std::queue<T> > { static void add(std::queue<T>& c, const T& t) { c.push(t); } };
template <typename T> struct add_to<std::stack<T> > { static void add(std::stack<T>& c, const T& t) { c.push(t); } };
template <typename T> struct add_to<std::priority_queue<T> > { static void add(std::priority_queue<T>& c, const T& t) { c.push(t); } };

template <typename C> static void rowparse(vh::Case& c, const Grid& g, const Model& m, const char* kind)
{
   typedef typename C::value_type T;
   for (std::size_t i = 0; i < m.rows.size(); ++i)
   {
      const Grid::row_type row = g.row(i);
      const Model::Row& w = m.rows[i];
      C start; for (std::size_t k = c.r.below(3); k-- > 0;) { T t; slot::of<T>::conv(slot::of<T>::good(c.r),t); add_to<C>::add(start,t); }
      const Grid::col_range_t cr = cols(c.r,w.size());
      const bool valid = cr.first <= w.size() && cr.second <= w.size() && cr.first <= cr.second;
      {
         C want = start; bool ok = valid; T t;
         for (std::size_t k = cr.first; ok && k < cr.second; ++k) if (slot::of<T>::conv(w[k],t)) add_to<C>::add(want,t); else ok = false;
         C x = start; V_EQ(row.parse(cr,x),ok,kind << ": parse of columns [" << cr.first << "," << cr.second << ") of row " << i); V_EQ(content(x),content(want),kind << ": parse(range) content, row " << i);
         c.event(ok ? "ranges_parsed" : "ranges_refused",1);
      }
      {
         C want = start, chk = start; bool ok = true; T t;
         for (auto& s : w) { const bool g1 = slot::of<T>::conv(s,t); if (g1) add_to<C>::add(chk,t); if (ok && g1) add_to<C>::add(want,t); ok = ok && g1; }
         C x = start; V_EQ(row.parse(x),ok,kind << ": parse of row " << i); V_EQ(content(x),content(want),kind << ": parse content, row " << i);
         C y = start; row.parse_checked(y); V_EQ(content(y),content(chk),kind << ": parse_checked content, row " << i);
         c.event("rows_parsed",2);
      }
   }
}
template <typename T> static void rowparse_n(vh::Case& c, const Grid& g, const Model& m)
{
   for (std::size_t i = 0; i < m.rows.size(); ++i)
   {
      const Grid::row_type row = g.row(i); const Model::Row& w = m.rows[i];
      const std::size_t n = c.r.below(w.size() + 3);
      std::vector<T> want; bool ok = true; T t;
      for (std::size_t k = 0; ok && k < std::min(n,w.size()); ++k) if (slot::of<T>::conv(w[k],t)) want.push_back(t); else ok = false;
      std::vector<T> x; V_EQ(row.parse_n(n,x),ok ? want.size() : static_cast<std::size_t>(0),"parse_n of row " << i); V_EQ(x,want,"parse_n content");
      std::deque<T> y; row.parse_n(n,y); V_EQ(content(y),want,"parse_n deque content");
      std::vector<T> z; row.template parse_checked<T>(vh::into(z));
      std::vector<T> zw; for (auto& s : w) if (slot::of<T>::conv(s,t)) zw.push_back(t);
      V_EQ(z,zw,"parse_checked to an iterator");
      // throwing parse to an iterator
      std::vector<T> v; bool threw = false; bool all = true; for (auto& s : w) all = all && slot::of<T>::conv(s,t);
      try { row.template parse<T>(vh::into(v)); } catch (const std::exception&) { threw = true; }
      V_EQ(threw,!all,"parse to an iterator: thrown"); if (all) V_EQ(v,zw,"parse to an iterator");
      c.event("bounded_parses",1);
   }
}
struct col_log { std::vector<std::string>* v; void operator()(const GR& r) const { v->push_back(S(r)); } };

V_SECTION(rows, 2500)
{
   Layout l = layout(c.r);
   if (c.r.flip()) l.alphabet = "0123456789";
   const std::string t = grid_text(c.r,l,8,6,5);
   c.context = "rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " opt=" + std::to_string(l.opt) + " text=" + vh::q(t);
   const Model m = Model::of(t,l.rd,l.cd,l.opt);
   vh::Buf<unsigned char> b(t.size());
   if (!t.empty()) std::memcpy(b.begin(),t.data(),t.size());
   Grid g(b.begin(),t.size(),opts(l));
   for (std::size_t i = 0; i < m.rows.size(); ++i)
   {
      const Grid::row_type row = g.row(i); const Model::Row& w = m.rows[i];
      std::string joined; for (auto& s : w) joined += s;
      V_EQ(row.as_string(),joined,"as_string of row " << i);
      std::string out = "old"; row.as_string(out); V_EQ(out,joined,"as_string(out) of row " << i);
      V_EQ(row.raw_length(),joined.size(),"raw_length of row " << i);
      V_CHECK((row.all_columns() == Grid::col_range_t(0,static_cast<unsigned>(w.size()))),"all_columns of row " << i);
      V_EQ(static_cast<std::size_t>(row.range().first - b.begin()),m.spans[i].front().first,"range begin of row " << i);
      V_EQ(static_cast<std::size_t>(row.range().second - b.begin()),m.spans[i].back().second,"range end of row " << i);
      for (std::size_t k = 0; k < w.size(); ++k) { V_EQ(row.is_null(k),w[k].empty(),"is_null"); V_EQ(row.raw_length(k),w[k].size(),"raw_length(column)"); }
      std::vector<std::string> log; col_log f = { &log };
      V_EQ(row.for_each_column(f),w.size(),"for_each_column count"); V_EQ(log,w,"for_each_column order");
      const Grid::col_range_t cr = cols(c.r,w.size()); log.clear();
      const bool valid = cr.first <= w.size() && cr.second <= w.size() && cr.first <= cr.second;
      V_EQ(row.for_each_column(cr,f),valid ? static_cast<std::size_t>(cr.second - cr.first) : static_cast<std::size_t>(0),"for_each_column(range) count");
      V_EQ(log,valid ? std::vector<std::string>(w.begin() + cr.first,w.begin() + cr.second) : std::vector<std::string>(),"for_each_column(range) order");
      c.event("rows_examined",1);
   }
   { const unsigned a = static_cast<unsigned>(c.r.below(m.rows.size() + 3)), z = static_cast<unsigned>(c.r.below(m.rows.size() + 3));
     const Grid::row_range_t bad(std::numeric_limits<unsigned>::max(),std::numeric_limits<unsigned>::max());
     V_CHECK(g.range(a,z) == ((z > m.rows.size() || a > z) ? bad : Grid::row_range_t(a,z)),"range(" << a << "," << z << ")");
     if (a <= m.rows.size()) V_CHECK(g.range(a) == Grid::row_range_t(a,static_cast<unsigned>(m.rows.size())),"range(" << a << ")"); }
   switch (c.r.below(4))
   {
      case 0 : gets<int>(c,g,m,"int"); break;
      case 1 : gets<std::string>(c,g,m,"string"); break;
      case 2 : gets<unsigned short>(c,g,m,"ushort"); break;
      default: gets<double>(c,g,m,"double"); break;
   }
   switch (c.r.below(8))
   {
      case 0 : rowparse<std::vector<int> >(c,g,m,"vector"); break;
      case 1 : rowparse<std::deque<std::string> >(c,g,m,"deque"); break;
      case 2 : rowparse<std::list<long long> >(c,g,m,"list"); break;
      case 3 : rowparse<std::set<int> >(c,g,m,"set"); break;
      case 4 : rowparse<std::multiset<int> >(c,g,m,"multiset"); break;
      case 5 : rowparse<std::queue<int> >(c,g,m,"queue"); break;
      case 6 : rowparse<std::stack<int> >(c,g,m,"stack"); break;
      default: rowparse<std::priority_queue<int> >(c,g,m,"priority_queue"); break;
   }
   rowparse_n<int>(c,g,m);
   if (m.rows.size()) c.cover(l.rd + "/" + l.cd + "/" + char('0' + l.opt) + t);
}
#endif

#if VH_IN(2)
// fixed arity parses; slots record what each variable received
template <typename T> static T init() { T t = T(); slot::of<T>::conv("9",t); return t; }
template <std::size_t N, typename F> static void arity(vh::Case& c, const Grid::row_type& row, const Model::Row& w, F f)
{
   if (w.size() < N) return;
   std::vector<std::size_t> idx(N); for (auto& x : idx) x = c.r.below(w.size());
   for (int with = 0; with < 2; ++with)
   {
      std::vector<int> got(N,-7), want(N,-7); bool ok = true;
      for (std::size_t k = 0; ok && k < N; ++k) { int t; if (slot::of<int>::conv(w[with ? idx[k] : k],t)) want[k] = t; else ok = false; }
      V_EQ(f(row,with != 0,idx,got),ok,(with ? "parse_with_index" : "parse") << " of " << N << " values");
      V_EQ(got,want,(with ? "parse_with_index" : "parse") << " of " << N << " values: variables");
      c.event(ok ? "values_parsed" : "values_refused",N);
   }
}
#define I1 i[0]
#define I2 I1,i[1]
#define I3 I2,i[2]
#define I4 I3,i[3]
#define I5 I4,i[4]
#define I6 I5,i[5]
#define I7 I6,i[6]
#define I8 I7,i[7]
#define I9 I8,i[8]
#define I10 I9,i[9]
#define G1 v[0]
#define G2 G1,v[1]
#define G3 G2,v[2]
#define G4 G3,v[3]
#define G5 G4,v[4]
#define G6 G5,v[5]
#define G7 G6,v[6]
#define G8 G7,v[7]
#define G9 G8,v[8]
#define G10 G9,v[9]
#define AR(N) arity<N>(c,row,w,[](const Grid::row_type& r, bool x, const std::vector<std::size_t>& i, std::vector<int>& v) { return x ? r.parse_with_index(I##N,G##N) : r.parse(G##N); });
V_SECTION(arities, 3000)
{
   Layout l = layout(c.r); l.alphabet = "0123456789"; l.opt = c.r.below(2) ? 1 : 0;
   const unsigned bad = c.r.below(3) ? 0 : 1 + static_cast<unsigned>(c.r.below(8));
   std::string t;
   for (std::size_t i = 1 + c.r.below(4); i-- > 0;)
   {
      for (std::size_t k = 1 + c.r.below(12); k-- > 0;)
      { t += (bad && c.r.chance(1,10)) ? std::string("x") : c.r.str(1 + c.r.below(5),l.alphabet); if (k) t += l.cd[0]; }
      t += l.rd[0];
   }
   c.context = "rd=" + vh::q(l.rd) + " cd=" + vh::q(l.cd) + " text=" + vh::q(t);
   const Model m = Model::of(t,l.rd,l.cd,l.opt);
   std::string copy(t); Grid g(copy,copy.size(),opts(l));
   for (std::size_t q = 0; q < m.rows.size(); ++q)
   {
      const Grid::row_type row = g.row(q); const Model::Row& w = m.rows[q];
      // one value: parse(T&) is the container form, so only the indexed form is used for scalars
      { std::size_t k = c.r.below(w.size()); int v = -7, want = -7; const bool ok = slot::of<int>::conv(w[k],want); V_EQ(row.parse_with_index(k,v),ok,"parse_with_index of one value"); V_EQ(v,ok ? want : -7,"parse_with_index value"); }
      AR(1) AR(2) AR(3) AR(4) AR(5) AR(6) AR(7) AR(8) AR(9) AR(10)
      // mixed types
      if (w.size() >= 3)
      {
         std::string s = "old"; int i = -7; double d = -7; int wi; double wd;
         const bool o2 = slot::of<int>::conv(w[1],wi), o3 = slot::of<double>::conv(w[2],wd);
         V_EQ(row.parse(s,i,d),o2 && o3,"mixed parse"); V_EQ(s,w[0],"mixed parse string");
         if (o2) V_EQ(i,wi,"mixed parse int"); else V_EQ(i,-7,"mixed parse int kept");
         if (o2 && o3) V_CHECK(slot::of<double>::same(d,wd),"mixed parse double");
      }
   }
   c.cover(t);
}
#endif
V_MAIN
