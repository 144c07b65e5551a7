// B01: what the binary writer writes, the binary reader reads back; layout and positions follow the reference encoding.
#include "bin_common.hpp"
#include <fstream>

static void round_trip(vh::Case& c, bin::items& v, bool through_file)
{
   const std::string want = bin::encode(v); const std::size_t slack = c.r.chance(1,3) ? c.r.below(9) : 0;
   c.context = "items " + bin::names(v);
   vh::Buf<char> buf(want.size() + slack,0xCD);
   {
      strtk::binary::writer w(buf.begin(),buf.size());
      if (buf.size()) V_CHECK(!!w,"usable writer");
      std::size_t pos = 0;
      for (std::size_t i = 0; i < v.size(); ++i)
      {
         std::string one; v[i]->enc(one);
         V_CHECK(v[i]->write(w),"write of item " << i); pos += one.size();
         V_EQ(w.position(),pos,"writer position"); V_EQ(w.amount_written(),pos,"amount written"); V_CHECK(w.position_ptr() == buf.begin() + pos,"writer pointer");
      }
      V_EQ(buf.str(),want + std::string(slack,'\xCD'),"encoded bytes");
      if (through_file)
      {
         const std::string fn = vh::tmp() + "/b01_" + vh::show(getpid());
         { std::ofstream o(fn.c_str(),std::ios::binary); V_EQ(w(o),want.size(),"bytes streamed out"); }
         w.reset(true); V_EQ(buf.str(),std::string(buf.size(),'\0'),"cleared buffer"); V_EQ(w.position(),static_cast<std::size_t>(0),"reset position");
         std::ifstream s(fn.c_str(),std::ios::binary); strtk::binary::reader r(buf.begin(),buf.size());
         V_CHECK(!r(s,buf.size() + 1),"longer than the buffer is refused");
         if (c.r.flip() || want.empty()) { V_CHECK(r(s,want.size()),"bytes streamed in"); }
         else { V_CHECK(r.seek(static_cast<int>(want.size())),"seek"); V_CHECK(r(s),"bytes streamed in"); r.reset(); }
         s.close(); ::unlink(fn.c_str());
         V_EQ(buf.str().substr(0,want.size()),want,"bytes through a file"); c.event("file_round_trips");
         if (c.r.chance(1,4)) { r.reset(true); V_EQ(buf.str(),std::string(buf.size(),'\0'),"cleared by the reader"); V_EQ(r.position(),static_cast<std::size_t>(0),"position after the reader cleared"); for (std::size_t z = 0; z < want.size(); ++z) buf.begin()[z] = want[z]; }
      }
   }
   strtk::binary::reader r(buf.begin(),buf.size()); std::size_t pos = 0;
   for (std::size_t i = 0; i < v.size(); ++i)
   {
      std::string one; v[i]->enc(one);
      V_CHECK(v[i]->read(r),"read of item " << i << " " << v[i]->name()); pos += one.size();
      V_CHECK(v[i]->read_ok(),"item " << i << " " << v[i]->name() << " read back unchanged");
      V_EQ(r.position(),pos,"reader position"); V_EQ(r.amount_read(),pos,"amount read"); V_CHECK(r.position_ptr() == buf.begin() + pos,"reader pointer");
      c.event("items_round_tripped");
   }
   if (!v.empty()) c.cover(want + c.context);
   c.sample(c.context + ": " + vh::show(want.size()) + " bytes");
}
V_SECTION(streams,5000) { bin::items v = bin::stream(c.r,1 + c.r.below(c.r.chance(1,6) ? 20 : 6)); round_trip(c,v,false); }
V_SECTION(files,200) { bin::items v = bin::stream(c.r,1 + c.r.below(5)); round_trip(c,v,true); }

template <typename T> static void long_item(vh::Case& c, const T& v, std::size_t room, const char* name)
{
   std::vector<char> b(room); strtk::binary::writer w(&b[0],b.size()); const T copy(v); V_CHECK(w(copy),std::string(name) + " of that length is written");
   strtk::binary::reader r(&b[0],w.amount_written()); T back; V_CHECK(r(back),std::string(name) + " is read"); V_CHECK(back == v,std::string(name) + " read back unchanged"); V_EQ(r.amount_read(),w.amount_written(),"amount read");
}
template <typename S> static void short_item_limit(vh::Case& c, std::string v, std::size_t most, const char* name)
{
   std::vector<char> b(v.size() + 8); strtk::binary::writer w(&b[0],b.size()); S s(v);
   const bool ok = w(s); V_EQ(ok,v.size() <= most,std::string(name) + " accepted"); if (!ok) return;
   std::string back; S q(back); strtk::binary::reader r(&b[0],w.amount_written()); V_CHECK(r(q),std::string(name) + " is read"); V_CHECK(back == v,std::string(name) + " read back unchanged");
}
V_SECTION(length_boundaries,120)
{
   // element counts around the ends of the one and two byte ranges
   static const std::size_t ls[] = { 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 65791, 65792, 131070, 131071, 131072, 131073 };
   const std::size_t n = c.r.chance(3,4) ? ls[c.r.below(sizeof(ls) / sizeof(*ls))] : c.r.below(70000); c.context = "length " + vh::show(n);
   std::string s(n,'\0'); for (std::size_t i = 0; i < n; ++i) s[i] = static_cast<char>(c.r.next());
   long_item(c,s,n + 4,"string");
   short_item_limit<strtk::binary::short_string>(c,s,65535,"short_string"); short_item_limit<strtk::binary::pascal_string>(c,s,255,"pascal_string");
   long_item(c,std::vector<char>(s.begin(),s.end()),n + 4,"vector of char");
   { std::vector<unsigned short> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<unsigned short>(c.r.next()); long_item(c,v,2 * n + 4,"vector of unsigned short"); }
   { std::deque<int> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<int>(c.r.next()); long_item(c,v,4 * n + 4,"deque of int"); }
   if (n < 40000) { std::list<std::string> v(n,"ab"); long_item(c,v,6 * n + 4,"list of string"); std::set<int> t; for (std::size_t i = 0; i < n; ++i) t.insert(static_cast<int>(i * 7919)); long_item(c,t,4 * n + 4,"set of int"); }
   c.cover("length " + vh::show(n)); c.event("length_boundaries");
}

// element-typed buffers, sequences read into non-empty targets, position control against a model
V_SECTION(position_control,4000)
{
   const std::size_t n = 1 + c.r.below(40); std::string data = c.r.bytes(n * 4);
   vh::Buf<unsigned int> b(data); strtk::binary::reader r(b.begin(),n); // length counted in elements
   std::size_t pos = 0; std::vector<std::size_t> marks;
   std::string trace;
   for (int k = 0; k < 30; ++k)
   {
      const unsigned op = static_cast<unsigned>(c.r.below(9)); trace += static_cast<char>('0' + op); c.context = "reader operations " + trace;
      switch (op)
      {
         case 0 : { unsigned x = 0; const bool ok = pos + 4 <= n * 4; V_EQ(r(x),ok,"read"); if (ok) { unsigned y; memcpy(&y,data.data() + pos,4); V_EQ(x,y,"value at position"); pos += 4; } break; }
         case 1 : { unsigned char x = 0; const bool ok = pos < n * 4; V_EQ(r(x),ok,"read"); if (ok) { V_EQ(x,static_cast<unsigned char>(data[pos]),"value at position"); ++pos; } break; }
         case 2 : { const std::size_t q = c.r.below(n * 5); const bool ok = q <= pos; V_EQ(r.rewind(q),ok,"rewind"); if (ok) pos -= q; break; }
         case 3 : { const int q = static_cast<int>(c.r.range(-static_cast<int>(n) * 4,static_cast<int>(n) * 4)); const bool ok = q < 0 ? static_cast<std::size_t>(-q) <= pos : pos + q <= n * 4; V_EQ(r.seek(q),ok,"seek"); if (ok) pos += q; break; }
         case 4 : r.mark(); marks.push_back(pos); break;
         case 5 : { const bool ok = !marks.empty(); V_EQ(r.reset_to_mark(),ok,"reset to mark"); if (ok) { pos = marks.back(); marks.pop_back(); } break; }
         case 6 : if (c.r.chance(1,4)) { r.reset(); pos = 0; } break;
         case 7 : V_EQ(r.seek(0),true,"seek nowhere"); V_CHECK(!r.seek(INT_MAX),"seek far ahead"); V_CHECK(!r.seek(INT_MIN),"seek far back"); break;
         default: if (c.r.chance(1,20)) { r.clear(); pos = 0; data.assign(data.size(),'\0'); } break;
      }
      V_EQ(r.position(),pos,"position"); V_CHECK(r.position_ptr() == reinterpret_cast<char*>(b.begin()) + pos,"pointer");
   }
   V_EQ(b.str(),data,"reader buffer content");
   c.cover(trace + data); c.event("reader_operations",30);

   vh::Buf<unsigned short> wb(n * 2); memset(wb.begin(),0,wb.size()); strtk::binary::writer w(wb.begin(),n); std::string img(n * 2,'\0'); pos = 0; marks.clear(); trace.clear();
   for (int k = 0; k < 30; ++k)
   {
      const unsigned op = static_cast<unsigned>(c.r.below(7)); trace += static_cast<char>('0' + op); c.context = "writer operations " + trace;
      switch (op)
      {
         case 0 : { const unsigned x = static_cast<unsigned>(c.r.next()); const bool ok = pos + 4 <= n * 2; V_EQ(w(x),ok,"write"); if (ok) { memcpy(&img[pos],&x,4); pos += 4; } break; }
         case 1 : { const unsigned char x = static_cast<unsigned char>(c.r.next()); const bool ok = pos < n * 2; V_EQ(w(x),ok,"write"); if (ok) { img[pos] = static_cast<char>(x); ++pos; } break; }
         case 2 : w.mark(); marks.push_back(pos); break;
         case 3 : { const bool ok = !marks.empty(); V_EQ(w.reset_to_mark(),ok,"reset to mark"); if (ok) { pos = marks.back(); marks.pop_back(); } break; }
         case 4 : if (c.r.chance(1,5)) { w.reset(); pos = 0; } break;
         case 5 : if (c.r.chance(1,8)) { w.clear(); pos = 0; img.assign(img.size(),'\0'); } break;
         default: { const std::string x = c.r.bytes(c.r.below(5)); const bool ok = pos + x.size() <= n * 2; V_EQ(w(x.data(),static_cast<strtk::binary::writer::uint32_t>(x.size()),false),ok,"write bytes"); if (ok) { img.replace(pos,x.size(),x); pos += x.size(); } break; }
      }
      V_EQ(w.position(),pos,"position");
   }
   V_EQ(wb.str(),img,"writer buffer content"); c.event("writer_operations",30);
   V_CHECK(!!strtk::binary::reader(wb.begin(),n) && !!strtk::binary::writer(wb.begin(),n),"a buffer with room is usable"); V_CHECK(!strtk::binary::writer(wb.begin(),0) && !strtk::binary::reader(static_cast<char*>(0),4),"no room, no buffer");
   V_CHECK(!strtk::binary::reader(wb.begin(),0),"an empty buffer is unusable"); V_CHECK(!strtk::binary::writer(static_cast<char*>(0),4),"a null buffer is unusable");
}

V_SECTION(existing_content,1500)
{
   std::vector<int> a; for (std::size_t n = c.r.len(10); n-- > 0;) a.push_back(static_cast<int>(c.r.range(-50,50)));
   std::vector<char> buf(400 + 40 * a.size()); strtk::binary::writer w(&buf[0],buf.size());
   const std::deque<int> d(a.begin(),a.end()); const std::list<int> l(a.begin(),a.end()); const std::set<int> s(a.begin(),a.end()); const std::multiset<int> m(a.begin(),a.end());
   V_CHECK(w(a) && w(d) && w(l) && w(s) && w(m) && w(std::string("str")),"writes");
   strtk::binary::reader r(&buf[0],w.amount_written());
   std::vector<int> pre(3,7); std::vector<int> rv(pre); std::deque<int> rd(pre.begin(),pre.end()); std::list<int> rl(pre.begin(),pre.end()); std::set<int> rs(pre.begin(),pre.end()); std::multiset<int> rm(pre.begin(),pre.end()); std::string rstr = "a longer previous content";
   V_CHECK(r(rv) && r(rd) && r(rl) && r(rs) && r(rm) && r(rstr),"reads");
   V_EQ(rv,a,"vector is replaced"); V_EQ(rstr,std::string("str"),"string is replaced");
   std::vector<int> app(pre); app.insert(app.end(),a.begin(),a.end());
   V_EQ(std::vector<int>(rd.begin(),rd.end()),app,"deque is appended to"); V_EQ(std::vector<int>(rl.begin(),rl.end()),app,"list is appended to");
   std::set<int> es(app.begin(),app.end()); V_EQ(rs,es,"set is added to"); std::multiset<int> em(app.begin(),app.end()); V_CHECK(rm == em,"multiset is added to");
   c.cover(vh::show(a)); c.event("preloaded_containers",6);
}
V_MAIN
