// B02: truncated buffers and hostile bytes are refused without touching anything outside the buffer.
#include "bin_common.hpp"

V_SECTION(short_writes,5000)
{
   bin::items v = bin::stream(c.r,1 + c.r.below(5)); const std::string full = bin::encode(v);
   const std::size_t cap = c.r.flip() ? c.r.below(full.size() + 1) : full.size() - std::min<std::size_t>(full.size(),1 + c.r.below(4));
   c.context = "items " + bin::names(v) + " capacity " + vh::show(cap) + " of " + vh::show(full.size());
   vh::Buf<char> buf(cap,0xCD); strtk::binary::writer w(buf.begin(),cap); std::size_t end = 0; bool failed = false;
   for (std::size_t i = 0; i < v.size() && !failed; ++i)
   {
      std::string one; v[i]->enc(one); end += one.size();
      const bool ok = v[i]->write(w); V_EQ(ok,end <= cap,"write of item " << i << " " << v[i]->name());
      if (!ok) failed = true; else V_EQ(w.position(),end,"position");
   }
   V_EQ(failed,full.size() > cap,"refusal"); V_CHECK(w.position() <= cap,"position inside the buffer");
   V_EQ(buf.str().substr(0,w.position()),full.substr(0,w.position()),"written prefix"); V_EQ(buf.str().substr(w.position()),std::string(cap - w.position(),'\xCD'),"bytes beyond the position are untouched");
   c.cover(full + vh::show(cap)); c.event(failed ? "writes_refused" : "writes_accepted"); c.sample(c.context);
}
V_SECTION(short_reads,5000)
{
   bin::items v = bin::stream(c.r,1 + c.r.below(5)); const std::string full = bin::encode(v);
   const std::size_t cap = c.r.flip() ? c.r.below(full.size() + 1) : full.size() - std::min<std::size_t>(full.size(),1 + c.r.below(4));
   c.context = "items " + bin::names(v) + " length " + vh::show(cap) + " of " + vh::show(full.size());
   vh::Buf<char> buf(full.substr(0,cap)); strtk::binary::reader r(buf.begin(),cap); std::size_t end = 0; bool failed = false;
   for (std::size_t i = 0; i < v.size() && !failed; ++i)
   {
      std::string one; v[i]->enc(one); end += one.size();
      const bool ok = v[i]->read(r); V_EQ(ok,end <= cap,"read of item " << i << " " << v[i]->name());
      if (!ok) failed = true; else { V_CHECK(v[i]->read_ok(),"value of item " << i); V_EQ(r.position(),end,"position"); }
   }
   V_EQ(failed,full.size() > cap,"refusal"); V_CHECK(r.position() <= cap,"position inside the buffer"); V_EQ(buf.str(),full.substr(0,cap),"reader leaves the buffer alone");
   c.cover(full + vh::show(cap)); c.event(failed ? "reads_refused" : "reads_accepted"); c.sample(c.context);
}
// arbitrary or corrupted bytes read with an arbitrary schema: verdict and values follow the reference decoder
V_SECTION(hostile_reads,12000)
{
   bin::items v = bin::stream(c.r,1 + c.r.below(4)); std::string s;
   switch (c.r.below(3))
   {
      case 0 : s = c.r.bytes(c.r.len(80)); break;
      case 1 : s = bin::encode(v); for (unsigned k = 1 + c.r.below(3); k-- > 0 && !s.empty();) s[c.r.below(s.size())] = static_cast<char>(c.r.flip() ? c.r.next() : (c.r.flip() ? 0xFF : c.r.below(4))); break;
      default: while (s.size() < 60) { const unsigned x = c.r.flip() ? static_cast<unsigned>(c.r.below(5)) : (c.r.flip() ? 0xFFFFFFFFu - static_cast<unsigned>(c.r.below(4)) : 0x80000000u >> c.r.below(8)); s.append(reinterpret_cast<const char*>(&x),4); } s.resize(c.r.len(60)); break;
   }
   c.context = "items " + bin::names(v) + " bytes " + vh::q(s);
   for (std::size_t k = 0; k < v.size(); ++k) if (v[k]->name() == "b") return; // a bool object must hold 0 or 1
   vh::Buf<char> buf(s); strtk::binary::reader r(buf.begin(),s.size()); bin::in ref(s);
   for (std::size_t i = 0; i < v.size(); ++i)
   {
      const bool want = v[i]->decode(ref); const bool ok = v[i]->read(r);
      V_EQ(ok,want,"item " << i << " " << v[i]->name()); V_CHECK(r.position() <= s.size(),"position inside the buffer");
      c.event(ok ? "hostile_accepted" : "hostile_refused");
      if (!ok) break;
      V_CHECK(v[i]->decode_ok(),"value of item " << i << " " << v[i]->name()); V_EQ(r.position(),ref.p,"position");
   }
   V_EQ(buf.str(),s,"reader leaves the buffer alone");
   c.cover(s + c.context); c.sample(c.context);
}
// fixed-width text fields: padding and refusal of values that do not fit
V_SECTION(text_fields,5000)
{
   const long long v = c.r.flip() ? c.r.range(-200,200) : static_cast<long long>(c.r.next() >> c.r.below(64)); const std::size_t width = c.r.below(24); const std::size_t cap = c.r.flip() ? width : c.r.below(24);
   const bool left = c.r.flip(); const char pad = c.r.pick(" 0*#"); const std::string t = std::to_string(v);
   c.context = "value " + t + " width " + vh::show(width) + " capacity " + vh::show(cap) + (left ? " left" : " right");
   vh::Buf<char> b(cap,0xCD); strtk::binary::writer w(b.begin(),cap);
   const bool want = width <= cap && t.size() <= width; const bool ok = w(v,width,left ? strtk::binary::writer::left_padding : strtk::binary::writer::right_padding,pad);
   V_EQ(ok,want,"verdict");
   std::string e(cap,'\xCD'); if (want) e.replace(0,width,left ? std::string(width - t.size(),pad) + t : t + std::string(width - t.size(),pad));
   V_EQ(b.str(),e,"field"); V_EQ(w.position(),want ? width : 0,"position");
   // a field longer than what is left is refused; a field that is not a number is refused
   strtk::binary::reader r(b.begin(),cap); long long x = 5; const bool rok = r(x,width); const std::string field = width <= cap ? e.substr(0,width) : "";
   bool num = want; if (num) { std::size_t k = field[0] == '-'; num = field.find_first_not_of("0123456789",k) == std::string::npos; }
   if (width > cap) V_CHECK(!rok,"longer than the buffer"); else if (want && (num || pad == ' ' || pad == '*' || pad == '#')) { if (t.size() == width || (left && pad == '0' && v >= 0)) { V_CHECK(rok,"reads back"); V_EQ(x,v,"reads back"); } else if (pad != '0') V_CHECK(!rok,"padding is not part of a number"); }
   {
      // text values, the empty one included
      const std::string s = c.r.bytes(c.r.below(6)); vh::Buf<char> sb(cap,0xCD); strtk::binary::writer sw(sb.begin(),cap); const bool fits = width <= cap && s.size() <= width;
      V_EQ(sw(s,width,left ? strtk::binary::writer::left_padding : strtk::binary::writer::right_padding,pad),fits,"verdict on a text of " + vh::show(s.size()) + " characters");
      std::string f(cap,'\xCD'); if (fits) f.replace(0,width,left ? std::string(width - s.size(),pad) + s : s + std::string(width - s.size(),pad));
      V_EQ(sb.str(),f,"text field"); V_EQ(sw.position(),fits ? width : 0,"position after a text field");
      strtk::binary::reader sr(sb.begin(),cap); std::string back = "old"; V_EQ(sr(back,width),width <= cap,"a text field is read whenever it is there"); if (width <= cap) V_EQ(back,f.substr(0,width),"text read"); else V_EQ(back,std::string("old"),"refused text");
   }
   c.cover(c.context); c.event(ok ? "fields_accepted" : "fields_refused");
}
V_SECTION(oversized_short_strings,200)
{
   std::string s = c.r.str(256 + c.r.below(100),"ab"); std::string big(65536 + c.r.below(10),'x'); std::string lim(65535,'y'), lim8(255,'z'), back;
   std::vector<char> b(70000);
   { strtk::binary::pascal_string p(s); strtk::binary::writer w(&b[0],b.size()); V_CHECK(!w(p),"256 and more characters do not fit one length byte"); }
   { strtk::binary::short_string p(big); strtk::binary::writer w(&b[0],b.size()); V_CHECK(!w(p),"65536 and more characters do not fit two length bytes"); }
   { strtk::binary::short_string p(lim), q(back); strtk::binary::writer w(&b[0],b.size()); V_CHECK(w(p),"65535 characters"); strtk::binary::reader r(&b[0],w.amount_written()); V_CHECK(r(q),"reads back"); V_EQ(back.size(),lim.size(),"length"); V_CHECK(back == lim,"content"); }
   { strtk::binary::pascal_string p(lim8), q(back); strtk::binary::writer w(&b[0],b.size()); V_CHECK(w(p),"255 characters"); strtk::binary::reader r(&b[0],w.amount_written()); V_CHECK(r(q),"reads back"); V_CHECK(back == lim8,"content"); }
   { strtk::binary::pascal_string p; strtk::binary::writer w(&b[0],b.size()); V_CHECK(!w(p),"unbound"); strtk::binary::reader r(&b[0],9); V_CHECK(!r(p),"unbound"); p.set(back); V_CHECK(w(p),"bound"); p.clear(); V_CHECK(!w(p),"cleared"); }
   c.cover(s); c.event("length_limits",5);
}
// sizes so large that adding them to a position wraps around are refused, at every position
V_SECTION(enormous_sizes,3000)
{
   const std::size_t cap = 1 + c.r.below(40), pos = c.r.below(cap + 1); const std::string fill = c.r.bytes(cap);
   const std::size_t near = c.r.below(3) == 0 ? c.r.below(50) : pos ? c.r.below(pos + 1) : 0; const std::size_t size = c.r.flip() ? ~std::size_t(0) - near : (std::size_t(1) << (33 + c.r.below(31))) + c.r.below(50);
   c.context = "capacity " + vh::show(cap) + " position " + vh::show(pos) + " size " + vh::show(size);
   {
      vh::Buf<char> b(cap,0xCD); strtk::binary::writer w(b.begin(),cap); for (std::size_t i = 0; i < pos; ++i) V_CHECK(w(fill[i]),"filling");
      const std::string want = fill.substr(0,pos) + std::string(cap - pos,'\xCD');
      V_CHECK(!w(7,size,c.r.flip() ? strtk::binary::writer::left_padding : strtk::binary::writer::right_padding),"a text field of that width is refused"); V_EQ(w.position(),pos,"position"); V_EQ(b.str(),want,"buffer");
      const unsigned long long len = (1ull << 32) * (1 + c.r.below(4)) + c.r.below(4); const char* src = fill.data(); const unsigned int* usrc = 0;
      V_CHECK(!w(src,len,false),"an array of " + vh::show(len) + " bytes is refused"); V_EQ(w.position(),pos,"position"); V_EQ(b.str(),want,"buffer");
      V_CHECK(!w(usrc,len,true),"an array of that many integers is refused"); V_EQ(b.str().substr(0,w.position()),want.substr(0,w.position()),"buffer");
   }
   {
      vh::Buf<char> b(fill); strtk::binary::reader r(b.begin(),cap); for (std::size_t i = 0; i < pos; ++i) { char ch; V_CHECK(r(ch),"reading"); }
      int v = 5; V_CHECK(!r(v,size),"a text field of that width is refused"); V_EQ(v,5,"target"); V_EQ(r.position(),pos,"position");
      char to[4] = { 1, 2, 3, 4 }; char* tp = to; unsigned long long len = (1ull << 32) * (1 + c.r.below(4)) + c.r.below(4);
      V_CHECK(!r(tp,len,false),"an array of that many bytes is refused"); V_CHECK(tp == to && to[0] == 1 && to[3] == 4,"array"); V_EQ(r.position(),pos,"position"); V_EQ(b.str(),fill,"buffer");
   }
   c.cover(c.context); c.event("enormous_sizes_refused",5);
}
V_MAIN
