// YAML: the events handed to the YAML library, the value rebuilt from events, and every failure of the library.
#include "ymodel.h"
#include "scal.h"
#include "src.h"
#include <Variant/Emitter.h>
#include <math.h>
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Sink : EmitterOutput {
	std::string got; unsigned calls, failAt, budget; bool flushFails, failed, flushed;
	Sink() : calls(0), failAt(~0u), budget(0), flushFails(false), failed(false), flushed(false) {}
	unsigned Write(const void *p, unsigned len) {
		if (failed || calls++==failAt) { failed=true; throw Boom(); }
		if (budget && len>1) { budget--; uint8_t n=vp_u8("accept"); vp_assume(n>=1 && n<=len); len=(unsigned)vp_fork(n); }
		got.append((const char*)p,len); return len;
	}
	void Flush() { flushed=true; if (flushFails) { failed=true; throw Boom(); } }
	unsigned NumBytesWritten() const { return got.size(); }
};
static const char *const SS[]={"any","plain","single quoted","double quoted","literal","folded"};
static const char *const CS[]={"any","block","flow"};
static Variant styles(bool all) {
	Variant p; if (!all) return p;
	p["scalar_style"]=SS[pick("scalar",6)]; p["map_style"]=CS[pick("map",3)]; p["list_style"]=CS[pick("list",3)]; return p;
}
static void ascii(const M &m) { for (unsigned i=0;i<m.s.size();i++) vp_assume(m.s[i]>0); for (unsigned i=0;i<m.l.size();i++) ascii(m.l[i]); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { for (unsigned j=0;j<i->first.size();j++) vp_assume(i->first[j]>0); ascii(i->second); } }
static M value() { GenP g(vp_param("KINDS",511),vp_param("W",2),vp_param("S",2),vp_param("K",1)); g.strnonul=g.keynonul=true; g.imax=vp_param("IMAX",0); g.keyfixed=vp_param("KEYS",0); return gen(g,vp_param("D",1)); }
static void ends() { vp_assert(y->emitters==0,"an emitter of the YAML library was not released"); vp_assert(y->parsers==0,"a parser of the YAML library was not released"); }
static shared_ptr<ParserInput> input(const std::string &s) { return CreateParserInput(s.data(),(unsigned)s.size()); }
static void stream(unsigned t) { y->in.push_back(YE(t)); }
// ---- streams of events with anchors and aliases
struct Anchors { std::vector<std::pair<std::string,M> > a; const M *find(const std::string &n) const { for (size_t i=a.size();i--;) if (eqs(a[i].first,n)) return &a[i].second; return 0; } };
static bool dangling;
static unsigned scalars;
static M scalar(YE &e, bool key) {
	static const char *const P[]={"12","true","~","0x1f","-.5","a b",".nan","","1e3","+7"};
	unsigned st=pick("style",6); e.style=st; unsigned txt=vp_param("TXT",0);
	if (txt) { e.text=symstrv("text",txt,true); for (unsigned i=0;i<e.text.size();i++) vp_assume(e.text[i]!='\n'); } else e.text=P[pick("text",10)];
	unsigned tag=vp_param("TAGS",1)?pick("tag",vp_param("TAGS",1)+1):0; if (tag) { e.hasTag=true; e.tag=tag==1?"tag:yaml.org,2002:str":"!own"; }
	if (st>=2 || tag) return M::str(e.text);
	size_t a=0,b=e.text.size(); while (a<b && blank(e.text[a])) a++; while (b>a && blank(e.text[b-1])) b--; std::string t=e.text.substr(a,b-a);
	switch (kind(t)) {
	case 'n': return M(); case 't': return M::boolean(true); case 'f': return M::boolean(false);
	case 'i': { bool neg=t[0]=='-'; uint64_t x=0; for (size_t i=neg||t[0]=='+';i<t.size();i++) x=x*10+(unsigned char)(t[i]-'0'); return M::num(neg?-(int64_t)x:x); }
	case 'o': { uint64_t x=0; for (size_t i=2;i<t.size();i++) x=x*8+(unsigned char)(t[i]-'0'); return M::num(x); }
	case 'x': { uint64_t x=0; for (size_t i=2;i<t.size();i++) { unsigned char c=t[i]; x=x*16+(dig(c)?c-'0':c>='a'?c-'a'+10:c-'A'+10); } return M::num(x); }
	case 'd': return M::flt(txt?0:strtod(t.c_str(),0)); case 'N': return M::flt(NAN); case 'I': return M::flt(INFINITY); case 'J': return M::flt(-INFINITY);
	default: return M::str(e.text);
	}
}
static M feed(Anchors &an, unsigned depth, bool key, bool anchors) {
	YE e; unsigned what=key?pick("key",anchors?2:1):pick("node",depth?(anchors?4:3):(anchors?2:1)); if (!key && !anchors && what) what++; // 0 scalar, 1 alias, 2 list, 3 map
	std::string name(1,'a');
	if (anchors && what!=1 && pick("anchored",2)) { e.hasAnchor=true; name[0]='a'+pick("name",2); e.anchor=name; }
	M m;
	switch (what) {
	case 1: { e.type=YAML_ALIAS_EVENT; name[0]='a'+pick("name",2); e.anchor=name; y->in.push_back(e); const M *f=an.find(name); if (!f) { dangling=true; return M(); } if (key && f->t!=M::S) vp_assume(0); return *f; }
	case 0: { e.type=YAML_SCALAR_EVENT; if (key) { static const char *const K[]={"x","y"}; e.text=K[pick("keytext",2)]; e.style=pick("keystyle",2)?YAML_DOUBLE_QUOTED_SCALAR_STYLE:YAML_PLAIN_SCALAR_STYLE; m=M::str(e.text); } else if (vp_param("PLAIN",0)) { static const char *const K[]={"s","t","u","v"}; e.style=YAML_PLAIN_SCALAR_STYLE; e.text=K[scalars++%4]; m=M::str(e.text); } else m=scalar(e,key); y->in.push_back(e); break; }
	case 2: { e.type=YAML_SEQUENCE_START_EVENT; y->in.push_back(e); m.t=M::L; unsigned w=pick("width",vp_param("W",2)+1); for (unsigned i=0;i<w && !dangling;i++) m.l.push_back(feed(an,depth-1,false,anchors)); if (!dangling) stream(YAML_SEQUENCE_END_EVENT); break; }
	default: { e.type=YAML_MAPPING_START_EVENT; y->in.push_back(e); m.t=M::O; unsigned w=pick("width",vp_param("W",2)+1); for (unsigned i=0;i<w && !dangling;i++) { M k=feed(an,depth-1,true,anchors); if (dangling) break; M v=feed(an,depth-1,false,anchors); m.o[k.s]=v; } if (!dangling) stream(YAML_MAPPING_END_EVENT); break; }
	}
	if (e.hasAnchor && !dangling) an.a.push_back(std::make_pair(name,m));
	return m;
}
static bool isNaN(const M &m) { return m.t==M::F && m.f!=m.f; }
static bool same2(const M &m, const Variant &v) { // floats of symbolic text: kind only
	if (m.t==M::F) return v.IsFloat() && (isNaN(m)?v.AsDouble()!=v.AsDouble():vp_param("TXT",0)&&!isinf(m.f)?true:v.AsDouble()==m.f);
	if (m.t==M::L) { if (!v.IsList() || v.Size()!=m.l.size()) return false; for (unsigned i=0;i<m.l.size();i++) if (!same2(m.l[i],v.AsList()[i])) return false; return true; }
	if (m.t==M::O) { if (!v.IsMap() || v.Size()!=m.o.size()) return false; Variant::ConstMapIterator a=v.MapBegin(); std::map<std::string,M>::const_iterator b=m.o.begin(); for (;b!=m.o.end();++a,++b) if (!eqs(a->first,b->first) || !same2(b->second,a->second)) return false; return true; }
	return same(m,v,true);
}
static std::string doc; // text of the input; what is in it does not matter to the model
extern "C" void vp_main() {
	Y st; y=&st;
	switch (vp_param("CASE",0)) {
	case 0: { // a value and back
		M m=value(); ascii(m); Variant p=styles(vp_param("STYLES",0)); std::string text;
		{ Sink *s=new Sink; s->budget=vp_param("SHORT",0); shared_ptr<EmitterOutput> o(s); st.wmax=vp_param("EAGER",1) && pick("buffer",2)?1:~0u; Emitter e=CreateEmitter(o,SERIALIZE_YAML,p); e << toV(m); e.Close(); text=s->got; vp_assert(s->flushed,"the output was not flushed"); }
		vp_assert(eqs(text,ywritten()),"the output did not get the text of the YAML library");
		unsigned k=0; vp_assert(st.out.size()>=4 && st.out[k++].type==YAML_STREAM_START_EVENT && st.out[k++].type==YAML_DOCUMENT_START_EVENT,"no document started"); node(k,m);
		vp_assert(k+2==st.out.size() && st.out[k].type==YAML_DOCUMENT_END_EVENT && st.out[k+1].type==YAML_STREAM_END_EVENT,"document not ended");
		if (vp_param("STYLES",0)) for (k=0;k<st.out.size();k++) { const YE &e=st.out[k];
			if (e.type==YAML_MAPPING_START_EVENT) vp_assert(eqs(CS[e.style],p["map_style"].AsString()),"map style"); if (e.type==YAML_SEQUENCE_START_EVENT) vp_assert(eqs(CS[e.style],p["list_style"].AsString()),"list style"); }
		reread(); Variant v=Deserialize(text,SERIALIZE_YAML); obsV(v);
		vp_assert(eqs(st.read,text),"the YAML library did not get the text of the input");
		vp_assert(same2(m,v),"value read back differs"); ends(); vp_reach("round-trip"); break; }
	case 1: { // events with anchors and aliases to a value
		Anchors an; dangling=false; scalars=0; stream(YAML_STREAM_START_EVENT); stream(YAML_DOCUMENT_START_EVENT);
		M m=feed(an,vp_param("D",1),false,vp_param("ANCHORS",1)); if (!dangling) { stream(YAML_DOCUMENT_END_EVENT); stream(YAML_STREAM_END_EVENT); }
		doc="text"; st.rmax=3;
		try { Variant v=Deserialize(doc,SERIALIZE_YAML); obsV(v); vp_assert(!dangling,"alias without an anchor accepted"); vp_assert(same2(m,v),"value differs from the events"); vp_assert(eqs(st.read,doc),"input not read"); vp_reach("value"); }
		catch (const std::exception &) { vp_assert(dangling,"well-formed events refused"); vp_reach("dangling"); }
		ends(); break; }
	case 7: { // containers with an anchor, used again further on
		Anchors an; dangling=false; scalars=0; stream(YAML_STREAM_START_EVENT); stream(YAML_DOCUMENT_START_EVENT); bool map=pick("map",2); M m(map?M::O:M::L); stream(map?YAML_MAPPING_START_EVENT:YAML_SEQUENCE_START_EVENT);
		for (unsigned i=0;i<vp_param("N",2) && !dangling;i++) { std::string k(1,(char)('p'+i)); if (map) { YE e; e.type=YAML_SCALAR_EVENT; e.style=YAML_PLAIN_SCALAR_STYLE; e.text=k; y->in.push_back(e); } M c=feed(an,i?0:vp_param("D",1),false,true); if (!i) vp_assume(c.cont() || dangling); if (map) m.o[k]=c; else m.l.push_back(c); }
		if (!dangling) { stream(map?YAML_MAPPING_END_EVENT:YAML_SEQUENCE_END_EVENT); stream(YAML_DOCUMENT_END_EVENT); stream(YAML_STREAM_END_EVENT); } doc="text"; st.rmax=3;
		try { Variant v=Deserialize(doc,SERIALIZE_YAML); obsV(v); vp_assert(!dangling,"alias without an anchor accepted"); vp_assert(same2(m,v),"value differs from the events"); vp_reach("value"); } catch (const std::exception &) { vp_assert(dangling,"well-formed events refused"); vp_reach("dangling"); }
		ends(); break; }
	case 2: { // the library or the output fails at any call
		M m=value(); ascii(m); Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); bool thrown=false; s->budget=vp_param("SHORT",0);
		st.wmax=vp_param("EAGER",1) && pick("buffer",2)?1:~0u; unsigned how=pick("how",3);
		if (how==0) { uint8_t a=vp_u8("failAt"); vp_assume(a<vp_param("CALLS",40)); st.failAt=a; } else if (how==1) { uint8_t a=vp_u8("failAt"); vp_assume(a<vp_param("CALLS",40)); s->failAt=a; } else s->flushFails=true;
		try { Emitter e=CreateEmitter(o,SERIALIZE_YAML,Variant()); e << toV(m); if (pick("again",2)) e.Flush(); e.Close(); } catch (const std::exception &) { thrown=true; }
		if (st.failed || s->failed) { vp_assert(thrown,"a failure was not reported"); vp_reach("failed"); } else { vp_assert(!thrown && eqs(s->got,ywritten()),"nothing failed but the text is not complete"); vp_reach("not-failed"); }
		o.reset(); ends(); break; }
	case 3: { // reading: the library or the input fails at any call, then the parser is used again
		Anchors an; dangling=false; scalars=0; stream(YAML_STREAM_START_EVENT); stream(YAML_DOCUMENT_START_EVENT); M m=feed(an,vp_param("D",1),false,false); stream(YAML_DOCUMENT_END_EVENT); stream(YAML_STREAM_END_EVENT);
		readBudget=1; std::string t="abc"; Src *src=new Src(t,bufsize()); shared_ptr<ParserInput> in(src); bool boom=pick("boom",2); st.readAt=pick("readAt",3); st.rmax=2;
		if (boom) src->boomAt=pick("boomAt",4); else { uint8_t a=vp_u8("failAt"); vp_assume(a>=1 && a<20); st.failAt=a; }
		bool thrown=false; { Parser p=CreateParser(in,SERIALIZE_YAML); Variant v;
			try { v=ParseVariant(p); } catch (const std::exception &) { thrown=true; }
			if (thrown) { vp_assert(st.failed||st.readFailed,"well-formed events refused"); vp_assert(p.Error() && !p.Ok(),"failure not shown by the parser"); bool again=false; try { v=ParseVariant(p); } catch (const std::exception &) { again=true; } vp_assert(again,"a failed parser delivered a value"); vp_reach("failed"); }
			else { vp_assert(!st.failed && !st.readFailed,"a failure was not reported"); vp_assert(same2(m,v),"value differs from the events"); vp_assert(!p.Error(),"error shown after success"); vp_reach("not-failed"); } }
		in.reset(); ends(); break; }
	case 4: { // binary scalars
		std::string b=symstrv("data",vp_param("S",4)); Variant v(Blob::CreateCopy(b.data(),b.size())); if (pick("nested",2)) { Variant l(Variant::ListType); l.Append(v); v=l; }
		std::string text=Serialize(v,SERIALIZE_YAML); unsigned n=0; for (unsigned k=0;k<st.out.size();k++) if (st.out[k].type==YAML_SCALAR_EVENT) { n++; vp_assert(st.out[k].hasTag && st.out[k].tag=="tag:yaml.org,2002:binary" && !st.out[k].plain && !st.out[k].quoted,"binary scalar without tag"); } vp_assert(n==1,"not one scalar");
		reread(); Variant w=Deserialize(text,SERIALIZE_YAML); if (w.IsList()) w=w[0u]; vp_assert(w.IsBlob() && eqs(blobstr(w),b),"binary data changed"); ends(); vp_reach("binary"); break; }
	case 5: { // any text with the binary tag
		stream(YAML_STREAM_START_EVENT); stream(YAML_DOCUMENT_START_EVENT); YE e(YAML_SCALAR_EVENT); e.style=pick("style",6); e.hasTag=true; e.tag="tag:yaml.org,2002:binary"; e.text=symstrv("text",vp_param("S",5)); y->in.push_back(e); stream(YAML_DOCUMENT_END_EVENT); stream(YAML_STREAM_END_EVENT);
		try { Variant v=Deserialize("x",SERIALIZE_YAML); vp_assert(v.IsBlob(),"binary scalar is not a blob"); vp_assert(blobstr(v).size()*4<=e.text.size()*3,"more data than the text holds"); vp_reach("binary"); } catch (const std::exception &) { vp_reach("refused"); }
		ends(); break; }
	case 6: { // parameters
		Variant p=styles(true); bool ib=pick("begin",2), ie=pick("end",2); uint8_t ind=vp_u8("indent"), wid=vp_u8("width"); p["implicit_document_begin"]=ib; p["implicit_document_end"]=ie; p["indent"]=(unsigned)ind; p["width"]=(unsigned)wid;
		shared_ptr<EmitterOutput> o(new Sink); { Emitter e=CreateEmitter(o,SERIALIZE_YAML,p); Variant q=e.GetParams();
			static const char *const N[]={"scalar_style","map_style","list_style"}; for (unsigned i=0;i<3;i++) { vp_assert(eqs(q[N[i]].AsString(),p[N[i]].AsString()),"style parameter"); vp_assert(eqs(e.GetParam(N[i]).AsString(),p[N[i]].AsString()),"single style parameter"); }
			vp_assert(q["implicit_document_begin"].AsBool()==ib && q["implicit_document_end"].AsBool()==ie,"document parameter"); vp_assert(q["indent"].AsInt()==ind && q["width"].AsInt()==wid,"layout parameter"); vp_assert(q.Contains("precision"),"precision parameter");
			Variant v; v["a"][0u]="x"; e << v; e.Close(); }
		vp_assert(st.indent==ind && st.width==wid,"layout not handed on"); // zero: not set, recorded as zero
		for (unsigned k=0;k<st.out.size();k++) { const YE &e=st.out[k]; if (e.type==YAML_DOCUMENT_START_EVENT) vp_assert(e.plain==ib,"document start"); if (e.type==YAML_DOCUMENT_END_EVENT) vp_assert(e.plain==ie,"document end"); if (e.type==YAML_MAPPING_START_EVENT) vp_assert(eqs(CS[e.style],p["map_style"].AsString()),"map style"); if (e.type==YAML_SEQUENCE_START_EVENT) vp_assert(eqs(CS[e.style],p["list_style"].AsString()),"list style"); }
		ends(); vp_reach("params"); break; }
	case 8: { // integers at the limits of 64 bits, written and read back
		uint64_t n=vp_param("SPAN",99), off=vp_u8("offset"); vp_assume(off<=n); unsigned w=pick("where",5); Variant v; M m; switch (w) { case 0: m=M::uns(~(uint64_t)0-off); break; case 1: m=M::uns(((uint64_t)1<<63)-n/2+off); break; case 2: m=M::num(INT64_MAX-(int64_t)off); break; case 3: m=M::num(INT64_MIN+(int64_t)off); break; default: m=M::num((int64_t)off-(int64_t)(n/2)); break; }
		std::string text=Serialize(toV(m),SERIALIZE_YAML); reread(); v=Deserialize(text,SERIALIZE_YAML); vp_assert(v.IsNumber(),"integer is not a number"); if (w<2) vp_assert(v.AsUnsigned()==(uint64_t)m.i && v>Variant(0),"unsigned integer read back differs"); else vp_assert(v.AsInt()==m.i && (w==2?v>Variant(0):w==3?v<Variant(0):true),"integer read back differs"); ends(); vp_reach("limits"); break; }
	}
}
