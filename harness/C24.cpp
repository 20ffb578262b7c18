// XML property lists: elements handed to the XML library, the value rebuilt from nodes, and every failure of the library.
#include "xmodel.h"
#include "src.h"
#include <Variant/Emitter.h>
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Sink : EmitterOutput {
	std::string got; unsigned calls, failAt, budget; bool flushFails, failed, flushed;
	Sink() : calls(0), failAt(~0u), budget(0), flushFails(false), failed(false), flushed(false) {}
	unsigned Write(const void *p, unsigned len) {
		if (failed || calls++==failAt) { failed=true; throw Boom(); }
		if (budget && len>1) { budget--; uint8_t n=vp_u8("accept"); vp_assume(n>=1 && n<=len); len=(unsigned)vp_fork(n); }
		got.append((const char*)p,len); return len;
	}
	void Flush() { flushed=true; if (flushFails) { failed=true; throw Boom(); } }
	unsigned NumBytesWritten() const { return got.size(); }
};
static void chars(const std::string &s) { for (unsigned i=0;i<s.size();i++) vp_assume(s[i]>=32 || xblank(s[i])); }
static void chars(const M &m) { if (m.t!=M::X) chars(m.s); for (unsigned i=0;i<m.l.size();i++) chars(m.l[i]); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { chars(i->first); chars(i->second); } }
static M value() { GenP g(vp_param("KINDS",511),vp_param("W",2),vp_param("S",2),vp_param("K",1)); g.strnonul=g.keynonul=true; g.imax=vp_param("IMAX",0); g.keyfixed=vp_param("KEYS",0); return gen(g,vp_param("D",1)); }
static void ends() { vp_assert(x->writers==0,"a writer of the XML library was not released"); vp_assert(x->readers==0,"a reader of the XML library was not released"); }
static void expect(unsigned &k, char kind, const std::string &t) { vp_assert(k<x->out.size() && x->out[k].kind==kind && eqs(x->out[k].text,t),"elements differ from the value"); k++; }
static void node(unsigned &k, const M &m) { // the elements the format prescribes for a value
	switch (m.t) {
	case M::N: expect(k,'S',"null"); expect(k,'E',"null"); return;
	case M::B: { std::string n=m.i?"true":"false"; expect(k,'S',n); expect(k,'E',n); return; }
	case M::S: expect(k,'S',"string"); expect(k,'T',m.s); expect(k,'E',"string"); return;
	case M::L: expect(k,'S',"array"); for (unsigned i=0;i<m.l.size();i++) node(k,m.l[i]); expect(k,'E',"array"); return;
	case M::O: expect(k,'S',"dict"); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { expect(k,'S',"key"); expect(k,'T',i->first); expect(k,'E',"key"); node(k,i->second); } expect(k,'E',"dict"); return;
	default: { std::string n=m.t==M::F?"real":m.t==M::X?"data":"integer"; expect(k,'S',n); vp_assert(k<x->out.size() && x->out[k].kind=='T',"text missing"); k++; expect(k,'E',n); return; }
	}
}
// ---- documents
static std::string cased(const char *n) { std::string s(n); if (vp_param("UPPER",0) && pick("upper",2)) for (unsigned i=0;i<s.size();i++) s[i]-=32; return s; }
static void noise() { // what may stand between elements
	if (!vp_param("NOISE",1)) return;
	switch (pick("noise",3)) { case 1: x->in.push_back(XN(XML_READER_TYPE_COMMENT,"#comment","c")); break; case 2: x->in.push_back(XN(XML_READER_TYPE_SIGNIFICANT_WHITESPACE,"#text","\n ")); break; }
}
static void el(const std::string &n, bool empty=false) { x->in.push_back(XN(XML_READER_TYPE_ELEMENT,n,"",empty)); }
static void endel(const std::string &n) { x->in.push_back(XN(XML_READER_TYPE_END_ELEMENT,n)); }
static bool refuse; // the document has an element the format does not allow
static void text(const char *n, const std::string &t) { std::string e=cased(n); if (t.empty() && pick("short",2)) { el(e,true); refuse=true; return; } el(e); if (vp_param("SPLIT",0) && t.size()>1 && pick("split",2)) { xtextnode(t.substr(0,1)); x->in.push_back(XN(XML_READER_TYPE_COMMENT,"#comment","c")); xtextnode(t.substr(1)); } else xtextnode(t); endel(e); }
static M feed(unsigned depth) {
	noise();
	static const unsigned FEW[]={2,5,7,8}; // a literal, a string, an array, a map
	switch (vp_param("FEW",0)?FEW[pick("element",depth?4:2)]:pick("element",depth?9:7)) {
	case 0: case 1: case 2: { static const char *const N[]={"null","true","false"}; unsigned w=pick("literal",3); std::string e=cased(N[w]); if (pick("open",2)) { el(e); noise(); endel(e); } else el(e,true); return w?M::boolean(w==1):M(); }
	case 3: { static const char *const T[]={"0.5","-2.25","1e300","3","inf",""}; static const double F[]={0.5,-2.25,1e300,3,__builtin_inf(),0}; unsigned w=pick("real",6); if (!*T[w]) refuse=true; text("real",T[w]); return M::flt(F[w]); }
	case 4: { unsigned n=pick("digits",vp_param("DIG",3)+1); std::string d=symstr("digit",n); for (unsigned i=0;i<n;i++) vp_assume(d[i]>='0'&&d[i]<='9'); if (n>1) vp_assume(d[0]!='0'); uint64_t v=0; for (unsigned i=0;i<n;i++) v=v*10+(unsigned char)(d[i]-'0'); bool neg=n && pick("minus",2); if (!n) refuse=true; text("integer",neg?"-"+d:d); return M::num(neg?-(int64_t)v:v); }
	case 5: { std::string s=symstrv("text",vp_param("S",2),true); chars(s); text(vp_param("OTHER",0) && pick("other",2)?"other":"string",s); return M::str(s); }
	case 6: { static const char *const T[]={"","QQ==","QUI=","QUJD"}; unsigned w=pick("data",4); text("data",T[w]); return M::blob(std::string("ABC",w)); }
	case 7: { std::string e=cased("array"); unsigned w=pick("width",vp_param("W",2)+1); M m(M::L); if (!w && pick("short",2)) { el(e,true); return m; } el(e); for (unsigned i=0;i<w && !refuse;i++) m.l.push_back(feed(depth-1)); noise(); endel(e); return m; }
	default: { std::string e=cased("dict"); unsigned w=pick("width",vp_param("W",2)+1); M m(M::O); if (!w && pick("short",2)) { el(e,true); return m; } el(e);
		for (unsigned i=0;i<w && !refuse;i++) { noise(); std::string k=symstrv("key",vp_param("K",1),true); chars(k); text("key",k); if (!refuse) { M v=feed(depth-1); m.o[k]=v; } } noise(); endel(e); return m; }
	}
}
extern "C" void vp_main() {
	X st; x=&st;
	switch (vp_param("CASE",0)) {
	case 0: { // a value and back
		M m=value(); chars(m); std::string text;
		Variant p; bool pretty=pick("pretty",2); p["pretty"]=pretty; p["indent"]=3;
		{ Sink *s=new Sink; s->budget=vp_param("SHORT",0); shared_ptr<EmitterOutput> o(s); { Emitter e=CreateEmitter(o,SERIALIZE_XMLPLIST,p); vp_assert((st.indent!=0)==pretty,"indentation not handed on"); e.BeginDocument(); e << toV(m); e.EndDocument(); e.Close(); vp_assert(st.docEnded,"the document was not ended"); vp_assert(s->flushed,"the output was not flushed"); vp_assert(eqs(s->got,xtext(0)),"the text is not complete when closed"); } text=s->got; }
		vp_assert(eqs(text,xtext(0)),"the output did not get the text of the XML library");
		unsigned k=0; expect(k,'D',""); expect(k,'S',"plist"); node(k,m); expect(k,'E',"plist"); vp_assert(k==st.out.size(),"too many elements");
		xreread(); Variant v=Deserialize(text,SERIALIZE_XMLPLIST); obsV(v); vp_assert(eqs(st.read,text),"the XML library did not get the text of the input");
		vp_assert(same(m,v,true),"value read back differs"); ends(); vp_reach("round-trip"); break; }
	case 1: { // a document to a value
		refuse=false; bool root=pick("root",2); std::string r=cased("plist"); noise(); if (root) el(r); M m=feed(vp_param("D",1)); if (root) { noise(); endel(r); }
		std::string doc="text"; st.rmax=3;
		try { Variant v=Deserialize(doc,SERIALIZE_XMLPLIST); obsV(v); vp_assert(!refuse,"element that is not allowed accepted"); vp_assert(same(m,v,true),"value differs from the document"); vp_reach("value"); }
		catch (const std::exception &) { vp_assert(refuse,"document refused"); vp_reach("refused"); }
		ends(); break; }
	case 2: { // the library or the output fails at any call
		M m=value(); chars(m); Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); bool thrown=false; unsigned how=pick("how",3);
		if (how==0) { uint8_t a=vp_u8("failAt"); vp_assume(a<vp_param("CALLS",40)); st.failAt=a; } else if (how==1) { uint8_t a=vp_u8("failAt"); vp_assume(a<4); s->failAt=a; } else s->flushFails=true;
		bool failed=false;
		try { Emitter e=CreateEmitter(o,SERIALIZE_XMLPLIST,Variant()); e.BeginDocument(); e << toV(m); if (pick("flush",2)) e.Flush(); e.EndDocument(); e.Close(); failed=st.failed||s->failed; } catch (const std::exception &) { thrown=true; }
		if (thrown) { vp_assert(st.failed||s->failed,"nothing failed but an exception was thrown"); vp_reach("failed"); } else { vp_assert(!failed,"a failure was not reported"); vp_assert(eqs(s->got,xtext(0)),"nothing failed but the text is not complete"); vp_reach("not-failed"); }
		o.reset(); ends(); break; }
	case 3: { // reading: the library or the input fails at any call, then the parser is used again
		refuse=false; el("plist"); M m=feed(vp_param("D",1)); vp_assume(!refuse); endel("plist");
		readBudget=1; std::string t="abc"; Src *src=new Src(t,bufsize()); shared_ptr<ParserInput> in(src); st.readAt=pick("readAt",3); st.rmax=2;
		if (pick("boom",2)) src->boomAt=pick("boomAt",4); else { uint8_t a=vp_u8("failAt"); vp_assume(a<12); st.failAt=a; }
		bool thrown=false; try { Parser p=CreateParser(in,SERIALIZE_XMLPLIST); Variant v;
			try { v=ParseVariant(p); } catch (const std::exception &) { thrown=true; }
			if (thrown) { vp_assert(st.failed||st.readFailed,"document refused"); vp_assert(p.Error() && !p.Ok(),"failure not shown by the parser"); try { v=ParseVariant(p); vp_assert(v.IsNull(),"a failed parser delivered a value"); } catch (const std::exception &) {} vp_reach("failed"); }
			else { vp_assert(!st.failed && !st.readFailed,"a failure was not reported"); vp_assert(same(m,v,true),"value differs from the document"); vp_assert(!p.Error(),"error shown after success"); vp_reach("not-failed"); } }
		catch (const std::exception &) { vp_assert(st.failed && !thrown,"parser creation refused"); vp_reach("create-failed"); }
		in.reset(); ends(); break; }
	case 4: { // any well-nested sequence of nodes: a value or an exception, nothing else
		static const char *const N[]={"plist","dict","array","key","string","integer","real","true","null","data","other"}; std::vector<std::string> open; unsigned n=vp_param("N",4), top=0;
		for (unsigned i=0;i<n;i++) { unsigned w=pick("node",4);
			if (w==0 && (open.size() || !top)) { std::string e=N[pick("name",11)]; bool empty=pick("empty",2); if (open.empty()) top++; el(e,empty); if (!empty) open.push_back(e); }
			else if (w==1 && open.size()) xtextnode(pick("blank",2)?" ":"1x");
			else if (w==2 && open.size()) { endel(open.back()); open.pop_back(); }
			else if (w==3) break; else vp_assume(0); }
		bool cut=false; if (open.size()) { if (pick("cut",2)) { cut=true; st.failAt=n+30; } else while (open.size()) { endel(open.back()); open.pop_back(); } }
		Parser p=CreateParser(CreateParserInput("t",1),SERIALIZE_XMLPLIST);
		for (unsigned i=0;i<2;i++) try { Variant v=ParseVariant(p); obsV(v); vp_reach("value"); } catch (const std::exception &) { vp_reach("refused"); }
		p=Parser(); ends(); break; }
	case 5: { // binary data
		std::string b=symstrv("data",vp_param("S",4)); Variant v(Blob::CreateCopy(b.data(),b.size())); bool nest=pick("nested",2); if (nest) { Variant l(Variant::ListType); l.Append(v); v=l; }
		std::string text=Serialize(v,SERIALIZE_XMLPLIST); xreread(); Variant w=Deserialize(text,SERIALIZE_XMLPLIST); if (nest) { vp_assert(w.IsList() && w.Size()==1,"list"); w=w[0u]; } vp_assert(w.IsBlob() && eqs(blobstr(w),b),"binary data changed"); ends(); vp_reach("binary"); break; }
	case 6: { // any text in a data element
		el("data"); std::string t=symstrv("text",vp_param("S",5),true); chars(t); xtextnode(t); endel("data");
		try { Variant v=Deserialize("x",SERIALIZE_XMLPLIST); vp_assert(v.IsBlob(),"data element is not a blob"); vp_assert(blobstr(v).size()*4<=t.size()*3,"more data than the text holds"); vp_reach("binary"); } catch (const std::exception &) { vp_assert(0,"data element refused"); }
		ends(); break; }
	case 7: { // integer texts: hexadecimal, and decimal up to the largest magnitudes
		unsigned form=pick("form",3), n=form==0?1+pick("digits",vp_param("HX",3)):vp_param("LOW",3); std::string d=symstr("digit",n), t; unsigned sign=pick("sign",3); bool neg=sign==1; unsigned __int128 m=0;
		if (form==0) { for (unsigned i=0;i<n;i++) { unsigned char c=d[i]; bool dec=c>='0'&&c<='9', lo=c>='a'&&c<='f', up=c>='A'&&c<='F'; vp_assume(dec|lo|up); m=m*16+(uint64_t)(dec?c-'0':lo?c-'a'+10:c-'A'+10); } t=(pick("x",2)?"0X":"0x")+d; }
		else { std::string pre=std::string(form==1?"9223372036854775807":"18446744073709551615"); pre.resize(pre.size()-n); for (unsigned i=0;i<pre.size();i++) m=m*10+(uint64_t)(pre[i]-'0'); for (unsigned i=0;i<n;i++) { vp_assume(d[i]>='0'&&d[i]<='9'); m=m*10+(uint64_t)(unsigned char)(d[i]-'0'); } t=pre+d; vp_assume(neg?form==1 && m<=(unsigned __int128)1<<63:m<=(unsigned __int128)~(uint64_t)0); }
		el("integer"); xtextnode(sign==1?"-"+t:sign?"+"+t:t); endel("integer"); uint64_t u=(uint64_t)m;
		Variant v=Deserialize("x",SERIALIZE_XMLPLIST); obsV(v); vp_assert(v.IsNumber(),"integer element is not a number");
		if (neg) vp_assert(v.AsInt()==(intmax_t)(0-u),"negative integer differs from its text"); else { vp_assert(v.AsUnsigned()==u,"integer differs from its text"); if (u>>63==0) vp_assert(v.AsInt()==(intmax_t)u,"integer differs from its text when signed"); }
		ends(); vp_reach(form?"large":"hexadecimal"); break; }
	case 8: { // integers at the limits of 64 bits, written and read back
		uint64_t n=vp_param("SPAN",99), off=vp_u8("offset"); vp_assume(off<=n); unsigned w=pick("where",5); Variant v; M m; switch (w) { case 0: m=M::uns(~(uint64_t)0-off); break; case 1: m=M::uns(((uint64_t)1<<63)-n/2+off); break; case 2: m=M::num(INT64_MAX-(int64_t)off); break; case 3: m=M::num(INT64_MIN+(int64_t)off); break; default: m=M::num((int64_t)off-(int64_t)(n/2)); break; }
		std::string text=Serialize(toV(m),SERIALIZE_XMLPLIST); xreread(); v=Deserialize(text,SERIALIZE_XMLPLIST); vp_assert(v.IsNumber(),"integer is not a number"); if (w<2) vp_assert(v.AsUnsigned()==(uint64_t)m.i && v>Variant(0),"unsigned integer read back differs"); else vp_assert(v.AsInt()==m.i && (w==2?v>Variant(0):w==3?v<Variant(0):true),"integer read back differs"); ends(); vp_reach("limits"); break; }
	}
}
