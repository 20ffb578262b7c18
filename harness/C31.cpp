// Emitters: parameters given at creation, set one at a time or together, and what is written through the streaming calls.
#include "ymodel.h"
#include "xmodel.h"
#include <Variant/Emitter.h>
#include <math.h>
struct Sink : EmitterOutput { std::string got; unsigned Write(const void *p, unsigned len) { got.append((const char*)p,len); return len; } void Flush() {} unsigned NumBytesWritten() const { return got.size(); } };
enum { JSON, HDR, XML, YAML, NF };
static const SerializeType T[]={SERIALIZE_JSON,SERIALIZE_BUNDLEHDR,SERIALIZE_XMLPLIST,SERIALIZE_YAML};
static const char *const SS[]={"any","plain","single quoted","double quoted","literal","folded"};
static const char *const CS[]={"any","block","flow"};
enum { BOOL, NUM, PREC, SST, CST };
struct Def { const char *name; int type; };
static const Def JD[]={{"pretty",BOOL},{"indent",NUM},{"precision",PREC},{"strict",BOOL},{0,0}}, HD[]={{"precision",PREC},{0,0}}, XD[]={{"pretty",BOOL},{"indent",NUM},{"precision",PREC},{0,0}},
	YD[]={{"scalar_style",SST},{"map_style",CST},{"list_style",CST},{"implicit_document_begin",BOOL},{"implicit_document_end",BOOL},{"indent",NUM},{"width",NUM},{"precision",PREC},{0,0}};
static const Def *const D[]={JD,HD,XD,YD};
static const unsigned P[]={17,1,3}; static const char *const PT[]={"0.66666666666666663","0.7","0.667"}; // texts of 2/3
typedef std::map<std::string,Variant> Conf;
static Variant value(int t, bool all=false) { switch (t) {
	case BOOL: { uint8_t b=vp_u8("flag"); vp_assume(b<2); return Variant(b!=0); }
	case NUM: { uint8_t n=vp_u8("number"); vp_assume(n<vp_param("NMAX",9)); return Variant((unsigned)n); }
	case PREC: return Variant(P[all?2:pick("digits",3)]);
	case SST: return Variant(SS[all?3:pick("scalar",6)]);
	default: return Variant(CS[all?2:pick("container",3)]); } }
static bool eqp(const Variant &a, const Variant &b, int t) { switch (t) {
	case BOOL: return a.IsBool() && a.AsBool()==b.AsBool();
	case NUM: case PREC: return (a.IsInt()||a.IsUnsigned()) && a.AsInt()==b.AsInt();
	default: return a.IsString() && eqs(a.AsString(),b.AsString()); } }
static void readback(Emitter &e, const Def *d, const Conf &c) {
	Variant all=e.GetParams(); vp_assert(all.IsMap(),"the parameters are not a map"); unsigned n=0;
	for (;d->name;d++,n++) { Conf::const_iterator i=c.find(d->name); vp_assert(all.Contains(d->name),"a parameter is missing"); Variant one=e.GetParam(d->name); if (i==c.end()) { vp_assert(one.IsNull()==false,"a parameter without a default"); vp_assert(one==all.AsMap()[d->name],"a parameter reads differently alone"); continue; }
		vp_assert(eqp(one,i->second,d->type),"a parameter does not have the value given"); vp_assert(eqp(all.AsMap()[d->name],i->second,d->type),"a parameter reads differently among all"); }
	vp_assert(e.GetParam("no such").IsNull(),"value of an unknown parameter");
}
static unsigned prec(const Conf &c) { Conf::const_iterator i=c.find("precision"); unsigned p=i==c.end()?17:i->second.AsUnsigned(); for (unsigned k=0;k<3;k++) if (P[k]==p) return k; return 0; }
static bool flag(const Conf &c, const char *n) { Conf::const_iterator i=c.find(n); return i!=c.end() && i->second.AsBool(); }
static unsigned num(const Conf &c, const char *n, unsigned d) { Conf::const_iterator i=c.find(n); return i==c.end()?d:(unsigned)i->second.AsUnsigned(); }
static std::string style(const Conf &c, const char *n) { Conf::const_iterator i=c.find(n); return i==c.end()?std::string("any"):i->second.AsString(); }
static void nl(std::string &w, const Conf &c, unsigned depth) { if (!flag(c,"pretty")) return; unsigned n=(unsigned)vp_fork(num(c,"indent",4)); w+='\n'; w.append(n*depth,' '); }
// one parameter changed, or several, or none
static void change(Emitter &e, const Def *d, Conf &c) {
	unsigned n=0; while (d[n].name) n++;
	unsigned how=pick("how",3); if (how==2) { std::string k=symstr("unknown",2); e.SetParam(k,Variant(1)); vp_reach("unknown"); return; }
	unsigned a=pick("which",n); Variant v=value(d[a].type); c[d[a].name]=v;
	if (how==0) { e.SetParam(d[a].name,v); vp_reach("single"); return; }
	Variant m(Variant::MapType); m[d[a].name]=v; unsigned b=(a+1)%n; if (b!=a) { Variant w=value(d[b].type); c[d[b].name]=w; m[d[b].name]=w; } m["other"]=3; e.SetParams(m); vp_reach("together");
}
static void params() {
	Y ys; y=&ys; X xs; x=&xs; unsigned f=vp_param("FMT",NF); if (f>=NF) f=pick("format",NF); const Def *d=D[f]; Conf c; Variant init; unsigned n=0; while (d[n].name) n++;
	unsigned given=pick("given",n+2); if (given>n) { for (unsigned i=0;i<n;i++) c[d[i].name]=value(d[i].type,true); } else if (given) c[d[given-1].name]=value(d[given-1].type);
	for (Conf::iterator i=c.begin();i!=c.end();++i) init[i->first]=i->second; if (given && pick("extra",2)) init["extra"]=1;
	const double third=2.0/3; Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); std::string want; Conf c0, c1, c2;
	{ Emitter e=CreateEmitter(o,T[f],init); readback(e,d,c); if (given) { Variant keep=init; vp_assert(keep.Size()==c.size()+(init.Contains("extra")?1:0),"the parameters given were changed"); } c0=c;
		if (f==JSON) {
			e.BeginList(); e << true; want="["; nl(want,c,1); want+="true"; change(e,d,c); readback(e,d,c); e << third; want+=","; nl(want,c,1); want+=PT[prec(c)];
			if (vp_param("TWICE",0)) { change(e,d,c); readback(e,d,c); }
			e.BeginMap(); e << "k"; e << third; e.EndMap(); want+=","; nl(want,c,1); want+="{"; nl(want,c,2); want+="\"k\": "; want+=PT[prec(c)]; nl(want,c,1); want+="}";
			bool thrown=false; try { e << (double)INFINITY; } catch (const std::exception &) { thrown=true; } vp_assert(thrown==flag(c,"strict"),"the strict parameter"); if (thrown) { vp_reach("strict"); return; }
			want+=","; nl(want,c,1); want+="null"; e.EndList(); nl(want,c,0); want+="]"; e.Close(); vp_assert(eqs(s->got,want),"the text does not follow the parameters"); vp_reach("text"); return; }
		if (f==HDR) { e.BeginDocument(); e.BeginMap(); e << "k" << third; want="bundle.version: 0.0\nk: "; want+=PT[prec(c)]; change(e,d,c); readback(e,d,c); e << "l" << third; e.EndMap(); e.EndDocument(); e.Close(); want+="\nl: "; want+=PT[prec(c)]; want+="\n"; vp_assert(eqs(s->got.substr(0,want.size()),want),"the text does not follow the parameters"); vp_reach("text"); return; }
		if (f==XML) { if (num(c,"indent",4)) vp_assert((xs.indent!=0)==flag(c,"pretty"),"layout of the XML library"); e.BeginDocument(); e.BeginList(); e << third; change(e,d,c); readback(e,d,c); if (num(c,"indent",4)) vp_assert((xs.indent!=0)==flag(c,"pretty"),"layout of the XML library changed later"); e << third; e.EndList(); e.EndDocument(); e.Close(); c1=c; }
		else { if (num(c,"indent",0)) vp_assert(ys.indent==num(c,"indent",0),"indentation of the YAML library"); if (num(c,"width",0)) vp_assert(ys.width==num(c,"width",0),"width of the YAML library"); if (vp_param("TWICE",0)) change(e,d,c); readback(e,d,c); c1=c; e.BeginDocument(); e.BeginMap(); e << "abc" << third; c2=c; change(e,d,c); readback(e,d,c); e << "def"; e.BeginList(); e << third; e.EndList(); e.EndMap(); e.EndDocument(); e.Close(); }
	}
	if (f==XML) { unsigned k=0; for (unsigned i=0;i<xs.out.size();i++) if (xs.out[i].kind=='T') { vp_assert(eqs(xs.out[i].text,PT[prec(k?c1:c0)]),"the precision"); k++; } vp_assert(k==2,"two numbers"); vp_assert(xs.writers==0,"writer not released"); vp_reach("elements"); return; }
	unsigned k=0; bool second=false; for (unsigned i=0;i<ys.out.size();i++) { const YE &e=ys.out[i]; switch (e.type) {
		case YAML_DOCUMENT_START_EVENT: vp_assert(e.plain==flag(c1,"implicit_document_begin"),"document start"); break;
		case YAML_DOCUMENT_END_EVENT: vp_assert(e.plain==flag(c,"implicit_document_end"),"document end"); break;
		case YAML_MAPPING_START_EVENT: vp_assert(eqs(CS[e.style],style(c1,"map_style")),"map style"); break;
		case YAML_SEQUENCE_START_EVENT: vp_assert(eqs(CS[e.style],style(c,"list_style")),"list style"); break;
		case YAML_SCALAR_EVENT: if (e.text=="abc"||e.text=="def") { if (e.text=="def") second=true; vp_assert(eqs(SS[e.style],style(second?c:c2,"scalar_style")),"scalar style"); } else { k++; vp_assert(eqs(e.text,PT[prec(second?c:c2)]),"the precision"); } break;
		default: break; } }
	vp_assert(k==2,"two numbers"); vp_assert(ys.emitters==0,"emitter not released"); vp_reach("events");
}
// ---- an emitter of the caller's own, recording what it is told
struct Ev { char k; int64_t i; double d; std::string s; Ev(char k_, int64_t i_=0, const std::string &s_="", double d_=0) : k(k_), i(i_), d(d_), s(s_) {} };
struct Rec : EmitterImpl { std::vector<Ev> v; Conf c; unsigned flushed, closed; Rec() : flushed(0), closed(0) {}
	void BeginDocument() { v.push_back(Ev('D')); } void EndDocument() { v.push_back(Ev('d')); } void BeginMap(int n) { v.push_back(Ev('O',n)); } void EndMap() { v.push_back(Ev('o')); } void BeginList(int n) { v.push_back(Ev('L',n)); } void EndList() { v.push_back(Ev('l')); }
	void EmitNull() { v.push_back(Ev('N')); } void EmitTrue() { v.push_back(Ev('B',1)); } void EmitFalse() { v.push_back(Ev('B',0)); } void Emit(const char *t) { v.push_back(Ev('S',0,t)); } void Emit(intmax_t n) { v.push_back(Ev('I',n)); } void Emit(uintmax_t n) { v.push_back(Ev('U',(int64_t)n)); } void Emit(double d) { v.push_back(Ev('F',0,"",d)); }
	void Emit(ConstBlobPtr b) { std::string r; for (unsigned i=0;i<b->GetNumBuffers();i++) r.append((const char*)b->GetPtr(i),b->GetLength(i)); v.push_back(Ev('X',0,r)); }
	void Flush() { flushed++; } void Close() { closed++; } Variant GetParam(const std::string &k) { return c.count(k)?c[k]:Variant(); } Variant GetParams() { Variant r(Variant::MapType); for (Conf::iterator i=c.begin();i!=c.end();++i) r[i->first]=i->second; return r; } void SetParam(const std::string &k, Variant x) { c[k]=x; } };
static void same(const std::vector<Ev> &a, const std::vector<Ev> &b) { vp_assert(a.size()==b.size(),"other calls than made"); for (size_t i=0;i<a.size();i++) { vp_assert(a[i].k==b[i].k,"another kind of call"); vp_assert(a[i].i==b[i].i,"another number"); vp_assert(a[i].d==b[i].d,"another fraction"); vp_assert(eqs(a[i].s,b[i].s),"another text"); } }
static void calls(std::vector<Ev> &w, const M &m) { switch (m.t) {
	case M::N: w.push_back(Ev('N')); break; case M::B: w.push_back(Ev('B',m.i)); break; case M::I: w.push_back(Ev('I',m.i)); break; case M::U: w.push_back(Ev('U',m.i)); break; case M::F: w.push_back(Ev('F',0,"",m.f)); break; case M::S: w.push_back(Ev('S',0,m.s)); break; case M::X: w.push_back(Ev('X',0,m.s)); break;
	case M::L: w.push_back(Ev('L',m.l.size())); for (size_t i=0;i<m.l.size();i++) calls(w,m.l[i]); w.push_back(Ev('l')); break;
	case M::O: w.push_back(Ev('O',m.o.size())); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { w.push_back(Ev('S',0,i->first)); calls(w,i->second); } w.push_back(Ev('o')); break; } }
static M gv() { GenP g(vp_param("KINDS",511),vp_param("W",2),1,1); g.keynonul=g.strnonul=true; g.imax=vp_param("IMAX",0); return gen(g,vp_param("D",2)); }
static void single(Emitter &e, std::vector<Ev> &w) {
	uint64_t n=vp_u64("n"); switch (pick("call",30)) {
	case 0: e << (char)n; w.push_back(Ev('I',(char)n)); break; case 1: e << (short)n; w.push_back(Ev('I',(short)n)); break; case 2: e << (int)n; w.push_back(Ev('I',(int)n)); break; case 3: e << (long)n; w.push_back(Ev('I',n)); break; case 4: e << (long long)n; w.push_back(Ev('I',n)); break;
	case 5: e << (unsigned char)n; w.push_back(Ev('U',(unsigned char)n)); break; case 6: e << (unsigned short)n; w.push_back(Ev('U',(unsigned short)n)); break; case 7: e << (unsigned)n; w.push_back(Ev('U',(unsigned)n)); break; case 8: e << (unsigned long)n; w.push_back(Ev('U',n)); break; case 9: e << (unsigned long long)n; w.push_back(Ev('U',n)); break;
	case 10: e << ((n&1)!=0); w.push_back(Ev('B',n&1)); break; case 11: e << 0.5f; w.push_back(Ev('F',0,"",0.5)); break; case 12: e << -2.25; w.push_back(Ev('F',0,"",-2.25)); break;
	case 13: { std::string s=symstrv("s",2,true); e << s; w.push_back(Ev('S',0,s)); break; } case 14: { std::string s=symstrv("s",2,true); e << s.c_str(); w.push_back(Ev('S',0,s)); break; }
	case 15: { std::string s=symstrv("s",2); ConstBlobPtr b=Blob::CreateCopy(s.data(),s.size()); e << b; w.push_back(Ev('X',0,s)); break; }
	case 16: { std::vector<int> l; unsigned k=pick("k",3); w.push_back(Ev('L',k)); for (unsigned i=0;i<k;i++) { int t=(int)vp_u32("t"); l.push_back(t); w.push_back(Ev('I',t)); } w.push_back(Ev('l')); e << l; break; }
	case 17: { std::map<std::string,unsigned> o; unsigned k=pick("k",3); w.push_back(Ev('O',k)); for (unsigned i=0;i<k;i++) { unsigned t=vp_u32("t"); std::string key(1,(char)('a'+i)); o[key]=t; w.push_back(Ev('S',0,key)); w.push_back(Ev('U',t)); } w.push_back(Ev('o')); e << o; break; }
	case 18: { std::vector<std::map<std::string,std::string> > l(1); std::string s=symstr("s",1); vp_assume(s[0]!=0); l[0]["k"]=s; e << l; w.push_back(Ev('L',1)); w.push_back(Ev('O',1)); w.push_back(Ev('S',0,"k")); w.push_back(Ev('S',0,s)); w.push_back(Ev('o')); w.push_back(Ev('l')); break; }
	case 19: e.BeginList(); w.push_back(Ev('L',-1)); e.EndList(); w.push_back(Ev('l')); break; case 20: e.BeginMap(); w.push_back(Ev('O',-1)); e.EndMap(); w.push_back(Ev('o')); break;
	case 21: { int k=(int)(n&0xffff); e.BeginList(k).EndList(); w.push_back(Ev('L',k)); w.push_back(Ev('l')); break; } case 22: { int k=(int)(n&0xffff); e.BeginMap(k).EndMap(); w.push_back(Ev('O',k)); w.push_back(Ev('o')); break; }
	case 23: e.EmitNull(); w.push_back(Ev('N')); break; case 24: e.EmitTrue().EmitFalse(); w.push_back(Ev('B',1)); w.push_back(Ev('B',0)); break; case 25: e.Emit((n&1)!=0); w.push_back(Ev('B',n&1)); break;
	case 26: e.Emit((intmax_t)n).Emit((uintmax_t)n); w.push_back(Ev('I',n)); w.push_back(Ev('U',n)); break; case 27: e.BeginDocument().EndDocument(); w.push_back(Ev('D')); w.push_back(Ev('d')); break;
	case 28: { M m(M::L); m.l.push_back(M::uns(n)); e << toV(m); calls(w,m); break; }
	case 29: { std::vector<Variant> l; l.push_back(Variant((long)n)); l.push_back(Variant()); e << l; w.push_back(Ev('L',2)); w.push_back(Ev('I',n)); w.push_back(Ev('N')); w.push_back(Ev('l')); break; } } }
// the value written through the streaming calls
static void put(Emitter &e, const M &m, bool len) { switch (m.t) {
	case M::N: e.EmitNull(); break; case M::B: e << (m.i!=0); break; case M::I: e << (long)m.i; break; case M::U: e << (unsigned long)m.i; break; case M::F: e << m.f; break; case M::S: e << m.s; break; case M::X: { ConstBlobPtr b=Blob::CreateCopy(m.s.data(),m.s.size()); e << b; break; }
	case M::L: if (len) e.BeginList(m.l.size()); else e.BeginList(); for (size_t i=0;i<m.l.size();i++) put(e,m.l[i],len); e.EndList(); break;
	case M::O: if (len) e.BeginMap(m.o.size()); else e.BeginMap(); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { e << i->first; put(e,i->second,len); } e.EndMap(); break; } }
static bool eqy(const YE &a, const YE &b) { return a.type==b.type && a.style==b.style && a.plain==b.plain && a.quoted==b.quoted && a.hasTag==b.hasTag && eqs(a.text,b.text) && eqs(a.tag,b.tag); }
extern "C" void vp_main() { switch (vp_param("CASE",0)) {
	case 0: params(); break;
	case 1: { Rec *r=new Rec; Emitter e((shared_ptr<EmitterImpl>(r))); std::vector<Ev> w; unsigned n=vp_param("N",1); for (unsigned i=0;i<n;i++) single(e,w); same(r->v,w); vp_assert(r->flushed==0 && r->closed==0,"flushed or closed on its own"); e.Flush(); vp_assert(r->flushed==1 && r->closed==0,"flush"); e.Close(); vp_assert(r->closed==1,"close"); vp_assert(e.GetImpl().get()==r,"implementation");
		Variant p; p["a"]=1; p["b"]="x"; e.SetParams(p); e.SetParam("c",Variant(true)); vp_assert(r->c.size()==3 && e.GetParam("b")==Variant("x") && e.GetParams().Size()==3 && e.GetParam("d").IsNull(),"parameters of the caller's emitter"); vp_reach("calls"); break; }
	case 2: { M m=gv(); Variant v=toV(m); Rec *r=new Rec; Emitter e((shared_ptr<EmitterImpl>(r))); e << v; std::vector<Ev> w; calls(w,m); same(r->v,w); vp_assert(same(m,v),"emitting changed the value"); vp_reach("value"); break; }
	case 3: { // text: streamed and serialized
		M m=gv(); bool len=pick("len",2); Variant p; if (pick("pretty",2)) { p["pretty"]=true; p["indent"]=1; } Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); { Emitter e=CreateEmitter(o,SERIALIZE_JSON,p); bool d=pick("document",2); if (d) e.BeginDocument(); put(e,m,len); if (d) e.EndDocument(); if (pick("close",2)) e.Close(); } std::string want=Serialize(toV(m),SERIALIZE_JSON,p); vp_assert(eqs(s->got,want),"streamed text differs"); obs(want); vp_reach("json"); break; }
	case 4: { M m=gv(); bool len=pick("len",2); Y a, b; y=&a; Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); { Emitter e=CreateEmitter(o,SERIALIZE_YAML); bool d=pick("document",2); if (d) e.BeginDocument(); put(e,m,len); if (d) e.EndDocument(); if (pick("close",2)) e.Close(); } y=&b; Serialize(toV(m),SERIALIZE_YAML); vp_assert(a.out.size()==b.out.size(),"other events"); for (size_t i=0;i<a.out.size();i++) vp_assert(eqy(a.out[i],b.out[i]),"streamed events differ"); vp_assert(a.emitters==0 && b.emitters==0,"emitter not released"); vp_reach("yaml"); break; }
	case 5: { M m=gv(); bool len=pick("len",2), d=pick("document",2); X a, b; x=&a; Sink *s=new Sink, *t=new Sink; shared_ptr<EmitterOutput> o(s), q(t); { Emitter e=CreateEmitter(o,SERIALIZE_XMLPLIST); if (d) e.BeginDocument(); put(e,m,len); if (d) e.EndDocument(); if (pick("close",2)) e.Close(); } x=&b; { Emitter e=CreateEmitter(q,SERIALIZE_XMLPLIST); if (d) e.BeginDocument(); e << toV(m); if (d) e.EndDocument(); e.Close(); } vp_assert(eqs(s->got,t->got),"streamed elements differ"); vp_assert(a.writers==0 && b.writers==0,"writer not released"); vp_reach("xml"); break; }
	} }
