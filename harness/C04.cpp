// Emitted JSON, read by an independent RFC 8259 reader.
#include "jref.h"
#include <math.h>
static std::string b64(const std::string &s) {
	static const char A[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r;
	for (size_t i=0;i<s.size();i+=3) { unsigned v=(unsigned char)s[i]<<16; if (i+1<s.size()) v|=(unsigned char)s[i+1]<<8; if (i+2<s.size()) v|=(unsigned char)s[i+2]; r+=A[v>>18]; r+=A[v>>12&63]; r+=i+1<s.size()?A[v>>6&63]:'='; r+=i+2<s.size()?A[v&63]:'='; }
	return r;
}
static bool strictsame(const M &want, const M &got) {
	switch (want.t) {
	case M::F: { if (want.f!=want.f || want.f-want.f!=0) return got.t==M::N; return got.t==M::F && strtod(got.s.c_str(),0)==want.f; }
	case M::X: return got.t==M::S && eqs(got.s,std::string("\0BLOB",5)+b64(want.s));
	case M::I: return want.i<0?got.t==M::I && got.i==want.i:(got.t==M::U||got.t==M::I) && got.i==want.i;
	case M::U: return got.t==M::U && got.i==want.i;
	case M::L: if (got.t!=M::L || got.l.size()!=want.l.size()) return false; for (size_t i=0;i<want.l.size();i++) if (!strictsame(want.l[i],got.l[i])) return false; return true;
	case M::O: { if (got.t!=M::O || got.o.size()!=want.o.size()) return false; std::map<std::string,M>::const_iterator a=want.o.begin(), b=got.o.begin(); for (;a!=want.o.end();++a,++b) if (!eqs(a->first,b->first) || !strictsame(a->second,b->second)) return false; return true; }
	default: return same(want,got); }
}
static void check(const M &m, const Variant &params) {
	Variant v=toV(m); std::string t=Serialize(v,SERIALIZE_JSON,params); JRef r(t,false); M got; bool ok=r.value(got);
	vp_assert(ok,"emitted text is not JSON"); vp_assert(r.blank() && r.p==t.size(),"emitted text has bytes after the document"); vp_assert(strictsame(m,got),"emitted JSON means another value");
	bool low=false; for (size_t i=0;i<t.size();i++) low|=(unsigned char)t[i]<0x20 && t[i]!='\n'; vp_assert(!low,"raw control character emitted");
	if (!(params.IsMap() && params.Get("pretty",Variant(false)).AsBool())) { bool nl=false; for (size_t i=0;i<t.size();i++) nl|=t[i]=='\n'; vp_assert(!nl,"line break in compact output"); }
	vp_assert(same(m,v)||m.t==M::F,"serializing changed the value"); obs(t);
}
static Variant layout() { Variant p; if (pick("pretty",2)) { p["pretty"]=true; static const int I[]={0,1,4,65,129,300}; p["indent"]=I[pick("indent",vp_param("IND",6))]; } return p; }
static const double FT[]={0.0,-0.0,1.0,-1.0,0.1,0.5,1e15,1e16,12345678901234567.0,99999999999999984.0,1e17,1e22,1.7976931348623157e308,4.9406564584124654e-324,2.2250738585072014e-308,-123456.789,1e-5,0.0001,3.0e100,9007199254740993.0};
static void floats() { Variant p; unsigned k=pick("prec",5); static const int P[]={17,1,2,5,30}; if (k) p["precision"]=P[k]; double d=FT[pick("flt",20)]; M m(M::L); m.l.push_back(M::flt(d)); Variant v=toV(m); std::string t=Serialize(v,SERIALIZE_JSON,p); JRef r(t,false); M got; vp_assert(r.value(got) && r.p==t.size() && got.l.size()==1 && got.l[0].t==M::F,"emitted float is not a JSON number with a fraction"); double e=strtod(got.l[0].s.c_str(),0); if (P[k]>=17) vp_assert(e==d,"emitted float reads back differently"); else if (d<1e308) vp_assert(d==0?e==0:fabs(e-d)<=fabs(d)*0.5,"emitted float is far off"); obs(t); vp_reach("float"); }
static void strict() { Variant p; p["strict"]=true; M m(M::L); static const double B[]={NAN,INFINITY,-INFINITY}; unsigned k=pick("what",6); if (k<3) m.l.push_back(M::flt(B[k])); else if (k==3) m.l.push_back(M::blob(symstrv("b",2))); else if (k==4) m.l.push_back(M::flt(0.5)); else { GenP g(G_NULL|G_BOOL|G_INT|G_UNS); g.imax=999; m.l.push_back(gen(g,0)); }
	bool thrown=false; std::string t; try { t=Serialize(toV(m),SERIALIZE_JSON,p); } catch (const std::exception &) { thrown=true; } vp_assert(thrown==(k<4),"strict mode verdict"); if (k<4) { if (k<3) { Variant q; t=Serialize(toV(m),SERIALIZE_JSON,q); vp_assert(t=="[null]","non-finite number outside strict mode"); } vp_reach("refused"); } else { check(m,p); vp_reach("strict-ok"); } }
// texts crossing the emitter's internal buffers
static void big() { M m(M::L); unsigned k=pick("shape",3); if (k==0) { unsigned n=vp_param("FROM",500)+pick("len",vp_param("RANGE",16)); m.l.push_back(M::str(std::string(n,'q')+symstr("s",2)+"zz")); m.l.push_back(M::num(-1)); vp_assume(m.l[0].s[n]!=0 && m.l[0].s[n+1]!=0); } else if (k==1) { unsigned n=93+pick("len",8); std::string s(n,'b'); s[n/2]=symstr("b",1)[0]; m.l.push_back(M::str(std::string(vp_param("PRE",380)+pick("pre",4)*2,'p'))); m.l.push_back(M::blob(s)); m.l.push_back(M()); } else { unsigned d=1+pick("deep",3); M x=M::str(symstrv("s",1,true)); for (unsigned i=0;i<d*10;i++) { M l(i%2?M::L:M::O); if (i%2) l.l.push_back(x); else l.o["k"]=x; x=l; } m=x; }
	check(m,k==2?layout():Variant()); vp_reach("big"); }
extern "C" void vp_main() { switch (vp_param("CASE",0)) {
	case 0: { GenP g(vp_param("KINDS",511),vp_param("W",2),1,1); g.keynonul=g.strnonul=true; g.imax=vp_param("IMAX",9); M m=gen(g,vp_param("D",1)); check(m,vp_param("LAY",1)?layout():Variant()); vp_reach("value"); break; }
	case 1: { std::string s=symstrv("s",vp_param("N",3),true); M m(M::L); m.l.push_back(M::str(s)); check(m,Variant()); vp_reach("string"); M k(M::O); k.o[s]=M::num(1); check(k,Variant()); break; }
	case 2: floats(); break; case 3: strict(); break; case 4: big(); break; } }
