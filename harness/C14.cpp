// Bundle header: round trip within the character restrictions, any bytes handled safely.
#include "scal.h"
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
static std::string key(unsigned n) { std::string k=symstr("key",n); for (unsigned i=0;i<n;i++) vp_assume(k[i]!=0 && k[i]!=':' && k[i]!='#' && !blank(k[i])); return k; }
static std::string text(unsigned n) { std::string s=symstr("str",n); for (unsigned i=0;i<n;i++) vp_assume(s[i]!=0 && s[i]!='\n' && s[i]!='#' && s[i]!='|'); vp_assume(!blank(s[0]) && !blank(s[n-1])); return s; }
static M scalar() {
	switch (pick("kind",5)) {
	case 0: { uint64_t x=vp_u64("int"); uint64_t m=vp_param("IMAX",1000); vp_assume(x+m<=2*m); return M::num((int64_t)x); }
	case 1: { uint64_t x=vp_u64("uns"); vp_assume(x<=vp_param("IMAX",1000)); return M::uns(x); }
	case 2: { static const double T[]={0.5,-2.25,1e300,3.0,0.1,1e-7,123456789.125}; return M::flt(T[pick("flt",7)]); }
	case 3: return M::boolean(pick("bool",2));
	default: { std::string s=text(1+pick("len",vp_param("S",2))); vp_assume(kind(s)=='s'); return M::str(s); }
	}
}
static M read(const M &m) { if (m.t==M::B) return M::num(m.i); if (m.t==M::L) { M r(M::L); for (size_t i=0;i<m.l.size();i++) r.l.push_back(read(m.l[i])); return r; } return m; } // booleans are stored as 0 and 1
static void feed(const std::string &t) {
	char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size());
	try { Variant v=Deserialize(b,t.size(),SERIALIZE_BUNDLEHDR); obsV(v); vp_assert(v.IsMap() || (v.IsNull() && t.empty()),"not a map"); if (v.IsMap() && v.Size()) vp_reach("entries"); else vp_reach("empty"); } catch (const std::exception &) { vp_observe(77); vp_reach("refused"); }
	free(b);
}
static std::string blanks(const char *name) { static const char *const B[]={""," ","\t"," \r"}; return B[pick(name,4)]; }
// an input that hands out exactly what is asked for
struct Exact : ParserInput { std::string t; unsigned at, first; Exact(const std::string &s, unsigned f) : t(s), at(0), first(f) {} const void *GetPtr(unsigned &n) { unsigned w=n?n:first; if (w>t.size()-at) w=t.size()-at; n=w; return w?t.data()+at:0; } void Release(unsigned n) { vp_assert(n<=t.size()-at,"released more than there is"); at+=n; } };
static Variant readExact(const std::string &t, unsigned first) { Parser p=CreateParser(shared_ptr<ParserInput>(new Exact(t,first)),SERIALIZE_BUNDLEHDR); return ParseVariant(p); }
extern "C" void vp_main() {
	unsigned n=vp_param("N",4);
	switch (vp_param("CASE",0)) {
	case 0: { // round trip
		M m(M::O), want(M::O); unsigned w=pick("entries",vp_param("W",1)+1); std::string last;
		for (unsigned i=0;i<w;i++) { std::string k=key(1+pick("klen",vp_param("K",2))); if (i) vp_assume(last<k); last=k;
			if (pick("list",2)) { M l(M::L); unsigned c=pick("width",vp_param("LW",2)+1); for (unsigned j=0;j<c;j++) l.l.push_back(scalar()); m.o[k]=l; want.o[k]=read(l); }
			else { M s=scalar(); m.o[k]=s; want.o[k]=read(s); } }
		std::string t=Serialize(toV(m),SERIALIZE_BUNDLEHDR); obs(t);
		char *b=(char*)malloc(t.size()); memcpy(b,t.data(),t.size()); Variant v=Deserialize(b,t.size(),SERIALIZE_BUNDLEHDR); free(b);
		vp_assert(same(want,v,true),"header read back differently"); vp_reach("round-trip"); break; }
	case 1: feed(symstrv("text",n)); break;
	case 2: { static const char *const P[]={"a: ","a:1|","a:x#","  k :","a\n","bundle.version: ","a: |","a:1\nb: 2"}; feed(P[pick("prefix",8)]+symstr("text",n)); break; }
	case 3: { // layout of a line
		std::string k=key(1), v=text(n), t; vp_assume(kind(v)=='s'); if (pick("before",2)) t="# comment\n\nbundle.version: 9\n";
		t+=blanks("b1")+k+blanks("b2")+":"+blanks("b3")+v+blanks("b4"); if (pick("comment",2)) { std::string c=symstr("note",2); vp_assume(c[0]!='\n' && c[1]!='\n'); t+="#"+c; } t+="\n";
		if (pick("more",2)) t+="z9:7\n"; vp_assume(k!="z");
		Variant r=Deserialize(t,SERIALIZE_BUNDLEHDR); obsV(r); vp_assert(r.IsMap() && r.Contains(k) && r.At(k).IsString() && eqs(r.At(k).AsString(),v),"line read differently"); vp_reach("line"); break; }
	case 4: { // long lines and many entries, across the read-ahead step
		unsigned fill=vp_param("FILL",4090)+pick("fill",8); std::string s=text(n); vp_assume(kind(s)=='s'); std::string t="a: "+std::string(fill,'x')+s+"y\nb: 2\n"; Variant r=pick("exact",2)?readExact(t,pick("first",2)?1:4096):Deserialize(t,SERIALIZE_BUNDLEHDR);
		vp_assert(r.Size()==2 && eqs(r.At("a").AsString(),std::string(fill,'x')+s+"y") && r.At("b").AsInt()==2,"long line"); vp_reach("long"); break; }
	case 5: { // what the format cannot hold is refused
		Variant v(Variant::MapType); unsigned w=pick("what",4);
		if (w==0) v["a"]["b"]=1; else if (w==1) v["a"]=Blob::CreateCopy("x",1); else if (w==2) v=5; else { Variant l(Variant::ListType), i(Variant::ListType); i.Append(1); l.Append(i); v["a"]=l; }
		bool th=false; try { Serialize(v,SERIALIZE_BUNDLEHDR); } catch (const std::exception &) { th=true; } vp_assert(th,"accepted what the format cannot hold"); vp_reach("refused"); break; }
	case 6: { // integers at the limits of 64 bits, written and read back
		uint64_t n=vp_param("SPAN",99), off=vp_u8("offset"); vp_assume(off<=n); unsigned w=pick("where",5); Variant v; M m; switch (w) { case 0: m=M::uns(~(uint64_t)0-off); break; case 1: m=M::uns(((uint64_t)1<<63)-n/2+off); break; case 2: m=M::num(INT64_MAX-(int64_t)off); break; case 3: m=M::num(INT64_MIN+(int64_t)off); break; default: m=M::num((int64_t)off-(int64_t)(n/2)); break; }
		Variant d(Variant::MapType); d["a"]=toV(m); d["b"]=Variant(Variant::ListType); d["b"].Append(toV(m)); d=Deserialize(Serialize(d,SERIALIZE_BUNDLEHDR),SERIALIZE_BUNDLEHDR); v=d["a"]; vp_assert(d["b"].IsList() && d["b"].Size()==1 && d["b"][0u]==v,"the same number in a list differs"); vp_assert(v.IsNumber(),"integer is not a number"); if (w<2) vp_assert(v.AsUnsigned()==(uint64_t)m.i && v>Variant(0),"unsigned integer read back differs"); else vp_assert(v.AsInt()==m.i && (w==2?v>Variant(0):w==3?v<Variant(0):true),"integer read back differs"); vp_reach("limits"); break; }
	}
}
