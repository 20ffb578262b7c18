// JSON round trip.
#include "model.h"
static Variant layout() { Variant p; if (pick("pretty",2)) { p["pretty"]=true; static const int I[]={0,1,4,65,129,300}; p["indent"]=I[pick("indent",vp_param("IND",6))]; } return p; }
static void trip(const M &m, const Variant &p) {
	Variant v=toV(m); std::string t=Serialize(v,SERIALIZE_JSON,p); Variant w; 
	switch (pick("via",vp_param("VIA",1))) { case 0: w=Deserialize(t,SERIALIZE_JSON); break; case 1: { std::vector<char> b(t.size()); unsigned n=Serialize(&b[0],b.size(),v,SERIALIZE_JSON,p); vp_assert(n==t.size() && memcmp(&b[0],t.data(),n)==0,"memory output differs"); w=Deserialize(&b[0],n,SERIALIZE_JSON); break; } default: w=DeserializeJSON(SerializeJSON(v,false)); }
	vp_assert(same(m,w,true),"value after round trip"); vp_assert(v==w && w==v,"value after round trip compares different"); obs(t); obsV(w);
}
static const double FT[]={0.0,-0.0,1.0,-1.0,0.1,0.5,1e15,1e16,12345678901234567.0,1e17,1e22,1.7976931348623157e308,4.9406564584124654e-324,2.2250738585072014e-308,-123456.789,1e-5,0.0001,3.0e100,9007199254740993.0,123456789.123456789};
extern "C" void vp_main() { switch (vp_param("CASE",0)) {
	case 0: { GenP g(vp_param("KINDS",511),vp_param("W",1),1,1); g.keynonul=g.strnonul=true; g.imax=vp_param("IMAX",9); M m=gen(g,vp_param("D",2)); vp_assume(m.cont()); trip(m,vp_param("LAY",1)?layout():Variant()); vp_reach("value"); break; }
	case 1: { std::string s=symstrv("s",vp_param("N",3),true); M m(M::L); m.l.push_back(M::str(s)); trip(m,Variant()); M k(M::O); k.o[s]=M::boolean(true); trip(k,Variant()); vp_reach("string"); break; }
	case 2: { M m(M::L); bool u=pick("unsigned",2); uint64_t x=vp_u64("int"); unsigned b=vp_param("BITS",64); if (b<64) { bool top=pick("top",3)==0; if (top) vp_assume(~x<(1ull<<b)); else vp_assume(x<(1ull<<b)); } m.l.push_back(u?M::uns(x):M::num((int64_t)x)); trip(m,Variant()); vp_reach("int"); break; }
	case 3: { M m(M::O); m.o["f"]=M::flt(FT[pick("flt",20)]); trip(m,layout()); vp_reach("float"); break; }
	case 4: { std::string s=symstrv("s",vp_param("N",5)); M m(M::L); m.l.push_back(M::blob(s)); trip(m,Variant()); vp_reach("blob"); break; }
	case 5: { unsigned n=vp_param("FROM",500)+pick("len",vp_param("RANGE",20)); std::string s(n,'q'); s+=symstr("s",2); vp_assume(s[n]!=0 && s[n+1]!=0); s+="zz"; M m(M::L); m.l.push_back(M::str(s)); m.l.push_back(M::num(-1)); trip(m,Variant()); vp_reach("big"); break; }
	case 6: { unsigned n=3490+pick("len",12); std::string s(n,'q'); s+=symstr("s",2); vp_assume(s[n]!=0 && s[n+1]!=0); M m(M::L); m.l.push_back(M::str(s)); trip(m,Variant()); vp_reach("huge"); break; }
	case 7: { unsigned d=vp_param("FROM",126)+pick("deep",6); M x=M::str(symstrv("s",1,true)); for (unsigned i=0;i<d;i++) { M l(i%2?M::L:M::O); if (i%2) l.l.push_back(x); else l.o["k"]=x; x=l; } trip(x,Variant()); vp_reach("deep"); break; }
	} }
