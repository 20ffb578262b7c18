// JSON acceptance and meaning, against an independent reader.
#include "jref.h"
static void decide(const std::string &t, bool nobig=true) {
	M m; JRef r(t,true); bool want=r.document(m); if (nobig) vp_assume(!r.big);
	Variant v; bool ok=false; try { v=Deserialize(t.data(),t.size(),SERIALIZE_JSON); ok=true; } catch (const std::exception &) {}
	vp_assert(!ok || want,"malformed JSON accepted"); vp_assert(ok || !want,"well-formed JSON rejected");
	if (ok) { vp_assert(sameJ(m,v),"JSON text read as a different value"); obsV(v); vp_reach("accepted"); } else { vp_observe(7); vp_reach("rejected"); }
}
static bool in(unsigned char c, const char *set) { unsigned r=0; for (;*set;set++) r|=c==(unsigned char)*set; return r; }
// the known leniency: digits may be missing after the decimal point
static void nodot(const std::string &t) { for (size_t i=0;i<t.size();i++) if (t[i]=='.') vp_assume(i+1<t.size() && (unsigned char)(t[i+1]-'0')<10); }
static std::string symset(const char *nm, unsigned n, const char *set) { std::string s=symstr(nm,n); for (unsigned i=0;i<n;i++) vp_assume(in((unsigned char)s[i],set)); return s; }
extern "C" void vp_main() {
	unsigned n=vp_param("N",4);
	switch (vp_param("CASE",0)) {
	case 0: { std::string t=symstrv("text",n); nodot(t); decide(t); break; }
	case 1: { std::string t="[\""+symstr("text",n)+"\"]"; nodot(t); decide(t); break; }
	case 2: decide("[\"\\u"+symstr("hex",4)+"\"]"); break;
	case 3: { std::string a=symstr("hi",4), b=symstr("lo",4); if (vp_param("D",1)) vp_assume(a[0]=='d' && b[1]!='f' && a[3]<'A' && b[3]<'A' && b[2]<'A'); decide("[\"\\u"+a+"\\u"+b+"\"]"); break; }
	case 4: { std::string t="["+symset("num",n,"0129-+.eE, ")+"]"; nodot(t); decide(t); break; }
	case 5: decide(symset("text",n,"{}[],:\"1a")); break;
	case 6: decide("{\""+symstr("k1",1)+"\":"+symstr("v1",1)+",\""+symstr("k2",1)+"\":"+symstr("v2",1)+"}"); break;
	case 7: { std::string p; static const char *const P[]={"[","[1","[1,","{","{\"a\"","{\"a\":","{\"a\":1","{\"a\":1,","","[tru","[0e1","[true","[nul","[1.5"}; p=P[pick("where",14)]; static const char *const Q[]={"]","1]","}","\"b\":2}",":1}","e]",",2]","l]"}; unsigned k=pick("tail",8); decide(p+"/"+symset("comment",n,"*/ x\n")+Q[k]); break; }
	case 8: { unsigned k=vp_param("DIG",18); bool neg=pick("neg",2); std::string d=symset("d",k,"0123456789"); decide(std::string("[")+(neg?"-":"")+d+"]"); break; }
	case 9: { std::string d=symstr("c",1); decide("["+std::string(1,"tfn"[pick("w",3)])+symstr("w",n)+"]"); break; }
	case 10: { std::string t="["+symset("num",n,"01.")+"]"; decide(t); break; } // finding: missing digits after the point
	case 11: { std::string d=symset("d",20,"0123456789"); vp_assume(d[0]>='2'); decide("["+d+"]",false); break; } // finding: integers beyond 64 bits
	}
}
