// URI splitting and reference resolution (RFC 3986).
#include "uri.h"
#include <Variant/Schema.h>
static std::string over(const char *name, unsigned n, const char *alpha) { std::string s=symstrv(name,n); for (unsigned i=0;i<s.size();i++) { bool in=false; for (const char *c=alpha;*c;c++) in|=s[i]==*c; vp_assume(in); } return s; }
static void checkSplit(const std::string &s) {
	SchemaLoader::URIInfo f; bool ok=SchemaLoader::ParseURI(f,s);
	size_t k=0; while (k<s.size() && sp(s[k])) ++k;
	std::string t=s.substr(k); Uri u=split(t); bool bad=false; size_t he=u.hash.size(); if (he) { while (sp(u.hash[he-1])) --he; for (size_t i=0;i<he;i++) if (sp(u.hash[i])) bad=true; u.hash=u.hash.substr(0,he); }
	vp_assert(ok!=bad,bad?"a fragment with blanks was accepted":"a URI was refused"); if (!ok) { vp_reach("refused"); return; }
	vp_assert(eq(f.protocol+f.authority+f.pathname+f.search+f.hash,u.all()),"the parts do not make up the URI");
	obs(f.protocol); obs(f.authority); obs(f.pathname);
	vp_assert(eq(f.protocol,u.proto),"wrong scheme"); vp_assert(eq(f.search,u.search),"wrong query"); vp_assert(eq(f.hash,u.hash),"wrong fragment");
	if (authok(u.auth)) { vp_assert(eq(f.authority,u.auth),"wrong authority"); vp_assert(eq(f.pathname,u.path),"wrong path"); vp_reach(u.auth.empty()?"no-authority":"authority"); } else vp_reach("odd-authority");
}
static void checkResolve(const std::string &b, const std::string &r) {
	Uri ub=split(b), ur=split(r); vp_assume(authok(ub.auth) && authok(ur.auth)); std::string e; vp_assume(resolve(ub,ur,e)); std::string got=SchemaLoader::ResolveURI(b,r); obs(got); vp_assert(eq(got,e),"wrong result"); vp_reach("resolved");
}
extern "C" void vp_main() {
	unsigned n=vp_param("N",4);
	switch (vp_param("CASE",0)) {
	case 0: checkSplit(symstrv("uri",n,true)); break;
	case 1: { static const char *const P[]={"x://","//a@","//u:p@h","x:/","?"}; checkSplit(P[pick("prefix",5)]+symstrv("uri",n,true)); break; }
	case 2: { std::string b="x:/"+over("base",vp_param("NB",3),"a./"); checkResolve(b,over("ref",n,"a./")); break; }
	case 3: { static const char *const BA[]={"","//h","//u@h:1"}, *const BP[]={"","/","/a","/a/","/a/b"}, *const RP[]={"","/","g","/g","g/h","./g","../g","."}; std::string q=over("letters",0,""); (void)q;
		std::string c=symstr("byte",4); for (unsigned i=0;i<4;i++) vp_assume((c[i]>='a' && c[i]<='z') || c[i]=='@' || c[i]=='.' );
		std::string b=std::string("s:")+BA[pick("ba",3)]+BP[pick("bp",5)]; if (pick("bq",2)) b+="?"+c.substr(0,1); if (pick("bh",2)) b+="#"+c.substr(1,1);
		static const char *const RS[]={"","t:"}, *const RA[]={"","//k"}; std::string r=std::string(RS[pick("rs",2)])+RA[pick("ra",2)]+RP[pick("rp",8)]; if (pick("rq",2)) r+="?"+c.substr(2,1); if (pick("rh",2)) r+="#"+c.substr(3,1);
		checkResolve(b,r); break; }
	case 4: { std::string b=symstrv("base",n,true), r=symstrv("ref",vp_param("NR",2),true); std::string got=SchemaLoader::ResolveURI(b,r); vp_observe(got.size()); vp_reach("total"); break; } // any text: no failure
	}
}
