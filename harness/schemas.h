// Schemas and data for validation, with a direct reading of the specification of JSON Schema draft 4.
#ifndef SCHEMAS_H
#define SCHEMAS_H
#include "model.h"
#include <Variant/Schema.h>
#include <regex.h>
#include <math.h>
extern "C" { int vp_opaque_numbers=1; }
typedef std::map<std::string,M>::const_iterator It;
static const M *key(const M &m, const char *k) { It i=m.o.find(k); return i==m.o.end()?0:&i->second; }
static bool num(const M &m) { return m.t==M::I||m.t==M::U||m.t==M::F; }
// exact comparison of numbers of any kind
static int cmp(const M &a, const M &b) {
	if (a.t!=M::F && b.t!=M::F) { bool an=a.t==M::I && a.i<0, bn=b.t==M::I && b.i<0; if (an!=bn) return an?-1:1; if (an) return a.i<b.i?-1:a.i>b.i; return (uint64_t)a.i<(uint64_t)b.i?-1:(uint64_t)a.i>(uint64_t)b.i; }
	long double x=a.t==M::F?(long double)a.f:a.t==M::I?(long double)a.i:(long double)(uint64_t)a.i, y=b.t==M::F?(long double)b.f:b.t==M::I?(long double)b.i:(long double)(uint64_t)b.i; return x<y?-1:x>y;
}
static bool jeq(const M &a, const M &b) {
	if (num(a) && num(b)) return cmp(a,b)==0;
	if (a.t!=b.t || a.l.size()!=b.l.size() || a.o.size()!=b.o.size()) return false;
	switch (a.t) { case M::N: return true; case M::B: return a.i==b.i; case M::S: return eqs(a.s,b.s); default: break; }
	for (size_t i=0;i<a.l.size();i++) if (!jeq(a.l[i],b.l[i])) return false;
	It x=a.o.begin(), y=b.o.begin(); for (;x!=a.o.end();++x,++y) if (!eqs(x->first,y->first) || !jeq(x->second,y->second)) return false;
	return true;
}
static bool multiple(const M &d, const M &m) {
	if (d.t!=M::F && m.t!=M::F) { uint64_t a=(uint64_t)d.i, b=(uint64_t)m.i; if (d.t==M::I && d.i<0) a=0-a; return a%b==0; }
	long double x=d.t==M::F?(long double)d.f:d.t==M::I?(long double)d.i:(long double)(uint64_t)d.i, y=m.t==M::F?(long double)m.f:m.t==M::I?(long double)m.i:(long double)(uint64_t)m.i; return fmodl(x,y)==0; // the values used are exact in binary
}
static bool type(const std::string &t, const M &d) {
	if (t=="null") return d.t==M::N; if (t=="boolean") return d.t==M::B; if (t=="integer") return d.t==M::I||d.t==M::U||(d.t==M::F && fmod(d.f,1)==0);
	if (t=="number") return num(d); if (t=="string") return d.t==M::S; if (t=="array") return d.t==M::L; return d.t==M::O;
}
static bool pat(const std::string &p, const std::string &s) { // the patterns used below
	if (p=="^a") return !s.empty() && s[0]=='a'; if (p=="b$") return !s.empty() && s[s.size()-1]=='b'; bool r=false; for (size_t i=0;i<s.size();i++) r|=s[i]>='0' && s[i]<='9'; return r; // [0-9]
}
static const M *root;
static const M &deref(const std::string &r) { if (r=="#") return *root; return key(*root,"definitions")->o.find(r.substr(14))->second; }
static unsigned depth;
static bool valid(const M &s, const M &d) {
	const M *k, *k2; if (s.t!=M::O) return true;
	if ((k=key(s,"$ref"))) { vp_assert(++depth<20,"reference recursion"); bool r=valid(deref(k->s),d); --depth; return r; }
	if ((k=key(s,"type"))) { bool ok=false; if (k->t==M::S) ok=type(k->s,d); else for (size_t i=0;i<k->l.size();i++) ok|=type(k->l[i].s,d); if (!ok) return false; }
	if ((k=key(s,"enum"))) { bool ok=false; for (size_t i=0;i<k->l.size();i++) ok|=jeq(k->l[i],d); if (!ok) return false; }
	if (num(d)) {
		if ((k=key(s,"multipleOf")) && !multiple(d,*k)) return false;
		if ((k=key(s,"minimum"))) { int c=cmp(d,*k); if (c<0) return false; k2=key(s,"exclusiveMinimum"); if (k2 && k2->i && c==0) return false; }
		if ((k=key(s,"maximum"))) { int c=cmp(d,*k); if (c>0) return false; k2=key(s,"exclusiveMaximum"); if (k2 && k2->i && c==0) return false; }
	}
	if (d.t==M::S) { if ((k=key(s,"minLength")) && d.s.size()<(uint64_t)k->i) return false; if ((k=key(s,"maxLength")) && d.s.size()>(uint64_t)k->i) return false; if ((k=key(s,"pattern")) && !pat(k->s,d.s)) return false; }
	if (d.t==M::L) {
		if ((k=key(s,"minItems")) && d.l.size()<(uint64_t)k->i) return false; if ((k=key(s,"maxItems")) && d.l.size()>(uint64_t)k->i) return false;
		if ((k=key(s,"uniqueItems")) && k->i) for (size_t i=0;i<d.l.size();i++) for (size_t j=0;j<i;j++) if (jeq(d.l[i],d.l[j])) return false;
		if ((k=key(s,"items"))) { if (k->t==M::O) { for (size_t i=0;i<d.l.size();i++) if (!valid(*k,d.l[i])) return false; }
			else for (size_t i=0;i<d.l.size();i++) { if (i<k->l.size()) { if (!valid(k->l[i],d.l[i])) return false; } else if ((k2=key(s,"additionalItems"))) { if (k2->t==M::B) { if (!k2->i) return false; } else if (!valid(*k2,d.l[i])) return false; } } }
	}
	if (d.t==M::O) {
		if ((k=key(s,"minProperties")) && d.o.size()<(uint64_t)k->i) return false; if ((k=key(s,"maxProperties")) && d.o.size()>(uint64_t)k->i) return false;
		if ((k=key(s,"required"))) for (size_t i=0;i<k->l.size();i++) { bool f=false; for (It e=d.o.begin();e!=d.o.end();++e) f|=eqs(e->first,k->l[i].s); if (!f) return false; }
		for (It e=d.o.begin();e!=d.o.end();++e) { bool hit=false;
			if ((k=key(s,"properties"))) for (It p=k->o.begin();p!=k->o.end();++p) if (eqs(p->first,e->first)) { hit=true; if (!valid(p->second,e->second)) return false; }
			if ((k=key(s,"patternProperties"))) for (It p=k->o.begin();p!=k->o.end();++p) if (pat(p->first,e->first)) { hit=true; if (!valid(p->second,e->second)) return false; }
			if (!hit && (k=key(s,"additionalProperties"))) { if (k->t==M::B) { if (!k->i) return false; } else if (!valid(*k,e->second)) return false; } }
		if ((k=key(s,"dependencies"))) for (It p=k->o.begin();p!=k->o.end();++p) { bool f=false; for (It e=d.o.begin();e!=d.o.end();++e) f|=eqs(e->first,p->first); if (!f) continue;
			if (p->second.t==M::O) { if (!valid(p->second,d)) return false; } else for (size_t i=0;i<p->second.l.size();i++) { bool g=false; for (It e=d.o.begin();e!=d.o.end();++e) g|=eqs(e->first,p->second.l[i].s); if (!g) return false; } }
	}
	if ((k=key(s,"allOf"))) for (size_t i=0;i<k->l.size();i++) if (!valid(k->l[i],d)) return false;
	if ((k=key(s,"anyOf"))) { bool ok=false; for (size_t i=0;i<k->l.size();i++) ok=ok||valid(k->l[i],d); if (!ok) return false; }
	if ((k=key(s,"oneOf"))) { unsigned n=0; for (size_t i=0;i<k->l.size();i++) n+=valid(k->l[i],d); if (n!=1) return false; }
	if ((k=key(s,"not"))) if (valid(*k,d)) return false;
	return true;
}
static void check(const M &s, const M &d); // given by the harness
static M number(const char *nm, unsigned kinds, bool small) { // kinds: 1 int, 2 unsigned, 4 float
	unsigned o[3], n=0; for (unsigned b=0;b<3;b++) if (kinds>>b&1) o[n++]=b; std::string kn(nm); kn+="?"; static const double T[]={0.5,-2.5,3.0,-4.0,1e10,-0.25};
	switch (o[n>1?pick(kn.c_str(),n):0]) { case 0: { uint64_t x=vp_u64(nm); if (small) vp_assume(x+100<=200); return M::num((int64_t)x); } case 1: { uint64_t x=vp_u64(nm); if (small) vp_assume(x<=100); return M::uns(x); } default: kn+="f"; return M::flt(T[pick(kn.c_str(),vp_param("NF",6))]); }
}
static M obj(const char *k, const M &v) { M m(M::O); m.o[k]=v; return m; }
static M strs(const char *a, const char *b=0) { M l(M::L); l.l.push_back(M::str(a)); if (b) l.l.push_back(M::str(b)); return l; }
static M flag(const char *n) { uint8_t b=vp_u8(n); vp_assume(b<2); return M::boolean(b); }
static M small(const char *n, unsigned max) { uint64_t x=vp_u64(n); vp_assume(x<=max); return M::num((int64_t)x); }
// a simple schema: nothing, a type, a range, negations
static M sub(const char *n) {
	switch (pick(n,5)) { case 0: return M(M::O); case 1: return obj("type",M::str("integer")); case 2: return obj("minimum",small("bound",9)); case 3: return obj("type",strs("string","null")); default: return obj("maximum",small("bound",9)); }
}
static M leaf(const char *n) { switch (pick(n,3)) { case 0: return small("value",9); case 1: return M::str("a"); default: return M(); } }
static void schemas() {
	{ SchemaLoader warm; }
	unsigned w=vp_param("W",2);
	switch (vp_param("CASE",0)) {
	case 0: { M s(M::O); unsigned use=pick("use",3)+1; unsigned kd=vp_param("KD",3); bool sm=vp_param("SMALL",0); if (use&1) { s.o["minimum"]=number("minimum",kd,sm); if (pick("xmin",2)) s.o["exclusiveMinimum"]=flag("exclusiveMinimum"); } if (use&2) { s.o["maximum"]=number("maximum",kd,sm); if (pick("xmax",2)) s.o["exclusiveMaximum"]=flag("exclusiveMaximum"); }
		check(s,number("data",kd,sm)); break; }
	case 1: { unsigned kd=vp_param("KD",3); M m=number("multipleOf",kd,true); vp_assume(m.t==M::F?m.f>0:m.i>0); M d=number("data",kd,true); if (kd>3) vp_assume(m.t==M::F || d.t==M::F); if (m.t==M::F || d.t==M::F) { if (m.t!=M::F) { vp_assume(m.i<=8); m.i=(int64_t)vp_fork(m.i); } if (d.t!=M::F) { vp_assume((uint64_t)d.i+8<=16); d.i=(int64_t)vp_fork(d.i); } } check(obj("multipleOf",m),d); break; }
	case 2: { M s(M::O); if (pick("min",2)) s.o["minLength"]=small("minLength",4); if (pick("max",2)) s.o["maxLength"]=small("maxLength",4); static const char *const P[]={"","^a","b$","[0-9]"}; unsigned p=pick("pattern",4); if (p) s.o["pattern"]=M::str(P[p]); check(s,M::str(symstrv("text",vp_param("N",3),true))); break; }
	case 3: { M s(M::O), d(M::L); unsigned what=pick("what",5); unsigned n=pick("n",w+2);
		switch (what) { case 0: s.o["minItems"]=small("minItems",4); break; case 1: s.o["maxItems"]=small("maxItems",4); break; case 2: s.o["uniqueItems"]=flag("uniqueItems"); break;
		case 3: s.o["items"]=sub("items"); s.o["additionalItems"]=M::boolean(false); break;
		case 4: { M l(M::L); unsigned k=pick("listed",w+1); for (unsigned i=0;i<k;i++) l.l.push_back(sub("item")); s.o["items"]=l; unsigned a=pick("additional",3); if (a==1) s.o["additionalItems"]=flag("additionalItems"); if (a==2) s.o["additionalItems"]=sub("rest"); break; } }
		for (unsigned i=0;i<n;i++) d.l.push_back(leaf("leaf")); check(s,d); break; }
	case 4: { M s(M::O), d(M::O); unsigned what=pick("what",vp_param("WHAT",5)); unsigned n=pick("n",w+1); std::string last;
		for (unsigned i=0;i<n;i++) { std::string k=symstr("key",1); vp_assume(k[0]!=0); if (i) vp_assume(last<k); last=k; d.o[k]=vp_param("LEAF",0)?small("value",9):M::num(i); }
		switch (what) { case 0: s.o["minProperties"]=small("minProperties",3); break; case 1: s.o["maxProperties"]=small("maxProperties",3); break; case 2: s.o["required"]=pick("two",2)?strs("a","b"):strs("b"); break;
		case 3: { M dep(M::O); unsigned k=pick("dep",2); if (k==0) dep.o["a"]=strs("b","c"); else { dep.o["a"]=obj("required",strs("b")); } if (pick("more",2)) dep.o["c"]=obj("maxProperties",M::num(1)); s.o["dependencies"]=dep; break; }
		default: { unsigned u=pick("use",8); if (u&1) { M p(M::O); p.o["a"]=sub("property"); p.o["1"]=M(M::O); s.o["properties"]=p; } if (u&2) { M p(M::O); p.o["^a"]=obj("minimum",small("bound",9)); p.o["[0-9]"]=obj("maximum",small("bound",9)); s.o["patternProperties"]=p; } if (u&4) s.o["additionalProperties"]=pick("flag",2)?flag("additionalProperties"):obj("minimum",small("bound",9)); break; } }
		check(s,d); break; }
	case 5: { static const char *const K[]={"allOf","anyOf","oneOf","not"}; unsigned k=pick("combinator",4); M s(M::O); if (k<3) { M l(M::L); unsigned n=vp_param("NSUB",2); for (unsigned i=0;i<n;i++) l.l.push_back(sub("sub")); s.o[K[k]]=l; } else s.o["not"]=sub("sub");
		if (vp_param("NEST",0)) { switch (pick("nest",5)) { case 0: s=obj("not",s); break; case 1: { M l(M::L); l.l.push_back(s); l.l.push_back(sub("outer")); s=obj("oneOf",l); break; } case 2: s=obj("items",s); break; case 3: s=obj("additionalProperties",s); break; default: { M l(M::L); l.l.push_back(s); s=obj("anyOf",l); s.o["type"]=M::str("integer"); break; } } }
		M d=leaf("leaf"); if (vp_param("NEST",0)) { unsigned u=pick("wrap",3); if (u==1) { M l(M::L); l.l.push_back(d); d=l; } else if (u==2) d=obj("k",d); } check(s,d); break; }
	case 6: { static const char *const T[]={"null","boolean","integer","number","string","array","object"}; M s(M::O); if (pick("list",2)) s.o["type"]=strs(T[pick("t1",7)],T[pick("t2",7)]); else s.o["type"]=M::str(T[pick("t1",7)]); GenP g(G_NULL|G_BOOL|G_INT|G_UNS|G_FLT|G_STR|G_LIST|G_MAP,1); g.keyfixed=true; M d; unsigned k=pick("data",3); if (k==0) d=gen(g,0); else d=M(k==1?M::L:M::O); check(s,d); break; }
	case 7: { GenP g(vp_param("KINDS",G_NULL|G_BOOL|G_INT|G_UNS|G_STR),1); g.keyfixed=true; g.strnonul=true; M l(M::L); for (unsigned i=0;i<w;i++) l.l.push_back(gen(g,vp_param("D",0))); check(obj("enum",l),gen(g,vp_param("D",0))); break; }
	case 8: { GenP g(vp_param("KINDS",G_NULL|G_BOOL|G_INT|G_UNS|G_STR),1); g.keyfixed=true; M d(M::L); for (unsigned i=0;i<w;i++) d.l.push_back(gen(g,vp_param("D",0))); check(obj("uniqueItems",M::boolean(true)),d); break; }
	case 9: { M s(M::O), defs(M::O); defs.o["x"]=sub("definition"); s.o["definitions"]=defs; M r=obj("$ref",M::str("#/definitions/x")); M p(M::O); p.o["a"]=r; p.o["b"]=obj("$ref",M::str("#")); s.o["properties"]=p; M d=leaf("leaf"); d=obj("a",d); if (pick("nested",2)) { M o=obj("a",leaf("leaf")); o.o["b"]=d; d=o; } check(s,d); break; }
	}
}
#endif
