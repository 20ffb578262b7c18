// Recursive difference and update, path flattening and expansion.
#include "model.h"
#include <Variant/Extensions.h>
#include <stdio.h>
static bool has(const M &m, const std::string &k, const M **r) { for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) if (eqs(i->first,k)) { *r=&i->second; return true; } return false; }
typedef std::map<std::string,M>::const_iterator It;
static void upd(M &b, const M &u) { // null means no change, maps merge, everything else replaces
	if (u.t==M::N) return;
	if (u.t!=M::O || b.t!=M::O) { b=u; return; }
	for (It i=u.o.begin();i!=u.o.end();++i) { if (i->second.t==M::N) continue; const M *c; if (!has(b,i->first,&c)) { M n(M::O); upd(n,i->second); b.o[i->first]=n; } else upd(*const_cast<M*>(c),i->second); }
}
static M diff(const M &b, const M &t) { // entries of t that are not equal in b, both maps without null or empty maps
	M d(M::O); for (It i=t.o.begin();i!=t.o.end();++i) { const M *c; if (!has(b,i->first,&c)) { d.o[i->first]=i->second; continue; }
		if (c->t==M::O && i->second.t==M::O) { M s=diff(*c,i->second); if (!s.o.empty()) d.o[i->first]=s; } else if (!same(*c,i->second)) d.o[i->first]=i->second; }
	return d;
}
static bool plain(const M &m, bool top=true) { if (m.t==M::N) return false; if (m.t==M::O) { if (!top && m.o.empty()) return false; for (It i=m.o.begin();i!=m.o.end();++i) if (!plain(i->second,false)) return false; } return true; }
static std::string num_(unsigned i) { char b[16]; snprintf(b,sizeof b,"%u",i); return b; }
struct P { std::string pre, del, ip, is; bool simple; };
static bool simple(const M &m) { for (size_t i=0;i<m.l.size();i++) if (m.l[i].cont()) return false; return true; }
static void flat(M &f, const M &m, const P &p, const std::string &at) {
	if (m.t==M::L && !(p.simple && simple(m))) { for (unsigned i=0;i<m.l.size();i++) flat(f,m.l[i],p,at+p.ip+num_(i)+p.is); }
	else if (m.t==M::O) { for (It i=m.o.begin();i!=m.o.end();++i) flat(f,i->second,p,(at.empty()?p.pre:at+p.del)+i->first); }
	else if (at.empty()) f=m;
	else { if (f.t!=M::O) f=M(M::O); const M *c; if (has(f,at,&c)) *const_cast<M*>(c)=m; else f.o[at]=m; }
}
static bool alpha(char c) { c|=32; return c>='a' && c<='z'; }
static void letters(const M &m) { for (It i=m.o.begin();i!=m.o.end();++i) { vp_assume(alpha(i->first[0])); letters(i->second); } }
extern "C" void vp_main() {
	GenP g(vp_param("KINDS",G_INT|G_LIST|G_MAP),vp_param("W",2),1,vp_param("KL",1)); g.keynonul=true; g.keyfixed=vp_param("KEYS",0); unsigned dep=vp_param("D",1);
	switch (vp_param("CASE",0)) {
	case 0: { // update
		M b=gen(g,dep), u=gen(g,dep), e(b); upd(e,u); Variant vb=toV(b), vu=toV(u), uc=vu.Copy(); RUpdate(vb,vu); obsV(vb); vp_assert(same(e,vb),"wrong update"); vp_assert(vu==uc,"the update itself was changed");
		if (vb.IsMap()) { for (Variant::MapIterator i=vb.MapBegin();i!=vb.MapEnd();++i) if (i->second.IsList()) i->second.Append(7); else if (i->second.IsMap()) i->second.Set("new",7); vb.Set("more",1); } else if (vb.IsList()) vb.Append(7);
		vp_assert(same(u,vu),"base and update share a value"); vp_reach("updated"); break; }
	case 1: { // difference between two maps
		M b(M::O), t(M::O); unsigned nb=pick("nb",vp_param("W",2)+1), nt=pick("nt",vp_param("W",2)+1); std::string last;
		for (unsigned i=0;i<nb;i++) { std::string k=g.keyfixed?std::string(1,'a'+i):symstr("key",1); vp_assume(k[0]!=0); if (i) vp_assume(last<k); last=k; b.o[k]=gen(g,dep-1); }
		for (unsigned i=0;i<nt;i++) { std::string k=g.keyfixed?std::string(1,'a'+i):symstr("key",1); vp_assume(k[0]!=0); if (i) vp_assume(last<k); last=k; t.o[k]=gen(g,dep-1); }
		vp_assume(plain(b) && plain(t)); Variant vb=toV(b), vt=toV(t), d=RDiff(vb,vt); M md=diff(b,t), e(b); upd(e,t); obsV(d);
		vp_assert(same(md,d),"the difference is not the entries that differ"); vp_assert(same(b,vb) && same(t,vt),"the difference changed its inputs"); RUpdate(vb,d); vp_assert(same(e,vb),"updating with the difference does not give the target's entries"); vp_assert(same(t,vt),"shared"); vp_reach(md.o.empty()?"same":"differ"); break; }
	case 2: { // flattening, with any delimiters
		M d=gen(g,dep), f; P p; p.del="/"; p.ip="["; p.is="]"; p.simple=false; Variant params=ExtensionParams();
		if (vp_param("OPT",0)) { p.del=symstr("delimiter",1); p.ip=symstr("indexPrefix",1); p.is=symstrv("indexSuffix",1,true); p.pre=symstrv("pathPrefix",1,true); vp_assume(p.del[0]!=0 && p.ip[0]!=0); uint8_t s=vp_u8("simple"); vp_assume(s<2); p.simple=s;
			params.Set("pathDelimiter",p.del); params.Set("indexPrefix",p.ip); params.Set("indexSuffix",p.is); params.Set("pathPrefix",p.pre); params.Set("noSimpleLists",Variant(!p.simple)); ExtensionParams(params); }
		flat(f,d,p,""); Variant v=toV(d), r=FlattenPath(v,params); obsV(r); vp_assert(same(f,r),"wrong flat form"); vp_assert(same(d,v),"the document was changed"); vp_reach("flat"); break; }
	case 3: { // expanding a flattened document of maps
		M d=gen(g,dep); vp_assume(plain(d)); letters(d); Variant v=toV(d), r; Variant params=ExtensionParams();
		if (vp_param("OPT",0)) { std::string s=symstr("delimiter",1); vp_assume(s[0]!=0 && !alpha(s[0]) && s[0]!='[' && s[0]!=']' && s[0]!='.'); params.Set("pathDelimiter",s); }
		r=ExpandPath(FlattenPath(v,params),params); obsV(r); if (d.t==M::O && d.o.empty()) vp_assert(r.IsNull(),"something from nothing"); else vp_assert(same(d,r),"not restored"); vp_reach("expanded"); break; }
	case 4: { // text of the leaves
		M d(M::O), l(M::L); g.imax=999; for (unsigned i=0;i<2;i++) l.l.push_back(gen(g,0)); uint8_t s=vp_u8("simple"); vp_assume(s<2); d.o["k"]=l; d.o["n"]=gen(g,0); Variant v=toV(d), params=ExtensionParams(); params.Set("noSimpleLists",Variant(s==0));
		std::map<std::string,std::string> m=FlattenPathToStrStrMap(v,params); std::string a=toV(l.l[0]).AsString(), b=toV(l.l[1]).AsString(), c=toV(d.o["n"]).AsString();
		if (s) vp_assert(m.size()==2 && eqs(m["k"],a+","+b) && eqs(m["n"],c),"wrong text"); else vp_assert(m.size()==3 && eqs(m["k[0]"],a) && eqs(m["k[1]"],b) && eqs(m["n"],c),"wrong text"); vp_reach("text"); break; }
	}
}
