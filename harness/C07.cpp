// Paths: text form, lookup, set, erase.
#include "model.h"
#include <sstream>
static bool sameP(const PathElement &a, const PathElement &b) { if (a.IsString()!=b.IsString()) return false; return a.IsString()?eqs(a.AsString(),b.AsString()):a.AsUnsigned()==b.AsUnsigned(); }
static bool sameP(const Path &a, const Path &b) { if (a.size()!=b.size()) return false; for (size_t i=0;i<a.size();i++) if (!sameP(a[i],b[i])) return false; return true; }
static PathElement elem(unsigned klen, bool anyidx) { if (pick("elem",2)) return PathElement(symstrv("key",klen)); if (anyidx) return PathElement((unsigned)vp_u32("index")); return PathElement(pick("index",3)); }
static void text() {
	unsigned n=pick("len",vp_param("LEN",3)+1); Path p; for (unsigned i=0;i<n;i++) p.push_back(elem(vp_param("KEY",2),true));
	if (n && p[n-1].IsString()) vp_assume(!p[n-1].AsString().empty());
	std::string t=PathString(p); Path q=ParsePath(t); vp_assert(sameP(p,q),"path text does not parse back to the path");
	vp_assert(!t.empty() && (t[0]=='/'||t[0]=='['),"path text form"); vp_observe(q.size()); vp_reach("text");
	// a trailing slash is ignored
	if (n && p[n-1].IsString()) { Path r=ParsePath(t+"/"); vp_assert(sameP(p,r),"trailing slash not ignored"); }
}
// arbitrary text never crashes; the result, printed and parsed again, is the same path
static void any() {
	std::string t=symstrv("text",vp_param("N",4)); bool thrown=false; Path p;
	try { p=ParsePath(t); } catch (const std::exception &) { thrown=true; }
	vp_observe(thrown); if (thrown) { vp_reach("rejected"); return; }
	bool ok=p.empty()||!p[p.size()-1].IsString()||!p[p.size()-1].AsString().empty(); vp_assume(ok);
	Path q=ParsePath(PathString(p)); vp_assert(sameP(p,q),"parsed path does not survive printing"); vp_observe(p.size()); vp_reach("parsed");
}
// a path as a person writes it: the slash before a first key may be missing, any byte of a key may be escaped
static void written() {
	unsigned n=1+pick("len",vp_param("LEN",2)); bool bare=pick("bare",2); Path p; std::string t;
	for (unsigned i=0;i<n;i++) {
		if (pick("elem",2)) {
			std::string k=symstr("key",1+pick("keylen",vp_param("KEY",2))); if (i || !bare) t+='/';
			for (unsigned j=0;j<k.size();j++) { if (k[j]=='/'||k[j]=='['||k[j]=='\\' || pick("escaped",2)) { vp_assume(i||j||!bare); t+='\\'; } t+=k[j]; }
			p.push_back(PathElement(k));
		} else { unsigned x=pick("index",3), v=x==2?4000000000u+vp_u8("last")%10:x?10*(vp_u8("tens")%10)+vp_u8("ones")%10:vp_u8("ones")%10; std::ostringstream o; o << v; t+='['; if (pick("zero",2)) t+='0'; t+=o.str(); t+=']'; p.push_back(PathElement(v)); }
	}
	Path q=ParsePath(t); vp_assert(sameP(p,q),"a written path names other elements"); vp_observe(q.size()); vp_reach("written");
	unsigned char c=vp_u8("letter"); vp_assume((c>='a'&&c<='z')||(c>='A'&&c<='Z')); bool thrown=false; try { ParsePath(t+"["+(char)c+"]"); } catch (const std::exception &) { thrown=true; } vp_assert(thrown,"an index that is not a number was accepted"); vp_reach("not-a-number");
}
static const M *get(const M &m, const Path &p, unsigned at=0) {
	if (at==p.size()) return &m;
	if (p[at].IsString()) { if (m.t!=M::O) return 0; std::map<std::string,M>::const_iterator i=m.o.find(p[at].AsString()); return i==m.o.end()?0:get(i->second,p,at+1); }
	if (m.t!=M::L || p[at].AsUnsigned()>=m.l.size()) return 0; return get(m.l[p[at].AsUnsigned()],p,at+1);
}
static bool set(M &m, const Path &p, const M &v, unsigned at=0) {
	if (at==p.size()) { m=v; return true; }
	if (p[at].IsString()) { if (m.t==M::N) m=M(M::O); if (m.t!=M::O) return false; return set(m.o[p[at].AsString()],p,v,at+1); }
	if (m.t==M::N) m=M(M::L); if (m.t!=M::L) return false; unsigned i=p[at].AsUnsigned(); if (i>=m.l.size()) m.l.resize(i+1); return set(m.l[i],p,v,at+1);
}
static bool empty(const M &m) { return m.t==M::N || (m.t==M::L && m.l.empty()) || (m.t==M::O && m.o.empty()); }
// false: an existing value of another kind is in the way, nothing is to happen
static bool eraseElem(M &m, const PathElement &e) {
	if (m.t==M::N) return true;
	if (e.IsString()) { if (m.t!=M::O) return false; m.o.erase(e.AsString()); return true; }
	if (m.t!=M::L) return false; unsigned i=e.AsUnsigned(); if (i+1<m.l.size()) m.l[i]=M(); else if (i<m.l.size()) m.l.pop_back(); return true;
}
static bool erase(M &m, const Path &p, bool re, unsigned at=0) {
	if (at==p.size()) return true; if (at+1==p.size()) return eraseElem(m,p[at]);
	M *c=0; if (p[at].IsString()) { if (m.t==M::O) { std::map<std::string,M>::iterator i=m.o.find(p[at].AsString()); if (i!=m.o.end()) c=&i->second; } } else if (m.t==M::L && p[at].AsUnsigned()<m.l.size()) c=&m.l[p[at].AsUnsigned()];
	if (!c) return true; if (!erase(*c,p,re,at+1)) return false; if (re && empty(*c)) return eraseElem(m,p[at]); return true;
}
static bool scalar_on_path(const M &m, const Path &p) { for (unsigned n=0;n<p.size();n++) { Path q(p.begin(),p.begin()+n); const M *w=get(m,q); if (w && w->t!=M::N && !w->cont()) return true; } return false; }
static Path path(unsigned min, unsigned max) { unsigned n=min==max?min:min+pick("plen",max-min+1); Path p; for (unsigned i=0;i<n;i++) { if (pick("elem",2)) p.push_back(PathElement(symstr("pkey",1))); else p.push_back(PathElement(pick("pidx",vp_param("IDX",3)))); } return p; }
static void probe(const M &m, const Variant &v, const Path &p) {
	const M *w=get(m,p); vp_assert(v.HasPath(p)==(w!=0),"HasPath");
	bool thrown=false; Variant r; try { r=v.GetPath(p); } catch (const std::exception &) { thrown=true; } vp_assert(thrown==(w==0),"GetPath of a missing entry must throw and of a present one must not");
	if (w) vp_assert(same(*w,r),"GetPath returns a different value");
	thrown=false; try { const Variant &c=v.AtPath(p); if (w) vp_assert(same(*w,c),"const AtPath returns a different value"); } catch (const std::exception &) { thrown=true; } vp_assert(thrown==(w==0),"const AtPath existence");
	Variant d=v.GetPath(p,Variant("dflt")); if (w) vp_assert(same(*w,d),"GetPath with default of a present entry"); else vp_assert(same(M::str("dflt"),d),"GetPath default");
	vp_reach(w?"present":"absent");
}
static void ops() {
	GenP gp(G_INT|G_LIST|G_MAP|(vp_param("NULLS",0)?G_NULL:0),vp_param("W",1)); M m=gen(gp,vp_param("D",2)); Variant v=toV(m);
	for (int k=0,n=vp_param("OPS",1);k<n;k++) {
		Path p=path(1,vp_param("P",2));
		switch (vp_param("OP",-1)>=0?vp_param("OP",-1):pick("op",3)) {
		case 0: { M x=M::num((int64_t)vp_u64("val")); M before=m; bool ok=set(m,p,x), thrown=false; if (!ok) m=before; try { v.SetPath(p,toV(x)); } catch (const std::exception &) { thrown=true; } vp_assert(thrown==!ok,"SetPath must fail exactly when an existing element has the wrong kind");
			if (ok) { vp_assert(v.HasPath(p),"path missing after being set"); vp_assert(same(x,v.GetPath(p)),"value differs after being set"); vp_reach("set"); } else vp_reach("set-refused"); break; }
		case 1: { bool re=false; if (vp_param("RE",0)) re=pick("remove_empty",2); bool sc=scalar_on_path(m,p); bool ok=erase(m,p,re), thrown=false; try { v.ErasePath(p,re); } catch (const std::exception &) { thrown=true; vp_reach("erase-refused"); } vp_assert(!thrown||!ok||sc,"ErasePath refused"); vp_reach("erase"); break; }
		case 2: { const M *w=get(m,p); M d=M::num(7); M m2=m; bool ok=true; if (!w) { ok=set(m2,p,d); if (!ok) m2=m; } bool thrown=false; try { VariantRef r=v.AtPath(p,toV(d)); vp_assert(same(w?*w:d,r),"AtPath with default refers to the wrong value"); } catch (const std::exception &) { thrown=true; } vp_assert(thrown==!ok,"AtPath with default refused"); m=m2; vp_reach("at-default"); break; }
		}
		vp_assert(same(m,v),"document differs from the reference after the operation");
	}
	if (!vp_param("PROBE",1)) { obsV(v); return; }
	Path p=path(0,vp_param("P",2)); probe(m,v,p); vp_assert(same(m,v),"a query changed the document"); obsV(v);
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: text(); break; case 1: any(); break; case 2: ops(); break; case 3: written(); break; } }
