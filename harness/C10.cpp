// Copies are independent, assignment shares containers only.
#include "model.h"
// one modification applied to a value and to its reference; the root itself is never replaced
static Path at(unsigned max) { unsigned n=pick("plen",max+1); Path p; for (unsigned i=0;i<n;i++) { if (pick("elem",2)) p.push_back(PathElement(symstr("pkey",1))); else p.push_back(PathElement(pick("pidx",2))); } return p; }
static M *find(M &m, const Path &p, unsigned i=0) {
	if (i==p.size()) return &m;
	if (p[i].IsString()) { if (m.t!=M::O) return 0; std::map<std::string,M>::iterator k=m.o.find(p[i].AsString()); return k==m.o.end()?0:find(k->second,p,i+1); }
	if (m.t!=M::L||p[i].AsUnsigned()>=m.l.size()) return 0; return find(m.l[p[i].AsUnsigned()],p,i+1);
}
// changes the value found at p (which exists, as w); true if the change is one that a shared container shows through every name
static bool change(Variant &v, const Path &p, M &w) {
	VariantRef r=v.AtPath(p);
	switch (pick("how",6)) {
	case 0: vp_assume(w.t==M::L); { int64_t x=(int64_t)vp_u64("new"); r.Append(Variant((long)x)); w.l.push_back(M::num(x)); return true; }
	case 1: vp_assume(w.t==M::O); { std::string k=symstr("newkey",1); r.Set(k,Variant(true)); w.o[k]=M::boolean(true); return true; }
	case 2: vp_assume(w.t==M::L||w.t==M::O||w.t==M::S); r.Clear(); w.l.clear(); w.o.clear(); w.s.clear(); vp_reach("clear"); return w.t!=M::S;
	case 3: vp_assume(w.t==M::I); { int64_t x=w.i; ++r; w.i=(int64_t)((uint64_t)x+1); return false; }
	case 4: vp_assume(w.t==M::X && w.s.size()); { BlobPtr b=r.AsBlob(); ((char*)b->GetPtr(0))[0]^=0x55; w.s[0]^=0x55; vp_reach("blob"); return true; }
	default: { static const M::T K[]={M::L,M::O}; vp_assume(w.t==M::L||w.t==M::O); if (w.t==M::L) { vp_assume(!w.l.empty()); r.Erase((unsigned)w.l.size()-1); w.l.pop_back(); } else { vp_assume(!w.o.empty()); std::string k=w.o.begin()->first; r.Erase(k); w.o.erase(k); } return true; }
	}
}
static void copy() {
	GenP g(G_NULL|G_INT|G_STR|G_BLOB|G_LIST|G_MAP,vp_param("W",1)); M m=gen(g,vp_param("D",2)); Variant a=toV(m), b;
	switch (pick("via",4)) { case 0: b=a.Copy(); break; case 1: { VariantRef r=a.Ref(); b=r.Copy(); break; } case 2: { Variant t=a; b=t.Copy(); break; } default: { Variant h; h["k"]=a; Variant c=h.Copy(); b=c["k"]; } }
	vp_assert(same(m,b),"copy differs from its original"); vp_assert(a==b && b==a,"copy does not compare equal");
	M ma=m, mb=m; for (int k=0;k<vp_param("OPS",1);k++) {
		bool onA=pick("side",2); Path p=at(vp_param("P",2)); M *w=find(onA?ma:mb,p); vp_assume(w!=0); change(onA?a:b,p,*w);
		vp_assert(same(ma,a),onA?"modification lost":"modifying the copy changed the original"); vp_assert(same(mb,b),onA?"modifying the original changed the copy":"modification lost");
	}
	obsV(a); obsV(b); vp_reach("copy");
}
static void share() {
	GenP g(G_NULL|G_BOOL|G_INT|G_STR|G_BLOB|G_LIST|G_MAP,vp_param("W",1)); M m=gen(g,vp_param("D",1)); Variant a=toV(m), b; unsigned via=pick("via",4); Variant holder;
	switch (via) { case 0: b=a; break; case 1: { Variant c(a); b=c; break; } case 2: { VariantRef r=a.Ref(); b=r; break; } default: holder.Append(a); b=holder[0]; }
	vp_assert(same(m,b) && same(m,a),"assignment changed the value"); M ma=m, mb=m;
	if (pick("what",2)) { // reassign one name
		GenP g2(G_NULL|G_BOOL|G_INT|G_UNS|G_STR|G_FLT,1); M n=gen(g2,0); bool onA=pick("side",2); Variant &x=onA?a:b; switch (n.t) { case M::N: x=Variant::NullType; break; case M::B: x=(n.i!=0); break; case M::I: x=(long)n.i; break; case M::U: x=(unsigned long)n.i; break; case M::F: x=n.f; break; default: x=n.s; } if (onA) ma=n; else mb=n; vp_reach("reassign");
	} else { bool onA=pick("side",2); Path p=at(1); M *w=find(onA?ma:mb,p); vp_assume(w!=0); bool s=change(onA?a:b,p,*w); if (!p.empty()) s=true; // the element lives in the shared container
		if (s) { if (onA) mb=ma; else ma=mb; vp_reach("shared"); } else vp_reach("unshared"); }
	vp_assert(same(ma,a),"value seen through the first name"); vp_assert(same(mb,b),"value seen through the second name"); obsV(a); obsV(b);
}
// a list, map or string element taken out of a container, and elements put into one
static void element() {
	GenP g(G_NULL|G_INT|G_STR|G_LIST|G_MAP,1); M e=gen(g,1); bool list=pick("list",2); Variant ev=toV(e), c; if (list) c.Append(ev); else c["k"]=ev;
	Variant x=list?c.Get(0u):c.Get("k"); M mx=e, mc=e; if (pick("what",2)) { x=Variant(5); mx=M::num(5); } else { Path p; M *w=find(mx,p); bool s=change(x,p,*w); if (s) mc=mx; }
	Variant now=list?c.Get(0u):c.Get("k"); vp_assert(same(mx,x),"value taken out"); vp_assert(same(mc,now),"value inside the container"); obsV(now); vp_reach("element");
}
// self assignment and assigning a part of a value to the value itself
static void self() {
	GenP g(G_INT|G_STR|G_BLOB|G_LIST|G_MAP,1); M m=gen(g,2); Variant a=toV(m);
	switch (pick("how",4)) { case 0: { Variant &r=a; a=r; vp_assert(same(m,a),"self assignment"); break; } case 1: { VariantRef r=a.Ref(); a=r; vp_assert(same(m,a),"self assignment through a reference"); r=a; vp_assert(same(m,a),"self assignment to a reference"); break; }
	case 3: { // contents held by the value, given as plain strings, lists and maps
		bool key=pick("key",2); const M *c=&m; if (key) { vp_assume(m.t==M::O && !m.o.empty()); a=a.MapBegin()->first; vp_assert(same(M::str(m.o.begin()->first),a),"assigning one of its keys to a map"); vp_reach("key"); break; }
		if (pick("nested",2)) { vp_assume((m.t==M::L&&!m.l.empty())||(m.t==M::O&&!m.o.empty())); c=m.t==M::L?&m.l[0]:&m.o.begin()->second; }
		vp_assume(c->t==M::L || c->t==M::O); Variant &h=c==&m?a:m.t==M::L?*a.ListBegin():a.MapBegin()->second; M want=*c;
		if (c->t==M::L) a=h.AsList(); else a=h.AsMap();
		vp_assert(same(want,a),"assigning contents held by the value itself"); vp_reach("contents"); break; }
	default: { vp_assume((m.t==M::L&&!m.l.empty())||(m.t==M::O&&!m.o.empty())); M part=m.t==M::L?m.l[0]:m.o.begin()->second; if (m.t==M::L) a=a[0u]; else { std::string k=m.o.begin()->first; a=a[k]; } vp_assert(same(part,a),"assigning an element to its container"); vp_reach("part"); } }
	obsV(a); vp_reach("self");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: copy(); break; case 1: share(); break; case 2: element(); break; case 3: self(); break; } }
