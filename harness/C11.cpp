// References and proxies.
#include "model.h"
static PathElement el() { if (pick("elem",2)) return PathElement(symstr("k",1)); return PathElement(pick("i",3)); }
static const M *get(const M &m, const Path &p, unsigned at=0) {
	if (at==p.size()) return &m;
	if (p[at].IsString()) { if (m.t!=M::O) return 0; std::map<std::string,M>::const_iterator i=m.o.find(p[at].AsString()); return i==m.o.end()?0:get(i->second,p,at+1); }
	if (m.t!=M::L || p[at].AsUnsigned()>=m.l.size()) return 0; return get(m.l[p[at].AsUnsigned()],p,at+1);
}
static bool set(M &m, const Path &p, const M &v, unsigned at=0) {
	if (at==p.size()) { m=v; return true; }
	if (p[at].IsString()) { if (m.t==M::N) m=M(M::O); if (m.t!=M::O) return false; return set(m.o[p[at].AsString()],p,v,at+1); }
	if (m.t==M::N) m=M(M::L); if (m.t!=M::L) return false; unsigned i=p[at].AsUnsigned(); if (i>=m.l.size()) m.l.resize(i+1); return set(m.l[i],p,v,at+1);
}
// does some existing value on the way have a kind that cannot hold the next element?
static bool blocked(const M &m, const Path &p) { M c=m; return !set(c,p,M::num(1)); }
static VariantRef step(Variant &v, const PathElement &e) { if (e.IsString()) return v[e.AsString()]; return v[e.AsUnsigned()]; }
// walk by repeated indexing; every link is a reference kept alive for the whole walk.  Returns false if indexing threw
static bool walk(std::vector<VariantRef> &refs, Variant &v, const Path &p) {
	refs.reserve(p.size()+1);
	try { for (unsigned i=0;i<p.size();i++) { if (i==0) refs.push_back(step(v,p[0])); else { VariantRef r=step(refs.back(),p[i]); refs.push_back(r); } } } catch (const std::exception &) { return false; }
	return true;
}
// the path taken in two parts: the second starting from the reference the first gives
static void parts(std::vector<VariantRef> &refs, Variant &v, const Path &p, bool at) {
	unsigned k=pick("split",p.size()+1); Path a(p.begin(),p.begin()+k), b(p.begin()+k,p.end()); refs.reserve(2);
	if (at) { refs.push_back(v.AtPath(a)); VariantRef r=refs.back().AtPath(b); refs.push_back(r); } else { refs.push_back(VariantRef(v,a)); refs.push_back(VariantRef(refs.back(),b)); }
}
static bool use(const Variant &r, unsigned n) { // one reading operation; true if it threw
	try { switch (n) {
	case 0: r.GetType(); break; case 1: r.IsNull(); break; case 2: r.AsString(); break; case 3: r.Size(); break; case 4: r.Copy(); break; case 5: { Variant c=r; break; } case 6: r.Compare(Variant(1)); break; case 7: r.Get("x",Variant(1)); break; case 8: r.Get(0u,Variant(1)); break; case 9: r.Contains("x"); break; case 10: r.AsInt(); break; case 11: r.Empty(); break; case 12: r.HasPath("/x"); break;
	} } catch (const std::exception &) { return true; }
	return false;
}
static void read() {
	GenP g(G_NULL|G_INT|G_LIST|G_MAP,vp_param("W",1)); M m=gen(g,vp_param("D",2)); Variant v=toV(m); unsigned n=1+pick("len",vp_param("P",2)); Path p; for (unsigned i=0;i<n;i++) p.push_back(el());
	const M *w=get(m,p); unsigned byPath=pick("bypath",vp_param("PARTS",1)?4:2); std::vector<VariantRef> refs; bool ok=true;
	if (byPath) { try { if (byPath==1) refs.push_back(v.AtPath(p)); else parts(refs,v,p,byPath==2); } catch (const std::exception &) { ok=false; } } else ok=walk(refs,v,p);
	vp_assert(same(m,v),"indexing changed the document"); if (w) vp_assert(ok,"indexing an existing element failed"); if (!ok) { vp_assert(blocked(m,p),"indexing refused although the element could be created"); vp_reach("refused"); return; }
	VariantRef &r=refs.back(); vp_assert(r.Exists()==(w!=0),"existence of the referenced element"); unsigned op=pick("use",13);
	bool thrown=use(r,op); if (!w && op!=99) vp_assert(thrown,"reading a missing element must throw"); vp_assert(same(m,v),"reading through a reference changed the document");
	if (w) { vp_assert(same(*w,r),"reference refers to another element"); vp_reach("present"); } else vp_reach("absent"); obsV(v);
}
static void write() {
	GenP g(G_NULL|G_INT|G_LIST|G_MAP,vp_param("W",1)); M m=gen(g,vp_param("D",2)); Variant v=toV(m); unsigned n=1+pick("len",vp_param("P",2)); Path p; for (unsigned i=0;i<n;i++) p.push_back(el());
	M want=m; int64_t x=(int64_t)vp_u64("val"); std::vector<VariantRef> refs; bool threw=false; unsigned how=pick("how",6);
	if (how==3) { // default creation
		const M *w=get(m,p); vp_assume(p.size()==1); M d=M::num(x); if (!w && !set(want,p,d)) want=m; try { VariantRef r=p[0].IsString()?v.At(p[0].AsString(),Variant((long)x)):v.At(p[0].AsUnsigned(),Variant((long)x)); vp_assert(same(w?*w:d,r),"reference with default"); } catch (const std::exception &) { threw=true; } vp_assert(threw==(!w&&blocked(m,p)),"reference with default refused"); vp_assert(same(want,v),"document after reference with default"); vp_reach("default"); return; }
	bool can=set(want,p,how==1?M::str("s"):M::num(x)); if (!can) want=m;
	try { bool ok=how==2?(refs.push_back(v.AtPath(p)),true):how>3?(parts(refs,v,p,how==4),true):walk(refs,v,p); if (!ok) threw=true; else if (how==1) refs.back()=std::string("s"); else refs.back()=(long)x; } catch (const std::exception &) { threw=true; }
	vp_assert(threw==!can,"assigning through a reference must fail exactly when an element of the wrong kind is in the way"); vp_assert(same(want,v),"assigning through a reference must create exactly that element");
	if (can) { for (unsigned i=0;i<refs.size();i++) { if (how>3 && i==0) continue; Path q=how>=2?p:Path(p.begin(),p.begin()+i+1); const M *e=get(want,q); vp_assert(e && refs[i].Exists() && same(*e,refs[i]),"references taken before the assignment see the element"); } vp_reach("assigned"); } else vp_reach("blocked"); obsV(v);
}
static unsigned wuse(Variant &r, unsigned n) { // 0 fine, 1 invalid reference, 2 other exception
	try { switch (n) {
	case 0: r.GetType(); break; case 1: r.AsInt(); break; case 2: r=Variant(3); break; case 3: r["x"]; break; case 4: r[0]; break; case 5: r.Set("x",Variant(1)); break; case 6: r.Append(Variant(1)); break; case 7: ++r; break; case 8: { Variant c=r; break; } case 9: r.Copy(); break; case 10: r.Compare(Variant(1)); break; case 11: Variant(1).Compare(r); break; case 12: r.Clear(); break; case 13: { VariantRef q=r.Ref(); q.GetType(); break; } case 14: r.AtPath("/a[1]"); break; case 15: r.SetPath("/a",Variant(1)); break; case 16: r.Resolve(); break; case 17: r+=Variant(1); break; case 18: r.AsMap(); break; case 19: r.AsString(); break; case 20: r=5; break; case 21: r.Size(); break; case 22: r.Erase("x"); break; case 23: r.HasPath("/a"); break;
	} } catch (const InvalidReferenceError &) { return 1; } catch (const std::exception &) { return 2; }
	return 0;
}
static void stale() {
	unsigned kind=pick("target",5), kill=pick("kill",4); VariantRef *r=0; unsigned op=pick("use",24);
	{ Variant *v=new Variant(); Variant keep; M e=M::num((int64_t)vp_u64("e"));
	  switch (kind) { // an element of a map, of a list, the variable itself, a proxy below it, a proxy below a map element
	  case 0: (*v)["k"]=toV(e); r=new VariantRef((*v)["k"]); break;
	  case 1: v->Append(toV(e)); v->Append(Variant(2)); r=new VariantRef((*v)[1]); break;
	  case 2: *v=toV(e); r=new VariantRef(*v); break;
	  case 3: r=new VariantRef((*v)["p"]["q"]); break;
	  default: (*v)["k"]=Variant(Variant::MapType); r=new VariantRef((*v)["k"]["q"]); break; }
	  bool alive=false;
	  switch (kill) {
	  case 0: delete v; v=0; break;                                        // end of life of the owner
	  case 1: vp_assume(kind==0||kind==1||kind==4); if (kind==1) v->Erase(1u); else v->Erase("k"); break; // element erased
	  case 2: vp_assume(kind==0||kind==1||kind==4); *v=Variant(7); break;  // owner overwritten
	  default: vp_assume(kind==0||kind==1||kind==4); v->Clear(); break; }
	  (void)alive;
	  vp_assert(!r->Exists(),"reference to a destroyed element claims to exist"); unsigned res=wuse(*r,op); vp_assert(res==1,"use of a stale reference must throw an invalid reference error");
	  vp_assert(wuse(*r,0)==1,"stale reference became usable"); delete r; vp_observe(res); if (v) { obsV(*v); delete v; } }
	vp_reach("stale");
}
// shared containers keep elements alive while any name holds them; list growth may move elements but never leaves a wild reference
static void grow() {
	Variant v; unsigned n=1+pick("n",vp_param("N",3)), at=pick("at",3); vp_assume(at<n); for (unsigned i=0;i<n;i++) v.Append(Variant((long)(i+10))); VariantRef r=v[at]; Variant other=v; unsigned more=pick("more",4); for (unsigned i=0;i<more;i++) v.Append(Variant(i));
	if (pick("drop",2)) v=Variant(0);
	unsigned res=wuse(r,1); vp_assert(res==0||res==1,"reference after list growth"); if (res==0) { vp_assert(r.AsInt()==(long)(at+10),"reference after list growth sees another element"); vp_reach("kept"); } else vp_reach("moved"); vp_assert(other.Get(at).AsInt()==(long)(at+10),"list content"); if (!more) vp_assert(res==0,"reference lost although nothing was destroyed"); vp_observe(res);
}
// references to references, reassigning a reference
static void chain() {
	Variant a(Variant::MapType), b; a["x"]=1; b=(long)vp_u64("b"); VariantRef r=a["x"]; VariantRef q(r); VariantRef p=q.Ref(); switch (pick("how",3)) {
	case 0: p=b; vp_assert(a.Get("x")==b && r==b && q==b,"assignment through a reference to a reference"); break;
	case 1: q.ReassignRef(b); q=(long)77; vp_assert(b.AsInt()==77 && a.Get("x").AsInt()==1 && r.AsInt()==1 && p.AsInt()==1,"reassigned reference"); break;
	default: a.Erase("x"); vp_assert(wuse(r,0)==1 && wuse(q,0)==1 && wuse(p,0)==1,"all references to an erased element are stale"); q.ReassignRef(b); vp_assert(wuse(q,0)==0,"a stale reference can be pointed at something else"); }
	vp_reach("chain");
}
// one operation; its result as a value.  0 fine, 1 threw
static const unsigned OPS=48; static bool creates(unsigned n) { return n>=38 && n!=46; } // operations that create a missing element
static bool doing(Variant &r, unsigned n, const Variant &y, Variant &res) {
	const Variant &c=r;
	try { switch (n) {
	case 0: res=c.AsBool(); break; case 1: res=(long)c.AsInt(); break; case 2: res=(unsigned long)c.AsUnsigned(); break; case 3: res=(double)c.AsLongDouble(); break; case 4: res=c.AsString(); break; case 5: res=(unsigned)c.GetType(); break; case 6: res=c.Size(); break; case 7: res=c.Empty(); break;
	case 8: res=Variant(blobstr(c)); break; case 9: r.Clear(); break; case 10: res=c.Contains(1u); break; case 11: res=c.Index(y)!=(unsigned)-1?c.Index(y):99u; break; case 12: r.Erase(0u); break; case 13: res=c.Get(0u); break; case 14: res=c.Get(1u,y); break; case 15: res=c.Contains("x"); break; case 16: r.Erase("x"); break; case 17: res=c.Get("x"); break; case 18: res=c.Get("x",y); break;
	case 19: res=c.Compare(y); break; case 20: ++r; break; case 21: --r; break; case 22: res=-c; break; case 23: r+=y; break; case 24: r-=y; break; case 25: r*=y; break; case 26: r/=y; break; case 27: r%=y; break; case 28: res=(unsigned)c.AsList().size(); break; case 29: res=(unsigned)c.AsMap().size(); break; case 30: res=c.HasPath("/x"); break; case 31: res=c.GetPath("/x",y); break; case 32: res=c.GetPath("[0]"); break; case 33: r.ErasePath("/x"); break; case 34: res=c.Copy(); break; case 35: res=c.Resolve().Copy(); break; case 36: res=c.IsNumber(); break; case 37: res=c+y; break;
	case 38: r.AsList().push_back(y); break; case 39: r.AsMap()["n"]=y; break; case 40: r.Append(y); break; case 41: r.Set("n",y); break; case 42: r.SetPath("/n",y); break; case 43: r["n"]=y; break; case 44: { VariantRef q=r.At("n",y); res=Variant(q).Copy(); break; } case 45: r.Resolve().Append(y); break; case 46: { BlobPtr b=r.AsBlob(); res=Variant(b).Size(); break; } default: { Variant &z=r.Resolve(y); res=z.Copy(); vp_assert(&z==&r.Resolve(),"a value and the value resolved with a default are not the same object"); break; }
	} } catch (const std::exception &) { return true; }
	return false;
}
// an operation through a reference, whenever it was taken, does what it does on the value itself
static void through() {
	GenP g(vp_param("KINDS",G_NULL|G_BOOL|G_INT|G_STR|G_BLOB|G_LIST|G_MAP),vp_param("W",2)); g.keyfixed=true; g.imax=vp_param("IMAX",9); M m=gen(g,1); bool list=pick("list",2), missing=vp_param("MISSING",0); unsigned how=pick("how",4), op=vp_param("OP",-1)>=0?(unsigned)vp_param("OP",-1):pick("op",OPS);
	Variant v(list?Variant::ListType:Variant::MapType), w, other((long)vp_u64("other")), y((long)vp_u8("operand")); if (list) v.Append(other); else v.Set("o",other);
	Variant e=missing?Variant():toV(m); bool before=missing||pick("before",2); // taken before the element exists
	std::vector<VariantRef> refs; refs.reserve(3); if (!before) { if (list) v.Append(e); else v.Set("k",e); }
	switch (how) { case 0: refs.push_back(list?v[1]:v["k"]); break; case 1: refs.push_back(list?v.AtPath("[1]"):v.AtPath("/k")); break; case 2: refs.push_back(list?v[1]:v["k"]); refs.push_back(VariantRef(refs[0])); break; default: refs.push_back(list?v[1]:v["k"]); refs.push_back(refs[0].Ref()); }
	if (before && !missing) { if (list) v.Append(e); else v.Set("k",e); }
	Variant plain=e.Copy(), r1, r2; vp_assume(op!=26&&op!=27 || y.AsInt()!=0); bool t1=doing(refs.back(),op,y,r1), t2=doing(plain,op,y,r2); 
	if (!missing) { vp_assert(t1==t2,"an operation through a reference fails or succeeds unlike the operation on the value"); vp_assert(sameV(r1,r2),"an operation through a reference gives another result"); Variant got=list?v.Get(1u):v.Get("k"); vp_assert(sameV(plain,got),"an operation through a reference has another effect"); vp_reach(t1?"refused":"done"); }
	else if (!creates(op)) { vp_assert(t1,"an operation on a missing element must fail"); vp_assert(list?!v.Contains(1u):!v.Contains("k"),"a failed operation created the element"); vp_reach("missing"); }
	else { vp_assert(!t1&&!t2,"an operation that creates was refused"); Variant got=list?v.Get(1u):v.Get("k"); vp_assert(sameV(plain,got),"a created element differs"); vp_reach("created"); }
	vp_assert((list?v.Get(0u):v.Get("o"))==other && v.Size()<=2,"an operation through a reference changed something else"); vp_observe(t1); obsV(v);
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: read(); break; case 1: write(); break; case 2: stale(); break; case 3: grow(); break; case 4: chain(); break; case 5: through(); break; } }
