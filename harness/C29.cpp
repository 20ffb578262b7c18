// Container operations against an ordinary list and map.
#include "model.h"
#include <complex>
#include <limits.h>
struct R { bool threw, any; M v; R() : threw(false), any(false) {} };   // any: outcome left open by the documentation
static M toM(const std::vector<long> &l) { M m(M::L); for (size_t i=0;i<l.size();i++) m.l.push_back(M::num(l[i])); return m; }
static M toM(const std::map<std::string,long> &o) { M m(M::O); for (std::map<std::string,long>::const_iterator i=o.begin();i!=o.end();++i) m.o[i->first]=M::num(i->second); return m; }
static bool ints(const M &m) { for (size_t i=0;i<m.l.size();i++) if (m.l[i].t!=M::I) return false; for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) if (i->second.t!=M::I) return false; return true; }
enum { GETI, GETID, SETI, APPEND, CONTI, INDEX, ERASEI, GETK, GETKD, SETK, CONTK, ERASEK, CLEAR, SIZE, EMPTY, MERGE, ASL, ASM, ITL, ITM, INTOK, INTOKD, CASTL, CASTM, ASSL, ASSM, ATID, ATKD, CATI, CATK, ASSS, NOPS };
struct Op { unsigned n, i; std::string k; long x; M other; };
static Op genOp() {
	Op o; o.n=pick("op",NOPS); o.i=0; o.x=0;
	switch (o.n) {
	case GETI: case GETID: case SETI: case CONTI: case ERASEI: case ATID: case CATI: o.i=pick("i",4); if (o.i==3) o.i=UINT_MAX; break;
	case GETK: case GETKD: case SETK: case CONTK: case ERASEK: case ASM: case INTOK: case INTOKD: case ATKD: case CATK: o.k=symstr("k",1); break; }
	switch (o.n) { case GETID: case SETI: case APPEND: case INDEX: case GETKD: case SETK: case ASL: case ASM: case INTOKD: case ATID: case ATKD: o.x=(long)vp_u64("x"); break;
	case MERGE: { GenP g(G_NULL|G_INT|G_LIST|G_MAP,2,1,1); o.other=gen(g,1); vp_assume(ints(o.other)); break; }
	case ASSL: { M m(M::L); unsigned w=pick("width",3); for (unsigned i=0;i<w;i++) m.l.push_back(M::num((long)vp_u64("e"))); o.other=m; break; }
	case ASSM: { M m(M::O); unsigned w=pick("width",3); std::string last; for (unsigned i=0;i<w;i++) { std::string k=symstr("key",1); if (i) vp_assume(last<k); last=k; m.o[k]=M::num((long)vp_u64("e")); } o.other=m; break; } }
	return o;
}
// what the operation does to m (absent: there is no such element yet)
static R expect(M &m, bool &absent, const Op &o) {
	R r; bool creates=o.n==SETI||o.n==APPEND||o.n==SETK||o.n==ASL||o.n==ASM||o.n==ATID||o.n==ATKD||o.n==ASSL||o.n==ASSM||o.n==ASSS||(o.n==MERGE&&o.other.t==M::O&&o.other.o.size());
	if (absent && o.n==MERGE && !creates) { if (o.other.t!=M::O && o.other.t!=M::N) r.threw=true; return r; }
	if (absent && !creates) { r.threw=true; return r; }
	absent=false; bool L=m.t==M::L, O=m.t==M::O, N=m.t==M::N; const std::map<std::string,M>::iterator at=O?m.o.find(o.k):m.o.end(); bool hasI=L&&o.i<m.l.size(), hasK=O&&at!=m.o.end();
	if ((o.n==SETI||o.n==ATID) && o.i==UINT_MAX) { vp_assume(!N); if (!hasI) { r.threw=true; return r; } }
	switch (o.n) {
	case GETI: case CATI: if (hasI) r.v=m.l[o.i]; else r.threw=true; break;
	case GETID: r.v=hasI?m.l[o.i]:M::num(o.x); break;
	case SETI: if (N) m=M(M::L); if (m.t!=M::L) { r.threw=true; break; } if (o.i>=m.l.size()) m.l.resize(o.i+1); m.l[o.i]=M::num(o.x); break;
	case APPEND: case ASL: if (N) m=M(M::L); if (m.t!=M::L) { r.threw=true; break; } m.l.push_back(M::num(o.x)); break;
	case CONTI: if (O) r.any=true; r.v=M::boolean(hasI); break;
	case INDEX: if (!L) { r.threw=true; break; } { unsigned p=0; M x=M::num(o.x); while (p<m.l.size() && !same(m.l[p],x)) p++; r.v=M::uns(p); } break;
	case ERASEI: if (N) break; if (!L) { r.threw=true; break; } if (hasI) { if (o.i+1==m.l.size()) m.l.pop_back(); else m.l[o.i]=M(); } break;
	case GETK: case CATK: if (hasK) r.v=at->second; else r.threw=true; break;
	case GETKD: r.v=hasK?at->second:M::num(o.x); break;
	case SETK: case ASM: if (N) m=M(M::O); if (m.t!=M::O) { r.threw=true; break; } m.o[o.k]=M::num(o.x); break;
	case CONTK: if (L) r.any=true; r.v=M::boolean(hasK); break;
	case ERASEK: if (N) break; if (!O) { r.threw=true; break; } m.o.erase(o.k); break;
	case CLEAR: { M::T t=m.t; m=M(t==M::L||t==M::O||t==M::S?t:M::N); break; }
	case SIZE: if (L) r.v=M::uns(m.l.size()); else if (O) r.v=M::uns(m.o.size()); else if (m.t==M::S||m.t==M::X) r.v=M::uns(m.s.size()); else if (N) r.v=M::uns(0); else r.threw=true; break;
	case EMPTY: if (L) r.v=M::boolean(m.l.empty()); else if (O) r.v=M::boolean(m.o.empty()); else if (m.t==M::S) r.v=M::boolean(m.s.empty()); else if (N) r.v=M::boolean(true); else r.threw=true; break;
	case MERGE: if (o.other.t==M::N) break; if (o.other.t!=M::O) { r.threw=true; break; } if (o.other.o.empty()) break; if (N) m=M(M::O); if (m.t!=M::O) { r.threw=true; break; } for (std::map<std::string,M>::const_iterator i=o.other.o.begin();i!=o.other.o.end();++i) m.o[i->first]=i->second; break;
	case ITL: if (L) r.v=m; else r.threw=true; break;
	case ITM: if (O) r.v=m; else r.threw=true; break;
	case CASTL: if (L) { if (ints(m)) r.v=m; else r.any=true; } else r.threw=true; break;
	case CASTM: if (O) { if (ints(m)) r.v=m; else r.any=true; } else r.threw=true; break;
	case INTOK: if (hasK) { if (at->second.t!=M::I) r.any=true; r.v=at->second; } else r.threw=true; break;
	case INTOKD: if (hasK) { if (at->second.t!=M::I) r.any=true; r.v=at->second; } else r.v=M::num(o.x); break;
	case ASSL: case ASSM: m=o.other; break;
	case ASSS: m=M::str("s"); break;
	case ATID: if (hasI) { r.v=m.l[o.i]; break; } if (N) m=M(M::L); if (m.t!=M::L) { r.threw=true; break; } m.l.resize(o.i+1); m.l[o.i]=M::num(o.x); r.v=m.l[o.i]; break;
	case ATKD: if (hasK) { r.v=at->second; break; } if (N) m=M(M::O); if (m.t!=M::O) { r.threw=true; break; } m.o[o.k]=M::num(o.x); r.v=m.o[o.k]; break;
	}
	return r;
}
static M itl(const Variant &v) { M m(M::L); for (Variant::ConstListIterator i=v.ListBegin();i!=v.ListEnd();++i) m.l.push_back(i->IsInt()?M::num(i->AsInt()):M()); return m; }
static M itm(const Variant &v) { M m(M::O); for (Variant::ConstMapIterator i=v.MapBegin();i!=v.MapEnd();++i) m.o[i->first]=i->second.IsInt()?M::num(i->second.AsInt()):M(); return m; }
// the operation on the real value; false if it threw
static bool doit(Variant &h, const Op &o, Variant &res, M &mres, bool &useM) {
	const Variant &c=h; useM=false;
	try { switch (o.n) {
	case GETI: res=c.Get(o.i); break;
	case GETID: res=c.Get(o.i,Variant(o.x)); break;
	case SETI: { Variant &b=h.Set(o.i,Variant(o.x)); vp_assert(&b==&h,"setting an element returns the value itself"); break; }
	case APPEND: { Variant &b=h.Append(Variant(o.x)); vp_assert(&b==&h,"appending returns the value itself"); break; }
	case CONTI: res=Variant(c.Contains(o.i)); break;
	case INDEX: res=Variant(c.Index(Variant(o.x))); break;
	case ERASEI: h.Erase(o.i); break;
	case GETK: res=c.Get(o.k); break;
	case GETKD: res=c.Get(o.k,Variant(o.x)); break;
	case SETK: { Variant &b=h.Set(o.k,Variant(o.x)); vp_assert(&b==&h,"setting an element returns the value itself"); break; }
	case CONTK: res=Variant(c.Contains(o.k)); break;
	case ERASEK: h.Erase(o.k); break;
	case CLEAR: h.Clear(); break;
	case SIZE: res=Variant(c.Size()); break;
	case EMPTY: res=Variant(c.Empty()); break;
	case MERGE: h.Merge(toV(o.other)); break;
	case ASL: h.AsList().push_back(Variant(o.x)); break;
	case ASM: h.AsMap()[o.k]=Variant(o.x); break;
	case ITL: mres=itl(c); useM=true; break;
	case ITM: mres=itm(c); useM=true; break;
	case INTOK: { long l=1; c.GetInto(l,o.k); res=Variant(l); break; }
	case INTOKD: { long l=1; c.GetInto(l,o.k,o.x); res=Variant(l); break; }
	case CASTL: mres=toM(c.As<std::vector<long> >()); useM=true; break;
	case CASTM: mres=toM(c.As<std::map<std::string,long> >()); useM=true; break;
	case ASSL: { std::vector<long> l; for (size_t i=0;i<o.other.l.size();i++) l.push_back((long)o.other.l[i].i); h=l; break; }
	case ASSM: { std::map<std::string,long> s; for (std::map<std::string,M>::const_iterator i=o.other.o.begin();i!=o.other.o.end();++i) s[i->first]=(long)i->second.i; h=s; break; }
	case ASSS: h="s"; break;
	case ATID: { VariantRef q=h.At(o.i,Variant(o.x)); res=q; break; }
	case ATKD: { VariantRef q=h.At(o.k,Variant(o.x)); res=q; break; }
	case CATI: res=c.At(o.i); break;
	case CATK: res=c.At(o.k); break;
	} } catch (const std::exception &) { return false; }
	return true;
}
static void ops() {
	unsigned kinds[]={G_NULL|G_BOOL|G_INT|G_STR|G_BLOB|G_FLT,G_LIST|G_INT|G_NULL,G_MAP|G_INT|G_NULL}; unsigned mask=vp_param("HANDLES",127), hs[7], nh=0; for (unsigned b=0;b<7;b++) if (mask>>b&1) hs[nh++]=b;
	unsigned how=hs[nh>1?pick("handle",nh):0], fam=pick("family",3);
	GenP g(kinds[fam],vp_param("W",2)); M m=how>=5?M():gen(g,fam?1:0); bool absent=how>=5; if (fam && how<5) vp_assume(m.cont()); if (how>=5) vp_assume(fam==0);
	Variant root, *v=0; VariantRef *ref=0; M other=M::num(7);
	switch (how) {
	case 0: root=toV(m); v=&root; break;                                                                            // the value itself
	case 1: root=toV(m); ref=new VariantRef(root); break;                                                           // a reference to it
	case 2: root["h"]=toV(m); root["o"]=7; ref=new VariantRef(root["h"]); break;                                     // an element of a map
	case 3: root.Append(7); root.Append(toV(m)); ref=new VariantRef(root[1]); break;                                // an element of a list
	case 4: root.Append(7); ref=new VariantRef(root[1]); root.Append(toV(m)); break;                                // taken before the element existed
	case 5: root["o"]=7; ref=new VariantRef(root["h"]); break;                                                       // no such element
	default: root["o"]=7; ref=new VariantRef(root["h"]["g"]); break; }
	if (ref) v=ref;
	M was=m; Variant twin; if (!absent) twin=*v; bool shared=m.cont(); // another name for the same container
	unsigned n=vp_param("K",1); bool did=false, bad=false;
	for (unsigned s=0;s<n;s++) {
		Op o=genOp(); M before=m; Variant res; M mres; bool useM; R r=expect(m,absent,o); bool ok=doit(*v,o,res,mres,useM); vp_observe(ok);
		if (r.any) { vp_assume(o.n!=CASTL && o.n!=CASTM && o.n!=INTOK && o.n!=INTOKD); }
		else { vp_assert(ok==!r.threw,r.threw?"an operation that does not suit the value must throw":"an operation that suits the value failed"); if (ok) vp_assert(useM?same(r.v,mres):same(r.v,res,true),"result of the operation"); }
		if (r.threw) { m=before; bad=true; } else did=true;
		if (o.n==ASSL||o.n==ASSM||o.n==ASSS) shared=false; else if (o.n==CLEAR && !before.cont()) shared=false;
		if (shared) was=m;
		M want; switch (how) { case 0: case 1: want=m; break; case 2: want=M(M::O); want.o["h"]=m; want.o["o"]=other; break; case 3: case 4: want=M(M::L); want.l.push_back(other); want.l.push_back(m); break; case 5: want=M(M::O); want.o["o"]=other; if (!absent) want.o["h"]=m; break; default: want=M(M::O); want.o["o"]=other; if (!absent) { M in(M::O); in.o["g"]=m; want.o["h"]=in; } }
		vp_assert(same(want,root),"the operation must change exactly its element"); if (how<5) vp_assert(same(was,twin),"another name for the same container sees the same content, any other value is unaffected"); vp_assert(v->Exists()==!absent,"existence of the element");
	}
	if (did) vp_reach("done"); if (bad) vp_reach("refused"); obsV(root); delete ref;
}
// typed extraction: every integer width, vectors, maps, complex numbers
template<typename T> static void castI(const M &m, const Variant &v, const char *) { bool ok=true; T t=T(); try { t=v.As<T>(); } catch (const std::exception &) { ok=false; } if (m.t==M::I && (int64_t)(T)m.i==m.i && (m.i>=0||T(-1)<T(0))) { vp_assert(ok && t==(T)m.i,"typed extraction of a number that fits"); vp_reach("fits"); } if (ok) vp_observe((uint64_t)t); }
static void casts() {
	M m=M::num((int64_t)vp_u64("n")); Variant v=toV(m);
	switch (pick("type",12)) { case 0: castI<char>(m,v,""); break; case 1: castI<signed char>(m,v,""); break; case 2: castI<unsigned char>(m,v,""); break; case 3: castI<short>(m,v,""); break; case 4: castI<unsigned short>(m,v,""); break; case 5: castI<int>(m,v,""); break; case 6: castI<unsigned>(m,v,""); break; case 7: castI<long>(m,v,""); break; case 8: castI<unsigned long>(m,v,""); break; case 9: castI<long long>(m,v,""); break; case 10: castI<unsigned long long>(m,v,""); break;
	default: { Variant b(m.i>0); vp_assert(b.As<bool>()==(m.i>0),"typed extraction of a truth value"); std::string s=symstrv("s",2); vp_assert(eqs(Variant(s).As<std::string>(),s),"typed extraction of a string"); vp_reach("other"); } }
}
static void nested() { // vectors of vectors, maps of vectors, complex numbers, path extraction
	unsigned a=pick("a",3), b=pick("b",3); std::vector<std::vector<long> > l(a); std::map<std::string,std::vector<long> > o; M ml(M::L), mo(M::O); for (unsigned i=0;i<a;i++) { for (unsigned j=0;j<b;j++) l[i].push_back((long)vp_u64("e")); ml.l.push_back(toM(l[i])); std::string k(1,(char)('a'+i)); o[k]=l[i]; mo.o[k]=toM(l[i]); }
	Variant vl(l), vo(o); vp_assert(same(ml,vl),"a list built from a vector of vectors"); vp_assert(same(mo,vo),"a map built from a map of vectors"); vp_assert(vl.As<std::vector<std::vector<long> > >()==l && (vo.As<std::map<std::string,std::vector<long> > >()==o),"extraction returns what was stored");
	std::string k=symstr("k",1); unsigned i=pick("i",3); long d=(long)vp_u64("d"), got=1; Path p; p.push_back(PathElement(k)); p.push_back(PathElement(i)); bool has=mo.o.count(k) && i<mo.o[k].l.size(); long want=has?(long)mo.o[k].l[i].i:d; vo.GetPathInto(got,p,d); vp_assert(got==want,"extraction along a path with a default"); bool threw=false; got=d; try { vo.GetPathInto(got,p); } catch (const std::exception &) { threw=true; } vp_assert(threw==!has && got==want,"extraction along a path"); vp_reach(has?"path":"no-path"); obsV(vl); obsV(vo);
}
static void cplx() {
	static const double T[]={0.5,-2.25,3.0,0.0}; double re=T[pick("re",4)], im=T[pick("im",4)]; std::complex<double> got, want; Variant v; switch (pick("form",6)) { case 0: want=std::complex<double>(0,0); break; case 1: v=re; want=std::complex<double>(re,0); break; case 2: v["real"]=re; v["imag"]=im; want=std::complex<double>(re,im); break; case 3: v["imag"]=im; want=std::complex<double>(0,im); break; case 4: v.Append(re); want=std::complex<double>(re,0); break; default: v.Append(re).Append(im); want=std::complex<double>(re,im); }
	got=v.As<std::complex<double> >(); vp_assert(got.real()==want.real() && got.imag()==want.imag(),"complex number"); bool threw=false; try { Variant("x").As<std::complex<double> >(); } catch (const std::exception &) { threw=true; } vp_assert(threw,"a string is no complex number"); vp_reach("complex");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: ops(); break; case 1: casts(); break; case 2: nested(); break; default: cplx(); } }
