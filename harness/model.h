// Reference value trees, independent of the library, with conversion to a Variant and comparison through the public API.
#ifndef MODEL_H
#define MODEL_H
#include "vh.h"
struct M {
	enum T { N, B, I, U, F, S, L, O, X };
	T t; int64_t i; double f; std::string s; std::vector<M> l; std::map<std::string,M> o;
	M(T t_=N) : t(t_), i(0), f(0) {}
	static M num(int64_t v) { M m(I); m.i=v; return m; }
	static M uns(uint64_t v) { M m(U); m.i=(int64_t)v; return m; }
	static M boolean(bool v) { M m(B); m.i=v; return m; }
	static M flt(double v) { M m(F); m.f=v; return m; }
	static M str(const std::string &v) { M m(S); m.s=v; return m; }
	static M blob(const std::string &v) { M m(X); m.s=v; return m; }
	bool cont() const { return t==L||t==O; }
};
static inline Variant toV(const M &m) {
	switch (m.t) {
	case M::N: return Variant();
	case M::B: return Variant(m.i!=0);
	case M::I: return Variant((long)m.i);
	case M::U: return Variant((unsigned long)m.i);
	case M::F: return Variant(m.f);
	case M::S: return Variant(m.s);
	case M::X: return Variant(Blob::CreateCopy(m.s.data(),m.s.size()));
	case M::L: { Variant v(Variant::ListType); for (size_t i=0;i<m.l.size();i++) v.Append(toV(m.l[i])); return v; }
	case M::O: { Variant v(Variant::MapType); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) v.AsMap().insert(std::make_pair(i->first,toV(i->second))); return v; }
	}
	return Variant();
}
static inline bool eqs(const std::string &a, const std::string &b) { if (a.size()!=b.size()) return false; unsigned d=0; for (size_t i=0;i<a.size();i++) d|=(unsigned char)(a[i]^b[i]); return d==0; }
static inline std::string blobstr(const Variant &v) { ConstBlobPtr b=v.AsBlob(); std::string r; if (b) for (unsigned i=0;i<b->GetNumBuffers();i++) r.append((const char*)b->GetPtr(i),b->GetLength(i)); return r; }
// is v exactly m?  With loose, an integer may come back as unsigned and the other way round
static bool same(const M &m, const Variant &v, bool loose=false) {
	if (!v.Exists()) return false;
	switch (m.t) {
	case M::N: return v.IsNull();
	case M::B: return v.IsBool() && v.AsBool()==(m.i!=0);
	case M::I: if (v.IsInt()) return v.AsInt()==m.i; return loose && v.IsUnsigned() && m.i>=0 && v.AsUnsigned()==(uint64_t)m.i;
	case M::U: if (v.IsUnsigned()) return v.AsUnsigned()==(uint64_t)m.i; return loose && v.IsInt() && m.i>=0 && v.AsInt()==m.i;
	case M::F: return v.IsFloat() && v.AsDouble()==m.f;
	case M::S: return v.IsString() && eqs(v.AsString(),m.s);
	case M::X: return v.IsBlob() && eqs(blobstr(v),m.s);
	case M::L: { if (!v.IsList() || v.Size()!=m.l.size()) return false; for (unsigned i=0;i<m.l.size();i++) if (!same(m.l[i],v.AsList()[i],loose)) return false; return true; }
	case M::O: {
		if (!v.IsMap() || v.Size()!=m.o.size()) return false;
		Variant::ConstMapIterator a=v.MapBegin(); std::map<std::string,M>::const_iterator b=m.o.begin();
		for (;b!=m.o.end();++a,++b) { if (!eqs(a->first,b->first)) return false; if (!same(b->second,a->second,loose)) return false; }
		return true; }
	}
	return false;
}
static bool same(const M &a, const M &b) {
	if (a.t!=b.t || a.l.size()!=b.l.size() || a.o.size()!=b.o.size()) return false;
	if (a.t<=M::U && a.i!=b.i) return false;
	if (a.t==M::F && !(a.f==b.f)) return false;
	if (!eqs(a.s,b.s)) return false;
	for (size_t i=0;i<a.l.size();i++) if (!same(a.l[i],b.l[i])) return false;
	std::map<std::string,M>::const_iterator x=a.o.begin(), y=b.o.begin();
	for (;x!=a.o.end();++x,++y) if (!eqs(x->first,y->first) || !same(x->second,y->second)) return false;
	return true;
}
// are two values the same, without the comparison of the library?
static bool sameV(const Variant &a, const Variant &b) {
	if (a.GetType()!=b.GetType()) return false;
	switch (a.GetType()) {
	case Variant::NullType: return true; case Variant::BoolType: return a.AsBool()==b.AsBool(); case Variant::StringType: return eqs(a.AsString(),b.AsString()); case Variant::FloatType: return a.AsDouble()==b.AsDouble(); case Variant::IntegerType: return a.AsInt()==b.AsInt(); case Variant::UnsignedType: return a.AsUnsigned()==b.AsUnsigned();
	case Variant::BlobType: return eqs(blobstr(a),blobstr(b));
	case Variant::ListType: if (a.Size()!=b.Size()) return false; for (unsigned i=0;i<a.Size();i++) if (!sameV(a.Get(i),b.Get(i))) return false; return true;
	case Variant::MapType: { if (a.Size()!=b.Size()) return false; for (Variant::ConstMapIterator i=a.MapBegin();i!=a.MapEnd();++i) if (!b.Contains(i->first)||!sameV(i->second,b.Get(i->first))) return false; return true; }
	default: return false; }
}
static void obsV(const Variant &v) {
	if (!v.Exists()) { vp_observe(99); return; }
	vp_observe(v.GetType());
	switch (v.GetType()) {
	case Variant::NullType: case Variant::FloatType: break;
	case Variant::BoolType: vp_observe(v.AsBool()); break;
	case Variant::IntegerType: vp_observe((uint64_t)v.AsInt()); break;
	case Variant::UnsignedType: vp_observe(v.AsUnsigned()); break;
	case Variant::StringType: obs(v.AsString()); break;
	case Variant::BlobType: obs(blobstr(v)); break;
	case Variant::ListType: vp_observe(v.Size()); for (unsigned i=0;i<v.Size();i++) obsV(v.AsList()[i]); break;
	case Variant::MapType: vp_observe(v.Size()); for (Variant::ConstMapIterator i=v.MapBegin();i!=v.MapEnd();++i) { obs(i->first); obsV(i->second); } break;
	}
}
// what a generated leaf can be
enum { G_NULL=1, G_BOOL=2, G_INT=4, G_UNS=8, G_STR=16, G_BLOB=32, G_LIST=64, G_MAP=128, G_FLT=256 };
struct GenP { unsigned kinds, width, strlen_, keylen; bool keynonul, strnonul, keyfixed; unsigned imax; // imax: bound on the magnitude of integers, 0 for none
	 GenP(unsigned k, unsigned w=2, unsigned s=1, unsigned kl=1) : kinds(k), width(w), strlen_(s), keylen(kl), keynonul(false), strnonul(false), keyfixed(false), imax(0) {} };
static M gen(const GenP &p, unsigned depth) {
	unsigned k=p.kinds; if (!depth) k&=~(G_LIST|G_MAP);
	unsigned opts[9], n=0; for (unsigned b=0;b<9;b++) if (k>>b&1) opts[n++]=1u<<b;
	switch (opts[n>1?pick("kind",n):0]) {
	case G_NULL: return M();
	case G_BOOL: { uint8_t b=vp_u8("bool"); vp_assume(b<2); return M::boolean(b); }
	case G_INT: { uint64_t x=vp_u64("int"); if (p.imax) vp_assume(x+p.imax<=2ull*p.imax); return M::num((int64_t)x); }
	case G_UNS: { uint64_t x=vp_u64("uns"); if (p.imax) vp_assume(x<=p.imax); return M::uns(x); }
	case G_FLT: { static const double T[]={0.5,-2.25,1e300,3.0}; return M::flt(T[pick("flt",4)]); }
	case G_STR: return M::str(symstrv("str",p.strlen_,p.strnonul));
	case G_BLOB: return M::blob(symstrv("blob",p.strlen_));
	case G_LIST: { M m(M::L); unsigned w=pick("width",p.width+1); for (unsigned i=0;i<w;i++) m.l.push_back(gen(p,depth-1)); return m; }
	default: { M m(M::O); unsigned w=pick("width",p.width+1); std::string last;
		for (unsigned i=0;i<w;i++) { std::string key=p.keyfixed?std::string(1,(char)('a'+i)):symstr("key",p.keylen); if (p.keynonul) for (unsigned j=0;j<key.size();j++) vp_assume(key[j]!=0);
			if (i) vp_assume(last<key); last=key; m.o[key]=gen(p,depth-1); }
		return m; }
	}
}
#endif
