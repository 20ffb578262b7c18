// What is thrown when a value cannot do what is asked of it, and that nothing changed.
#include "model.h"
#include "Variant/Exceptions.h"
enum { NONE=1, KEY=2, RANGE=4, KIND=8, NUMERIC=16, OPERATION=32, REFERENCE=64, OTHER=128 };
static std::string said;
#define AS(type,bit) catch (const type &e) { said=e.what(); return bit; }
// the operation number op on x with the key k, the index i, the path p and the operand y
template<class T> static void doing(T &x, unsigned op, const std::string &k, unsigned i, const Path &p, const Variant &y) {
	const Variant &c=x;
	switch (op) {
	case 0: x.AsInt(); break; case 1: x.AsUnsigned(); break; case 2: x.AsDouble(); break; case 3: x.AsString(); break; case 4: c.As<int>(); break; case 5: x.AsBool(); break;
	case 6: x.AsBlob(); break; case 7: c.AsBlob(); break; case 8: c.AsList(); break; case 9: c.AsMap(); break; case 10: c.ListBegin(); break; case 11: c.MapEnd(); break;
	case 12: x.AsList(); break; case 13: x.AsMap(); break; case 14: x.Append(y); break;
	case 15: x.Size(); break; case 16: x.Empty(); break;
	case 17: c.At(k); break; case 18: x.Get(k); break; case 19: (Variant)x[k]; break; case 20: x[k].AsString(); break; case 21: ++x[k]; break;
	case 22: x.At(k,y); break; case 23: x.Set(k,y); break; case 24: x[k]=y; break; case 25: x.Erase(k); break;
	case 26: c.At(i); break; case 27: x.Get(i); break; case 28: (Variant)x[i]; break; case 29: x[i].AsString(); break; case 30: ++x[i]; break;
	case 31: x.At(i,y); break; case 32: x.Set(i,y); break; case 33: x[i]=y; break; case 34: x.Erase(i); break;
	case 35: x.Index(y); break; case 36: { Variant o(Variant::MapType); o.Set("z",y); x.Merge(o); break; }
	case 37: x.Incr(); break; case 38: --x; break; case 39: x.Neg(); break; case 40: x.Add(y); break; case 41: x-=y; break; case 42: x.Mul(y); break; case 43: x/=y; break; case 44: x.Rem(y); break;
	case 45: c.AtPath(p); break; case 46: x.GetPath(p); break; case 47: x.AtPath(p).AsString(); break; case 48: x.SetPath(p,y); break; case 49: x.AtPath(p)=y; break; case 50: x.AtPath(p,y); break;
	case 51: x.Get(k,y); break; case 52: x.Get(i,y); break; case 53: x.Contains(k); break; case 54: x.Contains(i); break; case 55: x.HasPath(p); break; case 56: x.GetPath(p,y); break;
	default: { long l=0; c.GetInto(l,k); } }
}
enum { OPS=58 };
template<class T> static int thrown(T &x, unsigned op, const std::string &k, unsigned i, const Path &p, const Variant &y) {
	said.clear();
	try { doing(x,op,k,i,p,y); return NONE; }
	AS(KeyError,KEY) AS(std::out_of_range,RANGE) AS(UnexpectedTypeError,KIND) AS(TypeNotIndexableError,KIND) AS(UnableToConvertError,KIND)
	AS(NotNumericTypeError,NUMERIC) AS(InvalidOperationError,OPERATION) AS(InvalidReferenceError,REFERENCE) AS(std::exception,OTHER)
}
static bool num(const M &m) { return m.t==M::I||m.t==M::U||m.t==M::F; }
static int scalar(const M &m) { return m.t==M::L||m.t==M::O||m.t==M::X ? KIND : NONE; }
static int number(const M &m) { return m.t==M::S&&(m.s.empty()||m.s[0]<'0'||m.s[0]>'9') ? KIND : scalar(m); }
static const M *entry(const M &m, const PathElement &e, int &r) {
	r=NONE;
	if (m.t==M::N) { r=(e.IsString()?KEY:RANGE)|KIND; return 0; }
	if (m.t!=(e.IsString()?M::O:M::L)) { r=KIND; return 0; }
	if (e.IsString()) { std::map<std::string,M>::const_iterator f=m.o.find(e.AsString()); if (f!=m.o.end()) return &f->second; r=KEY; } else { if (e.AsUnsigned()<m.l.size()) return &m.l[e.AsUnsigned()]; r=RANGE; }
	return 0;
}
static int reading(const M &m, const Path &p, const M **out) { const M *x=&m; int r=NONE; for (size_t j=0;x && j<p.size();j++) x=entry(*x,p[j],r); *out=x; return r; }
static int writing(const M &m, const Path &p) { const M *x=&m; int r=NONE; for (size_t j=0;x && j<p.size();j++) { if (x->t!=M::N && x->t!=(p[j].IsString()?M::O:M::L)) return KIND; x=entry(*x,p[j],r); } return NONE; }
// which of the classes may be thrown
static int expected(const M &m, unsigned op, const std::string &k, unsigned i, const Path &p, const M &y) {
	Path pk(1,PathElement(k)), pi(1,PathElement(i)); const M *e; int r;
	switch (op) {
	case 0: case 1: case 2: case 4: return number(m); case 3: return scalar(m); case 5: return m.t==M::S ? NONE|KIND : scalar(m);
	case 6: case 7: return m.t==M::X ? NONE : KIND; case 8: case 10: return m.t==M::L ? NONE : KIND; case 9: case 11: return m.t==M::O ? NONE : KIND;
	case 12: case 14: return m.t==M::L||m.t==M::N ? NONE : KIND; case 13: case 36: return m.t==M::O||m.t==M::N ? NONE : KIND;
	case 15: case 16: return m.t==M::B||num(m) ? OPERATION : m.t==M::S||m.t==M::L||m.t==M::O ? NONE : NONE|OPERATION;
	case 17: case 18: case 19: return reading(m,pk,&e); case 20: r=reading(m,pk,&e); return e ? scalar(*e) : r; case 21: r=reading(m,pk,&e); return e ? num(*e)?NONE:NUMERIC : r; case 57: r=reading(m,pk,&e); return e ? number(*e) : r;
	case 22: case 23: case 24: return writing(m,pk); case 25: return m.t==M::O||m.t==M::N ? NONE : KIND;
	case 26: case 27: case 28: return reading(m,pi,&e); case 29: r=reading(m,pi,&e); return e ? scalar(*e) : r; case 30: r=reading(m,pi,&e); return e ? num(*e)?NONE:NUMERIC : r;
	case 31: case 32: case 33: return writing(m,pi); case 34: return m.t==M::L||m.t==M::N ? NONE : KIND;
	case 35: return m.t==M::L ? NONE : KIND;
	case 37: case 38: case 39: return num(m) ? NONE : NUMERIC; case 40: case 41: case 42: case 43: case 44: return num(m) ? num(y) ? NONE : NUMERIC|KIND : NUMERIC;
	case 45: case 46: return reading(m,p,&e); case 47: r=reading(m,p,&e); return e ? scalar(*e) : r; case 48: case 49: case 50: return writing(m,p);
	default: return NONE; }
}
static M any(const char *n, unsigned kinds, unsigned d) { GenP g(kinds,vp_param("W",1)); g.keyfixed=true; g.strlen_=1; g.imax=9; M m=gen(g,d); (void)n; return m; }
static void plain(const M &m) { if (m.t==M::S && m.s.size()) vp_assume((m.s[0]>='0'&&m.s[0]<='9')||(m.s[0]>='a'&&m.s[0]<='z')); for (size_t i=0;i<m.l.size();i++) plain(m.l[i]); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) plain(i->second); }
extern "C" void vp_main() {
	const unsigned all=G_NULL|G_BOOL|G_INT|G_UNS|G_STR|G_BLOB|G_LIST|G_MAP; M m=any("value",all,vp_param("D",1)); plain(m); if (m.t==M::N && pick("float",2)) m=M::flt(1.5); 
	unsigned op=vp_param("OP",-1)>=0?(unsigned)vp_param("OP",-1):pick("op",OPS); bool arith=op>=40&&op<=44, pathop=op>=45&&op<=50||op==55||op==56;
	static const char *const K[]={"a","q"}; std::string k=K[pathop||op>=17&&op<=25||op>=51?pick("k",2):0]; unsigned i=pathop||op>=26&&op<=34||op>=51?pick("i",3):0; Path p; M y=M::num(3); if (arith) { y=any("operand",all,0); if (y.t==M::N && pick("float2",2)) y=M::flt(2.5); if (num(y)&&y.t!=M::F) vp_assume(y.i!=0); vp_assume(op!=43&&op!=44||m.t!=M::I||y.t!=M::U||m.i>=0); }
	if (pathop) { unsigned n=1+pick("len",2); for (unsigned j=0;j<n;j++) if (pick("index",2)) p.push_back(PathElement(i)); else p.push_back(PathElement(k)); }
	Variant v=toV(m), o=toV(y), root(Variant::MapType); unsigned how=pick("how",3); int got, want=expected(m,op,k,i,p,y);
	if (how==0) got=thrown(v,op,k,i,p,o); else if (how==1) { VariantRef r=v.Ref(); got=thrown(r,op,k,i,p,o); } else { root.Set("x",v); VariantRef r=root["x"]; got=thrown(r,op,k,i,p,o); v=root.Get("x"); }
	vp_assert((got&want)!=0,got==NONE?"an operation that the value does not have succeeded":want==NONE?"an operation that the value has was refused":"an exception of another class was thrown");
	if (got==KEY && !pathop) vp_assert(said.find(k)!=std::string::npos,"the exception does not name the missing key");
	if (got!=NONE) { vp_assert(said.size()>0,"an exception without text"); vp_assert(same(m,v),"a refused operation changed the value"); } vp_assert(same(y,o),"an operation changed its operand"); if (how==2) vp_assert(root.Size()==1,"an operation through a reference changed the container");
	vp_observe((uint64_t)got); obsV(v); vp_reach(got==NONE?"done":got==KEY?"key":got==RANGE?"range":got==KIND?"kind":got==NUMERIC?"numeric":got==OPERATION?"operation":"other");
}
