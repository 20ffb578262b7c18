// Values from C++ types and back: constructors, assignment, casts of whole containers, reading into variables.
#include "model.h"
#include <complex>
typedef std::vector<long> Longs; typedef std::vector<std::string> Texts; typedef std::map<std::string,long> LongMap;
static Variant previous() { switch (pick("previous",6)) { case 0: return Variant(); case 1: return Variant("text"); case 2: { Variant v(Variant::ListType); v.Append(1); return v; } case 3: { Variant v(Variant::MapType); v.Set("x",1); return v; } case 4: return Variant(1.5); default: return Variant(Blob::CreateCopy("b",1)); } }
template<class T> static void made(const T &x, const M &m, bool &ok) { Variant c(x), a=previous(); Variant before=a; bool cont=a.IsList()||a.IsMap(); unsigned n=cont?a.Size():0; a=x; ok=same(m,c)&&same(m,a); if (cont) vp_assert(before.Size()==n,"assigning to one name changed the value of another"); obsV(c); }
// every basic type
static void basic() {
	bool ok=false; uint64_t x=vp_u64("x");
	switch (pick("type",13)) {
	case 0: made((int)x,M::num((int)x),ok); break;
	case 1: made((unsigned)x,M::uns((unsigned)x),ok); break;
	case 2: made((long)x,M::num((long)x),ok); break;
	case 3: made((unsigned long)x,M::uns(x),ok); break;
	case 4: made((long long)x,M::num((long long)x),ok); break;
	case 5: made((unsigned long long)x,M::uns(x),ok); break;
	case 6: made((x&1)!=0,M::boolean(x&1),ok); break;
	case 7: { static const double T[]={0.0,-1.5,1e300,0.1}; double d=T[pick("d",4)]; made(d,M::flt(d),ok); break; }
	case 8: { static const double T[]={0.0,-1.5,1e300,0.1}; double d=T[pick("d",4)]; made((long double)d,M::flt(d),ok); break; }
	case 9: { std::string s=symstrv("s",vp_param("S",3)); made(s,M::str(s),ok); break; }
	case 10: { std::string s=symstrv("s",vp_param("S",3),true); made(s.c_str(),M::str(s),ok); break; }
	case 11: { std::string s=symstrv("s",vp_param("S",3)); made(Blob::CreateCopy(s.data(),s.size()),M::blob(s),ok); break; }
	default: { static const Variant::Type_t T[]={Variant::NullType,Variant::BoolType,Variant::IntegerType,Variant::UnsignedType,Variant::FloatType,Variant::StringType,Variant::ListType,Variant::MapType}; unsigned k=pick("kind",8); M m; switch (k) { case 1: m=M::boolean(false); break; case 2: m=M::num(0); break; case 3: m=M::uns(0); break; case 4: m=M::flt(0); break; case 5: m=M::str(""); break; case 6: m=M(M::L); break; case 7: m=M(M::O); break; } made(T[k],m,ok); break; }
	}
	vp_assert(ok,"a value made from a C++ value differs from it"); vp_reach("basic");
}
static M longs(const Longs &l) { M m(M::L); for (size_t i=0;i<l.size();i++) m.l.push_back(M::num(l[i])); return m; }
static M texts(const Texts &l) { M m(M::L); for (size_t i=0;i<l.size();i++) m.l.push_back(M::str(l[i])); return m; }
// whole containers, there and back
static void container() {
	unsigned n=pick("n",vp_param("N",3)+1); bool ok=false, back=false; std::vector<std::string> keys; for (unsigned i=0;i<n;i++) keys.push_back(symstr("key",1));
	switch (pick("type",8)) {
	case 0: { Longs a; for (unsigned i=0;i<n;i++) a.push_back((long)vp_u64("e")); made(a,longs(a),ok); Longs b=variant_cast<Longs>(Variant(a)); back=a==b && Variant(a).As<Longs>()==a; break; }
	case 1: { Texts a; for (unsigned i=0;i<n;i++) a.push_back(symstrv("e",1)); made(a,texts(a),ok); back=variant_cast<Texts>(Variant(a))==a; break; }
	case 2: { LongMap a; M m(M::O); for (unsigned i=0;i<n;i++) { a[keys[i]]=(long)vp_u64("e"); m.o[keys[i]]=M::num(a[keys[i]]); } made(a,m,ok); back=variant_cast<LongMap>(Variant(a))==a; break; }
	case 3: { std::vector<Longs> a; M m(M::L); for (unsigned i=0;i<n;i++) { Longs c; for (unsigned j=0;j<i;j++) c.push_back((long)vp_u64("e")); a.push_back(c); m.l.push_back(longs(c)); } made(a,m,ok); back=variant_cast<std::vector<Longs> >(Variant(a))==a; break; }
	case 4: { std::map<std::string,Texts> a; M m(M::O); for (unsigned i=0;i<n;i++) { Texts c; for (unsigned j=0;j<i;j++) c.push_back(symstr("e",1)); a[keys[i]]=c; m.o[keys[i]]=texts(c); } made(a,m,ok); back=variant_cast<std::map<std::string,Texts> >(Variant(a))==a; break; }
	case 5: { static const double T[]={0.0,-1.5,1e300}; std::vector<double> a; M m(M::L); for (unsigned i=0;i<n;i++) { double e=T[pick("e",3)]; a.push_back(e); m.l.push_back(M::flt(e)); } made(a,m,ok); back=variant_cast<std::vector<double> >(Variant(a))==a; break; }
	case 6: { std::vector<unsigned> a; M m(M::L); for (unsigned i=0;i<n;i++) { unsigned e=vp_u32("e"); a.push_back(e); m.l.push_back(M::uns(e)); } made(a,m,ok); back=variant_cast<std::vector<unsigned> >(Variant(a))==a; break; }
	default: { Variant::List a; M m(M::L); for (unsigned i=0;i<n;i++) { long e=(long)vp_u64("e"); a.push_back(i&1?Variant(e):Variant("s")); m.l.push_back(i&1?M::num(e):M::str("s")); } made(a,m,ok); Variant::List b=variant_cast<Variant::List>(Variant(a)); back=b.size()==a.size(); for (unsigned i=0;i<b.size();i++) back=back && same(m.l[i],b[i]); break; }
	}
	vp_assert(ok,"a value made from a container differs from it"); vp_assert(back,"casting back gives another container"); vp_reach("container");
}
// can this be read as an integer, and which one
static bool asLong(const M &m, int64_t &x) { switch (m.t) { case M::N: x=0; return true; case M::B: case M::I: x=m.i; return true; case M::U: x=m.i; return true; case M::S: { if (m.s.empty() || m.s[0]<'0' || m.s[0]>'9') return false; x=m.s[0]-'0'; return true; } default: return false; } }
static M any(unsigned d) { GenP g(G_NULL|G_BOOL|G_INT|G_STR|G_LIST|G_MAP|G_BLOB,vp_param("W",2)); g.strlen_=1; g.keyfixed=true; M m=gen(g,d); return m; }
static void plain(const M &m) { if (m.t==M::S && m.s.size()) vp_assume((m.s[0]>='0'&&m.s[0]<='9')||(m.s[0]>='a'&&m.s[0]<='z')); for (size_t i=0;i<m.l.size();i++) plain(m.l[i]); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) plain(i->second); }
// the cast of any value: element by element, or an exception
static void cast() {
	M m=any(1); plain(m); Variant v=toV(m); bool thrown=false;
	if (pick("map",2)) { LongMap got; try { got=variant_cast<LongMap>(v); } catch (const std::exception &) { thrown=true; } bool can=m.t==M::O; LongMap want; if (can) for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { int64_t x=0; if (!asLong(i->second,x)) can=false; want[i->first]=x; } vp_assert(thrown==!can,"a map casts exactly when every element does"); if (can) vp_assert(got==want,"the cast map differs"); vp_reach(can?"map":"refused"); }
	else { Longs got; try { got=variant_cast<Longs>(v); } catch (const std::exception &) { thrown=true; } bool can=m.t==M::L; Longs want; if (can) for (size_t i=0;i<m.l.size();i++) { int64_t x=0; if (!asLong(m.l[i],x)) can=false; want.push_back(x); } vp_assert(thrown==!can,"a list casts exactly when every element does"); if (can) vp_assert(got==want,"the cast list differs"); vp_reach(can?"list":"refused"); }
	vp_assert(same(m,v),"a cast changed the value"); vp_observe(thrown);
}
// complex numbers: nothing, a number, a list of up to two, a map with "real" and "imag"
static void cplx() {
	static const double T[]={0.0,-1.5,3.0,1e10}; double a=T[pick("a",4)], b=T[pick("b",4)]; Variant v; std::complex<double> want; bool can=true; unsigned f=pick("form",8);
	switch (f) { case 0: break; case 1: v=a; want=a; break; case 2: v=(long)a; want=(double)(long)a; break; case 3: v=Variant::ListType; break; case 4: v.Append(a); want=a; break; case 5: v.Append(a).Append(b); if (pick("third",2)) v.Append(7); want=std::complex<double>(a,b); break;
	case 6: { v=Variant::MapType; bool r=pick("hasreal",2), i=pick("hasimag",2); if (r) v.Set("real",a); if (i) v.Set("imag",b); v.Set("other",9); want=std::complex<double>(r?a:0,i?b:0); break; }
	default: can=false; v=pick("text",2)?Variant("1"):Variant(Blob::CreateCopy("1",1)); }
	bool thrown=false; std::complex<double> got; try { got=variant_cast<std::complex<double> >(v); } catch (const std::exception &) { thrown=true; } vp_assert(thrown==!can,"a complex number cast refused or accepted wrongly"); if (can) vp_assert(got.real()==want.real() && got.imag()==want.imag(),"another complex number"); vp_observe(thrown); vp_reach(can?"complex":"refused");
}
// reading an entry into a variable, with and without a value to use when it is missing
static void into() {
	M m=any(2); plain(m); vp_assume(m.t==M::O||m.t==M::L); Variant v=toV(m); long x=-77; static const char *const K[]={"a","b"}; std::string k=K[pick("k",2)]; int64_t w=0; bool path=m.t==M::L||pick("path",2), dflt=pick("default",2), thrown=false; const M *e=0; Path p;
	if (m.t==M::O) { std::map<std::string,M>::const_iterator i=m.o.find(k); if (i!=m.o.end()) e=&i->second; p.push_back(k); } else { unsigned i=pick("i",3); if (i<m.l.size()) e=&m.l[i]; p.push_back(i); }
	try { if (path) { if (dflt) v.GetPathInto(x,p,(long)55); else v.GetPathInto(x,p); } else if (dflt) v.GetInto(x,k,(long)55); else v.GetInto(x,k); } catch (const std::exception &) { thrown=true; }
	bool can=e?asLong(*e,w):dflt; if (!e) w=55; vp_assert(thrown==!can,"reading into a variable refused or accepted wrongly"); vp_assert(x==(can?(long)w:-77),can?"another value was read":"a failed read changed the variable"); vp_assert(same(m,v),"reading changed the value"); vp_observe((uint64_t)x); vp_reach(!can?"refused":e?"present":"default");
}
// numbers with a fraction, text and truth values as other types
static void real() {
	static const double T[]={0.0,0.5,-0.5,1.0,-1.0,2.75,-2.75,1e15,-1e15,255.0,65536.5}; double d=T[pick("d",11)]; Variant v(d); long t=(long)d;
	vp_assert(v.AsInt()==t && v.As<long>()==t && v.As<int>()==(int)t,"integer part of a number"); if (d>=0) vp_assert(v.AsUnsigned()==(unsigned long)d,"unsigned integer part of a number"); vp_assert(v.AsDouble()==d && v.As<float>()==(float)d && v.AsLongDouble()==d,"number as a number"); vp_assert(v.AsBool()==(d!=0),"number as a truth value");
	Variant i=v; ++i; vp_assert(i.IsFloat()&&i.AsDouble()==d+1,"increment"); i=v; --i; vp_assert(i.IsFloat()&&i.AsDouble()==d-1,"decrement"); i=-v; vp_assert(i.IsFloat()&&i.AsDouble()==-d,"negation"); vp_assert(v.IsFloat()&&v.AsDouble()==d,"an operation changed its operand"); vp_reach("real");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: basic(); break; case 1: container(); break; case 2: cast(); break; case 3: cplx(); break; case 4: into(); break; case 5: real(); break; } }
