// Comparison laws.
#include "model.h"
static int sgn(int x) { return x<0?-1:x>0; }
static bool isnum(const M &m) { return m.t==M::I||m.t==M::U||m.t==M::F; }
// mathematical order of two integers of any kind
static int cmpint(const M &a, const M &b) {
	bool na=a.t==M::I && a.i<0, nb=b.t==M::I && b.i<0;
	if (na && nb) return a.i<b.i?-1:a.i>b.i;
	if (na) return -1; if (nb) return 1;
	return (uint64_t)a.i<(uint64_t)b.i?-1:(uint64_t)a.i>(uint64_t)b.i;
}
static void ops(const Variant &a, const Variant &b, int c) {
	vp_assert((a==b)==(c==0),"operator =="); vp_assert((a!=b)==(c!=0),"operator !="); vp_assert((a<b)==(c<0),"operator <"); vp_assert((a>b)==(c>0),"operator >"); vp_assert((a<=b)==(c<=0),"operator <="); vp_assert((a>=b)==(c>=0),"operator >=");
}
static void refs(Variant &a, Variant &b, int c) {
	VariantRef ra=a.Ref(), rb=b.Ref();
	vp_assert(sgn(ra.Compare(b))==sgn(c),"reference on the left compares differently"); vp_assert(sgn(a.Compare(rb))==sgn(c),"reference on the right compares differently"); vp_assert(sgn(ra.Compare(rb))==sgn(c),"two references compare differently");
	vp_assert(ra.Comparable(b)==a.Comparable(b) && a.Comparable(rb)==a.Comparable(b),"comparability through a reference");
	Variant h; h["x"]=a; Variant p=h; VariantRef pr=p["x"]; vp_assert(sgn(pr.Compare(b))==sgn(c) && sgn(b.Compare(pr))==sgn(b.Compare(a)),"element reference compares differently");
}
static void ints() {
	M x=pick("ka",2)?M::uns(vp_u64("a")):M::num((int64_t)vp_u64("a")), y=pick("kb",2)?M::uns(vp_u64("b")):M::num((int64_t)vp_u64("b"));
	Variant a=toV(x), b=toV(y); int c=a.Compare(b), w=cmpint(x,y);
	vp_assert(c==w,"integers do not compare by value"); vp_assert(b.Compare(a)==-w,"integer comparison not antisymmetric"); vp_assert(a.Comparable(b),"numbers are comparable");
	vp_assert(a.Compare(a)==0,"number not equal to itself");
	switch (w) { case 0: vp_reach("eq"); break; case 1: vp_reach("gt"); break; default: vp_reach("lt"); }
	ops(a,b,w); refs(a,b,w); vp_observe(w+1);
}
static void floats() {
	static const double T[]={0.0,-0.0,0.5,-0.5,1.0,1e15,9007199254740993.0,9223372036854775808.0,-9223372036854775808.0,18446744073709551616.0,1e300,-1e300,4.9e-324};
	double f=T[pick("f",13)]; unsigned k=pick("k",3); Variant a(f); 
	if (k==2) { double g=T[pick("g",13)]; Variant b(g); int w=f<g?-1:f>g; vp_assert(a.Compare(b)==w,"floats do not compare by value"); ops(a,b,w); refs(a,b,w); vp_reach("ff"); return; }
	// float against every integer; long double holds both exactly
	uint64_t raw=vp_u64("i"); long double l=k?(long double)raw:(long double)(int64_t)raw; Variant b=k?Variant((unsigned long)raw):Variant((long)raw);
	int w=(long double)f<l?-1:(long double)f>l; vp_assert(a.Compare(b)==w,"float and integer do not compare by value"); vp_assert(b.Compare(a)==-w,"mixed comparison not antisymmetric"); vp_observe(w+1); vp_reach("fi");
}
static void strings() {
	M x=M::str(symstrv("a",vp_param("N",3))), y=M::str(symstrv("b",vp_param("N",3))); Variant a=toV(x), b=toV(y);
	int w=0; size_t n=x.s.size()<y.s.size()?x.s.size():y.s.size(); for (size_t i=0;i<n && !w;i++) { unsigned char p=x.s[i],q=y.s[i]; w=p<q?-1:p>q; } if (!w) w=x.s.size()<y.s.size()?-1:x.s.size()>y.s.size();
	int c=a.Compare(b); vp_assert(sgn(c)==w,"strings do not compare by bytes"); vp_assert(sgn(b.Compare(a))==-w,"string comparison not antisymmetric"); vp_assert(a.Compare(a)==0,"string equal to itself");
	ops(a,b,w); refs(a,b,w); vp_observe(w+1); vp_reach("strings");
}
// structural equality, numbers by value
static bool eq(const M &a, const M &b) {
	if (isnum(a) && isnum(b)) { if (a.t==M::F||b.t==M::F) { long double x=a.t==M::F?a.f:a.t==M::I?(long double)a.i:(long double)(uint64_t)a.i, y=b.t==M::F?b.f:b.t==M::I?(long double)b.i:(long double)(uint64_t)b.i; return x==y; } return cmpint(a,b)==0; }
	if (a.t!=b.t) return false;
	switch (a.t) {
	case M::N: return true; case M::B: return a.i==b.i; case M::S: case M::X: return eqs(a.s,b.s);
	case M::L: if (a.l.size()!=b.l.size()) return false; for (size_t i=0;i<a.l.size();i++) if (!eq(a.l[i],b.l[i])) return false; return true;
	default: { if (a.o.size()!=b.o.size()) return false; std::map<std::string,M>::const_iterator p=a.o.begin(),q=b.o.begin(); for (;p!=a.o.end();++p,++q) if (!eqs(p->first,q->first)||!eq(p->second,q->second)) return false; return true; }
	}
}
static void trees() {
	unsigned leaf=vp_param("LEAF",G_NULL|G_BOOL|G_INT|G_UNS|G_STR|G_BLOB); GenP p(leaf|G_LIST|G_MAP,vp_param("W",1));
	M x=gen(p,vp_param("D",1)), y=gen(p,vp_param("D",1)); Variant a=toV(x), b=toV(y);
	bool w=eq(x,y); int c=a.Compare(b), d=b.Compare(a);
	vp_assert((c==0)==w,"equality disagrees with structure"); vp_assert((d==0)==w,"equality not symmetric"); vp_assert(a.Compare(a)==0,"value not equal to itself"); Variant ac=a.Copy(); vp_assert(a==ac && ac==a,"value not equal to its copy");
	vp_assert(same(x,a) && same(y,b),"comparison changed an operand");
	bool cmp=x.t==y.t||(isnum(x)&&isnum(y)); vp_assert(a.Comparable(b)==cmp,"comparable exactly when of one type or both numeric"); if (!cmp) { vp_assert(c==1,"incomparable values compare as 1"); vp_reach("incomparable"); }
	if (vp_param("REFS",1)) { ops(a,b,c); refs(a,b,c); }
	vp_observe(w); vp_reach(w?"equal":"different");
}
static void index() { // list search uses equality
	GenP p(G_INT|G_UNS|G_STR|G_BOOL,2); M l(M::L); unsigned n=pick("n",vp_param("N",2)+1); for (unsigned i=0;i<n;i++) l.l.push_back(gen(p,0)); M x=gen(p,0); Variant v=toV(l);
	unsigned w=0; while (w<n && !eq(l.l[w],x)) w++; vp_assert(v.Index(toV(x))==w,"index of a value in a list"); vp_observe(w); vp_reach("index");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: ints(); break; case 1: floats(); break; case 2: strings(); break; case 3: trees(); break; case 4: index(); break; } }
