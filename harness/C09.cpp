// Numeric access and arithmetic.
#include "model.h"
#include <math.h>
static Variant mk(unsigned k, uint64_t r) { return k?Variant((unsigned long)r):Variant((long)r); }
// decimal text of a number, checked digit by digit without dividing
static void text(const std::string &t, bool neg, uint64_t mag) {
	size_t i=0; if (neg) { vp_assert(t.size()>1 && t[0]=='-',"sign of the text form"); i=1; }
	vp_assert(t.size()>i && t.size()-i<=20,"length of the text form"); uint64_t v=0; for (size_t k=i;k<t.size();k++) { vp_assert(t[k]>='0'&&t[k]<='9',"text form has a non-digit"); v=v*10+(unsigned char)(t[k]-'0'); }
	vp_assert(t[i]!='0'||t.size()==i+1,"leading zero in the text form"); vp_assert(v==mag,"text form denotes another number");
}
static void access() {
	unsigned k=pick("k",2); uint64_t r=vp_u64("v"); int64_t s=(int64_t)r; Variant v=mk(k,r);
	vp_assert(k?v.IsUnsigned():v.IsInt(),"kind"); vp_assert(v.IsNumber(),"is a number"); vp_assert(v.AsBool()==(r!=0),"as bool");
	if (k||s>=0) vp_assert(v.AsUnsigned()==r,"as unsigned"); if (!k||s>=0) vp_assert(v.AsInt()==s,"as int");
	vp_assert(k?(v.AsLongDouble()==(long double)r):(v.AsLongDouble()==(long double)s),"as long double"); vp_assert(k?(v.AsDouble()==(double)r):(v.AsDouble()==(double)s),"as double");
	// narrower types that can hold the value
	bool pos=k||s>=0; if (pos && r<=0xffffffffu) vp_assert(v.As<unsigned>()==(unsigned)r,"as 32-bit unsigned"); if (pos?r<=0x7fffffff:s>=-2147483648LL) vp_assert(v.As<int>()==(int)s,"as 32-bit int");
	if (pos?r<=0x7fff:s>=-32768) vp_assert(v.As<short>()==(short)s,"as short"); if (pos && r<=0xffff) vp_assert(v.As<unsigned short>()==(unsigned short)r,"as unsigned short");
	if (pos && r<=0xff) vp_assert(v.As<unsigned char>()==(unsigned char)r,"as unsigned char"); if (pos?r<=0x7f:s>=-128) { vp_assert(v.As<signed char>()==(signed char)s,"as signed char"); }
	if (pos) vp_assert(v.As<unsigned long>()==r,"as unsigned long"); if (!k) vp_assert(v.As<long>()==s,"as long"); vp_assert(v.As<bool>()==(r!=0),"as bool template");
	vp_observe(v.AsUnsigned()); vp_reach("access");
}
static void decimal() {
	unsigned k=pick("k",2); uint64_t r=vp_u64("v"); int64_t s=(int64_t)r; Variant v=mk(k,r); bool neg=!k&&s<0;
	std::string t=v.AsString(); text(t,neg,neg?0-r:r); Variant u(t); if (k) vp_assert(u.AsUnsigned()==r,"text form does not convert back"); else vp_assert(u.AsInt()==s,"text form does not convert back"); vp_reach(neg?"neg":"pos");
	vp_observe(r);
}
static void arith() {
	unsigned ka=pick("ka",2), kb=pick("kb",2), op=vp_param("OP",-1)>=0?vp_param("OP",-1):pick("op",5); uint64_t x=vp_u64("a"), y=vp_u64("b"); Variant a=mk(ka,x), b=mk(kb,y);
	unsigned bits=vp_param("BITS",64); if (op>=3 && bits<64) { uint64_t lim=1ull<<bits; if (ka) vp_assume(x<lim); else vp_assume(x+lim/2<lim); if (kb) vp_assume(y<lim); else vp_assume(y+lim/2<lim); }
	bool u=ka||kb; uint64_t w=0;
	if (op>=3) { vp_assume(y!=0); if (!u) vp_assume(!(x==0x8000000000000000ull && y==~0ull)); }
	switch (op) { case 0: w=x+y; break; case 1: w=x-y; break; case 2: w=x*y; break; case 3: w=u?x/y:(uint64_t)((int64_t)x/(int64_t)y); break; case 4: w=u?x%y:(uint64_t)((int64_t)x%(int64_t)y); break; }
	Variant r; unsigned how=pick("how",2); if (how==0) switch (op) { case 0: r=a+b; break; case 1: r=a-b; break; case 2: r=a*b; break; case 3: r=a/b; break; default: r=a%b; }
	else { r=a; VariantRef q=r.Ref(); switch (op) { case 0: q+=b; break; case 1: q-=b; break; case 2: q*=b; break; case 3: q/=b; break; default: q%=b; } }
	vp_assert(u?r.IsUnsigned():r.IsInt(),"kind of the result"); vp_assert((u?r.AsUnsigned():(uint64_t)r.AsInt())==w,"result of integer arithmetic");
	vp_assert((ka?a.AsUnsigned():(uint64_t)a.AsInt())==x && (kb?b.AsUnsigned():(uint64_t)b.AsInt())==y,"arithmetic changed an operand"); vp_assert(ka?a.IsUnsigned():a.IsInt(),"arithmetic changed an operand's kind");
	vp_observe(w); vp_reach("arith");
}
static void unary() {
	unsigned k=pick("k",2); uint64_t x=vp_u64("a"); Variant a=mk(k,x); uint64_t w=0; Variant r;
	switch (pick("op",6)) { case 0: w=0-x; r=-a; break; case 1: w=x+1; r=a; ++r; break; case 2: w=x-1; r=a; --r; break; case 3: { w=x; Variant t=a; r=t++; vp_assert((k?t.AsUnsigned():(uint64_t)t.AsInt())==x+1,"postfix increment"); break; } case 4: { w=x; Variant t=a; r=t--; vp_assert((k?t.AsUnsigned():(uint64_t)t.AsInt())==x-1,"postfix decrement"); break; } default: w=x; r=+a; }
	vp_assert(k?r.IsUnsigned():r.IsInt(),"kind of the result"); vp_assert((k?r.AsUnsigned():(uint64_t)r.AsInt())==w,"result of unary operation"); vp_assert((k?a.AsUnsigned():(uint64_t)a.AsInt())==x,"unary operation changed its operand"); vp_observe(w); vp_reach("unary");
}
static void mixed() { // a float operand makes the result a float
	static const double T[]={0.0,0.5,-3.0,1e10,7.25}; double f=T[pick("f",5)], g=T[pick("g",5)]; unsigned k=pick("k",4); Variant a(f), b; long double lb;
	if (k==0) { b=Variant(g); lb=g; } else if (k==1) { b=Variant((long)g); lb=(long)g; } else if (k==2) { vp_assume(g>=0); b=Variant((unsigned long)g); lb=(unsigned long)g; } else { b=a; lb=f; a=Variant((long)g); f=(long)g; }
	long double la=f; unsigned op=pick("op",5); if (op>=3) vp_assume(lb!=0); Variant r; long double w=0;
	switch (op) { case 0: r=a+b; w=la+lb; break; case 1: r=a-b; w=la-lb; break; case 2: r=a*b; w=la*lb; break; case 3: r=a/b; w=la/lb; break; default: r=a%b; w=fmod((double)la,(double)lb); }
	vp_assert(r.IsFloat(),"float arithmetic gives a float"); vp_assert(r.AsLongDouble()==w,"result of float arithmetic"); vp_reach("mixed");
}
static void refuse() { // operands and conversions that cannot work throw and change nothing
	GenP p(G_NULL|G_BOOL|G_STR|G_BLOB|G_LIST|G_MAP,1); M m=gen(p,1); Variant v=toV(m); unsigned side=pick("side",2), op=pick("op",5); Variant n((long)vp_u64("n")); vp_assume(n.AsInt()!=0);
	bool thrown=false; Variant a=side?v:n, b=side?n:v; try { switch (op) { case 0: a+=b; break; case 1: a-=b; break; case 2: a*=b; break; case 3: a/=b; break; default: a%=b; } } catch (const std::exception &) { thrown=true; }
	vp_assert(thrown,"arithmetic on a value that is not a number must throw"); vp_assert(same(m,v),"failed arithmetic changed its operand");
	unsigned c=pick("conv",5); thrown=false; bool must=m.t==M::X||m.t==M::L||m.t==M::O;
	try { switch (c) { case 0: v.AsInt(); break; case 1: v.AsUnsigned(); break; case 2: v.AsLongDouble(); break; case 3: v.AsBool(); break; default: v.AsString(); } } catch (const std::exception &) { thrown=true; }
	if (must) vp_assert(thrown,"conversion that cannot succeed must throw"); if (m.t==M::N||m.t==M::B) { vp_assert(!thrown,"null and bool convert to numbers"); vp_assert(v.AsInt()==(m.t==M::B?m.i:0) && v.AsUnsigned()==(uint64_t)(m.t==M::B?m.i:0),"null and bool as number"); vp_assert(eqs(v.AsString(),m.t==M::N?"":m.i?"true":"false"),"null and bool as text"); }
	vp_observe(thrown); vp_reach("refuse");
}
// integer conversion of arbitrary text: leading blanks, optional sign, then the longest run of digits; no digits -> throw
static void strtext() {
	std::string t=symstrv("t",vp_param("N",3)); Variant v(t); size_t i=0; while (i<t.size() && (t[i]==' '||(t[i]>=9&&t[i]<=13))) i++;
	bool neg=false; if (i<t.size() && (t[i]=='-'||t[i]=='+')) { neg=t[i]=='-'; i++; }
	size_t d=i; int64_t w=0; while (i<t.size() && t[i]>='0'&&t[i]<='9') { w=w*10+(t[i]-'0'); i++; } bool ok=i>d; if (neg) w=-w;
	bool thrown=false; int64_t r=0; try { r=v.AsInt(); } catch (const UnableToConvertError &) { thrown=true; } vp_assert(thrown==!ok,"text converts to an integer exactly when it starts with one"); if (ok) { vp_assert(r==w,"integer value of text"); vp_reach("number"); } else vp_reach("not-number");
	if (!neg) { thrown=false; uint64_t u=0; try { u=v.AsUnsigned(); } catch (const UnableToConvertError &) { thrown=true; } vp_assert(thrown==!ok,"text converts to unsigned exactly when it starts with a number"); if (ok) vp_assert(u==(uint64_t)w,"unsigned value of text"); }
	vp_observe(thrown); vp_observe((uint64_t)r);
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: access(); break; case 1: decimal(); break; case 2: arith(); break; case 3: unary(); break; case 4: mixed(); break; case 5: refuse(); break; case 6: strtext(); break; } }
