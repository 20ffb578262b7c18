// Command lines: every given option and argument ends up where its declaration says, constraints are enforced, and lines
// that satisfy them are not rejected.
#include "model.h"
#include "gopt.h"
#include <Variant/ArgParse.h>
#include <Variant/Schema.h>
extern "C" { int vp_opaque_numbers=1; }
// what must happen: the result, or an exit
static M want(M::O); static bool reject, mayReject; static const char *why="";
extern "C" int vp_exit_hook(int code) { vp_observe(77); if (!reject && !mayReject) vp_fail(code?"a valid command line was rejected":"a valid command line only printed help"); vp_reach("rejected"); return 0; }
static std::vector<std::string> words;
static void rej(const char *w) { if (!reject) why=w; reject=true; }
// the words of a command line are scribbled over once it has been parsed
static Variant parse(ArgParse &p) {
	static char buf[2][10][40], prog[]="prog"; static unsigned turn; static char *argv[12]; char (*w)[40]=buf[turn++%2]; unsigned n=0; argv[n++]=prog;
	for (unsigned i=0;i<words.size();i++) { if (words[i].size()>=40) vp_error("word too long"); memcpy(w[i],words[i].c_str(),words[i].size()+1); argv[n++]=w[i]; } argv[n]=0;
	Variant r=p.Parse(n,argv); for (unsigned i=0;i<10;i++) { memset(w[i],'c',39); w[i][39]=0; } return r;
}
static bool sp(char c) { return c==' '||(c>='\t'&&c<='\r'); }
// ---- declarations
enum { INT, UINT, STR, BOOL, FLT, GUESS, FLAG, OFF, CONST, COUNT, APPEND, NKIND };
struct D { unsigned kind; char sh; const char *lo, *key; bool hasMin, hasMax, choices, deflt; int mn, mx; unsigned minLen, maxLen, minArgs, maxArgs; bool pattern, required; bool given; M val; unsigned n;
	D(unsigned k, char s, const char *l, const char *ky) : kind(k), sh(s), lo(l), key(ky), hasMin(false), hasMax(false), choices(false), deflt(false), mn(0), mx(0), minLen(0), maxLen(~0u), minArgs(0), maxArgs(0), pattern(false), required(false), given(false), n(0) {}
	bool arg() const { return kind<=GUESS || kind==APPEND; } };
static std::vector<D> ds;
static void declare(ArgParse &p) {
	for (unsigned i=0;i<ds.size();i++) { D &d=ds[i];
		if (d.kind==FLAG) { p.AddFlag(d.key,d.sh,d.lo,"help"); continue; }
		ArgParseOption o=p.AddOption(d.key,d.sh,d.lo,"help");
		switch (d.kind) {
		case INT: o.Type(ARGTYPE_INT); break; case UINT: o.Type(ARGTYPE_UINT); break; case STR: o.Type(ARGTYPE_STRING); break; case BOOL: o.Type(ARGTYPE_BOOL); break; case FLT: o.Type(ARGTYPE_FLOAT); break; case GUESS: break;
		case OFF: o.Action(ARGACTION_STORE_FALSE); break; case CONST: o.Action(ARGACTION_STORE_CONST).Const(42); break; case COUNT: o.Action(ARGACTION_COUNT); break;
		case APPEND: o.Action(ARGACTION_APPEND).Type(ARGTYPE_INT); if (d.minArgs) o.MinArgs(d.minArgs); if (d.maxArgs) o.MaxArgs(d.maxArgs); break;
		}
		if (d.hasMin) o.Minimum(d.mn); if (d.hasMax) o.Maximum(d.mx); if (d.minLen) o.MinLength(d.minLen); if (d.maxLen!=~0u) o.MaxLength(d.maxLen); if (d.pattern) o.Pattern("^[a-m]*$");
		if (d.choices) { if (d.kind==STR) o.AddChoice("a").AddChoice("bc"); else o.AddChoice(3).AddChoice(7); }
		if (d.deflt) o.Default(d.kind==STR?Variant("dflt"):Variant(5)); if (d.required) o.Required(); else if (!d.minArgs) o.Required().Required(false);
	}
}
// the number a text denotes; false if it is none
static bool number(const std::string &t, bool &neg, uint64_t &v) {
	size_t i=0; neg=false; v=0; while (i<t.size() && sp(t[i])) i++; if (i<t.size() && (t[i]=='-' || t[i]=='+')) neg=t[i++]=='-'; if (i==t.size()) return false;
	for (;i<t.size();i++) { if (t[i]<'0' || t[i]>'9') return false; v=v*10+(unsigned char)(t[i]-'0'); } return true;
}
static void constrained(D &d, const M &m) {
	if (m.t==M::I || m.t==M::U) { int64_t v=m.i; // small
		if (d.hasMin && v<d.mn) rej("too small"); if (d.hasMax && v>d.mx) rej("too large"); if (d.choices && v!=3 && v!=7) rej("not a choice"); }
	if (m.t==M::S) { if (m.s.size()<d.minLen) rej("too short"); if (m.s.size()>d.maxLen) rej("too long"); if (d.choices && !eqs(m.s,"a") && !eqs(m.s,"bc")) rej("not a choice"); if (d.pattern) for (unsigned i=0;i<m.s.size();i++) if (m.s[i]<'a' || m.s[i]>'m') rej("pattern"); }
}
struct T { const char *t; M m; bool ok; };
static M floatText(std::string &t) { static const char *const X[]={"1.5","-2","1e3","","x","1.5x"," 2","+.25"}; static const double V[]={1.5,-2,1000,0,0,0,2,.25}; unsigned k=pick("float",8); t=X[k]; if (k>=3 && k<6) rej("not a number"); return M::flt(V[k]); }
static M boolText(std::string &t) { static const char *const X[]={"no","0","False","n","fA","yes","1","nope","true"}; unsigned k=pick("bool",9); t=X[k]; return M::boolean(k>=5); }
static M guessText(std::string &t) { static const char *const X[]={"12","-7","true","no","0x1f","text","1.5",""}; unsigned k=pick("guess",8); t=X[k]; switch (k) { case 0: return M::num(12); case 1: return M::num(-7); case 2: return M::boolean(true); case 4: return M::num(31); case 6: return M::flt(1.5); default: return M::str(t); } }
// the text of an option's argument, and the value it stands for
static M value(D &d, std::string &t) {
	switch (d.kind) {
	case INT: case UINT: case APPEND: { t=symstrv("number",vp_param("N",3),true); bool neg; uint64_t v; if (!number(t,neg,v)) { rej("not an integer"); return M(); } if (d.kind==UINT) { if (neg && v) rej("negative"); return M::uns(v); } return M::num(neg?-(int64_t)v:(int64_t)v); }
	case STR: t=symstrv("text",vp_param("S",3),true); return M::str(t);
	case BOOL: return boolText(t); case FLT: return floatText(t); default: return guessText(t);
	}
}
static void use(D &d, const M &m) {
	d.n++; d.given=true;
	switch (d.kind) {
	case FLAG: d.val=M::boolean(true); break; case OFF: d.val=M::boolean(false); break; case CONST: d.val=M::num(42); break; case COUNT: break;
	case APPEND: constrained(d,m); d.val.t=M::L; d.val.l.push_back(m); break;
	default: constrained(d,m); d.val=m;
	}
}
// one option on the command line, written in one of the possible ways
static void option(D &d) {
	bool had=reject; std::string t; M m; if (d.arg()) m=value(d,t);
	unsigned form=vp_param("SCHEMA",0)||vp_param("MERGED",0)?0:pick("form",d.arg()?5:4); std::string s(1,'-');
	if (!d.arg()) switch (form) {
		case 0: words.push_back(s+d.sh); break; case 1: words.push_back(std::string("--")+d.lo); break; case 2: words.push_back(std::string("--")+std::string(d.lo).substr(0,4)); break;
		default: if (pick("value",2)) { words.push_back(std::string("--")+d.lo+"=1"); rej("takes no argument"); } else { words.push_back(s+d.sh+d.sh); use(d,m); } break; }
	else switch (form) {
		case 0: words.push_back(s+d.sh); words.push_back(t); break; case 1: vp_assume(!t.empty()); words.push_back(s+d.sh+t); break; case 2: words.push_back(std::string("--")+d.lo+"="+t); break;
		case 3: words.push_back(std::string("--")+d.lo); words.push_back(t); break; default: words.push_back(std::string("--")+std::string(d.lo).substr(0,4)+"="+t); break; }
	(void)had; if (!reject) use(d,m);
}
static void put(const char *key, const M &m) { const char *s=strchr(key,'/'); if (!s) want.o[key]=m; else { M &c=want.o[std::string(key,s-key)]; c.t=M::O; c.o[s+1]=m; } }
static void finish() {
	for (unsigned i=0;i<ds.size();i++) { D &d=ds[i];
		if (d.kind==COUNT) { put(d.key,M::uns(d.n)); if (d.required && !d.given) rej("missing"); continue; }
		if (d.kind==APPEND && d.given) { if (d.maxArgs && d.n>d.maxArgs) rej("too many"); if (d.n<d.minArgs) rej("too few"); }
		if (!d.given) { if (d.kind==FLAG) put(d.key,M::boolean(false)); else if (d.deflt) { if (d.kind==APPEND) { M l(M::L); l.l.push_back(M::num(5)); put(d.key,l); if (d.minArgs>1) rej("too few"); } else put(d.key,d.kind==STR?M::str("dflt"):M::num(5)); } else if (d.required || (d.kind==APPEND && d.minArgs)) rej("missing"); continue; }
		put(d.key,d.val);
	}
}
static bool sameR(const M &m, const Variant &v) { return same(m,v,true); }
static void verify(ArgParse &p, const Variant &r) {
	vp_assert(!reject,why); vp_assert(sameR(want,r),"the result is not what was given"); obsV(r); vp_reach("accepted");
	if (vp_param("SCHEMA",0)) vp_assert(!SchemaValidate(p.GenerateSchema(),r).Error(),"the result does not satisfy the generated schema");
}
static void reset() { words.clear(); ds.clear(); want=M(M::O); reject=mayReject=false; }
static std::string sym1(const char *n) { std::string s=symstr(n,1); vp_assume(s[0]!=0); return s; }
// ---- positional arguments
static void positional(ArgParse &p, unsigned cfg, unsigned mn, unsigned mx) {
	if (cfg>=1) p.AddArgument("first","help").Type(ARGTYPE_STRING);
	if (cfg==2) p.AddArgument("rest","help").Type(ARGTYPE_STRING).Action(ARGACTION_APPEND).MinArgs(mn).MaxArgs(mx);
}
static void mixed() {
	ArgParse p("prog",false); ds.push_back(D(STR,'s',"string","deep/string")); ds.push_back(D(FLAG,'f',"flag","flag")); ds.push_back(D(COUNT,'c',"count","count")); declare(p);
	unsigned cfg=pick("arguments",3), mn=0, mx=0; if (cfg==2) { mn=pick("minArgs",2); mx=pick("maxArgs",3); } positional(p,cfg,mn,mx);
	std::vector<std::string> pos; bool ended=false; unsigned n=pick("tokens",vp_param("TOKS",3)+1);
	for (unsigned i=0;i<n;i++) {
		unsigned k=ended?5:pick("token",6); std::string t;
		switch (k) {
		case 0: t=sym1("text"); words.push_back("-s"); words.push_back(t); use(ds[0],M::str(t)); break;
		case 1: words.push_back("-fc"); use(ds[1],M()); use(ds[2],M()); break;
		case 2: t=sym1("text"); words.push_back("-cs"+t); use(ds[2],M()); use(ds[0],M::str(t)); break;
		case 3: words.push_back("--flag"); use(ds[1],M()); break;
		case 4: words.push_back("--"); ended=true; break;
		default: t=symstrv("word",2,true); if (!ended && t.size()==2) vp_assume(t[0]!='-'); if (ended && vp_param("DASH",0)) vp_assume(t.size()==2 && t[0]=='-'); words.push_back(t); pos.push_back(t); break;
		}
	}
	if (cfg>=1 && !pos.empty()) { put("first",M::str(pos[0])); pos.erase(pos.begin()); }
	if (cfg==2) { M l(M::L); while (!pos.empty() && (!mx || l.l.size()<mx)) { l.l.push_back(M::str(pos[0])); pos.erase(pos.begin()); } if (!l.l.empty()) put("rest",l); else if (mn) rej("missing"); vp_reach("list"); }
	if (!pos.empty()) rej("too many arguments");
	finish(); if (ended) vp_reach("ended"); Variant r=parse(p); verify(p,r);
}
// ---- groups
static void groups() {
	ArgParse p("prog",false); ds.push_back(D(COUNT,'c',"count","count")); ds.push_back(D(FLAG,'f',"flag","flag")); ds.push_back(D(INT,'i',"int","g/int")); ds.push_back(D(STR,'s',"string","g/string"));
	bool schema=vp_param("SCHEMA",0); ds[3].deflt=pick("default",2); declare(p);
	bool in[4], excl=pick("exclusive",2), req=excl && pick("required",2); unsigned k=0; OptionGroup g=p.AddGroup("grp","title","text");
	for (unsigned i=0;i<4;i++) { in[i]=schema && i!=1 && i!=3?i==0:pick("member",2); if (in[i]) { if (i==2) p.At(ds[i].key).Group("grp"); else g.Add(ds[i].key); k++; } } if (excl) g.MutuallyExclusive(); if (req) p.GetGroup("grp").Required();
	unsigned n=pick("tokens",vp_param("TOKS",2)+1), given=0;
	for (unsigned i=0;i<n;i++) switch (pick("token",4)) {
		case 0: words.push_back("-c"); use(ds[0],M()); break; case 1: words.push_back("-f"); use(ds[1],M()); break;
		case 2: words.push_back("-i3"); use(ds[2],M::num(3)); break; default: words.push_back("--string=x"); use(ds[3],M::str("x")); break; }
	for (unsigned i=0;i<4;i++) if (in[i] && ds[i].given) given++;
	// a default is only added when nothing else of an exclusive group is there
	bool have=given>0;
	for (unsigned i=0;i<4;i++) { D &d=ds[i]; if (excl && in[i] && !d.given && have) continue;
		if (d.kind==COUNT) { put(d.key,M::uns(d.n)); have|=in[i]; } else if (d.given) put(d.key,d.val); else if (d.kind==FLAG) { put(d.key,M::boolean(false)); have|=in[i]; } else if (d.deflt) { put(d.key,M::str("dflt")); have|=in[i]; } }
	if (excl && given>1) rej("exclusive options together"); if (req && !have) rej("nothing of a required group");
	Variant r=parse(p); verify(p,r); if (excl && given) vp_reach("exclusive");
}
// ---- environment
static std::string envText; static bool envSet;
extern "C" const char *vp_getenv(const char *n) { return envSet && !strcmp(n,"VP_C26")?envText.c_str():0; }
static void environment() {
	ArgParse p("prog",false); D d(pick("kind",2)?STR:INT,'v',"value","value"); d.deflt=pick("default",2); d.required=pick("required",2); if (d.kind==INT) { d.hasMax=true; d.mx=50; } else { d.maxLen=1; d.minLen=1; } ds.push_back(d); declare(p); p.At("value").Env("VP_C26");
	envSet=pick("set",2); if (envSet) { M m=value(ds[0],envText); if (!reject) use(ds[0],m); vp_reach("set"); }
	if (vp_native()) { if (envSet) setenv("VP_C26",envText.c_str(),1); else unsetenv("VP_C26"); }
	if (pick("given",2)) { std::string t="7"; words.push_back("-v"); words.push_back(t); if (!reject) use(ds[0],d.kind==INT?M::num(7):M::str(t)); }
	finish(); Variant r=parse(p); verify(p,r);
}
// ---- numbers near the limits of 64 bits
static void limits() {
	ArgParse p("prog",false); bool uns=pick("unsigned",2); unsigned base=pick("base",3), sign=pick("sign",3), con=pick("constraint",3);
	ArgParseOption o=p.AddOption("v",'v',"value","help").Type(uns?ARGTYPE_UINT:ARGTYPE_INT); if (con==1) o.Minimum(-5); if (con==2) o.Maximum(5);
	static const char *const P[]={"9223372036854775","18446744073709551","184467440737095516"}; static const uint64_t V[]={9223372036854775ull,18446744073709551ull,184467440737095516ull};
	std::string d; uint64_t v=0; for (unsigned i=0;i<3;i++) { uint8_t c=vp_u8("digit"); vp_assume(c<10); d+=(char)('0'+c); v=v*10+c; }
	words.push_back("-v"); words.push_back((sign==1?"-":sign==2?"+":"")+std::string(P[base])+d);
	bool big=base==2 || (base==1 && v>615); uint64_t n=V[base]*1000+v;
	if (big) rej("too large for 64 bits"); else if (sign==1) { if (uns || n>(uint64_t)INT64_MIN) rej("too small for 64 bits"); else if (con==1) rej("too small"); } else if (con==2) rej("too large");
	errno=pick("errno",2)?ERANGE:0; // left over from something else
	Variant r=parse(p); vp_assert(!reject,why); vp_assert(same(sign==1?M::num((int64_t)(0-n)):M::uns(n),r["v"],true),"the number is not the one given"); obsV(r); vp_reach("accepted");
}
// ---- any words at all
static void any() {
	ArgParse p("prog",false); D a(INT,'i',"int","int"), b(STR,'s',"st","st"), c(APPEND,'a',"ap","ap"); a.hasMin=a.hasMax=true; a.mn=2; a.mx=6; b.minLen=1; b.maxLen=1; c.maxArgs=1; ds.push_back(a); ds.push_back(b); ds.push_back(c); ds.push_back(D(FLAG,'f',"flag","flag")); ds.push_back(D(COUNT,'c',"count","count")); declare(p);
	p.AddArgument("first","help").Type(ARGTYPE_STRING).MaxLength(1);
	unsigned n=vp_param("WORDS",2); for (unsigned i=0;i<n;i++) words.push_back(symstrv("word",vp_param("LEN",3),true)); mayReject=true;
	Variant r=parse(p); vp_reach("accepted"); obsV(r); vp_assert(r.IsMap(),"no map");
	for (Variant::ConstMapIterator i=r.MapBegin();i!=r.MapEnd();++i) {
		const std::string &k=i->first; const Variant &v=i->second;
		if (k=="int") vp_assert(v.IsNumber() && v.AsInt()>=2 && v.AsInt()<=6,"number outside its range");
		else if (k=="st") vp_assert(v.IsString() && v.AsString().size()==1,"string outside its length");
		else if (k=="ap") { vp_assert(v.IsList() && v.Size()==1,"list outside its length"); vp_assert(v.AsList()[0].IsNumber(),"no number in the list"); }
		else if (k=="flag") vp_assert(v.IsBool(),"flag is no boolean"); else if (k=="count") vp_assert(v.IsNumber() && v.AsInt()>=0 && v.AsInt()<=(int)(n*vp_param("LEN",3)),"count out of range");
		else if (k=="first") vp_assert(v.IsString() && v.AsString().size()<=1,"argument too long"); else vp_fail("a key nobody declared");
	}
	vp_assert(r.Contains("flag") && r.Contains("count"),"flag or count is missing");
	if (vp_param("SCHEMA",0)) vp_assert(!SchemaValidate(p.GenerateSchema(),r).Error(),"the result does not satisfy the generated schema");
}
// ---- the same description parses the same way, however often
static void line() { words.clear(); unsigned n=pick("tokens",vp_param("TOKS",2)+1); for (unsigned i=0;i<n;i++) switch (pick("token",5)) { case 0: words.push_back("-c"); break; case 1: words.push_back("-f"); break; case 2: words.push_back("-a"); words.push_back(sym1("number")); break; case 3: words.push_back("--st="+sym1("text")); break; default: words.push_back("w"); break; } }
static bool need; // the list is required
static void build(ArgParse &p) {
	ds.clear(); D a(APPEND,'a',"ap","ap"), b(STR,'s',"st","deep/st"); a.hasMin=true; a.mn=4; b.choices=true; a.required=need; ds.push_back(a); ds.push_back(b); ds.push_back(D(FLAG,'f',"flag","flag")); ds.push_back(D(COUNT,'c',"count","count")); declare(p); positional(p,2,0,0);
	p.AddGroup("g").Add("count").Add("deep/st").MutuallyExclusive();
}
static void again() {
	unsigned how=pick("how",2); mayReject=true; need=how==1 && pick("need",2);
	if (how==0) { // twice with the same object
		ArgParse p("prog",false), q("prog",false); build(p); build(q); line(); Variant first=parse(p), keep=first.Copy(); line(); Variant x=parse(q); mayReject=false; Variant y=parse(p); vp_assert(y==x,"an earlier call changes the result"); vp_assert(first==keep,"a later call changes an earlier result"); obsV(y); vp_reach("twice");
	} else { // from the description
		ArgParse p("prog",false), q("prog",false); build(p); q.Merge(p.GetDescription()); q.Validate(); line(); bool o=pick("order",2); Variant x=parse(o?p:q); mayReject=false; if (need) vp_assert(x.Contains("ap"),"a required option was not asked for"); Variant y=parse(o?q:p); vp_assert(x==y,"the merged description parses differently"); obsV(x); vp_reach("merged");
	}
}
// ---- every value of a list meets the constraints
static void list() {
	D d(APPEND,'v',"value","value"); unsigned c=pick("constraint",3); d.hasMin=d.hasMax=c==1; d.choices=c==2; d.mn=(int8_t)vp_u8("min"); d.mx=(int8_t)vp_u8("max"); d.deflt=pick("default",2); ds.push_back(d);
	ArgParse p("prog",false); bool arg=pick("argument",2); if (!arg) declare(p); else { ArgParseOption o=p.AddArgument("value","help").Type(ARGTYPE_INT).Action(ARGACTION_APPEND).MinArgs(0).MaxArgs(0); if (d.hasMin) o.Minimum(d.mn).Maximum(d.mx); if (d.choices) o.AddChoice(3).AddChoice(7); if (d.deflt) o.Default(5); o.Required().Required(false); }
	unsigned n=pick("values",vp_param("V",3)+1); for (unsigned i=0;i<n;i++) { uint8_t x=vp_u8("digit"); vp_assume(x<10); if (!arg) words.push_back("-v"); words.push_back(std::string(1,(char)('0'+x))); use(ds[0],M::num(x)); }
	finish(); Variant r=parse(p); verify(p,r);
}
// ---- the generated schema accepts a value exactly when the declaration allows it
static M plainValue(const char *n, unsigned k, unsigned opt) { bool num=opt==INT||opt==UINT||opt==APPEND||opt==CONST||opt==COUNT; switch (k) { case 0: return M::num(num?(int8_t)vp_u8(n):3); case 1: return M::uns(num?vp_u8(n):3); case 2: { if (opt!=STR) return M::str("a"); std::string t=symstrv(n,vp_param("S",3)); for (unsigned i=0;i<t.size();i++) vp_assume(t[i]>='a'&&t[i]<='n'); return M::str(t); } case 3: return M::boolean(pick(n,2)); case 4: return M::flt(pick(n,2)?1.5:-2.5); case 5: return M(); default: { M m(M::L); m.l.push_back(M::num(3)); return m; } } }
static bool isInt(const M &m) { return m.t==M::I||m.t==M::U; }
static bool allowed(const D &d, const M &m) {
	switch (d.kind) {
	case INT: case UINT: if (!isInt(m)) return false; break; case STR: if (m.t!=M::S) return false; break; case FLT: if (m.t!=M::F && !isInt(m)) return false; break; case BOOL: case FLAG: case OFF: return m.t==M::B; case CONST: return isInt(m) && m.i==42; case COUNT: return isInt(m) && m.i>=0; default: break; }
	reject=false; D c=d; constrained(c,m); bool r=reject; reject=false; return !r;
}
static void strict() {
	unsigned k=vp_param("KIND",NKIND); if (k>=NKIND) k=pick("kind",NKIND); D d(k,'v',"value",k==INT&&pick("deep",2)?"deep/value":"value"); d.mn=(int8_t)vp_u8("min"); d.mx=(int8_t)vp_u8("max");
	if (k==INT || k==UINT || k==APPEND) { unsigned c=pick("constraint",4); d.hasMin=c==1; d.hasMax=c==1 || c==2; d.choices=c==3; } if (k==STR) { unsigned c=pick("constraint",4); if (c==1) { d.minLen=1; d.maxLen=vp_param("S",3)-1; } d.pattern=c==2; d.choices=c==3; } bool counted=k==APPEND && !d.hasMin && !d.hasMax && !d.choices; if (counted) { d.minArgs=pick("minArgs",3); d.maxArgs=pick("maxArgs",3); vp_assume(!d.maxArgs||d.maxArgs>=d.minArgs); } bool there=pick("there",2); if (k!=FLAG && !there) d.required=pick("required",2);
	ds.push_back(d); ArgParse p("prog",false); declare(p); Variant schema=p.GenerateSchema(), keep=schema.Copy(); bool ok=true;
	if (there) { M m; if (k==APPEND) { m=M(M::L); unsigned n=pick("values",3); for (unsigned i=0;i<n;i++) { M e=counted||i+1<n?M::num(3):plainValue("element",pick("what",3),k); if (e.t==M::S) ok=false; else ok=ok && allowed(d,e); m.l.push_back(e); } ok=ok && n>=d.minArgs && (!d.maxArgs || n<=d.maxArgs); } else { m=plainValue("given",pick("what",7),k); ok=allowed(d,m); } put(d.key,m); } else ok=!d.required && !(k==APPEND && d.minArgs);
	Variant v=toV(want); SchemaResult r=SchemaValidate(schema,v); vp_assert(r.Error()==!ok,ok?"the generated schema refuses what the declaration allows":"the generated schema accepts what the declaration forbids"); if (k==FLAG) vp_assert(p.GenerateSchema()==keep,"the schema generated again differs"); vp_observe(ok); vp_reach(!there?"absent":ok?"allowed":"forbidden");
}
// ---- declaring: what may be declared twice, and by which calls
static void declaring() {
	static const char *const L[]={"","one","two"}, *const K[]={"k","l","deep/k"}; ArgParse p("prog",false); bool resolve=pick("resolve",2); if (resolve) p.ConflictResolution(); else if (pick("reset",2)) { p.ConflictResolution(); p.ConflictResolution(false); }
	const char *lo[2], *key[2]; int sh[2]; bool there[2];
	for (unsigned i=0;i<2;i++) { lo[i]=L[pick("long",3)]; key[i]=K[i?pick("key",3):0]; uint8_t c=vp_u8("short"); vp_assume(c==0||(c>='a'&&c<='c')); sh[i]=c; bool bad=i && there[0] && (!strcmp(key[0],key[1]) || (*lo[0] && !strcmp(lo[0],lo[1]))); if (i && there[0] && sh[0] && sh[0]==sh[1]) { if (!resolve) bad=true; sh[1]=0; } if (!*lo[i] && !sh[i]) bad=true;
		Variant before=p.GetDescription(); bool thrown=false; try { ArgParseOption o=p.AddOption(key[i],c,lo[i],"help").Type(ARGTYPE_STRING); if (pick("choices",2)) { std::vector<Variant> v; v.push_back("v0"); v.push_back("v1"); o.SetChoices(v); vp_assert(o.GetChoices().size()==2 && o.GetChoices()[1]=="v1","the choices given"); } } catch (const std::exception &) { thrown=true; }
		vp_assert(thrown==bad,bad?"a declaration in conflict with another was accepted":"a declaration without conflict was refused"); there[i]=!bad; if (bad) vp_assert(p.GetDescription()==before,"a refused declaration changed the others"); bool found=true; try { p.At(key[i]); } catch (const std::exception &) { found=false; } vp_assert(found==(there[i]||(i && there[0] && !strcmp(key[0],key[1]))),"looking up a declared option"); }
	for (unsigned i=0;i<2;i++) if (there[i] && pick("given",2)) { std::string v(i?"v1":"v0"); if (sh[i] && (!*lo[i] || pick("by",2))) { words.push_back(std::string("-")+(char)sh[i]); words.push_back(v); } else words.push_back(std::string("--")+lo[i]+"="+v); put(key[i],M::str(v)); }
	Variant r=parse(p); vp_assert(sameR(want,r),"the result is not what was given"); obsV(r); vp_reach(there[0]&&there[1]?"both":there[0]||there[1]?"one":"none");
}
extern "C" void vp_main() {
	reset(); unsigned toks=vp_param("TOKS",1);
	switch (vp_param("CASE",0)) {
	case 0: { // any kind of option
		unsigned k=vp_param("KIND",NKIND); if (k>=NKIND) k=pick("kind",NKIND); D d(k,'v',"value","value"); int64_t a=(int8_t)vp_u8("min"), b=(int8_t)vp_u8("max");
		if (k==INT || k==UINT || k==APPEND) { unsigned c=pick("constraint",4); d.hasMin=c==1; d.hasMax=c==1 || c==2; d.choices=c==3; d.mn=a; d.mx=b; }
		if (k==STR) { unsigned c=pick("constraint",4); if (c==1) { d.minLen=1; d.maxLen=2; } d.pattern=c==2; d.choices=c==3; }
		if (k==APPEND) { d.minArgs=pick("minArgs",3); d.maxArgs=pick("maxArgs",3); }
		if ((k==INT || k==STR || k==APPEND) && !(vp_param("SCHEMA",0) && (d.hasMin || d.hasMax || d.choices || d.pattern || d.minLen || d.maxArgs || d.minArgs))) d.deflt=pick("default",2); if (k!=FLAG) d.required=pick("required",2);
		ds.push_back(d); ds.push_back(D(FLAG,'x',"extra","deep/extra"));
		ArgParse p("prog",false); if (vp_param("MERGED",0)) { vp_assume(k!=UINT); ArgParse o("prog",false); declare(o); p.Merge(o.GetDescription()); if (k==FLAG) p.Validate(); } else declare(p); unsigned n=pick("tokens",toks+1); for (unsigned i=0;i<n && !reject;i++) option(ds[vp_param("MIX",0)?pick("which",2):0]);
		finish(); Variant r=parse(p); verify(p,r); break; }
	case 1: mixed(); break; case 2: groups(); break; case 3: environment(); break; case 4: limits(); break; case 5: any(); break; case 6: again(); break; case 7: list(); break; case 8: strict(); break; case 9: declaring(); break;
	}
}
