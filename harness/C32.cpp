// Configuration files of the command line parser, the printed configuration, and the help text.
#include "jref.h"
#include "ymodel.h"
#include "xmodel.h"
#include "gopt.h"
#include <Variant/ArgParse.h>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <sys/stat.h>
extern "C" { int vp_opaque_numbers=0; }
// what must happen: a result, a rejection, or something printed
static M want(M::O); static bool reject, mayReject, print, help; static const char *why=""; static void (*printed)(const std::string&);
struct Cap : std::streambuf { std::string s; int overflow(int c) { if (c!=EOF) s+=(char)c; return c==EOF?0:c; } std::streamsize xsputn(const char *p, std::streamsize n) { s.append(p,n); return n; } int sync() { return 0; } };
static Cap *out, *err; static std::streambuf *oldOut, *oldErr;
static void capture() { out=new Cap; err=new Cap; oldOut=std::cout.rdbuf(out); oldErr=std::cerr.rdbuf(err); }
static void release() { std::cout.rdbuf(oldOut); std::cerr.rdbuf(oldErr); delete out; delete err; }
static void rmAll();
extern "C" int vp_exit_hook(int code) {
	std::string o=out->s, e=err->s; release(); vp_observe(code); rmAll();
	if (code) { vp_assert(reject||mayReject,"a valid command line was rejected"); vp_assert(!e.empty(),"rejected without a word"); vp_reach("rejected"); return 0; }
	vp_assert(print||help,"exit without a reason"); if (help) printed(e); else { if (reject) return 0; JRef r(o,false); M m; vp_assert(r.value(m),"the printed configuration is not JSON"); vp_assert(r.blank() && r.p==o.size(),"text after the printed configuration"); Variant v=toV(want); vp_assert(same(m,v,true),"the printed configuration is not the result"); vp_reach("printed"); }
	return 0; }
// ---- one file
static std::string dir, fileName, fileText; static bool fileThere;
#ifdef VP_ENGINE
static unsigned openCount;
extern "C" FILE *vp_fopen(const char *n, const char *) { if (fileThere && eqs(fileName,n)) { openCount++; size_t *p=new size_t(0); return (FILE*)p; } errno=ENOENT; return 0; }
extern "C" size_t vp_fread(void *p, size_t a, size_t b, FILE *f) { size_t &q=*(size_t*)f, n=a*b; if (n>fileText.size()-q) n=fileText.size()-q; memcpy(p,fileText.data()+q,n); q+=n; return n; }
extern "C" int vp_ferror(FILE*) { return 0; }
extern "C" int vp_fclose(FILE *f) { delete (size_t*)f; openCount--; return 0; }
static void mk() { dir="/d"; fileName=dir+"/f"; }
static void put() {}
static void rmAll() { if (!dir.empty()) vp_assert(openCount==0,"a file was left open"); }
#else
static void mk() { char b[]="/tmp/vp32XXXXXX"; if (!mkdtemp(b)) vp_error("no scratch directory"); dir=b; fileName=dir+"/f"; }
static void put() { if (!fileThere) return; FILE *f=fopen(fileName.c_str(),"w"); if (!f) vp_error("no scratch file"); fwrite(fileText.data(),1,fileText.size(),f); fclose(f); }
static void rmAll() { if (dir.empty()) return; unlink(fileName.c_str()); rmdir(dir.c_str()); dir.clear(); }
#endif
static std::vector<std::string> words;
static Variant parse(ArgParse &p) { static char buf[10][40], prog[]="prog"; static char *argv[12]; unsigned n=0; argv[n++]=prog; for (unsigned i=0;i<words.size();i++) { if (words[i].size()>=40) vp_error("word too long"); memcpy(buf[i],words[i].c_str(),words[i].size()+1); argv[n++]=buf[i]; } argv[n]=0; return p.Parse(n,argv); }
// ---- declarations: what each option holds so far
enum { INT, STR, FLAG, OFF, CONST, COUNT, APPEND, NK };
static const char *const KEY[]={"int","deep/str","flag","off","const","deep/count","list"}; static const char SH[]="isfokca";
struct S { bool given; M val; S() : given(false) {} }; static S st[NK]; static int lo, hi;
static bool fits(unsigned k, const M &m) { if (k==INT) return m.i>=lo && m.i<=hi; if (k==STR) return m.s.size()<=1; if (k==APPEND) return m.t!=M::I || m.i>=lo; return true; }
static void give(unsigned k, const M &m, bool file) { S &s=st[k]; switch (k) {
	case INT: case STR: if (!fits(k,m)) { if (file) mayReject=true; else reject=true; return; } s.val=m; break;
	case FLAG: s.val=M::boolean(file?m.i!=0:true); break; case OFF: s.val=M::boolean(file?m.i!=0:false); break; case CONST: s.val=M::num(42); break;
	case COUNT: s.val.t=M::U; s.val.i+=file?m.i:1; break;
	case APPEND: s.val.t=M::L; if (m.t==M::L) { for (size_t i=0;i<m.l.size();i++) s.val.l.push_back(m.l[i]); if (s.val.l.empty()) return; } else { if (!fits(k,m)) { if (file) mayReject=true; else reject=true; if (s.val.l.empty()) s.val=M(); return; } s.val.l.push_back(m); } break; }
	s.given=true; }
static void place(M &root, const char *key, const M &m) { const char *s=strchr(key,'/'); if (!s) root.o[key]=m; else { M &c=root.o[std::string(key,s-key)]; c.t=M::O; c.o[s+1]=m; } }
static M number(const char *n) { uint8_t v=vp_u8(n); vp_assume(v<10); return M::num(v); }
static M letters(const char *n) { std::string s=symstrv(n,2); for (unsigned i=0;i<s.size();i++) vp_assume(s[i]>='a' && s[i]<='z'); return M::str(s); }
static M boolean() { uint8_t b=vp_u8("bool"); vp_assume(b<2); return M::boolean(b!=0); }
// a value a file may hold for the option
static M value(unsigned k) { switch (k) {
	case INT: case COUNT: return number("number"); case STR: return letters("text"); case FLAG: case OFF: return boolean(); case CONST: return pick("const",2)?number("number"):letters("text");
	default: { if (pick("single",2)) return number("item"); M l(M::L); unsigned n=pick("items",3); for (unsigned i=0;i<n;i++) { l.l.push_back(number("item")); vp_assume(fits(APPEND,l.l.back())); } return l; } } }
static std::string text(const M &m) { switch (m.t) { case M::N: return "null"; case M::B: return m.i?"true":"false"; case M::I: return std::string(1,(char)('0'+m.i)); case M::S: return "\""+m.s+"\"";
	case M::L: { std::string r="["; for (size_t i=0;i<m.l.size();i++) { if (i) r+=","; r+=text(m.l[i]); } return r+"]"; }
	default: { std::string r="{"; for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { if (i!=m.o.begin()) r+=", "; r+="\""+i->first+"\": "+text(i->second); } return r+"}"; } } }
static void declare(ArgParse &p, ArgParseAction a) {
	p.AddOption("int",'i',"int","h").Type(ARGTYPE_INT).Minimum(lo).Maximum(hi); p.AddOption("deep/str",'s',"str","h").Type(ARGTYPE_STRING).MaxLength(1); p.AddFlag("flag",'f',"flag","h"); p.AddOption("off",'o',"off","h").Action(ARGACTION_STORE_FALSE); p.AddOption("const",'k',"const","h").Action(ARGACTION_STORE_CONST).Const(42); p.AddOption("deep/count",'c',"count","h").Action(ARGACTION_COUNT); p.AddOption("list",'a',"list","h").Type(ARGTYPE_INT).Action(ARGACTION_APPEND).Minimum(lo);
	p.AddOption("conf",'C',"conf","h").Action(a); p.AddOption("show",'P',"show","h").Action(ARGACTION_PRINT_CONFIG);
}
static void word(unsigned k) { std::string w="-"; w+=SH[k]; if (k==INT || k==APPEND) { M m=number("given"); w+=(char)('0'+m.i); give(k,m,false); } else if (k==STR) { w+="zz"; give(k,M::str("zz"),false); } else give(k,M(),false); words.push_back(w); }
static void finish() { for (unsigned k=0;k<NK;k++) { if (k==COUNT) { M m=st[k].val; m.t=M::U; place(want,KEY[k],m); } else if (st[k].given) place(want,KEY[k],st[k].val); else if (k==FLAG) place(want,KEY[k],M::boolean(false)); } }
static void check(ArgParse &p) { capture(); Variant r=parse(p); std::string e=err->s; release(); vp_assert(!reject,"an invalid command line was accepted"); vp_assert(!print && !help,"nothing was printed"); vp_assert(same(want,r,true),"the result is not what the file and the words say"); obsV(r); rmAll(); vp_reach("result"); }
static void json() {
	lo=(int8_t)vp_u8("min"); hi=(int8_t)vp_u8("max"); ArgParse p("prog",false); declare(p,ARGACTION_CONFIG_JSON); M doc(M::O); unsigned n=pick("entries",vp_param("E",2)+1), at=vp_param("BEFORE",1)?pick("before",2):0, prev=0; bool before=at, after=pick("after",2); unsigned k1=before?pick("word",NK):0;
	if (before) word(k1);
	std::vector<std::pair<unsigned,M> > es;
	for (unsigned i=0;i<n;i++) { unsigned k=pick("key",NK+4); if (i) vp_assume(k>prev); prev=k; if (k<NK) { M m=pick("null",2)?M():value(k); place(doc,KEY[k],m); es.push_back(std::make_pair(k,m)); } else { static const char *const U[]={"other","deep/other","flag2","deep2/str"}; place(doc,U[k-NK],pick("u",2)?number("un"):letters("us")); vp_reach("unknown"); } }
	for (size_t i=0;i<es.size();i++) if (es[i].second.t!=M::N) give(es[i].first,es[i].second,true);
	fileThere=!pick("missing",2); bool broken=fileThere && pick("broken",2); fileText=text(doc); if (broken) fileText.resize(fileText.size()-1); mk(); put(); if (!fileThere || broken) reject=true;
	words.push_back("-C"); words.push_back(fileName); if (after) word(before?(k1+1)%NK:pick("word2",NK)); if (pick("print",2)) { words.push_back("-P"); print=true; }
	finish(); check(p);
}
// the other formats: the libraries as models delivering one document
static uint8_t digit;
static void yopen_() { y->pos=0; y->read.clear(); y->in.clear(); }
static void yload_() { if (y->read.empty() || y->read[0]!='i') return; y->in.push_back(YE(YAML_STREAM_START_EVENT)); y->in.push_back(YE(YAML_DOCUMENT_START_EVENT)); y->in.push_back(YE(YAML_MAPPING_START_EVENT)); YE k(YAML_SCALAR_EVENT); k.style=YAML_DOUBLE_QUOTED_SCALAR_STYLE; k.text="int"; y->in.push_back(k); k.style=YAML_PLAIN_SCALAR_STYLE; k.text=std::string(1,(char)('0'+digit)); y->in.push_back(k); y->in.push_back(YE(YAML_MAPPING_END_EVENT)); y->in.push_back(YE(YAML_DOCUMENT_END_EVENT)); y->in.push_back(YE(YAML_STREAM_END_EVENT)); }
static void formats() {
	Y ys; y=&ys; X xs; x=&xs; yopened=yopen_; yloaded=yload_; lo=0; hi=9; digit=vp_u8("digit"); vp_assume(digit<10); unsigned f=pick("action",4), t=pick("text",3); static const ArgParseAction A[]={ARGACTION_CONFIG,ARGACTION_CONFIG_JSON,ARGACTION_CONFIG_YAML,ARGACTION_CONFIG_PLIST};
	std::string d(1,(char)('0'+digit)); fileThere=true; fileText=t==0?"{\"int\": "+d+"}":t==1?"int: "+d:"<plist>";
	if (t==2) { xs.in.push_back(XN(XML_READER_TYPE_ELEMENT,"plist")); xs.in.push_back(XN(XML_READER_TYPE_ELEMENT,"dict")); xs.in.push_back(XN(XML_READER_TYPE_ELEMENT,"key")); xs.in.push_back(XN(XML_READER_TYPE_TEXT,"#text","int")); xs.in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"key")); xs.in.push_back(XN(XML_READER_TYPE_ELEMENT,"integer")); xs.in.push_back(XN(XML_READER_TYPE_TEXT,"#text",d)); xs.in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"integer")); xs.in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"dict")); xs.in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"plist")); }
	else xs.failAt=1; // not a document the XML library understands
	if (f==0) { vp_assume(t!=0); give(INT,M::num(digit),true); } // the guess hands everything but '<' to YAML
	else if (f==1 && t==0) give(INT,M::num(digit),true); else if (f==2 && t==1) give(INT,M::num(digit),true); else if (f==3 && t==2) give(INT,M::num(digit),true); else reject=true;
	ArgParse p("prog",false); declare(p,A[f]); mk(); put(); if (f==0 && pick("defaults",2)) { p.AddConfigDefaults(); words.push_back("--config="+fileName); if (pick("print",2)) { words.push_back("--print-config"); print=true; } } else words.push_back("--conf="+fileName); finish(); check(p); vp_assert(ys.parsers==0 && xs.readers==0,"a parser was not released");
}
// ---- help
static bool shown[4]; static std::string txt[4]; static bool adv_, grouped; static std::string title, desc, epi;
static bool has(const std::string &t, const std::string &w) { if (w.empty()) return true; if (t.size()<w.size()) return false; bool r=false; for (size_t i=0;i+w.size()<=t.size();i++) { unsigned d=0; for (size_t j=0;j<w.size();j++) d|=(unsigned char)(t[i+j]^w[j]); r|=d==0; } return r; }
static void checkHelp(const std::string &e) {
	static const char *const L[]={"-a, --alpha ","-b, --beta\n","--gamma ","-d, --delta "}; for (unsigned i=0;i<4;i++) { vp_assert(has(e,L[i])==shown[i],shown[i]?"an option is missing from the help":"an option that should not be shown is"); if (shown[i]) vp_assert(has(e,txt[i]),"a description is missing from the help"); }
	vp_assert(has(e,"prog: [options]"),"usage line"); vp_assert(has(e,"argone"),"argument"); vp_assert(has(e,desc) && has(e,epi),"description or epilog"); if (grouped) vp_assert(has(e,title),"title of a group"); vp_assert(!shown[0] || has(e,"(default: 5)"),"default"); vp_assert(!shown[2] || has(e,"red | blue"),"choices"); vp_reach(adv_?"advanced":"help"); }
static void helps() {
	unsigned how=pick("how",3); help=true; printed=checkHelp; bool ask=pick("adv",2); adv_=ask && how!=1; static const char *const K[]={"Q","W","E","R"}; for (unsigned i=0;i<4;i++) { std::string s=symstr("text",1); vp_assume(s[0]>=33 && s[0]<127); txt[i]=std::string(K[i])+s+K[i]; } bool merge=how!=1 && pick("merged",2); ArgParse p("prog",!merge), whole("prog"); bool a[4]; for (unsigned i=0;i<4;i++) { a[i]=pick("advanced",2); shown[i]=!a[i]||adv_; }
	ArgParseOption o=p.AddOption("alpha",'a',"alpha",txt[0]).Type(ARGTYPE_INT).Default(5); if (a[0]) o.Advanced(); ArgParseOption f=p.AddFlag("beta",'b',"beta",txt[1]); if (a[1]) f.Advanced(); ArgParseOption g=p.AddOption("deep/gamma",0,"gamma",txt[2]).AddChoice("red").AddChoice("blue"); if (a[2]) g.Advanced(); ArgParseOption d=p.AddOption("delta",'d',"delta",txt[3]).Type(ARGTYPE_FLOAT); if (a[3]) d.Advanced();
	p.AddArgument("argone","first"); desc="the description"; epi="the epilog"; (merge?whole:p).SetDescription(desc); (merge?whole:p).SetEpilog(epi); grouped=pick("group",2); bool gadv=false; if (grouped) { title="Group title"; OptionGroup gr=p.AddGroup("g",title,"about it"); gr.Add("alpha").Add("delta"); gadv=pick("gadv",2); if (gadv) gr.Advanced(); if (gadv && !adv_) { shown[0]=shown[3]=false; grouped=false; } }
	bool any=a[0]||a[1]||a[2]||a[3]||gadv; if (ask) vp_assume(any); // --adv-help exists when something is advanced
	if (how==2) { if (merge) whole.Merge(p); capture(); (merge?whole:p).PrintHelp(adv_); vp_fail("PrintHelp came back"); }
	if (how==1) words.push_back("--nosuch"); words.push_back(ask?"--adv-help":pick("short",2)?"-h":"--help"); if (how==1) { mayReject=true; }
	if (merge) whole.Merge(p); capture(); parse(merge?whole:p); vp_fail("help was not printed");
}
// ---- entries at any place: in lists, in maps within lists, numbers of every kind
static void places() {
	ArgParse p("prog",false); p.AddOption("l[0]",'a',"aa","h").Type(ARGTYPE_INT).Maximum(8); p.AddOption("l[1]/x",'b',"bb","h").Type(ARGTYPE_INT); p.AddOption("m[0][1]",'c',"cc","h"); p.AddOption("big",'d',"dd","h").Type(ARGTYPE_UINT); p.AddOption("r/s/t",'e',"ee","h").Type(ARGTYPE_FLOAT); p.AddOption("conf",'C',"conf","h").Action(ARGACTION_CONFIG_JSON);
	unsigned n=pick("items",vp_param("ITEMS",3)), extra=pick("extra",4); M l(M::L), a, b, c, d, e; fileText="{\"l\":[";
	for (unsigned i=0;i<n;i++) { if (i) fileText+=","; unsigned k=pick("item",3); if (k==0) { fileText+="null"; continue; } M v=number("number"); std::string t=text(v); if (k==1) { fileText+=t; if (i==0) { if (v.i<=8) a=v; else mayReject=true; } } else { fileText+="{\"x\": "+t+", \"y\": 1}"; if (i==1) b=v; } }
	fileText+="]"; switch (pick("inner",4)) { case 0: break; case 1: fileText+=",\"m\":[[1]]"; break; case 2: c=letters("text"); fileText+=",\"m\":[[1,"+text(c)+"]]"; break; default: c=number("number"); fileText+=",\"m\":[[[1,2],"+text(c)+",3],[4,5]]"; break; }
	if (extra==1) { d=M::uns(18446744073709551615ull); fileText+=",\"big\":18446744073709551615"; } if (extra==2) { e=M::flt(-2.5); fileText+=",\"r\":{\"s\":{\"t\":-2.5}}"; } fileText+="}";
	if (a.t!=M::N || b.t!=M::N) { l.l.push_back(a); if (b.t!=M::N) { M o(M::O); o.o["x"]=b; l.l.push_back(o); } want.o["l"]=l; }
	if (c.t!=M::N) { M o(M::L), i(M::L); i.l.push_back(M()); i.l.push_back(c); o.l.push_back(i); want.o["m"]=o; } if (d.t!=M::N) want.o["big"]=d; if (e.t!=M::N) { M s(M::O), r(M::O); s.o["t"]=e; r.o["s"]=s; want.o["r"]=r; }
	fileThere=true; mk(); put(); words.push_back("-C"); words.push_back(fileName); if (extra==3) { words.push_back("-b7"); if (!want.o.count("l")) { want.o["l"]=M(M::L); want.o["l"].l.push_back(M()); } M &q=want.o["l"]; if (q.l.size()<2) q.l.push_back(M(M::O)); q.l[1].o["x"]=M::num(7); }
	check(p);
}
// ---- the program name
static std::string link_; static bool linkOk;
#ifdef VP_ENGINE
extern "C" long vp_readlink(const char *p, char *b, size_t n) { if (!linkOk || strcmp(p,"/proc/self/exe")) { errno=ENOENT; return -1; } size_t k=link_.size()<n?link_.size():n; memcpy(b,link_.data(),k); return k; }
#endif
static std::string base(const std::string &s) { size_t i=s.size(); while (i && s[i-1]!='/') i--; return s.substr(i); }
static void name() {
	std::string s=symstrv("name",vp_param("S",4),true); if (!s.empty()) vp_assume(s[s.size()-1]!='/'); linkOk=pick("link",2); link_="/a/"+symstr("exe",2); vp_assume(link_[3]!=0 && link_[4]!=0 && link_[3]!='/' && link_[4]!='/'); char *c=(char*)malloc(s.size()+1); memcpy(c,s.c_str(),s.size()+1); unsigned how=pick("how",5); bool h=pick("help",2);
	if (vp_native()) { char b[4096]; ssize_t n=readlink("/proc/self/exe",b,sizeof b); linkOk=n>0; if (linkOk) link_.assign(b,n); }
	std::string w=base(s); if (s.empty() || how==2) { if (!linkOk) { free(c); return; } w=base(link_); } ArgParse *p=how==0?new ArgParse(s,h):how==1?(h?new ArgParse(c):new ArgParse(c,false)):how==2?new ArgParse(h):how==3?new ArgParse("other",h):new ArgParse(std::string("x/y"),h); memset(c,'c',s.size()); free(c);
	if (how==3) p->SetProgramName(s); if (how==4) { if (s.empty()) { delete p; return; } p->SetProgramName(s,false); w=s; }
	vp_assert(eqs(p->GetProgramName(),w),"the program name"); vp_assert(eqs(p->GetDescription()["title"].AsString(),w),"the name in the description"); p->AddOption("k",'k',"key","h"); words.push_back("-kv"); capture(); Variant r=parse(*p); release(); vp_assert(r.Size()==1 && r["k"]==Variant("v"),"parsing under that name"); if (!s.empty() && how!=2) obs(w); delete p; vp_reach("name");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: json(); break; case 1: formats(); break; case 3: name(); break; case 4: places(); break; default: helps(); } }
