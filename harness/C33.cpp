// The command line tool: the part of the document asked for, in the format asked for, or a failure and no output.
#include "jref.h"
#include "ymodel.h"
#include "xmodel.h"
#include "gopt.h"
#include <Variant/Extensions.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unistd.h>
extern "C" { int vp_opaque_numbers=0; }
struct File { bool there; std::string name, text; unsigned open; File() : there(false), open(0) {} };
enum { IN1, IN2, SET, SCHEMA, OUT, NFILES }; static File fs[NFILES]; static std::string dir;
#ifdef VP_ENGINE
// files are texts in memory
static File *find(const char *n) { for (unsigned i=0;i<NFILES;i++) if (fs[i].there && eqs(fs[i].name,n)) return &fs[i]; return 0; }
struct Stream { File *f; size_t pos; };
extern "C" FILE *vp_fopen(const char *n, const char *) { File *f=find(n); if (!f) { errno=ENOENT; return 0; } f->open++; Stream *s=new Stream; s->f=f; s->pos=0; return (FILE*)s; }
extern "C" size_t vp_fread(void *p, size_t a, size_t b, FILE *f) { Stream &s=*(Stream*)f; size_t n=a*b; if (n>s.f->text.size()-s.pos) n=s.f->text.size()-s.pos; memcpy(p,s.f->text.data()+s.pos,n); s.pos+=n; return n; }
extern "C" int vp_ferror(FILE*) { return 0; }
extern "C" int vp_fclose(FILE *f) { ((Stream*)f)->f->open--; delete (Stream*)f; return 0; }
struct InBuf : std::streambuf { std::string s; void set(const std::string &t) { s=t; setg(&s[0],&s[0],&s[0]+s.size()); } };
struct OutBuf : std::streambuf { File *f; OutBuf() : f(0) {} int overflow(int c) { if (!f) return EOF; if (c!=EOF) f->text+=(char)c; return c==EOF?0:c; } std::streamsize xsputn(const char *p, std::streamsize n) { if (!f) return 0; f->text.append(p,n); return n; } int sync() { return 0; } };
struct VIn : std::istream { InBuf b; bool ok; VIn() : std::istream(0), ok(false) { rdbuf(&b); } explicit VIn(const char *n) : std::istream(0), ok(false) { rdbuf(&b); open(n); } explicit VIn(const std::string &n) : std::istream(0), ok(false) { rdbuf(&b); open(n.c_str()); }
	void open(const char *n) { File *f=find(n); if (!f) { setstate(std::ios::failbit); return; } ok=true; b.set(f->text); } void open(const std::string &n) { open(n.c_str()); } void close() { ok=false; } bool is_open() const { return ok; } };
struct VOut : std::ostream { OutBuf b; VOut() : std::ostream(0) { rdbuf(&b); } explicit VOut(const char *n) : std::ostream(0) { rdbuf(&b); open(n); } explicit VOut(const std::string &n) : std::ostream(0) { rdbuf(&b); open(n.c_str()); }
	void open(const char *n) { File &f=fs[OUT]; if (!eqs(f.name,n)) { setstate(std::ios::failbit); return; } f.there=true; f.text.clear(); b.f=&f; } void open(const std::string &n) { open(n.c_str()); } void close() { b.f=0; } bool is_open() const { return b.f!=0; } };
#define ifstream VIn
#define ofstream VOut
static void mk() { dir="/d"; }
static void put(File &) {}
static void get(File &) {}
static void rmAll() { for (unsigned i=0;i<NFILES;i++) vp_assert(!fs[i].open,"a file was left open"); }
#else
static void mk() { char b[]="/tmp/vp33XXXXXX"; if (!mkdtemp(b)) vp_error("no scratch directory"); dir=b; }
static void put(File &s) { if (!s.there) return; FILE *f=fopen(s.name.c_str(),"w"); if (!f) vp_error("no scratch file"); fwrite(s.text.data(),1,s.text.size(),f); fclose(f); }
static void get(File &s) { FILE *f=fopen(s.name.c_str(),"r"); if (!f) return; s.there=true; s.text.clear(); char b[256]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) s.text.append(b,n); fclose(f); }
static void rmAll() { if (dir.empty()) return; for (unsigned i=0;i<NFILES;i++) unlink(fs[i].name.c_str()); rmdir(dir.c_str()); dir.clear(); }
#endif
static void files() { static const char *const N[]={"/in1","/in2","/set","/schema","/out"}; mk(); for (unsigned i=0;i<NFILES;i++) fs[i].name=dir+N[i]; }
#define main tool
#include "varsh.cc"
#undef main
#undef ifstream
#undef ofstream
struct Cap : std::streambuf { std::string s; int overflow(int c) { if (c!=EOF) s+=(char)c; return c==EOF?0:c; } std::streamsize xsputn(const char *p, std::streamsize n) { s.append(p,n); return n; } int sync() { return 0; } };
// the document is chosen when it is first read
static std::string input; static void (*choose)();
struct Feed : std::streambuf { bool filled; Feed() : filled(false) {} int underflow() { if (filled) return EOF; filled=true; if (choose) choose(); if (input.empty()) return EOF; setg(&input[0],&input[0],&input[0]+input.size()); return (unsigned char)input[0]; } };
static Cap *out, *err; static Feed *in; static std::streambuf *o0, *e0, *i0;
static void release() { std::cout.rdbuf(o0); std::cerr.rdbuf(e0); std::cin.rdbuf(i0); delete out; delete err; delete in; }
// what must happen: this text, or a failure
static std::string want; static void (*after)(); static bool fails, toFile, mayPrint;
static void judge(bool failed, const std::string &o, const std::string &e) {
	vp_observe(failed); obs(o); std::string got=o; if (toFile) { get(fs[OUT]); vp_assert(o.empty(),"printed although a file was named"); got=fs[OUT].text; } rmAll();
	vp_assert(failed==fails,fails?"the tool did not report a failure":"the tool failed"); if (failed && mayPrint) { vp_reach("failed"); return; } if (failed) { vp_assert(got.empty(),"output in spite of a failure"); vp_reach("failed"); return; }
	vp_assert(eqs(got,want),"not what was asked for"); if (after) after(); vp_reach("printed"); if (toFile) vp_reach("file");
}
extern "C" int vp_exit_hook(int code) { std::string o=out->s, e=err->s; release(); if (code) vp_assert(!e.empty(),"failed without a word"); judge(code!=0,o,e); return 0; }
static std::vector<std::string> words; static void word(const std::string &w) { words.push_back(w); }
static void run() {
	static char buf[16][48], prog[]="varsh"; static char *argv[18]; unsigned n=0; argv[n++]=prog; for (unsigned i=0;i<words.size();i++) { if (words[i].size()>=48) vp_error("word too long"); memcpy(buf[i],words[i].c_str(),words[i].size()+1); argv[n++]=buf[i]; } argv[n]=0;
	out=new Cap; err=new Cap; in=new Feed; o0=std::cout.rdbuf(out); e0=std::cerr.rdbuf(err); i0=std::cin.rdbuf(in); int r=1; bool thrown=false;
	try { r=tool(n,argv); } catch (const std::exception &) { thrown=true; }
	std::string o=out->s, e=err->s; release(); if (!thrown && r) vp_assert(!e.empty(),"failed without a word"); judge(thrown || r!=0,o,e);
}
static std::string text(const M &m) { switch (m.t) { case M::N: return "null"; case M::B: return m.i?"true":"false"; case M::I: case M::U: return std::string(1,(char)('0'+m.i)); case M::S: return "\""+m.s+"\"";
	case M::L: { std::string r="["; for (size_t i=0;i<m.l.size();i++) { if (i) r+=","; r+=text(m.l[i]); } return r+"]"; }
	default: { std::string r="{"; for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { if (i!=m.o.begin()) r+=","; r+="\""+i->first+"\": "+text(i->second); } return r+"}"; } } }
static M digit(const char *n) { uint8_t v=vp_u8(n); vp_assume(v<10); return M::num(v); }
static M letter(const char *n) { std::string s=symstr(n,1); vp_assume(s[0]>='a' && s[0]<='z'); return M::str(s); }
static M doc(unsigned depth, unsigned w, bool root=true) { switch (root?2+pick("root",2):pick("kind",depth?4:2)) { case 0: return digit("number"); case 1: return pick("null",2)?M():letter("text");
	case 2: { M m(M::L); unsigned n=pick("width",w+1); for (unsigned i=0;i<n;i++) m.l.push_back(doc(depth-1,w,false)); return m; }
	default: { M m(M::O); unsigned n=pick("width",w+1); for (unsigned i=0;i<n;i++) m.o[std::string(1,(char)('a'+i))]=doc(depth-1,w,false); return m; } } }
// a path of keys and indices
struct Seg { bool idx; unsigned i; std::string k; };
static std::string show(const std::vector<Seg> &p) { std::string r; for (unsigned i=0;i<p.size();i++) { if (p[i].idx) { r+='['; r+=(char)('0'+p[i].i); r+=']'; } else { if (i) r+='/'; r+=p[i].k; } } return r; }
static const M *at(const M &m, const std::vector<Seg> &p, unsigned n=0) { if (n==p.size()) return &m; if (p[n].idx) { if (m.t!=M::L || p[n].i>=m.l.size()) return 0; return at(m.l[p[n].i],p,n+1); } if (m.t!=M::O) return 0; std::map<std::string,M>::const_iterator i=m.o.find(p[n].k); return i==m.o.end()?0:at(i->second,p,n+1); }
static bool set(M &m, const std::vector<Seg> &p, const M &v, unsigned n=0) { if (n==p.size()) { m=v; return true; } if (p[n].idx) { if (m.t==M::N) m=M(M::L); if (m.t!=M::L) return false; if (p[n].i>=m.l.size()) m.l.resize(p[n].i+1); return set(m.l[p[n].i],p,v,n+1); } if (m.t==M::N) m=M(M::O); if (m.t!=M::O) return false; return set(m.o[p[n].k],p,v,n+1); }
static std::vector<Seg> path() { std::vector<Seg> r; unsigned n=1+pick("segments",vp_param("SEGS",2)); for (unsigned i=0;i<n;i++) { Seg s; s.idx=pick("index",2); s.i=pick("which",3); s.k=std::string(1,(char)('a'+s.i)); r.push_back(s); } return r; }
static Variant sparams(bool pretty) { Variant r(Variant::MapType); r["pretty"]=pretty; return r; }
static unsigned op; static bool has; static std::vector<Seg> p; static M value;
static void select1() {
	M d=doc(vp_param("D",2),vp_param("W",2)); input=text(d);
	if (op==1) { if (!has) d=value; else fails=!set(d,p,value); if (!fails) want=text(d)+"\n"; return; }
	const M *m=has?at(d,p):&d; if (!m) fails=true; else if (op==2) { if (m->t!=M::O && m->t!=M::N) fails=true; else for (std::map<std::string,M>::const_iterator i=m->o.begin();i!=m->o.end();++i) want+=i->first+"\n"; }
	else if (op==3) { if (!m->cont() && m->t!=M::S && m->t!=M::N) fails=true; else want=std::string(1,(char)('0'+(m->t==M::N?0:m->t==M::S?m->s.size():m->t==M::L?m->l.size():m->o.size())))+"\n"; } else want=text(*m)+"\n";
}
static void select() {
	op=pick("op",4); has=pick("path",2); if (has) { p=path(); word("--path"); word(show(p)); }
	if (op==1) { value=pick("string",2)?letter("value"):digit("value"); std::string t=value.s; if (value.t==M::I) t=std::string(1,(char)('0'+value.i)); word("--set"); word(t); } if (op==2) word("--list"); if (op==3) word("--length");
	word("--pretty=false"); word("-J"); choose=select1; run();
}

// ---- the YAML and XML libraries deliver the documents the tool is given
static Y *ys; static X *xs; static std::vector<std::pair<std::string,M> > known;
static void events(const M &m) { if (m.t==M::L) { ys->in.push_back(YE(YAML_SEQUENCE_START_EVENT)); for (size_t i=0;i<m.l.size();i++) events(m.l[i]); ys->in.push_back(YE(YAML_SEQUENCE_END_EVENT)); return; }
	if (m.t==M::O) { ys->in.push_back(YE(YAML_MAPPING_START_EVENT)); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { events(M::str(i->first)); events(i->second); } ys->in.push_back(YE(YAML_MAPPING_END_EVENT)); return; }
	YE e(YAML_SCALAR_EVENT); if (m.t==M::S) { e.text=m.s; e.style=YAML_DOUBLE_QUOTED_SCALAR_STYLE; } else { e.text=text(m); e.style=YAML_PLAIN_SCALAR_STYLE; } ys->in.push_back(e); }
static void yopen_() { ys->pos=0; ys->read.clear(); ys->in.clear(); }
static void yload_() { ys->in.push_back(YE(YAML_STREAM_START_EVENT)); if (ys->read.empty()) { ys->in.push_back(YE(YAML_STREAM_END_EVENT)); return; }
	for (size_t i=0;i<known.size();i++) if (eqs(known[i].first,ys->read)) { ys->in.push_back(YE(YAML_DOCUMENT_START_EVENT)); events(known[i].second); ys->in.push_back(YE(YAML_DOCUMENT_END_EVENT)); ys->in.push_back(YE(YAML_STREAM_END_EVENT)); return; } }
static void models() { ys=new Y; xs=new X; y=ys; x=xs; yopened=yopen_; yloaded=yload_; }
// ---- formats and their layout
static const char *const FI[]={"","-G","-J","-Y","-X","-B"}, *const FO[]={"","-j","-y","-x","-b"}; static const SerializeType TO[]={SERIALIZE_JSON,SERIALIZE_JSON,SERIALIZE_YAML,SERIALIZE_XMLPLIST,SERIALIZE_BUNDLEHDR};
static unsigned fi, fo; static Variant par; static std::string outText; static Y *yWant;
static std::string layout(const Y &y) { std::string r; for (size_t k=0;k<y.out.size();k++) { r+=(char)('0'+y.out[k].style); r+=y.out[k].plain?'p':'-'; r+=y.out[k].quoted?'q':'-'; } r+=(char)('0'+y.indent); r+=(char)y.width; return r; }
static void expect(const M &m) { // what the library writes
	Y *yt=y; X *xt=x; yWant=new Y; X xx; y=yWant; x=&xx; want=Serialize(toV(m),TO[fo],par); want+="\n"; y=yt; x=xt; }
static void formats1() {
	M m(M::O); m.o["k"]=letter("text"); if (fo!=4 && fi!=5 && pick("wide",2)) m.o["l"]=M(M::L);
	if (fi<4) { input=text(m); known.push_back(std::make_pair(input,m)); } else if (fi==5) input="k: "+m.o["k"].s+"\n"; else input="<x>";
	if (fi==4) { std::vector<XN> &v=xs->in; v.push_back(XN(XML_READER_TYPE_ELEMENT,"dict")); v.push_back(XN(XML_READER_TYPE_ELEMENT,"key")); v.push_back(XN(XML_READER_TYPE_TEXT,"#text","k")); v.push_back(XN(XML_READER_TYPE_END_ELEMENT,"key")); v.push_back(XN(XML_READER_TYPE_ELEMENT,"string")); v.push_back(XN(XML_READER_TYPE_TEXT,"#text",m.o["k"].s)); v.push_back(XN(XML_READER_TYPE_END_ELEMENT,"string"));
		if (m.o.count("l")) { v.push_back(XN(XML_READER_TYPE_ELEMENT,"key")); v.push_back(XN(XML_READER_TYPE_TEXT,"#text","l")); v.push_back(XN(XML_READER_TYPE_END_ELEMENT,"key")); v.push_back(XN(XML_READER_TYPE_ELEMENT,"array","",true)); } v.push_back(XN(XML_READER_TYPE_END_ELEMENT,"dict")); }
	expect(m);
}
static void formats2() { vp_assert(eqs(layout(*ys),layout(*yWant)),"the layout"); vp_assert(!ys->parsers && !ys->emitters && !xs->readers && !xs->writers,"a parser or writer was not released"); }
static void formats() {
	models(); after=formats2; unsigned how=vp_param("HOW",0), side=how==1?pick("side",2):0; fi=how==2||(how==1 && side)?2:pick("in",6); fo=how==1 && !side?0:pick("out",5); choose=formats1; par["pretty"]=true; if (*FI[fi]) word(FI[fi]); if (*FO[fo]) word(FO[fo]);
	if (how==1) { unsigned j=side?6+pick("again",5):pick("again",6); word(j<6?FI[j]:FO[j-6+0]); if (words.back().empty()) words.pop_back(); else if (j<6) fails=fi && fi!=j; else fails=fo && fo!=j-6; if (j<6) fi=j?j:fi; else fo=j-6?j-6:fo; }
	if (how==2) { static const char *const B[]={"false","true"}, *const S[]={"any","plain","single quoted","double quoted","folded"}, *const C[]={"any","block","flow"}; unsigned lay=pick("layout",9); if (lay>=3 && vp_param("FEW",1)) vp_assume(fo<3 && fo!=0); switch (lay) {
		case 0: { unsigned b=pick("flag",2); word(std::string("--pretty=")+B[b]); par["pretty"]=b!=0; break; } case 1: { M d=digit("indent"); if (vp_param("FEW",1)) vp_assume(d.i==0 || d.i==3 || d.i==9); word(std::string("--indent=")+(char)('0'+vp_fork(d.i))); par["indent"]=(int)d.i; break; }
		case 2: { word("--precision=3"); par["precision"]=3; break; } case 3: { word("--width=33"); par["width"]=33; break; } case 4: { unsigned b=pick("style",5); word(std::string("--scalar-style=")+S[b]); par["scalar_style"]=S[b]; break; }
		case 5: { unsigned b=pick("style",3); word(std::string("--map-style=")+C[b]); par["map_style"]=C[b]; break; } case 6: { unsigned b=pick("style",3); word(std::string("--list-style=")+C[b]); par["list_style"]=C[b]; break; }
		case 7: { unsigned b=pick("flag",2); word(std::string("--implicit-document-begin=")+B[b]); par["implicit_document_begin"]=b!=0; break; } default: { unsigned b=pick("flag",2); word(std::string("--implicit-document-end=")+B[b]); par["implicit_document_end"]=b!=0; break; } } }
	run();
}
// ---- files
static void both() { vp_assert(!ys->parsers && !ys->emitters,"a parser was not released"); }
static void inputs() {
	models(); after=both; files(); unsigned n=pick("inputs",3), f=n==1 || !vp_param("FEW",1)?pick("format",vp_param("FMTS",2)):0; static const char *const F[]={"-Y","-J",""}; bool setf=pick("set-file",2); unsigned o=pick("output",3); toFile=o!=0; M s; if (*F[f]) word(F[f]); word("--pretty=false");
	for (unsigned i=0;i<n;i++) { File &g=fs[IN1+i]; g.there=!pick("missing",2); M d(M::O); d.o["a"]=digit("number"); d.o["b"]=letter("text"); g.text=text(d); known.push_back(std::make_pair(g.text,d)); put(g); word(g.name); if (!g.there) { fails=true; if (!setf || i) mayPrint=i>0; } if (!fails && !setf) want+=text(d)+"\n"; }
	if (!n) { M d(M::O); d.o["a"]=digit("number"); input=text(d); known.push_back(std::make_pair(input,d)); if (!setf) { if (pick("list",2)) { word("--list"); want="a\n"; } else want=text(d)+"\n"; } }
	if (setf) { File &g=fs[SET]; g.there=!pick("missing",2); s=M(M::L); s.l.push_back(digit("new")); g.text=text(s); known.push_back(std::make_pair(g.text,s)); put(g); word("--set-file"); word(g.name); if (!g.there) { fails=true; mayPrint=false; } for (unsigned i=0;i<(n?n:1);i++) want+=text(s)+"\n"; }
	if (o==2) { word("-o"); word(dir+"/no/out"); fails=true; mayPrint=false; vp_reach("no-output"); } else if (toFile) { word("-o"); word(fs[OUT].name); if (pick("old",2)) { fs[OUT].there=true; fs[OUT].text="something longer than what is written to it now, to be replaced"; put(fs[OUT]); if (fails) mayPrint=true; } }
	run();
}
// ---- schemas
static M req;
static void schema1() { M d(M::O); std::string k=symstr("key",1); vp_assume(k[0]>='a' && k[0]<='z'); d.o[k]=digit("number"); input=text(d); want=text(d)+"\n"; fails=!eqs(k,req.o["required"].l[0].s); }
static void schemas() {
	models(); after=both; files(); File &g=fs[SCHEMA]; g.there=true; req=M(M::O); M l(M::L); l.l.push_back(letter("required")); req.o["required"]=l; if (pick("type",2)) req.o["type"]=M::str("object"); g.text=text(req); known.push_back(std::make_pair(g.text,req)); put(g); word("-J"); word("--pretty=false"); word("--schema"); if (pick("search",2)) { word("schema"); word("--schema-path"); word(dir); } else word(g.name); choose=schema1; run();
}
// ---- flattened and expanded paths
static unsigned ext; static Variant ep;
static void extend1() { M d=doc(vp_param("D",2),vp_param("W",1)); vp_assume(d.t==M::O && !d.o.empty()); Variant v=toV(d), w=FlattenPath(v,ep); if (ext==0) input=text(d); else { vp_assume(w.IsMap()); input=Serialize(w,SERIALIZE_JSON); w=ExpandPath(w,ep); } Variant np; np["pretty"]=false; want=Serialize(w,SERIALIZE_JSON,np)+"\n"; }
static void extend() {
	ext=pick("expand",2); word(ext?"-e":"-f"); word("-J"); word("--pretty=false"); choose=extend1; ep=ExtensionParams(); ep["noSimpleLists"]=false; static const char *const O[]={"--path-prefix=","--path-delimiter=","--index-prefix=","--index-suffix=","--list-delimiter="}, *const K[]={"pathPrefix","pathDelimiter","indexPrefix","indexSuffix","listDelimiter"};
	unsigned w=pick("param",7); if (w<5) { static const char *const C[]={".","+","<",">",";"}; word(std::string(O[w])+C[w]); ep[K[w]]=C[w]; } else if (w==5) { word("--no-simple-lists=true"); ep["noSimpleLists"]=true; } run();
}
// ---- payloads
static void payload1() { M d(M::O); d.o["a"]=digit("number"); if (pick("blob",2)) d.o["b"]=M::blob(symstrv("blob",2)); bool in=words[1]=="-P"; vp_assume(in || d.o.size()==1); Variant v=toV(d); input=in?SerializeWithPayload(v,SERIALIZE_JSON):text(d); bool out=words.back()=="-p"; if (!out && d.o.count("b")) d.o["b"]=M(); vp_assume(out || !d.o.count("b")); if (in) v=DeserializeWithPayload(input,SERIALIZE_JSON); else v=toV(d); Variant np; np["pretty"]=false; want=out?SerializeWithPayload(v,SERIALIZE_JSON,np):Serialize(v,SERIALIZE_JSON,np)+"\n"; }
static void payload() { word("-J"); if (pick("in",2)) word("-P"); word("--pretty=false"); if (pick("out",2)) word("-p"); choose=payload1; run(); }
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 1: formats(); break; case 2: inputs(); break; case 3: schemas(); break; case 4: extend(); break; case 5: payload(); break; default: select(); } }
