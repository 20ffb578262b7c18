// Schema documents: registration, lookup by URI and fragment, references, loading on demand.
#include "jptr.h"
#include "ymodel.h"
#include "uri.h"
#include <Variant/SchemaLoader.h>
#include <stdio.h>
#include <sys/stat.h>
#include <unistd.h>
#include <stdarg.h>
#include <curl/curl.h>
static bool hex(char c, unsigned &v) { if (c>='0' && c<='9') { v=c-'0'; return true; } if (c>='a' && c<='f') { v=c-'a'+10; return true; } if (c>='A' && c<='F') { v=c-'A'+10; return true; } return false; }
// percent-decoding; text where '%' is not followed by two hexadecimal digits is outside the property
static std::string pct(const std::string &s) { std::string r; for (size_t i=0;i<s.size();i++) { if (s[i]!='%') { r+=s[i]; continue; } unsigned a,b; vp_assume(i+2<s.size()); bool h=hex(s[i+1],a); vp_assume(h); h=hex(s[i+2],b); vp_assume(h); r+=(char)(a*16+b); i+=2; } return r; }
static const char *const U[]={"","x:/a","x:/a/","http://h/s.json","x:/a?q=1"};
static bool has(const std::string &s, char c) { bool r=false; for (size_t i=0;i<s.size();i++) r|=s[i]==c; return r; }
static std::string low(const char *n) { std::string c=symstr(n,1); vp_assume(c[0]>='a' && c[0]<='z'); return c; }
// a document under a URI, any fragment
static void lookup() {
	GenP g(G_INT|G_LIST|G_MAP,vp_param("W",1)); g.keynonul=true; M inner=gen(g,vp_param("D",1)); M doc(M::O); std::string key=symstr("key",1); vp_assume(key[0]!=0); doc.o[key]=inner; unsigned nu=vp_param("URIS",5); std::string uri=U[nu>1?pick("uri",nu):1]; SchemaLoader l; M copy=doc; l.AddSchema(uri,toV(doc));
	std::string frag=symstrv("fragment",vp_param("N",4),true); if (vp_param("SLASH",0)) frag="/"+frag; vp_assume(!has(frag,'#')); bool hash=pick("hash",2); vp_assume(hash || frag.empty()); bool threw=false; Variant got; try { got=l.GetSchema(hash?uri+"#"+frag:uri); } catch (const std::exception &) { threw=true; } vp_observe(threw);
	Toks t; std::string p=pct(frag); M *w=split(p,t)?walk(&doc,t,t.size()):0; if (w) { vp_assert(!threw && same(*w,got),"lookup of a part of a registered document"); vp_reach("found"); } else { vp_assert(threw || got.IsNull(),"a part that does not exist was found"); vp_reach("absent"); }
	got=l.GetSchema(uri); vp_assert(same(copy,got),"the document changed"); l.ForgetSchema(uri); threw=false; try { got=l.GetSchema(uri); } catch (const std::exception &) { threw=true; } vp_assert(threw||got.IsNull(),"a forgotten document was found");
}
static bool starts(const std::string &s, const std::string &p) { return s.size()>=p.size() && eqs(s.substr(0,p.size()),p); }
// schemas with an id inside a document
static void ids() {
	std::string uri=U[pick("uri",5)], c=low("letter"); static const char *const P[]={"#","?","","/","x:/a","x:/a/","x:/a#","y:/","x:/a?q=1#"}; unsigned form=pick("form",9); std::string id=P[form]; id+=c; if (uri.empty()) vp_assume(form==0 || form>3);
	std::string want; { Uri ub=split(uri), ur=split(id); bool ok=resolve(ub,ur,want); vp_assume(ok); }
	unsigned where=pick("where",4); M in(M::O), doc(M::O); in.o["id"]=M::str(id); in.o["minimum"]=M::num((long)vp_u64("minimum"));
	switch (where) { case 0: { M d(M::O); d.o["x"]=in; doc.o["definitions"]=d; break; } case 1: doc.o["not"]=in; break; case 2: { M d(M::O), e(M::O); e.o["not"]=in; d.o["x"]=e; doc.o["definitions"]=d; break; } default: { M d(M::L); d.l.push_back(in); doc.o["enum"]=d; } }
	SchemaLoader l; std::map<std::string,Variant> m=l.AddSchema(uri,toV(doc)); M norm=in; norm.o["id"]=M::str(want);
	bool trusted=where!=3 && starts(want,uri) && want.size()>uri.size() && ((uri.size() && uri[uri.size()-1]=='/') || want[uri.size()]=='#' || want[uri.size()]=='?');
	vp_assert(m.size()==1u+trusted && m.count(uri),"the number of schemas registered"); if (trusted) { vp_assert(m.count(want) && same(norm,m[want]) && same(norm,l.GetSchema(want)),"a schema within the document is registered under its resolved id"); vp_reach("registered"); }
	else { bool threw=false; Variant got; std::string frag; if (want.find('#')==std::string::npos && !eqs(want,uri)) { try { got=l.GetSchema(want); } catch (const std::exception &) { threw=true; } vp_assert(threw||got.IsNull(),"a schema outside the document's URI was registered"); vp_reach("not-registered"); } }
	M whole=m.count(uri)&&m[uri].IsMap()?doc:M(); switch (where) { case 0: whole.o["definitions"].o["x"]=norm; break; case 1: whole.o["not"]=norm; break; case 2: whole.o["definitions"].o["x"].o["not"]=norm; break; default: break; } vp_assert(same(whole,l.GetSchema(uri)),"the registered document has resolved ids and is otherwise unchanged"); vp_observe(trusted);
}
// references out of a document: relative to the closest id, loaded once
struct Cap : SchemaLoader { std::vector<std::string> asked; M doc; bool give; Cap() : give(true) {} bool HandleMissing(const std::string &u, LoaderError &e) { asked.push_back(u); if (!give) { e.AddError(u,"none"); return false; } AddSchema(u,toV(doc)); return true; } };
static bool handler(SchemaLoader *l, const std::string &u, SchemaLoader::LoaderError &e, void *ctx) { Cap *c=(Cap*)ctx; c->asked.push_back(u); if (!c->give) { e.AddError(u,"none"); return false; } l->AddSchema(u,toV(c->doc)); return true; }
static void refs() {
	static const char *const B[]={"x:/d/e","http://h/","x:/d?q"}; std::string c=low("letter"); static const char *const R[]={"y:/","/","","../","?","//k/"}; unsigned nest=pick("nest",3); std::string base=B[pick("base",3)], ref=std::string(R[pick("ref",6)])+c, b2=base; M bounds(M::O); bounds.o["minimum"]=M::num((long)(vp_u8("a"))); M far(M::O), defs(M::O), dx(M::O); dx.o["maximum"]=M::num((long)vp_u8("b")); defs.o["x"]=dx; far.o["definitions"]=defs; far.o["minimum"]=bounds.o["minimum"];
	M s(M::O), rf(M::O), props(M::O); unsigned part=pick("part",3); static const char *const F[]={"","#","#/definitions/x"}; rf.o["$ref"]=M::str(ref+F[part]); s.o["id"]=M::str(base);
	if (nest) { M mid(M::O), l(M::L); std::string sub=nest==1?"m/n":"z:/o/p"; bool ok=resolve(split(base),split(sub),b2); vp_assume(ok); mid.o["id"]=M::str(sub); l.l.push_back(rf); mid.o["allOf"]=l; props.o["p"]=mid; props.o["q"]=mid; } else { props.o["p"]=rf; props.o["q"]=rf; }
	s.o["properties"]=props; std::string want; bool ok=resolve(split(b2),split(ref),want); vp_assume(ok); vp_assume(!eqs(want,base) && !eqs(want,b2));
	Cap l; l.doc=far; l.give=pick("give",2); M d(M::O); long x=(long)vp_u8("x"), y=(long)vp_u8("y"); d.o["p"]=M::num(x); d.o["q"]=M::num(y); bool threw=false, bad=false; try { SchemaResult r=SchemaValidate(toV(s),toV(d),&l); bad=r.Error(); } catch (const std::exception &) { threw=true; }
	vp_assert(l.asked.size()>=1 && eqs(l.asked[0],want),"the loader is asked for the resolved document"); if (!l.give) { vp_assert(threw||bad,"validation succeeded without the schema"); vp_reach("missing"); return; }
	vp_assert(l.asked.size()==1,"a document was loaded twice"); vp_assert(!threw,"a reference failed"); long lim=part==2?dx.o["maximum"].i:far.o["minimum"].i; bool good=part==2?(x<=lim && y<=lim):(x>=lim && y>=lim); vp_assert(bad==!good,"verdict through a reference"); vp_reach(good?"valid":"invalid"); vp_observe(bad);
}
// loaders on top of one another, missing handlers
static void chain() {
	M a(M::O), b(M::O); a.o["minimum"]=M::num((long)vp_u64("a")); b.o["minimum"]=M::num((long)vp_u64("b")); SchemaLoader base, top(&base); Cap c; c.doc=b; c.give=pick("give",2); bool inBase=pick("base",2), inTop=pick("top",2), hnd=pick("handler",2); if (inBase) base.AddSchema("x:/a",toV(a)); if (inTop) top.AddSchema("x:/a",toV(b)); if (hnd) base.SetMissingHandler(handler,&c);
	std::string u="x:/a"; if (pick("part",2)) u+="#/minimum"; bool part=u.size()>4, threw=false; Variant got; try { got=top.GetSchema(u); } catch (const std::exception &) { threw=true; }
	const M *w=inTop?&b:inBase?&a:hnd&&c.give?&b:0; if (w) { vp_assert(!threw && same(part?w->o.find("minimum")->second:*w,got),"which loader's document is used"); vp_reach("found"); } else { vp_assert(threw,"a missing document was found"); vp_reach("missing"); }
	vp_assert(c.asked.size()==(!inTop&&!inBase&&hnd?1u:0u) && (c.asked.empty()||eqs(c.asked[0],"x:/a")),"calls of the missing handler");
	Variant schema; bool ok=true; try { schema=top.GetSchema("http://json-schema.org/draft-04/schema"); ok=schema.IsMap(); } catch (const std::exception &) { ok=false; } vp_assert(ok,"the schema of schemas is built in"); vp_observe(threw);
}
// documents in files
static std::string dir; struct File { std::string name, text; }; static std::vector<File> files;
#ifdef VP_ENGINE
static std::vector<size_t> opened; static unsigned openCount;
extern "C" FILE *vp_fopen(const char *n, const char *) { for (size_t i=0;i<files.size();i++) if (eqs(files[i].name,n)) { size_t *p=new size_t[2]; p[0]=i; p[1]=0; openCount++; return (FILE*)p; } errno=ENOENT; return 0; }
extern "C" size_t vp_fread(void *p, size_t a, size_t b, FILE *f) { size_t *q=(size_t*)f; const std::string &t=files[q[0]].text; size_t n=a*b; if (n>t.size()-q[1]) n=t.size()-q[1]; memcpy(p,t.data()+q[1],n); q[1]+=n; return n; }
extern "C" int vp_ferror(FILE*) { return 0; }
extern "C" int vp_fclose(FILE *f) { delete[] (size_t*)f; openCount--; return 0; }
static void mk() { dir="/d"; }
static void put(const std::string &n, const std::string &t) { File f; f.name=n; f.text=t; files.push_back(f); }
static void rmAll() { vp_assert(openCount==0,"a file was left open"); files.clear(); }
#else
static void mk() { char b[]="/tmp/vp30XXXXXX"; if (!mkdtemp(b)) vp_error("no scratch directory"); dir=b; mkdir((dir+"/p").c_str(),0700); mkdir((dir+"/q").c_str(),0700); }
static void put(const std::string &n, const std::string &t) { FILE *f=fopen(n.c_str(),"w"); if (!f) vp_error("no scratch file"); fwrite(t.data(),1,t.size(),f); fclose(f); File x; x.name=n; x.text=t; files.push_back(x); }
static void rmAll() { for (size_t i=0;i<files.size();i++) unlink(files[i].name.c_str()); files.clear(); rmdir((dir+"/p").c_str()); rmdir((dir+"/q").c_str()); rmdir(dir.c_str()); }
#endif
// the transfer library
static unsigned curlLive, curlAsked; static std::string curlUrl, curlBody; static bool curlInitFails; static int curlResult; static size_t (*curlWrite)(char*,size_t,size_t,void*); static void *curlData; static unsigned curlPiece;
extern "C" CURL *curl_easy_init(void) { if (curlInitFails) return 0; curlLive++; return (CURL*)malloc(1); }
extern "C" void curl_easy_cleanup(CURL *c) { curlLive--; free(c); }
#undef curl_easy_setopt
extern "C" CURLcode curl_easy_setopt(CURL*, CURLoption o, ...) { va_list ap; va_start(ap,o); if (o==CURLOPT_WRITEFUNCTION) curlWrite=va_arg(ap,size_t(*)(char*,size_t,size_t,void*)); else if (o==CURLOPT_WRITEDATA) curlData=va_arg(ap,void*); else if (o==CURLOPT_URL) curlUrl=va_arg(ap,const char*); va_end(ap); return CURLE_OK; }
extern "C" CURLcode curl_easy_perform(CURL*) { curlAsked++; if (curlResult) return (CURLcode)curlResult; for (size_t i=0;i<curlBody.size();) { size_t n=curlBody.size()-i; if (n>curlPiece) n=curlPiece; char *b=new char[n]; memcpy(b,&curlBody[i],n); size_t r=curlWrite(b,1,n,curlData); delete[] b; if (r!=n) return CURLE_WRITE_ERROR; i+=n; } return CURLE_OK; }
extern "C" const char *curl_easy_strerror(CURLcode) { return "failed"; }
static std::string text(unsigned n) { std::string t="{\"minimum\":"; t+=(char)('0'+n); return t+"}"; }
// the YAML library knows these texts only, anything else is an error
static void yopen_() { y->pos=0; y->read.clear(); y->in.clear(); }
static void yload_() { const std::string &t=y->read; if (t.size()!=13 || !eqs(t.substr(0,11),"{\"minimum\":")) return; y->in.push_back(YE(YAML_STREAM_START_EVENT)); y->in.push_back(YE(YAML_DOCUMENT_START_EVENT)); y->in.push_back(YE(YAML_MAPPING_START_EVENT)); YE k(YAML_SCALAR_EVENT); k.style=YAML_DOUBLE_QUOTED_SCALAR_STYLE; k.text="minimum"; y->in.push_back(k); k.style=YAML_PLAIN_SCALAR_STYLE; k.text=t.substr(11,1); y->in.push_back(k); y->in.push_back(YE(YAML_MAPPING_END_EVENT)); y->in.push_back(YE(YAML_DOCUMENT_END_EVENT)); y->in.push_back(YE(YAML_STREAM_END_EVENT)); }
static void adv() {
	y=new Y; yopened=yopen_; yloaded=yload_; mk(); AdvSchemaLoader l; unsigned np=pick("paths",3); if (np>0) l.AddPath(dir+"/p"); if (np>1) l.AddPath(dir+"/q"); bool inP=pick("in p",2), inQ=pick("in q",2), here=pick("absolute",2); unsigned form=pick("form",6); bool broken=pick("broken",2), hnd=pick("handler",2);
	curlLive=curlAsked=0; curlBody=text(5); curlResult=pick("transfer",3); curlInitFails=curlResult==2; curlPiece=pick("pieces",2)?4:100;
	if (inP) put(dir+"/p/a.json",broken?"{":text(1)); if (inQ) put(dir+"/q/a.json",text(2)); if (here) put(dir+"/a.json",broken?"{":text(3));
	Cap c; c.doc=M(M::O); c.doc.o["minimum"]=M::num(4); if (hnd) l.SetMissingHandler(handler,&c);
	std::string u; int want=-1; bool curl=false, curlOk=curlResult==0; int byPath=np>0&&inP&&!broken?1:np>1&&inQ?2:-1;
	switch (form) {
	case 0: u="a.json"; want=byPath; if (want<0) { curl=true; if (curlOk) want=5; } break;                       // a name without a scheme: search path, then transfer
	case 1: u=dir+"/a.json"; if (here&&!broken) want=3; break;                                                  // an absolute path
	case 2: u="file://"+dir+"/a.json"; if (here&&!broken) want=3; break;                                        // an absolute file URI
	case 3: u="file:a.json"; want=byPath; break;
	case 4: u="http://h/a.json"; curl=true; if (curlOk) want=5; break;
	default: u="./a.json"; want=byPath; if (want<0) { curl=true; if (curlOk) want=5; } break; }                   // the same name
	bool viaHandler=want<0; if (want<0 && hnd) want=4; std::string q=u; bool part=pick("part",2); if (part) q+="#/minimum"; bool threw=false; Variant got; std::string what; try { got=l.GetSchema(q); } catch (const std::exception &e) { threw=true; what=e.what(); }
	
	if (want>=0) { vp_assert(!threw,"a schema that is available was not loaded"); vp_assert(part?got.IsNumber()&&got.AsInt()==want:got.IsMap()&&got.Size()==1&&got.Get("minimum").AsInt()==want,"the wrong schema was loaded"); vp_reach("loaded"); } else { vp_assert(threw && what.size(),"a schema that is not available was found"); vp_reach("missing"); }
	vp_assert((c.asked.size()==1)==(viaHandler&&hnd),"the missing handler is asked when nothing else has the schema"); vp_assert(curlLive==0,"a transfer was not released"); vp_assert((curlAsked>0)==(curl&&curlResult!=2),"transfers"); if (curlAsked) vp_assert(eqs(curlUrl,form==5?std::string("a.json"):u),"the URI transferred");
	unsigned before=curlAsked+c.asked.size(); if (want>=0) { got=l.GetSchema(q); vp_assert(curlAsked+c.asked.size()==before && (part?got.AsInt():got.Get("minimum").AsInt())==want,"a loaded schema is kept"); } vp_assert(y->parsers==0,"a parser was not released"); delete y; vp_observe(want); rmAll();
}
extern "C" void vp_main() { { SchemaLoader warm; } switch (vp_param("CASE",0)) { case 0: lookup(); break; case 1: ids(); break; case 2: refs(); break; case 3: chain(); break; default: adv(); } }
