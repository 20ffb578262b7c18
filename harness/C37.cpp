// Every way to name an input or output -- text, memory, named file, open file, stream -- and the functions of one format each.
#include "ymodel.h"
#include "xmodel.h"
#include <Variant/Payload.h>
#include <Variant/Emitter.h>
#include <sstream>
#include <unistd.h>
#include <errno.h>
struct File { bool there; std::string name, text; int open; File() : there(false), open(0) {} }; static File file; static std::string dir;
#ifdef VP_ENGINE
// the one file is a text in memory
struct Stream { size_t pos; bool write; };
extern "C" FILE *vp_fopen(const char *n, const char *m) { if (!eqs(file.name,n) || (m[0]=='r' && !file.there)) { errno=ENOENT; return 0; } if (m[0]=='w') file.text.clear(); file.there=true; file.open++; Stream *s=new Stream; s->pos=m[0]=='a'?file.text.size():0; s->write=m[0]!='r'; return (FILE*)s; }
extern "C" size_t vp_fread(void *p, size_t a, size_t b, FILE *f) { Stream &s=*(Stream*)f; size_t n=a*b; if (n>file.text.size()-s.pos) n=file.text.size()-s.pos; memcpy(p,file.text.data()+s.pos,n); s.pos+=n; return n; }
extern "C" size_t vp_fwrite(const void *p, size_t a, size_t b, FILE *f) { Stream &s=*(Stream*)f; if (!s.write) return 0; size_t n=a*b; file.text.resize(s.pos); file.text.append((const char*)p,n); s.pos+=n; return b; }
extern "C" int vp_fflush(FILE*) { return 0; }
extern "C" int vp_ferror(FILE*) { return 0; }
extern "C" int vp_fclose(FILE *f) { file.open--; delete (Stream*)f; return 0; }
static void mk() { dir="/d"; file.name=dir+"/f"; }
static void put() {}
static void get() {}
static int opened() { return file.open; }
static void rmAll() {}
#else
static void mk() { char b[]="/tmp/vp37XXXXXX"; if (!mkdtemp(b)) vp_error("no scratch directory"); dir=b; file.name=dir+"/f"; }
static void put() { if (!file.there) return; FILE *f=fopen(file.name.c_str(),"w"); if (!f) vp_error("no scratch file"); fwrite(file.text.data(),1,file.text.size(),f); fclose(f); }
static void get() { file.text.clear(); file.there=false; FILE *f=fopen(file.name.c_str(),"r"); if (!f) return; file.there=true; char b[256]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) file.text.append(b,n); fclose(f); }
static int opened() { int n=0; char t[4096]; for (int i=3;i<64;i++) { char l[32]; snprintf(l,sizeof l,"/proc/self/fd/%d",i); ssize_t k=readlink(l,t,sizeof t); if (k==(ssize_t)file.name.size() && !memcmp(t,file.name.data(),k)) n++; } return n; }
static void rmAll() { unlink(file.name.c_str()); rmdir(dir.c_str()); }
#endif
enum { JSON, PRETTY, HDR, PAYJ, PAYB, NFMT };
static SerializeType type(unsigned f) { return f==HDR||f==PAYB?SERIALIZE_BUNDLEHDR:SERIALIZE_JSON; }
static Variant params(unsigned f) { Variant p; if (f==PRETTY) p["pretty"]=true; return p; }
static bool pay(unsigned f) { return f==PAYJ||f==PAYB; }
static Variant doc(unsigned f) {
	Variant v(Variant::MapType); std::string s=symstr("text",vp_param("S",2)); for (unsigned i=0;i<s.size();i++) vp_assume(s[i]>='a' && s[i]<='z'); v["k"]=s;
	if (pay(f)) { std::string p=symstr("payload",2); BlobPtr b=Blob::CreateCopy(p.data(),p.size()); if (f==PAYJ) v["payload"]["data"]=b; else v["payload.data"]=b; } else v["l"].Append(s).Append(true); return v;
}
struct Str : std::streambuf { std::string s; std::streamsize xsputn(const char *p, std::streamsize n) { s.append(p,n); return n; } int overflow(int c) { if (c!=EOF) s+=(char)c; return c==EOF?0:c; } int sync() { return 0; } };
static void write() {
	unsigned f=pick("format",NFMT), how=pick("how",10); Variant v=doc(f), c=v.Copy(); std::string want=pay(f)?SerializeWithPayload(v,type(f),params(f)):Serialize(v,type(f),params(f)); mk(); bool bad=how<3 && pick("bad",2); std::string name=bad?dir+"/missing/f":file.name;
	if (pick("there",2)) { file.there=true; file.text=std::string(pick("long",2)?150:1,(char)(1+vp_u8("old")%255)); } std::string old=file.text; bool was=file.there; put(); bool thrown=false, toFile=false; std::string got, head; unsigned n=0; char mem[600]; FILE *fp=0; Str sb;
	if (how==3||how==4) { fp=fopen(file.name.c_str(),"w"); head="head"; if (fwrite(head.data(),1,4,fp)!=4) vp_error("write"); toFile=true; }
	try { switch (how) {
	case 0: toFile=true; if (pay(f)) SerializeWithPayload(name,v,type(f),params(f)); else Serialize(name,v,type(f),params(f)); break;
	case 1: toFile=true; if (f==JSON) SerializeJSON(name,v); else if (f==PRETTY) SerializeJSON(name,v,true); else if (f==HDR) SerializeBundleHdr(name,v); else if (f==PAYB) SerializeBundle(name,v); else vp_assume(0); break;
	case 2: { toFile=true; vp_assume(!pay(f)); Emitter e=CreateEmitter(CreateEmitterOutput(name.c_str()),type(f),params(f)); e << v; e.Close(); break; }
	case 3: if (pay(f)) SerializeWithPayload(fp,v,type(f),params(f)); else Serialize(fp,v,type(f),params(f)); break;
	case 4: if (f==JSON) SerializeJSON(fp,v); else if (f==PRETTY) SerializeJSON(fp,v,true); else if (f==HDR) SerializeBundleHdr(fp,v); else if (f==PAYB) SerializeBundle(fp,v); else vp_assume(0); break;
	case 5: if (pay(f)) SerializeWithPayload(&sb,v,type(f),params(f)); else Serialize(&sb,v,type(f),params(f)); got=sb.s; break;
	case 6: if (f==JSON) SerializeJSON(&sb,v); else if (f==PRETTY) SerializeJSON(&sb,v,true); else if (f==HDR) SerializeBundleHdr(&sb,v); else if (f==PAYB) SerializeBundle(&sb,v); else vp_assume(0); got=sb.s; break;
	case 7: n=pay(f)?SerializeWithPayload(mem,sizeof mem,v,type(f),params(f)):Serialize(mem,sizeof mem,v,type(f),params(f)); got=std::string(mem,n); break;
	case 8: if (f==JSON) n=SerializeJSON(mem,sizeof mem,v); else if (f==PRETTY) n=SerializeJSON(mem,sizeof mem,v,true); else if (f==HDR) n=SerializeBundleHdr(mem,sizeof mem,v); else if (f==PAYB) n=SerializeBundle(mem,sizeof mem,v); else vp_assume(0); got=std::string(mem,n); break;
	default: if (f==JSON) got=SerializeJSON(v); else if (f==PRETTY) got=SerializeJSON(v,true); else if (f==HDR) got=SerializeBundleHdr(v); else if (f==PAYB) got=SerializeBundle(v); else vp_assume(0); break;
	} } catch (const std::exception &) { thrown=true; }
	vp_assert(opened()==(fp?1:0),fp?"the file of the caller was closed":"a file was left open"); if (fp) fclose(fp); get(); if (toFile && !bad) got=file.text; rmAll();
	vp_assert(thrown==bad,bad?"a file that cannot be opened was not reported":"writing failed"); vp_assert(sameV(v,c),"writing changed the value");
	if (!bad) { vp_assert(eqs(got,head+want),"not the bytes that serializing to a text gives"); obs(got); vp_reach(toFile?"file":"memory"); } else vp_reach("refused");
	if (!toFile || bad) vp_assert(file.there==was && eqs(file.text,old),"another file was touched");
}
static Variant first(LoadAllIterator i) { return *i; }
static void read() {
	unsigned f=pick("format",NFMT), how=pick("how",10); vp_assume(f!=PRETTY); SerializeType ty=type(f); std::string t, s=symstrv("text",vp_param("N",2)); bool cvt=false; mk();
	switch (f) { case JSON: t="{\"a\":["+s+"]}"; break; case HDR: t="k:"+s+"\n"; break; case PAYJ: t=std::string("{\"payload\":{\"length\":1}}\0",25)+s; break; default: t=std::string("payload.length:1\n\0",18)+s; }
	if (pick("short",2)) t.resize(t.size()-1); bool nul=false; for (unsigned i=0;i<t.size();i++) if (t[i]==0) nul=true;
	Variant want; bool bad=false; try { want=pay(f)?DeserializeWithPayload(t.data(),t.size(),ty):Deserialize(t.data(),t.size(),ty); } catch (const std::exception &) { bad=true; }
	bool missing=pick("missing",2); vp_assume(!missing||how<3); if (!missing) { file.there=true; file.text=t; put(); } FILE *fp=0; if (how>=3 && how<6) fp=fopen(file.name.c_str(),"r"); std::istringstream in(t); const char *n=file.name.c_str(); Variant got; bool thrown=false;
	try { switch (how) {
	case 0: got=pay(f)?DeserializeWithPayloadFile(n,ty):DeserializeFile(n,ty); break;
	case 1: if (f==JSON) got=DeserializeJSONFile(n); else if (f==HDR) got=DeserializeBundleHdrFile(n); else if (f==PAYB) got=DeserializeBundleFile(n); else vp_assume(0); break;
	case 2: vp_assume(!pay(f)); got=first(DeserializeAllFile(n,ty)); break;
	case 3: got=pay(f)?DeserializeWithPayloadFile(fp,ty):DeserializeFile(fp,ty); break;
	case 4: if (f==JSON) got=DeserializeJSONFile(fp); else if (f==HDR) got=DeserializeBundleHdrFile(fp); else if (f==PAYB) got=DeserializeBundleFile(fp); else vp_assume(0); break;
	case 5: vp_assume(!pay(f)); got=first(DeserializeAllFile(fp,ty)); break;
	case 6: got=pay(f)?DeserializeWithPayloadFile(in.rdbuf(),ty):DeserializeFile(in.rdbuf(),ty); break;
	case 7: if (f==JSON) got=DeserializeJSONFile(in.rdbuf()); else if (f==HDR) got=DeserializeBundleHdrFile(in.rdbuf()); else if (f==PAYB) got=DeserializeBundleFile(in.rdbuf()); else got=DeserializeWithPayload(t,ty); break;
	case 8: if (f==JSON) got=DeserializeJSON(t); else if (f==HDR) got=DeserializeBundleHdr(t); else if (f==PAYB) got=DeserializeBundle(t); else got=DeserializeWithPayload(t,ty); break;
	default: vp_assume(!pay(f)&&!nul); switch (pick("text",4)) { case 0: got=f==JSON?DeserializeJSON(t.c_str()):DeserializeBundleHdr(t.c_str()); break; case 1: got=Deserialize(t.c_str(),ty); break; case 2: got=first(DeserializeAll(t.c_str(),ty)); break; default: got=first(DeserializeAll(t,ty)); } break;
	} } catch (const std::exception &) { thrown=true; }
	vp_assert(opened()==(fp?1:0),fp?"the file of the caller was closed":"a file was left open"); if (fp) fclose(fp); get(); std::string after=file.text; bool there=file.there; rmAll();
	vp_assert(thrown==(missing||bad),missing?"a missing file was not reported":"reading in another way fails or succeeds unlike reading from memory"); vp_observe(thrown); if (!thrown) { vp_assert(sameV(got,want),"reading in another way gives another value"); obsV(got); vp_reach("value"); } else vp_reach(missing?"missing":"refused");
	if (missing) vp_assert(!there,"reading created the file"); else vp_assert(there && eqs(after,t),"reading changed the file");
}
// YAML and XML: the functions of the format reach the reader and the writer of that format
static void formats() {
	y=new Y; x=new X; y->rmax=x->rmax=3; bool xml=pick("xml",2); std::string t=symstrv("text",vp_param("N",2)); if (t.empty()) t="t"; mk(); file.there=true; file.text=t; put(); const char *n=file.name.c_str(); FILE *fp=0; unsigned how=pick("how",9); std::istringstream in(t); for (unsigned k=0;k<t.size();k++) vp_assume(t[k]!=0);
	y->in.push_back(YE(YAML_STREAM_START_EVENT)); y->in.push_back(YE(YAML_DOCUMENT_START_EVENT)); YE e(YAML_SCALAR_EVENT); e.text="yaml"; e.style=YAML_SINGLE_QUOTED_SCALAR_STYLE; y->in.push_back(e); y->in.push_back(YE(YAML_DOCUMENT_END_EVENT)); y->in.push_back(YE(YAML_STREAM_END_EVENT));
	x->in.push_back(XN(XML_READER_TYPE_ELEMENT,"plist")); x->in.push_back(XN(XML_READER_TYPE_ELEMENT,"string")); x->in.push_back(XN(XML_READER_TYPE_TEXT,"#text","xml")); x->in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"string")); x->in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"plist"));
	{ Variant v; try { switch (how) {
	case 0: v=xml?DeserializeXMLPLIST(t):DeserializeYAML(t); break; case 1: v=xml?DeserializeXMLPLIST(t.c_str()):DeserializeYAML(t.c_str()); break; case 2: v=xml?DeserializeXMLPLIST(t.data(),t.size()):DeserializeYAML(t.data(),t.size()); break;
	case 3: v=xml?DeserializeXMLPLISTFile(n):DeserializeYAMLFile(n); break; case 4: fp=fopen(n,"r"); v=xml?DeserializeXMLPLISTFile(fp):DeserializeYAMLFile(fp); break; case 5: v=xml?DeserializeXMLPLISTFile(in.rdbuf()):DeserializeYAMLFile(in.rdbuf()); break;
	case 6: vp_assume(!xml); v=pick("text",2)?first(DeserializeYAMLAll(t)):first(DeserializeYAMLAll(t.c_str())); break; case 7: vp_assume(!xml); v=pick("name",2)?first(DeserializeYAMLAllFile(n)):first(DeserializeYAMLAll(t.data(),t.size())); break; default: vp_assume(!xml); v=first(DeserializeYAMLAllFile(in.rdbuf())); break;
	} } catch (const std::exception &) { rmAll(); vp_fail("reading failed"); }
	vp_assert(v.IsString() && v.AsString()==(xml?"xml":"yaml"),"read as another format"); vp_assert(eqs(xml?x->read:y->read,t) && (xml?y->read:x->read).empty(),"the reader did not get the input as it is"); obsV(v); }
	vp_assert(!y->parsers && !x->readers,"a reader was not released"); vp_assert(opened()==(fp?1:0),"files open after reading"); if (fp) fclose(fp); rmAll(); delete y; delete x; y=0; x=0; vp_reach(xml?"xml":"yaml");
}
static void wformats() {
	y=new Y; x=new X; bool xml=pick("xml",2), pretty=xml && pick("pretty",2); Variant v(Variant::ListType), p; std::string s=symstr("text",1); vp_assume(s[0]>='a'&&s[0]<='z'); v.Append(s).Append(true); if (xml) { p=Variant::MapType; p["pretty"]=pretty; } std::string want=Serialize(v,xml?SERIALIZE_XMLPLIST:SERIALIZE_YAML,p), got; delete y; delete x; y=new Y; x=new X; mk(); char mem[600]; Str sb; FILE *fp=0; bool toFile=false;
	switch (pick("how",5)) {
	case 0: got=xml?SerializeXMLPLIST(v,pretty):SerializeYAML(v); break; case 1: toFile=true; if (xml) SerializeXMLPLIST(file.name,v,pretty); else SerializeYAML(file.name,v); break; case 2: toFile=true; fp=fopen(file.name.c_str(),"w"); if (xml) SerializeXMLPLIST(fp,v,pretty); else SerializeYAML(fp,v); break;
	case 3: if (xml) SerializeXMLPLIST(&sb,v,pretty); else SerializeYAML(&sb,v); got=sb.s; break; default: { unsigned n=xml?SerializeXMLPLIST(mem,sizeof mem,v,pretty):SerializeYAML(mem,sizeof mem,v); got=std::string(mem,n); } }
	vp_assert(opened()==(fp?1:0),"files open after writing"); if (fp) fclose(fp); get(); if (toFile) got=file.text; rmAll(); vp_assert(!want.empty() && eqs(got,want),"not the bytes that the general function gives"); vp_assert(!y->emitters,"a writer was not released"); delete y; delete x; y=0; x=0; vp_reach(xml?"xml":"yaml");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: write(); break; case 1: read(); break; case 2: formats(); break; case 3: wformats(); break; } }
