// Outputs that accept any number of bytes per call, fail anywhere, or have any capacity: they get exactly the serialized
// text or the caller gets an exception.
#include "model.h"
#include <Variant/Emitter.h>
#include <Variant/Payload.h>
#include <streambuf>
#include <sstream>
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
// accepted byte count: anything from 1 to len for the first budget calls, then everything
static unsigned budget;
static unsigned accept(unsigned len) { if (!budget || len<2 || len<vp_param("MIN",0)) return len; budget--; uint16_t n=(uint16_t)vp_u32("accept"); vp_assume(n>=1 && n<=len && n<=vp_param("CHUNK",255)); return (unsigned)vp_fork(n); }
struct Sink : EmitterOutput {
	std::string got; unsigned calls, failAt; bool flushFails, failed;
	Sink() : calls(0), failAt(~0u), flushFails(false), failed(false) {}
	unsigned Write(const void *p, unsigned len) {
		if (failed || calls++==failAt) { failed=true; throw Boom(); }
		unsigned n=accept(len); got.append((const char*)p,n); return n;
	}
	void Flush() { if (flushFails) { failed=true; throw Boom(); } }
	unsigned NumBytesWritten() const { return got.size(); }
};
struct Buf : std::streambuf {
	std::string got; unsigned room; bool syncFails; Buf() : room(~0u), syncFails(false) {}
	std::streamsize xsputn(const char *p, std::streamsize n) { unsigned k=accept(n); if (k>room) k=room; room-=k; got.append(p,k); return k; }
	int_type overflow(int_type c) { return traits_type::eof(); }
	int sync() { return syncFails?-1:0; }
};
// FILE whose device has room for so many bytes
static std::string fileGot; static unsigned fileRoom; static bool fileSyncFails;
extern "C" size_t vp_fwrite(const void *p, size_t a, size_t b, FILE*) { size_t n=a*b; if (n>fileRoom) n=fileRoom; fileRoom-=n; fileGot.append((const char*)p,n); return a?n/a:0; }
extern "C" int vp_fflush(FILE*) { return fileSyncFails?-1:0; }
#ifndef VP_ENGINE
static ssize_t cookieWrite(void*, const char *p, size_t n) { if (n>fileRoom) n=fileRoom; fileRoom-=n; fileGot.append(p,n); return n; }
static FILE *openFile() { cookie_io_functions_t f={0,cookieWrite,0,0}; FILE *r=fopencookie(0,"w",f); if (!fileSyncFails) setvbuf(r,0,_IONBF,0); else fileRoom=0; return r; }
static void closeFile(FILE *f) { fclose(f); }
#else
static FILE *openFile() { return (FILE*)&fileGot; }
static void closeFile(FILE*) {}
#endif
enum { JSON, PRETTY, HDR, PAYJ, PAYB, NFMT };
static Variant doc(unsigned fmt, std::string &payload) {
	Variant v(Variant::MapType); std::string s=symstr("text",vp_param("S",1)); for (unsigned i=0;i<s.size();i++) vp_assume(s[i]>='a' && s[i]<='z');
	if (unsigned big=vp_param("BIG",0)) s+=std::string(big,'x');
	if (fmt==PAYJ || fmt==PAYB) { payload=symstr("payload",2); BlobPtr b=Blob::CreateCopy(payload.data(),payload.size()); v["k"]=s; if (fmt==PAYJ) v["payload"]["data"]=b; else v["payload.data"]=b; return v; }
	Variant l(Variant::ListType); l.Append(s); l.Append(true); if (unsigned n=vp_param("BLOB",0)) { std::string b; for (unsigned i=0;i<n;i++) b+=(char)(i*7); b[0]=s[0]; l.Append(Blob::CreateCopy(b.data(),b.size())); } v["k"]=l; if (vp_param("TWO",0)) v[s]=7; return v;
}
static SerializeType type(unsigned f) { return f==HDR||f==PAYB?SERIALIZE_BUNDLEHDR:SERIALIZE_JSON; }
static Variant params(unsigned f) { Variant p; if (f==PRETTY) { p["pretty"]=true; p["indent"]=2; } return p; }
static bool pay(unsigned f) { return f==PAYJ||f==PAYB; }
static std::string expected(unsigned f, const Variant &v) { return pay(f)?SerializeWithPayload(v,type(f),params(f)):Serialize(v,type(f),params(f)); }
static void emit(shared_ptr<EmitterOutput> o, unsigned f, const Variant &v) {
	if (pay(f)) { SerializeWithPayload(o,v,type(f),params(f)); return; }
	Emitter e=CreateEmitter(o,type(f),params(f)); e << v; e.Close();
}
static bool prefix(const std::string &a, const std::string &b) { return a.size()<=b.size() && eqs(a,b.substr(0,a.size())); }
// indentation of every width, the buffers of the emitter filled to every level
static void indented() {
	uint8_t w=vp_u8("indent"); vp_assume(w<=vp_param("IND",140) && w>=vp_param("INDMIN",0)); w=(uint8_t)vp_fork(w); std::string t=symstr("text",1); vp_assume(t[0]>='a' && t[0]<='z'); unsigned n=vp_param("ITEMS",9), a=1+pick("len",vp_param("LENS",3))*37; std::string item=t+std::string(a-1,'x'), nl="\n"+std::string(w,' '), want="["; Variant v(Variant::ListType), p;
	for (unsigned i=0;i<n;i++) { v.Append(item); if (i) want+=","; want+=nl+"\""+item+"\""; } want+="\n]"; p["pretty"]=true; p["indent"]=w; Sink *k=new Sink; shared_ptr<EmitterOutput> o(k); budget=vp_param("SHORT",0); { Emitter e=CreateEmitter(o,SERIALIZE_JSON,p); e << v; e.Close(); }
	while (!k->got.empty() && k->got[k->got.size()-1]=='\n') k->got.resize(k->got.size()-1); vp_assert(eqs(k->got,want),"the indented text is not complete"); vp_reach("indented");
}
extern "C" void vp_main() {
	if (vp_param("CASE",0)==5) { indented(); return; }
	std::string payload; unsigned f=vp_param("FMT",NFMT); if (f>=NFMT) f=pick("format",NFMT);
	Variant v=doc(f,payload);
	budget=0; std::string want=expected(f,v);
	budget=vp_param("SHORT",2);
	switch (vp_param("CASE",0)) {
	case 0: { // any chunking
		Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); emit(o,f,v);
		vp_assert(eqs(s->got,want),"the output did not receive exactly the serialized text"); vp_reach("chunked"); break; }
	case 1: { // failure at any call
		Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); unsigned at=pick("failAt",vp_param("CALLS",12)+1); if (at) s->failAt=at-1; else s->flushFails=true;
		bool thrown=false; try { emit(o,f,v); } catch (const std::exception &) { thrown=true; }
		vp_assert(prefix(s->got,want),"the output received something else than the serialized text");
		if (s->failed) { vp_assert(thrown,"output failed but the serialize call succeeded"); vp_reach("failed"); }
		else { vp_assert(!thrown && eqs(s->got,want),"nothing failed but the text is not complete"); vp_reach("not-failed"); }
		break; }
	case 2: { // memory of any capacity
		unsigned cap=(unsigned)vp_u32("capacity"); vp_assume(cap<=want.size()+1 && cap+vp_param("BELOW",400)>=want.size()); cap=(unsigned)vp_fork(cap);
		char *m=(char*)malloc(cap?cap:1); bool raw=pick("raw",2); unsigned n=0; bool thrown=false;
		if (!cap) { free(m); m=(char*)malloc(0); }
		try { if (raw) { shared_ptr<EmitterOutput> o=CreateEmitterOutput(m,cap); emit(o,f,v); n=o->NumBytesWritten(); }
			else n=pay(f)?SerializeWithPayload(m,cap,v,type(f),params(f)):Serialize(m,cap,v,type(f),params(f)); }
		catch (const std::exception &) { thrown=true; }
		if (cap<want.size()) { vp_assert(thrown,"too small a buffer was not reported"); vp_reach("too-small"); }
		else { vp_assert(!thrown,"large enough buffer refused"); vp_assert(n==want.size(),"wrong length reported"); vp_assert(eqs(std::string(m,n),want),"wrong text in the buffer"); vp_reach("fits"); }
		free(m); break; }
	case 3: { // stream buffer
		Buf b; unsigned mode=pick("mode",3); if (mode==1) { uint16_t r=(uint16_t)vp_u32("room"); vp_assume(r<want.size() && r+vp_param("BELOW",400)>=want.size()); b.room=(unsigned)vp_fork(r); } if (mode==2) b.syncFails=true;
		bool thrown=false; try { if (pay(f)) SerializeWithPayload(&b,v,type(f),params(f)); else Serialize(&b,v,type(f),params(f)); } catch (const std::exception &) { thrown=true; }
		vp_assert(prefix(b.got,want),"the stream buffer received something else than the serialized text");
		if (mode==0) { vp_assert(!thrown && eqs(b.got,want),"the stream buffer did not receive the text"); vp_reach("stream"); }
		else { vp_assert(thrown,"stream buffer failed but the serialize call succeeded"); vp_reach("stream-failed"); }
		break; }
	case 4: { // FILE
		fileGot.clear(); fileRoom=~0u; fileSyncFails=false; unsigned mode=pick("mode",3);
		if (mode==1) { uint16_t r=(uint16_t)vp_u32("room"); vp_assume(r<want.size() && r+vp_param("BELOW",400)>=want.size()); fileRoom=(unsigned)vp_fork(r); } if (mode==2) fileSyncFails=true;
		FILE *fp=openFile(); bool thrown=false; try { if (pay(f)) SerializeWithPayload(fp,v,type(f),params(f)); else Serialize(fp,v,type(f),params(f)); } catch (const std::exception &) { thrown=true; }
		closeFile(fp);
		if (mode==0) { vp_assert(!thrown && eqs(fileGot,want),"the file did not receive the text"); vp_reach("file"); }
		else { if (mode==1) vp_assert(prefix(fileGot,want),"the file received something else than the serialized text"); vp_assert(thrown,"file failed but the serialize call succeeded"); vp_reach("file-failed"); }
		std::string().swap(fileGot); break; }
	}
}
