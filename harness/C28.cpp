// Failures in the middle of an operation: handlers and loaders that throw at any call, outputs that throw, memory running
// out at any allocation.  The caller sees an exception, nothing leaks, everything stays usable.
#include "ymodel.h"
#include "xmodel.h"
#include "src.h"
#include <Variant/Emitter.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <Variant/Path.h>
#include <Variant/Extensions.h>
#include <new>
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
// ---- memory that runs out: the allocation numbered newFail by operator new fails
static unsigned newCount, newFail; static bool newArmed, newFailed;
static bool newFails() { if (!newArmed || newCount++!=newFail) return false; newFailed=true; return true; }
#ifdef VP_ENGINE
extern "C" int vp_new_fails() { return newFails(); }
#else
void *operator new(size_t n) { if (newFails()) throw std::bad_alloc(); void *p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { if (newFails()) throw std::bad_alloc(); void *p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
// ---- a handler of parse events that throws at one of them
struct Thrower : ParserActions {
	unsigned n, at; Thrower(unsigned a) : n(0), at(a) {}
	void ev() { if (n++==at) throw Boom(); }
	void BeginDocument(ParserImpl*) { ev(); }
	void EndDocument(ParserImpl*) { ev(); }
	void BeginMap(ParserImpl*, int, const char*, const char*) { ev(); }
	void EndMap(ParserImpl*) { ev(); }
	void BeginList(ParserImpl*, int, const char*, const char*) { ev(); }
	void EndList(ParserImpl*) { ev(); }
	void Alias(ParserImpl*, const char*) { ev(); }
	void Scalar(ParserImpl*, double, const char*, const char*) { ev(); }
	void Scalar(ParserImpl*, const char*, unsigned, const char*, const char*) { ev(); }
	void Scalar(ParserImpl*, bool, const char*, const char*) { ev(); }
	void Null(ParserImpl*, const char*, const char*) { ev(); }
	void Scalar(ParserImpl*, intmax_t, const char*, const char*) { ev(); }
	void Scalar(ParserImpl*, uintmax_t, const char*, const char*) { ev(); }
	void Scalar(ParserImpl*, BlobPtr, const char*, const char*) { ev(); }
};
struct Sink : EmitterOutput {
	std::string got; unsigned calls, failAt; bool failed; Sink(unsigned f) : calls(0), failAt(f), failed(false) {}
	unsigned Write(const void *p, unsigned len) { if (failed || calls++==failAt) { failed=true; throw Boom(); } got.append((const char*)p,len); return len; }
	void Flush() {}
	unsigned NumBytesWritten() const { return got.size(); }
};
enum { JSON, HDR, YAML, XML, NFMT };
static const SerializeType T[]={SERIALIZE_JSON,SERIALIZE_BUNDLEHDR,SERIALIZE_YAML,SERIALIZE_XMLPLIST};
static std::string letters(const char *n, unsigned k) { std::string s=symstr(n,k); for (unsigned i=0;i<k;i++) vp_assume(s[i]>='a' && s[i]<='z'); return s; }
static const char longText[]="a text longer than any string stored in place";
static Variant document(unsigned f) {
	Variant v(Variant::MapType); std::string t=letters("text",2); static const unsigned char b[]={1,2,3};
	Variant l(Variant::ListType); l.Append(t); l.Append(true); l.Append(longText);
	if (f==HDR) { v["k"]=l; v["m"]=7; return v; }
	l.Append(-5); l.Append(1.5); l.Append(Variant()); l.Append(BlobPtr(Blob::CreateCopy(b,3))); v["k"]=l; v["m"]["n"]["a rather long key, not stored in place"]=t; return v;
}
static Variant smallDoc(unsigned f) { Variant v(Variant::MapType); v["k"].Append(letters("text",1)); v["k"].Append(longText); if (f!=HDR) v["a rather long key, not stored in place"]["n"]=Variant(); return v; }
// the text in the given format; for YAML and XML the models are set up to deliver it
static std::string textOf(unsigned f, const Variant &v) {
	std::string s=Serialize(v,T[f]);
	if (f==YAML) { y->in=y->out; }
	if (f==XML) xreread();
	return s;
}
static void fresh(Y &a, X &b) { a.pos=a.calls=0; b.pos=b.calls=0; a.out.clear(); a.emitted=0; b.out.clear(); b.flushed=0; b.open.clear(); b.docEnded=false; a.parserDead=false; }
static bool equal(const Variant &a, const Variant &b) { return a.Compare(b)==0; }
static unsigned fmt() { unsigned f=vp_param("FMT",NFMT); return f<NFMT?f:pick("format",NFMT); }
// ---- operations run with memory running out
enum { O_PARSE, O_WRITE, O_COPY, O_EDIT, O_BLOB, O_REF, O_PATH, O_UPDATE, O_SCHEMA, O_PATCH, O_DIFF, O_FLATTEN, O_DEFAULTS, NOP };
struct Op {
	unsigned op, f, what; Variant orig, v, arg; std::string text, out; Variant res;
	Op() {
		op=vp_param("OP",NOP); if (op>=NOP) op=pick("operation",NOP); f=op==O_PARSE||op==O_WRITE?pick("format",2):JSON; what=op==O_EDIT?pick("edit",8):op==O_PATH||op==O_UPDATE||op==O_REF?pick("variant",3):0;
		orig=smallDoc(f); if (op==O_PARSE) text=textOf(f,orig);
		if (op==O_UPDATE) { arg=orig.Copy(); arg["k"]=longText; arg["new"]["x"]=longText; }
		if (op==O_SCHEMA) { arg["type"]="object"; arg["properties"]["k"]["type"]="array"; arg["properties"]["k"]["items"]["type"]="string"; arg["required"].Append("k"); }
		if (op==O_PATCH) { static const char *const P[]={"add","replace","copy"}; for (unsigned i=0;i<3;i++) { Variant o; o["op"]=P[i]; o["path"]=i==2?"/copied":"/k/0"; o["value"]=longText; if (i==2) o["from"]="/k"; arg.Append(o); } }
		if (op==O_DIFF) { arg=orig.Copy(); arg["k"].Append(longText); arg["new"]=longText; }
		if (op==O_DEFAULTS) { arg["properties"]["d"]["default"].Append(longText); arg["properties"]["k"]["type"]="array"; }
		reset();
	}
	void reset() { v=orig.Copy(); res=Variant(); out=std::string(); }
	void run() {
		switch (op) {
		case O_PARSE: res=Deserialize(text,T[f]); break;
		case O_WRITE: out=Serialize(v,T[f]); break;
		case O_COPY: res=v.Copy(); break;
		case O_EDIT: switch (what) {
			case 0: v["new"]=longText; break;
			case 1: v["k"].Append(longText); break;
			case 2: v["k"].Append(v.Copy()); break;
			case 3: v["x"]["y"]["a rather long key, not stored in place"]=1; break;
			case 4: v.Set("k",Variant(Variant::MapType)); break;
			case 5: v["k"]=v["k"].Copy(); break;
			case 6: v["k"].AsList().insert(v["k"].AsList().begin(),5,Variant(longText)); break;
			default: v["k"][0]=longText; break; }
			break;
		case O_BLOB: { BlobPtr b=Blob::CreateCopy(longText,sizeof longText); Variant w; w["blob"]=b; res=w.Copy(); break; }
		case O_REF: { VariantRef r=v["k"]; if (what) { VariantRef q=r; q.Append(7); if (what==2) { r[0]=longText; v["k"]=Variant(); } } else res=r; break; }
		case O_PATH: if (what==0) res=v.GetPath("k[0]"); else if (what==1) v.SetPath("new/longer/path/with/components",longText); else v.SetPath("k[1]",arg); break;
		case O_UPDATE: if (what==0) RUpdate(v.Ref(),arg); else if (what==1) res=RDiff(orig,arg); else res=v.Compare(arg); break;
		case O_PATCH: { std::pair<bool,std::string> r=JSONPatch(v.Ref(),arg); if (!r.first) { vp_assert(newArmed && newFailed,"patch refused"); throw std::bad_alloc(); } break; } // failures are returned
		case O_DIFF: res=JSONDiff(v,arg); break;
		case O_FLATTEN: res=ExpandPath(FlattenPath(v)); break;
		case O_DEFAULTS: AddSchemaDefaults(arg,v.Ref()); break;
		case O_SCHEMA: { SchemaResult r=SchemaValidate(arg,v); out=r.Error()?"invalid":"valid"; break; }
		}
	}
	// whether an allocation failed
	bool once(unsigned n) {
		newCount=0; newFail=n; newFailed=false; newArmed=true; bool thrown=false;
		try { run(); newArmed=false; } catch (const std::bad_alloc&) { newArmed=false; thrown=true; } catch (const std::exception &e) { newArmed=false; vp_fail("memory running out became another exception"); }
		vp_assert(thrown==newFailed,thrown?"bad_alloc without a failure":"memory running out was not reported");
		if (thrown) { vp_reach("failed"); if (op!=O_EDIT && op!=O_REF && op!=O_PATH && op!=O_UPDATE && op!=O_PATCH && op!=O_DEFAULTS) vp_assert(equal(v,orig),"a failed operation changed the value"); Variant c=v.Copy(); vp_assert(equal(c,v),"the value cannot be used after the failure"); reset(); run(); }
		else vp_reach("complete");
		if (op==O_PARSE || op==O_COPY) vp_assert(equal(res,orig),"wrong result"); if (op==O_SCHEMA) vp_assert(out=="valid","wrong verdict");
		return newFailed;
	}
};
extern "C" void vp_main() {
	Y ys; y=&ys; X xs; x=&xs;
	switch (vp_param("CASE",0)) {
	case 0: { // a handler throws
		unsigned f=fmt(); std::string t=textOf(f,document(f)); fresh(ys,xs);
		unsigned at=pick("throws at",vp_param("EVENTS",24)); bool dflt=vp_param("DEFAULT",1) && pick("reader",3)==0;
		{
			Src *src=new Src(t,16); shared_ptr<ParserInput> in(src); Parser p=CreateParser(in,T[f]); Thrower *h=new Thrower(at); shared_ptr<ParserActions> hp(dflt?(ParserActions*)(new ParserActions):h); if (dflt) delete h;
			p.PushAction(hp); unsigned k=0; bool thrown=false;
			try { while (p.Run()==0 && k++<200); } catch (const Boom&) { vp_assert(!dflt,"unexpected exception"); thrown=true; } catch (const std::runtime_error &e) { vp_assert(dflt,"the handler's exception was replaced"); thrown=true; }
			vp_assert(k<200,"the parser does not get to the end");
			if (dflt) vp_assert(thrown,"an event that is not handled was swallowed"); else { vp_assert(thrown==(h->n>h->at),"the handler's exception was lost"); vp_assert(thrown || p.Done(),"the parser stopped before the end"); }
			if (thrown) { vp_reach("thrown"); for (k=0;k<2;k++) { try { p.Run(); } catch (const std::exception&) { vp_reach("again"); } } p.PopAction(); }
			else vp_reach("complete");
		}
		vp_assert(ys.parsers==0 && xs.readers==0,"a parser of an external library was not released");
		break; }
	case 1: { // an output throws
		unsigned f=fmt(); Variant v=document(f); std::string want; { Sink *s=new Sink(~0u); shared_ptr<EmitterOutput> o(s); Emitter e=CreateEmitter(o,T[f]); e << v; e.Close(); want=s->got; } fresh(ys,xs);
		Sink *s=new Sink(pick("throws at",vp_param("WRITES",20))); shared_ptr<EmitterOutput> o(s); bool thrown=false;
		{ try { Emitter e=CreateEmitter(o,T[f]); e << v; e.Close(); } catch (const std::exception&) { thrown=true; } }
		vp_assert(thrown==s->failed,thrown?"an exception without a failure":"the output's failure was swallowed");
		if (!thrown) { vp_assert(eqs(s->got,want),"text differs"); vp_reach("complete"); } else vp_reach("thrown");
		vp_assert(ys.emitters==0 && xs.writers==0,"an emitter of an external library was not released");
		break; }
	case 2: { // a loader of schemas throws or has nothing
		struct L : SchemaLoader { unsigned mode, calls; L(unsigned m) : mode(m), calls(0) {}
			bool HandleMissing(const std::string &u, LoaderError &e) { calls++; if (mode==1) throw Boom(); if (mode==2) { Variant s(Variant::MapType); s["type"]="string"; AddSchema(u,s); return true; } return false; } };
		unsigned mode=pick("mode",3), where=pick("where",6); L l(mode); Variant s(Variant::MapType), r(Variant::MapType), v; r["$ref"]="http://other.org/s#";
		switch (where) {
		case 0: s["properties"]["a"]=r; v["a"]=1; break;
		case 1: s["items"]=r; v.Append(1); v.Append(2); break;
		case 2: s["allOf"].Append(Variant(Variant::MapType)); s["allOf"].Append(r); v=3; break;
		case 3: s["not"]=r; v=3; break;
		case 4: s["additionalProperties"]=r; v["b"]=3; break;
		default: s["patternProperties"]["^a"]=r; v["ab"]=3; break;
		}
		Variant before=v.Copy(); bool thrown=false, bad=false;
		try { SchemaResult res=SchemaValidate(s,v,&l); bad=res.Error(); } catch (const Boom&) { thrown=true; } catch (const std::runtime_error&) { vp_assert(mode==0,"unexpected exception"); bad=true; }
		vp_assert(thrown==(mode==1),thrown?"unexpected exception":"the loader's exception was lost"); vp_assert(equal(v,before),"validation changed the value");
		if (mode==1) { vp_reach("thrown"); l.mode=2; try { SchemaResult res=SchemaValidate(s,v,&l); bad=res.Error(); mode=2; } catch (const std::exception&) { vp_fail("the loader cannot be used after its exception"); } }
		if (mode==2) { vp_assert(bad==(where!=3),"verdict with the loaded schema"); vp_reach("loaded"); }
		if (mode==0) { vp_assert(bad,"a schema that cannot be loaded counts as satisfied"); vp_reach("missing"); }
		break; }
	case 3: { // memory runs out
		Op o; unsigned n=pick("fails at",vp_param("NEWS",40));
		// the compiled library numbers allocations differently, a replay tries all of them
		if (!vp_native()) o.once(n); else for (n=0;n<400;n++) { o.reset(); if (!o.once(n)) break; }
		break; }
	}
}
