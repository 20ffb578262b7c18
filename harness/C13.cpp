// The buffered input hands out the bytes of its source in order whatever the requests and reads; parsing gives the same
// result from memory and from pieces.
#include "src.h"
#include <sstream>
static std::string fileText; static unsigned filePos; static bool fileErr;
extern "C" size_t vp_fread(void *p, size_t a, size_t b, FILE*) { size_t n=a*b; if (n>fileText.size()-filePos) n=fileText.size()-filePos; memcpy(p,fileText.data()+filePos,n); filePos+=n; if (!n && fileErr) errno=EIO; return n; }
extern "C" int vp_ferror(FILE*) { return fileErr && filePos==fileText.size(); }
#ifndef VP_ENGINE
static ssize_t cookieRead(void*, char *p, size_t n) { if (n>fileText.size()-filePos) n=fileText.size()-filePos; memcpy(p,fileText.data()+filePos,n); filePos+=n; if (!n && fileErr) { errno=EIO; return -1; } return n; }
static FILE *openFile() { cookie_io_functions_t f={cookieRead,0,0,0}; FILE *r=fopencookie(0,"r",f); setvbuf(r,0,_IONBF,0); return r; }
static void closeFile(FILE *f) { fclose(f); }
#else
static FILE *openFile() { return (FILE*)&fileText; }
static void closeFile(FILE*) {}
#endif
struct Out { bool ok; Variant v; Out() : ok(false) {} };
static Out parse(shared_ptr<ParserInput> in, SerializeType t) { Out o; try { Parser p=CreateParser(in,t); o.v=ParseVariant(p); o.ok=true; } catch (const std::exception &) {} return o; }
static Out parseMem(const std::string &t, SerializeType ty) { char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size()); Out o=parse(CreateParserInput(b,(unsigned)t.size()),ty); free(b); return o; }
static void sameOut(const Out &a, const Out &b) {
	vp_assert(a.ok==b.ok,"accepted one way and refused the other way");
	if (a.ok) { obsV(a.v); vp_assert(a.v.Compare(b.v)==0 && a.v.GetType()==b.v.GetType(),"different values from memory and from pieces"); vp_reach("value"); } else { vp_observe(77); vp_reach("refused"); }
}
static std::string some(SerializeType t, unsigned n) {
	std::string s=symstrv("text",n);
	if (vp_param("SHAPE",0)) { static const char *const J[]={"[1,2","{\"a\":","[\"x\\","[tr","/*a*/[","[1.5e","  [[]"}, *const B[]={"a: 1\n","a:b|\n","#x\nk: ","a : 1 # c\n"};
		s=(t==SERIALIZE_JSON?std::string(J[pick("shape",7)]):std::string(B[pick("shape",4)]))+s; }
	return s;
}
extern "C" void vp_main() {
	unsigned n=vp_param("N",4), which=vp_param("CASE",0); readBudget=vp_param("READS",3);
	switch (which) {
	case 0: { // protocol
		std::string t=symstrv("text",n); bool mem=pick("memory",2); shared_ptr<ParserInput> in;
		char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size());
		if (mem) in=CreateParserInput(b,(unsigned)t.size()); else in.reset(new Src(t,bufsize()));
		unsigned pos=0, ops=vp_param("OPS",3);
		for (unsigned k=0;k<=ops;k++) {
			unsigned want=k<ops?pick("ask",vp_param("ASK",5)):t.size()+1, len=want; const char *p=(const char*)in->GetPtr(len); unsigned left=t.size()-pos;
			if (!p) { vp_assert(left==0,"end of input reported while bytes are left"); vp_assert(len==0,"no data but a length"); vp_reach("end"); break; }
			vp_assert(len>=1,"neither data nor end of input"); vp_assert(len<=left,"more bytes than the source has"); vp_assert(len>=want || len==left,"fewer bytes than asked for although there are more");
			for (unsigned i=0;i<len;i++) vp_assert(p[i]==t[pos+i],"wrong byte handed out");
			if (!mem && len<100 && pick("over",2)) { bool th=false; try { in->Release(len+1); } catch (const std::exception &) { th=true; } vp_assert(th,"released more than was available"); continue; }
			unsigned rel=pick("release",len+1); in->Release(rel); pos+=rel; vp_reach("data");
		}
		free(b); break; }
	case 1: case 2: { SerializeType t=which==1?SERIALIZE_JSON:SERIALIZE_BUNDLEHDR; std::string s=some(t,n); Out a=parseMem(s,t); Out b=parse(shared_ptr<ParserInput>(new Src(s,bufsize())),t); sameOut(a,b); break; }
	case 3: { // files and stream buffers
		SerializeType t=pick("format",2)?SERIALIZE_JSON:SERIALIZE_BUNDLEHDR; std::string s=some(t,n); Out a=parseMem(s,t), b;
		unsigned via=pick("via",3);
		if (via==0) { std::stringbuf sb(s); b=parse(CreateParserInputFile(&sb),t); sameOut(a,b); }
		else { fileText=s; filePos=0; fileErr=via==2; FILE *f=openFile(); b=parse(CreateParserInputFile(f),t); closeFile(f);
			if (via==1) sameOut(a,b);
			else if (b.ok) { vp_assert(t==SERIALIZE_JSON && a.ok,"a read error was taken for the end of the input"); vp_reach("complete-before-error"); } else vp_reach("error"); }
		std::string().swap(fileText); break; }
	case 4: { // error while reading
		SerializeType t=pick("format",2)?SERIALIZE_JSON:SERIALIZE_BUNDLEHDR; std::string s=some(t,n); Out a=parseMem(s,t);
		Src *src=new Src(s,bufsize()); shared_ptr<ParserInput> in(src); src->boomAt=pick("boom",s.size()+1);
		bool boom=false, ok=false; try { Parser p=CreateParser(in,t); Variant v=ParseVariant(p); ok=true; } catch (const Src::Boom &) { boom=true; } catch (const std::exception &) {}
		if (boom) vp_reach("boom"); else if (ok) { vp_assert(t==SERIALIZE_JSON && a.ok,"a read error was taken for the end of the input"); vp_reach("ok"); }
		else vp_assert(!a.ok,"refused without the read error although the text is good");
		break; }
	}
}
