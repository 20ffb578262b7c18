// Iterating over all documents of an input.
#include "ymodel.h"
#include "xmodel.h"
#include "src.h"
static void push(int t) { y->in.push_back(YE(t)); }
static void scalar(const std::string &t, int style) { YE e(YAML_SCALAR_EVENT); e.text=t; e.style=style; y->in.push_back(e); }
static M document(unsigned i) { // a document of the stream: its events and its value
	std::string n(1,(char)('a'+i)); M m; push(YAML_DOCUMENT_START_EVENT);
	switch (pick("document",4)) {
	case 0: scalar("null",YAML_PLAIN_SCALAR_STYLE); break;
	case 1: scalar(n,YAML_PLAIN_SCALAR_STYLE); m=M::str(n); break;
	case 2: { std::string s=symstr("text",1); vp_assume(s[0]>0); scalar(s,YAML_SINGLE_QUOTED_SCALAR_STYLE); push(0); y->in.pop_back(); m=M::str(s); break; }
	default: push(YAML_SEQUENCE_START_EVENT); scalar(n,YAML_PLAIN_SCALAR_STYLE); push(YAML_MAPPING_START_EVENT); push(YAML_MAPPING_END_EVENT); push(YAML_SEQUENCE_END_EVENT); m=M(M::L); m.l.push_back(M::str(n)); m.l.push_back(M(M::O)); break;
	}
	push(YAML_DOCUMENT_END_EVENT); return m;
}
static bool at(LoadAllIterator &it, const std::vector<M> &docs, unsigned k) {
	LoadAllIterator end; if (k>=docs.size()) { vp_assert(it==end && !(it!=end),"the end was not recognised"); bool t=false; try { *it; } catch (const std::exception &) { t=true; } vp_assert(t,"reading at the end did not throw"); return true; }
	vp_assert(it!=end && end!=it && !(it==end),"the iteration ended early"); vp_assert(same(docs[k],*it,true),"wrong document"); vp_assert(same(docs[k],it.Get(),true) && it->GetType()==(*it).GetType(),"wrong document"); return true;
}
// a parser of the harness: delivers a list, fails at any event, and goes on when run again
struct P : ParserImpl {
	unsigned at, failAt, n; bool bad; P() : at(0), failAt(~0u), n(0), bad(false) {}
	int Run() { for (;at<n && !action_stack.empty();) { if (at==failAt) { failAt=~0u; bad=true; throw std::runtime_error("fail"); } unsigned k=at++; if (k==0) TopAction()->BeginDocument(this); else if (k==1) TopAction()->BeginList(this,-1,0,0); else if (k+2==n) TopAction()->EndList(this); else if (k+1==n) TopAction()->EndDocument(this); else TopAction()->Scalar(this,(intmax_t)k,0,0); } return at>=n; }
	bool Done() const { return at>=n; } bool Error() const { return bad; } bool Ok() const { return !bad && at<n; } std::string ErrorStr() const { return ""; } void Reset() { at=0; bad=false; }
};
struct Log : ParserActions { unsigned n; Log() : n(0) {}
	void BeginDocument(ParserImpl*) { n++; } void EndDocument(ParserImpl*) { n++; } void BeginMap(ParserImpl*,int,const char*,const char*) { n++; } void EndMap(ParserImpl*) { n++; } void BeginList(ParserImpl*,int,const char*,const char*) { n++; } void EndList(ParserImpl*) { n++; } void Scalar(ParserImpl*,intmax_t,const char*,const char*) { n++; } };
extern "C" void vp_main() {
	Y yst; y=&yst; X xst; x=&xst;
	switch (vp_param("CASE",0)) {
	case 0: { // copies and increments in any order
		unsigned n=1+pick("documents",vp_param("N",3)); std::vector<M> docs; push(YAML_STREAM_START_EVENT); for (unsigned i=0;i<n;i++) docs.push_back(document(i)); push(YAML_STREAM_END_EVENT);
		std::string in="text"; { LoadAllIterator it[2]; unsigned pos[2]={0,0}; it[0]=DeserializeAll(in,SERIALIZE_YAML); it[1]=it[0]; at(it[0],docs,0);
			for (unsigned s=0;s<vp_param("OPS",4);s++) { unsigned w=pick("which",2);
				switch (pick("op",4)) {
				case 0: if (pos[w]>=n) vp_assume(0); { LoadAllIterator &r=++it[w]; vp_assert(&r==&it[w],"increment returns another iterator"); } pos[w]++; break;
				case 1: if (pos[w]>=n) vp_assume(0); { LoadAllIterator old=it[w]++; at(old,docs,pos[w]); } pos[w]++; break;
				case 2: it[w]=it[1-w]; pos[w]=pos[1-w]; break;
				case 3: { LoadAllIterator c(it[w]); unsigned k=pos[w]; for (;k<n;k++) { at(c,docs,k); ++c; } at(c,docs,n); vp_reach("walked"); break; }
				}
				at(it[0],docs,pos[0]); at(it[1],docs,pos[1]); vp_assert((it[0]==it[1])==(pos[0]==pos[1]),"comparison of iterators");
			}
			if (pos[0]>=n && pos[1]>=n) vp_reach("end"); }
		vp_assert(y->parsers==0,"a parser was not released"); break; }
	case 1: { // every format
		unsigned f=pick("format",3); std::string d=symstr("byte",1); vp_assume(d[0]>='a' && d[0]<='z'); Variant v(Variant::MapType); v["k"]=d; std::string s; LoadAllIterator end;
		static const SerializeType T[]={SERIALIZE_JSON,SERIALIZE_BUNDLEHDR,SERIALIZE_XMLPLIST}; s=Serialize(v,T[f]); if (f==2) xreread();
		{ LoadAllIterator it; switch (pick("how",2)) { case 0: it=DeserializeAll(s,T[f]); break; default: { Parser p=CreateParser(shared_ptr<ParserInput>(new Src(s,bufsize())),T[f]); it=LoadAllIterator(p); } }
			unsigned k=0; for (;it!=end;++it) { vp_assert(k<1,"more documents than written"); Variant w=*it; vp_assert(w==v,"wrong document"); k++; } vp_assert(k==1,"document lost"); }
		vp_reach("formats"); break; }
	case 3: { // a caller's own actions below a failed parse
		P *impl=new P; Parser p((shared_ptr<ParserImpl>(impl))); Log *log=new Log; p.PushAction(shared_ptr<ParserActions>(log)); impl->n=4+pick("scalars",3); unsigned total=impl->n; uint8_t a=vp_u8("failAt"); vp_assume(a<8); impl->failAt=a; bool thrown=false;
		if (pick("short",2)) impl->n=pick("cut",3); // ends without finishing the document
		try { Variant v=ParseVariant(p); if (impl->n==total) vp_assert(v.IsList() && v.Size()==total-4,"wrong value"); } catch (const std::exception &) { thrown=true; } vp_assert(log->n==0,"the caller's actions saw events of the value"); vp_assert(thrown==impl->bad,"failure not reported");
		p.Reset(); impl->n=total; impl->failAt=~0u; while (!p.Run()); vp_assert(log->n==total,"the caller's actions did not get the events"); p.PopAction(); if (thrown) vp_reach("caller-failed"); else vp_reach("caller"); break; }
	case 2: { // the parser fails in one of the documents
		unsigned n=1+pick("documents",vp_param("N",3)); std::vector<M> docs; push(YAML_STREAM_START_EVENT); for (unsigned i=0;i<n;i++) docs.push_back(document(i)); push(YAML_STREAM_END_EVENT);
		uint8_t a=vp_u8("failAt"); vp_assume(a>=1 && a<40); y->failAt=a; unsigned k=0; bool thrown=false; std::string in="text";
		{ LoadAllIterator first; try { LoadAllIterator it=DeserializeAll(in,SERIALIZE_YAML), end; first=it; for (;it!=end;++it) { vp_assert(k<n && same(docs[k],*it,true),"wrong document"); k++; } } catch (const std::exception &) { thrown=true; }
			if (y->failed) { vp_assert(thrown,"a failure was not reported"); vp_reach("failed"); if (k) { at(first,docs,0); LoadAllIterator it=first; for (unsigned j=0;j+1<k;j++) { ++it; at(it,docs,j+1); } bool again=false; try { ++it; } catch (const std::exception &) { again=true; } vp_assert(again,"a failed parser went on"); } }
			else { vp_assert(!thrown && k==n,"documents lost"); vp_reach("not-failed"); } }
		vp_assert(y->parsers==0,"a parser was not released"); break; }
	}
}
