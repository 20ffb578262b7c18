// Format guessing: safe on any bytes, consumes nothing, depends on the first visible byte only.
#include "ymodel.h"
#include "xmodel.h"
#include "src.h"
#include <Variant/GuessFormat.h>
static bool blk(char c) { return c==' '||(c>='\t'&&c<='\r'); }
// the guessing functions give all of the input to the reader of that format
static void dispatch() {
	y=new Y; x=new X; std::string t=symstrv("text",vp_param("N",4)); readBudget=vp_param("READS",1); y->rmax=x->rmax=3;
	y->in.push_back(YE(YAML_STREAM_START_EVENT)); y->in.push_back(YE(YAML_DOCUMENT_START_EVENT)); YE e(YAML_SCALAR_EVENT); e.text="yaml"; e.style=YAML_SINGLE_QUOTED_SCALAR_STYLE; y->in.push_back(e); y->in.push_back(YE(YAML_DOCUMENT_END_EVENT)); y->in.push_back(YE(YAML_STREAM_END_EVENT));
	x->in.push_back(XN(XML_READER_TYPE_ELEMENT,"plist")); x->in.push_back(XN(XML_READER_TYPE_ELEMENT,"string")); x->in.push_back(XN(XML_READER_TYPE_TEXT,"#text","xml")); x->in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"string")); x->in.push_back(XN(XML_READER_TYPE_END_ELEMENT,"plist"));
	unsigned i=0, how=pick("how",4); while (i<t.size() && blk(t[i])) i++; bool xml=i<t.size() && t[i]=='<'; if (how==1) for (unsigned k=0;k<t.size();k++) vp_assume(t[k]!=0);
	try { Variant v;
		switch (how) { case 0: v=DeserializeGuess(t); break; case 1: v=DeserializeGuess(t.c_str()); break; case 2: { std::istringstream in(t); v=DeserializeGuessFile(in.rdbuf()); break; } default: { Parser p=CreateParserGuess(shared_ptr<ParserInput>(new Src(t,bufsize()))); v=*LoadAllIterator(p); } }
		vp_assert(v.IsString() && v.AsString()==(xml?"xml":"yaml"),"read as another format"); vp_assert(eqs(xml?x->read:y->read,t) && (xml?y->read:x->read).empty(),"the reader did not get the input as it is"); obsV(v); vp_reach(xml?"read-xml":"read-yaml");
	} catch (const std::exception &) { vp_assert(i==t.size() && i>0,"visible input refused"); }
	vp_assert(!y->parsers && !x->readers,"a reader was not released"); delete y; delete x;
}
extern "C" void vp_main() {
	if (vp_param("CASE",0)==1) { dispatch(); return; }
	std::string t=symstrv("text",vp_param("N",4)); readBudget=vp_param("READS",2);
	char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size()); if (t.empty()) { free(b); b=(char*)malloc(0); }
	shared_ptr<ParserInput> in; if (pick("memory",2)) in=CreateParserInput(b,(unsigned)t.size()); else in.reset(new Src(t,bufsize()));
	unsigned i=0; while (i<t.size() && blk(t[i])) i++;
	try {
		SerializeType ty=GuessFormat(in.get()); vp_observe(ty);
		if (i<t.size()) { vp_assert(ty==(t[i]=='<'?SERIALIZE_XMLPLIST:SERIALIZE_YAML),"wrong format guessed"); if (t[i]=='<') vp_reach("xml"); else vp_reach("yaml"); }
		else { vp_assert(ty==SERIALIZE_YAML,"wrong format guessed for blank input"); vp_reach("blank"); }
	} catch (const std::exception &) { vp_assert(i==t.size() && i>0,"visible input refused"); vp_reach("blank"); }
	std::string back; // nothing was consumed
	for (;;) { unsigned len=0; const char *p=(const char*)in->GetPtr(len); if (!p || !len) break; vp_assert(back.size()+len<=t.size(),"input grew"); back.append(p,len); in->Release(len); }
	vp_assert(eqs(back,t),"guessing consumed input");
	free(b);
}
