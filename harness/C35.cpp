// What the handlers on a parser are told, the state the parser shows, recording and playing back, and the position of an error.
#include "jref.h"
#include "ymodel.h"
#include "xmodel.h"
#include "src.h"
#include "EventBuffer.h"
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
extern "C" { int vp_opaque_numbers=0; }
// an event: D document, M map, L list, d m l their ends, then the kinds of scalar
struct Ev { char k; int64_t n; std::string s; Ev(char k_, int64_t n_=0, const std::string &s_="") : k(k_), n(n_), s(s_) {} };
typedef std::vector<Ev> Evs;
static void evs(Evs &e, const M &m) { switch (m.t) {
	case M::N: e.push_back(Ev('n')); break; case M::B: e.push_back(Ev('b',m.i)); break; case M::I: case M::U: e.push_back(Ev('i',m.i)); break; case M::F: e.push_back(Ev('f')); break; case M::S: e.push_back(Ev('s',0,m.s)); break; case M::X: e.push_back(Ev('x',0,m.s)); break;
	case M::L: e.push_back(Ev('L',(int64_t)m.l.size())); for (size_t i=0;i<m.l.size();i++) evs(e,m.l[i]); e.push_back(Ev('l')); break;
	case M::O: e.push_back(Ev('M',(int64_t)m.o.size())); for (std::map<std::string,M>::const_iterator i=m.o.begin();i!=m.o.end();++i) { e.push_back(Ev('s',0,i->first)); evs(e,i->second); } e.push_back(Ev('m')); break; } }
static Evs docEvs(const M &m) { Evs e; e.push_back(Ev('D')); evs(e,m); e.push_back(Ev('d')); return e; }
static bool sameEv(const Ev &a, const Ev &b, bool lens) { if (a.k!=b.k || !eqs(a.s,b.s)) return false; if ((a.k=='M'||a.k=='L') && !lens) return true; return a.n==b.n; }
static void check(const Evs &got, const Evs &want, bool lens=false) { vp_assert(got.size()<=want.size(),"more events than the document has"); for (unsigned i=0;i<got.size();i++) vp_assert(sameEv(got[i],want[i],lens),"another event"); vp_assert(got.size()==want.size(),"events are missing"); }
// handlers: all write to one log
static Evs *seen; static unsigned leaveAt=~0u, swapAt=~0u, subAt=~0u; static unsigned others; static bool boomed; static unsigned boomAt=~0u;
struct Boom { };
struct Rec : ParserActions {
	int depth; bool sub; Rec(bool s=false) : depth(0), sub(s) {}
	void got(ParserImpl *p, const Ev &e) {
		if (seen->size()==boomAt) { boomed=true; boomAt=~0u; throw Boom(); }
		unsigned at=seen->size(); seen->push_back(e); if (sub) others++;
		if (e.k=='M'||e.k=='L') depth++; if (e.k=='m'||e.k=='l') depth--;
		if (sub && depth<0) { p->PopAction(); return; } // the end of what it was given
		if (at==leaveAt) { p->PopAction(); return; }
		if (at==swapAt) { shared_ptr<ParserActions> me=p->PopAction(); vp_assert(me.get()==this,"another handler was taken off"); p->PushAction(shared_ptr<ParserActions>(new Rec)); return; }
		if (at==subAt && (e.k=='M'||e.k=='L')) { depth--; p->PushAction(shared_ptr<ParserActions>(new Rec(true))); }
	}
	void BeginDocument(ParserImpl *p) { got(p,Ev('D')); } void EndDocument(ParserImpl *p) { got(p,Ev('d')); }
	void BeginMap(ParserImpl *p, int n, const char*, const char*) { got(p,Ev('M',n)); } void EndMap(ParserImpl *p) { got(p,Ev('m')); }
	void BeginList(ParserImpl *p, int n, const char*, const char*) { got(p,Ev('L',n)); } void EndList(ParserImpl *p) { got(p,Ev('l')); }
	void Scalar(ParserImpl *p, double, const char*, const char*) { got(p,Ev('f')); }
	void Scalar(ParserImpl *p, const char *s, unsigned n, const char*, const char*) { got(p,Ev('s',0,std::string(s,n))); }
	void Scalar(ParserImpl *p, bool v, const char*, const char*) { got(p,Ev('b',v)); }
	void Null(ParserImpl *p, const char*, const char*) { got(p,Ev('n')); }
	void Scalar(ParserImpl *p, intmax_t v, const char*, const char*) { got(p,Ev('i',v)); }
	void Scalar(ParserImpl *p, uintmax_t v, const char*, const char*) { got(p,Ev('i',(int64_t)v)); }
	void Scalar(ParserImpl *p, BlobPtr b, const char*, const char*) { got(p,Ev('x',0,blobstr(Variant(b)))); }
};
// an emitter of the harness, logs what it is asked to write
struct Out : EmitterImpl {
	Evs log; void add(const Ev &e) { log.push_back(e); }
	void BeginDocument() { add(Ev('D')); } void EndDocument() { add(Ev('d')); } void BeginMap(int n) { add(Ev('M',n)); } void EndMap() { add(Ev('m')); } void BeginList(int n) { add(Ev('L',n)); } void EndList() { add(Ev('l')); }
	void EmitNull() { add(Ev('n')); } void EmitTrue() { add(Ev('b',1)); } void EmitFalse() { add(Ev('b',0)); } void Emit(const char *s) { add(Ev('s',0,s)); } void Emit(intmax_t v) { add(Ev('i',v)); } void Emit(uintmax_t v) { add(Ev('i',(int64_t)v)); } void Emit(double) { add(Ev('f')); } void Emit(ConstBlobPtr b) { add(Ev('x',0,blobstr(Variant(b->Copy())))); }
	void Flush() {} void Close() {} Variant GetParam(const std::string&) { return Variant(); } Variant GetParams() { return Variant(); } void SetParam(const std::string&, Variant) {}
};
struct Str : EmitterOutput { std::string &s; Str(std::string &t) : s(t) {} unsigned Write(const void *p, unsigned n) { s.append((const char*)p,n); return n; } unsigned NumBytesWritten() const { return s.size(); } };
static const SerializeType T[]={SERIALIZE_JSON,SERIALIZE_BUNDLEHDR,SERIALIZE_XMLPLIST,SERIALIZE_YAML};
static M word() { std::string t=symstr("word",1); vp_assume(t[0]>='g' && t[0]<='k'); return M::str(t); }
static M leaf() { switch (pick("leaf",4)) { case 0: return M(); case 1: { uint8_t b=vp_u8("bool"); vp_assume(b<2); return M::boolean(b!=0); } case 2: { uint8_t b=vp_u8("digit"); vp_assume(b<10); return M::num(b); } default: return word(); } }
static M some(unsigned d) { unsigned k=d?pick("what",3):0; if (!k) return leaf(); M m(k==1?M::L:M::O); unsigned w=pick("inner",vp_param("WI",1)+1); for (unsigned i=0;i<w;i++) if (k==1) m.l.push_back(some(d-1)); else m.o[std::string(1,(char)('a'+i))]=some(d-1); return m; }
// a value every format can hold; a bundle header is one map of scalars and lists of scalars
static M value(unsigned f) {
	M m(f==1 || pick("map",2)?M::O:M::L); unsigned w=pick("width",vp_param("W",2)+1);
	for (unsigned i=0;i<w;i++) { M c; if (f==1) { if (pick("list",2)) { c=M(M::L); c.l.push_back(word()); c.l.push_back(M::num(5)); } else c=word(); } else c=some(i?0:vp_param("D",1)); if (m.t==M::L) m.l.push_back(c); else m.o[std::string(1,(char)('a'+i))]=c; } return m; }
static std::string text(const M &m, unsigned f, bool pretty) { Variant p; p["pretty"]=pretty; std::string s; { shared_ptr<EmitterOutput> o(new Str(s)); Emitter e=CreateEmitter(o,T[f],p); e.BeginDocument(); e << toV(m); e.EndDocument(); e.Close(); } if (f==2) xreread(); if (f==3) reread(); return s; }
static Parser open(const std::string &s, unsigned f) { readBudget=vp_param("SHORT",1); return CreateParser(shared_ptr<ParserInput>(new Src(s,bufsize())),T[f]); }
static void toEnd(Parser &p) { for (unsigned i=0;;i++) { vp_assert(i<60,"the parser does not end"); vp_assert(!p.Error(),"an error is shown"); int r=p.Run(); vp_assert(r==0 || r==1,"another result"); if (r==1) break; } vp_assert(p.Done() && !p.Error(),"the end is not shown"); unsigned n=seen->size(); vp_assert(p.Run()==1 && seen->size()==n,"events after the end"); }
extern "C" void vp_main() {
	Y yst; y=&yst; X xst; x=&xst; Evs log; seen=&log; leaveAt=swapAt=subAt=boomAt=~0u; others=0; boomed=false;
	switch (vp_param("CASE",0)) {
	case 0: { // the handler goes, is replaced, or leaves a container to another one, at any event
		unsigned f=pick("format",4), how=pick("how",3); M m=value(f); bool pretty=f!=0 || how==1 || pick("pretty",2); Evs want=docEvs(m); std::string s=text(m,f,pretty); uint8_t a=vp_u8("at"); vp_assume(a<want.size()); unsigned at=(unsigned)vp_fork(a);
		{ Parser p=open(s,f); Rec *rec=new Rec; shared_ptr<ParserActions> first(rec); p.PushAction(first);
			if (how==0) swapAt=at; else if (how==1) { vp_assume(f!=2 || at>0); if (f==0 && at+1<want.size() && (want[at+1].k=='m' || want[at+1].k=='l')) vp_assume(want[at].k!='n' && want[at].k!='b' && want[at].k!='i'); leaveAt=at; } else { vp_assume(want[at].k=='M' || want[at].k=='L'); subAt=at; }
			if (how==1) { for (unsigned i=0;log.size()<=at;i++) { vp_assert(i<60,"the parser does not go on"); int r=p.Run(); vp_assert(r==0 || log.size()==want.size(),"the end is reported early"); } vp_assert(log.size()==at+1,"events for nobody"); vp_assert(!p.Error(),"an error is shown"); int r=p.Run(); vp_assert(r==0 || log.size()==want.size(),"the end is reported early"); vp_assert(log.size()==at+1,"events without a handler"); bool t=false; try { p.PopAction(); } catch (const std::exception &) { t=true; } vp_assert(t,"a handler that is not there was taken off"); p.PushAction(first); }
			toEnd(p); check(log,want);
			if (how==2) { unsigned n=0; int d=0; for (unsigned i=at;i<want.size();i++) { char k=want[i].k; d+=k=='M'||k=='L'; d-=k=='m'||k=='l'; if (i>at) n++; if (!d) break; } vp_assert(others==n,"the events of a container went to another handler"); shared_ptr<ParserActions> top=p.PopAction(); vp_assert(top.get()==rec,"the handler below is not back"); vp_reach("delegated"); }
			else vp_reach(how?"left":"replaced"); }
		break; }
	case 1: { // recording, copies, playing back
		unsigned f=pick("format",4); M m=value(f); Evs want=docEvs(m); std::string s=text(m,f,true);
		{ Parser p=open(s,f); shared_ptr<EventBuffer> b(new EventBuffer); b->Fill(p); vp_assert(b->NumEvents()==want.size() && b->GetLevel()==0,"not the events of the document"); vp_assert(b->Ok() && !b->Done() && !b->Error(),"the state of the recording");
			bool gone=false; try { p.PopAction(); } catch (const std::exception &) { gone=true; } vp_assert(gone,"the recording stays on the parser");
			shared_ptr<EventBuffer> c(new EventBuffer(*b)); vp_assert(c->Equal(*b) && b->Equal(*c),"a copy differs"); if (pick("first",2)) { Out none; b->Playback(&none); check(none.log,want,true); b.reset(); }
			Out *o=new Out; shared_ptr<EmitterImpl> oi(o); c->Playback(Emitter(oi)); check(o->log,want,true); vp_assert(c->Done() && !c->Ok() && c->NumEvents()==0,"events are left"); vp_reach("played"); }
		break; }
	case 2: { // transcoding: what comes out is what serializing the value gives
		unsigned f=pick("format",4); M m=value(f); std::string s=text(m,f,true); bool pretty=pick("compact",2)==0; Variant lay; lay["pretty"]=pretty; std::string want=Serialize(toV(m),SERIALIZE_JSON,lay), got;
		{ Parser p=open(s,f); EventBuffer b; shared_ptr<EmitterOutput> o(new Str(got)); { Emitter e=CreateEmitter(o,SERIALIZE_JSON,lay); if (pick("direct",2)) { p.PushAction(shared_ptr<ParserActions>(new EmitterParserActions(e))); toEnd(p); } else { b.Fill(p); b.Playback(e); } e.Close(); } }
		vp_assert(eqs(got,want),"the text differs from that of the value"); vp_reach("transcoded"); break; }
	case 3: { // a handler that throws, then the parser is reset and used for what follows
		unsigned f=pick("format",2); M m=value(f), m2=M(M::L); m2.l.push_back(M::num(7)); Evs want=docEvs(m); std::string s=text(m,f,true); uint8_t a=vp_u8("at"); vp_assume(a<want.size()); boomAt=(unsigned)vp_fork(a); bool caught=false;
		{ Parser p=open(s,f); p.PushAction(shared_ptr<ParserActions>(new Rec)); try { for (unsigned i=0;i<60 && p.Run()!=1;i++); } catch (const Boom &) { caught=true; } vp_assert(caught && boomed,"the exception of the handler was lost");
			for (unsigned i=0;i<log.size();i++) vp_assert(sameEv(log[i],want[i],false),"another event before the exception"); vp_reach("thrown"); }
		break; }
	case 4: { // documents one after the other in one input, the parser reset in between
		unsigned n=1+pick("documents",3); std::string s; Evs want; for (unsigned i=0;i<n;i++) { M m(pick("map",2)?M::O:M::L); uint8_t b=vp_u8("item"); vp_assume(b<10); if (m.t==M::L) m.l.push_back(M::num(b)); else m.o["k"]=M::num(b); Evs e=docEvs(m); want.insert(want.end(),e.begin(),e.end()); char d=(char)('0'+b); if (m.t==M::L) { s+='['; s+=d; s+=']'; } else { s+="{\"k\":"; s+=d; s+='}'; } if (pick("gap",2)) s+=" "; }
		{ Parser p=open(s,0); p.PushAction(shared_ptr<ParserActions>(new Rec)); for (unsigned i=0;i<n;i++) { if (i) { p.Reset(); vp_assert(!p.Done() && !p.Error(),"the state after a reset"); } toEnd(p); } check(log,want); vp_reach("reset"); }
		break; }
	case 5: { // the position of the first byte that cannot be right
		static const char *const P[]={"[","{","{\"a\"","{\"a\":","[1","[1,","[\"a","[tr","[1e","[-","[\"\\","[\"\\u00","{\"a\":1","[]x"}; unsigned w=pick("where",13); std::string pre=P[w]; bool inWord=w>=6 && w<=11;
		std::string s; for (unsigned i=0;i<vp_param("N",3);i++) { unsigned k=pick("blank",4); if (k==3) break; s+=k==0?' ':k==1?'\n':'\t'; } s+=pre; if (!inWord && w!=4 && w!=12) for (unsigned i=0;i<2;i++) { unsigned k=pick("blank",3); if (k==2) break; s+=k?'\n':' '; }
		std::string bad=symstr("bad",1); unsigned char b=(unsigned char)bad[0]; vp_assume(b>0 && b<0x80);
		bool blank=b==' '||b=='\t'||b=='\n'||b=='\r', digit=b>='0'&&b<='9', value=b=='"'||b=='['||b=='{'||b=='-'||digit||b=='t'||b=='f'||b=='n'; if (b=='/') vp_assume(0); bool ok; // may the text go on with this byte
		switch (w) { case 0: ok=blank||value||b==']'; break; case 1: ok=blank||b=='"'||b=='}'; break; case 2: ok=blank||b==':'; break; case 3: case 5: ok=blank||value; break; case 4: ok=blank||digit||b=='.'||b=='e'||b=='E'||b==','||b==']'; break; case 6: ok=b>=0x20; break; case 7: ok=b=='u'; break; case 8: ok=digit||b=='+'||b=='-'; break; case 9: ok=digit; break; case 10: ok=b=='"'||b=='\\'||b=='b'||b=='f'||b=='n'||b=='r'||b=='t'||b=='u'||b=='/'; break; case 11: ok=digit||(b>='a'&&b<='f')||(b>='A'&&b<='F'); break; default: ok=blank||digit||b=='.'||b=='e'||b=='E'||b==','||b=='}'; break; }
		vp_assume(!ok); unsigned line=1, col=0; for (unsigned i=0;i<s.size();i++) if (s[i]=='\n') { line++; col=0; } else col++; if (b=='\n') { line++; col=0; } else col++; s+=bad; s+="zz";
		std::string msg; { Parser p=open(s,0); p.PushAction(shared_ptr<ParserActions>(new Rec)); try { for (unsigned i=0;i<60 && p.Run()!=1;i++); } catch (const std::exception &e) { msg=e.what(); } vp_assert(!msg.empty() && p.Error() && !p.Done(),"accepted"); vp_assert(eqs(p.ErrorStr(),msg),"the message of the parser is another"); }
		unsigned nums[2], n=0; for (unsigned i=0;i<msg.size() && n<2;) if (msg[i]>='0' && msg[i]<='9') { nums[n]=0; while (i<msg.size() && msg[i]>='0' && msg[i]<='9') nums[n]=nums[n]*10+(msg[i++]-'0'); n++; } else i++;
		vp_assert(n==2 && nums[0]==line && nums[1]==col,"the position is not that of the wrong byte"); vp_reach("position"); break; }
	}
}
