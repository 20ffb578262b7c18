// Header, padding, NUL, payload.
#include "src.h"
#include <Variant/Payload.h>
#include <Variant/Emitter.h>
static const char *LEN(SerializeType t) { return t==SERIALIZE_JSON?"payload/length":"payload.length"; }
static const char *DAT(SerializeType t) { return t==SERIALIZE_JSON?"payload/data":"payload.data"; }
static SerializeType fmt() { return pick("format",2)?SERIALIZE_JSON:SERIALIZE_BUNDLEHDR; }
static std::string low(const char *n, unsigned k) { std::string s=symstr(n,k); for (unsigned i=0;i<k;i++) vp_assume(s[i]>='a' && s[i]<='z'); return s; }
static BlobPtr blob(const std::string &p) {
	if (p.size()<2 || !pick("segments",2)) return Blob::CreateCopy(p.data(),p.size());
	unsigned cut=1+pick("cut",p.size()-1); iovec v[2]={{malloc(cut),cut},{malloc(p.size()-cut),p.size()-cut}}; memcpy(v[0].iov_base,p.data(),cut); memcpy(v[1].iov_base,p.data()+cut,p.size()-cut); return Blob::CreateFree(v,2);
}
static Variant read(const std::string &t, SerializeType ty, Variant params=Variant()) {
	unsigned how=pick("how",vp_param("HOWS",3)); char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size());
	struct F { char *p; ~F() { free(p); } } f={b};
	if (how==0) return DeserializeWithPayload(b,(unsigned)t.size(),ty,params);
	if (how==1) { Variant v=DeserializeWithPayload(b,(unsigned)t.size(),ty,params,false); return v.Copy(); }
	return DeserializeWithPayload(shared_ptr<ParserInput>(new Src(t,bufsize())),ty,params);
}
struct Sink : EmitterOutput { // takes part of what it is offered, a few times
	std::string got; unsigned shorts; Sink() : shorts(vp_param("SHORTS",2)) {}
	unsigned Write(const void *p, unsigned len) { unsigned n=len; if (len>1 && shorts) { unsigned k=pick("accept",3); if (k<2) { shorts--; n=k?len-1:1; } } got.append((const char*)p,n); return n; }
	void Flush() {}
	unsigned NumBytesWritten() const { return got.size(); }
};
extern "C" void vp_main() {
	unsigned n=vp_param("N",3); readBudget=vp_param("READS",1);
	switch (vp_param("CASE",0)) {
	case 0: { // round trip
		SerializeType ty=fmt(); std::string s=low("text",1)+std::string(pick("fill",vp_param("FILL",64)),'x'), p=symstrv("payload",n); bool with=pick("payload?",2);
		Variant v(Variant::MapType); v["k"]=s; if (with) v.SetPath(DAT(ty),blob(p)); else p="";
		std::string t=SerializeWithPayload(v,ty); size_t z=t.find('\0'); vp_assert(z!=std::string::npos,"no terminator"); vp_assert((z+1)%32==0,"payload not aligned"); vp_assert(eqs(t.substr(z+1),p),"payload bytes differ"); vp_assert(t[z-1]=='\n',"no padding");
		if (vp_param("SECOND",1) && pick("second",2)) { // two messages in one stream
			shared_ptr<ParserInput> in(new Src(t+t,bufsize())); for (int i=0;i<2;i++) { Variant r=DeserializeWithPayload(in,ty); vp_assert(r.At("k").IsString() && eqs(r.At("k").AsString(),s),"header differs"); vp_assert(r.GetPath(LEN(ty)).AsUnsigned()==p.size(),"length differs"); if (!p.empty()) vp_assert(eqs(blobstr(r.GetPath(DAT(ty))),p),"payload differs"); } vp_reach("twice"); break; }
		Variant r=read(t,ty); obsV(r);
		vp_assert(r.IsMap() && r.At("k").IsString() && eqs(r.At("k").AsString(),s),"header differs"); vp_assert(r.GetPath(LEN(ty)).AsUnsigned()==p.size(),"length differs");
		if (!p.empty()) { vp_assert(r.HasPath(DAT(ty)) && eqs(blobstr(r.GetPath(DAT(ty))),p),"payload differs"); vp_reach("payload"); } else vp_reach("no-payload");
		vp_assert(r.Size()==2+(ty!=SERIALIZE_JSON && !p.empty()),"more entries than written"); break; }
	case 1: { // cut short
		SerializeType ty=fmt(); std::string p=symstr("payload",n); Variant v(Variant::MapType); v["k"]=low("text",1); v.SetPath(DAT(ty),blob(p)); std::string t=SerializeWithPayload(v,ty); size_t z=t.find('\0');
		unsigned cut=pick("cut",t.size()); bool th=false; Variant r; try { r=read(t.substr(0,cut),ty); } catch (const std::exception &) { th=true; }
		if (cut>z) { vp_assert(th,"truncated payload accepted"); vp_reach("payload-cut"); }
		else { if (!th) vp_assert(!r.HasPath(DAT(ty)),"payload invented"); vp_reach("header-cut"); }
		break; }
	case 2: { // any bytes behind a header
		SerializeType ty=fmt(); static const char *const J[]={"{\"payload\":{\"length\":2}}","{\"payload\":{\"length\":2,\"data\":null}}\n","","{\"payload\":{\"length\":-1}}","{\"payload\":{\"length\":4294967297}}"}, *const B[]={"payload.length: 2\n","payload.length: 2\na:1\n","","payload.length: -1\n","payload.length: 4294967297\n"};
		unsigned w=pick("header",5); std::string h=ty==SERIALIZE_JSON?J[w]:B[w], t=h+symstrv("text",n+1); unsigned how=pick("how",2); char *b=(char*)malloc(t.size()?t.size():1); memcpy(b,t.data(),t.size());
		try { Variant r=how?DeserializeWithPayload(b,(unsigned)t.size(),ty):DeserializeWithPayload(b,(unsigned)t.size(),ty,Variant(),false); obsV(r);
			if (w<2) { vp_assert(r.HasPath(DAT(ty)),"payload missing"); size_t z=t.find('\0'); vp_assert(z!=std::string::npos && z+3<=t.size(),"payload read past the end"); if (z!=std::string::npos && z+3<=t.size()) vp_assert(eqs(blobstr(r.GetPath(DAT(ty))),t.substr(z+1,2)),"wrong payload"); vp_reach("payload"); }
		} catch (const std::exception &) { vp_observe(77); vp_reach("refused"); }
		free(b); break; }
	case 3: { // other places for length and data
		static const char *const LP[]={"l[2]","l[0]","l[1]/n","m/n","n","l[3]/o/p"}, *const DP[]={"d","x/d","l[4]","y[1]/d"}; unsigned lw=pick("lp",6), dw=pick("dp",4); Variant params; params["length_path"]=LP[lw]; params["data_path"]=DP[dw];
		std::string p=symstr("payload",n); Variant v(Variant::MapType), l(Variant::ListType); unsigned k=dw==2?5:pick("items",5); for (unsigned i=0;i<k;i++) { if (lw==2 && i==1) { Variant m(Variant::MapType); m["q"]=1; l.Append(m); } else if (lw==5 && i==3) l.Append(Variant(Variant::MapType)); else l.Append(dw==2 && i==4?Variant(blob(p)):Variant((int)i)); } v["l"]=l; if (dw!=2) v.SetPath(DP[dw],blob(p));
		if (pick("have-length",2)) v.SetPath(LP[lw],99);
		std::string t=SerializeWithPayload(v,SERIALIZE_JSON,params); Variant r=DeserializeWithPayload(t,SERIALIZE_JSON,params); obsV(r); Variant h=Deserialize(t.substr(0,t.find('\0')),SERIALIZE_JSON); vp_assert(!h.HasPath(DP[dw]) || h.GetPath(DP[dw]).IsNull(),"the payload is also in the header");
		vp_assert(r.GetPath(LP[lw]).AsUnsigned()==p.size(),"length differs"); vp_assert(eqs(blobstr(r.GetPath(DP[dw])),p),"payload differs");
		for (unsigned i=0;i<k;i++) { bool special=(lw<=1 && i==(lw?0:2))||(lw==2 && i==1)||(lw==5 && i==3)||(dw==2 && i==4); if (!special) vp_assert(r.At("l").AsList()[i].IsNumber() && r.At("l").AsList()[i].AsInt()==(int)i,"list entry differs"); }
		vp_reach("places"); break; }
	case 4: { // length override and header only
		SerializeType ty=fmt(); std::string p=symstr("payload",n); Variant v(Variant::MapType), params(Variant::MapType); v["k"]=1; bool with=pick("payload?",2), ign=pick("ignore",2), ov=pick("override",2), inv=pick("in-value",2); if (with) v.SetPath(DAT(ty),blob(p)); if (inv) v.SetPath(LEN(ty),7); if (ign) params["ignore_payload"]=true; if (ov) params["payload_length"]=5;
		std::string t=SerializeWithPayload(v,ty,params); size_t z=t.find('\0'); vp_assert(z!=std::string::npos && (z+1)%32==0,"framing"); vp_assert(eqs(t.substr(z+1),with&&!ign?p:std::string()),"payload bytes");
		unsigned want=ov?5:with?n:ign&&inv?7:0; Variant h=Deserialize(t.substr(0,z),ty); vp_assert(h.GetPath(LEN(ty)).AsUnsigned()==want,"length in the header"); vp_reach("options"); break; }
	case 5: { // every way of writing, an output that takes the bytes in pieces, one that was written to before
		SerializeType ty=fmt(); std::string p=symstrv("payload",n); Variant v(Variant::MapType); v["k"]=low("text",1); if (!p.empty()) v.SetPath(DAT(ty),blob(p)); std::string t=SerializeWithPayload(v,ty);
		switch (pick("to",4)) {
		case 0: { std::stringbuf sb; SerializeWithPayload(&sb,v,ty); vp_assert(eqs(sb.str(),t),"other bytes through a stream buffer"); vp_reach("stream"); break; }
		case 1: { unsigned room=t.size()-2+pick("room",4); char *b=(char*)malloc(room); bool th=false; unsigned k=0; try { k=SerializeWithPayload(b,room,v,ty); } catch (const std::exception &) { th=true; } if (room>=t.size()) { vp_assert(!th && k==t.size() && eqs(std::string(b,k),t),"other bytes in memory"); vp_reach("memory"); } else { vp_assert(th,"written past the end"); vp_reach("no-room"); } free(b); break; }
		case 2: { Sink *s=new Sink; shared_ptr<EmitterOutput> o(s); SerializeWithPayload(o,v,ty); vp_assert(eqs(s->got,t),"other bytes to an output that takes them in pieces"); vp_reach("pieces"); break; }
		default: { Sink *s=new Sink; s->shorts=0; shared_ptr<EmitterOutput> o(s); unsigned pre=pick("before",4); s->got.assign(pre*9,'x'); SerializeWithPayload(o,v,ty); size_t z=s->got.find('\0'); vp_assert(z!=std::string::npos && (z+1)%32==0 && eqs(s->got.substr(z+1),p),"payload not aligned behind earlier output"); Variant h=Deserialize(s->got.substr(pre*9,z-pre*9),ty); vp_assert(h.GetPath(LEN(ty)).AsUnsigned()==p.size(),"length differs"); vp_reach("behind"); } }
		break; }
	}
}
