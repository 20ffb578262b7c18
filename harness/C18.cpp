// JSON Pointer operations and JSON Patch against the RFCs.
#include "jptr.h"
#include <Variant/Extensions.h>
static Variant opV(unsigned op, const std::string &path, const std::string &from, const M &v) {
	static const char *const N[]={"add","remove","replace","move","copy","test"}; Variant d(Variant::MapType); d.Set("op",N[op]); d.Set("path",path);
	if (op==ADD||op==REPLACE||op==TEST) d.Set("value",toV(v)); if (op==MOVE||op==COPY) d.Set("from",from); return d;
}
static bool call(unsigned op, Variant &doc, const std::string &path, const std::string &from, const M &v) {
	try { switch (op) {
		case ADD: JSONPointerAdd(path,doc,toV(v)); break;
		case REMOVE: JSONPointerRemove(path,doc); break;
		case REPLACE: JSONPointerReplace(path,doc,toV(v)); break;
		case MOVE: JSONPointerMove(from,path,doc); break;
		default: JSONPointerCopy(from,path,doc); break;
	} } catch (const std::exception &) { return false; }
	return true;
}
static const char *const POOL[]={"/a/0","/b/c","/a","/a/-","","/b/d","/a/2","/a/3","/b","/a/1","/c","/a/0/x","/b/c/d","a"};
static M sample(bool deep) { M d(M::O); M a(M::L), b(M::O); for (unsigned i=0;i<2;i++) a.l.push_back(M::num((int64_t)vp_u64("leaf"))); b.o["c"]=M::num((int64_t)vp_u64("leaf")); if (deep) { M e(M::L); e.l.push_back(b); a.l[1]=b; } d.o["a"]=a; d.o["b"]=b; return d; }
extern "C" void vp_main() {
	unsigned n=vp_param("N",3); GenP g(vp_param("KINDS",G_INT|G_LIST|G_MAP),vp_param("W",2)); g.keynonul=true;
	switch (vp_param("CASE",0)) {
	case 0: { // pointer text against any document
		M d=gen(g,vp_param("D",2)); std::string p=symstrv("pointer",n,true); Variant doc=toV(d); Toks t; bool ok=split(p,t); M *w=ok?walk(&d,t,t.size()):0;
		try { Variant r=JSONPointerLookup(p,doc); vp_assert(w!=0,"a pointer to nothing was resolved"); vp_assert(same(*w,r),"not the member the pointer names"); obsV(r); vp_reach(t.empty()?"root":"found"); }
		catch (const std::exception &) { vp_assert(w==0,"a pointer to an existing member was refused"); vp_reach("refused"); }
		vp_assert(same(d,doc),"the lookup changed the document"); break; }
	case 1: case 2: { // one operation, through its own function and as a patch
		bool patch=vp_param("CASE",0)==2; M d=gen(g,vp_param("D",2)); unsigned op=pick("op",patch?6:5); if (vp_param("TWO",0)) vp_assume(op==MOVE||op==COPY); else vp_assume(op!=MOVE&&op!=COPY);
		std::string p=symstrv("pointer",n,true), f; if (op==MOVE||op==COPY) f=symstrv("from",vp_param("NF",2),true); M v=M::num((int64_t)vp_u64("value")), e(d); Variant doc=toV(d);
		bool ok=apply(e,op,p,f,v), got; Variant pv; if (patch) { pv=opV(op,p,f,v); Variant pc=pv.Copy(); got=JSONPatch(doc,pv).first; vp_assert(pv==pc,"the patch was changed"); } else got=call(op,doc,p,f,v);
		vp_assert(got==ok,ok?"an operation the RFC allows was refused":"an operation that must fail succeeded"); vp_assert(same(e,doc),ok?"wrong effect":"a failed operation changed the document"); obsV(doc); vp_reach(ok?"done":"refused"); break; }
	case 3: case 4: { // a patch of several operations, all or nothing
		M d=sample(vp_param("DEEP",0)), e(d); Variant doc=toV(d), list(Variant::ListType); bool ok=true; unsigned ops=vp_param("OPS",2), np=vp_param("POOL",14); unsigned bad=vp_param("CASE",0)==4?pick("bad",3)+1:0;
		for (unsigned i=0;i<ops;i++) { unsigned op=pick("op",6); std::string p=POOL[pick("path",np)], f; if (op==MOVE||op==COPY) f=POOL[pick("from",np)]; M v=M::num((int64_t)vp_u64("value")); if (vp_param("VC",0) && op!=TEST) { M c(M::L); c.l.push_back(v); v=c; }
			if (ok) { ok=apply(e,op,p,f,v); } list.Append(opV(op,p,f,v)); }
		if (bad) { ok=false; Variant o(Variant::MapType); if (bad>1) o.Set("op",bad==2?"add":"nonsense"); o.Set("path","/z"); list.Append(o); }
		Variant pc=list.Copy(); bool got=JSONPatch(doc,list).first;
		vp_assert(got==ok,ok?"a patch the RFC allows was refused":"a patch that must fail succeeded"); vp_assert(same(ok?e:d,doc),ok?"wrong effect":"a failed patch changed the document"); vp_assert(list==pc,"the patch was changed"); obsV(doc); vp_reach(ok?"done":"refused"); break; }
	case 6: { // indexes far beyond the end of the list
		static const char *const P[]={"429496729","1844674407370955161","858993459","3689348814741910323","999999999999999999999999999","214748364","25","6553"}; std::string x(P[pick("prefix",8)]); x+=(char)('0'+vp_u8("digit")%10);
		M d=sample(false), e(d); Variant doc=toV(d); std::string p="/a/"+x, f=p; unsigned op=pick("op",7); M v=M::num((int64_t)vp_u64("value")); bool got; if (pick("below",2)) p+="/c";
		if (op==6) { got=true; try { JSONPointerLookup(p,doc); } catch (const std::exception &) { got=false; } }
		else { if (op==MOVE||op==COPY) { if (pick("source",2)) { f=p; p="/z"; } else f="/b"; } if (op==TEST || pick("patch",2)) got=JSONPatch(doc,opV(op,p,f,v)).first; else got=call(op,doc,p,f,v); }
		vp_assert(!got,"an index beyond the end of the list was accepted"); vp_assert(same(d,doc),"a failed operation changed the document"); obsV(doc); vp_reach("refused"); break; }
	case 5: { // nothing in the result is shared with the patch or with another place
		M d=sample(false); Variant doc=toV(d); M v(M::L); v.l.push_back(M::num((int64_t)vp_u64("value"))); unsigned op=pick("op",3); Variant o=op==2?opV(COPY,"/z","/a",v):opV(op?REPLACE:ADD,"/b","",v), oc=o.Copy(); vp_assert(JSONPatch(doc,o).first,"refused");
		Variant before=doc.At("a").Copy(); doc.At(op==2?"z":"b").Append(1); vp_assert(o==oc,"changing the document changed the patch"); vp_assert(doc.At("a")==before,"a copied value is the original"); obsV(doc); vp_reach("unshared"); break; }
	}
}
