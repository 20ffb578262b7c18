// JSONDiff followed by JSONPatch.
#include "model.h"
#include <Variant/Extensions.h>
static void check(const M &a, const M &b) {
	Variant src=toV(a), dst=toV(b), d=JSONDiff(src,dst);
	vp_assert(same(a,src) && same(b,dst),"the diff changed a document"); vp_assert(d.IsList(),"the diff is not a list of operations");
	Variant dc=d.Copy(), doc=src.Copy(); bool ok=JSONPatch(doc,d).first; vp_assert(ok,"the patch failed"); vp_assert(same(b,doc),"the patched document is not the destination");
	vp_assert(same(a,src) && same(b,dst) && d==dc,"patching changed the source, the destination or the diff"); obsV(d); vp_reach(d.Empty()?"empty":"patched");
	if (same(a,b)) vp_assert(d.Empty(),"equal documents have a diff");
}
static M list(const char *name, unsigned max, unsigned bits) { M m(M::L); unsigned n=pick(name,max+1); for (unsigned i=0;i<n;i++) { uint8_t x=vp_u8("item"); vp_assume(x<(1u<<bits)); m.l.push_back(M::num(x)); } return m; }
extern "C" void vp_main() {
	GenP g(vp_param("KINDS",G_NULL|G_INT|G_STR|G_LIST|G_MAP),vp_param("W",2),1,vp_param("KL",1)); g.keynonul=true; g.keyfixed=vp_param("KEYS",0); unsigned dep=vp_param("D",1);
	switch (vp_param("CASE",0)) {
	case 0: { M a=gen(g,dep), b=gen(g,dep); check(a,b); break; }
	case 1: { M a=list("n",vp_param("L",3),8), b=list("m",vp_param("L",3),8); if (vp_param("IN",0)) { M x(M::O), y(M::O); x.o["k"]=a; y.o["k"]=b; a=x; b=y; } check(a,b); break; }
	case 2: { M a=gen(g,dep), b(a); Variant src=toV(a), dst=toV(b); vp_assert(JSONDiff(src,dst).Empty() && JSONDiff(src,src).Empty(),"equal documents have a diff"); vp_reach("equal"); break; }
	case 3: { // lists of lists and maps: shrinking, growing and changing below at once
		M a(M::L), b(M::L); unsigned n=pick("n",3), m=pick("m",3); for (unsigned i=0;i<n;i++) a.l.push_back(gen(g,1)); for (unsigned i=0;i<m;i++) b.l.push_back(gen(g,1)); check(a,b); break; }
	case 4: { // numbers of different kinds, bools and blobs: changed to something equal to the destination
		M a=gen(g,dep), b=gen(g,dep); Variant src=toV(a), dst=toV(b), d=JSONDiff(src,dst), doc=src.Copy(); vp_assert(JSONPatch(doc,d).first,"the patch failed"); vp_assert(doc==dst && dst==doc,"the patched document is not equal to the destination"); vp_assert(same(a,src) && same(b,dst),"a document was changed"); vp_assert(src==dst || !d.Empty(),"different documents without a diff"); vp_reach(d.Empty()?"empty":"patched"); break; }
	}
}
