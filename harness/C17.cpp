// Schema defaults.
#include "model.h"
#include <Variant/Schema.h>
extern "C" { int vp_opaque_numbers=1; }
typedef std::map<std::string,M>::const_iterator It;
static const M *key(const M &m, const char *k) { It i=m.o.find(k); return i==m.o.end()?0:&i->second; }
struct Opt { bool has; M v; Opt() : has(false) {} Opt(const M &m) : has(true), v(m) {} };
static const M *root; static unsigned loops;
static void fill(const M &s, Opt &d) {
	const M *k; if (s.t!=M::O) return;
	if ((k=key(s,"$ref"))) fill(*key(*key(*root,"definitions"),"x"),d);
	if ((k=key(s,"default")) && (!d.has || d.v.t==M::N)) { d=Opt(*k); return; }
	if ((k=key(s,"properties")) && (!d.has || d.v.t==M::O)) for (It i=k->o.begin();i!=k->o.end();++i) { Opt c; if (d.has) { It e=d.v.o.find(i->first); if (e!=d.v.o.end()) c=Opt(e->second); } fill(i->second,c); if (c.has) { if (!d.has) d=Opt(M(M::O)); d.v.o[i->first]=c.v; } }
	if ((k=key(s,"items")) && (!d.has || d.v.t==M::L)) { size_t n=k->t==M::L?k->l.size():1; for (size_t i=0;i<n;i++) { Opt c; if (d.has && i<d.v.l.size()) c=Opt(d.v.l[i]); fill(k->t==M::L?k->l[i]:*k,c); if (c.has) { if (!d.has) d=Opt(M(M::L)); if (i<d.v.l.size()) d.v.l[i]=c.v; else { vp_assume(i==d.v.l.size()); d.v.l.push_back(c.v); } } } } // no gaps in lists
	static const char *const C[]={"allOf","oneOf","anyOf"}; for (unsigned j=0;j<3;j++) if ((k=key(s,C[j]))) for (size_t i=0;i<k->l.size();i++) fill(k->l[i],d);
}
static M obj(const char *k, const M &v) { M m(M::O); m.o[k]=v; return m; }
static M schema(unsigned depth, unsigned kinds, unsigned w) {
	if (!depth) kinds&=0xc3; unsigned o[8], n=0; for (unsigned b=0;b<8;b++) if (kinds>>b&1) o[n++]=b;
	M s(M::O); switch (o[n>1?pick("schema",n):0]) {
	case 0: { uint64_t x=vp_u64("default"); s.o["default"]=M::num((int64_t)x); break; }
	case 1: break;
	case 2: { M p(M::O); for (unsigned i=0;i<w;i++) p.o[std::string(1,'a'+i)]=schema(depth-1,kinds,w); s.o["properties"]=p; break; }
	case 3: s.o["items"]=schema(depth-1,kinds,w); break;
	case 4: { M l(M::L); for (unsigned i=0;i<w;i++) l.l.push_back(schema(depth-1,kinds,w)); s.o["items"]=l; break; }
	case 5: { static const char *const C[]={"allOf","oneOf","anyOf"}; M l(M::L); for (unsigned i=0;i<w;i++) l.l.push_back(schema(depth-1,kinds,w)); s.o[C[pick("combinator",3)]]=l; break; }
	case 6: s.o["$ref"]=M::str("#/definitions/x"); break;
	default: { M l(M::L); l.l.push_back(M::num((int64_t)vp_u64("default"))); s.o["default"]=l; break; }
	}
	return s;
}
static bool covers(const M &before, const M &after) { // every value that was there and not null is still there
	if (before.t==M::N) return true; if (before.t!=after.t) return false;
	if (before.t==M::O) { for (It i=before.o.begin();i!=before.o.end();++i) { It e=after.o.find(i->first); if (e==after.o.end() || !covers(i->second,e->second)) return false; } return true; }
	if (before.t==M::L) { if (after.l.size()<before.l.size()) return false; for (size_t i=0;i<before.l.size();i++) if (!covers(before.l[i],after.l[i])) return false; return true; }
	return same(before,after);
}
static void grow(VariantRef v) { if (v.IsList()) { for (unsigned i=0;i<v.Size();i++) grow(v.At(i)); v.Append(7); } else if (v.IsMap()) { for (Variant::MapIterator i=v.MapBegin();i!=v.MapEnd();++i) grow(i->second); v.Set("zz",7); } }
static void check(const M &s, const M &d) {
	root=&s; Opt e(d); fill(s,e); vp_assert(covers(d,e.v),"reference"); Variant vs=toV(s), vd=toV(d); AddSchemaDefaults(vs,vd); obsV(vd);
	vp_assert(same(e.v,vd),"not exactly the missing defaults were added"); vp_assert(same(s,vs),"the schema was changed");
	Opt e2(e.v); fill(s,e2); if (same(e2.v,e.v)) { AddSchemaDefaults(vs,vd); vp_assert(same(e.v,vd),"applying the defaults again changed the data"); vp_reach("again"); }
	vp_reach(same(d,e.v)?"complete":"filled"); grow(vd); vp_assert(same(s,vs),"data and schema share a value");
}
extern "C" void vp_main() {
	{ SchemaLoader warm; }
	GenP g(G_INT|G_LIST|G_MAP|(vp_param("NUL",0)?G_NULL:0),vp_param("DW",1)); g.keyfixed=true;
	switch (vp_param("CASE",0)) {
	case 0: { M s=schema(vp_param("D",2),vp_param("KINDS",0x27),vp_param("W",1)); if (s.o.empty() && !vp_param("EMPTY",0)) break; check(s,gen(g,vp_param("DD",2))); break; }
	case 1: { M s=schema(1,0x44,2); s.o["definitions"]=obj("x",schema(1,vp_param("KINDS",0x87),1)); check(s,gen(g,1)); break; }
	case 2: { // schemas that contain themselves
		M s(M::O), n(M::O); M p(M::O); M v(M::O); v.o["default"]=M::num((int64_t)vp_u64("default")); p.o["a"]=v; unsigned how=pick("how",3); p.o["b"]=obj("$ref",M::str(how==0?"#":"#/definitions/x")); n.o["properties"]=p;
		if (how==0) s=n; else { s.o["definitions"]=obj("x",n); if (how==1) s.o["$ref"]=M::str("#/definitions/x"); else s.o["properties"]=obj("c",obj("$ref",M::str("#/definitions/x"))); }
		M d=gen(g,2); Variant vs=toV(s), vd=toV(d); AddSchemaDefaults(vs,vd); obsV(vd); vp_assert(same(s,vs),"the schema was changed"); Variant once=vd.Copy(); AddSchemaDefaults(vs,vd); vp_assert(vd==once,"applying the defaults again changed the data");
		if (d.t==M::O && how<2) vp_assert(vd.Contains("a") && (d.o.count("a")?same(d.o["a"],vd.At("a")):same(v.o["default"],vd.At("a"))),"the default is missing"); vp_reach("recursive"); break; }
	case 3: { M s(M::O); unsigned how=pick("how",2); if (how) { M l(M::L); l.l.push_back(obj("$ref",M::str("#"))); s.o["allOf"]=l; } else s.o["$ref"]=M::str("#"); s.o["default"]=M::num((int64_t)vp_u64("default")); M d; Variant vs=toV(s), vd; AddSchemaDefaults(vs,vd); vp_assert(same(s.o["default"],vd),"the default is missing"); vp_reach("loop"); break; }
	}
}
