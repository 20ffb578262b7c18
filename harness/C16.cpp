// JSON Schema draft-4 validation against a direct reading of the specification.
#include "schemas.h"
static void check(const M &s, const M &d) {
	root=&s; depth=0; bool ok=valid(s,d); Variant vs=toV(s), vd=toV(d); SchemaResult r=SchemaValidate(vs,vd); vp_observe(r.Error());
	vp_assert(!r.SchemaErrors(),"a correct schema was rejected"); vp_assert(r.Error()==!ok,ok?"valid data was rejected":"invalid data was accepted"); vp_assert(same(d,vd),"validation changed the data"); vp_reach(ok?"valid":"invalid");
}
static void wrong() { // schemas that refer to themselves, or are wrong, are reported
	M s(M::O); switch (pick("wrong",5)) { case 0: s.o["$ref"]=M::str("#"); break; case 1: { M l(M::L); l.l.push_back(obj("$ref",M::str("#"))); s.o["allOf"]=l; break; } case 2: s.o["multipleOf"]=M::num(0); break; case 3: s.o["multipleOf"]=M::uns(0); break; default: s.o["pattern"]=M::str("("); }
	M d=pick("kind",2)?M::str("x"):small("data",9); Variant vs=toV(s), vd=toV(d); SchemaResult r=SchemaValidate(vs,vd); vp_observe(r.Error()); bool app=s.o.count("$ref")||s.o.count("allOf")||(s.o.count("pattern")?d.t==M::S:d.t!=M::S); vp_assert(r.SchemaErrors()==app,"a wrong schema was not reported"); vp_reach(app?"reported":"not-applied"); }
extern "C" void vp_main() { if (vp_param("CASE",0)==10) { { SchemaLoader warm; } wrong(); } else schemas(); }
