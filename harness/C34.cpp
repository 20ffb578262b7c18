// What a failed validation reports: the part of the data and the keyword of the schema that disagree.
#include "schemas.h"
#include <Variant/Path.h>
static const M *child(const M &m, const std::string &k) { for (It i=m.o.begin();i!=m.o.end();++i) if (eqs(i->first,k)) return &i->second; return 0; }
static std::string name(const Path &p, size_t &i) { vp_assert(i<p.size() && p[i].IsString(),"a key is missing from a path"); return p[i++].AsString(); }
static unsigned at(const Path &p, size_t &i) { vp_assert(i<p.size() && p[i].IsNumber(),"an index is missing from a path"); return p[i++].AsUnsigned(); }
static bool has(const std::string &t, const std::string &w) { if (t.size()<w.size()) return false; bool r=false; for (size_t i=0;i+w.size()<=t.size();i++) { unsigned d=0; for (size_t j=0;j<w.size();j++) d|=(unsigned char)(t[i+j]^w[j]); r|=d==0; } return r; }
static const M &item(const M &l, unsigned i) { vp_assert(l.t==M::L && i<l.l.size(),"an index of the schema path is outside its list"); return l.l[i]; }
static M only(const M &s, const std::string &k, const char *also=0) { M r(M::O); r.o[k]=*key(s,k.c_str()); if (also && key(s,also)) r.o[also]=*key(s,also); return r; }
// follows both paths side by side: the schema reached applies to the value reached, and its last keyword is not met there
static const M *blame(const ValidationError &e, const M &top, const M &data) {
	const Path &sp=e.GetSchemaPath(), &dp=e.GetDataPath(); size_t si=0, di=0; const M *s=&top, *v=&data; vp_assert(!e.GetMessage().empty(),"an error without a message"); bool subs=false;
	for (;;) {
		vp_assert(si<sp.size() && sp[si].IsString(),"the schema path does not end at a keyword"); std::string k=sp[si++].AsString(); while (!key(*s,k.c_str())) { const M *r=key(*s,"$ref"); vp_assert(r!=0,"the schema path leads nowhere"); s=&deref(r->s); }
		const M *kv=key(*s,k.c_str()); bool more=si<sp.size();
		if (k=="properties" || k=="patternProperties") { std::string n=name(sp,si), d=name(dp,di); s=child(*kv,n); vp_assert(s!=0,"the schema path leads nowhere"); vp_assert(k=="properties"?eqs(n,d):pat(n,d),"the schema named is not the one of the property"); v=v->t==M::O?child(*v,d):0; vp_assert(v!=0,"the data path leads nowhere"); continue; }
		if (k=="additionalProperties") { std::string d=name(dp,di); const M *q; if ((q=key(*s,"properties"))) vp_assert(!child(*q,d),"a declared property is blamed as additional"); if ((q=key(*s,"patternProperties"))) for (It i=q->o.begin();i!=q->o.end();++i) vp_assert(!pat(i->first,d),"a property of a pattern is blamed as additional"); v=v->t==M::O?child(*v,d):0; vp_assert(v!=0,"the data path leads nowhere"); if (!more) { vp_assert(kv->t==M::B && !kv->i,"additional properties are allowed"); break; } s=kv; continue; }
		if (k=="items" || k=="additionalItems") { unsigned i=at(dp,di); vp_assert(v->t==M::L && i<v->l.size(),"the data path leads nowhere"); v=&v->l[i]; if (k=="items") { if (kv->t==M::L) { unsigned j=at(sp,si); vp_assert(i==j,"the schema named is not the one of the item"); s=&item(*kv,j); } else s=kv; continue; }
			const M *q=key(*s,"items"); vp_assert(q && q->t==M::L && i>=q->l.size(),"a declared item is blamed as additional"); if (!more) { vp_assert(kv->t==M::B && !kv->i,"additional items are allowed"); break; } s=kv; continue; }
		if (k=="allOf" || ((k=="anyOf" || k=="oneOf") && more)) { s=&item(*kv,at(sp,si)); continue; }
		if (k=="dependencies") { std::string n=name(sp,si); vp_assert(v->t==M::O && child(*v,n),"a dependency of a property that is not there"); const M *q=child(*kv,n); vp_assert(q!=0,"the schema path leads nowhere"); if (q->t==M::O) { s=q; continue; } vp_assert(!child(*v,item(*q,at(sp,si)).s),"the dependency is met"); break; }
		if (k=="required") { unsigned i=at(sp,si); vp_assert(v->t==M::O && !child(*v,item(*kv,i).s),"the required property is there"); break; }
		subs=k=="anyOf" || k=="oneOf"; M r=only(*s,k,k=="exclusiveMinimum"?"minimum":k=="exclusiveMaximum"?"maximum":0); vp_assert(!valid(r,*v),"the keyword blamed is met"); if (k=="exclusiveMinimum" || k=="exclusiveMaximum") vp_assert(jeq(*v,*key(*s,k=="exclusiveMinimum"?"minimum":"maximum")),"the value is not the limit");
		if (subs) { unsigned met=0; for (size_t i=0;i<kv->l.size();i++) met+=valid(kv->l[i],*v); const std::vector<SchemaResult> &es=e.GetSubErrors(); if (!met) { vp_assert(es.size()==kv->l.size(),"an alternative is not explained");
			for (size_t i=0;i<es.size();i++) { vp_assert(es[i].GetErrors().size()==1 && !es[i].SchemaErrors(),"an alternative is not explained"); const ValidationError &f=es[i].GetErrors()[0]; const Path &fp=f.GetSchemaPath(); vp_assert(fp.size()>sp.size() && fp[sp.size()].IsNumber() && fp[sp.size()].AsUnsigned()==i,"an alternative is explained by another"); blame(f,top,data); } vp_reach("alternatives"); } }
		break;
	}
	vp_assert(si==sp.size(),"the schema path goes on behind the keyword"); vp_assert(di==dp.size(),"the data path goes beyond the value the keyword is about"); return v;
}
static void check(const M &s, const M &d) {
	root=&s; depth=0; Variant vs=toV(s), vd=toV(d); SchemaResult r=SchemaValidate(vs,vd); vp_observe(r.Error()); if (!r.Error()) { vp_assert(r.GetErrors().empty() && r.GetSchemaErrors().empty() && r.PrettyPrintMessage().empty(),"something is reported without an error"); vp_reach("valid"); return; }
	vp_assert(!r.SchemaErrors() && r.GetErrors().size()>=1,"no error of the data is reported");
	for (size_t i=0;i<r.GetErrors().size();i++) { const ValidationError &e=r.GetErrors()[i]; const M *v=blame(e,s,d); std::string dp=e.GetDataPathStr(), sp=e.GetSchemaPathStr(), all=r.PrettyPrintMessage(); obs(dp); obs(sp); vp_assert(same(*v,vd.GetPath(dp)),"the text of the data path leads elsewhere"); vp_assert(has(all,e.GetMessage()) && has(all,dp) && has(all,sp),"the printed message is not complete"); }
	vp_reach("invalid");
}
// a keyword that is not as it must be, anywhere in the schema
static void wrong() {
	{ SchemaLoader warm; } struct W { const char *k; char data; bool lists; }; static const W T[]={{"oneOf",'a',0},{"anyOf",'a',0},{"allOf",'a',0},{"dependencies",'o',0},{"patternProperties",'o',0},{"properties",'o',0},{"required",'o',0},{"minProperties",'o',0},{"maxProperties",'o',0},{"uniqueItems",'l',0},{"minItems",'l',0},{"maxItems",'l',0},{"pattern",'s',0},{"minLength",'s',0},{"maxLength",'s',0},{"minimum",'n',0},{"maximum",'n',0},{"multipleOf",'n',0},{"enum",'a',0}};
	const unsigned n=sizeof T/sizeof *T; unsigned w=pick("keyword",n); bool num=strchr("mM",T[w].k[0]) && strcmp(T[w].k,"multipleOf"); M bad=num||pick("bad",2)?M::str("x"):M::num(0); if (!strcmp(T[w].k,"pattern") && bad.t==M::S) bad=M::str("("); M s=obj(T[w].k,bad); unsigned at=pick("at",4); static const char kinds[]="olsn"; char c=kinds[pick("data",4)]; M d=c=='o'?obj("z",M::num(1)):c=='s'?M::str("t"):c=='n'?small("number",9):M(M::L); if (c=='l') d.l.push_back(M::num(1));
	Path want; if (at==1) { s=obj("properties",obj("q",s)); d=obj("q",d); want.push_back("properties"); want.push_back("q"); } else if (at==2) { M l(M::L); l.l.push_back(M(M::O)); l.l.push_back(s); s=obj("items",l); M e(M::L); e.l.push_back(M()); e.l.push_back(d); d=e; want.push_back("items"); want.push_back(1u); } else if (at==3) { M l(M::L); l.l.push_back(s); s=obj("allOf",l); want.push_back("allOf"); want.push_back(0u); } want.push_back(T[w].k);
	Variant vs=toV(s), vd=toV(d); SchemaResult r=SchemaValidate(vs,vd); vp_observe(r.Error()); bool app=T[w].data=='a' || T[w].data==c; if (!app) { vp_assert(!r.Error(),"a keyword that does not apply is reported"); vp_reach("not-applied"); return; }
	vp_assert(r.SchemaErrors(),"a wrong schema was not reported"); const std::vector<SchemaError> &es=r.GetSchemaErrors(); vp_assert(es.size()==1,"reported more than once"); const SchemaError &e=es[0]; obs(e.GetSchemaPathStr()); const Path &p=e.GetSchemaPath(); vp_assert(p.size()==want.size(),"the schema path does not lead to the wrong keyword"); for (size_t i=0;i<want.size();i++) vp_assert(p[i].IsNumber()==want[i].IsNumber() && (p[i].IsNumber()?p[i].AsUnsigned()==want[i].AsUnsigned():p[i].AsString()==want[i].AsString()),"the schema path does not lead to the wrong keyword");
	vp_assert(!e.GetMessage().empty(),"an error without a message"); for (unsigned i=0;i<n;i++) if (i!=w) vp_assert(!has(e.GetMessage(),"\""+std::string(T[i].k)+"\""),"the message names another keyword"); std::string all=r.PrettyPrintMessage(); vp_assert(has(all,e.GetMessage()) && has(all,e.GetSchemaPathStr()),"the printed message is not complete"); vp_reach("reported");
}
extern "C" void vp_main() { if (vp_param("CASE",0)==10) wrong(); else schemas(); }
