// Path conditions and their decision: finite-domain truth tables for single-byte constraints, Z3 for everything else.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <memory>

struct SolverStats {
	u64 z3_queries=0, z3_sat=0, z3_unsat=0, z3_unknown=0, cache_hits=0, domain_decided=0, model_hits=0, implied=0, path_checks=0;
	double z3_time=0, z3_max=0;
};
extern SolverStats SS;

struct PathCond {
	std::vector<E> multi;                 // constraints not expressible as a domain of one byte
	std::unordered_map<u32,Bits256> dom;  // var -> allowed values
	std::unordered_map<u32,u64> model;    // an assignment satisfying everything (missing = 0)
	std::vector<std::pair<E,E>> eqs;      // left (more variables) is known to equal right
	std::vector<std::pair<E,u64>> fixed;  // expressions known to have one value
	u64 fixedBits[4]={0,0,0,0};           // a filter on their identities
	void fix(E e, u64 v) { fixed.push_back(std::make_pair(e,v)); u32 h=e->id*2654435761u>>24; fixedBits[h>>6]|=1ull<<(h&63); }
	bool isFixed(E e, u64 &v) const { u32 h=e->id*2654435761u>>24; if (!(fixedBits[h>>6]>>(h&63)&1)) return false; for (auto &f:fixed) if (f.first==e) { v=f.second; return true; } return false; }
	u64 val(u32 v) const { auto it=model.find(v); return it==model.end()?0:it->second; }
	Bits256 domain(u32 v) const { auto it=dom.find(v); return it==dom.end()?Bits256::all():it->second; }
};

struct Unknown { std::string what; };

struct Solver {
	Z3_context c;
	std::unordered_map<E,Z3_ast> cache;
	std::unordered_map<std::string,std::pair<int,std::vector<std::pair<u32,u64>>>> qcache;
	unsigned rlimit = 60000000;
	Z3_sort fp64, fp32, fp80;
	Solver() {
		Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true");
		c=Z3_mk_context(cfg); Z3_del_config(cfg);
		Z3_set_error_handler(c,[](Z3_context ctx, Z3_error_code e){ throw Unknown{std::string("z3 error: ")+Z3_get_error_msg(ctx,e)}; });
		fp64=Z3_mk_fpa_sort(c,11,53); fp32=Z3_mk_fpa_sort(c,8,24); fp80=Z3_mk_fpa_sort(c,15,64);
	}
	Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(c,w); }
	Z3_ast num(unsigned w, u64 lo, u64 hi) {
		if (w==1) return lo?Z3_mk_true(c):Z3_mk_false(c);
		if (w<=64) return Z3_mk_unsigned_int64(c,lo,bv(w));
		return Z3_mk_concat(c, Z3_mk_unsigned_int64(c,hi,bv(w-64)), Z3_mk_unsigned_int64(c,lo,bv(64)));
	}
	Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(c,b,Z3_mk_unsigned_int64(c,1,bv(1)),Z3_mk_unsigned_int64(c,0,bv(1))); }
	Z3_ast v2b(Z3_ast v) { return Z3_mk_eq(c,v,Z3_mk_unsigned_int64(c,1,bv(1))); }
	Z3_ast asV(E e) { Z3_ast a=tr(e); return e->width==1?b2v(a):a; }
	Z3_ast fp(E e) { // float sort value of a bit pattern
		switch (e->kind) { case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FPEXT: case K_FPTRUNC: case K_SITOFP: case K_UITOFP: case K_FABS: return fpop(e); default: break; }
		Z3_ast b=tr(e);
		if (e->width==64) return Z3_mk_fpa_to_fp_bv(c,b,fp64);
		if (e->width==32) return Z3_mk_fpa_to_fp_bv(c,b,fp32);
		Z3_ast se=Z3_mk_extract(c,79,64,b), fr=Z3_mk_extract(c,62,0,b);
		return Z3_mk_fpa_to_fp_bv(c,Z3_mk_concat(c,se,fr),fp80);
	}
	std::unordered_map<E,Z3_ast> fcache;
	Z3_ast fpop(E e) {
		auto it=fcache.find(e); if (it!=fcache.end()) return it->second;
		Z3_ast rne=Z3_mk_fpa_rne(c), r=0; Z3_sort s=e->width==64?fp64:e->width==32?fp32:fp80;
		switch(e->kind) {
			case K_FADD: r=Z3_mk_fpa_add(c,rne,fp(e->k[0]),fp(e->k[1])); break;
			case K_FSUB: r=Z3_mk_fpa_sub(c,rne,fp(e->k[0]),fp(e->k[1])); break;
			case K_FMUL: r=Z3_mk_fpa_mul(c,rne,fp(e->k[0]),fp(e->k[1])); break;
			case K_FDIV: r=Z3_mk_fpa_div(c,rne,fp(e->k[0]),fp(e->k[1])); break;
			case K_FREM: throw Unknown{"symbolic floating point remainder"};
			case K_FPEXT: case K_FPTRUNC: r=Z3_mk_fpa_to_fp_float(c,rne,fp(e->k[0]),s); break;
			case K_SITOFP: r=Z3_mk_fpa_to_fp_signed(c,rne,asV(e->k[0]),s); break;
			case K_UITOFP: r=Z3_mk_fpa_to_fp_unsigned(c,rne,asV(e->k[0]),s); break;
			case K_FABS: r=Z3_mk_fpa_abs(c,fp(e->k[0])); break;
			default: break;
		}
		Z3_inc_ref(c,r); fcache[e]=r; return r;
	}
	Z3_ast fpbits(E e) {
		Z3_ast f=fpop(e), b=Z3_mk_fpa_to_ieee_bv(c,f);
		if (e->width!=80) return b;
		// insert the explicit integer bit: 1 unless exponent is zero
		Z3_ast ex=Z3_mk_extract(c,77,63,b);
		Z3_ast ib=b2v(Z3_mk_not(c,Z3_mk_eq(c,ex,Z3_mk_unsigned_int64(c,0,bv(15)))));
		return Z3_mk_concat(c,Z3_mk_extract(c,78,63,b),Z3_mk_concat(c,ib,Z3_mk_extract(c,62,0,b)));
	}
	Z3_ast tr(E e) {
		auto it=cache.find(e); if (it!=cache.end()) return it->second;
		Z3_ast r=0; unsigned w=e->width;
		switch(e->kind) {
			case K_CONST: r=num(w,e->c0,e->c1); break;
			case K_VAR: {
				Z3_symbol s=Z3_mk_int_symbol(c,(int)e->c0);
				r=Z3_mk_const(c,s,w==1?Z3_mk_bool_sort(c):bv(w)); break;
			}
			case K_ADD: r=Z3_mk_bvadd(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_MUL: r= Ctx::allOnes(e->k[1]) ? Z3_mk_bvneg(c,tr(e->k[0])) : Z3_mk_bvmul(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_UDIV: r=Z3_mk_bvudiv(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_SDIV: r=Z3_mk_bvsdiv(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_UREM: r=Z3_mk_bvurem(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_SREM: r=Z3_mk_bvsrem(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_AND: if (w==1) { Z3_ast a[2]={tr(e->k[0]),tr(e->k[1])}; r=Z3_mk_and(c,2,a); } else r=Z3_mk_bvand(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_OR: if (w==1) { Z3_ast a[2]={tr(e->k[0]),tr(e->k[1])}; r=Z3_mk_or(c,2,a); } else r=Z3_mk_bvor(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_XOR: r= w==1? Z3_mk_xor(c,tr(e->k[0]),tr(e->k[1])) : Z3_mk_bvxor(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_SHL: r=Z3_mk_bvshl(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_LSHR: r=Z3_mk_bvlshr(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_ASHR: r=Z3_mk_bvashr(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_NOT: r=Z3_mk_not(c,tr(e->k[0])); break;
			case K_EQ: r=Z3_mk_eq(c,tr(e->k[0]),tr(e->k[1])); break;
			case K_ULT: r=Z3_mk_bvult(c,asV(e->k[0]),asV(e->k[1])); break;
			case K_ULE: r=Z3_mk_bvule(c,asV(e->k[0]),asV(e->k[1])); break;
			case K_SLT: r=Z3_mk_bvslt(c,asV(e->k[0]),asV(e->k[1])); break;
			case K_SLE: r=Z3_mk_bvsle(c,asV(e->k[0]),asV(e->k[1])); break;
			case K_ITE: r=Z3_mk_ite(c,tr(e->k[0]),tr(e->k[1]),tr(e->k[2])); break;
			case K_ZEXT: r=Z3_mk_zero_ext(c,w-e->k[0]->width,asV(e->k[0])); break;
			case K_SEXT: r=Z3_mk_sign_ext(c,w-e->k[0]->width,asV(e->k[0])); break;
			case K_EXTRACT: r=Z3_mk_extract(c,e->c0+w-1,e->c0,tr(e->k[0])); if (w==1) r=v2b(r); break;
			case K_CONCAT: r=Z3_mk_concat(c,asV(e->k[0]),asV(e->k[1])); break;
			case K_TAB: {
				const Tab *t=(const Tab*)e->c0; Z3_ast v=tr(e->k[0]);
				r=num(w,t->v[255],0);
				for (int i=254;i>=0;i--) if (t->v[i]!=t->v[i+1])
					r=Z3_mk_ite(c,Z3_mk_bvule(c,v,num(8,i,0)),num(w,t->v[i],0),r);
				break;
			}
			case K_FCMP: {
				Z3_ast a=fp(e->k[0]), b=fp(e->k[1]); unsigned p=e->c0; Z3_ast o[4]; int n=0;
				if (p&1) o[n++]=Z3_mk_fpa_eq(c,a,b);
				if (p&2) o[n++]=Z3_mk_fpa_gt(c,a,b);
				if (p&4) o[n++]=Z3_mk_fpa_lt(c,a,b);
				if (p&8) { Z3_ast u[2]={Z3_mk_fpa_is_nan(c,a),Z3_mk_fpa_is_nan(c,b)}; o[n++]=Z3_mk_or(c,2,u); }
				r=Z3_mk_or(c,n,o); break;
			}
			case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: case K_FPEXT: case K_FPTRUNC: case K_SITOFP: case K_UITOFP: case K_FABS:
				r=fpbits(e); break;
			case K_FPTOSI: r=Z3_mk_fpa_to_sbv(c,Z3_mk_fpa_rtz(c),fp(e->k[0]),w); break;
			case K_FPTOUI: r=Z3_mk_fpa_to_ubv(c,Z3_mk_fpa_rtz(c),fp(e->k[0]),w); break;
		}
		Z3_inc_ref(c,r); cache[e]=r; return r;
	}
	Z3_ast domainAst(u32 v, const Bits256 &d) {
		Z3_ast x=tr(X.vars[v].e); std::vector<Z3_ast> o;
		for (int i=0;i<256;) {
			if (!d.get(i)) { i++; continue; }
			int j=i; while (j<255 && d.get(j+1)) j++;
			if (i==j) o.push_back(Z3_mk_eq(c,x,num(8,i,0)));
			else { Z3_ast a[2]; int n=0; if (i>0) a[n++]=Z3_mk_bvuge(c,x,num(8,i,0)); if (j<255) a[n++]=Z3_mk_bvule(c,x,num(8,j,0)); o.push_back(Z3_mk_and(c,n,a)); }
			i=j+1;
		}
		return Z3_mk_or(c,o.size(),o.data());
	}
	// slice of the path condition relevant to a set of variables
	void slice(const PathCond &p, const std::vector<E> &goals, std::vector<E> &cons, std::vector<u32> &vars) {
		std::unordered_set<u32> vs; std::vector<char> used(p.multi.size(),0);
		for (E g:goals) for (u32 v:g->vs->v) vs.insert(v);
		bool ch=true;
		while (ch) {
			ch=false;
			for (size_t i=0;i<p.multi.size();i++) if (!used[i]) {
				bool hit=false; for (u32 v:p.multi[i]->vs->v) if (vs.count(v)) { hit=true; break; }
				if (!hit) continue;
				used[i]=1; cons.push_back(p.multi[i]);
				for (u32 v:p.multi[i]->vs->v) if (vs.insert(v).second) ch=true;
			}
		}
		vars.assign(vs.begin(),vs.end()); std::sort(vars.begin(),vars.end());
	}
	// 1 sat, 0 unsat; throws Unknown
	int check(const PathCond &p, const std::vector<E> &cons, const std::vector<u32> &vars, std::vector<std::pair<u32,u64>> &model) {
		std::string key; { std::vector<u32> ids; for (E e:cons) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
			key.assign((char*)ids.data(),ids.size()*4);
			for (u32 v:vars) { auto it=p.dom.find(v); if (it!=p.dom.end()) { key.append((char*)&v,4); key.append((char*)it->second.w,32); } } }
		auto it=qcache.find(key);
		if (it!=qcache.end()) { SS.cache_hits++; model=it->second.second; return it->second.first; }
		auto t0=std::chrono::steady_clock::now();
		bool hasfp=false; for (E e:cons) hasfp|=e->hasfp;
		Z3_solver s = hasfp ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_BV"));
		Z3_solver_inc_ref(c,s);
		Z3_params ps=Z3_mk_params(c); Z3_params_inc_ref(c,ps);
		Z3_params_set_uint(c,ps,Z3_mk_string_symbol(c,"rlimit"),rlimit);
		Z3_params_set_uint(c,ps,Z3_mk_string_symbol(c,"random_seed"),0);
		Z3_solver_set_params(c,s,ps); Z3_params_dec_ref(c,ps);
		for (E e:cons) Z3_solver_assert(c,s,tr(e));
		for (u32 v:vars) { auto d=p.dom.find(v); if (d!=p.dom.end()) Z3_solver_assert(c,s,domainAst(v,d->second)); }
		Z3_lbool r=Z3_solver_check(c,s);
		SS.z3_queries++;
		model.clear();
		if (r==Z3_L_TRUE) {
			SS.z3_sat++;
			Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m);
			for (u32 v:vars) {
				Z3_ast o; if (!Z3_model_eval(c,m,tr(X.vars[v].e),true,&o)) throw Unknown{"model evaluation failed"};
				u64 x=0; unsigned w=X.vars[v].width;
				if (w==1) x=Z3_get_bool_value(c,o)==Z3_L_TRUE;
				else { uint64_t y; if (!Z3_get_numeral_uint64(c,o,&y)) throw Unknown{"model value"}; x=y; }
				model.push_back(std::make_pair(v,x));
			}
			Z3_model_dec_ref(c,m);
		} else if (r==Z3_L_FALSE) SS.z3_unsat++;
		else {
			SS.z3_unknown++;
			if (getenv("VP_DUMP")) { fprintf(stderr,"UNKNOWN eqs %zu goal %s\n",p.eqs.size(),Z3_ast_to_string(c,tr(cons.back()))); for (E e:cons) fprintf(stderr,"   %.300s\n",Z3_ast_to_string(c,tr(e))); }
			std::string why=Z3_solver_get_reason_unknown(c,s); Z3_solver_dec_ref(c,s);
			throw Unknown{"solver unknown: "+why};
		}
		Z3_solver_dec_ref(c,s);
		double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
		SS.z3_time+=dt; if (dt>SS.z3_max) SS.z3_max=dt;
		int res=r==Z3_L_TRUE;
		if (qcache.size()>200000) qcache.clear();
		qcache[key]=std::make_pair(res,model);
		return res;
	}
	bool evalModel(const PathCond &p, E e) {
		if (X.unaryByte(e)) { Bits256 t; if (X.truth(e,t)) return t.get(p.val(e->vs->v[0])); }
		std::unordered_map<E,Ctx::V> memo;
		return X.eval(e,[&](u32 v){ return p.val(v); },memo).lo&1;
	}
	bool inMulti(const PathCond &p, u32 v) {
		for (E e:p.multi) if (std::binary_search(e->vs->v.begin(),e->vs->v.end(),v)) return true;
		return false;
	}
	bool implied(const PathCond &p, E c) {
		for (E e:p.multi) if (e==c) return true;
		return false;
	}
	// Can c be true together with p?  patch receives variable values making it so (empty if the current model does).
	bool may(const PathCond &p, E c, std::vector<std::pair<u32,u64>> &patch, bool useModel=true) {
		patch.clear();
		if (Ctx::isC(c)) return c->c0;
		if (useModel && evalModel(p,c)) { SS.model_hits++; return true; }
		if (implied(p,c)) { SS.implied++; return true; }
		if (implied(p,X.not_(c))) { SS.implied++; return false; }
		if (X.unaryByte(c)) {
			Bits256 t;
			if (X.truth(c,t)) {
				u32 v=c->vs->v[0];
				Bits256 d=t&p.domain(v);
				if (d.empty()) { SS.domain_decided++; return false; }
				if (!inMulti(p,v)) { SS.domain_decided++; patch.push_back(std::make_pair(v,(u64)d.first())); return true; }
			}
		}
		if (!p.eqs.empty()) {
			// rewrite with known equalities; often the goal then only concerns a few variables
			std::unordered_map<E,E> m,memo; for (auto &q:p.eqs) m[q.first]=q.second;
			E c2=X.subst(c,m,memo);
			if (Ctx::isC(c2)) { if (!c2->c0) { SS.implied++; return false; } SS.implied++; return true; }
			if (c2!=c) {
				std::vector<E> cons; std::vector<u32> vars(c2->vs->v.begin(),c2->vs->v.end()); std::sort(vars.begin(),vars.end());
				for (E e:p.multi) { bool sub=true; for (u32 v:e->vs->v) if (!std::binary_search(vars.begin(),vars.end(),v)) { sub=false; break; } if (sub) cons.push_back(e); }
				cons.push_back(c2); std::vector<std::pair<u32,u64>> tmp;
				if (!check(p,cons,vars,tmp)) return false;
			}
		}
		std::vector<E> cons; std::vector<u32> vars; slice(p,std::vector<E>(1,c),cons,vars);
		cons.push_back(c);
		return check(p,cons,vars,patch);
	}
	void add(PathCond &p, E c, const std::vector<std::pair<u32,u64>> &patch) {
		for (auto &x:patch) p.model[x.first]=x.second;
		addc(p,c);
	}
	void addc(PathCond &p, E c) {
		if (Ctx::isC(c)) return;
		if (c->kind==K_AND) { addc(p,c->k[0]); addc(p,c->k[1]); return; }
		if (c->kind==K_NOT && c->k[0]->kind==K_OR) { addc(p,X.not_(c->k[0]->k[0])); addc(p,X.not_(c->k[0]->k[1])); return; }
		if (X.unaryByte(c)) { Bits256 t; if (X.truth(c,t)) { u32 v=c->vs->v[0]; p.dom[v]=p.domain(v)&t; return; } }
		for (E e:p.multi) if (e==c) return;
		p.multi.push_back(c);
		if (c->kind==K_EQ && !Ctx::isC(c->k[0]) && !Ctx::isC(c->k[1]) && c->k[0]->width>1) { E a=c->k[0], b=c->k[1]; if (a->vs->v.size()<b->vs->v.size()) std::swap(a,b); if (a->vs->v.size()>=4 && b->vs->v.size()<a->vs->v.size()) { p.eqs.push_back(std::make_pair(a,b)); p.eqs.push_back(std::make_pair(X.sub(X.mkConst(a->width,0),a),X.sub(X.mkConst(b->width,0),b))); } }
		if (c->kind==K_EQ && Ctx::isC(c->k[1]) && c->k[1]->width<=64) p.fix(c->k[0],c->k[1]->c0);
	}
	// Full check of a path condition by Z3 alone.
	bool checkPath(const PathCond &p, std::vector<std::pair<u32,u64>> &model) {
		std::vector<u32> vars; std::unordered_set<u32> vs;
		for (E e:p.multi) for (u32 v:e->vs->v) vs.insert(v);
		for (auto &d:p.dom) vs.insert(d.first);
		vars.assign(vs.begin(),vs.end()); std::sort(vars.begin(),vars.end());
		SS.path_checks++;
		return check(p,p.multi,vars,model);
	}
};
