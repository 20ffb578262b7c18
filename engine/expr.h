// Hash-consed bit-vector / floating-point expression DAG with simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Kind : u8 {
	K_CONST, K_VAR, K_ADD, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
	K_NOT, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_ZEXT, K_SEXT, K_EXTRACT, K_CONCAT, K_TAB,
	K_FCMP, K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FPEXT, K_FPTRUNC, K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FABS
};
// float comparison predicates use the LLVM numbering (FCMP_OEQ=1 ... )

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
	Kind kind; u8 nk; uint16_t width; u32 id; u32 hash;
	const Expr *k[3];
	u64 c0, c1;         // const value / var id / extract lo / fcmp pred / table pointer
	const VarSet *vs;
	bool uninit;        // depends on an uninitialised byte
	bool hasfp;
};
typedef const Expr *E;

struct Bits256 {
	u64 w[4];
	Bits256() { w[0]=w[1]=w[2]=w[3]=0; }
	static Bits256 all() { Bits256 b; b.w[0]=b.w[1]=b.w[2]=b.w[3]=~0ull; return b; }
	bool get(unsigned i) const { return w[i>>6]>>(i&63)&1; }
	void set(unsigned i) { w[i>>6] |= 1ull<<(i&63); }
	bool empty() const { return !(w[0]|w[1]|w[2]|w[3]); }
	Bits256 operator&(const Bits256 &o) const { Bits256 r; for(int i=0;i<4;i++) r.w[i]=w[i]&o.w[i]; return r; }
	Bits256 operator~() const { Bits256 r; for(int i=0;i<4;i++) r.w[i]=~w[i]; return r; }
	bool operator==(const Bits256 &o) const { return !memcmp(w,o.w,32); }
	int count() const { int n=0; for(int i=0;i<4;i++) n+=__builtin_popcountll(w[i]); return n; }
	int first() const { for(int i=0;i<4;i++) if (w[i]) return i*64+__builtin_ctzll(w[i]); return -1; }
};

struct VarInfo { std::string name; unsigned width; E e; bool uninit; bool hidden; };

struct Tab { u64 v[256]; u32 id; };

static inline u64 maskw(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline int64_t sext64(u64 v, unsigned w) { return w>=64 ? (int64_t)v : (int64_t)(v<<(64-w))>>(64-w); }

struct Ctx {
	std::vector<VarInfo> vars;
	std::map<std::pair<std::string,unsigned>, u32> varIndex;
	std::unordered_multimap<u32, E> table;
	std::map<std::vector<u32>, VarSet*> sets;
	std::unordered_map<u64, const VarSet*> unionCache;
	std::map<std::string, Tab*> tabs;
	const VarSet *emptySet;
	u32 nextId = 1;
	E True, False;
	std::vector<E> smallc[129];
	Ctx() {
		emptySet = internSet(std::vector<u32>());
		True = mkConst(1,1); False = mkConst(1,0);
	}
	const VarSet *internSet(const std::vector<u32> &v) {
		auto it = sets.find(v); if (it!=sets.end()) return it->second;
		VarSet *s = new VarSet; s->v=v; s->id=sets.size(); sets[v]=s; return s;
	}
	const VarSet *unite(const VarSet *a, const VarSet *b) {
		if (a==b || b->v.empty()) return a;
		if (a->v.empty()) return b;
		u64 key = a->id<b->id ? ((u64)a->id<<32|b->id) : ((u64)b->id<<32|a->id);
		auto it = unionCache.find(key); if (it!=unionCache.end()) return it->second;
		std::vector<u32> r; std::set_union(a->v.begin(),a->v.end(),b->v.begin(),b->v.end(),std::back_inserter(r));
		return unionCache[key]=internSet(r);
	}
	static u32 mix(u32 h, u64 v) { h ^= (u32)v + 0x9e3779b9 + (h<<6)+(h>>2); h ^= (u32)(v>>32)*0x85ebca6b; h*=0xcc9e2d51; return h ^ (h>>15); }
	E intern(Kind kind, unsigned width, E a, E b, E c, u64 c0, u64 c1) {
		u32 h = mix(mix(mix(mix(mix(kind*131+width, a?a->id:0), b?b->id:0), c?c->id:0), c0), c1);
		auto r = table.equal_range(h);
		for (auto it=r.first; it!=r.second; ++it) {
			E e=it->second;
			if (e->kind==kind && e->width==width && e->k[0]==a && e->k[1]==b && e->k[2]==c && e->c0==c0 && e->c1==c1) return e;
		}
		Expr *e = new Expr; e->kind=kind; e->width=width; e->id=nextId++; e->hash=h; e->k[0]=a; e->k[1]=b; e->k[2]=c; e->c0=c0; e->c1=c1;
		e->nk = (a?1:0)+(b?1:0)+(c?1:0);
		e->uninit=false; e->hasfp = kind>=K_FCMP;
		if (kind==K_VAR) { e->vs = internSet(std::vector<u32>(1,(u32)c0)); e->uninit = vars[c0].uninit; }
		else { e->vs=emptySet; for (int i=0;i<e->nk;i++) { e->vs=unite(e->vs,e->k[i]->vs); e->uninit|=e->k[i]->uninit; e->hasfp|=e->k[i]->hasfp; } }
		table.emplace(h,e);
		return e;
	}
	E mkConst(unsigned w, u64 v, u64 hi=0) {
		if (w<=64) { v&=maskw(w); hi=0; } else hi &= maskw(w-64);
		return intern(K_CONST,w,0,0,0,v,hi);
	}
	E mkVar(const std::string &name, unsigned w, bool uninit=false, bool hidden=false) {
		auto key = std::make_pair(name,w);
		auto it = varIndex.find(key);
		if (it!=varIndex.end()) return vars[it->second].e;
		u32 id = vars.size();
		VarInfo vi; vi.name=name; vi.width=w; vi.uninit=uninit; vi.hidden=hidden; vi.e=0; vars.push_back(vi); varIndex[key]=id;
		E e = intern(K_VAR,w,0,0,0,id,0);
		vars[id].e=e; return e;
	}
	static bool isC(E e) { return e->kind==K_CONST; }
	static bool isC(E e, u64 v) { return e->kind==K_CONST && e->c0==v && e->c1==0; }
	static bool allOnes(E e) { return e->kind==K_CONST && (e->width<=64 ? e->c0==maskw(e->width) : (e->c0==~0ull && e->c1==maskw(e->width-64))); }
	typedef unsigned __int128 u128;
	typedef __int128 s128;
	static u128 cv(E e) { return (u128)e->c1<<64 | e->c0; }
	E mkC128(unsigned w, u128 v) { return mkConst(w,(u64)v,(u64)(v>>64)); }
	static s128 scv(E e) { u128 v=cv(e); unsigned w=e->width; if (w<128 && (v>>(w-1)&1)) v |= ~(u128)0<<w; return (s128)v; }

	E add(E a, E b) {
		unsigned w=a->width;
		if (isC(a)&&isC(b)) return mkC128(w,cv(a)+cv(b));
		if (isC(a)) std::swap(a,b);
		if (w==1) return xor_(a,b);
		if (isC(b)) {
			if (isC(b,0)) return a;
			if (a->kind==K_ADD && isC(a->k[1])) return add(a->k[0], add(a->k[1],b));
			if (a->kind==K_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], add(a->k[1],b), add(a->k[2],b));
		} else {
			if (a->kind==K_ADD && isC(a->k[1])) return add(add(a->k[0],b), a->k[1]);
			if (b->kind==K_ADD && isC(b->k[1])) return add(add(a,b->k[0]), b->k[1]);
			// a + (b * -1) patterns: a - a
			if (isNegOf(a,b)||isNegOf(b,a)) return mkConst(w,0);
			// (x + -y) + y -> x
			if (a->kind==K_ADD) { if (isNegOf(a->k[1],b)||isNegOf(b,a->k[1])) return a->k[0]; if (isNegOf(a->k[0],b)||isNegOf(b,a->k[0])) return a->k[1]; }
			if (b->kind==K_ADD) { if (isNegOf(b->k[1],a)||isNegOf(a,b->k[1])) return b->k[0]; if (isNegOf(b->k[0],a)||isNegOf(a,b->k[0])) return b->k[1]; }
			if (E r=disjointOr(a,b)) return r;
			if (a->id>b->id) std::swap(a,b);
		}
		return intern(K_ADD,w,a,b,0,0,0);
	}
	static bool isNegOf(E n, E x) { return n->kind==K_MUL && allOnes(n->k[1]) && n->k[0]==x; }
	E neg(E a) { return mul(a, mkC128(a->width, ~(u128)0)); }
	E sub(E a, E b) {
		if (a==b) return mkConst(a->width,0);
		if (isC(b)) return add(a, mkC128(a->width, (u128)0-cv(b)));
		return add(a, neg(b));
	}
	E mul(E a, E b) {
		unsigned w=a->width;
		if (isC(a)&&isC(b)) return mkC128(w,cv(a)*cv(b));
		if (isC(a)) std::swap(a,b);
		if (isC(b)) {
			if (isC(b,0)) return b;
			if (isC(b,1)) return a;
			if (a->kind==K_MUL && isC(a->k[1])) return mul(a->k[0], mul(a->k[1],b));
			if (a->kind==K_ADD && isC(a->k[1])) return add(mul(a->k[0],b), mul(a->k[1],b));
			if (a->kind==K_ADD && allOnes(b)) return add(mul(a->k[0],b), mul(a->k[1],b));
			if (w<=64 && (b->c0 & (b->c0-1))==0) return shl(a, mkConst(w,__builtin_ctzll(b->c0)));
		} else if (a->id>b->id) std::swap(a,b);
		return intern(K_MUL,w,a,b,0,0,0);
	}
	E divrem(Kind k, E a, E b) {
		unsigned w=a->width;
		if (isC(a)&&isC(b)&&cv(b)!=0) {
			u128 x=cv(a), y=cv(b); s128 sx=scv(a), sy=scv(b);
			switch(k) {
				case K_UDIV: return mkC128(w,x/y);
				case K_UREM: return mkC128(w,x%y);
				case K_SDIV: return sy==-1 ? mkC128(w,(u128)0-x) : mkC128(w,(u128)(sx/sy));
				case K_SREM: return sy==-1 ? mkConst(w,0) : mkC128(w,(u128)(sx%sy));
				default: break;
			}
		}
		if (isC(b,1)) return (k==K_UDIV||k==K_SDIV) ? a : mkConst(w,0);
		if (isC(b) && w<=64 && (b->c0&(b->c0-1))==0 && b->c0) {
			unsigned s=__builtin_ctzll(b->c0);
			if (k==K_UDIV) return lshr(a,mkConst(w,s));
			if (k==K_UREM) return and_(a,mkConst(w,b->c0-1));
		}
		return intern(k,w,a,b,0,0,0);
	}
	E not_(E a) {
		if (a->width!=1) return xor_(a, mkC128(a->width, ~(u128)0));
		if (isC(a)) return a->c0?False:True;
		if (a->kind==K_NOT) return a->k[0];
		if (a->kind==K_ULT) return intern(K_ULE,1,a->k[1],a->k[0],0,0,0);
		if (a->kind==K_ULE) return intern(K_ULT,1,a->k[1],a->k[0],0,0,0);
		if (a->kind==K_SLT) return intern(K_SLE,1,a->k[1],a->k[0],0,0,0);
		if (a->kind==K_SLE) return intern(K_SLT,1,a->k[1],a->k[0],0,0,0);
		return intern(K_NOT,1,a,0,0,0,0);
	}
	E disjointOr(E a, E b) {
		// Concat(A,0_n) combined with a value that fits in n bits
		for (int i=0;i<2;i++) {
			if (a->kind==K_CONCAT && isC(a->k[1],0)) {
				unsigned n=a->k[1]->width;
				if (b->kind==K_ZEXT && b->k[0]->width<=n) return concat(a->k[0], zext(b->k[0],n));
				if (b->kind==K_CONCAT && isC(b->k[0],0) && b->k[1]->width<=n) return concat(a->k[0], zext(b->k[1],n));
			}
			std::swap(a,b);
		}
		return 0;
	}
	E and_(E a, E b) {
		unsigned w=a->width;
		if (isC(a)&&isC(b)) return mkC128(w,cv(a)&cv(b));
		if (isC(a)) std::swap(a,b);
		if (a==b) return a;
		if (isC(b)) {
			if (isC(b,0)) return b;
			if (allOnes(b)) return a;
			if (w<=64) {
				u64 m=b->c0;
				if ((m&(m+1))==0) { unsigned n=__builtin_popcountll(m); return zext(extract(a,0,n),w); }
				if (a->kind==K_AND && isC(a->k[1])) return and_(a->k[0], mkConst(w,a->k[1]->c0&m));
				if (a->kind==K_ZEXT) { unsigned n=a->k[0]->width; return zext(and_(a->k[0],mkConst(n,m)),w); }
				if (a->kind==K_CONCAT) { unsigned n=a->k[1]->width; return concat(and_(a->k[0],mkConst(w-n,m>>n)), and_(a->k[1],mkConst(n,m))); }
				if (a->kind==K_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], and_(a->k[1],b), and_(a->k[2],b));
			}
		} else {
			if (w==1) {
				if (a==not_(b)) return False;
				if (a->kind==K_AND && (a->k[0]==b||a->k[1]==b)) return a;
				if (b->kind==K_AND && (b->k[0]==a||b->k[1]==a)) return b;
			}
			if (a->id>b->id) std::swap(a,b);
		}
		return intern(K_AND,w,a,b,0,0,0);
	}
	E or_(E a, E b) {
		unsigned w=a->width;
		if (isC(a)&&isC(b)) return mkC128(w,cv(a)|cv(b));
		if (isC(a)) std::swap(a,b);
		if (a==b) return a;
		if (isC(b)) {
			if (isC(b,0)) return a;
			if (allOnes(b)) return b;
			if (w<=64) {
				if (a->kind==K_ZEXT || a->kind==K_CONCAT) {
					unsigned n = a->kind==K_ZEXT ? a->k[0]->width : a->k[1]->width;
					return concat(or_(extract(a,n,w-n), mkConst(w-n,b->c0>>n)), or_(extract(a,0,n),mkConst(n,b->c0)));
				}
				if (a->kind==K_ITE && isC(a->k[1]) && isC(a->k[2])) return ite(a->k[0], or_(a->k[1],b), or_(a->k[2],b));
			}
		} else {
			if (w==1 && a==not_(b)) return True;
			if (E r=disjointOr(a,b)) return r;
			if (a->id>b->id) std::swap(a,b);
		}
		return intern(K_OR,w,a,b,0,0,0);
	}
	E xor_(E a, E b) {
		unsigned w=a->width;
		if (isC(a)&&isC(b)) return mkC128(w,cv(a)^cv(b));
		if (isC(a)) std::swap(a,b);
		if (a==b) return mkConst(w,0);
		if (isC(b)) {
			if (isC(b,0)) return a;
			if (w==1) return not_(a);
			if (a->kind==K_XOR && isC(a->k[1])) return xor_(a->k[0], xor_(a->k[1],b));
			if (w<=64 && (a->kind==K_ZEXT || a->kind==K_CONCAT)) {
				unsigned n = a->kind==K_ZEXT ? a->k[0]->width : a->k[1]->width;
				return concat(xor_(extract(a,n,w-n), mkConst(w-n,b->c0>>n)), xor_(extract(a,0,n),mkConst(n,b->c0)));
			}
		} else {
			if (w==1) return not_(eq(a,b));
			if (a->id>b->id) std::swap(a,b);
		}
		return intern(K_XOR,w,a,b,0,0,0);
	}
	E shl(E a, E b) {
		unsigned w=a->width;
		if (isC(b)) {
			if (cv(b)>=w) return mkConst(w,0);
			unsigned s=b->c0; if (!s) return a;
			return concat(extract(a,0,w-s), mkConst(s,0));
		}
		if (isC(a,0)) return a;
		return intern(K_SHL,w,a,b,0,0,0);
	}
	E lshr(E a, E b) {
		unsigned w=a->width;
		if (isC(b)) {
			if (cv(b)>=w) return mkConst(w,0);
			unsigned s=b->c0; if (!s) return a;
			return zext(extract(a,s,w-s),w);
		}
		if (isC(a,0)) return a;
		return intern(K_LSHR,w,a,b,0,0,0);
	}
	E ashr(E a, E b) {
		unsigned w=a->width;
		if (isC(b)) {
			unsigned s=cv(b)>=w?w-1:(unsigned)b->c0; if (!s) return a;
			return sext(extract(a,s,w-s),w);
		}
		if (isC(a,0)) return a;
		return intern(K_ASHR,w,a,b,0,0,0);
	}
	E zext(E a, unsigned w) {
		if (a->width==w) return a;
		if (isC(a)) return mkC128(w,cv(a));
		if (a->kind==K_ZEXT) return zext(a->k[0],w);
		return intern(K_ZEXT,w,a,0,0,0,0);
	}
	E sext(E a, unsigned w) {
		if (a->width==w) return a;
		if (isC(a)) return mkC128(w,(u128)scv(a));
		if (a->kind==K_SEXT) return sext(a->k[0],w);
		if (a->kind==K_ZEXT) return zext(a->k[0],w);
		return intern(K_SEXT,w,a,0,0,0,0);
	}
	E extract(E a, unsigned lo, unsigned w) {
		if (lo==0 && w==a->width) return a;
		assert(lo+w<=a->width);
		if (isC(a)) return mkC128(w, cv(a)>>lo);
		switch (a->kind) {
			case K_EXTRACT: return extract(a->k[0], lo+a->c0, w);
			case K_CONCAT: {
				unsigned n=a->k[1]->width;
				if (lo+w<=n) return extract(a->k[1],lo,w);
				if (lo>=n) return extract(a->k[0],lo-n,w);
				return concat(extract(a->k[0],0,lo+w-n), extract(a->k[1],lo,n-lo));
			}
			case K_ZEXT: {
				unsigned n=a->k[0]->width;
				if (lo>=n) return mkConst(w,0);
				if (lo+w<=n) return extract(a->k[0],lo,w);
				return zext(extract(a->k[0],lo,n-lo),w);
			}
			case K_SEXT: {
				unsigned n=a->k[0]->width;
				if (lo+w<=n) return extract(a->k[0],lo,w);
				if (lo==0) return sext(a->k[0],w);
				break;
			}
			case K_AND: return and_(extract(a->k[0],lo,w),extract(a->k[1],lo,w));
			case K_OR: return or_(extract(a->k[0],lo,w),extract(a->k[1],lo,w));
			case K_XOR: return xor_(extract(a->k[0],lo,w),extract(a->k[1],lo,w));
			case K_ADD: if (lo==0 && (w<=32)) return add(extract(a->k[0],0,w),extract(a->k[1],0,w)); break;
			case K_MUL: if (lo==0 && (w<=32)) return mul(extract(a->k[0],0,w),extract(a->k[1],0,w)); break;
			case K_ITE: if (isC(a->k[1])||isC(a->k[2])||w==1||w==8) return ite(a->k[0],extract(a->k[1],lo,w),extract(a->k[2],lo,w)); break;
			case K_TAB: {
				const Tab *t=(const Tab*)a->c0; u64 v[256]; for(int i=0;i<256;i++) v[i]=t->v[i]>>lo&maskw(w);
				return tab(a->k[0],w,v);
			}
			default: break;
		}
		return intern(K_EXTRACT,w,a,0,0,lo,0);
	}
	E concat(E hi, E lo) {
		unsigned w=hi->width+lo->width;
		if (isC(hi)&&isC(lo)) return mkC128(w, cv(hi)<<lo->width | cv(lo));
		if (isC(hi,0)) return zext(lo,w);
		if (hi->kind==K_EXTRACT && lo->kind==K_EXTRACT && hi->k[0]==lo->k[0] && hi->c0==lo->c0+lo->width) return extract(hi->k[0],lo->c0,w);
		// concat(extract(x,hi..), concat(extract(x, next), r))
		if (lo->kind==K_CONCAT && hi->kind==K_EXTRACT && lo->k[0]->kind==K_EXTRACT && hi->k[0]==lo->k[0]->k[0] && hi->c0==lo->k[0]->c0+lo->k[0]->width)
			return concat(extract(hi->k[0],lo->k[0]->c0,hi->width+lo->k[0]->width), lo->k[1]);
		if (isC(hi) && lo->kind==K_CONCAT && isC(lo->k[0])) return concat(concat(hi,lo->k[0]),lo->k[1]);
		if (hi->kind==K_ZEXT) { E in=concat(hi->k[0],lo); return zext(in,w); }
		if (hi->kind==K_CONCAT) return concat(hi->k[0], concat(hi->k[1],lo));
		if (lo->kind==K_EXTRACT && lo->c0==0 && hi->kind==K_EXTRACT) {}
		return intern(K_CONCAT,w,hi,lo,0,0,0);
	}
	E ite(E c, E a, E b) {
		if (isC(c)) return c->c0?a:b;
		if (a==b) return a;
		if (a->width==1) {
			if (isC(a)&&isC(b)) return a->c0? c : not_(c);
			if (isC(a)) return a->c0 ? or_(c,b) : and_(not_(c),b);
			if (isC(b)) return b->c0 ? or_(not_(c),a) : and_(c,a);
		}
		if (c->kind==K_NOT) return ite(c->k[0],b,a);
		if (a->kind==K_ITE && a->k[0]==c) a=a->k[1];
		if (b->kind==K_ITE && b->k[0]==c) b=b->k[2];
		if (a==b) return a;
		return intern(K_ITE,a->width,c,a,b,0,0);
	}
	E eq(E a, E b) {
		if (a==b) return True;
		if (isC(a)&&isC(b)) return cv(a)==cv(b)?True:False;
		if (isC(a)) std::swap(a,b);
		unsigned w=a->width;
		if (isC(b)) {
			if (w==1) return b->c0?a:not_(a);
			switch(a->kind) {
				case K_ZEXT: { unsigned n=a->k[0]->width; if (cv(b)>>n) return False; return eq(a->k[0],mkC128(n,cv(b))); }
				case K_SEXT: { unsigned n=a->k[0]->width; E t=mkC128(n,cv(b)); if (sext(t,w)!=b) return False; return eq(a->k[0],t); }
				case K_CONCAT: { unsigned n=a->k[1]->width; return and_(eq(a->k[1],extract(b,0,n)), eq(a->k[0],extract(b,n,w-n))); }
				case K_ADD: if (isC(a->k[1])) return eq(a->k[0],sub(b,a->k[1]));
					if (isC(b,0)) { for (int i=0;i<2;i++) { E n=a->k[i]; if (n->kind==K_MUL && allOnes(n->k[1])) return eq(a->k[1-i],n->k[0]); } }
					break;
				case K_XOR: if (isC(a->k[1])) return eq(a->k[0],xor_(b,a->k[1])); if (isC(b,0)) return eq(a->k[0],a->k[1]); break;
				case K_MUL: if (allOnes(a->k[1])) return eq(a->k[0],neg(b)); break;
				case K_ITE:
					if (isC(a->k[1])) return a->k[1]==b ? or_(a->k[0], eq(a->k[2],b)) : and_(not_(a->k[0]), eq(a->k[2],b));
					if (isC(a->k[2])) return a->k[2]==b ? or_(not_(a->k[0]), eq(a->k[1],b)) : and_(a->k[0], eq(a->k[1],b));
					break;
				case K_OR: if (isC(b,0)) return and_(eq(a->k[0],b),eq(a->k[1],b)); break;
				default: break;
			}
		} else {
			if (a->kind==K_ZEXT && b->kind==K_ZEXT) { unsigned n=std::max(a->k[0]->width,b->k[0]->width); return eq(zext(a->k[0],n),zext(b->k[0],n)); }
			if (a->kind==K_SEXT && b->kind==K_SEXT && a->k[0]->width==b->k[0]->width) return eq(a->k[0],b->k[0]);
			if (a->kind==K_CONCAT && b->kind==K_CONCAT && a->k[1]->width==b->k[1]->width) return and_(eq(a->k[1],b->k[1]),eq(a->k[0],b->k[0]));
			if (a->kind==K_ADD && b->kind==K_ADD && isC(a->k[1]) && isC(b->k[1])) { if (a->k[0]==b->k[0]) return a->k[1]==b->k[1]?True:False; }
			if (a->kind==K_ADD && isC(a->k[1]) && a->k[0]==b) return False;
			if (b->kind==K_ADD && isC(b->k[1]) && b->k[0]==a) return False;
			{ bool na=a->kind==K_MUL&&allOnes(a->k[1]), nb=b->kind==K_MUL&&allOnes(b->k[1]);
			  if (na&&nb) return eq(a->k[0],b->k[0]);
			  // canonical: negation on the operand with the smaller id
			  if (na && a->k[0]->id>b->id) return eq(a->k[0],neg(b));
			  if (nb && b->k[0]->id>a->id) return eq(neg(a),b->k[0]); }
			if (a->id>b->id) std::swap(a,b);
		}
		return intern(K_EQ,1,a,b,0,0,0);
	}
	E ult(E a, E b) {
		unsigned w=a->width;
		if (a==b) return False;
		if (isC(a)&&isC(b)) return cv(a)<cv(b)?True:False;
		if (isC(b,0)) return False;
		if (allOnes(a)) return False;
		if (isC(b,1)) return eq(a,mkConst(w,0));
		if (isC(a,0)) return not_(eq(b,a));
		if (a->kind==K_ZEXT && b->kind==K_ZEXT) { unsigned n=std::max(a->k[0]->width,b->k[0]->width); return ult(zext(a->k[0],n),zext(b->k[0],n)); }
		if (a->kind==K_ZEXT && isC(b)) { unsigned n=a->k[0]->width; if (cv(b)>>n) return True; return ult(a->k[0],mkC128(n,cv(b))); }
		if (b->kind==K_ZEXT && isC(a)) { unsigned n=b->k[0]->width; if (cv(a)>>n) return False; return ult(mkC128(n,cv(a)),b->k[0]); }
		if (a->kind==K_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return ite(a->k[0],ult(a->k[1],b),ult(a->k[2],b));
		if (b->kind==K_ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return ite(b->k[0],ult(a,b->k[1]),ult(a,b->k[2]));
		return intern(K_ULT,1,a,b,0,0,0);
	}
	E ule(E a, E b) { return not_(ult(b,a)); }
	E slt(E a, E b) {
		unsigned w=a->width;
		if (a==b) return False;
		if (isC(a)&&isC(b)) return scv(a)<scv(b)?True:False;
		bool az=a->kind==K_ZEXT||(isC(a)&&scv(a)>=0), bz=b->kind==K_ZEXT||(isC(b)&&scv(b)>=0);
		if (az&&bz) return ult(a,b);
		if (az && isC(b)) return False;             // b negative constant
		if (bz && isC(a)) return True;
		if (a->kind==K_SEXT && b->kind==K_SEXT) { unsigned n=std::max(a->k[0]->width,b->k[0]->width); return slt(sext(a->k[0],n),sext(b->k[0],n)); }
		if (a->kind==K_SEXT && isC(b)) { unsigned n=a->k[0]->width; s128 v=scv(b); if (v> (((s128)1<<(n-1))-1)) return True; if (v< -((s128)1<<(n-1))) return False; return slt(a->k[0],mkC128(n,cv(b))); }
		if (b->kind==K_SEXT && isC(a)) { unsigned n=b->k[0]->width; s128 v=scv(a); if (v> (((s128)1<<(n-1))-1)) return False; if (v< -((s128)1<<(n-1))) return True; return slt(mkC128(n,cv(a)),b->k[0]); }
		if (a->kind==K_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return ite(a->k[0],slt(a->k[1],b),slt(a->k[2],b));
		if (b->kind==K_ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return ite(b->k[0],slt(a,b->k[1]),slt(a,b->k[2]));
		(void)w;
		return intern(K_SLT,1,a,b,0,0,0);
	}
	E sle(E a, E b) { return not_(slt(b,a)); }
	const Tab *internTab(const u64 *v) {
		std::string key((const char*)v,256*8);
		auto it=tabs.find(key); if (it!=tabs.end()) return it->second;
		Tab *t=new Tab; memcpy(t->v,v,sizeof t->v); t->id=tabs.size(); tabs[key]=t; return t;
	}
	// value = v[var], var an 8-bit variable
	E tab(E var, unsigned w, const u64 *v) {
		bool same=true, ident=true; for(int i=0;i<256;i++) { if (v[i]!=v[0]) same=false; if (v[i]!=(u64)i) ident=false; }
		if (same) return mkConst(w,v[0]);
		if (ident && w>=8) return zext(var,w);
		return intern(K_TAB,w,var,0,0,(u64)internTab(v),0);
	}
	// ---- floating point (values are bit patterns of width 32, 64 or 80)
	static long double toLD(E e) { return toLD(e->width,e->c0,e->c1); }
	static long double toLD(unsigned w, u64 c0, u64 c1) {
		if (w==64) { double d; memcpy(&d,&c0,8); return d; }
		if (w==32) { float f; u32 x=c0; memcpy(&f,&x,4); return f; }
		long double r=0; memcpy(&r,&c0,8); uint16_t h=c1; memcpy((char*)&r+8,&h,2); return r;
	}
	static void fromLD(unsigned w, long double v, u64 &c0, u64 &c1) {
		c1=0;
		if (w==64) { double d=(double)v; memcpy(&c0,&d,8); }
		else if (w==32) { float f=(float)v; u32 x; memcpy(&x,&f,4); c0=x; }
		else { uint16_t h; memcpy(&c0,&v,8); memcpy(&h,(char*)&v+8,2); c1=h; }
	}
	E mkLD(unsigned w, long double v) { u64 a,b; fromLD(w,v,a,b); return mkConst(w,a,b); }
	static bool fcmpLD(unsigned pred, long double a, long double b) {
		bool un = std::isnan(a)||std::isnan(b);
		// LLVM numbering: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
		if (un) return pred&8;
		if (a==b) return pred&1;
		if (a>b) return pred&2;
		return pred&4;
	}
	static long double arith(Kind k, unsigned w, long double a, long double b) {
		if (w==64) { double x=a,y=b; switch(k){case K_FADD:return x+y;case K_FSUB:return x-y;case K_FMUL:return x*y;case K_FDIV:return x/y;default:return fmod(x,y);} }
		if (w==32) { float x=a,y=b; switch(k){case K_FADD:return x+y;case K_FSUB:return x-y;case K_FMUL:return x*y;case K_FDIV:return x/y;default:return fmodf(x,y);} }
		switch(k){case K_FADD:return a+b;case K_FSUB:return a-b;case K_FMUL:return a*b;case K_FDIV:return a/b;default:return fmodl(a,b);}
	}
	// integer source of an exact int->fp80 conversion
	static bool exactInt(E e, bool &sgn) {
		if ((e->kind==K_SITOFP||e->kind==K_UITOFP) && ((e->width==80 && e->k[0]->width<=64) || (e->width==64 && e->k[0]->width<=32))) { sgn=e->kind==K_SITOFP; return true; }
		return false;
	}
	static bool ldIsInt(E e, s128 &v) {
		if (!isC(e)) return false;
		long double d=toLD(e); if (!(d> -3e37L && d<3e37L) || d!=floorl(d)) return false;
		v=(s128)d; return true;
	}
	E fcmp(unsigned pred, E a, E b) {
		if (pred==0) return False; if (pred==15) return True;
		if (isC(a)&&isC(b)) return fcmpLD(pred,toLD(a),toLD(b))?True:False;
		bool sa,sb; s128 v;
		bool ia=exactInt(a,sa), ib=exactInt(b,sb);
		E x=0,y=0;
		if (ia && ib) { x = sa?sext(a->k[0],66):zext(a->k[0],66); y = sb?sext(b->k[0],66):zext(b->k[0],66); }
		else if (ia && ldIsInt(b,v) && v>-((s128)1<<65) && v<((s128)1<<65)) { x = sa?sext(a->k[0],68):zext(a->k[0],68); y = mkC128(68,(u128)v); }
		else if (ib && ldIsInt(a,v) && v>-((s128)1<<65) && v<((s128)1<<65)) { y = sb?sext(b->k[0],68):zext(b->k[0],68); x = mkC128(68,(u128)v); }
		if (x) {
			pred &= 7;
			switch(pred) {
				case 0: return False; case 7: return True;
				case 1: return eq(x,y); case 6: return not_(eq(x,y));
				case 2: return slt(y,x); case 3: return sle(y,x);
				case 4: return slt(x,y); case 5: return sle(x,y);
			}
		}
		if (a->kind==K_FPEXT && b->kind==K_FPEXT && a->k[0]->width==b->k[0]->width) return fcmp(pred,a->k[0],b->k[0]);
		if (a->kind==K_FPEXT && isC(b)) { unsigned n=a->k[0]->width; E t=mkLD(n,toLD(b)); if (toLD(t)==toLD(b)) return fcmp(pred,a->k[0],t); }
		if (b->kind==K_FPEXT && isC(a)) { unsigned n=b->k[0]->width; E t=mkLD(n,toLD(a)); if (toLD(t)==toLD(a)) return fcmp(pred,t,b->k[0]); }
		return intern(K_FCMP,1,a,b,0,pred,0);
	}
	E farith(Kind k, E a, E b) {
		if (isC(a)&&isC(b)) return mkLD(a->width,arith(k,a->width,toLD(a),toLD(b)));
		return intern(k,a->width,a,b,0,0,0);
	}
	E fpext(E a, unsigned w) {
		if (a->width==w) return a;
		if (isC(a)) return mkLD(w,toLD(a));
		return intern(K_FPEXT,w,a,0,0,0,0);
	}
	E fptrunc(E a, unsigned w) {
		if (a->width==w) return a;
		if (isC(a)) return mkLD(w,toLD(a));
		if (a->kind==K_FPEXT) { if (a->k[0]->width==w) return a->k[0]; if (a->k[0]->width<w) return fpext(a->k[0],w); }
		return intern(K_FPTRUNC,w,a,0,0,0,0);
	}
	E itofp(bool sgn, E a, unsigned w) {
		if (isC(a)) { long double d = sgn ? (long double)scv(a) : (long double)cv(a); if (w==64) d = sgn?(double)scv(a):(double)cv(a); if (w==32) d = sgn?(float)scv(a):(float)cv(a); return mkLD(w,d); }
		if (sgn && a->kind==K_ZEXT) return itofp(false,a->k[0],w);
		if (sgn && a->kind==K_SEXT) return itofp(true,a->k[0],w);
		if (!sgn && a->kind==K_ZEXT) return itofp(false,a->k[0],w);
		return intern(sgn?K_SITOFP:K_UITOFP,w,a,0,0,0,0);
	}
	E fptoi(bool sgn, E a, unsigned w) {
		if (isC(a)) {
			long double d=toLD(a);
			if (std::isnan(d)||std::isinf(d)) return mkConst(w,1ull<<(w-1));
			if (sgn) { if (d>-1e37L&&d<1e37L) return mkC128(w,(u128)(s128)d); }
			else { if (d>-1&&d<1e37L) return mkC128(w,(u128)d); if (d>-1e37L&&d<0) return mkC128(w,(u128)(s128)d); }
			return mkConst(w,1ull<<(w-1));
		}
		bool sa;
		if (exactInt(a,sa)) {
			unsigned n=a->k[0]->width;
			if (n<=w) { return sa?sext(a->k[0],w):zext(a->k[0],w); }
		}
		return intern(sgn?K_FPTOSI:K_FPTOUI,w,a,0,0,0,0);
	}
	E fabs_(E a) {
		if (isC(a)) return mkLD(a->width,fabsl(toLD(a)));
		return intern(K_FABS,a->width,a,0,0,0,0);
	}
	E rebuild(E e, E a, E b, E c) {
		switch(e->kind) {
			case K_ADD: return add(a,b); case K_MUL: return mul(a,b);
			case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: return divrem(e->kind,a,b);
			case K_AND: return and_(a,b); case K_OR: return or_(a,b); case K_XOR: return xor_(a,b);
			case K_SHL: return shl(a,b); case K_LSHR: return lshr(a,b); case K_ASHR: return ashr(a,b);
			case K_NOT: return not_(a); case K_EQ: return eq(a,b); case K_ULT: return ult(a,b); case K_ULE: return ule(a,b);
			case K_SLT: return slt(a,b); case K_SLE: return sle(a,b); case K_ITE: return ite(a,b,c);
			case K_ZEXT: return zext(a,e->width); case K_SEXT: return sext(a,e->width);
			case K_EXTRACT: return extract(a,e->c0,e->width); case K_CONCAT: return concat(a,b);
			case K_TAB: if (isC(a)) return mkConst(e->width,((const Tab*)e->c0)->v[a->c0&255]); return e;
			case K_FCMP: return fcmp(e->c0,a,b);
			case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FREM: return farith(e->kind,a,b);
			case K_FPEXT: return fpext(a,e->width); case K_FPTRUNC: return fptrunc(a,e->width);
			case K_SITOFP: return itofp(true,a,e->width); case K_UITOFP: return itofp(false,a,e->width);
			case K_FPTOSI: return fptoi(true,a,e->width); case K_FPTOUI: return fptoi(false,a,e->width);
			case K_FABS: return fabs_(a);
			default: return e;
		}
	}
	E subst(E e, const std::unordered_map<E,E> &m, std::unordered_map<E,E> &memo) {
		auto it=m.find(e); if (it!=m.end()) return it->second;
		if (e->nk==0) return e;
		auto jt=memo.find(e); if (jt!=memo.end()) return jt->second;
		E k[3]={0,0,0}; bool ch=false;
		for (int i=0;i<e->nk;i++) { k[i]=subst(e->k[i],m,memo); ch|=k[i]!=e->k[i]; }
		E r = ch ? rebuild(e,k[0],k[1],k[2]) : e;
		memo[e]=r; return r;
	}
	// ---- evaluation under an assignment
	struct V { u64 lo, hi; };
	template<class F> V eval(E e, F &&val, std::unordered_map<E,V> &memo) {
		if (e->kind==K_CONST) return V{e->c0,e->c1};
		if (e->kind==K_VAR) return V{val(e->c0)&maskw(e->width),0};
		auto it=memo.find(e); if (it!=memo.end()) return it->second;
		E k[3]={0,0,0};
		if (e->kind==K_ITE) {
			V c=eval(e->k[0],val,memo); V r=eval(c.lo?e->k[1]:e->k[2],val,memo); memo[e]=r; return r;
		}
		for (int i=0;i<e->nk;i++) { V v=eval(e->k[i],val,memo); k[i]=mkConst(e->k[i]->width,v.lo,v.hi); }
		E r;
		if ((e->kind>=K_UDIV&&e->kind<=K_SREM) && isC(k[1],0)) r = mkDivZero(e,k[0]);
		else r=rebuild(e,k[0],k[1],k[2]);
		assert(isC(r));
		V v{r->c0,r->c1}; memo[e]=v; return v;
	}
	E mkDivZero(E e, E a) { // SMT-LIB semantics
		switch(e->kind) { case K_UDIV: return mkC128(e->width,~(u128)0); case K_SDIV: return scv(a)<0?mkConst(e->width,1):mkC128(e->width,~(u128)0); default: return a; }
	}
	// fast evaluation of a <=64 bit wide expression for all values of its single 8-bit variable; false if unsupported
	struct Vec { u64 v[256]; };
	bool evalAll(E e, Vec &out, std::unordered_map<E,Vec*> &memo) {
		if (e->width>64) return false;
		if (e->kind==K_CONST) { for(int i=0;i<256;i++) out.v[i]=e->c0; return true; }
		if (e->kind==K_VAR) { for(int i=0;i<256;i++) out.v[i]=i; return true; }
		auto it=memo.find(e); if (it!=memo.end()) { out=*it->second; return true; }
		if (e->kind>=K_FCMP) return false;
		Vec a,b,c; unsigned w=e->width; u64 m=maskw(w);
		if (e->nk>0 && !evalAll(e->k[0],a,memo)) return false;
		if (e->nk>1 && !evalAll(e->k[1],b,memo)) return false;
		if (e->nk>2 && !evalAll(e->k[2],c,memo)) return false;
		unsigned kw=e->nk?e->k[0]->width:0;
#define L(x) for(int i=0;i<256;i++) { u64 A=a.v[i]; u64 B=b.v[i]; (void)A;(void)B; out.v[i]=(x); } break
		switch(e->kind) {
			case K_ADD: L((A+B)&m); case K_MUL: L((A*B)&m);
			case K_UDIV: L(B?A/B:m); case K_UREM: L(B?A%B:A);
			case K_SDIV: case K_SREM: return false;
			case K_AND: L(A&B); case K_OR: L(A|B); case K_XOR: L(A^B);
			case K_SHL: L(B>=w?0:(A<<B)&m); case K_LSHR: L(B>=w?0:A>>B);
			case K_ASHR: L((u64)(sext64(A,w)>>(B>=w?w-1:B))&m);
			case K_NOT: L(!A); case K_EQ: L(A==B); case K_ULT: L(A<B); case K_ULE: L(A<=B);
			case K_SLT: L(sext64(A,kw)<sext64(B,kw)); case K_SLE: L(sext64(A,kw)<=sext64(B,kw));
			case K_ITE: for(int i=0;i<256;i++) out.v[i]=a.v[i]?b.v[i]:c.v[i]; break;
			case K_ZEXT: L(A); case K_SEXT: L((u64)sext64(A,kw)&m);
			case K_EXTRACT: L((A>>e->c0)&m); case K_CONCAT: { unsigned n=e->k[1]->width; L(A<<n|B); }
			case K_TAB: { const Tab *t=(const Tab*)e->c0; L(t->v[A]); }
			default: return false;
		}
#undef L
		Vec *p=new Vec(out); memo[e]=p;
		return true;
	}
	bool evalUnary(E e, Vec &out) {
		std::unordered_map<E,Vec*> memo;
		bool r=evalAll(e,out,memo);
		for (auto &p:memo) delete p.second;
		return r;
	}
	std::unordered_map<E,Bits256> truthCache;
	bool unaryByte(E e) const { return e->vs->v.size()==1 && vars[e->vs->v[0]].width==8; }
	bool truth(E e, Bits256 &t) {
		auto it=truthCache.find(e); if (it!=truthCache.end()) { t=it->second; return true; }
		Vec v; if (!evalUnary(e,v)) return false;
		t=Bits256(); for(int i=0;i<256;i++) if (v.v[i]) t.set(i);
		truthCache[e]=t; return true;
	}
	void print(E e, std::string &s, int depth=0) {
		static const char *n[]={"const","var","add","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","not","eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","tab","fcmp","fadd","fsub","fmul","fdiv","frem","fpext","fptrunc","sitofp","uitofp","fptosi","fptoui","fabs"};
		if (s.size()>4000) { s+="..."; return; }
		if (e->kind==K_CONST) { char b[64]; snprintf(b,64,"%llu:%u",(unsigned long long)e->c0,e->width); s+=b; return; }
		if (e->kind==K_VAR) { s+=vars[e->c0].name; return; }
		s+="("; s+=n[e->kind]; if (e->kind==K_EXTRACT||e->kind==K_FCMP) s+=std::to_string(e->c0); s+=":"+std::to_string(e->width);
		for(int i=0;i<e->nk;i++) { s+=" "; print(e->k[i],s,depth+1); } s+=")";
	}
	std::string str(E e) { std::string s; print(e,s); return s; }
};
extern Ctx X;
