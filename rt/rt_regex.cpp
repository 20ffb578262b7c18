// POSIX extended regular expressions (regcomp/regexec) as a backtracking matcher.  Pattern concrete, text may be symbolic.
#include "vp.h"
#include <regex.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;
enum Op { CHAR, SET, ANY, BOL, EOL, GROUP, ALT, CAT, REP, EMPTY };
struct Node { Op op; u8 set[256]; u8 c; int a, b; int min, max; int grp; };
struct Prog { Node *n; int cnt, cap, ngrp, root; bool icase, newline; };
struct P { Prog *g; const char *s; int err; int depth; };
static int add(P &p, Op op) { Prog *g=p.g; if (g->cnt==g->cap) { int c=g->cap*2+16; Node *m=(Node*)malloc(c*sizeof(Node)); memcpy(m,g->n,g->cnt*sizeof(Node)); free(g->n); g->n=m; g->cap=c; } Node &n=g->n[g->cnt]; memset(&n,0,sizeof n); n.op=op; n.a=n.b=-1; return g->cnt++; }
static int alt(P &p);
static bool cls(const char *name, int len, u8 *set) {
	struct { const char *n; int (*f)(int); } static const T[]={};
	(void)T;
	#define C(nm,cond) if (len==(int)sizeof(nm)-1 && !memcmp(name,nm,len)) { for (int c=0;c<128;c++) if (cond) set[c]=1; return true; }
	C("space",c==' '||(c>=9&&c<=13)) C("digit",c>='0'&&c<='9') C("alpha",(c>='a'&&c<='z')||(c>='A'&&c<='Z')) C("alnum",(c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9'))
	C("xdigit",(c>='a'&&c<='f')||(c>='A'&&c<='F')||(c>='0'&&c<='9')) C("upper",c>='A'&&c<='Z') C("lower",c>='a'&&c<='z') C("blank",c==' '||c=='\t') C("punct",c>32&&c<127&&!((c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9'))) C("print",c>=32&&c<127) C("graph",c>32&&c<127) C("cntrl",c<32||c==127)
	return false;
}
static int bracket(P &p) {
	int k=add(p,SET); u8 set[256]; memset(set,0,sizeof set); bool neg=false; if (*p.s=='^') { neg=true; p.s++; }
	bool first=true;
	while (true) {
		if (!*p.s) { p.err=REG_EBRACK; return k; }
		if (*p.s==']' && !first) { p.s++; break; }
		first=false;
		if (p.s[0]=='[' && p.s[1]==':') { const char *e=strstr(p.s+2,":]"); if (!e) { p.err=REG_EBRACK; return k; } if (!cls(p.s+2,(int)(e-p.s-2),set)) { p.err=REG_ECTYPE; return k; } p.s=e+2; continue; }
		if (p.s[0]=='[' && (p.s[1]=='.'||p.s[1]=='=')) { vp_error("regex collating element outside the model"); }
		u8 a=(u8)*p.s++, b=a; if (p.s[0]=='-' && p.s[1] && p.s[1]!=']') { b=(u8)p.s[1]; p.s+=2; if (b<a) { p.err=REG_ERANGE; return k; } }
		for (int c=a;c<=b;c++) set[c]=1;
	}
	if (neg) for (int c=0;c<256;c++) set[c]=!set[c];
	set[0]=0; memcpy(p.g->n[k].set,set,256); return k;
}
static int atom(P &p) {
	char c=*p.s;
	if (c=='(') { p.s++; int g=++p.g->ngrp; int k=add(p,GROUP); p.g->n[k].grp=g; p.depth++; int x=alt(p); p.depth--; if (p.err) return k; if (*p.s!=')') { p.err=REG_EPAREN; return k; } p.s++; p.g->n[k].a=x; return k; }
	if (c=='[') { p.s++; return bracket(p); }
	if (c=='.') { p.s++; return add(p,ANY); }
	if (c=='^') { p.s++; return add(p,BOL); }
	if (c=='$') { p.s++; return add(p,EOL); }
	if (c=='\\') { p.s++; if (!*p.s) { p.err=REG_EESCAPE; return 0; } c=*p.s++; 
		if (c=='w'||c=='W'||c=='s'||c=='S') { int k=add(p,SET); u8 *t=p.g->n[k].set; if ((c|32)=='w') { cls("alnum",5,t); t['_']=1; } else cls("space",5,t); if (c=='W'||c=='S') { for (int i=1;i<256;i++) t[i]=!t[i]; } return k; }
		if ((c>='1'&&c<='9')||c=='b'||c=='B'||c=='<'||c=='>'||c=='`'||c=='\'') vp_error("regex escape outside the model");
		int k=add(p,CHAR); p.g->n[k].c=(u8)c; return k; }
	if (c=='*'||c=='+'||c=='?') { p.err=REG_BADRPT; return 0; }
	if (c=='{') { p.err=REG_BADRPT; return 0; }
	p.s++; int k=add(p,CHAR); p.g->n[k].c=(u8)c; return k;
}
static int rep(P &p) {
	int a=atom(p); if (p.err) return a;
	while (true) {
		int mn,mx; char c=*p.s;
		if (c=='*') { mn=0; mx=-1; p.s++; } else if (c=='+') { mn=1; mx=-1; p.s++; } else if (c=='?') { mn=0; mx=1; p.s++; }
		else if (c=='{') { const char *q=p.s+1; if (!(*q>='0'&&*q<='9')&&*q!=',') { p.err=REG_BADBR; return a; } mn=0; while (*q>='0'&&*q<='9') mn=mn*10+(*q++-'0'); mx=mn; if (*q==',') { q++; if (*q=='}') mx=-1; else { mx=0; while (*q>='0'&&*q<='9') mx=mx*10+(*q++-'0'); } } if (*q!='}') { p.err=*q?REG_BADBR:REG_EBRACE; return a; } if ((mx>=0&&mx<mn)||mx>255||mn>255) { p.err=REG_BADBR; return a; } p.s=q+1; }
		else break;
		int k=add(p,REP); p.g->n[k].a=a; p.g->n[k].min=mn; p.g->n[k].max=mx; a=k;
	}
	return a;
}
static int cat(P &p) {
	int l=-1; while (*p.s && *p.s!='|' && !(*p.s==')' && p.depth)) { int r=rep(p); if (p.err) return r; if (l<0) l=r; else { int k=add(p,CAT); p.g->n[k].a=l; p.g->n[k].b=r; l=k; } }
	if (l<0) l=add(p,EMPTY); return l;
}
static int alt(P &p) { int l=cat(p); while (!p.err && *p.s=='|') { p.s++; int r=cat(p); int k=add(p,ALT); p.g->n[k].a=l; p.g->n[k].b=r; l=k; } return l; }

// ---- matcher: continuation list on the stack
struct Cont { int node; int count; int from; const Cont *next; int closeGrp; int oldS, oldE; };
struct Mt { Prog *g; const char *t; int flags; int so[32], eo[32]; };
static bool run(Mt &m, int node, int pos, const Cont *k);
static bool cont(Mt &m, int pos, const Cont *k) {
	if (!k) { m.eo[0]=pos; return true; }
	if (k->closeGrp) { int g=k->closeGrp; int os=m.so[g],oe=m.eo[g]; m.so[g]=k->from; m.eo[g]=pos; if (cont(m,pos,k->next)) return true; m.so[g]=os; m.eo[g]=oe; return false; }
	if (k->count>=0) { // repetition: one more iteration was matched
		if (pos==k->from) return cont(m,pos,k->next);   // empty iteration: stop
		Node &n=m.g->n[k->node]; int c=k->count+1;
		if (n.max<0||c<n.max) { Cont again={k->node,c,pos,k->next,0,0,0}; if (run(m,n.a,pos,&again)) return true; }
		if (c>=n.min) return cont(m,pos,k->next); return false;
	}
	return run(m,k->node,pos,k->next);
}
static u8 foldc(u8 c) { return c>='A'&&c<='Z'?c+32:c; }
static bool run(Mt &m, int node, int pos, const Cont *k) {
	Node &n=m.g->n[node]; u8 c=(u8)m.t[pos];
	switch (n.op) {
		case CHAR: if (m.g->icase ? foldc(c)!=foldc(n.c) : c!=n.c) return false; return cont(m,pos+1,k);
		case SET: if (!n.set[c]) return false; return cont(m,pos+1,k);
		case ANY: if (!c) return false; return cont(m,pos+1,k);
		case BOL: if (pos!=0) return false; return cont(m,pos,k);
		case EOL: if (c) return false; return cont(m,pos,k);
		case EMPTY: return cont(m,pos,k);
		case GROUP: { Cont g={-1,-1,pos,k,n.grp,0,0}; return run(m,n.a,pos,&g); }
		case CAT: { Cont r={n.b,-1,0,k,0,0,0}; return run(m,n.a,pos,&r); }
		case ALT: if (run(m,n.a,pos,k)) return true; return run(m,n.b,pos,k);
		case REP: if (n.max!=0) { Cont again={node,0,pos,k,0,0,0}; if (run(m,n.a,pos,&again)) return true; } if (n.min==0) return cont(m,pos,k); return false;
	}
	return false;
}
extern "C" {
int regcomp(regex_t *r, const char *pat, int fl) {
	vp_stub("regcomp/regexec: POSIX ERE backtracking model");
	if (!(fl&REG_EXTENDED)) vp_error("basic regular expressions are outside the model");
	Prog *g=(Prog*)malloc(sizeof(Prog)); g->n=0; g->cnt=g->cap=g->ngrp=0; g->icase=fl&REG_ICASE; g->newline=false; P p={g,pat,0,0}; g->root=alt(p);
	if (!p.err && *p.s) p.err=REG_EPAREN;
	if (p.err) { free(g->n); free(g); return p.err; }
	memset(r,0,sizeof *r); r->re_nsub=g->ngrp; *(void**)r=g; return 0;
}
int regexec(const regex_t *r, const char *t, size_t nm, regmatch_t pm[], int) {
	Prog *g=*(Prog**)r; Mt m; m.g=g; m.t=t; m.flags=0; if (g->ngrp>=31) vp_error("too many regex groups");
	for (int s=0;;s++) {
		for (int i=0;i<=g->ngrp;i++) m.so[i]=m.eo[i]=-1;
		if (run(m,g->root,s,0)) { m.so[0]=s; for (size_t i=0;i<nm;i++) { if ((int)i<=g->ngrp) { pm[i].rm_so=m.so[i]; pm[i].rm_eo=m.eo[i]; } else pm[i].rm_so=pm[i].rm_eo=-1; } return 0; }
		if (!t[s]) return REG_NOMATCH;
		if (g->n[g->root].op==BOL) return REG_NOMATCH;
	}
}
void regfree(regex_t *r) { Prog *g=*(Prog**)r; if (g) { free(g->n); free(g); *(void**)r=0; } }
size_t regerror(int, const regex_t*, char *b, size_t n) { static const char m[]="regular expression error"; if (n) { size_t k=sizeof m<n?sizeof m:n; memcpy(b,m,k); b[k-1]=0; } return sizeof m; }
}
