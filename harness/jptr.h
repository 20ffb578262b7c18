// JSON Pointer (RFC 6901) and JSON Patch (RFC 6902) on reference trees.
#ifndef JPTR_H
#define JPTR_H
#include "model.h"
typedef std::vector<std::string> Toks;
static inline bool dig_(char c) { return c>='0' && c<='9'; }
// pointer text to unescaped tokens; false when it is not a pointer.  A '~' not followed by 0 or 1 is outside the property.
static bool split(const std::string &p, Toks &t) {
	if (p.empty()) return true;
	if (p[0]!='/') return false;
	for (size_t i=0;i<p.size();) {
		std::string s; ++i;
		while (i<p.size() && p[i]!='/') {
			if (p[i]=='~') { vp_assume(i+1<p.size() && (p[i+1]=='0' || p[i+1]=='1')); s+=p[i+1]=='0'?'~':'/'; i+=2; }
			else s+=p[i++];
		}
		t.push_back(s);
	}
	return true;
}
// array index; -1 when the token is none
static long index_(const std::string &s) {
	if (s.empty() || (s[0]=='0' && s.size()>1)) return -1;
	long x=0; for (size_t i=0;i<s.size();i++) { if (!dig_(s[i])) return -1; if (x<1000000000000000L) x=x*10+(s[i]-'0'); }
	return x;
}
static M *child(M *m, const std::string &t) {
	if (m->t==M::O) { for (std::map<std::string,M>::iterator i=m->o.begin();i!=m->o.end();++i) if (eqs(i->first,t)) return &i->second; return 0; }
	if (m->t==M::L) { long x=index_(t); return x>=0 && x<(long)m->l.size() ? &m->l[x] : 0; }
	return 0;
}
static M *walk(M *m, const Toks &t, size_t n) { for (size_t i=0;i<n && m;i++) m=child(m,t[i]); return m; }
static bool add(M &d, const Toks &t, const M &v) {
	if (t.empty()) { M c(v); d=c; return true; }
	M *p=walk(&d,t,t.size()-1); if (!p) return false; const std::string &k=t.back();
	if (p->t==M::O) { M *c=child(p,k); if (c) *c=v; else p->o[k]=v; return true; }
	if (p->t!=M::L) return false;
	long x=eqs(k,"-")?(long)p->l.size():index_(k); if (x<0 || x>(long)p->l.size()) return false;
	std::vector<M> n; for (size_t i=0;i<=p->l.size();i++) { if ((long)i==x) n.push_back(v); if (i<p->l.size()) n.push_back(p->l[i]); } p->l=n; return true;
}
static bool remove_(M &d, const Toks &t) {
	if (t.empty()) { d=M(); return true; }
	M *p=walk(&d,t,t.size()-1); if (!p) return false; M *c=child(p,t.back()); if (!c) return false;
	if (p->t==M::L) { std::vector<M> n; for (size_t i=0;i<p->l.size();i++) if (&p->l[i]!=c) n.push_back(p->l[i]); p->l=n; return true; }
	std::map<std::string,M> n; for (std::map<std::string,M>::iterator i=p->o.begin();i!=p->o.end();++i) if (&i->second!=c) n[i->first]=i->second; p->o=n; return true;
}
enum { ADD, REMOVE, REPLACE, MOVE, COPY, TEST };
// the effect of one operation; on failure d is unchanged.  Moving a value into itself is outside the property.
static bool apply(M &d, unsigned op, const std::string &path, const std::string &from, const M &v) {
	Toks t, f; bool ok=split(path,t); if (op==MOVE||op==COPY) ok=split(from,f)&&ok; if (!ok) return false;
	switch (op) {
	case ADD: return add(d,t,v);
	case REMOVE: return remove_(d,t);
	case REPLACE: { M *c=walk(&d,t,t.size()); if (!c) return false; M n(v); *c=n; return true; }
	case TEST: { M *c=walk(&d,t,t.size()); return c && same(*c,v); }
	case COPY: { M *c=walk(&d,f,f.size()); if (!c) return false; M n(*c); return add(d,t,n); }
	default: { bool prefix=f.size()<t.size(); for (size_t i=0;prefix && i<f.size();i++) prefix=eqs(f[i],t[i]); vp_assume(!prefix);
		M *c=walk(&d,f,f.size()); if (!c) return false; M n(*c), w(d); if (!remove_(w,f) || !add(w,t,n)) return false; d=w; return true; }
	}
}
#endif
