// URI splitting and reference resolution by RFC 3986, on plain strings.
#ifndef URI_H
#define URI_H
#include "vh.h"
static bool sp(char c) { return c==' ' || (c>=9 && c<=13); }
static bool eq(const std::string &a, const std::string &b) { if (a.size()!=b.size()) return false; unsigned d=0; for (size_t i=0;i<a.size();i++) d|=(unsigned char)(a[i]^b[i]); return d==0; }
struct Uri { std::string proto, auth, path, search, hash; std::string all() const { return proto+auth+path+search+hash; } };
// RFC 3986 appendix B, each part with its delimiter
static Uri split(const std::string &s) {
	Uri u; size_t i=0, n=s.size(), j=0; while (j<n && s[j]!=':' && s[j]!='/' && s[j]!='?' && s[j]!='#') ++j;
	if (j<n && j>0 && s[j]==':') { for (size_t k=0;k<j;k++) vp_assume(s[k]!=92); u.proto=s.substr(0,j+1); i=j+1; } // no scheme has a backslash
	if (i+1<n && s[i]=='/' && s[i+1]=='/') { j=i+2; while (j<n && s[j]!='/' && s[j]!='?' && s[j]!='#') ++j; u.auth=s.substr(i,j-i); i=j; }
	j=i; while (j<n && s[j]!='?' && s[j]!='#') ++j; u.path=s.substr(i,j-i); i=j;
	if (i<n && s[i]=='?') { while (j<n && s[j]!='#') ++j; u.search=s.substr(i,j-i); i=j; }
	u.hash=s.substr(i); return u;
}
// authority of the form //user:password@host:port, each part optional
static bool authok(const std::string &a) {
	if (a.empty()) return true;
	size_t i=2, n=a.size(), at=i; unsigned col=0; while (at<n && a[at]!='@') ++at;
	if (at<n) { for (size_t k=i;k<at;k++) col+=a[k]==':'; if (col>1) return false; i=at+1; }
	while (i<n && a[i]!=':') { if (a[i]=='@') return false; ++i; }
	for (++i;i<n;i++) if (a[i]<'0' || a[i]>'9') return false;
	return true;
}
// RFC 3986 5.2.4 for a path starting with '/'; false when ".." climbs above the root (the library keeps such segments on purpose)
static bool dots(std::string in, std::string &out) {
	out.clear(); std::vector<std::string> seg; size_t i=0, n=in.size(); bool dir=false;
	while (i<n) { size_t j=i+1; while (j<n && in[j]!='/') ++j; std::string s=in.substr(i+1,j-i-1); i=j; dir=false;
		if (eq(s,".")) dir=true; else if (eq(s,"..")) { dir=true; if (seg.empty()) return false; seg.pop_back(); } else seg.push_back(s); }
	for (size_t k=0;k<seg.size();k++) out+="/"+seg[k];
	if (dir) out+="/";
	return true;
}
static bool norm(const std::string &p, std::string &o) { if (p.empty()) { o=p; return true; } vp_assume(p[0]=='/'); return dots(p,o); }
// 5.2.2; paths that are resolved are absolute in the cases below
static bool resolve(const Uri &b, const Uri &r, std::string &o) {
	Uri t; t.hash=r.hash;
	if (!r.proto.empty() || !r.auth.empty()) { t.proto=r.proto.empty()?b.proto:r.proto; t.auth=r.auth; t.search=r.search; if (!norm(r.path,t.path)) return false; }
	else { t.proto=b.proto; t.auth=b.auth; t.search=r.search;
		if (r.path.empty()) { if (!norm(b.path,t.path)) return false; if (r.search.empty()) t.search=b.search; }
		else if (r.path[0]=='/') { if (!dots(r.path,t.path)) return false; }
		else { std::string m; if (b.path.empty()) { vp_assume(!b.auth.empty()); m="/"+r.path; } else { vp_assume(b.path[0]=='/'); size_t k=b.path.size(); while (b.path[k-1]!='/') --k; m=b.path.substr(0,k)+r.path; } if (!dots(m,t.path)) return false; } }
	o=t.all(); return true;
}
#endif
