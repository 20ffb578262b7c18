// The documented plain scalar patterns.
#ifndef SCAL_H
#define SCAL_H
#include "model.h"
static bool blank(char c) { return c==' '||(c>='\t'&&c<='\r'); }
static bool dig(char c) { return c>='0'&&c<='9'; }
// which kind the documented patterns give: n null, t true, f false, i decimal, o octal, x hex, d float, I +inf, J -inf, N nan, s string
static char kind(const std::string &s) {
	size_t n=s.size(); const char *p=s.data();
	if (s=="null"||s=="Null"||s=="NULL"||s=="~") return 'n';
	if (s=="true"||s=="True"||s=="TRUE") return 't';
	if (s=="false"||s=="False"||s=="FALSE") return 'f';
	if (s==".inf"||s=="+.inf"||s==".Inf"||s==".INF") return 'I';
	if (s=="-.inf") return 'J';
	if (s==".nan"||s==".Nan"||s==".NAN") return 'N';
	if (n>2 && p[0]=='0' && p[1]=='o') { for (size_t i=2;i<n;i++) if (!(p[i]>='0'&&p[i]<='7')) return 's'; return 'o'; }
	if (n>2 && p[0]=='0' && p[1]=='x') { for (size_t i=2;i<n;i++) if (!(dig(p[i])||(p[i]>='a'&&p[i]<='f')||(p[i]>='A'&&p[i]<='F'))) return 's'; return 'x'; }
	size_t i=0; if (i<n && (p[i]=='-'||p[i]=='+')) i++;
	size_t d=i; while (i<n && dig(p[i])) i++; bool whole=i>d; if (whole && i==n) return 'i';
	if (i<n && p[i]=='.') { size_t f=++i; while (i<n && dig(p[i])) i++; if (!whole && i==f) return 's'; } else if (!whole) return 's';
	if (i<n && (p[i]=='e'||p[i]=='E')) { i++; if (i<n && (p[i]=='-'||p[i]=='+')) i++; size_t e=i; while (i<n && dig(p[i])) i++; if (i==e) return 's'; }
	return i==n?'d':'s';
}
#endif
