// Model of getopt_long for symbolic execution, following the GNU library: permuting order, unique prefixes of long options,
// clusters of short options.  Natively the real one is used.
#ifndef GOPT_H
#define GOPT_H
#include <getopt.h>
#include <string.h>
#ifdef VP_ENGINE
extern "C" { char *optarg; int optind=1, opterr=1, optopt='?'; }
static int goFirst, goLast; static char *goNext; static bool goInit;
static void goExchange(char **a) { // moves the non-options [goFirst,goLast) behind [goLast,optind)
	for (int i=goLast;i<optind;i++) { char *t=a[i]; int to=goFirst+(i-goLast); for (int k=i;k>to;k--) a[k]=a[k-1]; a[to]=t; }
	goFirst+=optind-goLast; goLast=optind;
}
static bool goOption(const char *s) { return s[0]=='-' && s[1]!=0; }
extern "C" int getopt_long(int argc, char *const *argv, const char *sh, const struct option *lo, int *ind) noexcept {
	char **a=(char**)argv; if (argc<1) return -1; optarg=0;
	if (optind==0 || !goInit) { if (optind==0) optind=1; goFirst=goLast=optind; goNext=0; goInit=true; }
	if (!goNext || !*goNext) {
		if (goLast>optind) goLast=optind; if (goFirst>optind) goFirst=optind;
		if (goFirst!=goLast && goLast!=optind) goExchange(a); else if (goLast!=optind) goFirst=optind;
		while (optind<argc && !goOption(a[optind])) optind++;
		goLast=optind;
		if (optind!=argc && !strcmp(a[optind],"--")) { optind++; if (goFirst!=goLast && goLast!=optind) goExchange(a); else if (goFirst==goLast) goFirst=optind; goLast=argc; optind=argc; }
		if (optind==argc) { if (goFirst!=goLast) optind=goFirst; return -1; }
		if (a[optind][1]=='-') {
			char *n=a[optind]+2; size_t len=0; while (n[len] && n[len]!='=') len++;
			const struct option *found=0; bool amb=false;
			for (const struct option *p=lo;p->name;p++) if (!strncmp(p->name,n,len) && strlen(p->name)==len) { found=p; break; }
			if (!found) for (const struct option *p=lo;p->name;p++) if (!strncmp(p->name,n,len)) { if (!found) found=p; else if (found->has_arg!=p->has_arg || found->flag!=p->flag || found->val!=p->val) amb=true; }
			goNext=0; optind++;
			if (!found || amb) { optopt=0; return '?'; }
			if (n[len]) { if (found->has_arg) optarg=n+len+1; else { optopt=found->val; return '?'; } }
			else if (found->has_arg==1) { if (optind<argc) optarg=a[optind++]; else { optopt=found->val; return sh[0]==':'?':':'?'; } }
			if (ind) *ind=found-lo; if (found->flag) { *found->flag=found->val; return 0; } return found->val;
		}
		goNext=a[optind]+1;
	}
	char c=*goNext++; const char *t=0; for (const char *p=sh;*p && !t;p++) if (*p==c) t=p;
	if (!*goNext) optind++;
	if (!t || c==':' || c==';') { optopt=c; return '?'; }
	if (t[1]==':') {
		if (t[2]==':') { optarg=*goNext?goNext:0; if (*goNext) optind++; goNext=0; }
		else { if (*goNext) { optarg=goNext; optind++; } else if (optind==argc) { optopt=c; c=sh[0]==':'?':':'?'; } else optarg=a[optind++]; goNext=0; }
	}
	return c;
}
#endif
#endif
