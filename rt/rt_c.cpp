// libc functions used by the library, written for symbolic execution ("C" locale).
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <stdarg.h>
#include <locale.h>
#include <limits.h>
#undef isspace
#undef isblank
#undef isprint
#undef isdigit
#undef tolower
typedef unsigned char u8; typedef unsigned long long u64; typedef unsigned __int128 u128;
static int errno_v=0;
static bool dig(u8 c) { return (u8)(c-'0')<=9; }
static bool spc(u8 c) { return c==' '||(u8)(c-9)<=4; }
extern "C" {
int *__errno_location() { return &errno_v; }
size_t strlen(const char *s) { size_t n=0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n=0; while (n<m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a==*b) { a++; b++; } return (int)(u8)*a-(int)(u8)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a==*b) { a++; b++; n--; } return n?(int)(u8)*a-(int)(u8)*b:0; }
static const u8 LOW[256]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255};
static u8 low(u8 c) { return LOW[c]; }
int strcasecmp(const char *a, const char *b) { while (true) { u8 x=low(*a), y=low(*b); if (x!=y) return (int)x-(int)y; if (!x) return 0; a++; b++; } }
int strncasecmp(const char *a, const char *b, size_t n) { while (n--) { u8 x=low(*a), y=low(*b); if (x!=y) return (int)x-(int)y; if (!x) return 0; a++; b++; } return 0; }
char *strcpy(char *d, const char *s) { char *r=d; while ((*d++=*s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i=0; for (;i<n&&s[i];i++) d[i]=s[i]; for (;i<n;i++) d[i]=0; return d; }
char *strcat(char *d, const char *s) { strcpy(d+strlen(d),s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *r=d; d+=strlen(d); while (n-- && *s) *d++=*s++; *d=0; return r; }
char *stpcpy(char *d, const char *s) { while ((*d=*s)) { d++; s++; } return d; }
void *mempcpy(void *d, const void *s, size_t n) { memcpy(d,s,n); return (char*)d+n; }
char *strndup(const char *s, size_t m) { size_t n=strnlen(s,m); char *p=(char*)malloc(n+1); if (p) { memcpy(p,s,n); p[n]=0; } return p; }
char *strdup(const char *s) { size_t n=strlen(s)+1; char *p=(char*)malloc(n); if (p) memcpy(p,s,n); return p; }
#undef strchr
#undef strrchr
#undef strstr
#undef memchr
#undef strpbrk
}
// a symbolic byte looked up in n known bytes: one expression for the place, no path per place
static bool placed(const u8 *p, u8 c, size_t n, void *&r) {
	if (n>80 || !vp_is_symbolic(c)) return false;
	for (size_t i=0;i<n;i++) if (vp_is_symbolic(p[i])) return false;
	u64 at=0; for (size_t i=n;i-->0;) at=vp_ite(p[i]==c,(u64)(p+i),at);
	r=(void*)at; return true;
}
static size_t plainLen(const char *s) { size_t n=0; for (;n<80;n++) { if (vp_is_symbolic((u8)s[n])) return 81; if (!s[n]) return n+1; } return 81; }
extern "C" char *vp_strchr(const char *s, int c) __asm__("strchr");
extern "C" char *vp_strchr(const char *s, int c) { void *r; if (vp_is_symbolic((u8)c) && placed((const u8*)s,(u8)c,plainLen(s),r)) return (char*)r; while (true) { if (*s==(char)c) return (char*)s; if (!*s) return 0; s++; } }
extern "C" char *vp_strrchr(const char *s, int c) __asm__("strrchr");
extern "C" char *vp_strrchr(const char *s, int c) { char *r=0; while (true) { if (*s==(char)c) r=(char*)s; if (!*s) return r; s++; } }
extern "C" void *vp_memchr(const void *s, int c, size_t n) __asm__("memchr");
extern "C" void *vp_memchr(const void *s, int c, size_t n) { const u8 *p=(const u8*)s; void *r; if (placed(p,(u8)c,n,r)) return r; for (size_t i=0;i<n;i++) if (p[i]==(u8)c) return (void*)(p+i); return 0; }
extern "C" char *vp_strstr(const char *h, const char *n) __asm__("strstr");
extern "C" char *vp_strstr(const char *h, const char *n) { size_t l=strlen(n); for (;;h++) { if (!strncmp(h,n,l)) return (char*)h; if (!*h) return 0; } }
extern "C" char *vp_strpbrk(const char *s, const char *a) __asm__("strpbrk");
static bool among(const char *a, char c) { u64 m=0; for (;*a;a++) m|=(u64)(*a==c); return m!=0; }
extern "C" char *vp_strpbrk(const char *s, const char *a) { for (;*s;s++) if (among(a,*s)) return (char*)s; return 0; }
extern "C" void *vp_memrchr(const void *s, int c, size_t n) __asm__("memrchr");
extern "C" void *vp_memrchr(const void *s, int c, size_t n) { const u8 *p=(const u8*)s; while (n--) if (p[n]==(u8)c) return (void*)(p+n); return 0; }
extern "C" void *vp_memmem(const void *h, size_t n, const void *w, size_t m) __asm__("memmem");
extern "C" void *vp_memmem(const void *h, size_t n, const void *w, size_t m) { const u8 *p=(const u8*)h; for (size_t i=0;i+m<=n;i++) if (!memcmp(p+i,w,m)) return (void*)(p+i); return 0; }
extern "C" {
size_t strspn(const char *s, const char *a) { size_t n=0; while (s[n] && among(a,s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n=0; while (s[n] && !among(a,s[n])) n++; return n; }
char *strtok_r(char *s, const char *d, char **save) {
	if (!s) s=*save; if (!*s) { *save=s; return 0; }
	s+=strspn(s,d); if (!*s) { *save=s; return 0; }
	char *e=s+strcspn(s,d); if (!*e) { *save=e; return s; } *e=0; *save=e+1; return s;
}
void *realloc(void *p, size_t n) { if (!p) return malloc(n); size_t o=vp_heap_size(p); void *q=malloc(n); if (!q) return 0; memcpy(q,p,o<n?o:n); free(p); return q; }
void *calloc(size_t a, size_t b) { if (b && a>((size_t)1<<40)/b) return 0; return vp_calloc1(a*b); }
int posix_memalign(void **r, size_t, size_t n) { void *p=malloc(n); if (!p) return ENOMEM; *r=p; return 0; }
int isspace(int c) { return c>=0 && c<256 && spc((u8)c); }
int isblank(int c) { return c==' '||c=='\t'; }
int isprint(int c) { return c>=32 && c<127; }
int isdigit(int c) { return c>='0'&&c<='9'; }
int isalpha(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int isalnum(int c) { return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9'); }
int isgraph(int c) { return c>32 && c<127; }
int isxdigit(int c) { return (c>='a'&&c<='f')||(c>='A'&&c<='F')||(c>='0'&&c<='9'); }
int isupper(int c) { return c>='A'&&c<='Z'; }
int islower(int c) { return c>='a'&&c<='z'; }
int ispunct(int c) { return isprint(c)&&c!=' '&&!isalnum(c); }
int iscntrl(int c) { return (c>=0&&c<32)||c==127; }
int tolower(int c) { return c>=0&&c<256?(int)LOW[c]:c; }
int toupper(int c) { return c>='a'&&c<='z'?c-32:c; }
static unsigned short ctab[384]; static const unsigned short *ctabp=0;
const unsigned short **__ctype_b_loc() {
	if (!ctabp) { for (int c=0;c<256;c++) { unsigned short v=0; if (isupper(c)) v|=1<<8; if (islower(c)) v|=1<<9; if (isalpha(c)) v|=1<<10; if (isdigit(c)) v|=1<<11; if (isxdigit(c)) v|=1<<12; if (isspace(c)) v|=1<<13; if (isprint(c)) v|=1<<14; if (isprint(c)&&c!=' ') v|=1<<15; if (isblank(c)) v|=1; if (iscntrl(c)) v|=2; if (ispunct(c)) v|=4; if (isalnum(c)) v|=8; ctab[c+128]=v; } ctabp=ctab+128; }
	return &ctabp;
}
static int ltab[384]; static const int *ltabp=0;
static int utab[384]; static const int *utabp=0;
const int **__ctype_toupper_loc() { if (!utabp) { for (int c=-128;c<256;c++) utab[c+128]=(c>='a'&&c<='z')?c-32:c; utabp=utab+128; } return &utabp; }
const int **__ctype_tolower_loc() { if (!ltabp) { for (int c=-128;c<256;c++) ltab[c+128]=(c>='A'&&c<='Z')?c+32:c; ltabp=ltab+128; } return &ltabp; }

// ---------------------------------------------------------------- integers as text
// v rendered in decimal.  A symbolic v is represented by fresh digits d with v == sum d*10^i, split by digit count.
static const u64 P10[20]={1ull,10ull,100ull,1000ull,10000ull,100000ull,1000000ull,10000000ull,100000000ull,1000000000ull,10000000000ull,100000000000ull,1000000000000ull,10000000000000ull,100000000000000ull,1000000000000000ull,10000000000000000ull,100000000000000000ull,1000000000000000000ull,10000000000000000000ull};
extern "C" { __attribute__((weak)) int vp_opaque_numbers=0; } // set by harnesses whose property does not depend on the text of numbers in messages
int vp_fmt_u64(char *b, u64 v) {
	if (vp_opaque_numbers && vp_is_symbolic(v)) { vp_stub("text of symbolic numbers in messages: a fixed digit"); b[0]='0'; return 1; }
	v=vp_split(v); if (!vp_is_symbolic(v)) { char t[24]; int n=0; do { t[n++]='0'+(char)(v%10); v/=10; } while (v); for (int i=0;i<n;i++) b[i]=t[n-1-i]; return n; }
	int n=1; while (n<20 && v>=P10[n]) n++;
	if (vp_unary(v)) { for (int i=0;i<n;i++) b[i]=(char)('0'+(u8)(v/P10[n-1-i]%10)); return n; } // decided by one input byte
	u64 h=0; u128 hh=0;
	for (int i=0;i<n;i++) {
		u8 d=vp_hidden_u8(); vp_assume(d<=9); if (i==0 && n>1) vp_assume(d>=1);
		b[i]=(char)('0'+d); u8 x=(u8)(b[i]-'0'); h=h*10+x; if (n>=19) hh=hh*10+x;
	}
	vp_assume(v==h); if (n>=19) vp_assume((u128)v==hh);
	return n;
}
extern "C" unsigned vp_len_u64(unsigned long v) { if (vp_opaque_numbers && vp_is_symbolic(v)) return 1; v=vp_split(v); unsigned n=1; while (n<20 && v>=P10[n]) n++; return n; }
extern "C" void vp_put_u64(char *b, unsigned n, unsigned long v) { char t[24]; int k=vp_fmt_u64(t,v); for (unsigned i=0;i<n;i++) b[i]=i<(unsigned)k?t[i]:'0'; }
int vp_fmt_base(char *b, u64 v, int base, int up) {
	const char *D=up?"0123456789ABCDEF":"0123456789abcdef"; int sh=base==16?4:3; int n=1; while (n*sh<64 && (v>>(n*sh))) n++;
	for (int i=0;i<n;i++) b[i]=D[(v>>((n-1-i)*sh))&(base-1)]; return n;
}
// digits at [p,e): value in *v, returns digits consumed; *over set when the value exceeds 2^64-1
static int decDigits(const char *p, const char *e, u64 *v, int *over) {
	int n=0; while (p+n<e && dig(p[n])) n++;
	u64 h=0; int o=0;
	for (int i=0;i<n;i++) { u8 x=(u8)(p[i]-'0'); h=h*10+x; }
	if (n>=19) { u128 hh=0; int k=n>30?30:n; int lead=0; while (n-lead>30 && p[lead]=='0') lead++; if (n-lead>30) o=1; else { for (int i=lead;i<n;i++) hh=hh*10+(u8)(p[i]-'0'); if (hh>(u128)ULLONG_MAX) o=1; } (void)k; }
	*v=h; *over=o; return n;
}
// strtoull-style core. sgn: signed result with clamping; returns end pointer (start if no conversion)
static const char *toInt(const char *s, const char *e, int base, bool sgn, u64 *out, int *erange) {
	const char *p=s; *erange=0; *out=0; while (p<e && spc(*p)) p++;
	bool neg=false; if (p<e && (*p=='-'||*p=='+')) { neg=*p=='-'; p++; }
	if ((base==0||base==16) && p+2<e && p[0]=='0' && (p[1]=='x'||p[1]=='X')) { u8 c=p[2]; if (dig(c)||(u8)((c|32)-'a')<=5) { p+=2; base=16; } }
	if (base==0) base=(p<e && *p=='0')?8:10;
	u64 v=0; int over=0; int n=0;
	if (base==10) n=decDigits(p,e,&v,&over);
	else { u128 hh=0; while (p+n<e) { u8 c=p[n]; unsigned d; if (dig(c)) d=c-'0'; else if ((u8)((c|32)-'a')<26) d=(c|32)-'a'+10; else break; if (d>=(unsigned)base) break; hh=hh*base+d; if (hh>(u128)ULLONG_MAX) { over=1; hh=ULLONG_MAX; } v=v*base+d; n++; } }
	if (!n) return s;
	if (sgn) {
		u64 lim=neg?(u64)1<<63:((u64)1<<63)-1;
		if (over||v>lim) { *erange=1; *out=lim; } else *out=neg?-v:v;
	} else { if (over) { *erange=1; *out=ULLONG_MAX; } else *out=neg?-v:v; }
	return p+n;
}
static const char *zend(const char *s) { return s+strlen(s); }
// end of the text a number parser may look at (avoids scanning past the number)
static const char *numEnd(const char *s) { const char *p=s; while (spc(*p)) p++; if (*p=='-'||*p=='+') p++; while (*p && (dig(*p)||(u8)((*p|32)-'a')<26)) p++; return p; }
static const char *decEnd(const char *s) { const char *p=s; while (spc(*p)) p++; if (*p=='-'||*p=='+') p++; while (dig(*p)) p++; return p; }
static u64 strtox(const char *s, char **end, int base, bool sgn) { u64 v; int er; const char *e=toInt(s,base==10?decEnd(s):numEnd(s),base,sgn,&v,&er); if (end) *end=(char*)e; if (er) errno_v=ERANGE; return v; }
}
#define SX(name,ret,sgn) extern "C" ret vp_##name(const char *s, char **e, int b) __asm__(#name); extern "C" ret vp_##name(const char *s, char **e, int b) { return (ret)strtox(s,e,b,sgn); }
SX(strtoimax,long,true) SX(strtoumax,unsigned long,false) SX(__isoc23_strtoimax,long,true) SX(__isoc23_strtoumax,unsigned long,false) SX(strtol,long,true) SX(strtoll,long long,true) SX(strtoul,unsigned long,false) SX(strtoull,unsigned long long,false) SX(__isoc23_strtol,long,true) SX(__isoc23_strtoll,long long,true) SX(__isoc23_strtoul,unsigned long,false) SX(__isoc23_strtoull,unsigned long long,false)
extern "C" int vp_atoi(const char *s) __asm__("atoi"); extern "C" int vp_atoi(const char *s) { return (int)strtox(s,0,10,true); }
extern "C" long vp_atol(const char *s) __asm__("atol"); extern "C" long vp_atol(const char *s) { return (long)strtox(s,0,10,true); }
extern "C" long long vp_atoll(const char *s) __asm__("atoll"); extern "C" long long vp_atoll(const char *s) { return (long long)strtox(s,0,10,true); }
extern "C" { int vp_abs(int v) __asm__("abs"); int vp_abs(int v) { return v<0?-v:v; } long vp_labs(long v) __asm__("labs"); long vp_labs(long v) { return v<0?-v:v; } long long vp_llabs(long long v) __asm__("llabs"); long long vp_llabs(long long v) { return v<0?-v:v; } div_t div(int a, int b) noexcept { div_t r; r.quot=a/b; r.rem=a%b; return r; } ldiv_t ldiv(long a, long b) noexcept { ldiv_t r; r.quot=a/b; r.rem=a%b; return r; } }
extern "C" void qsort(void *b, size_t n, size_t w, int (*c)(const void*,const void*)) { char *p=(char*)b; for (size_t i=1;i<n;i++) for (size_t j=i;j>0 && c(p+(j-1)*w,p+j*w)>0;j--) for (size_t k=0;k<w;k++) { char t=p[(j-1)*w+k]; p[(j-1)*w+k]=p[j*w+k]; p[j*w+k]=t; } }

// longest prefix of [s,e) that is a floating point number (strtod grammar); 0 if none.  sp: 1 inf, 2 nan
static const char *fltScan(const char *s, const char *e, int *sp) {
	const char *p=s; *sp=0; if (p<e && (*p=='-'||*p=='+')) p++;
	if (p<e && ((*p|32)=='i'||(*p|32)=='n')) {
		static const char *W[3]={"infinity","inf","nan"}; for (int k=0;k<3;k++) { const char *w=W[k]; const char *q=p; while (*w && q<e && (char)(*q|32)==*w) { q++; w++; } if (!*w) { *sp=k<2?1:2; return q; } } return 0; }
	if (p+2<e && p[0]=='0' && (p[1]|32)=='x') {
		const char *q=p+2; int h=0; while (q<e && (dig(*q)||(u8)((*q|32)-'a')<6)) { q++; h++; } if (q<e && *q=='.') { const char *r=q+1; int m=0; while (r<e && (dig(*r)||(u8)((*r|32)-'a')<6)) { r++; m++; } if (h+m) { q=r; h+=m; } }
		if (h) { if (q<e && (*q|32)=='p') { const char *r=q+1; if (r<e && (*r=='-'||*r=='+')) r++; if (r<e && dig(*r)) { while (r<e && dig(*r)) r++; q=r; } } return q; } }
	int n=0; while (p<e && dig(*p)) { p++; n++; } if (p<e && *p=='.') { const char *q=p+1; int m=0; while (q<e && dig(*q)) { q++; m++; } if (n+m) { p=q; n+=m; } }
	if (!n) return 0;
	if (p<e && (*p|32)=='e') { const char *q=p+1; if (q<e && (*q=='-'||*q=='+')) q++; if (q<e && dig(*q)) { while (q<e && dig(*q)) q++; p=q; } }
	return p;
}
static long double conv(const char *s, const char *e, int sp, int kind) {
	bool neg=*s=='-'; if (sp==1) return neg?-__builtin_infl():__builtin_infl(); if (sp==2) return neg?-__builtin_nanl(""):__builtin_nanl("");
	long double r; vp_host_strtold(s,e-s,&r,kind); return r;
}
static const char *fltEnd(const char *s) { const char *p=s; while (*p && (dig(*p)||*p=='.'||*p=='+'||*p=='-'||(u8)((*p|32)-'a')<26)) p++; return p; }
static long double strtofx(const char *s, char **end, int kind) { const char *p=s; while (spc(*p)) p++; int sp; const char *q=fltScan(p,fltEnd(p),&sp); if (!q) { if (end) *end=(char*)s; return 0; } if (end) *end=(char*)q; return conv(p,q,sp,kind); }
extern "C" {
double strtod(const char *s, char **e) { return (double)strtofx(s,e,1); }
double vp_atof(const char *s) __asm__("atof"); double vp_atof(const char *s) { return (double)strtofx(s,0,1); }
float strtof(const char *s, char **e) { return (float)strtofx(s,e,2); }
long double strtold(const char *s, char **e) { return strtofx(s,e,0); }
// istream >> integer / floating point after white space was skipped (libstdc++ num_get rules); text is what num_get accumulates
int vp_parse_int(const char *b, const char *e, int sg, int bits, u64 *val, const char **end) {
	const char *p=b; bool neg=false; if (p<e && (*p=='-'||*p=='+')) { neg=*p=='-'; p++; }
	u64 v; int over; int n=decDigits(p,e,&v,&over); *end=p+n; *val=0; if (!n) return 1;
	u64 mx=bits==64?~0ull:((u64)1<<bits)-1;
	if (sg) { u64 lim=neg?(u64)1<<(bits-1):((u64)1<<(bits-1))-1; if (over||v>lim) { *val=neg?-lim:lim; return 1; } *val=neg?-v:v; return 0; }
	if (over||v>mx) { *val=mx; return 1; } *val=neg?-v:v; return 0;
}
int vp_parse_float(const char *b, const char *e, int kind, long double *val, const char **end) {
	int sp; *val=0; const char *q=fltScan(b,e,&sp); *end=b; if (!q||q!=e||sp) return 1;   // num_get: all accumulated text must convert
	*val=conv(b,q,0,kind); *end=q; return 0;
}
int vp_fmt_ld(char *buf, int size, long double v, unsigned fl, int prec) {
	char f[8]; int n=0; f[n++]='%'; if (fl&2048) f[n++]='+'; if (fl&1024) f[n++]='#'; f[n++]='.'; f[n++]='*'; f[n++]='L'; unsigned ff=fl&(4|256); bool up=fl&16384;
	f[n++]= ff==4?(up?'F':'f'):ff==256?(up?'E':'e'):(up?'G':'g'); f[n]=0;
	return vp_host_fmt(buf,size,f,prec,v);
}
static struct lconv lc_; 
struct lconv *localeconv() noexcept { lc_.decimal_point=(char*)"."; lc_.thousands_sep=(char*)""; lc_.grouping=(char*)""; return &lc_; }
char *setlocale(int, const char*) noexcept { return (char*)"C"; }

// ---------------------------------------------------------------- scanf / printf subset
static int vsc(const char *s, const char *f, va_list ap) {
	int cnt=0; const char *p=s;
	while (*f) {
		if (spc(*f)) { while (spc(*p)) p++; f++; continue; }
		if (*f!='%') { if (*p!=*f) return cnt?cnt:(*p?0:-1); p++; f++; continue; }
		f++; bool skip=false; if (*f=='*') { skip=true; f++; } int fw=0; while (dig(*f)) fw=fw*10+(*f++-'0'); int l=0; if (*f=='h') { vp_error("scanf conversion outside the model"); return cnt; } if (*f=='l') { l=1; f++; if (*f=='l') { l=2; f++; } } else if (*f=='L') { l=3; f++; } else if (*f=='j'||*f=='z') { l=2; f++; }
		char c=*f++;
		if (c=='n') { *va_arg(ap,int*)=(int)(p-s); continue; }
		if (c=='%') { while (spc(*p)) p++; if (*p!='%') return cnt?cnt:(*p?0:-1); p++; continue; }
		if (c=='c') { if (!fw) fw=1; char *o=skip?0:va_arg(ap,char*); for (int i=0;i<fw;i++) { if (!*p) return cnt?cnt:-1; if (o) o[i]=*p; p++; } if (!skip) cnt++; continue; }
		while (spc(*p)) p++;
		if (!*p) return cnt?cnt:-1;
		if (c=='s') { char *o=skip?0:va_arg(ap,char*); int i=0; while (*p && !spc(*p) && (!fw || i<fw)) { if (o) o[i]=*p; i++; p++; } if (o) o[i]=0; if (!skip) cnt++; continue; }
		if (skip || fw) { vp_error("scanf conversion outside the model"); return cnt; }
		if (c=='d'||c=='u') {
			u64 v; int er; const char *e=toInt(p,decEnd(p),10,c=='d',&v,&er); if (e==p) return cnt; p=e; if (er) errno_v=ERANGE;
			if (l>=1) *va_arg(ap,u64*)=v; else *va_arg(ap,unsigned*)=(unsigned)v; cnt++;
		} else if (c=='x') { u64 v; int er; const char *e=toInt(p,numEnd(p),16,false,&v,&er); if (e==p) return cnt; p=e; if (l>=1) *va_arg(ap,u64*)=v; else *va_arg(ap,unsigned*)=(unsigned)v; cnt++; }
		else if (c=='f'||c=='g'||c=='e') { int sp; const char *q=fltScan(p,fltEnd(p),&sp); if (!q) return cnt; long double d=conv(p,q,sp,l==3?0:l?1:2); p=q; if (l==3) *va_arg(ap,long double*)=d; else if (l) *va_arg(ap,double*)=(double)d; else *va_arg(ap,float*)=(float)d; cnt++; }
		else { vp_error("scanf conversion outside the model"); return cnt; }
	}
	return cnt;
}
}
extern "C" int vp_sscanf(const char *s, const char *f, ...) __asm__("sscanf"); extern "C" int vp_sscanf(const char *s, const char *f, ...) { va_list a; va_start(a,f); int r=vsc(s,f,a); va_end(a); return r; }
extern "C" int vp_sscanf99(const char *s, const char *f, ...) __asm__("__isoc99_sscanf"); extern "C" int vp_sscanf99(const char *s, const char *f, ...) { va_list a; va_start(a,f); int r=vsc(s,f,a); va_end(a); return r; }
extern "C" int vp_sscanf23(const char *s, const char *f, ...) __asm__("__isoc23_sscanf"); extern "C" int vp_sscanf23(const char *s, const char *f, ...) { va_list a; va_start(a,f); int r=vsc(s,f,a); va_end(a); return r; }
static int vpr(char *b, size_t n, const char *f, va_list ap) {
	size_t k=0;
	#define OUT(c) do { if (k+1<n) b[k]=(c); k++; } while (0)
	while (*f) {
		if (*f!='%') { OUT(*f); f++; continue; }
		f++; if (*f=='%') { OUT('%'); f++; continue; }
		bool left=false,zero=false,alt=false,plus=false,sp=false; for (;;f++) { if (*f=='-') left=true; else if (*f=='0') zero=true; else if (*f=='#') alt=true; else if (*f=='+') plus=true; else if (*f==' ') sp=true; else break; }
		int w=0,pr=-1; if (*f=='*') { w=va_arg(ap,int); f++; if (w<0) { left=true; w=-w; } } else while (dig(*f)) w=w*10+(*f++-'0'); if (*f=='.') { f++; pr=0; if (*f=='*') { pr=va_arg(ap,int); f++; } else while (dig(*f)) pr=pr*10+(*f++-'0'); }
		int l=0; while (*f=='l'||*f=='z'||*f=='j'||*f=='h'||*f=='L') { if (*f=='h') l--; else if (*f=='L') l=9; else l++; f++; } if (l>2 && l!=9) l=2;
		char c=*f++; char t[5300]; const char *o=t; int m=0; bool neg=false; const char *pre="";
		if (c=='s') { o=va_arg(ap,const char*); m=(int)strnlen(o,pr<0?1u<<20:(size_t)pr); pr=-1; zero=false; }
		else if (c=='c') { t[0]=(char)va_arg(ap,int); m=1; zero=false; pr=-1; }
		else if (c=='d'||c=='i') { long long v=l>0?va_arg(ap,long long):va_arg(ap,int); if (l==-1) v=(short)v; if (l==-2) v=(signed char)v; neg=v<0; pre=plus?"+":sp?" ":""; m=vp_fmt_u64(t,neg?-(u64)v:(u64)v); if (pr==0 && v==0) m=0; }
		else if (c=='u') { u64 v=l>0?va_arg(ap,u64):va_arg(ap,unsigned); if (l==-1) v&=0xffff; if (l==-2) v&=0xff; m=vp_fmt_u64(t,v); }
		else if (c=='x'||c=='X'||c=='o') { u64 v=l>0?va_arg(ap,u64):va_arg(ap,unsigned); if (l==-1) v&=0xffff; if (l==-2) v&=0xff; m=vp_fmt_base(t,v,c=='o'?8:16,c=='X'); if (alt && v) pre=c=='o'?"0":c=='x'?"0x":"0X"; }
		else if (c=='p') { u64 v=(u64)va_arg(ap,void*); if (!v) { o="(nil)"; m=5; } else t[0]='0'; t[1]='x'; if (v) m=2+vp_fmt_base(t+2,v,16,0); }
		else if (c=='g'||c=='f'||c=='e'||c=='G') { long double v=l==9?va_arg(ap,long double):va_arg(ap,double); m=vp_fmt_ld(t,sizeof t,v,(alt?1024:0)|(plus?2048:0)|(c=='f'?4:c=='e'?256:0)|(c=='G'?16384:0),pr<0?6:pr); pr=-1; }
		else { vp_error("printf conversion outside the model"); return 0; }
		if (neg) pre="-"; int pl=(int)strlen(pre); int z=pr>m?pr-m:0; int tot=m+z+pl; int pad=w>tot?w-tot:0; if (zero&&!left&&pr<0) { z+=pad; pad=0; }
		if (!left) for (int i=0;i<pad;i++) OUT(' '); for (int i=0;i<pl;i++) OUT(pre[i]); for (int i=0;i<z;i++) OUT('0'); for (int i=0;i<m;i++) OUT(o[i]); if (left) for (int i=0;i<pad;i++) OUT(' ');
	}
	if (n) b[k<n?k:n-1]=0; return (int)k;
}
extern "C" int vp_snprintf(char *b, size_t n, const char *f, ...) __asm__("snprintf"); extern "C" int vp_snprintf(char *b, size_t n, const char *f, ...) { va_list a; va_start(a,f); int r=vpr(b,n,f,a); va_end(a); return r; }
extern "C" int vp_sprintf(char *b, const char *f, ...) __asm__("sprintf"); extern "C" int vp_sprintf(char *b, const char *f, ...) { va_list a; va_start(a,f); int r=vpr(b,1u<<30,f,a); va_end(a); return r; }
extern "C" int vp_vsnprintf(char *b, size_t n, const char *f, va_list a) __asm__("vsnprintf"); extern "C" int vp_vsnprintf(char *b, size_t n, const char *f, va_list a) { return vpr(b,n,f,a); }

// ---------------------------------------------------------------- environment
extern "C" {
FILE *stderr=0, *stdout=0, *stdin=0;
int vp_exit_hook(int code) __attribute__((weak));
void exit(int c) noexcept { if (vp_exit_hook) vp_exit_hook(c); vp_done(); __builtin_unreachable(); }
void _exit(int c) { if (vp_exit_hook) vp_exit_hook(c); vp_done(); __builtin_unreachable(); }
void abort() noexcept { vp_crash("abort called"); __builtin_unreachable(); }
void __assert_fail(const char *e, const char*, unsigned, const char*) noexcept { (void)e; vp_crash("assertion failed in the library"); __builtin_unreachable(); }
char *vp_getenv(const char *name) __attribute__((weak));
char *getenv(const char *n) noexcept { return vp_getenv?vp_getenv(n):0; }
int backtrace(void**, int) { return 0; }
char **backtrace_symbols(void *const*, int) { return 0; }
void backtrace_symbols_fd(void *const*, int, int) {}
void perror(const char*) {}
char *strerror(int e) noexcept { switch (e) { case 0: return (char*)"Success"; case 1: return (char*)"Operation not permitted"; case 2: return (char*)"No such file or directory"; case 3: return (char*)"No such process"; case 4: return (char*)"Interrupted system call"; case 5: return (char*)"Input/output error"; case 6: return (char*)"No such device or address"; case 7: return (char*)"Argument list too long"; case 8: return (char*)"Exec format error"; case 9: return (char*)"Bad file descriptor"; case 10: return (char*)"No child processes"; case 11: return (char*)"Resource temporarily unavailable"; case 12: return (char*)"Cannot allocate memory"; case 13: return (char*)"Permission denied"; case 14: return (char*)"Bad address"; case 15: return (char*)"Block device required"; case 16: return (char*)"Device or resource busy"; case 17: return (char*)"File exists"; case 18: return (char*)"Invalid cross-device link"; case 19: return (char*)"No such device"; case 20: return (char*)"Not a directory"; case 21: return (char*)"Is a directory"; case 22: return (char*)"Invalid argument"; case 23: return (char*)"Too many open files in system"; case 24: return (char*)"Too many open files"; case 25: return (char*)"Inappropriate ioctl for device"; case 26: return (char*)"Text file busy"; case 27: return (char*)"File too large"; case 28: return (char*)"No space left on device"; case 29: return (char*)"Illegal seek"; case 30: return (char*)"Read-only file system"; case 31: return (char*)"Too many links"; case 32: return (char*)"Broken pipe"; case 33: return (char*)"Numerical argument out of domain"; case 34: return (char*)"Numerical result out of range"; case 35: return (char*)"Resource deadlock avoided"; case 36: return (char*)"File name too long"; case 37: return (char*)"No locks available"; case 38: return (char*)"Function not implemented"; case 39: return (char*)"Directory not empty"; case 40: return (char*)"Too many levels of symbolic links"; } return (char*)"Unknown error"; }
int rand() noexcept { return 4; }
__attribute__((weak)) long vp_readlink(const char*, char*, size_t);
long readlink(const char *p, char *b, size_t n) noexcept { return vp_readlink?vp_readlink(p,b,n):-1; }
int fputs(const char *s, FILE *f) { size_t n=strlen(s); return fwrite(s,1,n,f)==n?1:EOF; }
int fputc(int c, FILE *f) { unsigned char b=(unsigned char)c; return fwrite(&b,1,1,f)==1?b:EOF; }
int vp_putc(int c, FILE *f) __asm__("putc"); int vp_putc(int c, FILE *f) { return fputc(c,f); }
int puts(const char*) { return 1; }
int vp_fflush(FILE*) __attribute__((weak));
int fflush(FILE *f) { return vp_fflush?vp_fflush(f):0; }
int vp_fprintf(FILE*, const char*, ...) __asm__("fprintf"); int vp_fprintf(FILE*, const char*, ...) { return 0; }
int vp_printf(const char*, ...) __asm__("printf"); int vp_printf(const char*, ...) { return 0; }
// files never exist in the model unless a harness overrides these
FILE *vp_fopen(const char*, const char*) __attribute__((weak)); size_t vp_fread(void*, size_t, size_t, FILE*) __attribute__((weak)); size_t vp_fwrite(const void*, size_t, size_t, FILE*) __attribute__((weak)); int vp_ferror(FILE*) __attribute__((weak)); int vp_fclose(FILE*) __attribute__((weak));
FILE *fopen(const char *n, const char *m) { if (vp_fopen) return vp_fopen(n,m); errno_v=ENOENT; return 0; }
static bool file_end=false;
size_t fread(void *p, size_t a, size_t b, FILE *f) { size_t r=vp_fread?vp_fread(p,a,b,f):0; file_end=r<b; return r; }
size_t fwrite(const void *p, size_t a, size_t b, FILE *f) { return vp_fwrite?vp_fwrite(p,a,b,f):a?b:0; }
int ferror(FILE *f) noexcept { return vp_ferror?vp_ferror(f):0; }
int feof(FILE *f) noexcept { return file_end && !ferror(f); }
int fgetc(FILE *f) { unsigned char c; return fread(&c,1,1,f)==1?c:EOF; }
int vp_getc(FILE *f) __asm__("getc"); int vp_getc(FILE *f) { return fgetc(f); }
char *fgets(char *b, int n, FILE *f) { int i=0; while (i+1<n) { int c=fgetc(f); if (c==EOF) break; b[i++]=(char)c; if (c=='\n') break; } if (!i) return 0; b[i]=0; return b; }
void clearerr(FILE*) noexcept { file_end=false; }
int fclose(FILE *f) { return vp_fclose?vp_fclose(f):0; }
char *__xpg_basename(char *p) noexcept { char *b=p; for (char *q=p;*q;q++) if (*q=='/' && q[1]) b=q+1; return b; }
}
