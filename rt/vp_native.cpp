// Native side of the harness interface: replays concrete inputs against the library built from the same sources.
// usage: native <inputs file, one case per line> <results file>; each line runs in its own child process.
#include "vp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <setjmp.h>
#include <sys/wait.h>
#include <sys/resource.h>
extern "C" void vp_main();
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
struct In { std::string name; std::vector<unsigned char> v; };
static std::vector<In> ins; static size_t cur; static std::string obs; static bool first=true; static int resfd=-1; static jmp_buf jb; static std::map<std::string,int> params;
static void fin(const std::string &st) { std::string l=st+"\n"; if (write(resfd,l.data(),l.size())<0) {} _exit(0); }
static const In &next(const char *name) {
	if (cur>=ins.size()) fin("diverged more inputs requested than recorded");
	const In &i=ins[cur++]; size_t n=strlen(name); if (i.name.compare(0,n,name) || (i.name.size()>n && i.name[n]!='.')) fin(std::string("diverged expected ")+i.name+" got "+name); return i;
}
static uint64_t word(const char *name, unsigned n) { const In &i=next(name); uint64_t r=0; for (size_t k=i.v.size();k-->0;) r=(r<<8)|i.v[k]; (void)n; return r; }
extern "C" {
void vp_bytes(void *p, size_t n, const char *name) { const In &i=next(name); if (i.v.size()!=n) fin("diverged length of "+i.name); if (n) memcpy(p,i.v.data(),n); }
uint64_t vp_u64(const char *n) { return word(n,8); }
uint32_t vp_u32(const char *n) { return (uint32_t)word(n,4); }
uint8_t vp_u8(const char *n) { return (uint8_t)word(n,1); }
uint8_t vp_hidden_u8() { return 0; }
void vp_assume(int c) { if (!c) fin("assume-failed"); }
void vp_assert(int c, const char *m) { if (!c) fin(std::string("assert ")+m); }
void vp_fail(const char *m) { fin(std::string("assert ")+m); }
void vp_crash(const char *m) { fin(std::string("crash ")+m); }
void vp_error(const char *m) { fin(std::string("error ")+m); }
void vp_observe(uint64_t v) { if (!first) return; char b[32]; snprintf(b,32,"%llx,",(unsigned long long)v); obs+=b; }
void vp_observe_bytes(const void *p, size_t n) { for (size_t i=0;i<n;i++) vp_observe(((const unsigned char*)p)[i]); }
void vp_reach(const char*) {}
uint64_t vp_fork(uint64_t v) { return v; }
int vp_param(const char *n, int d) { auto it=params.find(n); return it==params.end()?d:it->second; }
int vp_native() { return 1; }
int vp_unary(uint64_t) { return 0; }
uint64_t vp_split(uint64_t v) { return v; }
uint64_t vp_ite(uint64_t c, uint64_t a, uint64_t b) { return c?a:b; }
int vp_is_symbolic(uint64_t) { return 0; }
void vp_done() { longjmp(jb,1); }
void vp_print(const char *m, uint64_t v) { fprintf(stderr,"%s %llx\n",m,(unsigned long long)v); }
uint64_t vp_heap_live() { return 0; }
void vp_stub(const char*) {}
}
extern "C" int vp_exit_hook(int) __attribute__((weak));
extern "C" void __real_exit(int);
extern "C" void __wrap_exit(int c) { if (vp_exit_hook) { vp_exit_hook(c); vp_done(); } __real_exit(c); }
static int hexv(char c) { return c<='9'?c-'0':(c|32)-'a'+10; }
int main(int argc, char **argv) {
	std::string all; { FILE *f=fopen(argv[1],"r"); char b[65536]; size_t n; while ((n=fread(b,1,sizeof b,f))>0) all.append(b,n); fclose(f); }
	resfd=open(argv[2],O_WRONLY|O_CREAT|O_TRUNC|O_APPEND,0644);
	int tmo=getenv("VP_TIMEOUT")?atoi(getenv("VP_TIMEOUT")):20; int runs=getenv("VP_RUNS")?atoi(getenv("VP_RUNS")):1;
	if (const char *p=getenv("VP_PARAMS")) { std::string s=p; size_t i=0; while (i<s.size()) { size_t e=s.find(',',i); if (e==std::string::npos) e=s.size(); size_t q=s.find('=',i); if (q<e) params[s.substr(i,q-i)]=atoi(s.c_str()+q+1); i=e+1; } }
	size_t at=0;
	while (at<all.size()) {
		size_t e=all.find('\n',at); if (e==std::string::npos) e=all.size(); std::string line=all.substr(at,e-at); at=e+1;
		fflush(0); pid_t pid=fork();
		if (pid==0) {
			struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl); signal(SIGALRM,SIG_DFL); alarm(tmo);
			size_t i=0; while (i<line.size()) { size_t q=line.find(';',i); if (q==std::string::npos) q=line.size(); std::string t=line.substr(i,q-i); i=q+1; if (t.empty()) continue; size_t k=t.find('='); In in; in.name=t.substr(0,k); for (size_t j=k+1;j+1<t.size();j+=2) in.v.push_back(hexv(t[j])*16+hexv(t[j+1])); ins.push_back(in); }
			static volatile int jumped; jumped=0; cur=0; if (setjmp(jb)) jumped=1; else vp_main(); first=false;
			long leak=0;
			if (!jumped && runs>1 && __sanitizer_get_current_allocated_bytes) {
				std::vector<long> d; d.reserve(16); for (int k=0;k<runs;k++) { size_t a=__sanitizer_get_current_allocated_bytes(); cur=0; vp_main(); size_t b=__sanitizer_get_current_allocated_bytes(); d.push_back((long)b-(long)a); }
				leak=d.back(); for (long x:d) if (x<leak) leak=x;
			}
			if (cur<ins.size()) fin("diverged unused inputs");
			fin("ok leak="+std::to_string(leak)+" obs="+obs);
		}
		int st; waitpid(pid,&st,0);
		if (WIFSIGNALED(st)) { std::string l="signal "+std::to_string(WTERMSIG(st))+"\n"; if (write(resfd,l.data(),l.size())<0) {} }
		else if (WEXITSTATUS(st)) { std::string l="exit "+std::to_string(WEXITSTATUS(st))+"\n"; if (write(resfd,l.data(),l.size())<0) {} }
	}
	return 0;
}
