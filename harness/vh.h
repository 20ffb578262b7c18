// Shared helpers for harnesses.  A harness defines vp_main(); it is compiled twice: to bitcode for symbolic execution
// and natively for replay.  Bounds come in through vp_param().
#ifndef VH_H
#define VH_H
#include "rt/vp.h"
#include <Variant/Variant.h>
#include <string>
#include <vector>
#include <map>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
using namespace libvariant;
// number in [0,n), one path per value
static inline unsigned pick(const char *name, unsigned n) { uint8_t v=vp_u8(name); vp_assume(v<n); return (unsigned)vp_fork(v); }
static inline std::string symstr(const char *name, unsigned n) { std::string s(n,' '); if (n) vp_bytes(&s[0],n,name); return s; }
// symbolic string of any length 0..max, optionally without NUL bytes
static inline std::string symstrv(const char *name, unsigned max, bool nonul=false) {
	std::string ln(name); ln+="#"; unsigned n=pick(ln.c_str(),max+1); std::string s=symstr(name,n);
	if (nonul) for (unsigned i=0;i<n;i++) vp_assume(s[i]!=0);
	return s;
}
static inline void obs(const std::string &s) { vp_observe(s.size()); vp_observe_bytes(s.data(),s.size()); }
#define ASSERT(c) vp_assert(!!(c),#c)
#endif
