// Independent JSON reader following RFC 8259, optionally with /* */ comments wherever blanks may stand.
#ifndef JREF_H
#define JREF_H
#include "model.h"
struct JRef {
	const std::string &t; size_t p; bool comments; bool big; // big: an integer outside 64 bits was met
	JRef(const std::string &s, bool c) : t(s), p(0), comments(c), big(false) {}
	bool more() const { return p<t.size(); }
	unsigned char c() const { return (unsigned char)t[p]; }
	bool blank() {
		for (;;) {
			if (!more()) return true;
			unsigned char x=c();
			if (x==' '||x=='\t'||x=='\n'||x=='\r') { p++; continue; }
			if (comments && x=='/') {
				p++; if (!more() || c()!='*') return false;
				p++; bool star=false;
				for (;;) { if (!more()) return false; x=c(); if (x<0x20 && x!='\t' && x!='\n' && x!='\r') return false; p++; if (star && x=='/') break; star=x=='*'; }
				continue; }
			return true; }
	}
	bool lit(const char *s) { for (;*s;s++,p++) if (!more() || t[p]!=*s) return false; return true; }
	bool hex4(unsigned &v) {
		v=0; for (int k=0;k<4;k++,p++) { if (!more()) return false; unsigned char x=c(); unsigned d=99; d=(x>='0')&(x<='9')?x-'0':d; d=(x>='a')&(x<='f')?x-'a'+10:d; d=(x>='A')&(x<='F')?x-'A'+10:d; if (d==99) return false; v=v*16+d; }
		return true; }
	static void utf8(std::string &o, unsigned u) {
		if (u<0x80) o+=(char)u;
		else if (u<0x800) { o+=(char)(0xc0|u>>6); o+=(char)(0x80|(u&63)); }
		else if (u<0x10000) { o+=(char)(0xe0|u>>12); o+=(char)(0x80|(u>>6&63)); o+=(char)(0x80|(u&63)); }
		else { o+=(char)(0xf0|u>>18); o+=(char)(0x80|(u>>12&63)); o+=(char)(0x80|(u>>6&63)); o+=(char)(0x80|(u&63)); } }
	bool string(std::string &o) {
		if (!more() || c()!='"') return false;
		p++;
		for (;;) {
			if (!more()) return false;
			unsigned char x=c(); p++;
			if (x=='"') return true;
			if (x<0x20) return false;
			if (x!='\\') { o+=(char)x; continue; }
			if (!more()) return false;
			x=c(); p++;
			switch (x) {
			case '"': case '\\': case '/': o+=(char)x; break;
			case 'b': o+='\b'; break; case 'f': o+='\f'; break; case 'n': o+='\n'; break; case 'r': o+='\r'; break; case 't': o+='\t'; break;
			case 'u': { unsigned u; if (!hex4(u)) return false;
				if (u>=0xdc00 && u<0xe000) return false;
				if (u>=0xd800 && u<0xdc00) { unsigned w; if (!lit("\\u") || !hex4(w) || w<0xdc00 || w>=0xe000) return false; u=0x10000+((u-0xd800)<<10)+(w-0xdc00); }
				utf8(o,u); break; }
			default: return false; } }
	}
	bool digits(uint64_t *v) { size_t b=p; while (more() && (unsigned char)(c()-'0')<10) { if (v) { unsigned char d=(unsigned char)(c()-'0'); if (p-b>=19 || (p-b>=18 && *v>922337203685477579ull)) big=true; *v=*v*10+d; } p++; } return p>b; }
	bool number(M &m) {
		bool neg=false, flt=false; size_t b=p; if (c()=='-') { neg=true; p++; }
		uint64_t v=0; size_t d=p; if (!digits(&v)) return false;
		if (t[d]=='0' && p-d>1) return false;
		if (more() && c()=='.') { flt=true; p++; if (!digits(0)) return false; }
		if (more() && (c()=='e'||c()=='E')) { flt=true; p++; if (more() && (c()=='+'||c()=='-')) p++; if (!digits(0)) return false; }
		if (flt) { m=M(M::F); m.s=t.substr(b,p-b); } else if (neg) m=M::num((int64_t)(0-v)); else m=M::uns(v);
		return true; }
	bool value(M &m) {
		if (!blank() || !more()) return false;
		switch (c()) {
		case '{': { p++; m=M(M::O); if (!blank() || !more()) return false; if (c()=='}') { p++; return true; }
			for (;;) { std::string k; M v; if (!blank() || !string(k) || !blank() || !more() || c()!=':') return false; p++; if (!value(v)) return false; m.o[k]=v; if (!blank() || !more()) return false; if (c()=='}') { p++; return true; } if (c()!=',') return false; p++; } }
		case '[': { p++; m=M(M::L); if (!blank() || !more()) return false; if (c()==']') { p++; return true; }
			for (;;) { M v; if (!value(v)) return false; m.l.push_back(v); if (!blank() || !more()) return false; if (c()==']') { p++; return true; } if (c()!=',') return false; p++; } }
		case '"': m=M(M::S); return string(m.s);
		case 't': m=M::boolean(true); return lit("true");
		case 'f': m=M::boolean(false); return lit("false");
		case 'n': m=M(); return lit("null");
		default: if (c()=='-' || (unsigned char)(c()-'0')<10) return number(m); return false; }
	}
	// a document: list or map at the root
	bool document(M &m) { if (!blank() || !more() || (c()!='[' && c()!='{')) return false; return value(m); }
};
// does v hold what the text says?  Floats are compared in value only when their text is a known constant
static bool sameJ(const M &m, const Variant &v) {
	switch (m.t) {
	case M::F: if (!v.IsFloat()) return false; for (size_t i=0;i<m.s.size();i++) if (vp_is_symbolic((unsigned char)m.s[i])) return true; return v.AsDouble()==strtod(m.s.c_str(),0);
	case M::L: if (!v.IsList() || v.Size()!=m.l.size()) return false; for (unsigned i=0;i<m.l.size();i++) if (!sameJ(m.l[i],v.AsList()[i])) return false; return true;
	case M::O: { if (!v.IsMap() || v.Size()!=m.o.size()) return false; Variant::ConstMapIterator a=v.MapBegin(); for (std::map<std::string,M>::const_iterator b=m.o.begin();b!=m.o.end();++a,++b) if (!eqs(a->first,b->first) || !sameJ(b->second,a->second)) return false; return true; }
	default: return same(m,v,true); }
}
#endif
