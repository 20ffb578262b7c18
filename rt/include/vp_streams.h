// Minimal iostreams used when the library is compiled for symbolic execution.  Same observable behaviour as libstdc++
// in the "C" locale for the operations defined here; anything else fails to compile.
#ifndef VP_STREAMS_H
#define VP_STREAMS_H
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <exception>
#include <stdexcept>
#include <limits>
#include <cstdio>
#include <cctype>
#include <cwctype>
#include <clocale>
#include <system_error>
#include <ext/atomicity.h>
#include <bits/cpp_type_traits.h>
#include <bits/stl_iterator_base_types.h>
#include <bits/postypes.h>
extern "C" {
int vp_fmt_u64(char *buf, unsigned long long v);                  // decimal digits, returns length
int vp_fmt_base(char *buf, unsigned long long v, int base, int upper);
int vp_fmt_ld(char *buf, int size, long double v, unsigned flags, int prec);  // buf >= 5200
int vp_parse_int(const char *b, const char *e, int is_signed, int bits, unsigned long long *val, const char **end); // num_get rules: 0 ok, 1 fail
int vp_parse_float(const char *b, const char *e, int kind, long double *val, const char **end);
}
namespace std {
class ios_base {
public:
	typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
	static const fmtflags boolalpha=1, dec=2, fixed=4, hex=8, internal=16, left=32, oct=64, right=128, scientific=256, showbase=512, showpoint=1024, showpos=2048, skipws=4096, unitbuf=8192, uppercase=16384;
	static const fmtflags adjustfield=left|right|internal, basefield=dec|oct|hex, floatfield=scientific|fixed;
	static const iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
	static const openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
	static const seekdir beg=0, cur=1, end=2;
	class failure : public runtime_error { public: explicit failure(const string &s) : runtime_error(s) {} };
	class Init { public: Init() {} };
	ios_base() : flags_(skipws|dec), prec_(6), width_(0), state_(goodbit), exc_(0) {}
	virtual ~ios_base() {}
	fmtflags flags() const { return flags_; }
	fmtflags flags(fmtflags f) { fmtflags o=flags_; flags_=f; return o; }
	fmtflags setf(fmtflags f) { fmtflags o=flags_; flags_|=f; return o; }
	fmtflags setf(fmtflags f, fmtflags m) { fmtflags o=flags_; flags_=(flags_&~m)|(f&m); return o; }
	void unsetf(fmtflags m) { flags_&=~m; }
	streamsize precision() const { return prec_; }
	streamsize precision(streamsize p) { streamsize o=prec_; prec_=p; return o; }
	streamsize width() const { return width_; }
	streamsize width(streamsize w) { streamsize o=width_; width_=w; return o; }
	static bool sync_with_stdio(bool=true) { return true; }
protected:
	fmtflags flags_; streamsize prec_, width_; iostate state_, exc_;
};
typedef ios_base::openmode _Ios_Openmode_vp;
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec,ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex,ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct,ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed,ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific,ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left,ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right,ios_base::adjustfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal,ios_base::adjustfield); return b; }

template<typename C, typename T> class basic_streambuf {
public:
	typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
	virtual ~basic_streambuf() {}
	int pubsync() { return sync(); }
	pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode w=ios_base::in|ios_base::out) { return seekoff(o,d,w); }
	pos_type pubseekpos(pos_type p, ios_base::openmode w=ios_base::in|ios_base::out) { return seekpos(p,w); }
	basic_streambuf *pubsetbuf(C *s, streamsize n) { return setbuf(s,n); }
	streamsize in_avail() { streamsize r=egptr()-gptr(); return r?r:showmanyc(); }
	int_type snextc() { if (T::eq_int_type(sbumpc(),T::eof())) return T::eof(); return sgetc(); }
	int_type sbumpc() { if (g_<ge_) return T::to_int_type(*g_++); return uflow(); }
	int_type sgetc() { if (g_<ge_) return T::to_int_type(*g_); return underflow(); }
	streamsize sgetn(C *s, streamsize n) { return xsgetn(s,n); }
	int_type sputc(C c) { if (p_<pe_) { *p_++=c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
	streamsize sputn(const C *s, streamsize n) { return xsputn(s,n); }
	int_type sungetc() { if (gb_<g_) { --g_; return T::to_int_type(*g_); } return pbackfail(); }
	int_type sputbackc(C c) { if (gb_<g_ && T::eq(c,g_[-1])) { --g_; return T::to_int_type(*g_); } return pbackfail(T::to_int_type(c)); }
protected:
	basic_streambuf() : gb_(0),g_(0),ge_(0),pb_(0),p_(0),pe_(0) {}
	C *eback() const { return gb_; } C *gptr() const { return g_; } C *egptr() const { return ge_; }
	void gbump(int n) { g_+=n; }
	void setg(C *b, C *n, C *e) { gb_=b; g_=n; ge_=e; }
	C *pbase() const { return pb_; } C *pptr() const { return p_; } C *epptr() const { return pe_; }
	void pbump(int n) { p_+=n; }
	void setp(C *b, C *e) { pb_=p_=b; pe_=e; }
	virtual basic_streambuf *setbuf(C*, streamsize) { return this; }
	virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode=ios_base::in|ios_base::out) { return pos_type(off_type(-1)); }
	virtual pos_type seekpos(pos_type, ios_base::openmode=ios_base::in|ios_base::out) { return pos_type(off_type(-1)); }
	virtual int sync() { return 0; }
	virtual streamsize showmanyc() { return 0; }
	virtual streamsize xsgetn(C *s, streamsize n) {
		streamsize r=0;
		while (r<n) { if (g_<ge_) { streamsize k=ge_-g_; if (k>n-r) k=n-r; T::copy(s+r,g_,k); r+=k; g_+=k; } else { int_type c=uflow(); if (T::eq_int_type(c,T::eof())) break; s[r++]=T::to_char_type(c); } }
		return r;
	}
	virtual int_type underflow() { return T::eof(); }
	virtual int_type uflow() { int_type c=underflow(); if (T::eq_int_type(c,T::eof())) return c; if (g_<ge_) ++g_; return c; }
	virtual int_type pbackfail(int_type=T::eof()) { return T::eof(); }
	virtual streamsize xsputn(const C *s, streamsize n) {
		streamsize r=0;
		while (r<n) { if (p_<pe_) { streamsize k=pe_-p_; if (k>n-r) k=n-r; T::copy(p_,s+r,k); r+=k; p_+=k; } else { if (T::eq_int_type(overflow(T::to_int_type(s[r])),T::eof())) break; r++; } }
		return r;
	}
	virtual int_type overflow(int_type=T::eof()) { return T::eof(); }
private:
	friend class istreambuf_iterator<C,T>; friend class ostreambuf_iterator<C,T>;
	template<typename C2> friend typename __gnu_cxx::__enable_if<__is_char<C2>::__value,C2*>::__type __copy_move_a2(istreambuf_iterator<C2>,istreambuf_iterator<C2>,C2*);
	template<typename C2> friend typename __gnu_cxx::__enable_if<__is_char<C2>::__value,istreambuf_iterator<C2> >::__type find(istreambuf_iterator<C2>,istreambuf_iterator<C2>,const C2&);
	template<typename C2, typename D> friend typename __gnu_cxx::__enable_if<__is_char<C2>::__value,void>::__type advance(istreambuf_iterator<C2>&,D);
	void __safe_gbump(streamsize n) { g_+=n; } void __safe_pbump(streamsize n) { p_+=n; }
	C *gb_,*g_,*ge_,*pb_,*p_,*pe_;
};

template<typename C, typename T> class basic_ios : public ios_base {
public:
	typedef C char_type; typedef T traits_type;
	basic_ios() : sb_(0), fill_(' ') {}
	explicit basic_ios(basic_streambuf<C,T> *s) : sb_(s), fill_(' ') { if (!s) state_=badbit; }
	bool good() const { return state_==0; } bool eof() const { return state_&eofbit; } bool fail() const { return state_&(failbit|badbit); } bool bad() const { return state_&badbit; }
	explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
	iostate rdstate() const { return state_; }
	void clear(iostate s=goodbit) { state_=s; if (!sb_) state_|=badbit; if (state_&exc_) throw failure("basic_ios::clear"); }
	void setstate(iostate s) { clear(state_|s); }
	iostate exceptions() const { return exc_; }
	void exceptions(iostate e) { exc_=e; clear(state_); }
	basic_streambuf<C,T> *rdbuf() const { return sb_; }
	basic_streambuf<C,T> *rdbuf(basic_streambuf<C,T> *s) { basic_streambuf<C,T> *o=sb_; sb_=s; clear(); return o; }
	C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
	basic_ios &copyfmt(const basic_ios &o) { this->flags_=o.flags_; this->prec_=o.prec_; this->width_=o.width_; fill_=o.fill_; exceptions(o.exc_); return *this; }
	basic_ostream<C,T> *tie() const { return 0; } basic_ostream<C,T> *tie(basic_ostream<C,T>*) { return 0; }
	C fill() const { return fill_; } C fill(C c) { C o=fill_; fill_=c; return o; }
protected:
	void init(basic_streambuf<C,T> *s) { sb_=s; state_=s?goodbit:badbit; }
	basic_streambuf<C,T> *sb_; C fill_;
};

template<typename C, typename T> class basic_ostream : virtual public basic_ios<C,T> {
public:
	typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef basic_ostream Self;
	explicit basic_ostream(basic_streambuf<C,T> *s) { this->init(s); }
	virtual ~basic_ostream() {}
	Self &operator<<(Self &(*f)(Self&)) { return f(*this); }
	Self &operator<<(ios_base &(*f)(ios_base&)) { f(*this); return *this; }
	Self &operator<<(bool b) { if (this->flags()&ios_base::boolalpha) return vp_put(b?"true":"false",b?4:5); return vp_int(b,false); }
	Self &operator<<(short v) { return (this->flags()&(ios_base::hex|ios_base::oct)) ? vp_int((unsigned short)v,false) : vp_sint(v); }
	Self &operator<<(unsigned short v) { return vp_int(v,false); }
	Self &operator<<(int v) { return (this->flags()&(ios_base::hex|ios_base::oct)) ? vp_int((unsigned)v,false) : vp_sint(v); }
	Self &operator<<(unsigned v) { return vp_int(v,false); }
	Self &operator<<(long v) { return (this->flags()&(ios_base::hex|ios_base::oct)) ? vp_int((unsigned long)v,false) : vp_sint(v); }
	Self &operator<<(unsigned long v) { return vp_int(v,false); }
	Self &operator<<(long long v) { return (this->flags()&(ios_base::hex|ios_base::oct)) ? vp_int((unsigned long long)v,false) : vp_sint(v); }
	Self &operator<<(unsigned long long v) { return vp_int(v,false); }
	Self &operator<<(float v) { return vp_ld(v); }
	Self &operator<<(double v) { return vp_ld(v); }
	Self &operator<<(long double v) { return vp_ld(v); }
	Self &operator<<(const void *p) { char b[40]; b[0]='0'; b[1]='x'; int n=vp_fmt_base(b+2,(unsigned long long)p,16,0); return vp_put(b,n+2); }
	Self &operator<<(basic_streambuf<C,T> *sb) { typename T::int_type c=sb->sgetc(); while (!T::eq_int_type(c,T::eof())) { put(T::to_char_type(c)); c=sb->snextc(); } return *this; }
	Self &put(C c) { if (this->good()) if (T::eq_int_type(this->sb_->sputc(c),T::eof())) this->setstate(ios_base::badbit); return *this; }
	Self &write(const C *s, streamsize n) { if (this->good()) if (this->sb_->sputn(s,n)!=n) this->setstate(ios_base::badbit); return *this; }
	Self &flush() { if (this->sb_) if (this->sb_->pubsync()==-1) this->setstate(ios_base::badbit); return *this; }
	typename T::pos_type tellp() { if (this->fail()) return typename T::pos_type(-1); return this->sb_->pubseekoff(0,ios_base::cur,ios_base::out); }
	Self &seekp(typename T::pos_type p) { if (!this->fail()) if (this->sb_->pubseekpos(p,ios_base::out)==typename T::pos_type(typename T::off_type(-1))) this->setstate(ios_base::failbit); return *this; }
	Self &seekp(typename T::off_type o, ios_base::seekdir d) { if (!this->fail()) if (this->sb_->pubseekoff(o,d,ios_base::out)==typename T::pos_type(typename T::off_type(-1))) this->setstate(ios_base::failbit); return *this; }
	Self &operator<<(nullptr_t) { return vp_put("nullptr",7); }
	Self &vp_put(const C *s, streamsize n) {
		if (!this->good()) return *this;
		streamsize w=this->width(0);
		if (w>n) { bool l=(this->flags()&ios_base::adjustfield)==ios_base::left; if (!l) for (streamsize i=n;i<w;i++) put(this->fill()); write(s,n); if (l) for (streamsize i=n;i<w;i++) put(this->fill()); }
		else write(s,n);
		return *this;
	}
	class sentry { public: explicit sentry(Self &o) : o_(o) {} operator bool() const { return o_.good(); } private: Self &o_; };
private:
	Self &vp_int(unsigned long long v, bool neg) {
		char b[80]; int n=0;
		if (neg) b[n++]='-'; else if (this->flags()&ios_base::showpos) b[n++]='+';
		unsigned bf=this->flags()&ios_base::basefield;
		if (bf==ios_base::hex||bf==ios_base::oct) { n=0; if ((this->flags()&ios_base::showbase) && v) { b[n++]='0'; if (bf==ios_base::hex) b[n++]=this->flags()&ios_base::uppercase?'X':'x'; } n+=vp_fmt_base(b+n,v,bf==ios_base::hex?16:8,this->flags()&ios_base::uppercase?1:0); } else n+=vp_fmt_u64(b+n,v);
		return vp_put(b,n);
	}
	Self &vp_sint(long long v) { if (v<0) return vp_int(-(unsigned long long)v,true); return vp_int(v,false); }
	Self &vp_ld(long double v) { char b[5300]; int n=vp_fmt_ld(b,sizeof b,v,this->flags(),(int)this->precision()); return vp_put(b,n); }
};
template<typename T> basic_ostream<char,T> &operator<<(basic_ostream<char,T> &o, char c) { return o.vp_put(&c,1); }
template<typename T> basic_ostream<char,T> &operator<<(basic_ostream<char,T> &o, signed char c) { char d=c; return o.vp_put(&d,1); }
template<typename T> basic_ostream<char,T> &operator<<(basic_ostream<char,T> &o, unsigned char c) { char d=c; return o.vp_put(&d,1); }
template<typename T> basic_ostream<char,T> &operator<<(basic_ostream<char,T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.vp_put(s,T::length(s)); }
template<typename T> basic_ostream<char,T> &operator<<(basic_ostream<char,T> &o, const unsigned char *s) { return o<<(const char*)s; }
template<typename C, typename T> basic_ostream<C,T> &__ostream_insert(basic_ostream<C,T> &o, const C *s, streamsize n) { return o.vp_put(s,n); }
template<typename C, typename T> basic_ostream<C,T> &endl(basic_ostream<C,T> &o) { o.put('\n'); o.flush(); return o; }
template<typename C, typename T> basic_ostream<C,T> &ends(basic_ostream<C,T> &o) { o.put(0); return o; }
template<typename C, typename T> basic_ostream<C,T> &flush(basic_ostream<C,T> &o) { return o.flush(); }

template<typename C, typename T> class basic_istream : virtual public basic_ios<C,T> {
public:
	typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef basic_istream Self;
	explicit basic_istream(basic_streambuf<C,T> *s) : gcount_(0) { this->init(s); }
	virtual ~basic_istream() {}
	class sentry {
	public:
		explicit sentry(Self &i, bool noskip=false) : ok_(false) {
			if (!i.good()) { i.setstate(ios_base::failbit); return; }
			if (!noskip && (i.flags()&ios_base::skipws)) {
				int_type c=i.rdbuf()->sgetc();
				while (!T::eq_int_type(c,T::eof()) && vp_space(c)) c=i.rdbuf()->snextc();
				if (T::eq_int_type(c,T::eof())) { i.setstate(ios_base::eofbit|ios_base::failbit); return; }
			}
			ok_=true;
		}
		explicit operator bool() const { return ok_; }
	private: bool ok_;
		static bool vp_space(int c) { return c==' '||(c>=9&&c<=13); }
	};
	Self &operator>>(Self &(*f)(Self&)) { return f(*this); }
	Self &operator>>(ios_base &(*f)(ios_base&)) { f(*this); return *this; }
	Self &operator>>(int &v) { unsigned long long u=0; int st=vp_int(1,32,u); if (st>=0) v=(int)u; return *this; }
	Self &operator>>(unsigned &v) { unsigned long long u=0; if (vp_int(0,32,u)>=0) v=(unsigned)u; return *this; }
	Self &operator>>(short &v) { unsigned long long u=0; if (vp_int(1,16,u)>=0) v=(short)u; return *this; }
	Self &operator>>(unsigned short &v) { unsigned long long u=0; if (vp_int(0,16,u)>=0) v=(unsigned short)u; return *this; }
	Self &operator>>(long &v) { unsigned long long u=0; if (vp_int(1,64,u)>=0) v=(long)u; return *this; }
	Self &operator>>(unsigned long &v) { unsigned long long u=0; if (vp_int(0,64,u)>=0) v=u; return *this; }
	Self &operator>>(long long &v) { unsigned long long u=0; if (vp_int(1,64,u)>=0) v=(long long)u; return *this; }
	Self &operator>>(unsigned long long &v) { unsigned long long u=0; if (vp_int(0,64,u)>=0) v=u; return *this; }
	Self &operator>>(bool &v) { unsigned long long u=0; if (vp_int(0,64,u)>=0) { v=u!=0; if (u>1) this->setstate(ios_base::failbit); } return *this; }
	Self &operator>>(float &v) { long double d; if (vp_flt(2,d)) v=d; return *this; }
	Self &operator>>(double &v) { long double d; if (vp_flt(1,d)) v=d; return *this; }
	Self &operator>>(long double &v) { long double d; if (vp_flt(0,d)) v=d; return *this; }
	int_type get() { gcount_=0; sentry s(*this,true); if (!s) return T::eof(); int_type c=this->sb_->sbumpc(); if (T::eq_int_type(c,T::eof())) this->setstate(ios_base::eofbit|ios_base::failbit); else gcount_=1; return c; }
	Self &get(C &c) { int_type i=get(); if (!T::eq_int_type(i,T::eof())) c=T::to_char_type(i); return *this; }
	int_type peek() { gcount_=0; if (!this->good()) return T::eof(); int_type c=this->sb_->sgetc(); if (T::eq_int_type(c,T::eof())) this->setstate(ios_base::eofbit); return c; }
	Self &read(C *s, streamsize n) { gcount_=0; sentry se(*this,true); if (se) { gcount_=this->sb_->sgetn(s,n); if (gcount_!=n) this->setstate(ios_base::eofbit|ios_base::failbit); } return *this; }
	streamsize gcount() const { return gcount_; }
	Self &ignore(streamsize n=1, int_type d=T::eof()) { while (n-->0) { int_type c=this->sb_->sbumpc(); if (T::eq_int_type(c,T::eof())) { this->setstate(ios_base::eofbit); break; } if (T::eq_int_type(c,d)) break; } return *this; }
	Self &unget() { gcount_=0; this->clear(this->rdstate()&~ios_base::eofbit); sentry s(*this,true); if (s) if (T::eq_int_type(this->sb_->sungetc(),T::eof())) this->setstate(ios_base::badbit); return *this; }
	Self &putback(C c) { gcount_=0; this->clear(this->rdstate()&~ios_base::eofbit); sentry s(*this,true); if (s) if (T::eq_int_type(this->sb_->sputbackc(c),T::eof())) this->setstate(ios_base::badbit); return *this; }
	streamsize readsome(C *s, streamsize n) { gcount_=0; sentry se(*this,true); if (se) { streamsize k=this->sb_->in_avail(); if (k<0) this->setstate(ios_base::eofbit); else if (k>0) return read(s,k<n?k:n).gcount(); } return 0; }
	Self &getline(C *s, streamsize n) { return getline(s,n,'\n'); }
	Self &getline(C *s, streamsize n, C d) {
		gcount_=0; streamsize k=0; sentry se(*this,true);
		if (se) {
			int_type c=this->sb_->sgetc();
			while (k+1<n && !T::eq_int_type(c,T::eof()) && T::to_char_type(c)!=d) { s[k++]=T::to_char_type(c); gcount_++; c=this->sb_->snextc(); }
			if (T::eq_int_type(c,T::eof())) this->setstate(k?ios_base::eofbit:ios_base::eofbit|ios_base::failbit);
			else if (T::to_char_type(c)==d) { gcount_++; this->sb_->sbumpc(); }
			else this->setstate(ios_base::failbit);
		}
		if (n>0) s[k]=0;
		return *this;
	}
	Self &get(C *s, streamsize n, C d='\n') {
		gcount_=0; streamsize k=0; sentry se(*this,true);
		if (se) { int_type c=this->sb_->sgetc(); while (k+1<n && !T::eq_int_type(c,T::eof()) && T::to_char_type(c)!=d) { s[k++]=T::to_char_type(c); c=this->sb_->snextc(); } gcount_=k; if (T::eq_int_type(c,T::eof())) this->setstate(ios_base::eofbit); if (!k) this->setstate(ios_base::failbit); }
		if (n>0) s[k]=0;
		return *this;
	}
	typename T::pos_type tellg() { if (this->fail()) return typename T::pos_type(-1); return this->sb_->pubseekoff(0,ios_base::cur,ios_base::in); }
	Self &seekg(typename T::pos_type p) { this->clear(this->rdstate()&~ios_base::eofbit); if (!this->fail()) if (this->sb_->pubseekpos(p,ios_base::in)==typename T::pos_type(typename T::off_type(-1))) this->setstate(ios_base::failbit); return *this; }
	Self &seekg(typename T::off_type o, ios_base::seekdir d) { this->clear(this->rdstate()&~ios_base::eofbit); if (!this->fail()) if (this->sb_->pubseekoff(o,d,ios_base::in)==typename T::pos_type(typename T::off_type(-1))) this->setstate(ios_base::failbit); return *this; }
	int sync() { if (!this->sb_) return -1; return this->sb_->pubsync(); }
	Self &operator>>(basic_streambuf<C,T> *o) { streamsize k=0; int_type c=this->sb_->sgetc(); while (!T::eq_int_type(c,T::eof())) { if (T::eq_int_type(o->sputc(T::to_char_type(c)),T::eof())) break; k++; c=this->sb_->snextc(); } if (!k) this->setstate(ios_base::failbit); return *this; }
private:
	// collect the characters a number may consist of without consuming more than needed
	int vp_int(int sg, int bits, unsigned long long &u) {
		sentry se(*this); if (!se) return -1;
		string t; collect(t,false); const char *e; int r=vp_parse_int(t.data(),t.data()+t.size(),sg,bits,&u,&e);
		if (r) this->setstate(ios_base::failbit); return r;
	}
	bool vp_flt(int kind, long double &d) {
		sentry se(*this); if (!se) return false;
		string t; collect(t,true); const char *e; d=0; if (vp_parse_float(t.data(),t.data()+t.size(),kind,&d,&e)) this->setstate(ios_base::failbit); return true;
	}
	void collect(string &t, bool flt) {
		int_type c=this->sb_->sgetc(); bool digits=false, dot=false, ex=false, sign=true;
		while (true) {
			if (T::eq_int_type(c,T::eof())) { this->setstate(ios_base::eofbit); return; }
			if (c>='0'&&c<='9') { digits=true; sign=false; }
			else if ((c=='+'||c=='-') && sign) sign=false;
			else if (flt && c=='.' && !dot && !ex) { dot=true; sign=false; }
			else if (flt && (c=='e'||c=='E') && !ex && digits) { ex=true; sign=true; }
			else return;
			t+=(char)c; c=this->sb_->snextc();
		}
	}
	streamsize gcount_;
};
template<typename T> basic_istream<char,T> &operator>>(basic_istream<char,T> &i, char &c) { typename basic_istream<char,T>::sentry s(i); if (s) { int x=i.rdbuf()->sbumpc(); if (x==T::eof()) i.setstate(ios_base::eofbit|ios_base::failbit); else c=(char)x; } return i; }
template<typename C, typename T> basic_istream<C,T> &ws(basic_istream<C,T> &i) { int x=i.rdbuf()->sgetc(); while (x!=T::eof() && (x==' '||(x>=9&&x<=13))) x=i.rdbuf()->snextc(); if (x==T::eof()) i.setstate(ios_base::eofbit); return i; }

template<typename C, typename T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> {
public: explicit basic_iostream(basic_streambuf<C,T> *s) : basic_istream<C,T>(s), basic_ostream<C,T>(s) {} virtual ~basic_iostream() {} };

inline namespace __cxx11 {
template<typename C, typename T, typename A> class basic_stringbuf : public basic_streambuf<C,T> {
public:
	typedef typename T::int_type int_type; typedef basic_string<C,T,A> S;
	explicit basic_stringbuf(ios_base::openmode m=ios_base::in|ios_base::out) : pos_(0), wpos_(0), m_(m) {}
	explicit basic_stringbuf(const S &s, ios_base::openmode m=ios_base::in|ios_base::out) : s_(s), pos_(0), wpos_((m&(ios_base::ate|ios_base::app))?s.size():0), m_(m) {}
	S str() const { return s_; }
	void str(const S &s) { s_=s; pos_=0; wpos_=(m_&(ios_base::ate|ios_base::app))?s.size():0; }
protected:
	int_type underflow() { if (!(m_&ios_base::in)) return T::eof(); return pos_<s_.size()?T::to_int_type(s_[pos_]):T::eof(); }
	int_type uflow() { if (!(m_&ios_base::in)) return T::eof(); return pos_<s_.size()?T::to_int_type(s_[pos_++]):T::eof(); }
	streamsize xsgetn(C *d, streamsize n) { if (!(m_&ios_base::in)) return 0; streamsize k=s_.size()-pos_; if (k>n) k=n; T::copy(d,s_.data()+pos_,k); pos_+=k; return k; }
	int_type overflow(int_type c) { if (!(m_&ios_base::out)) return T::eof(); if (T::eq_int_type(c,T::eof())) return T::not_eof(c); C ch=T::to_char_type(c); xsputn(&ch,1); return c; }
	streamsize xsputn(const C *d, streamsize n) { if (!(m_&ios_base::out)) return 0; if (wpos_==s_.size()) s_.append(d,n); else s_.replace(wpos_,n,d,n); wpos_+=n; return n; }
	int_type pbackfail(int_type c) { if (pos_ && (T::eq_int_type(c,T::eof()) || T::eq_int_type(c,T::to_int_type(s_[pos_-1])))) { --pos_; return T::to_int_type(s_[pos_]); } return T::eof(); }
	typename T::pos_type seekoff(typename T::off_type o, ios_base::seekdir d, ios_base::openmode w) {
		typedef typename T::pos_type P; typedef typename T::off_type O;
		bool in=(w&ios_base::in)&&(m_&ios_base::in), out=(w&ios_base::out)&&(m_&ios_base::out);
		if (!in && !out) return P(O(-1)); if (in && out && d==ios_base::cur) return P(O(-1));
		O b=d==ios_base::beg?0:d==ios_base::end?(O)s_.size():(O)(in?pos_:wpos_); O n=b+o;
		if (n<0 || n>(O)s_.size()) return P(O(-1));
		if (in) pos_=n; if (out) wpos_=n; return P(n);
	}
	typename T::pos_type seekpos(typename T::pos_type p, ios_base::openmode w) { return seekoff(typename T::off_type(p),ios_base::beg,w); }
	streamsize showmanyc() { return (m_&ios_base::in)?(streamsize)(s_.size()-pos_):-1; }
private: S s_; size_t pos_, wpos_; ios_base::openmode m_;
};
template<typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C,T> {
public: explicit basic_ostringstream(ios_base::openmode m=ios_base::out) : basic_ostream<C,T>(0), b_(m|ios_base::out) { this->init(&b_); }
	explicit basic_ostringstream(const basic_string<C,T,A> &s, ios_base::openmode m=ios_base::out) : basic_ostream<C,T>(0), b_(s,m|ios_base::out) { this->init(&b_); }
	basic_stringbuf<C,T,A> *rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&b_); }
	basic_string<C,T,A> str() const { return b_.str(); } void str(const basic_string<C,T,A> &s) { b_.str(s); }
private: basic_stringbuf<C,T,A> b_; };
template<typename C, typename T, typename A> class basic_istringstream : public basic_istream<C,T> {
public: explicit basic_istringstream(ios_base::openmode m=ios_base::in) : basic_istream<C,T>(0), b_(m|ios_base::in) { this->init(&b_); }
	explicit basic_istringstream(const basic_string<C,T,A> &s, ios_base::openmode m=ios_base::in) : basic_istream<C,T>(0), b_(s,m|ios_base::in) { this->init(&b_); }
	basic_stringbuf<C,T,A> *rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&b_); }
	basic_string<C,T,A> str() const { return b_.str(); } void str(const basic_string<C,T,A> &s) { b_.str(s); }
private: basic_stringbuf<C,T,A> b_; };
template<typename C, typename T, typename A> class basic_stringstream : public basic_iostream<C,T> {
public: explicit basic_stringstream(ios_base::openmode m=ios_base::in|ios_base::out) : basic_iostream<C,T>(0), b_(m) { this->init(&b_); }
	explicit basic_stringstream(const basic_string<C,T,A> &s, ios_base::openmode m=ios_base::in|ios_base::out) : basic_iostream<C,T>(0), b_(s,m) { this->init(&b_); }
	basic_stringbuf<C,T,A> *rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&b_); }
	basic_string<C,T,A> str() const { return b_.str(); } void str(const basic_string<C,T,A> &s) { b_.str(s); }
private: basic_stringbuf<C,T,A> b_; };
}
// file streams: declared, opening always fails (the checks never touch files)
template<typename C, typename T> class basic_filebuf : public basic_streambuf<C,T> { public: bool is_open() const { return false; } basic_filebuf *open(const char*, ios_base::openmode) { return 0; } basic_filebuf *close() { return 0; } };
template<typename C, typename T> class basic_ifstream : public basic_istream<C,T> { public: basic_ifstream() : basic_istream<C,T>(0) { this->init(&b_); } explicit basic_ifstream(const char*, ios_base::openmode=ios_base::in) : basic_istream<C,T>(0) { this->init(&b_); this->setstate(ios_base::failbit); } explicit basic_ifstream(const string&, ios_base::openmode=ios_base::in) : basic_istream<C,T>(0) { this->init(&b_); this->setstate(ios_base::failbit); } bool is_open() const { return false; } void close() {} basic_filebuf<C,T> *rdbuf() const { return const_cast<basic_filebuf<C,T>*>(&b_); } private: basic_filebuf<C,T> b_; };
template<typename C, typename T> class basic_ofstream : public basic_ostream<C,T> { public: basic_ofstream() : basic_ostream<C,T>(0) { this->init(&b_); } explicit basic_ofstream(const char*, ios_base::openmode=ios_base::out) : basic_ostream<C,T>(0) { this->init(&b_); this->setstate(ios_base::failbit); } explicit basic_ofstream(const string&, ios_base::openmode=ios_base::out) : basic_ostream<C,T>(0) { this->init(&b_); this->setstate(ios_base::failbit); } bool is_open() const { return false; } void close() {} basic_filebuf<C,T> *rdbuf() const { return const_cast<basic_filebuf<C,T>*>(&b_); } private: basic_filebuf<C,T> b_; };

struct vp_Setflags { ios_base::fmtflags f; bool on; }; inline vp_Setflags setiosflags(ios_base::fmtflags f) { vp_Setflags s={f,true}; return s; } inline vp_Setflags resetiosflags(ios_base::fmtflags f) { vp_Setflags s={f,false}; return s; }
template<typename C, typename T> basic_ostream<C,T> &operator<<(basic_ostream<C,T> &o, vp_Setflags s) { if (s.on) o.setf(s.f); else o.unsetf(s.f); return o; }
template<typename C, typename T> basic_istream<C,T> &operator>>(basic_istream<C,T> &i, vp_Setflags s) { if (s.on) i.setf(s.f); else i.unsetf(s.f); return i; }
struct vp_Setprec { int n; }; inline vp_Setprec setprecision(int n) { vp_Setprec s={n}; return s; }
struct vp_Setw { int n; }; inline vp_Setw setw(int n) { vp_Setw s={n}; return s; }
struct vp_Setfill { char c; }; inline vp_Setfill setfill(char c) { vp_Setfill s={c}; return s; }
struct vp_Setbase { int n; }; inline vp_Setbase setbase(int n) { vp_Setbase s={n}; return s; }
template<typename C, typename T> basic_ostream<C,T> &operator<<(basic_ostream<C,T> &o, vp_Setprec s) { o.precision(s.n); return o; }
template<typename C, typename T> basic_ostream<C,T> &operator<<(basic_ostream<C,T> &o, vp_Setw s) { o.width(s.n); return o; }
template<typename C, typename T> basic_ostream<C,T> &operator<<(basic_ostream<C,T> &o, vp_Setfill s) { o.fill(s.c); return o; }
template<typename C, typename T> basic_ostream<C,T> &operator<<(basic_ostream<C,T> &o, vp_Setbase s) { o.setf(s.n==16?ios_base::hex:s.n==8?ios_base::oct:ios_base::dec,ios_base::basefield); return o; }

template<typename O, typename X> inline typename enable_if<is_base_of<ios_base,O>::value && !is_lvalue_reference<O>::value,O&&>::type operator<<(O &&o, const X &x) { o<<x; return std::move(o); }
template<typename I, typename X> inline typename enable_if<is_base_of<ios_base,I>::value && !is_lvalue_reference<I>::value,I&&>::type operator>>(I &&i, X &&x) { i>>x; return std::move(i); }
typedef basic_streambuf<char> vp_sb_t;
extern ostream cout, cerr, clog; extern istream cin;
}
#include <bits/streambuf_iterator.h>
#include <bits/stream_iterator.h>
#endif
