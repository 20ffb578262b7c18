// C++ runtime pieces linked into the bitcode: exception ABI, standard exceptions, red-black tree, iostream globals.
#include "vp.h"
#include "vp_streams.h"
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <map>
#include <list>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <exception>
#include <functional>
#include <unordered_map>
#include <memory>
#include <mutex>
#include <system_error>
#include <charconv>
#include <variant>
#include <optional>
#include <pthread.h>

template class std::basic_string<char>;

// ---------------------------------------------------------------- allocation
extern "C" __attribute__((weak)) int vp_new_fails();
static inline void newFault() { if (vp_new_fails && vp_new_fails()) throw std::bad_alloc(); }
void *operator new(size_t n) { newFault(); if (n==0) n=1; void *p=malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { newFault(); if (n==0) n=1; void *p=malloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t&) noexcept { if (n==0) n=1; return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
const std::nothrow_t std::nothrow = std::nothrow_t();

// ---------------------------------------------------------------- exception ABI
struct Hdr { int refs, flying; void *next; std::type_info *ti; void (*dtor)(void*); void *adj; long handlers; };   // precedes the object
static Hdr *hdr(void *exc) { return (Hdr*)exc-1; }
static Hdr *caught=0; static int uncaught=0;
extern "C" {
void *__cxa_allocate_exception(size_t n) noexcept { char *p=(char*)vp_calloc1(sizeof(Hdr)+n); return p+sizeof(Hdr); }
void __cxa_free_exception(void *p) noexcept { free(hdr(p)); }
void __cxa_throw(void *exc, std::type_info *ti, void (*dtor)(void*)) { Hdr *h=hdr(exc); h->ti=ti; h->dtor=dtor; h->adj=exc; h->handlers=0; uncaught++; vp_unwind(exc); __builtin_unreachable(); }
void *__cxa_begin_catch(void *exc) noexcept {
	Hdr *h=hdr(exc); if (h->handlers<0) h->handlers=-h->handlers+1; else { h->handlers++; }
	uncaught--; if (h->flying) { h->flying--; h->refs--; }
	if (h!=caught) { h->next=caught; caught=h; }
	return h->adj;
}
void *__cxa_get_exception_ptr(void *exc) noexcept { return hdr(exc)->adj; }
static void destroyExc(Hdr *h) { if (h->dtor) vp_call_dtor((void*)h->dtor,h+1); free(h); }
void __cxa_end_catch() {
	Hdr *h=caught; if (!h) return;
	if (h->handlers<0) { if (++h->handlers==0) caught=(Hdr*)h->next; return; }   // rethrown
	if (--h->handlers==0) { caught=(Hdr*)h->next; if (!h->refs) destroyExc(h); }
}
void __cxa_rethrow() { Hdr *h=caught; if (!h) { vp_crash("rethrow without active exception"); } h->handlers=-h->handlers; uncaught++; vp_unwind(h+1); __builtin_unreachable(); }
void __cxa_pure_virtual() { vp_crash("pure virtual call"); __builtin_unreachable(); }
void __cxa_call_unexpected(void*) { vp_crash("unexpected exception"); __builtin_unreachable(); }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_alloc(); }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_guard_acquire(char *g) { return !g[0]; }
void __cxa_guard_release(char *g) { g[0]=1; }
void __cxa_guard_abort(char*) {}
int __gxx_personality_v0(...) { return 0; }
void *__dso_handle=0;
char __libc_single_threaded=1;
}
namespace std {
void terminate() noexcept { vp_crash("std::terminate called"); __builtin_unreachable(); }
bool uncaught_exception() noexcept { return uncaught!=0; }
int uncaught_exceptions() noexcept { return uncaught; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }

struct CowRep { size_t n; int rc; char s[1]; };
static const char *cowNew(const char *s, size_t n) { CowRep *r=(CowRep*)malloc(sizeof(CowRep)+n); if (!r) throw bad_alloc(); r->n=n; r->rc=1; memcpy(r->s,s,n); r->s[n]=0; return r->s; }
static CowRep *cowRep(const char *p) { return (CowRep*)(p-offsetof(CowRep,s)); }
static void cowDec(const char *p) { CowRep *r=cowRep(p); if (--r->rc==0) free(r); }
__cow_string::__cow_string() { _M_p=cowNew("",0); }
__cow_string::__cow_string(const string &s) { _M_p=cowNew(s.data(),s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p=cowNew(s,n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p=o._M_p; cowRep(_M_p)->rc++; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { cowRep(o._M_p)->rc++; cowDec(_M_p); _M_p=o._M_p; return *this; }
__cow_string::~__cow_string() { cowDec(_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p=o._M_p; cowRep(_M_p)->rc++; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { cowRep(o._M_p)->rc++; cowDec(_M_p); _M_p=o._M_p; return *this; }
static size_t cowLen(const char *s) { if (!s) throw logic_error("basic_string: construction from null is not valid"); return strlen(s); } // as libstdc++
#define CLS(C,B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
#define ROOT(C) C::C(const string &s) : exception(), _M_msg(s) {} C::C(const char *s) : exception(), _M_msg(s,cowLen(s)) {} C::C(const C &o) noexcept : exception(o), _M_msg(o._M_msg) {} C::C(C &&o) noexcept : exception(o), _M_msg(o._M_msg) {} C &C::operator=(const C &o) noexcept { _M_msg=o._M_msg; return *this; } C &C::operator=(C &&o) noexcept { _M_msg=o._M_msg; return *this; } C::~C() noexcept {} const char *C::what() const noexcept { return _M_msg._M_p; }
ROOT(runtime_error) ROOT(logic_error)
CLS(out_of_range,logic_error) CLS(length_error,logic_error) CLS(invalid_argument,logic_error) CLS(domain_error,logic_error)
CLS(range_error,runtime_error) CLS(overflow_error,runtime_error) CLS(underflow_error,runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }

// ---------------------------------------------------------------- red-black tree (same algorithms as libstdc++)
typedef _Rb_tree_node_base N;
static N *inc(N *x) noexcept { if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; } else { N *y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
static N *decn(N *x) noexcept { if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) x=x->_M_right; else if (x->_M_left) { N *y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; } else { N *y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; } return x; }
N *_Rb_tree_increment(N *x) noexcept { return inc(x); }
const N *_Rb_tree_increment(const N *x) noexcept { return inc(const_cast<N*>(x)); }
N *_Rb_tree_decrement(N *x) noexcept { return decn(x); }
const N *_Rb_tree_decrement(const N *x) noexcept { return decn(const_cast<N*>(x)); }
static void rotl(N *x, N *&root) { N *y=x->_M_right; x->_M_right=y->_M_left; if (y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(N *x, N *&root) { N *y=x->_M_left; x->_M_left=y->_M_right; if (y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) noexcept {
	N *&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
	if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; } else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
	while (x!=root && x->_M_parent->_M_color==_S_red) {
		N *const g=x->_M_parent->_M_parent;
		if (x->_M_parent==g->_M_left) {
			N *const y=g->_M_right;
			if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; }
			else { if (x==x->_M_parent->_M_right) { x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr(g,root); }
		} else {
			N *const y=g->_M_left;
			if (y && y->_M_color==_S_red) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; }
			else { if (x==x->_M_parent->_M_left) { x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl(g,root); }
		}
	}
	root->_M_color=_S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) noexcept {
	N *&root=h._M_parent; N *&leftmost=h._M_left; N *&rightmost=h._M_right; N *y=z; N *x=0; N *xp=0;
	if (!y->_M_left) x=y->_M_right; else if (!y->_M_right) x=y->_M_left; else { y=y->_M_right; while (y->_M_left) y=y->_M_left; x=y->_M_right; }
	if (y!=z) {
		z->_M_left->_M_parent=y; y->_M_left=z->_M_left;
		if (y!=z->_M_right) { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y;
		if (root==z) root=y; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y;
		y->_M_parent=z->_M_parent; _Rb_tree_color c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z;
	} else {
		xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent;
		if (root==z) root=x; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
		if (leftmost==z) { if (!z->_M_right) leftmost=z->_M_parent; else { N *m=x; while (m->_M_left) m=m->_M_left; leftmost=m; } }
		if (rightmost==z) { if (!z->_M_left) rightmost=z->_M_parent; else { N *m=x; while (m->_M_right) m=m->_M_right; rightmost=m; } }
	}
	if (y->_M_color!=_S_red) {
		while (x!=root && (!x || x->_M_color==_S_black))
			if (x==xp->_M_left) {
				N *w=xp->_M_right;
				if (w->_M_color==_S_red) { w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
				if ((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
				else { if (!w->_M_right||w->_M_right->_M_color==_S_black) { w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; }
			} else {
				N *w=xp->_M_left;
				if (w->_M_color==_S_red) { w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
				if ((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
				else { if (!w->_M_left||w->_M_left->_M_color==_S_black) { w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; }
			}
		if (x) x->_M_color=_S_black;
	}
	return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next=p; this->_M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n=_M_next, *const p=_M_prev; p->_M_next=n; n->_M_prev=p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base *const t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
}
namespace __detail {
void _List_node_base::_M_reverse() noexcept { _List_node_base *t=this; do { _List_node_base *n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while (t!=this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
	if (x._M_next!=&x) {
		if (y._M_next!=&y) { _List_node_base *a=x._M_next,*b=x._M_prev; x._M_next=y._M_next; x._M_prev=y._M_prev; y._M_next=a; y._M_prev=b; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; }
		else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; }
	} else if (y._M_next!=&y) { x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; }
}
// bucket counts as libstdc++ chooses them
static const unsigned long PRIMES[]={2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233,67307,72817,78779,85229,92203,99733,107897,116731,126271,136607,147793,159871,172933,187091,202409,218971,236897,256279,277261,299951,324503,351061,379787,410857};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
	static const unsigned char F[]={2,2,2,3,5,5,7,7,11,11,11,11,13,13};
	if (n<sizeof F) { if (n==0) return 1; _M_next_resize=(size_t)__builtin_floor(F[n]*(double)_M_max_load_factor); return F[n]; }
	unsigned i=5; while (i+1<sizeof PRIMES/sizeof *PRIMES && PRIMES[i]<n) i++;
	if (PRIMES[i]<n) vp_error("hash table larger than the model");
	_M_next_resize=(size_t)__builtin_floor(PRIMES[i]*(double)_M_max_load_factor); return PRIMES[i];
}
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
	if (ne+ni>_M_next_resize) {
		double mb=(double)(ne+(_M_next_resize?ni:max<size_t>(ni,11)))/(double)_M_max_load_factor;
		if (mb>=(double)nb) return make_pair(true,_M_next_bkt(max<size_t>((size_t)__builtin_floor(mb)+1,nb*2)));
		_M_next_resize=(size_t)__builtin_floor((double)nb*(double)_M_max_load_factor); return make_pair(false,(size_t)0);
	}
	return make_pair(false,(size_t)0);
}
}
static inline size_t mix(size_t v) { return v^(v>>47); }
size_t _Hash_bytes(const void *p, size_t len, size_t seed) {   // the same function as libstdc++, the order of a table depends on it
	const size_t mul=(((size_t)0xc6a4a793UL)<<32UL)+(size_t)0x5bd1e995UL; const unsigned char *b=(const unsigned char*)p; size_t al=len&~(size_t)7; size_t h=seed^(len*mul);
	for (size_t i=0;i<al;i+=8) { size_t d=0; for (int k=7;k>=0;k--) d=(d<<8)|b[i+k]; d=mix(d*mul)*mul; h^=d; h*=mul; }
	if (len&7) { size_t d=0; for (int k=(int)(len&7)-1;k>=0;k--) d=(d<<8)|b[al+k]; h^=d; h*=mul; }
	h=mix(h)*mul; h=mix(h); return h;
}
size_t _Fnv_hash_bytes(const void *p, size_t len, size_t h) { const unsigned char *b=(const unsigned char*)p; while (len--) { h^=*b++; h*=(size_t)1099511628211ULL; } return h; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
namespace __exception_ptr {
static Hdr *eh(void *p) { return (Hdr*)p-1; }
exception_ptr::exception_ptr(void *e) noexcept : _M_exception_object(e) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) eh(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) { Hdr *h=eh(_M_exception_object); if (--h->refs==0 && h->handlers==0) destroyExc(h); _M_exception_object=0; } }
void *exception_ptr::_M_get() const noexcept { return _M_exception_object; }
const type_info *exception_ptr::__cxa_exception_type() const noexcept { return _M_exception_object?eh(_M_exception_object)->ti:0; }
}
exception_ptr current_exception() noexcept { return caught?exception_ptr((void*)(caught+1)):exception_ptr(); }
void rethrow_exception(exception_ptr e) { Hdr *h=(Hdr*)e._M_get()-1; h->refs++; h->flying++; uncaught++; vp_unwind(h+1); __builtin_unreachable(); }
nested_exception::~nested_exception() noexcept {}
__thread void *__once_callable; __thread void (*__once_call)();
// ---------------------------------------------------------------- error codes
struct VpCat : public error_category { const char *nm; VpCat(const char *n) : nm(n) {} virtual const char *name() const noexcept { return nm; } virtual string message(int e) const { return strerror(e); } };
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i)==c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this==c.category() && c.value()==i; }
__cow_string error_category::_M_message(int e) const { return __cow_string(message(e)); }
inline namespace _V2 {
const error_category &generic_category() noexcept { static VpCat c("generic"); return c; }
const error_category &system_category() noexcept { static VpCat c("system"); return c; }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
void __throw_system_error(int e) { throw system_error(error_code(e,generic_category())); }
// ---------------------------------------------------------------- numbers to text
to_chars_result to_chars(char *f, char *l, double v) noexcept { char t[400]; for (int p=1;p<=17;p++) { int n=snprintf(t,sizeof t,"%.*g",p,v); if (strtod(t,0)==v || p==17) { if (l-f<n) { to_chars_result r; r.ptr=l; r.ec=errc::value_too_large; return r; } memcpy(f,t,n); to_chars_result r; r.ptr=f+n; r.ec=errc(); return r; } } to_chars_result r; r.ptr=l; r.ec=errc::value_too_large; return r; }
from_chars_result from_chars(const char *f, const char *l, double &v, chars_format) noexcept { string s(f,l); char *e; double d=strtod(s.c_str(),&e); from_chars_result r; r.ptr=f+(e-s.c_str()); r.ec=errc(); if (e==s.c_str()) { r.ptr=f; r.ec=errc::invalid_argument; } else v=d; return r; }
// ---------------------------------------------------------------- standard streams: output is discarded
struct NullBuf : public basic_streambuf<char> { NullBuf() {} virtual int overflow(int c) { return c==-1?0:c; } virtual streamsize xsputn(const char*, streamsize n) { return n; } };
static NullBuf nullbuf;
ostream cout(&nullbuf), cerr(&nullbuf), clog(&nullbuf); istream cin(&nullbuf);
template class basic_ostream<char>; template class basic_istream<char>; template class basic_iostream<char>; template class basic_ios<char>; template class basic_streambuf<char>;
template class basic_stringbuf<char>; template class basic_ostringstream<char>; template class basic_istringstream<char>; template class basic_stringstream<char>;
}

// ---------------------------------------------------------------- words and lines
namespace std {
template<> istream &operator>>(istream &i, string &s) {
	istream::sentry se(i); if (!se) return i;
	s.clear(); streamsize w=i.width(0), k=0; int c=i.rdbuf()->sgetc();
	while (c!=EOF && !(c==' '||(c>=9&&c<=13)) && (w<=0 || k<w)) { s+=(char)c; k++; c=i.rdbuf()->snextc(); }
	ios_base::iostate st=c==EOF?ios_base::eofbit:ios_base::goodbit; if (!k) st|=ios_base::failbit; if (st) i.setstate(st);
	return i;
}
template<> istream &getline(istream &i, string &s, char d) {
	istream::sentry se(i,true); if (!se) return i;
	s.clear(); bool got=false; int c=i.rdbuf()->sgetc();
	while (c!=EOF && (char)c!=d) { s+=(char)c; got=true; c=i.rdbuf()->snextc(); }
	if (c!=EOF) i.rdbuf()->sbumpc(); else i.setstate(got?ios_base::eofbit:ios_base::eofbit|ios_base::failbit);
	return i;
}
}

// ---------------------------------------------------------------- one thread
extern "C" {
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_trylock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t*) noexcept { return 0; }
int pthread_once(pthread_once_t *o, void (*f)()) { if (!*o) { f(); *o=2; } return 0; }
unsigned long pthread_self() noexcept { return 1; }
void __once_proxy() { std::__once_call(); }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
}
