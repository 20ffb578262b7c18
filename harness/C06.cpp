// Blob comparison and copying.
#include "vh.h"
static unsigned freed; static void count_free(void *p, void *ctx) { freed++; *(unsigned*)ctx+=1; free(p); }
struct Bytes { std::vector<unsigned char> d; std::vector<struct iovec> v; };
// bytes cut into segments, each an exactly sized allocation
static Bytes make(const char *nm, unsigned max, unsigned nseg) {
	Bytes r; unsigned n=pick("n",max+1), segs=pick("segs",nseg)+1; unsigned char *all=(unsigned char*)malloc(n+1); vp_bytes(all,n,nm); r.d.assign(all,all+n); free(all);
	unsigned at=0; for (unsigned i=0;i<segs;i++) { unsigned len=i+1==segs?n-at:pick("cut",n-at+1); struct iovec v; v.iov_base=malloc(len?len:1); v.iov_len=len; if (len) memcpy(v.iov_base,&r.d[at],len); at+=len; r.v.push_back(v); }
	return r;
}
static bool same(const std::vector<unsigned char> &a, const std::vector<unsigned char> &b) { if (a.size()!=b.size()) return false; unsigned d=0; for (unsigned i=0;i<a.size();i++) d|=a[i]^b[i]; return d==0; }
static int sgn(int x) { return x<0?-1:x>0; }
static void cmp() {
	unsigned max=vp_param("N",4), ns=vp_param("SEGS",3); unsigned fa=0,fb=0;
	{ Bytes a=make("a",max,ns), b=make("b",max,ns);
	BlobPtr pa=Blob::Create(&a.v[0],a.v.size(),count_free,&fa), pb=Blob::Create(&b.v[0],b.v.size(),count_free,&fb);
	vp_assert(pa->GetTotalLength()==a.d.size(),"total length"); vp_assert(pa->GetNumBuffers()==a.v.size(),"number of buffers");
	bool eq=same(a.d,b.d); int c=pa->Compare(pb), d=pb->Compare(pa);
	vp_assert((c==0)==eq,"blob comparison disagrees with the bytes"); vp_assert(sgn(c)==-sgn(d),"blob comparison not antisymmetric");
	vp_assert(pa->Compare(pa)==0,"blob not equal to itself");
	Variant va(pa), vb(pb); vp_assert((va==vb)==eq,"variant blob equality"); vp_assert((va!=vb)==!eq,"variant blob inequality"); vp_assert(va==va,"variant blob reflexive"); vp_assert(!(eq && ((va<vb)||(va>vb))),"equal blobs ordered");
	vp_assert(va.Size()==a.d.size(),"blob size");
	vp_observe(eq); vp_observe(sgn(c)+1); vp_reach(eq?"equal":"different");
	vp_assert(fa==0 && fb==0,"buffers released while in use"); }
	vp_assert(fa>=1 && fb>=1,"buffers not released");
}
static void copy() {
	unsigned max=vp_param("N",4), ns=vp_param("SEGS",3); unsigned fa=0;
	Bytes a=make("a",max,ns); unsigned kind=pick("kind",3); BlobPtr p;
	if (kind==0) p=Blob::Create(&a.v[0],a.v.size(),count_free,&fa); else if (kind==1) p=Blob::CreateFree(&a.v[0],a.v.size()); else p=Blob::CreateReferenced(&a.v[0],a.v.size());
	BlobPtr q; Variant vc; unsigned how=pick("how",3); if (how==0) q=p->Copy(); else if (how==1) q=Blob::CreateCopy(&a.v[0],a.v.size()); else { Variant v(p); vc=v.Copy(); q=vc.AsBlob(); }
	vp_assert(q->GetTotalLength()==a.d.size(),"copy length"); vp_assert(p->Compare(q)==0 && q->Compare(p)==0,"copy differs from original");
	// overwrite the original, then the copy
	for (unsigned i=0;i<p->GetNumBuffers();i++) memset(p->GetPtr(i),0x5a,p->GetLength(i));
	unsigned at=0; for (unsigned i=0;i<q->GetNumBuffers();i++) for (unsigned j=0;j<q->GetLength(i);j++) vp_assert(((unsigned char*)q->GetPtr(i))[j]==a.d[at++],"copy shares storage with the original");
	vp_assert(at==a.d.size(),"copy lost bytes");
	for (unsigned i=0;i<q->GetNumBuffers();i++) memset(q->GetPtr(i),0xa5,q->GetLength(i));
	for (unsigned i=0;i<p->GetNumBuffers();i++) for (unsigned j=0;j<p->GetLength(i);j++) vp_assert(((unsigned char*)p->GetPtr(i))[j]==0x5a,"original shares storage with the copy");
	p.reset(); if (kind==0) vp_assert(fa==a.v.size(),"each buffer released once"); at=0;
	for (unsigned i=0;i<q->GetNumBuffers();i++) for (unsigned j=0;j<q->GetLength(i);j++) vp_assert(((unsigned char*)q->GetPtr(i))[j]==0xa5,"copy does not outlive the original");
	if (kind==2) for (unsigned i=0;i<a.v.size();i++) { vp_observe(a.v[i].iov_len); free(a.v[i].iov_base); }
	vp_observe(a.d.size()); vp_reach("copy");
}
// a blob value that holds no blob yet
static void empty() {
	Variant v(Variant::BlobType), w(Variant::BlobType); vp_assert(v.IsBlob() && !v.AsBlob(),"empty blob value"); vp_assert(v.Size()==0,"size of an empty blob value");
	Variant c=v.Copy(); vp_assert(c.IsBlob() && c.Size()==0,"copy of an empty blob value"); vp_assert(v==w && c==v,"empty blob values are equal");
	Bytes a=make("a",vp_param("N",4),vp_param("SEGS",3)); Variant b(Blob::CreateCopy(&a.v[0],a.v.size())); if (a.d.size()) vp_assert(!(v==b) && !(b==v),"empty blob value equal to bytes");
	for (unsigned i=0;i<a.v.size();i++) free(a.v[i].iov_base); vp_observe(b.Size()); vp_reach("empty");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: cmp(); break; case 1: copy(); break; case 2: empty(); break; } }
