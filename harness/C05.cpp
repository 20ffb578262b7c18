// Base64 encode/decode.
#include "vh.h"
#include "Base64.h"
static const char ALPHA[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// text an RFC 4648 encoder produces for b
static std::string ref(const unsigned char *b, unsigned n) {
	std::string r;
	for (unsigned i=0;i<n;i+=3) {
		unsigned a=b[i], c=i+1<n?b[i+1]:0, d=i+2<n?b[i+2]:0;
		r+=ALPHA[a>>2]; r+=ALPHA[((a&3)<<4)|(c>>4)]; r+= i+1<n?ALPHA[((c&15)<<2)|(d>>6)]:'='; r+= i+2<n?ALPHA[d&63]:'=';
	}
	return r;
}
static int b64(unsigned char c) { return c>='A'&&c<='Z'?c-'A':c>='a'&&c<='z'?c-'a'+26:c>='0'&&c<='9'?c-'0'+52:c=='+'?62:c=='/'?63:-1; }
static void encode() {
	unsigned max=vp_param("N",6), nseg=vp_param("SEGS",3);
	unsigned n=pick("n",max+1);
	unsigned cpl; switch (pick("cpl",3)) { case 0: cpl=0; break; case 1: cpl=4; break; default: cpl=72; }
	unsigned segs=1+pick("segs",nseg);
	unsigned char *all=(unsigned char*)malloc(n?n:1); vp_bytes(all,n,"data");
	// cut into segments, each in its own exactly sized buffer
	std::vector<struct iovec> iov; unsigned at=0;
	for (unsigned i=0;i<segs;i++) {
		unsigned len = i+1==segs ? n-at : pick("cut",n-at+1);
		struct iovec v; v.iov_base=malloc(len?len:1); v.iov_len=len; memcpy(v.iov_base,all+at,len); at+=len; iov.push_back(v);
	}
	unsigned sz=Base64EncodeSize(n,cpl);
	char *out=(char*)malloc(sz); unsigned got=Base64Encode(out,&iov[0],iov.size(),cpl);
	vp_assert(got<sz,"encoded length exceeds announced size"); vp_assert(out[got]==0,"encoding not NUL terminated");
	std::string want=ref(all,n), clean; for (unsigned i=0;i<got;i++) { if (out[i]=='\n') { vp_assert(cpl!=0,"unexpected line break"); continue; } clean+=out[i]; }
	vp_assert(clean.size()==want.size(),"encoding has the wrong length");
	for (unsigned i=0;i<want.size();i++) vp_assert(clean[i]==want[i],"encoding differs from RFC 4648");
	if (cpl==4) { unsigned col=0; for (unsigned i=0;i<got;i++) { if (out[i]=='\n') col=0; else { col++; vp_assert(col<=4,"line longer than requested"); } } }
	if (iov.size()==1) { char *o2=(char*)malloc(sz); unsigned g2=Base64Encode(o2,iov[0].iov_base,n,cpl); vp_assert(g2==got && !memcmp(o2,out,got),"contiguous and scattered encodings differ"); free(o2); }
	unsigned dsz=Base64DecodeSize(got); unsigned char *dec=(unsigned char*)malloc(dsz); char *exact=(char*)malloc(got?got:1); memcpy(exact,out,got);
	unsigned dn=Base64Decode(dec,exact,got);
	vp_assert(dn==n,"decoded length differs"); vp_assert(!memcmp(dec,all,n),"decoded bytes differ");
	obs(std::string(out,got)); vp_observe(dn); vp_reach("encode");
	free(exact); free(dec); free(out); free(all); for (unsigned i=0;i<iov.size();i++) free(iov[i].iov_base);
}
static void decode() {
	unsigned max=vp_param("N",5); unsigned n=pick("n",max+1);
	char *in=(char*)malloc(n?n:1); vp_bytes(in,n,"text");
	unsigned dsz=Base64DecodeSize(n); unsigned char *out=(unsigned char*)malloc(dsz);
	unsigned got=Base64Decode(out,in,n);
	// reference: characters outside the alphabet (padding included) are skipped
	std::vector<unsigned char> want; unsigned acc=0, k=0;
	for (unsigned i=0;i<n;i++) {
		int v=b64((unsigned char)in[i]); if (v<0) continue;
		acc=(acc<<6)|(unsigned)v; k++; if (k%4==2) want.push_back((unsigned char)(acc>>4)); else if (k%4==3) want.push_back((unsigned char)(acc>>2)); else if (k%4==0) want.push_back((unsigned char)acc);
	}
	vp_assert(got<=dsz,"decoded length exceeds announced size"); vp_assert(got==want.size(),"decoded length of arbitrary text");
	for (unsigned i=0;i<got && i<want.size();i++) vp_assert(out[i]==want[i],"decoded byte of arbitrary text");
	obs(std::string((char*)out,got)); vp_reach("decode"); if (got) vp_reach("decoded-some");
	free(out); free(in);
}
// through the public API: a blob in a JSON document
static void json() {
	unsigned n=pick("n",vp_param("N",4)+1); std::string d=symstr("data",n);
	Variant v; v.Append(Variant(Blob::CreateCopy(d.data(),n))); std::string t=Serialize(v,SERIALIZE_JSON); Variant w=Deserialize(t,SERIALIZE_JSON).Get(0u);
	vp_assert(w.IsBlob(),"blob does not come back as blob"); BlobPtr b=w.AsBlob(); vp_assert(b->GetTotalLength()==n,"blob length"); unsigned at=0;
	for (unsigned i=0;i<b->GetNumBuffers();i++) for (unsigned j=0;j<b->GetLength(i);j++) vp_assert(((char*)b->GetPtr(i))[j]==d[at++],"blob byte");
	obs(t); vp_reach("json");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: encode(); break; case 1: decode(); break; case 2: json(); break; } }
