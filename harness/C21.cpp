// Scalar text read through the bundle header format, and boolean text.
#include "scal.h"
#include <math.h>
static void check(const std::string &s) {
	Variant m=Deserialize("k: "+s+"\n",SERIALIZE_BUNDLEHDR); vp_assert(m.IsMap() && m.Size()==1,"not one entry"); Variant v=m.At("k"); obsV(v);
	switch (kind(s)) {
	case 'n': vp_assert(v.IsNull(),"null text"); vp_reach("null"); break;
	case 't': vp_assert(v.IsBool() && v.AsBool(),"true text"); vp_reach("bool"); break;
	case 'f': vp_assert(v.IsBool() && !v.AsBool(),"false text"); vp_reach("bool"); break;
	case 'I': vp_assert(v.IsFloat() && isinf(v.AsDouble()) && v.AsDouble()>0,"infinity text"); vp_reach("inf"); break;
	case 'J': vp_assert(v.IsFloat() && isinf(v.AsDouble()) && v.AsDouble()<0,"negative infinity text"); vp_reach("inf"); break;
	case 'N': vp_assert(v.IsFloat() && isnan(v.AsDouble()),"nan text"); vp_reach("nan"); break;
	case 'd': vp_assert(v.IsFloat(),"float text"); vp_reach("float"); break;
	case 's': vp_assert(v.IsString() && eqs(v.AsString(),s),"other text must stay a string"); vp_reach("string"); break;
	case 'o': { uint64_t x=0; for (size_t i=2;i<s.size();i++) x=x*8+(unsigned char)(s[i]-'0'); vp_assert((v.IsUnsigned() && v.AsUnsigned()==x)||(v.IsInt() && v.AsInt()>=0 && (uint64_t)v.AsInt()==x),"octal text"); vp_reach("octal"); break; }
	case 'x': { uint64_t x=0; for (size_t i=2;i<s.size();i++) { unsigned char c=s[i]; x=x*16+(dig(c)?c-'0':c>='a'?c-'a'+10:c-'A'+10); } vp_assert((v.IsUnsigned() && v.AsUnsigned()==x)||(v.IsInt() && v.AsInt()>=0 && (uint64_t)v.AsInt()==x),"hexadecimal text"); vp_reach("hex"); break; }
	case 'i': { bool neg=s[0]=='-'; size_t i=neg||s[0]=='+'; uint64_t x=0; for (;i<s.size();i++) x=x*10+(unsigned char)(s[i]-'0'); // callers keep this within 64 bits
		if (neg) vp_assert(v.IsInt() && v.AsInt()==(int64_t)(0-x),"negative integer text"); else vp_assert((v.IsInt() && v.AsInt()==(int64_t)x && (int64_t)x>=0)||(v.IsUnsigned() && v.AsUnsigned()==x),"integer text"); vp_reach("integer"); break; }
	}
}
extern "C" void vp_main() {
	unsigned n=vp_param("N",4);
	switch (vp_param("CASE",0)) {
	case 0: { std::string s=symstrv("text",n,true); if (s.empty()) break; for (unsigned i=0;i<s.size();i++) vp_assume(s[i]!='\n' && s[i]!='#' && s[i]!='|'); vp_assume(!blank(s[0]) && !blank(s[s.size()-1])); check(s); break; }
	case 1: { static const char A[]="0123456789+-.eExo"; std::string s=symstr("text",n); for (unsigned i=0;i<n;i++) { bool in=false; for (unsigned k=0;A[k];k++) in|=s[i]==A[k]; vp_assume(in); } check(s); break; }
	case 2: { static const char *const W[]={"null","Null","NULL","true","True","TRUE","false","False","FALSE",".inf",".Inf",".INF","-.inf","+.inf",".nan",".Nan",".NAN"}; // one byte of a literal replaced, or one more
		std::string s=W[pick("word",17)]; unsigned at=pick("at",6); vp_assume(at<=s.size()); char c; vp_bytes(&c,1,"byte"); vp_assume(c!=0 && c!='\n' && c!='#' && c!='|' && !blank(c)); if (at==s.size()) s+=c; else s[at]=c; check(s); break; }
	case 3: { unsigned dg=vp_param("DIG",18); std::string s=symstr("digits",dg); for (unsigned i=0;i<dg;i++) vp_assume(dig(s[i])); static const char *const P[]={"","-","+"}; check(P[pick("sign",3)]+s); break; }
	case 4: { // the ends of the 64-bit ranges
		static const char *const P[]={"92233720368547758","-92233720368547758","184467440737095516","+92233720368547758"}; unsigned w=pick("prefix",4); std::string d=symstr("digits",2); vp_assume(dig(d[0]) && dig(d[1]));
		std::string s=P[w]+d; if (pick("errno",2)) errno=ERANGE; else errno=0;
		Variant v=Deserialize("k: "+s+"\n",SERIALIZE_BUNDLEHDR).At("k"); obsV(v); unsigned q=(unsigned char)(d[0]-'0')*10+(unsigned char)(d[1]-'0');
		if (w==1) { vp_assert(v.IsInt(),"kind of a negative integer"); vp_assert(q<=8?v.AsInt()==-(int64_t)(9223372036854775800ull+q-1)-1:v.AsInt()==INT64_MIN,"negative integer at the end of the range"); }
		else { uint64_t base=w==2?18446744073709551600ull:9223372036854775800ull; uint64_t x=w==2&&q>15?UINT64_MAX:base+q; vp_assert((v.IsUnsigned() && v.AsUnsigned()==x)||(v.IsInt() && v.AsInt()>=0 && (uint64_t)v.AsInt()==x),"integer at the end of the range"); }
		vp_reach("edge"); break; }
	case 6: { // long hexadecimal and octal numbers
		bool oct=pick("octal",2); unsigned len=oct?21:15+pick("len",2); std::string d=symstr("digits",len); for (unsigned i=0;i<len;i++) if (oct) vp_assume(d[i]>='0' && d[i]<='7'); else if (i==0 || i==9) vp_assume(dig(d[i]) || (d[i]>='a' && d[i]<='f') || (d[i]>='A' && d[i]<='F')); else vp_assume(dig(d[i]));
		check(oct?std::string("0o")+(pick("top",2)?"1":"")+d:"0x"+d); break; }
	case 5: { // boolean text
		std::string s=symstrv("text",n); bool got=Variant(s).AsBool(); vp_observe(got);
		size_t a=0,b=s.size(); while (a<b && blank(s[a])) a++; while (b>a && blank(s[b-1])) b--; size_t k=b-a; bool f=false;
		if (k) { bool z=true, no=k<=2, fa=k<=5; for (size_t i=0;i<k;i++) { char c=s[a+i], l=c>='A'&&c<='Z'?c+32:c; z&=c=='0'; no&=i<2 && l=="no"[i<2?i:0]; fa&=i<5 && l=="false"[i<5?i:0]; } f=z||no||fa; }
		vp_assert(got==!f,"boolean text"); if (f) vp_reach("false"); else vp_reach("true"); break; }
	}
}
