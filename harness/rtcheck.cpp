// Not a check: the parts of the C and C++ libraries a change of the library may come to use, run by the engine (tools/rtcheck.py).
#include "vh.h"
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <list>
#include <deque>
#include <set>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <iomanip>
#include <memory>
#include <bitset>
#include <array>
#include <mutex>
#include <cmath>
#include <cctype>
#include <cinttypes>
#include <iterator>
#include <stack>
#include <queue>
#include <utility>
#include <stdexcept>
#include <exception>
#include <iostream>
#if __cplusplus>=201703L
#include <string_view>
#include <optional>
#include <variant>
#include <charconv>
#endif
static void t0() { std::unordered_map<std::string,int> m; for (int i=0;i<20;i++) m["k"+std::to_string(i)]=i; m.erase("k3"); vp_assert(m.size()==19 && m.at("k7")==7 && m.find("k3")==m.end(),"umap"); std::unordered_set<unsigned> s; for (unsigned i=0;i<40;i++) s.insert(i*i); vp_assert(s.count(81)==1,"uset"); std::unordered_map<int,std::string> n; n[5]="x"; n.reserve(100); vp_assert(n[5]=="x","um2"); bool th=false; try { m.at("zz"); } catch (const std::out_of_range &) { th=true; } vp_assert(th,"at"); }
static void t1() { std::function<int(int)> f=[](int x){ return x+1; }; int k=3; std::function<int(int)> g=[&k](int x){ return x+k; }; vp_assert(f(1)==2 && g(1)==4,"fn"); std::function<void()> e; bool th=false; try { e(); } catch (const std::bad_function_call &) { th=true; } vp_assert(th,"bfc"); auto b=std::bind([](int a,int c){return a*c;},std::placeholders::_1,4); vp_assert(b(3)==12,"bind"); }
static void t2() { vp_assert(std::stoi("42")==42 && std::stol("-7")==-7 && std::stoul("9")==9 && std::stod("1.5")==1.5 && std::stoull("12345678901")==12345678901ull,"sto"); bool th=false; try { std::stoi("x"); } catch (const std::invalid_argument &) { th=true; } vp_assert(th,"inv"); th=false; try { std::stoi("99999999999"); } catch (const std::out_of_range &) { th=true; } vp_assert(th,"oor"); vp_assert(std::to_string(-5)=="-5" && std::to_string(7ull)=="7","ts"); }
static void t3() { char b[100]; snprintf(b,sizeof b,"%d %u %ld %lu %lld %llu %zu %x %X %c %s %5d|%-5d|%05d %%",1,2u,3l,4ul,5ll,6ull,(size_t)7,255,255,'c',"str",8,9,10); vp_assert(!strcmp(b,"1 2 3 4 5 6 7 ff FF c str     8|9    |00010 %"),"snp"); snprintf(b,sizeof b,"%.17g %g %f %e %.3f",0.1,1e20,1.5,2.5,3.14159); vp_print(b,0); sprintf(b,"%" PRIdMAX " %" PRIuMAX " %jd %ju",(intmax_t)-1,(uintmax_t)2,(intmax_t)3,(uintmax_t)4); vp_assert(!strcmp(b,"-1 2 3 4"),"pri"); snprintf(b,sizeof b,"%.*s|%*d|%#x|%+d|%p",2,"abc",4,5,16,3,(void*)0); vp_print(b,0); }
static void t4() { std::ostringstream o; o << std::setw(5) << std::setfill('0') << 42 << std::hex << 255 << std::dec << ' ' << std::setprecision(3) << 1.23456 << ' ' << std::boolalpha << true << 'c' << "s" << std::string("t") << 1u << 2l << 3ul << (short)4 << (unsigned char)'u' << 5.0f << std::endl; vp_print(o.str().c_str(),0); std::istringstream i("12 abc 3.5 x"); int a; std::string s; double d; i >> a >> s >> d; vp_assert(a==12 && s=="abc" && d==3.5,"iss"); std::istringstream l("one\ntwo\n\nthree"); std::string ln; unsigned n=0; while (std::getline(l,ln)) n++; vp_assert(n==4,"getline"); std::stringstream ss; ss << 5 << " " << 6; int x,y; ss >> x >> y; vp_assert(x==5 && y==6,"ss"); std::getline(i,ln,'x'); o.str(""); o << std::uppercase << std::hex << std::showbase << 171; vp_assert(o.str()=="0XAB","up"); o.str(""); o.clear(); o << std::fixed << std::setprecision(2) << 2.0; vp_print(o.str().c_str(),0); o << std::scientific << 12345.678; vp_print(o.str().c_str(),0); }
static void t5() { std::vector<int> v={5,3,9,1}; std::sort(v.begin(),v.end()); vp_assert(v[0]==1 && v[3]==9,"sort"); std::stable_sort(v.begin(),v.end(),[](int a,int b){return a>b;}); vp_assert(v[0]==9,"ss"); std::reverse(v.begin(),v.end()); vp_assert(std::accumulate(v.begin(),v.end(),0)==18,"acc"); v.erase(std::remove(v.begin(),v.end(),3),v.end()); vp_assert(v.size()==3,"rem"); std::vector<std::string> w={"b","a"}; std::sort(w.begin(),w.end()); vp_assert(w[0]=="a","ssort"); std::string u="abc"; std::transform(u.begin(),u.end(),u.begin(),::toupper); vp_assert(u=="ABC","up"); vp_assert(std::find_if(v.begin(),v.end(),[](int x){return x==9;})!=v.end(),"fi"); vp_assert(std::binary_search(v.begin(),v.end(),5),"bs"); vp_assert(*std::max_element(v.begin(),v.end())==9,"me"); std::vector<std::string> w2; std::copy(w.begin(),w.end(),std::back_inserter(w2)); std::unique(w.begin(),w.end()); std::vector<bool> vb(70,true); vb.push_back(false); vp_assert(vb[69] && !vb[70],"vb"); std::nth_element(v.begin(),v.begin()+1,v.end()); std::partial_sort(v.begin(),v.begin()+2,v.end()); std::rotate(v.begin(),v.begin()+1,v.end()); std::make_heap(v.begin(),v.end()); std::priority_queue<int> pq; pq.push(3); pq.push(8); vp_assert(pq.top()==8,"pq"); std::stack<int> st; st.push(1); st.pop(); std::multimap<int,int> mm; mm.insert({1,2}); mm.insert({1,3}); vp_assert(mm.count(1)==2,"mm"); }
static void t6() { std::list<int> l={3,1,2}; l.sort(); l.reverse(); l.remove(2); l.push_front(9); std::list<int> k={7}; l.splice(l.end(),k); vp_assert(l.size()==4 && l.front()==9 && l.back()==7,"list"); std::deque<int> d; for (int i=0;i<200;i++) { d.push_back(i); d.push_front(-i); } d.erase(d.begin()+5); d.insert(d.begin()+3,77); vp_assert(d.size()==400,"dq"); std::unique_ptr<int[]> p(new int[4]); p[0]=1; auto q=std::make_shared<std::string>("x"); std::weak_ptr<std::string> wp=q; q.reset(); vp_assert(wp.expired(),"wp"); std::array<int,3> a={{1,2,3}}; vp_assert(a.at(1)==2,"arr"); std::bitset<70> bs; bs.set(69); vp_assert(bs.count()==1,"bits"); auto t=std::make_tuple(1,std::string("z")); vp_assert(std::get<1>(t)=="z","tup"); }
static void t7() { std::exception_ptr ep; try { throw std::runtime_error("boo"); } catch (...) { ep=std::current_exception(); } bool th=false; try { std::rethrow_exception(ep); } catch (const std::runtime_error &e) { th=!strcmp(e.what(),"boo"); } vp_assert(th,"ep"); ep=nullptr; try { try { throw std::logic_error("a"); } catch (...) { throw; } } catch (const std::exception &e) { vp_assert(!strcmp(e.what(),"a"),"re"); } vp_assert(!std::uncaught_exception(),"ue"); try { throw std::length_error("x"); } catch (const std::logic_error &) {} try { throw 5; } catch (int i) { vp_assert(i==5,"int"); } try { throw std::domain_error(std::string("d")); } catch (const std::exception &e) {} try { throw std::system_error(std::make_error_code(std::errc::invalid_argument)); } catch (const std::exception &e) { vp_print(e.what(),0); } }
static std::mutex mx; static std::once_flag of;
static void t8() { std::lock_guard<std::mutex> g(mx); int n=0; std::call_once(of,[&n]{ n++; }); vp_assert(n==1,"once"); static std::string s("local"); vp_assert(s.size()==5,"static"); thread_local int tl=4; tl++; vp_assert(tl==5,"tl"); }
static void t9() { vp_assert(strtoul("0x1f",0,16)==31 && strtol("-12",0,10)==-12 && strtoull("777",0,8)==511 && strtoll("5",0,0)==5 && atoi("17")==17 && atol("18")==18 && atof("2.5")==2.5 && strtod("1e3",0)==1000 && strtof("1.5",0)==1.5f && strtold("2.5",0)==2.5L,"strto"); int a=0; unsigned u=0; char w[10]; vp_assert(sscanf("7 8 abc","%d %u %9s",&a,&u,w)==3 && a==7 && u==8 && !strcmp(w,"abc"),"sscanf"); vp_assert(strchr("abc",'c') && strrchr("abca",'a') && strstr("abcd","cd") && !strncmp("abc","abd",2) && !strcasecmp("AbC","aBc") && !strncasecmp("ABx","aby",2) && memchr("abc",'b',3) && strspn("aab","a")==2 && strcspn("aab","b")==2 && strpbrk("abc","xc"),"str"); char b[20]={0}; strcpy(b,"x"); strcat(b,"y"); strncpy(b+5,"zz",4); strncat(b,"wq",1); memmove(b+1,b,3); vp_assert(strlen(b)==4,"cat"); char *dup=strdup("dd"); char *nd=strndup("dddd",2); vp_assert(!strcmp(dup,nd),"dup"); free(dup); free(nd); vp_assert(isdigit('5') && isalpha('a') && isalnum('_')==0 && isspace(' ') && isxdigit('f') && ispunct('!') && isupper('A') && islower('a') && isprint(' ') && iscntrl(1) && tolower('A')=='a' && toupper('b')=='B' && isblank('\t') && isgraph('x'),"ct"); vp_assert(abs(-3)==3 && labs(-4)==4 && llabs(-5)==5,"abs"); div_t dv=div(7,2); vp_assert(dv.quot==3,"div"); char t[]="a,b"; char *sv; vp_assert(!strcmp(strtok_r(t,",",&sv),"a"),"tok"); char *m=(char*)calloc(3,2); m=(char*)realloc(m,10); free(m); vp_assert(strnlen("abc",2)==2 && strerror(ENOENT),"nl"); int arr[]={3,1,2}; qsort(arr,3,sizeof(int),[](const void*a,const void*b){return *(const int*)a-*(const int*)b;}); vp_assert(arr[0]==1,"qsort"); }
static void t10() { volatile double x=2.5, y=-1.5; vp_assert(floor(x)==2 && ceil(x)==3 && fabs(y)==1.5 && trunc(y)==-1 && round(x)==3 && fmod(x,1.0)==0.5 && pow(2.0,10)==1024 && sqrt(4.0)==2 && !std::isnan(x) && !std::isinf(x) && std::isfinite(x) && std::signbit(y) && copysign(1.0,y)==-1 && ldexp(1.0,3)==8 && rint(x)==2 && lround(2.4)==2 && std::fmin(x,y)==y && std::fmax(x,y)==x && std::floor(2.5L)==2 && nearbyint(x)==2 && std::hypot(3.0,4.0)==5,"math"); double ip; vp_assert(modf(2.25,&ip)==0.25 && ip==2,"modf"); int e; vp_assert(frexp(8.0,&e)==0.5 && e==4,"frexp"); vp_assert(log10(1000.0)==3 && log(1.0)==0 && exp(0.0)==1 && log2(8.0)==3,"log"); }
#if __cplusplus>=201703L
static void t11() { std::string_view v="hello"; vp_assert(v.substr(1,3)=="ell" && v.find('l')==2,"sv"); std::optional<int> o; vp_assert(!o,"opt"); o=3; vp_assert(o.value()==3,"opt"); std::variant<int,std::string> va="x"; vp_assert(std::get<std::string>(va)=="x","var"); char b[20]; auto r=std::to_chars(b,b+20,12345); vp_assert(r.ptr-b==5,"tc"); int x; std::from_chars("77",(const char*)"77"+2,x); auto rd=std::to_chars(b,b+20,1.5); vp_assert(rd.ptr-b==3,"tcd"); }
#else
static void t11() {}
#endif
static void t12() { std::string s=symstr("s",4); unsigned h=0; for (char c : s) h=h*31+(unsigned char)c; unsigned c=__builtin_popcount(h), z=__builtin_clz(h|1), t=__builtin_ctz(h|0x80000000u), bs=__builtin_bswap32(h); vp_observe(c+z*100+t*10000); vp_observe(bs); vp_observe((h<<7)|(h>>25)); int o; vp_observe(__builtin_add_overflow((int)h,12345,&o)); vp_observe(__builtin_mul_overflow((int)h,3,&o)); vp_observe(std::max(h,7u)+std::min(h,9u)); vp_observe(std::abs((int)(h>>1))); s.insert(1,"zz"); s.erase(0,1); s.replace(0,1,"q"); std::string r(s.rbegin(),s.rend()); r+=s.substr(1); r.append(3,'x'); r.push_back('c'); r.pop_back(); r.resize(10); r.assign("abcabc"); vp_assert(r.find("bc")==1 && r.rfind("bc")==4 && r.find_first_of("cb")==1 && r.find_last_of('a')==3 && r.find_first_not_of("a")==1 && r.find_last_not_of("c")==4 && r.compare("abcabd")<0 && r.compare(0,3,"abc")==0,"str"); r.swap(s); r.shrink_to_fit(); r.reserve(100); r.clear(); vp_assert(r.empty(),"e"); vp_observe(s<r); }
// looking up symbolic bytes and writing symbolic integers agrees with plain loops
static void t13() {
	char c=(char)vp_u8("c"); const char *hay="/[]\\ab"; const char *w=0; for (const char *p=hay;;p++) { if (*p==c) { w=p; break; } if (!*p) break; } vp_assert(strchr(hay,c)==w,"strchr");
	const char *m=0; for (int i=5;i>=0;i--) if (hay[i]==c) m=hay+i; vp_assert((const char*)memchr(hay,c,6)==m,"memchr"); std::string h(hay); vp_assert((h.find(c)==std::string::npos)==(m==0),"find"); if (m) vp_assert(h.find(c)==(size_t)(m-hay),"find"); std::string one(1,c); vp_assert((one.find_first_of(h)==0)==(m!=0) && (one.find_first_not_of(h)==0)==(m==0),"find_first_of"); char t[2]={c,0}; if (c) vp_assert((strspn(t,hay)==1)==(m!=0) && (strcspn(t,hay)==0)==(m!=0) && (strpbrk(t,hay)!=0)==(m!=0),"strspn");
	int v=(int)vp_u32("v"); vp_assume(v>-120 && v<1200); std::string s=std::to_string(v); unsigned u=v<0?0-(unsigned)v:v; std::ostringstream o; o<<v; vp_assert(s==o.str(),"to_string"); unsigned x=0; for (char d : s) if (d!='-') x=x*10+(unsigned)(d-'0'); vp_assert(x==u && (s[0]=='-')==(v<0),"digits"); vp_assert(std::stoi(s)==v,"stoi"); vp_assert(s.size()==(v<0)+(u<10?1u:u<100?2u:u<1000?3u:4u),"length");
	static const int tab[256]={5,4,3,2,1}; unsigned a=vp_u8("a"), b=vp_u8("b"); unsigned k=(a^b)&3; int y=tab[k]; vp_assert(y==5-(int)k,"table");
}
extern "C" void vp_main() { switch (vp_param("CASE",0)) { case 0: t0(); break; case 1: t1(); break; case 2: t2(); break; case 3: t3(); break; case 4: t4(); break; case 5: t5(); break; case 6: t6(); break; case 7: t7(); break; case 8: t8(); break; case 9: t9(); break; case 10: t10(); break; case 11: t11(); break; case 12: t12(); break; default: t13(); } vp_reach("done"); }
