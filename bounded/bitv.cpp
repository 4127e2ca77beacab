// C11/C12/C13 bounded stand-in: bit_vector and bit_view against std::vector<bool>.
#include "common.hpp"
#include <gtl/bit_vector.hpp>
#include <unordered_set>
#include <sstream>
using namespace bd; using BV=gtl::bit_vector; using M=std::vector<bool>;
static const size_t LEN[]={0,1,2,31,63,64,65,100,127,128,129,191,192,193,256,300};
static BV mk(const M& m){ BV b(m.size()); for(size_t i=0;i<m.size();++i) if(m[i]) b.set(i); return b; }
static M rnd(Rng& g,size_t n){ M m(n); int d=(int)g.below(4); for(size_t i=0;i<n;++i) m[i]= d==0? g.below(2): d==1? g.one_in(40): d==2? !g.one_in(40): g.below(2); if(g.one_in(8)) m.assign(n,g.below(2)); return m; }
static void same(const BV& b,const M& m,const char* w){ if(b.size()!=m.size()){ printf("%s: size %zu, expected %zu\n",w,b.size(),m.size()); fail("size",__FILE__,__LINE__);} for(size_t i=0;i<m.size();++i) if(b[i]!=m[i]){ printf("%s: bit %zu of %zu is %d\n",w,i,m.size(),(int)b[i]); fail("a bit has the wrong value",__FILE__,__LINE__);} CHECK(b.empty()==m.empty(),"empty"); CHECK(b.num_blocks()==(m.size()+63)/64,"blocks"); for(size_t k=0;k<b.num_blocks();++k){ uint64_t v=0; for(size_t i=0;i<64&&k*64+i<m.size();++i) if(m[k*64+i]) v|=1ull<<i; CHECK(b.block(k)==v,"block (bits beyond the length must be zero)"); } }
template<class F> M zip(const M& a,const M& b,F f){ M r(a.size()); for(size_t i=0;i<a.size();++i) r[i]=f((bool)a[i],(bool)b[i]); return r; }
static std::string hex(const M& m,size_t f,size_t l){ if(f==l) return "<empty>"; std::string s; for(size_t i=f;i<l;i+=8){ int v=0; for(size_t k=0;k<8&&i+k<l;++k) v|=m[i+k]<<k; char b[3]; snprintf(b,3,"%02x",v); s=b+s; } return "0x"+s; }
static void queries(const BV& b,const M& m){ size_t n=m.size(), c=0; for(bool x: m) c+=x; CHECK(b.count()==c,"count"); CHECK(b.any()==(c>0)&&b.none()==(c==0)&&b.every()==(c==n),"any/none/every"); std::string s; for(size_t i=n;i-->0;) s+=m[i]?'1':'0'; CHECK(b.to_string()==s,"to_string"); CHECK(b.to_string('a','b').size()==n,"to_string"); unsigned long long u=0; for(size_t i=0;i<64&&i<n;++i) if(m[i]) u|=1ull<<i; CHECK(b.to_ullong()==u&&b.to_ulong()==u,"to_ullong"); CHECK((std::string)b==hex(m,0,n),"text"); std::ostringstream o; o<<b; CHECK(o.str()==hex(m,0,n),"stream");
  std::vector<size_t> on; for(size_t i=b.find_first();i!=BV::npos;i=b.find_next(i+1)) on.push_back(i); size_t k=0; for(size_t i=0;i<n;++i) if(m[i]){ CHECK(k<on.size()&&on[k]==i,"iteration over set bits"); ++k; } CHECK(k==on.size(),"iteration over set bits"); 
  for(size_t p=0;p<=n+1;p+=1+n/37){ size_t e=p; while(e<n&&!m[e]) ++e; CHECK(b.find_next(p)==(e<n? e:BV::npos),"find_next"); } }
static void vqueries(BV& b,const M& m,size_t f,size_t l){ auto v=b.view(f,l); const BV& cb=b; auto cv=cb.view(f,l); size_t n=l-f,c=0,first=BV::npos; for(size_t i=0;i<n;++i){ CHECK(v[i]==m[f+i],"view bit"); if(m[f+i]){ ++c; if(first==BV::npos) first=i; } } CHECK(v.size()==n&&v.empty()==(n==0),"view size"); CHECK(v.count()==c&&cv.count()==c,"view count"); CHECK(v.any()==(c>0)&&v.none()==(c==0)&&v.every()==(c==n),"view any/none/every"); CHECK(v.find_first()==first,"view find_first"); size_t step=1+n/17; for(size_t p=0;p<=n;p+=step){ size_t e=p; while(e<n&&!m[f+e]) ++e; CHECK(v.find_next(p)==(e<n? e:BV::npos),"view find_next"); } for(size_t p: {n+1,n+7,n+63,n+64,n+200,l,l+1}) if(p>=n) CHECK(v.find_next(p)==BV::npos,"view find_next past the end finds nothing"); CHECK((std::string)v==hex(m,f,l),"view text"); }
static void pairq(const BV& a,const M& x,const BV& b,const M& y){ size_t n=x.size(); bool cont=true,dis=true; for(size_t i=0;i<n;++i){ if(y[i]&&!x[i]) cont=false; if(x[i]&&y[i]) dis=false; } CHECK(a.contains(b)==cont,"contains"); CHECK(a.disjoint(b)==dis&&a.intersects(b)==!dis,"disjoint/intersects"); CHECK((a==b)==(x==y)&&(a!=b)==(x!=y),"equality"); if(x==y) CHECK(std::hash<BV>()(a)==std::hash<BV>()(b),"hash of equal vectors"); }
#define PART(p) (VF_PART==p)
static size_t shl_i(size_t k,size_t n){ return n; }
int main(){ size_t f=thorough()?15:1; Rng g(seed()*17+VF_PART);
#if VF_PART==1
  begin("bitv-ops"); for(size_t n: LEN) for(size_t r=0;r<25*f;++r){ newcase(); opf("length %zu round %zu",n,r); M x=rnd(g,n), y=rnd(g,n); BV a=mk(x), b=mk(y); same(a,x,"construct");
    { BV c=a; c|=b; same(c,zip(x,y,[](bool p,bool q){return p||q;}),"|="); same(a|b,zip(x,y,[](bool p,bool q){return p||q;}),"|"); } { BV c=a; c&=b; same(c,zip(x,y,[](bool p,bool q){return p&&q;}),"&="); same(a&b,zip(x,y,[](bool p,bool q){return p&&q;}),"&"); } { BV c=a; c^=b; same(c,zip(x,y,[](bool p,bool q){return p!=q;}),"^="); same(a^b,zip(x,y,[](bool p,bool q){return p!=q;}),"^"); } { BV c=a; c-=b; same(c,zip(x,y,[](bool p,bool q){return p&&!q;}),"-="); same(a-b,zip(x,y,[](bool p,bool q){return p&&!q;}),"-"); } { BV c=a; c.or_not(b); same(c,zip(x,y,[](bool p,bool q){return p||!q;}),"or_not"); } same(~a,zip(x,x,[](bool p,bool){return !p;}),"~"); { BV c=a; c.flip(); same(c,zip(x,x,[](bool p,bool){return !p;}),"flip"); c.set(); same(c,M(n,true),"set"); c.reset(); same(c,M(n,false),"reset"); }
    { BV c=a; c^=c; same(c,M(n,false),"self ^="); c=a; c|=c; same(c,x,"self |="); c=a; auto& q=c; c=q; same(c,x,"self assign"); }
    for(size_t i: {size_t(0),n/2,n? n-1:0,size_t(63),size_t(64)}) if(i<n){ BV c=a; M z=x; c.set(i); z[i]=1; same(c,z,"set bit"); c.reset(i); z[i]=0; same(c,z,"reset bit"); c.flip(i); z[i]=1; same(c,z,"flip bit"); c.set(i,false); z[i]=0; same(c,z,"set false"); c.set(i,true); z[i]=1; same(c,z,"set true"); CHECK(c.test(i),"test"); }
    for(size_t s: {size_t(0),size_t(1),size_t(5),size_t(63),size_t(64),size_t(65),size_t(128),size_t(130),n? n-1:0,n,n+1,g.below(n+3)}){ M l(n),h(n); for(size_t i=0;i<n;++i){ l[i]= i+s<n? (bool)x[i+s]:false; h[i]= i>=s? (bool)x[i-s]:false; } opf("shift %zu",s); BV c=a; c<<=s; same(c,l,"<<="); same(a<<s,l,"<<"); c=a; c>>=s; same(c,h,">>="); same(a>>s,h,">>"); }
    for(size_t k: LEN) for(int v=0;v<2;++v){ opf("resize %zu to %zu fill %d",n,k,v); BV c=a; c.resize(k,v); M z=x; z.resize(k,v); same(c,z,"resize"); c.resize(n,!v); z.resize(n,!v); same(c,z,"resize back"); }
    { BV c(a); same(c,x,"copy"); BV d(std::move(c)); same(d,x,"move"); BV e(5); e.swap(d); same(e,x,"swap"); CHECK(d.size()==5,"swap"); e=b; same(e,y,"assign"); CHECK(e==b,"equal"); BV z(n,true); same(z,M(n,true),"construct ones"); }
    queries(a,x); pairq(a,x,b,y); pairq(a,x,a,x); { BV u=a|b; M ux=zip(x,y,[](bool p,bool q){return p||q;}); pairq(u,ux,a,x); BV d=a-b; M dx=zip(x,y,[](bool p,bool q){return p&&!q;}); pairq(d,dx,b,y); } 
    { BV w{0x0123456789abcdefull,~0ull,5ull}; M m(192); for(int i=0;i<64;++i){ m[i]=0x0123456789abcdefull>>i&1; m[64+i]=1; m[128+i]=5ull>>i&1; } same(w,m,"construct from words"); if(n>=65){ BV c=a; M z=x; c={0xf0f0f0f0f0f0f0f0ull,3ull}; for(size_t i=0;i<n&&i<128;++i) z[i]= i<64? (0xf0f0f0f0f0f0f0f0ull>>i&1): (3ull>>(i-64)&1); same(c,z,"assign words"); } }
    { BV k(n+1); M km(n+1); CHECK(!(k==a)&&k!=a,"different lengths differ"); } } done();
  begin("bitv-history"); for(size_t r=0;r<200*f;++r){ newcase(); M x; BV a; for(int s=0;s<60;++s){ switch(g.below(9)){ case 0: { size_t n=g.below(200); bool v=g.below(2); opf("resize %zu %d",n,v); x.resize(n,v); a.resize(n,v); } break; case 1: if(x.size()){ size_t i=g.below(x.size()); opf("flip %zu",i); x[i]=!x[i]; a.flip(i); } break; case 2: op("flip"); x.flip(); a.flip(); break; case 3: op("set"); x.assign(x.size(),1); a.set(); break; case 4: op("reset"); x.assign(x.size(),0); a.reset(); break; case 5: { M y=rnd(g,x.size()); op("^="); a^=mk(y); x=zip(x,y,[](bool p,bool q){return p!=q;}); } break; case 6: { size_t k=g.below(x.size()+2); opf(">>= %zu",k); a>>=k; M h(x.size()); for(size_t i=k;i<x.size();++i) h[i]=(bool)x[i-k]; x=h; } break; case 7: { size_t k=g.below(x.size()+2); opf("<<= %zu",k); a<<=k; M h(x.size()); for(size_t i=0;i+k<x.size();++i) h[i]=(bool)x[i+k]; x=h; } break; case 8: if(x.size()){ size_t fi=g.below(x.size()+1), l=fi+g.below(x.size()-fi+1); opf("view set %zu %zu",fi,l); a.view(fi,l).set(); for(size_t i=fi;i<l;++i) x[i]=1; } break; } same(a,x,"history"); CHECK(a==mk(x)&&std::hash<BV>()(a)==std::hash<BV>()(mk(x)),"equal bits, equal vector"); } queries(a,x); } done();
#else
  begin("bitv-views"); for(size_t r=0;r<2600*f;++r){ size_t n=r%3==0? LEN[g.below(16)]: g.below(270); M x=rnd(g,n), y; size_t n2=n+g.below(80); y=rnd(g,n2); size_t fi=g.below(n+1), l=fi+g.below(n-fi+1); if(g.one_in(4)) l=n; if(g.one_in(4)) fi=fi/64*64; if(g.one_in(6)) l=(l/64*64<fi)? l: l/64*64; if(l<fi) l=fi; size_t w=l-fi; size_t f2=g.below(n2-w+1), l2=f2+w; newcase(); opf("vector %zu view [%zu,%zu) other vector %zu view [%zu,%zu)",n,fi,l,n2,f2,l2); BV a=mk(x), b=mk(y);
    auto upd=[&](auto fn,auto model,const char* nm){ op(nm); BV c=a; M z=x; fn(c); for(size_t i=0;i<w;++i) z[fi+i]=model(i); same(c,z,nm); };
    upd([&](BV& c){ c.view(fi,l).set(); },[&](size_t){ return true; },"view set"); upd([&](BV& c){ c.view(fi,l).reset(); },[&](size_t){ return false; },"view reset"); upd([&](BV& c){ c.view(fi,l).flip(); },[&](size_t i){ return !x[fi+i]; },"view flip");
    upd([&](BV& c){ auto v=c.view(fi,l); v|=b.view(f2,l2); },[&](size_t i){ return x[fi+i]||y[f2+i]; },"view |="); upd([&](BV& c){ auto v=c.view(fi,l); v&=b.view(f2,l2); },[&](size_t i){ return x[fi+i]&&y[f2+i]; },"view &="); upd([&](BV& c){ auto v=c.view(fi,l); v^=b.view(f2,l2); },[&](size_t i){ return x[fi+i]!=y[f2+i]; },"view ^="); upd([&](BV& c){ auto v=c.view(fi,l); v-=b.view(f2,l2); },[&](size_t i){ return x[fi+i]&&!y[f2+i]; },"view -="); upd([&](BV& c){ auto v=c.view(fi,l); v.or_not(b.view(f2,l2)); },[&](size_t i){ return x[fi+i]||!y[f2+i]; },"view or_not");
    upd([&](BV& c){ auto v=c.view(fi,l); v=b.view(f2,l2); },[&](size_t i){ return (bool)y[f2+i]; },"view ="); upd([&](BV& c){ auto v=c.view(fi,l); v.copy_slow(b.view(f2,l2)); },[&](size_t i){ return (bool)y[f2+i]; },"view copy_slow");
    size_t f3=g.below(n-w+1); if(g.one_in(3)) f3=fi>0? fi-1:fi; if(f3+w<=n){ opf("same vector source %zu",f3); upd([&](BV& c){ auto v=c.view(fi,l); v=c.view(f3,f3+w); },[&](size_t i){ return (bool)x[f3+i]; },"view = same vector"); upd([&](BV& c){ auto v=c.view(fi,l); v.copy_slow(c.view(f3,f3+w)); },[&](size_t i){ return (bool)x[f3+i]; },"view copy_slow same vector"); { BV c=a; CHECK((c.view(fi,l)==c.view(f3,f3+w))==(std::equal(x.begin()+fi,x.begin()+l,x.begin()+f3)),"view equality, same vector"); } }
    for(size_t s: {size_t(0),size_t(1),size_t(7),size_t(63),size_t(64),size_t(65),size_t(128),w? w-1:0,w,w+1,g.below(w+1)}){ opf("shift %zu",s); upd([&](BV& c){ auto v=c.view(fi,l); v<<=s; },[&](size_t i){ return i+s<w? (bool)x[fi+i+s]:false; },"view <<="); upd([&](BV& c){ auto v=c.view(fi,l); v>>=s; },[&](size_t i){ return i>=s? (bool)x[fi+i-s]:false; },"view >>="); }
    if(w<=64){ uint64_t v=g.next(); upd([&](BV& c){ auto q=c.view(fi,l); q=v; },[&](size_t i){ return v>>i&1; },"view = integer"); } { uint64_t q[3]={g.next(),g.next(),g.next()}; BV c=a; M z=x; auto v=c.view(fi,l); v={q[0],q[1],q[2]}; for(size_t i=0;i<w&&i<192;++i) z[fi+i]=q[i/64]>>(i%64)&1; same(c,z,"view = words"); }
    if(w){ size_t i=g.below(w); BV c=a; M z=x; auto v=c.view(fi,l); v.set(i); z[fi+i]=1; same(c,z,"view set bit"); v.reset(i); z[fi+i]=0; same(c,z,"view reset bit"); v.flip(i); z[fi+i]=1; same(c,z,"view flip bit"); v.set(i,false); z[fi+i]=0; same(c,z,"view assign bit"); }
    vqueries(a,x,fi,l); { auto u=a.view(fi,l); auto v=b.view(f2,l2); bool eq=true,cont=true,dis=true; for(size_t i=0;i<w;++i){ bool p=x[fi+i],q=y[f2+i]; if(p!=q) eq=false; if(q&&!p) cont=false; if(p&&q) dis=false; } CHECK((u==v)==eq,"view equality"); CHECK(u.contains(v)==cont,"view contains"); CHECK(u.disjoint(v)==dis&&u.intersect(v)==!dis,"view disjoint"); 
      { BV c=b; auto t=c.view(f2,l2); t=u; CHECK(t==u,"equal after assignment"); if(w){ size_t i=g.below(w); t.flip(i); CHECK(!(t==u),"one different bit is noticed"); if(x[fi+i]){ CHECK(!t.contains(u),"contains notices one missing bit"); CHECK(u.contains(t),"contains a subset"); } t.reset(); CHECK(u.disjoint(t)&&t.disjoint(u),"disjoint from nothing"); t.set(i); CHECK(u.disjoint(t)==!x[fi+i]&&u.contains(t)==(bool)x[fi+i],"single common bit"); } }
      size_t w2=g.below(w+1); auto sv=b.view(f2,f2+w2); bool d2=true,c2=true; for(size_t i=0;i<w2;++i){ if(x[fi+i]&&y[f2+i]) d2=false; if(y[f2+i]&&!x[fi+i]) c2=false; } CHECK(u.disjoint(sv)==d2&&sv.disjoint(u)==d2,"disjoint of views of different lengths"); CHECK(u.contains(sv)==c2,"contains a shorter view"); if(w2!=w) CHECK(!(u==sv),"views of different lengths differ"); } } done();
  // every alignment and width of one two-word view
  begin("bitv-view-alignment"); for(size_t fi=0;fi<=130;++fi) for(size_t l=fi;l<=192;l+=(l-fi<3||l%64<2||l%64>61)?1:7){ newcase(); opf("view [%zu,%zu)",fi,l); M x(192); for(size_t i=0;i<192;++i) x[i]=(i*7+fi)%3==0; BV a=mk(x); vqueries(a,x,fi,l); a.view(fi,l).flip(); for(size_t i=fi;i<l;++i) x[i]=!x[i]; same(a,x,"flip"); if(l>fi){ BV z(192); z.set(l-1); auto v=z.view(fi,l); CHECK(v.find_first()==l-1-fi&&v.count()==1&&v.any(),"last bit of a view"); BV o(192,true); o.reset(l-1); CHECK(!o.view(fi,l).every()&&o.view(fi,l).count()==l-fi-1,"last bit of a view"); if(l<192){ BV q(192); q.set(l); if(fi) q.set(fi-1); CHECK(!q.view(fi,l).any()&&q.view(fi,l).find_first()==BV::npos&&q.view(fi,l).count()==0,"bits outside the view are not seen"); } } } done();
#endif
  return 0; }
