// Bounded stand-in for C08: dump/load round trips over random histories, with failures injected at every read and write.
#include "common.hpp"
#include <gtl/phmap_dump.hpp>
#include <mutex>
#include <fstream>
#include <unistd.h>
using namespace bd;
struct HConst { size_t operator()(int) const { return 99; } };
struct OutMem { std::string buf; long fail_at=-1; long n=0; bool failed=false; bool saveBinary(const void* p,size_t sz){ if(n++==fail_at){ failed=true; return false; } buf.append((const char*)p,sz); return true; } };
struct InMem { const std::string& buf; size_t pos=0; long fail_at=-1; long n=0; bool failed=false; bool loadBinary(void* p,size_t sz){ if(n++==fail_at || pos+sz>buf.size()){ failed=true; return false; } memcpy(p,buf.data()+pos,sz); pos+=sz; return true; } };
struct OutVoid { std::string buf; void saveBinary(const void* p,size_t sz){ buf.append((const char*)p,sz); } };
struct InVoid { const std::string& buf; size_t pos=0; void loadBinary(void* p,size_t sz){ if(pos+sz>buf.size()) fail("reads what was not written",__FILE__,__LINE__); memcpy(p,buf.data()+pos,sz); pos+=sz; } };
using Model=std::map<int,int>;
template<class C,class=void> struct is_map:std::false_type{}; template<class C> struct is_map<C,std::void_t<typename C::mapped_type>>:std::true_type{};
template<class C> void put(C& c,Model& m,int k,int v){ if constexpr(is_map<C>::value) c[k]=v; else { c.insert(k); v=0; } m[k]=v; }
template<class C> void same(C& c,const Model& m){ CHECK(c.size()==m.size(),"loaded size"); size_t n=0; for(auto& x: c){ ++n; if constexpr(is_map<C>::value) CHECK(m.count(x.first)&&m.at(x.first)==x.second,"loaded entry"); else CHECK(m.count(x),"loaded entry"); } CHECK(n==m.size(),"iteration"); for(int k=-1;k<300;++k) CHECK(c.contains(k)==(m.count(k)>0),"loaded lookup"); }
template<class C> void use(C& c,Model m,Rng& r){ for(int i=0;i<200;++i){ int k=(int)r.below(300); if(r.one_in(2)){ CHECK(c.erase(k)==m.erase(k),"erase after load"); } else put(c,m,k,i); } same(c,m); for(int i=0;i<300;++i) put(c,m,i,i); same(c,m); c.clear(); m.clear(); same(c,m); put(c,m,5,5); same(c,m); }
template<class C> void build(C& c,Model& m,Rng& r,int mode,int n){ opf("build mode %d n %d",mode,n); if(mode==2) c.reserve(r.below(200)); for(int i=0;i<n;++i){ put(c,m,(int)r.below(280),(int)r.below(1000)); if(mode==1 && r.one_in(3)){ int k=(int)r.below(280); c.erase(k); m.erase(k); } } if(mode==3){ c.clear(); m.clear(); } if(mode==4){ while(!m.empty()){ int k=m.begin()->first; c.erase(k); m.erase(k);} } if(mode==5){ for(int i=0;i<60;++i){ put(c,m,290,i); c.erase(290); m.erase(290);} } }
template<class C> void run(const char* name,int seeds){ begin(name);
  for(int s=0;s<seeds;++s) for(int mode=0;mode<6;++mode){ newcase(); Rng r(seed()*7919+s*13+mode); C c; Model m; int sizes[]={0,1,2,3,6,7,8,13,14,15,28,29,60,120}; build(c,m,r,mode,s<14?sizes[s]:(int)r.below(200));
    OutMem o; CHECK(c.phmap_dump(o),"dump succeeds when every write does"); same(c,m);
    InMem in{o.buf}; C d; Model dm; if(s%2) build(d,dm,r,0,20); opf("load"); CHECK(d.phmap_load(in),"load succeeds when every read does"); CHECK(in.pos==o.buf.size(),"load consumes exactly what dump produced"); same(d,m); CHECK(d==c,"loaded container equals the dumped one"); Rng r2(s); use(d,m,r2); same(c,m);
    OutVoid ov; CHECK(c.phmap_dump(ov),"dump to a void archive"); CHECK(ov.buf==o.buf,"dump is deterministic"); InVoid iv{ov.buf}; C e; CHECK(e.phmap_load(iv),"load from a void archive"); same(e,m);
    for(long k=0;k<o.n;++k){ opf("fail write %ld",k); OutMem of; of.fail_at=k; bool ok=c.phmap_dump(of); CHECK(!(of.failed && ok),"a failed write is reported"); same(c,m); }
    for(long k=0;k<in.n;++k){ opf("fail read %ld",k); InMem inf{o.buf}; inf.fail_at=k; C x; Model xm; if(k%2) build(x,xm,r,0,10); bool ok=x.phmap_load(inf); CHECK(!ok,"a failed read is reported"); ++ncases(); size_t n=0; for(auto& y: x) ++n; CHECK(n==x.size(),"container stays consistent after a failed load"); x.clear(); Model z; Rng r3(k); use(x,z,r3); }
    for(int t=0;t<12;++t){ std::string cut=o.buf.substr(0,r.below(o.buf.size())); opf("truncated to %zu",cut.size()); InMem it{cut}; C x; CHECK(!x.phmap_load(it),"a truncated input is reported"); }
    { // two containers in one archive
      OutMem o2; CHECK(c.phmap_dump(o2)&&c.phmap_dump(o2),"two dumps"); InMem i2{o2.buf}; C x,y; CHECK(x.phmap_load(i2)&&y.phmap_load(i2),"two loads"); same(x,m); same(y,m); } }
  done(); }
template<class C> void files(const char* name){ begin(name); std::string dir=getenv("VF_SCRATCH")?getenv("VF_SCRATCH"):"."; std::string f=dir+"/dump.bin"; for(int s=0;s<8;++s){ newcase(); Rng r(s+5); C c; Model m; build(c,m,r,s%3,s*20); { gtl::BinaryOutputArchive a(f.c_str()); CHECK(a.saveBinary(c),"archive saves"); CHECK(c.phmap_dump(a),"again"); } C d; { gtl::BinaryInputArchive a(f.c_str()); CHECK(a.loadBinary(&d),"archive loads"); same(d,m); C e; CHECK(e.phmap_load(a),"second"); same(e,m); C g; CHECK(!g.phmap_load(a),"end of file is reported"); }
    { gtl::BinaryInputArchive a((f+".missing").c_str()); C g; CHECK(!g.phmap_load(a),"a missing file is reported"); } { gtl::BinaryOutputArchive a((dir+"/no/such/dir").c_str()); CHECK(!c.phmap_dump(a),"an unwritable file is reported"); }
    std::ifstream i(f,std::ios::binary); std::string b((std::istreambuf_iterator<char>(i)),{}); i.close(); size_t half=b.size()/2; for(size_t n=0;n<half;n+=1+half/9){ { std::ofstream o(f,std::ios::binary|std::ios::trunc); o.write(b.data(),n); } gtl::BinaryInputArchive a(f.c_str()); C g; CHECK(!g.phmap_load(a),"a truncated file is reported"); ++ncases(); } } unlink(f.c_str()); done(); }
struct HMix { size_t operator()(int k) const { return k<1000? 0 : (size_t)k*0x9E3779B97F4A7C15ull; } };
static void budget(){ begin("growth budget"); for(int N: {7,14,28,56,112}) for(int s=0;s<12;++s){ newcase(); using C=gtl::flat_hash_map<int,int,HMix>; Rng r(seed()+s*77+N); C c; c.reserve(N); std::vector<int> v; for(int i=0;i<N;++i){ c[i]=i; v.push_back(i); } int drop=(int)r.below(N); while(drop--){ size_t q=r.below(v.size()); c.erase(v[q]); v.erase(v.begin()+q); if(v.empty()) break; } OutMem o; CHECK(c.phmap_dump(o),"dump"); InMem in{o.buf}; C d; CHECK(d.phmap_load(in),"load");
    for(int i=0;i<2*N;++i){ int k=1000+(int)r.below(100000); c[k]=i; d[k]=i; opf("put %d",k); ++ncases(); CHECK(c.capacity()==d.capacity()&&c.size()==d.size(),"the loaded container grows when the original does"); CHECK(!d.contains(-1),"lookup of an absent key ends"); } CHECK(c==d,"same contents"); } done(); }
static void full(){ begin("device full"); newcase(); if(access("/dev/full",W_OK)==0){ gtl::flat_hash_map<int,int> m; for(int i=0;i<20000;++i) m[i]=i; gtl::BinaryOutputArchive a("/dev/full"); CHECK(!m.phmap_dump(a),"a write that fails is reported"); std::vector<char> big(100000); gtl::BinaryOutputArchive b("/dev/full"); CHECK(!b.saveBinary(big.data(),big.size()),"a write that fails is reported by the archive"); gtl::parallel_flat_hash_map<int,int> q; for(int i=0;i<200000;++i) q[i]=i; gtl::BinaryOutputArchive e("/dev/full"); CHECK(!q.phmap_dump(e),"a write that fails is reported (parallel)"); } done(); }
struct P { int a; short b; bool operator==(const P& o) const { return a==o.a&&b==o.b; } };
int main(){ int k=thorough()?8:1;
  run<gtl::flat_hash_map<int,int>>("flat_map",18*k); run<gtl::flat_hash_set<int>>("flat_set",18*k); run<gtl::flat_hash_map<int,int,HConst>>("flat_map/const",10*k);
  run<gtl::parallel_flat_hash_map<int,int,gtl::Hash<int>,std::equal_to<int>,std::allocator<std::pair<const int,int>>,2,std::mutex>>("pflat_map/2",8*k); run<gtl::parallel_flat_hash_set<int,gtl::Hash<int>,std::equal_to<int>,std::allocator<int>,4,gtl::NullMutex>>("pflat_set/4",6*k);
  files<gtl::flat_hash_map<int,int>>("file/flat_map"); files<gtl::parallel_flat_hash_set<int>>("file/pflat_set");
  begin("shard count mismatch"); newcase(); { gtl::parallel_flat_hash_set<int,gtl::Hash<int>,std::equal_to<int>,std::allocator<int>,2> a; gtl::parallel_flat_hash_set<int,gtl::Hash<int>,std::equal_to<int>,std::allocator<int>,3> b; a.insert(1); OutMem o; a.phmap_dump(o); InMem i{o.buf}; CHECK(!b.phmap_load(i),"a dump with another shard count is refused"); } done();
  budget(); full(); return 0; }
