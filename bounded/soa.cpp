// Bounded stand-in for C22: every permutation and every small key pattern, compared with std::stable_sort of whole rows.
#include "common.hpp"
#include <gtl/soa.hpp>
#include <sstream>
#include <algorithm>
#include <numeric>
#include <memory>
using namespace bd;
using S=gtl::soa<int,Tr,std::string>; struct Row { int a; int b; std::string c; int tag; };
template<class G> void cmp(S& s,const std::vector<Row>& v,const char* w){ CHECK(s.size()==v.size() && s.empty()==v.empty(),"row count"); CHECK(s.get_column<1>().size()==v.size() && s.get_column<2>().size()==v.size(),"all columns have the same length"); const S& cs=s; for(size_t i=0;i<v.size();++i){ CHECK(s.get_column<0>()[i]==v[i].a && s.get_column<1>()[i].v==v[i].b && s.get_column<2>()[i]==v[i].c,"row stays together, in stable order"); auto t=cs[i]; CHECK(std::get<0>(t)==v[i].a && std::get<1>(t).v==v[i].b && std::get<2>(t)==v[i].c,"operator[]"); auto u=s.view<2,0>(i); CHECK(std::get<0>(u)==v[i].c && std::get<1>(u)==v[i].a,"view"); auto u2=cs.view<1>(i); CHECK(std::get<0>(u2).v==v[i].b,"const view"); s.get_column<1>()[i].ok(); } }
static S make(const std::vector<Row>& v){ S s; for(auto& r: v) s.insert(r.a,Tr(r.b),r.c); return s; }
static Row row(int key,int i){ return Row{key,i*3,"row-with-a-long-string-"+std::to_string(i),i}; }
static void sorts(std::vector<Row> v){ ++ncases(); { S s=make(v); auto w=v; std::stable_sort(w.begin(),w.end(),[](auto&x,auto&y){return x.a<y.a;}); s.sort_by_field<0>(); cmp<int>(s,w,""); }
  { S s=make(v); auto w=v; std::stable_sort(w.begin(),w.end(),[](auto&x,auto&y){return x.a>y.a;}); s.sort_by_field<0>([](int x,int y){ return x>y; }); cmp<int>(s,w,"");  s.sort_by_field<1>(); std::stable_sort(w.begin(),w.end(),[](auto&x,auto&y){return x.b<y.b;}); cmp<int>(s,w,""); }
  { S s=make(v); auto w=v; std::stable_sort(w.begin(),w.end(),[](auto&x,auto&y){return x.c<y.c;}); s.sort_by_field<2>(); cmp<int>(s,w,""); s.sort_by_field<0>([](int x,int y){ return x%2<y%2; }); std::stable_sort(w.begin(),w.end(),[](auto&x,auto&y){return x.a%2<y.a%2;}); cmp<int>(s,w,""); } }
int main(){ long l0=cnt().live;
  begin("permutations"); for(int n=0;n<=6;++n){ std::vector<int> p(n); std::iota(p.begin(),p.end(),0); do{ newcase(); std::vector<Row> v; for(int i=0;i<n;++i) v.push_back(row(p[i],i)); std::string o; for(int x:p) o+=std::to_string(x)+" "; op("keys "+o); sorts(v); }while(std::next_permutation(p.begin(),p.end())); } done();
  begin("ties"); for(int n=2;n<=6;++n){ int tot=1; for(int i=0;i<n;++i) tot*=3; for(int c=0;c<tot;++c){ newcase(); int x=c; std::vector<Row> v; for(int i=0;i<n;++i){ v.push_back(row(x%3,i)); x/=3; } opf("n=%d code %d",n,c); sorts(v); } } done();
  begin("random"); { Rng r(seed()); for(int t=0;t<(thorough()?400:60);++t){ newcase(); int n=(int)r.below(t%10==0?400:140); std::vector<Row> v; for(int i=0;i<n;++i) v.push_back(row((int)r.below(1+r.below(50)),i)); opf("random n=%d",n); sorts(v); } } done();
  begin("sizes"); { Rng r(seed()+7); for(int n=0;n<=135;++n){ newcase(); std::vector<Row> v; for(int i=0;i<n;++i) v.push_back(row((int)r.below(1+n/2),i)); opf("n=%d",n); sorts(v); } } done();
  begin("shapes"); { newcase(); S s; s.reserve(10); CHECK(s.empty(),"empty"); s.insert(1,Tr(2),std::string("x")); s.insert(0,Tr(3),std::string("y")); s.resize(4); CHECK(s.size()==4 && s.get_column<1>().size()==4 && s.get_column<2>()[3].empty() && s.get_column<0>()[3]==0 && s.get_column<2>()[0]=="x","resize adds rows"); auto t=s[1]; std::get<0>(t)=9; CHECK(s.get_column<0>()[1]==9,"row access writes through"); s.resize(1); CHECK(s.size()==1 && s.get_column<2>().size()==1 && s.get_column<1>()[0].v==2,"resize drops rows"); s.clear(); CHECK(s.empty() && s.get_column<1>().empty() && s.get_column<2>().empty(),"clear"); s.sort_by_field<0>(); gtl::soa<int> one; for(int i=5;i>0;--i) one.insert(i); one.sort_by_field<0>(); for(int i=0;i<5;++i) CHECK(one.get_column<0>()[i]==i+1,"single column"); gtl::soa<std::unique_ptr<int>,int> mv; mv.get_column<0>().push_back(std::make_unique<int>(2)); mv.get_column<1>().push_back(2); mv.get_column<0>().push_back(std::make_unique<int>(1)); mv.get_column<1>().push_back(1); mv.sort_by_field<1>(); CHECK(*mv.get_column<0>()[0]==1 && *mv.get_column<0>()[1]==2,"move-only column"); ncases()+=5; } CHECK(cnt().live==l0,"elements balanced"); done();
  return 0; }
