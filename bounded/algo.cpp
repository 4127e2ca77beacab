// Bounded stand-in for C24.
#include "common.hpp"
#include <bit>
#include <cmath>
#include <limits>
#include <gtl/adv_utils.hpp>
#include <gtl/vec_utils.hpp>
#include <gtl/vector.hpp>
using namespace bd;
template<class T> void ints(const char* g){ begin(g); using L=std::numeric_limits<T>; std::vector<T> pts={L::min(),(T)(L::min()+1),(T)(L::min()/2),0,1,2,3,(T)(L::max()/2),(T)(L::max()/2+1),(T)(L::max()-1),L::max()}; if(std::is_signed_v<T>){ pts.push_back((T)-1); pts.push_back((T)-2); } Rng r(seed()); for(int i=0;i<25;++i) pts.push_back((T)r.next());
  for(T l: pts) for(T h: pts) if(l<h){ newcase(); auto m=gtl::middle<T>()(l,h); opf("middle(%lld,%lld)",(long long)l,(long long)h); bool gap=(T)(l+1)!=h; CHECK(m.has_value()==gap,"a midpoint exactly when one exists"); if(m) CHECK(l<*m && *m<h,"midpoint lies strictly inside");
    for(T sw: pts) if(l<sw && sw<=h){ ++ncases(); long calls=0; auto res=gtl::binary_search<T>(gtl::middle<T>(),[&](T x){ CHECK(++calls<200,"terminates"); CHECK(x>=l&&x<=h,"predicate called inside the interval"); return x>=sw; },l,h); CHECK(res.second==sw && (T)(res.first+1)==sw,"neighbours around the switch"); } } done(); }
static double nd(double x){ return std::nextafter(x,-INFINITY); }
static void dbl(){ begin("double"); std::vector<double> p={0.0,-0.0,1.0,-1.0,0.5,1e-300,-1e-300,5e-324,-5e-324,1e300,-1e300,std::numeric_limits<double>::max(),std::numeric_limits<double>::lowest(),3.25,-3.25}; Rng r(seed()); for(int i=0;i<20;++i) p.push_back(std::ldexp((double)(int64_t)r.next(),(int)r.below(300)-200)); for(double l: p) for(double h: p) if(l<h){ newcase(); opf("middle(%.17g,%.17g)",l,h); auto m=gtl::middle<double>()(l,h); if(m) CHECK(l<*m&&*m<h,"midpoint strictly inside"); else CHECK(std::nextafter(l,INFINITY)==h,"no midpoint only for neighbours"); for(double sw: p) if(l<sw&&sw<=h){ ++ncases(); int calls=0; auto q=gtl::binary_search<double>(gtl::middle<double>(),[&](double x){ CHECK(++calls<200,"terminates"); return x>=sw; },l,h); CHECK(q.first<sw && q.second==sw && (std::nextafter(q.first,INFINITY)==q.second),"neighbouring doubles around the switch"); } } done(); }
template<class V> void vecs(const char* g){ begin(g); for(int n=0;n<=9;++n){ V v; for(int i=0;i<n;++i) v.push_back(i*10); const V v0=v; for(int f=-n-1;f<=n;++f) for(int l=-n-1;l<=n;++l) for(int st=1;st<=4;++st){ newcase(); opf("slice n=%d first=%d last=%d stride=%d",n,f,l,st); int fi=f>=0?f:n+f+1, li=l>=0?l:n+l+1; V e; for(int i=fi;i<li;i+=st) e.push_back(i*10); CHECK(gtl::slice(v,f,l,st)==e,"slice"); CHECK(v==v0,"input unchanged"); }
   if(n){ V all; for(int i=0;i<n;++i) all.push_back(i*10); CHECK(gtl::slice(v)==all,"default slice is the whole vector"); }
   V w; for(int i=0;i<9-n;++i) w.push_back(-i-1); V e=v; for(auto x: w) e.push_back(x); CHECK(gtl::cat(v,w)==e && v==v0,"cat"); for(auto x: v) e.push_back(x); CHECK(gtl::cat(v,w,v)==e,"cat of three"); CHECK(gtl::cat(v)==v,"cat of one"); V mv=v,mw=w; CHECK(gtl::cat(std::move(mv),w)==gtl::cat(v,w),"cat of an rvalue"); auto m=gtl::map([](int x){ return x*2+1; },v); CHECK(m.size()==v.size(),"map length"); for(int i=0;i<n;++i) CHECK(m[i]==v[i]*2+1,"map element"); auto ms=gtl::map([](int x){ return std::to_string(x); },v); for(int i=0;i<n;++i) CHECK(ms[i]==std::to_string(v[i]),"map to strings"); CHECK(v==v0,"input unchanged"); int order=0; gtl::map([&](int x){ CHECK(x==order*10,"map applies in order"); ++order; return x; },v); CHECK(order==n,"map applies once per element"); } done(); }
static void catstr(){ begin("cat-strings"); newcase(); std::vector<std::string> a,b; for(int i=0;i<6;++i){ a.push_back("a long string that owns memory "+std::to_string(i)); b.push_back("another long string that owns memory "+std::to_string(i)); } const auto a0=a, b0=b; auto e=a; e.insert(e.end(),b.begin(),b.end()); CHECK(gtl::cat(a,b)==e && a==a0 && b==b0,"cat leaves its arguments"); CHECK(gtl::cat(a0,b)==e && b==b0,"cat of const"); auto s=gtl::slice(a,1,4); CHECK(s.size()==3 && s[0]==a0[1] && a==a0,"slice leaves its argument"); done(); }
int main(){ catstr(); ints<int>("int"); ints<unsigned>("unsigned"); ints<int8_t>("int8"); ints<uint8_t>("uint8"); ints<int16_t>("int16"); ints<int64_t>("int64"); ints<uint64_t>("uint64"); dbl(); vecs<std::vector<int>>("std::vector"); vecs<gtl::vector<int>>("gtl::vector"); return 0; }
