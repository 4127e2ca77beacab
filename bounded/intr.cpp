// Bounded stand-in for C21: random sequences of intrusive-pointer operations against an ownership model.
#include "common.hpp"
#include <gtl/intrusive.hpp>
#include <thread>
#include <atomic>
using namespace bd;
static std::map<const void*,int> destroyed; static long live=0;
template<class P> struct Base: gtl::intrusive_ref_counter<Base<P>,P> { int id; explicit Base(int i):id(i){ ++live; } Base(const Base& o):gtl::intrusive_ref_counter<Base<P>,P>(o),id(o.id+1000){ ++live; } virtual ~Base(){ --live; ++destroyed[this]; } };
template<class P> struct Der: Base<P> { explicit Der(int i):Base<P>(i){} };
template<class P> struct Oth: Base<P> { explicit Oth(int i):Base<P>(i){} };
template<class P> void run(const char* name,int seeds,int steps){ begin(name); using B=Base<P>; using D=Der<P>; using O=Oth<P>; using PB=gtl::intrusive_ptr<B>; using PD=gtl::intrusive_ptr<D>;
  for(int s=0;s<seeds;++s){ newcase(); Rng r(seed()*131+s); long live0=live; { constexpr int N=6,M=4; PB b[N]; PD d[M]; B* mb[N]={}; D* md[M]={}; std::vector<B*> raw; int ids=0; std::vector<std::pair<B*,bool>> manual; /* detached references */
    auto owners=[&](B* p){ unsigned n=0; for(auto* x: mb) n+=x==p; for(auto* x: md) n+=(B*)x==p; for(auto& m: manual) n+=m.first==p; return n; };
    for(int i=0;i<steps;++i){ ++ncases(); int x=(int)r.below(N),y=(int)r.below(N),z=(int)r.below(M),w=(int)r.below(M);
      switch(r.below(30)){
      case 0: case 1: { B* p=new B(++ids); opf("b[%d]=new",x); b[x]=p; mb[x]=p; break; }
      case 2: case 3: { D* p=new D(++ids); opf("d[%d]=PD(new)",z); d[z]=PD(p); md[z]=p; break; }
      case 4: { opf("b[%d]=b[%d]",x,y); b[x]=b[y]; mb[x]=mb[y]; break; }
      case 5: { opf("b[%d]=move(b[%d])",x,y); b[x]=std::move(b[y]); if(x!=y){ mb[x]=mb[y]; mb[y]=nullptr; } break; }
      case 6: { opf("b[%d]=d[%d]",x,z); b[x]=d[z]; mb[x]=md[z]; break; }
      case 7: { opf("b[%d]=move(d[%d])",x,z); B* p=md[z]; b[x]=std::move(d[z]); mb[x]=p; if(!d[z].get()) md[z]=nullptr; else CHECK(d[z].get()==md[z],"converting move keeps or gives up the source"); break; }
      case 8: { opf("b[%d].reset()",x); b[x].reset(); mb[x]=nullptr; break; }
      case 9: { opf("b[%d].reset(raw of b[%d])",x,y); B* p=mb[y]; b[x].reset(p); mb[x]=p; break; }
      case 10: { opf("swap b[%d] b[%d]",x,y); b[x].swap(b[y]); std::swap(mb[x],mb[y]); break; }
      case 11: { opf("std swap"); swap(b[x],b[y]); std::swap(mb[x],mb[y]); break; }
      case 12: { opf("detach b[%d]",x); B* p=b[x].detach(); CHECK(p==mb[x],"detach returns the pointer"); mb[x]=nullptr; if(p) manual.push_back({p,true}); break; }
      case 13: { if(!manual.empty()){ opf("adopt into b[%d]",x); B* p=manual.back().first; manual.pop_back(); b[x].reset(p,false); mb[x]=p; } break; }
      case 14: { if(!manual.empty()){ opf("adopt by constructor"); B* p=manual.back().first; manual.pop_back(); PB t(p,false); b[y]=std::move(t); mb[y]=p; } break; }
      case 15: { opf("static cast copy"); PD t=gtl::static_pointer_cast<D>(PB(d[z])); CHECK(t.get()==md[z],"static cast"); d[w]=t; md[w]=md[z]; break; }
      case 16: { opf("dynamic cast copy b[%d]->d[%d]",x,z); PD t=gtl::dynamic_pointer_cast<D>(b[x]); D* e=dynamic_cast<D*>(mb[x]); CHECK(t.get()==e,"dynamic cast"); d[z]=t; md[z]=e; break; }
      case 17: { opf("dynamic cast move b[%d]->d[%d]",x,z); D* e=dynamic_cast<D*>(mb[x]); PD t=gtl::dynamic_pointer_cast<D>(std::move(b[x])); CHECK(t.get()==e,"dynamic move cast"); if(e) mb[x]=nullptr; CHECK(b[x].get()==mb[x],"a failed cast keeps the source"); d[z]=std::move(t); md[z]=e; break; }
      case 18: { opf("static cast move"); PB t=gtl::static_pointer_cast<B>(std::move(d[z])); CHECK(t.get()==md[z] && !d[z],"static move cast"); b[x]=t; mb[x]=md[z]; md[z]=nullptr; break; }
      case 19: { opf("const cast"); gtl::intrusive_ptr<const B> c=b[x]; PB t=gtl::const_pointer_cast<B>(c); CHECK(t==b[x],"const cast"); PB u=gtl::const_pointer_cast<B>(std::move(c)); CHECK(u==t && !c.get(),"const move cast"); break; }
      case 20: { opf("self b[%d]",x); PB& q=b[x]; b[x]=q; b[x]=b[x].get(); b[x]=std::move(q); break; }
      case 21: { opf("copy ctor/move ctor"); PB t(b[x]); if(mb[x]) CHECK(t->use_count()==owners(mb[x])+1,"copy counts"); PB u(std::move(t)); CHECK(!t && u.get()==mb[x],"move transfers"); if(mb[x]) CHECK(u->use_count()==owners(mb[x])+1,"move does not count"); b[y]=u; mb[y]=mb[x]; break; }
      case 22: { if(mb[x]){ opf("object copy"); PB t(new B(*mb[x])); CHECK(t->use_count()==1,"a copied object has its own count"); *t=*b[x]; CHECK(t->use_count()==1 && b[x]->use_count()==owners(mb[x]),"object assignment leaves the counts"); B tmp(7); *b[x]=tmp; CHECK(b[x]->use_count()==owners(mb[x]) && tmp.use_count()==0,"assignment from an unowned object leaves the counts"); tmp=*b[x]; CHECK(tmp.use_count()==0,"assignment to an unowned object leaves its count"); B cp(std::move(tmp)); CHECK(cp.use_count()==0,"fresh count"); } break; }
      case 23: { opf("reset(p,true)"); B* p=mb[y]; b[x].reset(p,true); mb[x]=p; break; }
      case 24: { opf("converting copy ctor"); PB t(d[z]); CHECK(t.get()==md[z],"conversion"); PB u(PD(d[z])); CHECK(u.get()==md[z],"converting move ctor"); if(md[z]) CHECK(t->use_count()==owners(md[z])+2,"conversions count"); break; }
      case 25: { O* o=new O(++ids); opf("b[%d]=other",x); b[x]=o; mb[x]=o; break; }
      default: { opf("b[%d] release",y); b[y]=nullptr; mb[y]=nullptr; break; } }
      unsigned n=0; std::set<B*> objs; for(auto* p: mb) if(p) objs.insert(p); for(auto* p: md) if(p) objs.insert(p); for(auto& m: manual) objs.insert(m.first);
      for(int q=0;q<N;++q){ CHECK(b[q].get()==mb[q],"pointer value"); CHECK(!!b[q]==(mb[q]!=nullptr),"bool"); } for(int q=0;q<M;++q) CHECK(d[q].get()==md[q],"pointer value");
      for(auto* o: objs) CHECK(o->use_count()==owners(o),"use count equals the number of owning pointers"); CHECK((size_t)(live-live0)==objs.size(),"an object lives exactly while it is owned");
      CHECK((b[x]==b[y])==(mb[x]==mb[y]) && (b[x]!=b[y])==(mb[x]!=mb[y]) && (b[x]==nullptr)==(mb[x]==nullptr) && (b[x]==d[z])==(mb[x]==(B*)md[z]),"comparisons"); }
    for(auto& m: manual) PB(m.first,false); manual.clear(); }
    CHECK(live==live0,"everything destroyed with its last owner"); }
  for(auto& d: destroyed) CHECK(d.second>=1,"destroyed"); done(); }
static std::atomic<int> dd{0}; struct Cnt: gtl::intrusive_ref_counter<Cnt,gtl::thread_safe_counter>{ ~Cnt(){ dd++; } };
static void threads(){ begin("threads"); for(int round=0;round<60;++round){ newcase(); int before=dd; { gtl::intrusive_ptr<Cnt> root(new Cnt); std::vector<std::thread> t; std::atomic<int> go{0}; for(int n=0;n<4;++n) t.emplace_back([root,&go]{ go++; while(go<4); for(int i=0;i<800;++i){ gtl::intrusive_ptr<Cnt> a(root),b; b=a; a.reset(); gtl::intrusive_ptr<Cnt> c(std::move(b)); b=c; } }); root.reset(); for(auto& x:t) x.join(); } CHECK(dd==before+1,"destroyed exactly once under concurrency"); ncases()+=3200; } done(); }
int main(){ int k=thorough()?10:1; run<gtl::thread_safe_counter>("safe",30*k,400); run<gtl::thread_unsafe_counter>("unsafe",30*k,400); threads(); return 0; }
