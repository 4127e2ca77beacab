// Bounded stand-in for C23.
#include "common.hpp"
#include <gtl/utils.hpp>
#include <memory>
using namespace bd;
static std::vector<int> ev;
static void guards(){ begin("guards"); for(int doit=0;doit<2;++doit) for(int dis=0;dis<2;++dis) for(int thr=0;thr<2;++thr){ newcase(); opf("do_it %d dismiss %d throw %d",doit,dis,thr); bool run=doit&&!dis;
   ev.clear(); try{ gtl::scoped_guard g([]{ ev.push_back(1); },doit); if(dis) g.dismiss(); CHECK(ev.empty(),"exit action not run early"); if(thr) throw 1; }catch(int){} CHECK(ev.size()==(size_t)run,"scoped_guard runs its action exactly once unless dismissed");
   ev.clear(); try{ gtl::scoped_set_unset g([]{ ev.push_back(1); },[]{ ev.push_back(2); },doit); CHECK(ev.size()==(size_t)doit && (!doit||ev[0]==1),"entry action"); if(dis) g.dismiss(); if(thr) throw 1; }catch(int){} CHECK(ev.size()==(size_t)(doit+run) && (!run||ev[1]==2),"scoped_set_unset");
   std::string v="old value long enough for the heap"; const std::string old=v; try{ gtl::scoped_set_value g(v,"new",doit); CHECK(v==(doit?"new":old),"value set"); v+="!"; if(dis) g.dismiss(); if(thr) throw 1; }catch(int){} CHECK(v==(run?old:(doit?std::string("new!"):old+"!")),"scoped_set_value restores the previous value");
   int x=5; { gtl::scoped_set_value g(x,7,doit); if(dis) g.dismiss(); } CHECK(x==(run?5:(doit?7:5)),"int restored");
   ev.clear(); { gtl::scoped_guard a([]{ ev.push_back(1); },doit); gtl::scoped_guard b([]{ ev.push_back(2); }); { gtl::scoped_guard c([]{ ev.push_back(3); }); if(dis) a.dismiss(); } } std::vector<int> e={3,2}; if(run) e.push_back(1); CHECK(ev==e,"nesting order"); 
   int y=1; { gtl::scoped_set_value g1(y,2); { gtl::scoped_set_value g2(y,3,doit); CHECK(y==(doit?3:2),"nested"); if(dis) g2.dismiss(); } CHECK(y==(run?2:(doit?3:2)),"inner restored"); } CHECK(y==1,"outer restored"); } done(); }
static void changes(){ begin("change/replace"); for(int a=-3;a<=3;++a) for(int b=-3;b<=3;++b){ newcase(); int v=a; CHECK(gtl::change(v,b)==(a!=b) && v==b,"change"); v=a; CHECK(gtl::replace(v,b)==a && v==b,"replace"); std::string s=std::to_string(a)+std::string(40,'q'),t=std::to_string(b)+std::string(40,'q'); std::string s0=s; CHECK(gtl::change(s,t)==(a!=b) && s==t && t==std::to_string(b)+std::string(40,'q'),"change string"); s=s0; CHECK(gtl::replace(s,t)==s0 && s==t,"replace string"); double d=a; CHECK(gtl::change(d,(double)b)==(a!=b)&&d==b,"change double"); std::unique_ptr<int> p(new int(a)); auto q=gtl::replace(p,std::make_unique<int>(b)); CHECK(*q==a&&*p==b,"replace move-only"); } done(); }
struct Obj: gtl::timestamp { int x=0; std::string s; bool set(int v){ return set_with_ts(x,v); } bool sets(const std::string& v){ return set_with_ts(s,v); } };
struct Prov: gtl::provides_timestamp<Prov>{ gtl::timestamp t; gtl::timestamp get_timestamp() const { return t; } };
static void stamps(){ begin("timestamps"); for(int s=0;s<20;++s){ newcase(); Rng r(seed()*5+s); std::vector<gtl::timestamp> t; std::vector<uint64_t> ord; uint64_t clk=0; std::vector<Prov> pv(3); for(int i=0;i<6;++i){ t.emplace_back(); ord.push_back(++clk); } Obj o; 
   for(int i=0;i<300;++i){ ++ncases(); size_t a=r.below(6),b=r.below(6); switch(r.below(7)){ case 0: case 1: opf("touch %zu",a); t[a].touch(); ord[a]=++clk; break; case 2: opf("touch %zu from %zu",a,b); t[a].touch(t[b]); ord[a]=ord[b]; break; case 3: opf("reset %zu",a); t[a].reset(); ord[a]=0; break; case 4: { opf("%zu |= %zu",a,b); auto m=t[a]|t[b]; CHECK(m==(ord[a]>ord[b]?t[a]:t[b]),"combining yields the newer one"); t[a]|=t[b]; ord[a]=std::max(ord[a],ord[b]); break; } case 5: { auto before=o.get_timestamp(); int v=(int)r.below(3); bool ch=o.x!=v; CHECK(o.set(v)==ch && o.x==v,"tracked assignment"); CHECK(o.get_timestamp().is_newer_than(before)==ch && (ch||o.get_timestamp()==before),"stamp renewed exactly when the value changes"); if(ch) for(auto& q: t) CHECK(o.is_newer_than(q),"newer than all earlier stamps"); break; } case 6: { auto before=o.get_timestamp(); std::string v(r.below(2)*30,'z'); bool ch=o.s!=v; CHECK(o.sets(v)==ch && o.s==v && (o.get_timestamp()>before)==ch,"tracked string assignment"); break; } }
     for(size_t x=0;x<6;++x) for(size_t y=0;y<6;++y){ CHECK(t[x].is_newer_than(t[y])==(ord[x]>ord[y]) && t[x].is_older_than(t[y])==(ord[x]<ord[y]) && (t[x]==t[y])==(ord[x]==ord[y]) && (t[x]<t[y])==(ord[x]<ord[y]) && (t[x]>t[y])==(ord[x]>ord[y]),"order of stamps"); } CHECK(t[a].is_set()==(ord[a]!=0),"is_set"); pv[0].t=t[a]; pv[1].t=t[b]; CHECK(pv[0].is_newer_than(pv[1])==(ord[a]>ord[b]) && pv[0].is_older_than(pv[1])==(ord[a]<ord[b]) && (pv[0]|pv[1])==(ord[a]>ord[b]?t[a]:t[b]),"provides_timestamp"); } } done(); }
int main(){ guards(); changes(); stamps(); return 0; }
