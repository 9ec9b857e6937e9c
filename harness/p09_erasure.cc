// P09: type erasure under random histories, with a registry of live payload objects.
#include "grids.hh"
#include "poly.hh"
#include <optional>
#include <typeinfo>
#include <dune/functions/common/polymorphicsmallobject.hh>
#include <dune/functions/common/interfaces.hh>
#include <dune/functions/common/typeerasure.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
using namespace VF;
using namespace Dune::Functions;
using namespace Dune::Functions::BasisFactory;
template<int n> using V_=Dune::FieldVector<double,n>;

// every payload object registers its address: constructing over a live object or destroying a dead one is reported
struct Registry { std::set<const void*> live; std::uint64_t ctors=0, dtors=0; long throwIn=-1; bool moving=false; };
struct Moving { Moving(); ~Moving(); };
inline Registry& reg() { static Registry r; return r; }
inline Moving::Moving() { reg().moving=true; } inline Moving::~Moving() { reg().moving=false; }
struct CopyFailed : std::runtime_error { CopyFailed() : std::runtime_error("copy failed") {} };
struct Tracked {
  Tracked() { in(); } Tracked(const Tracked&) { in(); } Tracked(Tracked&&) noexcept { in(); } Tracked& operator=(const Tracked&) { return *this; } ~Tracked() { ++reg().dtors; if (!reg().live.erase(this)) fail("payload-destroyed-twice","destructor on dead object"); }
  void in() { ++reg().ctors; if (!reg().live.insert(this).second) fail("payload-constructed-over-live-object",""); if (std::uintptr_t(this)%alignof(Tracked)) fail("payload-misaligned",""); }
};
// payload: a quadratic a+bx+cx^2 of a given size, alignment and copy behaviour
template<int extra, int align=8, bool throwing=false> struct alignas(align) Quad {
  double a,b,c; int order; Tracked t; std::unique_ptr<int> owned; char pad[extra]={};
  Quad(double a_,double b_,double c_,int o=0) : a(a_),b(b_),c(c_),order(o),owned(new int(42)) { for (auto& x : pad) x=char(int(a*7)+int(&x-pad)); }
  Quad(const Quad& q) : a(q.a),b(q.b),c(q.c),order(q.order) { if (throwing && reg().moving) fail("copied-by-move","moving a wrapper copied a stored object whose copy may throw"); if (throwing && reg().throwIn>=0 && reg().throwIn--==0) throw CopyFailed(); owned.reset(new int(*q.owned)); std::copy(q.pad,q.pad+extra,pad); }
  Quad(Quad&& q) noexcept : a(q.a),b(q.b),c(q.c),order(q.order),owned(std::move(q.owned)) { std::copy(q.pad,q.pad+extra,pad); q.a=q.b=q.c=1e300; }
  double operator()(double x) const
  {
    if (std::uintptr_t(this)%align) fail("payload-misaligned",cat("alignment ",align));
    for (auto& p : pad) if (p!=char(int(oa()*7)+int(&p-pad))) { fail("payload-corrupted","padding bytes changed"); break; }
    if (!owned || *owned!=42) { fail("payload-resource-lost",""); return 0; }
    return order==0 ? a+b*x+c*x*x : order==1 ? b+2*c*x : order==2 ? 2*c : 0;
  }
  Quad& operator=(Quad&& q) noexcept { a=q.a; b=q.b; c=q.c; order=q.order; owned=std::move(q.owned); std::copy(q.pad,q.pad+extra,pad); return *this; }
  double oa() const { return a; }
  friend Quad derivative(const Quad& q) { Quad d(q.a,q.b,q.c,q.order+1); return d; }
};
struct Model { double a,b,c; int order; const std::type_info* type; double operator()(double x) const { return order==0 ? a+b*x+c*x*x : order==1 ? b+2*c*x : order==2 ? 2*c : 0; } };
using DF=DifferentiableFunction<double(double)>;
using Small=Quad<1>; using Mid=Quad<24>; using Big=Quad<200>; using Al32=Quad<5,32>; using Al64=Quad<5,64>; using Thr=Quad<3,8,true>; using ThrBig=Quad<120,8,true>;
struct Stateless { double operator()(double x) const { return 3+x; } friend auto derivative(const Stateless&) { return [](double) { return 1.0; }; } };

struct DFSlot { std::unique_ptr<DF> f; std::optional<Model> m; };
template<class T> DF* makeDF(const Model& m) { return new DF(T(m.a,m.b,m.c,m.order)); }
VF_CASE("differentiablefunction-history") {
  for (int it=0; it<scale(60,600); ++it) {
    std::uint64_t trace=2;
    {
    std::vector<DFSlot> s;
    auto fresh=[&](bool allowEmpty) -> DFSlot {
      Model m{urnd(),urnd(),urnd(),int(rnd(3)),nullptr};
      switch (rnd(allowEmpty ? 9 : 8)) {
        case 0: m.type=&typeid(Small); return {std::unique_ptr<DF>(makeDF<Small>(m)),m};
        case 1: m.type=&typeid(Mid); return {std::unique_ptr<DF>(makeDF<Mid>(m)),m};
        case 2: m.type=&typeid(Big); return {std::unique_ptr<DF>(makeDF<Big>(m)),m};
        case 3: m.type=&typeid(Al32); return {std::unique_ptr<DF>(makeDF<Al32>(m)),m};
        case 4: m.type=&typeid(Al64); return {std::unique_ptr<DF>(makeDF<Al64>(m)),m};
        case 5: m.type=&typeid(Thr); return {std::unique_ptr<DF>(makeDF<Thr>(m)),m};
        case 6: m.type=&typeid(ThrBig); return {std::unique_ptr<DF>(makeDF<ThrBig>(m)),m};
        case 7: { Model n{3,1,0,0,&typeid(Stateless)}; return {std::make_unique<DF>(Stateless()),n}; }
        default: return {std::make_unique<DF>(),std::nullopt};
      } };
    auto verify=[&](const std::string& op) { trace=mix(trace,hstr(op));
      for (auto& a : s) { check(bool(*a.f)==bool(a.m),"bool","after ",op); if (!a.m || !*a.f) continue; trace=mix(trace,hstr(a.m->type->name()));
        double x=urnd(); check(near((*a.f)(x),(*a.m)(x),1e-12),"value","after ",op,": ",(*a.f)(x)," vs ",(*a.m)(x)," stored ",a.m->type->name()); check(a.f->target_type()==*a.m->type,"target-type","after ",op);
        if (rnd(3)==0) { Model d=*a.m; ++d.order; auto df=derivative(*a.f); check(near(df(x),d(x),1e-12),"derivative","after ",op); auto ddf=df; check(near(ddf(x),d(x),1e-12),"derivative-copy"); obs("derivatives"); } obs("evaluations"); }
      state(trace); };
    for (int k=0;k<scale(40,60);++k) {
      std::string op; auto c=rnd(14); if (s.size()<2) c=0; if (s.size()>7) c=12;
      auto i=s.empty()?0:rnd(s.size()), j=s.empty()?0:rnd(s.size());
      switch (c) {
      case 0: case 1: op="create"; s.push_back(fresh(true)); break;
      case 2: op="copy"; s.push_back({std::make_unique<DF>(*s[i].f),s[i].m}); break;
      case 3: { op="move"; auto m=s[i].m; Moving mv; auto n=std::make_unique<DF>(std::move(*s[i].f)); s.erase(s.begin()+i); s.push_back({std::move(n),m}); } break;
      case 4: op="copy-assign"; *s[i].f=static_cast<const DF&>(*s[j].f); s[i].m=s[j].m; break;
      case 5: { op="move-assign"; if (i==j) continue; Moving mv; *s[i].f=std::move(*s[j].f); s[i].m=s[j].m; s.erase(s.begin()+j); } break;
      case 6: { op="self-assign"; auto& r=*s[i].f; *s[i].f=static_cast<const DF&>(r); } break;
      case 7: { op="swap"; Moving mv; std::swap(*s[i].f,*s[j].f); if (i!=j) std::swap(s[i].m,s[j].m); } break;
      case 8: { op="assign-object"; Model m{urnd(),urnd(),urnd(),0,nullptr}; if (rnd(2)) { Small q(m.a,m.b,m.c); *s[i].f=q; q.a=77; m.type=&typeid(Small); } else { auto q=std::make_unique<Big>(m.a,m.b,m.c); *s[i].f=*q; m.type=&typeid(Big); } s[i].m=m; } break;
      case 9: op="assign-empty"; if (rnd(2)) *s[i].f=DF(); else { DF e; *s[i].f=e; } s[i].m.reset(); break;
      case 10: { op="throwing-copy"; reg().throwIn=0; bool threw=false; try { DF n(*s[i].f); check(bool(n)==bool(s[i].m),"copy-bool"); } catch (CopyFailed&) { threw=true; } reg().throwIn=-1; if (threw) obs("injected-copy-failures"); } break;
      case 11: { op="throwing-assign"; if (i==j) continue; reg().throwIn=0; bool threw=false; try { *s[i].f=static_cast<const DF&>(*s[j].f); } catch (CopyFailed&) { threw=true; } reg().throwIn=-1;
          if (!threw) s[i].m=s[j].m; else { obs("injected-assign-failures"); if (!bool(*s[i].f)) s[i].m.reset(); else if (s[i].m) { /* kept its old value */ } else fail("failed-assignment-invents-object",""); } } break;
      case 12: op="destroy"; s.erase(s.begin()+i); break;
      case 13: { op="vector-of-functions"; std::vector<DF> v; std::vector<std::optional<Model>> m; for (auto& a : s) { v.push_back(*a.f); m.push_back(a.m); } auto r=rnd(v.size()); std::rotate(v.begin(),v.begin()+r,v.end()); std::rotate(m.begin(),m.begin()+r,m.end()); v.erase(v.begin()); m.erase(m.begin()); s.clear(); for (std::size_t q=0;q<v.size();++q) s.push_back({std::make_unique<DF>(v[q]),m[q]}); } break;
      }
      obs(op); verify(op);
    }
    }
    check(reg().live.empty(),"leaked-payload",reg().live.size()," payload objects still alive"); reg().live.clear();
  }
  check(reg().ctors==reg().dtors,"balance",reg().ctors," constructions, ",reg().dtors," destructions"); obs("payload-objects",reg().ctors);
}
// the small object container itself for several buffer sizes
struct Base : public PolymorphicType<Base> { virtual double get() const=0; virtual void set(double)=0; };
template<int extra, int align=8, bool throwing=false> struct Der : Base { Quad<extra,align,throwing> q; Der(double v) : q(v,0,0) {} double get() const override { return q(0); } void set(double v) override { q=Quad<extra,align,throwing>(v,0,0); }
  Der* clone() const override { return new Der(*this); } Der* clone(void* b) const override { return new (b) Der(*this); } Der* move(void* b) override { return new (b) Der(std::move(*this)); } };
template<std::size_t N> void smallObject()
{
  using O=PolymorphicSmallObject<Base,N>;
  for (int it=0; it<scale(30,400); ++it) {
    { std::vector<std::pair<std::unique_ptr<O>,std::optional<double>>> s; std::uint64_t trace=N;
      auto fresh=[&](double v) { switch (rnd(5)) { case 0: return new O(Der<1>(v)); case 1: return new O(Der<30>(v)); case 2: return new O(Der<150>(v)); case 3: return new O(Der<1,32>(v)); default: return new O(Der<1,8,true>(v)); } };
      for (int k=0;k<40;++k) { std::string op; auto c=rnd(10); if (s.size()<2) c=rnd(2); if (s.size()>6) c=8; auto i=s.empty()?0:rnd(s.size()), j=s.empty()?0:rnd(s.size());
        switch (c) { case 0: { op="create"; double v=urnd(); s.emplace_back(std::unique_ptr<O>(fresh(v)),v); } break; case 1: op="empty"; s.emplace_back(std::make_unique<O>(),std::nullopt); break;
          case 2: op="copy"; s.emplace_back(std::make_unique<O>(static_cast<const O&>(*s[i].first)),s[i].second); break; case 3: { op="move"; auto v=s[i].second; Moving mv; auto n=std::make_unique<O>(std::move(*s[i].first)); s.erase(s.begin()+i); s.emplace_back(std::move(n),v); } break;
          case 4: op="assign"; *s[i].first=static_cast<const O&>(*s[j].first); s[i].second=s[j].second; break; case 5: if (i==j) continue; op="move-assign"; { Moving mv; *s[i].first=std::move(*s[j].first); } s[i].second=s[j].second; s.erase(s.begin()+j); break;
          case 6: { op="throwing-assign"; if (i==j) continue; reg().throwIn=0; bool threw=false; try { *s[i].first=static_cast<const O&>(*s[j].first); } catch (CopyFailed&) { threw=true; } reg().throwIn=-1; if (!threw) s[i].second=s[j].second; else { obs("injected-assign-failures"); if (!*s[i].first) s[i].second.reset(); } } break;
          case 7: if (s[i].second) { op="mutate"; double v=urnd(); s[i].first->get().set(v); s[i].second=v; } break; case 8: op="destroy"; s.erase(s.begin()+i); break; case 9: { op="std-swap"; if (i==j) continue; Moving mv; std::swap(*s[i].first,*s[j].first); std::swap(s[i].second,s[j].second); } break; }
        trace=mix(trace,hstr(op));
        for (auto& [o,v] : s) { check(bool(*o)==bool(v),"small:bool","after ",op); if (v && *o) { check(static_cast<const O&>(*o).get().get()==*v,"small:value","after ",op); auto p=reinterpret_cast<const char*>(&o->get()); auto b=reinterpret_cast<const char*>(o.get()); check((p>=b && p<b+sizeof(O))==o->bufferUsed(),"small:bufferUsed","after ",op); trace=mix(trace,o->bufferUsed()); obs(o->bufferUsed()?"in-buffer":"on-heap"); } }
        state(trace); } }
    check(reg().live.empty(),"small:leak",reg().live.size()); reg().live.clear();
  }
}
VF_CASE("small-object/0") { smallObject<0>(); }
VF_CASE("small-object/8") { smallObject<8>(); }
VF_CASE("small-object/64") { smallObject<64>(); }
VF_CASE("small-object/96") { smallObject<96>(); }
VF_CASE("small-object/256") { smallObject<256>(); }
VF_CASE("not-differentiable") {
  for (int it=0; it<scale(50,300); ++it) { double a=urnd(); auto lam=[a](double x) { return a*x; }; DF f=lam; double x=urnd(); check(near(f(x),a*x,1e-14),"lambda"); check(throws([&]{ derivative(f); }),"derivative-must-throw"); DF g=f; check(throws([&]{ derivative(g); }),"derivative-of-copy-must-throw"); check(near(f(x),a*x,1e-14) && near(g(x),a*x,1e-14),"usable-after-throw"); state(hdbl(0,a));
    // callables stored by value, also when passed as lvalues
    std::optional<DF> keep; { auto u=std::make_shared<double>(a); auto f0=[u](double y) { return *u*y*y; }; auto f1=[u](double y) { return 2**u*y; }; auto c=makeDifferentiableFunctionFromCallables(SignatureTag<double(double)>(),f0,f1); auto cc=c; keep=DF(cc); auto* dc=new auto(derivative(c)); check(near((*dc)(x),2*a*x,1e-14),"callables-derivative"); delete dc; check(throws([&]{ derivative(derivative(c)); }),"no-second-derivative"); }
    check(near((*keep)(x),a*x*x,1e-14) && near(derivative(*keep)(x),2*a*x,1e-14),"callables-outlive-arguments"); }
}
VF_CASE("gridfunctions") {
  for (int it=0; it<scale(8,60); ++it) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); using GV=decltype(gv); using X=V_<2>; using E=typename GV::template Codim<0>::Entity; using W=GridViewFunction<double(X),GV>;
    auto basis=makeBasis(gv,lagrange<2>()); using C=std::vector<double>;
    std::vector<E> els; for (const auto& e : elements(gv)) els.push_back(e);
    struct Slot { W w; std::function<double(const E&,const X&)> ref; std::function<std::vector<double>(const E&,const X&)> dref; };
    auto mk=[&]() -> Slot {
      if (rnd(3)==0) { auto p=Poly<2>::random(2); auto dp=derivative(p); return {W(makeAnalyticGridViewFunction(p,gv)),[p](const E& e,const X& x){ return p(e.geometry().global(x)); },[dp](const E& e,const X& x){ return flat(dp(e.geometry().global(x))); }}; }
      if (rnd(2)) { C c(basis.dimension()); for (auto& y : c) y=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(basis,C(c)); return {W(f),[f](const E& e,const X& x){ auto l=localFunction(f); l.bind(e); return l(x); },[f](const E& e,const X& x){ auto l=localFunction(derivative(f)); l.bind(e); return flat(l(x)); }}; }
      auto q=Poly<2>::random(2);
      return {W(makeAnalyticGridViewFunction(q,gv)),[q](const E& e,const X& x){ return q(e.geometry().global(x)); },[q](const E& e,const X& x){ return flat(derivative(q)(e.geometry().global(x))); }}; };
    std::vector<Slot> s; s.push_back(mk()); s.push_back(mk()); using LF=std::decay_t<decltype(localFunction(s[0].w))>;
    struct L { LF l; std::function<double(const E&,const X&)> ref; std::optional<std::size_t> el; }; std::vector<L> ls; std::uint64_t trace=it;
    for (int k=0;k<scale(40,80);++k) { auto c=rnd(9); auto i=rnd(s.size()), j=rnd(s.size()); trace=mix(trace,c*100+i*10+j);
      switch (c) { case 0: if (s.size()<6) s.push_back(mk()); break; case 1: s[i]=s[j]; break; case 2: s[i].w=mk().w; s[i]=mk(); break; case 3: if (s.size()>2) { s[i]=std::move(s[j]); if (i!=j) s.erase(s.begin()+j); else s[i]=mk(); } break;
        case 4: case 5: ls.push_back({localFunction(s[i].w),s[i].ref,std::nullopt}); break; case 6: if (!ls.empty()) { auto& a=ls[rnd(ls.size())]; auto e=rnd(els.size()); a.l.bind(els[e]); a.el=e; } break; case 7: if (ls.size()>1) { auto a=rnd(ls.size()), b=rnd(ls.size()); ls[a]=static_cast<const L&>(ls[b]); } break; case 8: if (ls.size()>5) ls.erase(ls.begin()+rnd(ls.size())); else if (!ls.empty()) { auto& a=ls[rnd(ls.size())]; a.l.unbind(); a.el.reset(); } break; }
      for (auto& a : ls) { check(a.l.bound()==bool(a.el),"grid:bound"); if (a.el) { auto x=randomLocal<2>(els[*a.el].type()); check(near(a.l(x),a.ref(els[*a.el],x),1e-9),"grid:local-value"); check(a.l.localContext()==els[*a.el],"grid:context"); obs("evaluations"); } }
      for (auto& a : s) { auto e=els[rnd(els.size())]; auto x=randomLocal<2>(e.type()); auto l=localFunction(a.w); l.bind(e); check(near(l(x),a.ref(e,x),1e-9),"grid:value"); auto dl=derivative(l); check(nearv(flat(dl(x)),a.dref(e,x),1e-8),"grid:derivative"); auto dw=derivative(a.w); auto dwl=localFunction(dw); dwl.bind(e); check(nearv(flat(dwl(x)),a.dref(e,x),1e-8),"grid:global-derivative"); check(a.w.entitySet().size()==els.size(),"grid:entityset"); obs("evaluations"); }
      state(trace); }
    // empty wrappers
    W e1; W e2=e1; W e3=std::move(e2); e1=e3; check(!e1 && !e3,"grid:empty"); e1=s[0].w; check(bool(e1),"grid:filled"); e1=W(); check(!e1,"grid:emptied"); LF l1; LF l2=l1; l2=l1; check(!l1 && !l2,"grid:empty-local");
  }
}
