// P18: functions moved between refinement levels; oracle: evaluate the raw function in the element of the raw
// grid view that contains the global point.
#include "poly.hh"
#include "alberta.hh"
#include <optional>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;

// independent point location by brute force; only accepts points clearly inside of one element
template<class GV, class X> auto locate(const GV& gv, const X& x)
{
  using E=typename GV::template Codim<0>::Entity; constexpr int dim=GV::dimension;
  std::optional<std::pair<E,typename E::Geometry::LocalCoordinate>> r; 
  for (const auto& e : elements(gv)) {
    auto g=e.geometry(); auto l=g.local(x); double margin=1;
    if (e.type().isSimplex()) { double s=1; for (int i=0;i<dim;++i) { s-=l[i]; margin=std::min(margin,double(l[i])); } margin=std::min(margin,s); }
    else for (int i=0;i<dim;++i) margin=std::min({margin,double(l[i]),1-double(l[i])});
    if (margin>1e-7) { r.emplace(e,l); return r; }
  }
  return r;
}
template<class GV> auto pts(const GV& gv) {
  using E=typename GV::template Codim<0>::Entity; struct P { E e; typename E::Geometry::LocalCoordinate x; };
  std::vector<P> r; int per=gv.size(0)>60?1:3; for (const auto& e : elements(gv)) for (int k=0;k<per;++k) r.push_back({e,randomLocal<GV::dimension>(e.type())}); return r;
}
template<class V> bool close_(const V& a, const V& b) { auto x=flat(a), y=flat(b); if (x.size()!=y.size()) return false; for (std::size_t i=0;i<x.size();++i) if (!near(x[i],y[i],1e-7)) return false; return true; }

// f: function on gv, raw: function on its own entity set
template<bool hasD, class F, class Raw, class GV> void verify(const std::string& key, const F& f, const Raw& raw, const GV& gv)
{
  auto rgv=raw.entitySet().gridView();
  auto lf=localFunction(f); auto rl=localFunction(raw);
  auto lf2=lf; std::uint64_t h=hstr(key);
  check(!lf.bound(), key+":fresh-bound");
  check(&f.entitySet().gridView().indexSet()==&gv.indexSet(), key+":entitySet");
  for (auto& p : pts(gv)) {
    auto X=p.e.geometry().global(p.x); auto where=locate(rgv,X);
    if (!where) { obs("points-on-skeleton-skipped"); continue; }
    rl.bind(where->first); auto want=rl(where->second);
    lf.bind(p.e);
    check(lf.bound() && lf.localContext()==p.e, key+":context");
    auto got=lf(p.x);
    check(close_(got,want), key+":value", "at ", X, " got ", flat(got)[0], " want ", flat(want)[0]);
    for (double d : flat(got)) h=hdbl(h,d);
    obs("evaluations"); obs(where->first.level()==p.e.level() ? "same-level" : std::abs(where->first.level()-p.e.level())==1 ? "one-level" : "several-levels");
    // copies of bound/unbound functions, and bound copies that outlive rebinding of the original
    if (rnd(3)==0) {
      auto c=lf; lf.unbind(); check(!lf.bound(), key+":unbind"); check(c.bound() && c.localContext()==p.e && close_(c(p.x),want), key+":copy");
      if constexpr (hasD) { auto dc=derivative(c); rl.bind(where->first); auto dr=derivative(rl); check(dc.bound() && close_(dc(p.x),dr(where->second)), key+":copy-derivative"); }
    }
    if constexpr (hasD) {
      auto dr=localFunction(derivative(raw)); dr.bind(where->first); auto dwant=dr(where->second);
      lf2.bind(p.e); auto d1=derivative(lf2); check(d1.bound() && d1.localContext()==p.e, key+":derivative-bound"); check(close_(d1(p.x),dwant), key+":derivative-of-local");
      auto df=derivative(f); auto d2=localFunction(df); d2.bind(p.e); check(close_(d2(p.x),dwant), key+":local-of-derivative");
      auto d3=localFunction(derivative(f)); d3.bind(p.e); check(close_(d3(p.x),dwant), key+":local-of-temporary-derivative");
      auto u=localFunction(f); auto d4=derivative(u); check(!d4.bound(), key+":derivative-of-unbound-bound"); d4.bind(p.e); check(close_(d4(p.x),dwant), key+":derivative-of-unbound");
      obs("derivative-evaluations");
    }
  }
  state(h);
  if constexpr (requires { raw(typename GV::template Codim<0>::Geometry::GlobalCoordinate{}); }) {
    int n=0; for (auto& p : pts(gv)) { if (++n>4) break; auto X=p.e.geometry().global(p.x); if (!locate(rgv,X)) continue; check(close_(f(X),raw(X)), key+":global"); }
  }
}
template<bool coarse, bool hasD, class Raw, class GV> void wrap(const std::string& key, const Raw& raw, const GV& gv)
{
  if constexpr (coarse) {
    CoarseFunctionOnFineGridView f(raw,gv); verify<hasD>(key,f,raw,gv);
    { auto g=f; CoarseFunctionOnFineGridView h(std::cref(raw),gv); verify<hasD>(key+"-ref",h,raw,gv);
      auto p=std::make_unique<decltype(f)>(Raw(raw),gv); auto l=localFunction(*p); auto q=*p; p.reset(); verify<hasD>(key+"-copy",q,raw,gv);
      using R=std::decay_t<decltype(f(typename decltype(f)::Domain{}))>;
      auto t=localFunction(CoarseFunctionOnFineGridView(raw,gv)); auto rl=localFunction(raw);
      for (auto& pt : pts(gv)) { auto w=locate(raw.entitySet().gridView(),pt.e.geometry().global(pt.x)); if (!w) continue; rl.bind(w->first); t.bind(pt.e); check(close_(t(pt.x),rl(w->second)), key+":temporary"); l.bind(pt.e); check(close_(l(pt.x),rl(w->second)), key+":outlives-function"); }
    }
  } else {
    FineFunctionOnCoarseGridView f(raw,gv); verify<hasD>(key,f,raw,gv);
    { FineFunctionOnCoarseGridView h(std::cref(raw),gv); verify<hasD>(key+"-ref",h,raw,gv);
      auto p=std::make_unique<decltype(f)>(Raw(raw),gv); auto l=localFunction(*p); auto q=*p; p.reset(); verify<hasD>(key+"-copy",q,raw,gv);
      auto t=localFunction(FineFunctionOnCoarseGridView(raw,gv)); auto rl=localFunction(raw);
      for (auto& pt : pts(gv)) { auto w=locate(raw.entitySet().gridView(),pt.e.geometry().global(pt.x)); if (!w) continue; rl.bind(w->first); t.bind(pt.e); check(close_(t(pt.x),rl(w->second)), key+":temporary"); l.bind(pt.e); check(close_(l(pt.x),rl(w->second)), key+":outlives-function"); }
    }
  }
}
// type-erased
template<bool coarse, class Raw, class GV> void erased(const std::string& key, const Raw& raw, const GV& gv)
{
  using X=typename GV::template Codim<0>::Geometry::GlobalCoordinate; using R=std::decay_t<decltype(flat(raw(X{})))>;
  using Range=std::decay_t<decltype(raw(X{}))>;
  GridViewFunction<Range(X),GV> f = [&] { if constexpr (coarse) return GridViewFunction<Range(X),GV>(CoarseFunctionOnFineGridView(raw,gv)); else return GridViewFunction<Range(X),GV>(FineFunctionOnCoarseGridView(raw,gv)); }();
  auto g=f; auto l=localFunction(g); auto rl=localFunction(raw);
  for (auto& pt : pts(gv)) { auto w=locate(raw.entitySet().gridView(),pt.e.geometry().global(pt.x)); if (!w) continue; rl.bind(w->first); l.bind(pt.e); auto c=l; check(close_(c(pt.x),rl(w->second)), key+":erased"); }
}
template<bool coarse, class RGV, class GV> void pairOf(const RGV& rgv, const GV& gv)
{
  constexpr int dim=GV::dimension; std::string k=coarse?"coarse":"fine";
  switch (rnd(S().thorough ? 6 : 6)) {
  case 0: { auto b=makeBasis(rgv,lagrangeDG<1>()); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(b,c); wrap<coarse,true>(k+"-dg1",f,gv); erased<coarse>(k+"-dg1",f,gv); break; }
  case 1: { auto b=makeBasis(rgv,lagrange<2>()); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(b,c); wrap<coarse,true>(k+"-p2",f,gv); erased<coarse>(k+"-p2",f,gv); break; }
  case 2: { auto b=makeBasis(rgv,power<2>(lagrangeDG<0>(),flatInterleaved())); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<Dune::FieldVector<double,2>>(b,c); wrap<coarse,true>(k+"-pdg0",f,gv); break; }
  case 3: { auto f=makeAnalyticGridViewFunction(Poly<dim>::random(3),rgv); wrap<coarse,true>(k+"-analytic",f,gv); break; }
  case 4: { auto f=makeAnalyticGridViewFunction([p=Poly<dim>::random(2)](const auto& x) { return p(x); },rgv); wrap<coarse,false>(k+"-lambda",f,gv); break; }
  default: { auto b=makeBasis(rgv,lagrangeDG<1>()); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(b,std::move(c)); auto p=makeAnalyticGridViewFunction(Poly<dim>::random(1),rgv); auto g=makeComposedGridFunction([](double a, double b) { return a*b+a; },f,p); wrap<coarse,false>(k+"-composed",g,gv); break; }
  }
}
template<class G> void geometries(const G& g)
{
  using E=typename G::template Codim<0>::Entity; using GA=GeometryInAncestor<E>;
  GA a; GA r; 
  for (int l=0;l<=g.maxLevel();++l) for (const auto& e : elements(g.levelGridView(l))) {
    int target=rnd(l+1); auto inc=[&](const E& x) { return x.level()>target; };
    E anc=e; while (anc.level()>target) anc=anc.father();
    E copy=e; const E& ca=a.bind(copy,inc); check(ca==anc && a.coarseElement()==anc && a.fineElement()==e, "ancestor:elements");
    const E& cr=r.bind(E(e),inc); check(cr==anc && r.coarseElement()==anc && r.fineElement()==e, "ancestor:rvalue");
    auto c1=std::make_unique<GA>(a); auto c2=std::make_unique<GA>(r); E other=e; GA c3(a,other);
    auto tmp=std::make_unique<GA>(); tmp->bind(E(e),inc); GA c4(*tmp); tmp.reset();
    for (int k=0;k<3;++k) {
      auto x=randomLocal<G::dimension>(e.type()); auto want=anc.geometry().local(e.geometry().global(x)); 
      for (const GA* q : {(const GA*)&a,(const GA*)&r,(const GA*)c1.get(),(const GA*)c2.get(),(const GA*)&c3,(const GA*)&c4}) {
        auto y=q->global(x); check(close_(flat(y),flat(want)), "ancestor:global", l, "->", target); check(close_(flat(q->local(y)),flat(x)), "ancestor:local", l, "->", target);
        check(q->coarseElement()==anc && q->fineElement()==e, "ancestor:copy-elements");
      }
      obs("ancestor-maps"); state(mix(hdbl(l*17+target,want[0]),g.maxLevel()));
    }
    // copy is unaffected by rebinding the original
    if (g.maxLevel()>0) { E o=*g.levelGridView(0).template begin<0>(); E oo=o; r.bind(E(oo),[](const E&) { return false; }); check(c2->coarseElement()==anc && c2->fineElement()==e, "ancestor:copy-after-rebind"); check(r.coarseElement()==oo, "ancestor:rebind"); }
  }
}
template<class Mk> void uniform(Mk mk, int maxRef, int iters)
{
  for (int it=0; it<iters; ++it) {
    auto g=mk(); g->globalRefine(1+rnd(maxRef)); geometries(*g); int L=g->maxLevel();
    auto l0=g->levelGridView(0); auto lm=g->levelGridView(rnd(L+1)); auto lt=g->levelGridView(L); auto leaf=g->leafGridView();
    auto la=g->levelGridView(rnd(lm.template begin<0>()->level()+1));
    pairOf<true>(la,lm); pairOf<true>(la,leaf); pairOf<true>(lm,leaf); pairOf<true>(l0,lt); pairOf<true>(leaf,leaf);
    pairOf<false>(lm,la); pairOf<false>(leaf,la); pairOf<false>(leaf,lm); pairOf<false>(lt,l0); pairOf<false>(leaf,leaf);
  }
}
#if PART==1
VF_CASE("yasp1") { uniform([] { return Spaces::makeYasp<1>(1,3); },4,scale(6,60)); }
VF_CASE("yasp2") { uniform([] { return Spaces::makeYasp<2>(1,2); },3,scale(4,30)); }
#elif PART==2
VF_CASE("yasp3") { uniform([] { return Spaces::makeYasp<3>(1,1); },2,scale(2,15)); }
#elif PART==4
VF_CASE("alberta3") {
  for (int it=0; it<scale(12,80); ++it) {
    auto g=Spaces::alberta3(1); g->globalRefine(rnd(2)); int base=g->maxLevel(); int n=1+rnd(2); for (int i=0;i<n;++i) Spaces::randomAdapt(*g,0.2);
    geometries(*g); auto leaf=g->leafGridView(); auto l=g->levelGridView(rnd(base+1)); auto l0=g->levelGridView(0);
    auto b=makeBasis(leaf,lagrangeDG<1>()); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(b,c);
    { FineFunctionOnCoarseGridView w(f,l0); verify<true>("dg1-leaf-0",w,f,l0); } { FineFunctionOnCoarseGridView w(f,l); verify<true>("dg1-leaf-l",w,f,l); }
    auto b0=makeBasis(l0,lagrange<2>()); std::vector<double> c0(b0.dimension()); for (auto& x : c0) x=urnd(); auto f0=makeDiscreteGlobalBasisFunction<double>(b0,c0); { CoarseFunctionOnFineGridView w(f0,leaf); verify<true>("p2-0-leaf",w,f0,leaf); }
    obs("adapted-levels", g->maxLevel());
  }
}
#else
VF_CASE("alberta2") {
  for (int it=0; it<scale(5,40); ++it) {
    auto g=Spaces::alberta(2); g->globalRefine(rnd(3)); int base=g->maxLevel(); int n=rnd(4); for (int i=0;i<n;++i) Spaces::randomAdapt(*g,0.3);
    geometries(*g); auto leaf=g->leafGridView(); auto l=g->levelGridView(rnd(base+1)); auto l0=g->levelGridView(0);
    for (int r=0;r<2;++r) { pairOf<true>(l,leaf); pairOf<true>(l0,leaf); pairOf<false>(leaf,l); pairOf<false>(leaf,l0); pairOf<false>(leaf,leaf); pairOf<true>(l0,l); pairOf<false>(l,l0); }
    obs("adapted-levels", g->maxLevel());
  }
}
// target view whose elements are partly in the fine entity set and partly refined: one local function has to switch between both
VF_CASE("alberta2-partial") {
  for (int it=0; it<scale(8,60); ++it) {
    auto g=Spaces::alberta(3); g->globalRefine(rnd(2)); int base=g->maxLevel(); int n=1+rnd(2); for (int i=0;i<n;++i) Spaces::randomAdapt(*g,0.15);
    auto leaf=g->leafGridView(); auto l=g->levelGridView(base); int in=0, out=0; for (const auto& e : elements(l)) (e.isLeaf() ? in : out)++; obs("kept-elements",in); obs("refined-elements",out);
    auto b=makeBasis(leaf,lagrangeDG<1>()); std::vector<double> c(b.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(b,c); FineFunctionOnCoarseGridView w(f,l);
    verify<true>("partial-dg1",w,f,l);
    // random order, several local functions, copies taken in either state
    std::vector<decltype(localFunction(w))> pool; for (int i=0;i<3;++i) pool.push_back(localFunction(w)); auto rl=localFunction(f); auto P=pts(l); std::shuffle(P.begin(),P.end(),rng());
    for (auto& p : P) { auto where=locate(leaf,p.e.geometry().global(p.x)); if (!where) continue; rl.bind(where->first); auto& q=pool[rnd(pool.size())]; q.bind(p.e); check(close_(q(p.x),rl(where->second)),"partial:switch"); auto k=q; check(close_(k(p.x),rl(where->second)),"partial:copy"); if (rnd(3)==0) q=k; auto d=derivative(q); auto dr=derivative(rl); check(close_(d(p.x),dr(where->second)),"partial:derivative"); obs("switches"); }
  }
}
VF_CASE("oned") { // adaptive refinement; leaf contains() of OneDGrid is not reliable, hence level views only as raw sets
  for (int it=0; it<scale(6,60); ++it) {
    auto g=Spaces::oned(); int n=1+rnd(3); for (int i=0;i<n;++i) Spaces::randomAdapt(*g,0.5); geometries(*g);
    auto l0=g->levelGridView(0); pairOf<true>(l0,g->leafGridView()); pairOf<true>(l0,g->levelGridView(rnd(g->maxLevel()+1)));
  }
}
#endif
