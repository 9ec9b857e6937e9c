// P19: analytic, composed and facet normal grid functions evaluate what they are built from
#include "poly.hh"
#include "grids.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
template<class V, class W> bool same(const V& a, const W& b, double tol=1e-9) { auto x=flat(a), y=flat(b); if (x.size()!=y.size()) return false; for (std::size_t i=0;i<x.size();++i) if (!near(x[i],y[i],tol)) return false; return true; }
template<class GV, class F> void forPoints(const GV& gv, F f) { for (const auto& e : elements(gv)) for (int k=0;k<2;++k) f(e, randomLocal<GV::dimension>(e.type())); }
template<class GV, class ES> void entitySet(const std::string& key, const GV& gv, const ES& es)
{
  check(es.size()==std::size_t(gv.size(0)), key+":es-size"); check(&es.gridView().indexSet()==&gv.indexSet(), key+":es-gridview");
  std::size_t n=0; auto it=gv.template begin<0>(); for (const auto& e : es) { check(it!=gv.template end<0>() && *it==e, key+":es-order"); check(es.contains(e), key+":es-contains"); ++n; ++it; }
  check(n==std::size_t(gv.size(0)), key+":es-complete");
}
//------------------------------------------------------------------ analytic
struct Stateful { int id; double scale; mutable int calls=0; template<class X> double operator()(const X& x) const { ++calls; return scale*x[0]+id; } };
template<class GV, class F, class O> void analytic(const std::string& key, const GV& gv, const F& f, O oracle, int order=0)
{
  auto g=makeAnalyticGridViewFunction(f,gv); AnalyticGridViewFunction g2(f,gv); auto g3=g; auto g4=makeGridViewFunction(f,gv); g3=g;
  entitySet(key,gv,g.entitySet());
  auto l=localFunction(g); auto l2=localFunction(g2); auto l3=localFunction(g3); auto l4=localFunction(g4); auto lt=localFunction(makeAnalyticGridViewFunction(F(f),gv)); std::uint64_t h=hstr(key);
  check(!l.bound(), key+":unbound");
  forPoints(gv,[&](const auto& e, const auto& x) {
    auto X=e.geometry().global(x); auto want=oracle(X);
    check(same(g(X),want)&&same(g2(X),want)&&same(g3(X),want)&&same(g4(X),want), key+":global");
    l.bind(e); l2.bind(e); l3.bind(e); l4.bind(e); lt.bind(e);
    check(same(l(x),want), key+":local", X); check(same(l2(x),want)&&same(l3(x),want)&&same(l4(x),want), key+":local-copies"); check(same(lt(x),want), key+":local-of-temporary");
    auto c=l; check(c.bound() && c.localContext()==e && same(c(x),want), key+":copy"); c=lt; check(same(c(x),want), key+":assigned");
    obs("analytic-evaluations"); for (double d : flat(want)) h=hdbl(h,d);
  });
  state(h);
}
template<class GV, class F> void analyticD(const std::string& key, const GV& gv, const F& f)
{
  auto g=makeAnalyticGridViewFunction(f,gv); auto df=derivative(f); auto dg=derivative(g); auto ddf=derivative(df); auto ddg=derivative(dg); auto l=localFunction(g); auto ldg=localFunction(dg); auto ldt=localFunction(derivative(g)); auto lddg=localFunction(ddg);
  entitySet(key,gv,dg.entitySet());
  using X=typename GV::template Codim<0>::Geometry::GlobalCoordinate; using R=std::decay_t<decltype(f(X{}))>;
    forPoints(gv,[&](const auto& e, const auto& x) {
    auto Y=e.geometry().global(x); auto want=df(Y); auto want2=ddf(Y);
    check(same(dg(Y),want), key+":d-global"); check(same(ddg(Y),want2), key+":dd-global");
    l.bind(e); auto dl=derivative(l); check(dl.bound() && dl.localContext()==e, key+":d-bound"); check(same(dl(x),want), key+":d-local"); auto ddl=derivative(dl); check(ddl.bound() && same(ddl(x),want2), key+":dd-local");
    ldg.bind(e); check(same(ldg(x),want), key+":local-of-d"); ldt.bind(e); check(same(ldt(x),want), key+":local-of-temp-d"); lddg.bind(e); check(same(lddg(x),want2), key+":local-of-dd");
    auto du=derivative(localFunction(g)); check(!du.bound(), key+":d-of-unbound"); du.bind(e); check(same(du(x),want), key+":d-of-unbound-value");
    obs("analytic-derivatives");
  });
  // on surfaces analytic functions cannot be erased (does not compile)
  if constexpr (GV::dimension==GV::dimensionworld) { GridViewFunction<R(X),GV> er=makeAnalyticGridViewFunction(f,gv); auto der=derivative(er); auto lder=localFunction(der); auto ler=localFunction(er);
  forPoints(gv,[&](const auto& e, const auto& x) {
    auto Y=e.geometry().global(x); auto want=df(Y);
    check(same(der(Y),want), key+":erased-d"); lder.bind(e); check(same(lder(x),want), key+":erased-local-of-d"); ler.bind(e); auto dler=derivative(ler); check(same(dler(x),want), key+":erased-d-of-local");
    obs("analytic-derivatives");
  }); }
}
template<class GV> void allAnalytic(const GV& gv)
{
  constexpr int dim=GV::dimensionworld; using X=Dune::FieldVector<double,dim>;
  auto p=Poly<dim>::random(3); auto v=VPoly<dim,3>::random(2);
  analytic("poly",gv,p,[&](auto X) { return p(X); }); analytic("vpoly",gv,v,[&](auto X) { return v(X); });
  analytic("lambda",gv,[p,c=std::string("a long captured string so that copies own memory"),q=std::vector<double>{1,2,3}](const X& x) { return p(x)*q.at(1)+c.size(); },[&](auto X) { return 2*p(X)+double(std::string("a long captured string so that copies own memory").size()); });
  analytic("generic-lambda",gv,[p](auto&& x) { return std::array<double,2>{p(x),x[0]}; },[&](auto X) { return std::vector<double>{p(X),X[0]}; });
  analytic("bool",gv,[](const X& x) { return x[0]>0; },[&](auto X) { return X[0]>0; });
  analytic("matrix",gv,[p](const X& x) { Dune::FieldMatrix<double,2,2> m; m[0][0]=p(x); m[0][1]=1; m[1][0]=x[0]; m[1][1]=-p(x); return m; },[&](auto X) { return std::vector<double>{p(X),1,X[0],-p(X)}; });
  std::function<double(X)> sf=[p](X x) { x[0]*=2; return p(x); };
  analytic("std-function",gv,sf,[&](auto X) { X[0]*=2; return p(X); });
  analytic("stateful",gv,Stateful{7,0.5},[&](auto X) { return 0.5*X[0]+7; });
  { Stateful s{1,2}; auto g=makeAnalyticGridViewFunction(std::ref(s),gv); auto l=localFunction(g); s.id=5; forPoints(gv,[&](const auto& e, const auto& x) { l.bind(e); check(same(l(x),2*e.geometry().global(x)[0]+5), "ref:sees-change"); }); 
    auto g2=makeAnalyticGridViewFunction(s,gv); auto l2=localFunction(g2); s.id=9; forPoints(gv,[&](const auto& e, const auto& x) { l2.bind(e); check(same(l2(x),2*e.geometry().global(x)[0]+5), "value:independent"); }); }
  analyticD("d-poly",gv,p);
  { auto f=makeDifferentiableFunctionFromCallables(SignatureTag<double(X)>(), [p](const X& x) { return p(x); }, [d=derivative(p)](const X& x) { return d(x); }, [d=derivative(derivative(p))](const X& x) { return d(x); });
    analytic("callables",gv,f,[&](auto X) { return p(X); }); analyticD("d-callables",gv,f);
    bool t=false; try { derivative(derivative(derivative(f))); } catch (const Dune::NotImplemented&) { t=true; } check(t,"callables:too-many-derivatives");
    auto f1=makeDifferentiableFunctionFromCallables(SignatureTag<double(X)>(), [p](const X& x) { return p(x); }); t=false; try { derivative(f1); } catch (const Dune::NotImplemented&) { t=true; } check(t,"callables:no-derivative");
    DifferentiableFunction<double(X)> er=f; auto d1=derivative(er); auto d2=derivative(d1); X x; for (int i=0;i<dim;++i) x[i]=urnd(); check(same(er(x),p(x)) && same(d1(x),derivative(p)(x)) && same(d2(x),derivative(derivative(p))(x)), "callables:erased"); }
}
//------------------------------------------------------------------ composed
struct Event { int who; char what; std::size_t idx; std::vector<double> x; };
inline std::vector<Event> LOG; inline std::map<int,int> BOUND;
// grid function of known values that records every access
template<class GV> struct Spy {
  using EntitySet=GridViewEntitySet<GV,0>; using Domain=typename EntitySet::GlobalCoordinate; using LocalDomain=typename EntitySet::LocalCoordinate; using Element=typename EntitySet::Element; using Range=double;
  int who; GV gv; EntitySet es;
  Spy(int w, GV g) : who(w), gv(g), es(g) {}
  double operator()(const Domain& x) const { LOG.push_back({who,'g',0,flat(x)}); return who+x[0]; }
  const EntitySet& entitySet() const { return es; }
  struct LF { int who; const typename GV::IndexSet* is; std::optional<Element> e;
    void bind(const Element& x) { e=x; LOG.push_back({who,'b',std::size_t(is->index(x)),{}}); } void unbind() { e.reset(); LOG.push_back({who,'u',0,{}}); } bool bound() const { return bool(e); }
    const Element& localContext() const { return *e; }
    double operator()(const LocalDomain& x) const { LOG.push_back({who,'e',std::size_t(is->index(*e)),flat(x)}); double s=who*100+is->index(*e); for (auto d : flat(x)) s=s*1.7+d; return s; } 
    friend DifferentiableFunction<double(double)> derivative(const LF&) { DUNE_THROW(Dune::NotImplemented,""); } };
  friend LF localFunction(const Spy& s) { return {s.who,&s.gv.indexSet(),{}}; }
  friend DifferentiableFunction<double(double)> derivative(const Spy&) { DUNE_THROW(Dune::NotImplemented,""); }
};
template<class GV, class C> void spyRun(const std::string& key, const GV& gv, const C& c, int n)
{
  LOG.clear(); auto l=localFunction(c); check(!l.bound(), key+":unbound");
  auto val=[&](int who, std::size_t idx, const auto& x) { double s=who*100+idx; for (auto d : flat(x)) s=s*1.7+d; return s; };
  forPoints(gv,[&](const auto& e, const auto& x) {
    auto idx=std::size_t(gv.indexSet().index(e));
    LOG.clear(); l.bind(e); std::set<int> who; for (auto& ev : LOG) { check(ev.what=='b' && ev.idx==idx, key+":bind-event"); who.insert(ev.who); } check(int(who.size())==n, key+":bind-all", who.size(), " of ", n);
    check(l.bound() && l.localContext()==e, key+":bound");
    LOG.clear(); auto y=flat(l(x)); std::multiset<int> ev; for (auto& q : LOG) { check(q.what=='e' && q.idx==idx && q.x==flat(x), key+":eval-event"); ev.insert(q.who); }
    for (int i=0;i<n;++i) { check(ev.count(i)>=1, key+":eval-all"); check(near(y.at(i),val(i,idx,x)), key+":value"); }
    check(int(y.size())==n, key+":arity");
    LOG.clear(); auto X=e.geometry().global(x); auto yg=flat(c(X)); for (int i=0;i<n;++i) check(near(yg.at(i),i+X[0]), key+":global");
    if (rnd(2)) { auto cp=l; LOG.clear(); l.unbind(); who.clear(); for (auto& q : LOG) { check(q.what=='u', key+":unbind-event"); who.insert(q.who); } check(int(who.size())==n, key+":unbind-all"); check(!l.bound(), key+":unbound2"); check(cp.bound() && flat(cp(x))==y, key+":copy-alive"); }
    obs("composed-evaluations"); state(mix(hdbl(hstr(key),y[0]),idx));
  });
}
auto outer=[](auto... a) { return std::vector<double>{double(a)...}; };
template<class GV> void allComposed(const GV& gv)
{
  constexpr int dim=GV::dimensionworld; using S=Spy<GV>; S s0(0,gv), s1(1,gv), s2(2,gv), s3(3,gv);
  { auto c=makeComposedGridFunction(outer,s0); entitySet("composed",gv,c.entitySet()); spyRun("composed1",gv,c,1); }
  spyRun("composed2",gv,makeComposedGridFunction(outer,s0,s1),2); spyRun("composed3",gv,makeComposedGridFunction(outer,s0,std::cref(s1),s2),3);
  spyRun("composed4",gv,makeComposedGridFunction(outer,s0,s1,s2,s3),4); { ComposedGridFunction c(outer,s0,s1); spyRun("composed-ctad",gv,c,2); auto d=c; spyRun("composed-copy",gv,d,2); auto p=std::make_unique<decltype(c)>(c); auto q=std::move(*p); p.reset(); spyRun("composed-moved",gv,q,2); }
  { auto in=makeComposedGridFunction([](double a, double b) { return a+1000*b; },s0,s1); auto p=Poly<dim>::random(2); auto an=makeAnalyticGridViewFunction(p,gv);
    auto b=makeBasis(gv,lagrangeDG<1>()); std::vector<double> cf(b.dimension()); for (auto& x : cf) x=urnd(); auto dg=makeDiscreteGlobalBasisFunction<double>(b,cf);
    double st=1; auto c=makeComposedGridFunction([&st](double a, double q, double r) { return Dune::FieldVector<double,2>{st*a-q,q*r}; },in,an,dg);
    auto l=localFunction(c); auto ld=localFunction(dg); auto li=localFunction(in);
    using X=Dune::FieldVector<double,dim>; GridViewFunction<Dune::FieldVector<double,2>(X),GV> er=c; auto le=localFunction(er);
    forPoints(gv,[&](const auto& e, const auto& x) { st=urnd(); l.bind(e); ld.bind(e); li.bind(e); le.bind(e); double a=li(x), q=p(e.geometry().global(x)), r=ld(x); auto y=l(x);
      check(near(y[0],st*a-q) && near(y[1],q*r), "composed-nested:value"); check(same(le(x),y), "composed-nested:erased"); });
    bool t=false; try { derivative(c); } catch (const Dune::NotImplemented&) { t=true; } check(t,"composed:derivative-throws"); }
}
//------------------------------------------------------------------ normals
template<class GV> void normals(const GV& gv)
{
  constexpr int dim=GV::dimension; FaceNormalGridFunction<GV> n(gv); FaceNormalGridFunction n2(gv); entitySet("normal",gv,n.entitySet()); auto l=localFunction(n); check(!l.bound(),"normal:unbound");
  using W=Dune::FieldVector<double,GV::dimensionworld>; GridViewFunction<W(W),GV> er=n2; auto le=localFunction(er);
  for (const auto& e : elements(gv)) {
    l.bind(e); le.bind(e); auto c=l; check(c.bound() && c.localContext()==e, "normal:bound"); auto re=Dune::referenceElement<double,dim>(e.type()); auto geo=e.geometry();
    for (const auto& is : intersections(gv,e)) for (int k=0;k<3;++k) {
      Dune::FieldVector<double,dim-1> s; if constexpr (dim>1) { s=randomLocal<dim-1>(is.type()); auto ctr=Dune::referenceElement<double,dim-1>(is.type()).position(0,0); for (int i=0;i<dim-1;++i) s[i]=0.9*s[i]+0.1*ctr[i]; }
      auto x=is.geometryInInside().global(s); auto want=is.unitOuterNormal(s); auto got=l(x);
      check(same(got,want,1e-7), "normal:facet", "facet ", is.indexInInside(), " type ", e.type(), " got ", got, " want ", want); check(same(le(x),want,1e-7)&&same(c(x),want,1e-7), "normal:copies");
      obs("normals-on-facets"); state(hdbl(hdbl(is.indexInInside(),want[0]),x[0]));
      // slightly inside of the element on affine elements
      auto ctr=re.position(0,0); auto y=x; y*=0.98; y.axpy(0.02,ctr); double best=1e9,second=1e9; int bi=-1;
      for (int f=0;f<re.size(1);++f) { auto nn=re.integrationOuterNormal(f); auto d=re.position(f,1); d-=y; double dist=(d*nn)/nn.two_norm(); if (dist<best) { second=best; best=dist; bi=f; } else second=std::min(second,dist); }
      if (geo.affine() && bi==is.indexInInside() && second-best>1e-6) { check(same(l(y),want,1e-7), "normal:inside"); obs("normals-inside"); }
    }
    for (int k=0;k<4 && geo.affine();++k) { auto y=randomLocal<dim>(e.type()); double best=1e9,second=1e9; int bi=-1; for (int f=0;f<re.size(1);++f) { auto nn=re.integrationOuterNormal(f); auto d=re.position(f,1); d-=y; double dist=(d*nn)/nn.two_norm(); if (dist<best) { second=best; best=dist; bi=f; } else second=std::min(second,dist); }
      if (second-best<1e-6) continue; for (const auto& is : intersections(gv,e)) if (is.indexInInside()==bi) check(same(l(y),is.centerUnitOuterNormal(),1e-7), "normal:interior"); }
    l.unbind(); check(!l.bound() && c.bound(), "normal:unbind");
  }
}
template<class Mk> void run(Mk mk) { for (int it=0; it<scale(4,40); ++it) { auto g=mk(); auto gv=g->leafGridView();
#if PART==1
  allAnalytic(gv);
#elif PART==2
  allComposed(gv);
#else
  normals(gv);
#endif
} }
#if PART<=2
VF_CASE("mixed2") { run(Spaces::mixed2x); }
VF_CASE("prismhex") { run(Spaces::prismhexx); }
VF_CASE("lines") { run(Spaces::lines); }
VF_CASE("yasp3") { run(Spaces::yasp3); }
#else
VF_CASE("mixed2") { run(Spaces::mixed2x); }
VF_CASE("tris") { run(Spaces::tris); }
VF_CASE("quads") { run(Spaces::quadsx); }
VF_CASE("tets") { run(Spaces::tets); }
VF_CASE("hexes") { run(Spaces::hexesx); }
VF_CASE("prismhex") { run(Spaces::prismhexx); }
VF_CASE("pyrhex") { run(Spaces::pyrhexa); }
VF_CASE("lines") { run(Spaces::lines); }
VF_CASE("yasp2") { run(Spaces::yasp2); }
VF_CASE("yasp3") { run(Spaces::yasp3); }
VF_CASE("entityset-codims") { for (int it=0; it<scale(4,20); ++it) { auto g=Spaces::yasp3(); auto gv=g->leafGridView(); using GV=decltype(gv);
  Dune::Hybrid::forEach(std::make_index_sequence<4>{}, [&](auto cd) { GridViewEntitySet<GV,cd> es(gv); std::size_t n=0; std::set<std::size_t> seen; for (const auto& e : es) { ++n; check(es.contains(e),"contains"); check(seen.insert(gv.indexSet().index(e)).second,"once"); } check(n==es.size() && n==std::size_t(gv.size(cd)),"size"); state(n*10+cd); }); } }
#endif
