// P24: local finite elements are dual to their degrees of freedom, local keys are unique and consistent.
#include "spaces.hh"
#include "poly.hh"
using namespace VF;
using namespace Dune::Functions::BasisFactory;

// j-th shape function as a function of local coordinates with derivatives w.r.t. global coordinates
template<class FE, class Geo> struct ShapeFn {
  const FE* fe; const Geo* geo; std::size_t j;
  using LB=typename FE::Traits::LocalBasisType; using T=typename LB::Traits; using X=typename T::DomainType;
  static constexpr int dim=T::dimDomain;
  auto operator()(const X& x) const { std::vector<typename T::RangeType> v; fe->localBasis().evaluateFunction(x,v); return v[j]; }
  struct Hess { const FE* fe; const Geo* geo; std::size_t j;
    Dune::FieldMatrix<double,dim,dim> operator()(const X& x) const {
      Dune::FieldMatrix<double,dim,dim> h(0); auto Ji=geo->jacobianInverse(x);
      if constexpr (requires { typename T::HessianType; }) { std::vector<typename T::HessianType> v; fe->localBasis().evaluateHessian(x,v);
        for (int a=0;a<dim;++a) for (int b=0;b<dim;++b) for (int c=0;c<dim;++c) for (int d=0;d<dim;++d) h[a][b]+=Ji[c][a]*v[j][c][d]*Ji[d][b]; }
      return h; } };
  struct Grad { const FE* fe; const Geo* geo; std::size_t j;
    Dune::FieldMatrix<double,1,dim> operator()(const X& x) const {
      std::vector<typename T::JacobianType> v; fe->localBasis().evaluateJacobian(x,v); Dune::FieldMatrix<double,1,dim> g(0); auto Ji=geo->jacobianInverse(x);
      for (int a=0;a<dim;++a) for (int c=0;c<dim;++c) g[0][a]+=v[j][0][c]*Ji[c][a]; return g; }
    friend Hess derivative(const Grad& g) { return {g.fe,g.geo,g.j}; } };
  friend Grad derivative(const ShapeFn& f) { return {f.fe,f.geo,f.j}; }
};
// polynomial in global coordinates, seen locally
template<int dim, class Geo> struct LocalPoly {
  Poly<dim> p; const Geo* geo; using X=Dune::FieldVector<double,dim>;
  double operator()(const X& x) const { return p(geo->global(x)); }
  struct H { Poly<dim> p; const Geo* geo; auto operator()(const X& x) const { return derivative(derivative(p))(geo->global(x)); } };
  struct G { Poly<dim> p; const Geo* geo; Dune::FieldMatrix<double,1,dim> operator()(const X& x) const { Dune::FieldMatrix<double,1,dim> r; r[0]=derivative(p)(geo->global(x)); return r; } friend H derivative(const G& g) { return {g.p,g.geo}; } };
  friend G derivative(const LocalPoly& f) { return {f.p,f.geo}; }
};

inline std::size_t tid(Dune::GeometryType gt) { return 100*gt.dim()+(gt.id()>>1); }
template<class FE, class E> void checkFE(const FE& fe, const E& e)
{
  using LB=typename FE::Traits::LocalBasisType; using T=typename LB::Traits; constexpr int dim=T::dimDomain;
  auto geo=e.geometry(); using Geo=decltype(geo);
  check(fe.type()==e.type(), "type"); check(fe.localBasis().size()==fe.size(), "basis-size"); check(fe.localCoefficients().size()==fe.size(), "coefficients-size");
  auto re=Dune::referenceElement<double,dim>(e.type());
  std::set<std::array<std::size_t,3>> keys; std::map<std::array<std::size_t,2>,std::set<std::size_t>> per;
  for (std::size_t i=0;i<fe.size();++i) { auto k=fe.localCoefficients().localKey(i);
    check(k.codim()<=unsigned(dim) && int(k.subEntity())<re.size(k.codim()), "key-range", "codim ", k.codim(), " subentity ", k.subEntity());
    check(keys.insert({k.subEntity(),k.codim(),k.index()}).second, "key-unique", "key (", k.subEntity(), ",", k.codim(), ",", k.index(), ") twice");
    per[{k.subEntity(),k.codim()}].insert(k.index()); }
  for (auto& [s,ix] : per) check(*ix.rbegin()+1==ix.size(), "key-consecutive");
  // duality
  for (std::size_t j=0;j<fe.size();++j) {
    std::vector<double> out; fe.localInterpolation().interpolate(ShapeFn<FE,Geo>{&fe,&geo,j}, out);
    check(out.size()==fe.size(), "interpolation-size", out.size());
    double worst=0; std::size_t wi=0; for (std::size_t i=0;i<out.size();++i) { double d=std::abs(out[i]-(i==j)); if (!(d<=worst)) { worst=d; wi=i; } }
    check(worst<1e-7, "dual", "functional ", wi, " of shape function ", j, " deviates by ", worst);
    obs("functionals", out.size());
  }
  // functional descriptors
  if constexpr (requires { fe.localInterpolation().functionalDescriptor(0); }) {
    const auto& li=fe.localInterpolation();
    auto apply=[&](const Poly<dim>& p){ std::vector<double> out; li.interpolate(LocalPoly<dim,Geo>{p,&geo}, out); return out; };
    auto p=Poly<dim>::random(4), q=Poly<dim>::random(4); auto op=apply(p), oq=apply(q);
    for (std::size_t i=0;i<fe.size();++i) {
      auto d=li.functionalDescriptor(i); auto k=fe.localCoefficients().localKey(i); auto xr=re.position(k.subEntity(),k.codim()); auto X=geo.global(xr);
      if (d.isNormalDerivative()) {
        check(k.codim()==1 && d.normalDerivativeOrder()==1 && !d.isPartialDerivative(), "descriptor-normal-key");
        if constexpr (dim==1) { check(false, "descriptor-normal-1d", "functional ", i, " described as normal derivative"); } else {
        Dune::FieldVector<double,dim> t=geo.global(re.position(re.subEntity(k.subEntity(),1,1,dim),dim)); t-=geo.global(re.position(re.subEntity(k.subEntity(),1,0,dim),dim)); t/=t.two_norm();
        Dune::FieldVector<double,dim> n(0); if constexpr (dim==2) n={-t[1],t[0]};
        double a=derivative(p)(X)*n, b=derivative(q)(X)*n;
        check(near(std::abs(op[i]),std::abs(a),1e-9) && near(std::abs(oq[i]),std::abs(b),1e-9) && near(op[i]*b,oq[i]*a,1e-8), "descriptor-normal", op[i], " vs normal derivative ", a); }
      } else {
        std::array<int,dim> o{}; int tot=0; for (int r=0;r<dim;++r) { o[r]=d.partialDerivativeOrder()[r]; tot+=o[r]; }
        check(d.isPartialDerivative()==(tot>0), "descriptor-is-partial");
        double a=p.p->eval(X,o), b=q.p->eval(X,o); // functional = scale * D^o at the subentity's center
        check(near(op[i]*b,oq[i]*a,1e-8), "descriptor-proportional", "functional ", i, ": ", op[i], "/", a, " vs ", oq[i], "/", b);
        if (tot==0) check(near(op[i],a,1e-9), "descriptor-value"); else if (std::abs(a)>1e-3) check(op[i]/a>0, "descriptor-sign");
      }
      obs("descriptors");
    }
  }
}

template<class Mk, class Fac> void body(const char* name, Mk mk, Fac fac, Spaces::Opt)
{
  for (int it=0; it<scale(4,25); ++it) {
    auto grid=mk(); auto gv=grid->leafGridView(); constexpr int dim=decltype(gv)::dimension; const auto& is=gv.indexSet();
    auto basis=makeBasis(gv,fac); auto lv=basis.localView();
    using Ent=std::array<std::size_t,3>; // codim, type id, index
    std::map<std::pair<Idx,Ent>,std::size_t> counts; std::map<Idx,std::pair<Idx,Ent>> home;
    int n=0; std::size_t budget=0;
    for (const auto& e : elements(gv)) {
      lv.bind(e); auto re=Dune::referenceElement<double,dim>(e.type());
      std::map<std::pair<Idx,Ent>,std::size_t> here;
      forEachLeaf(lv.tree(), [&](const auto& node, const auto& tp) {
        if (!node.size()) return;
        const auto& fe=node.finiteElement(); budget+=fe.size()*fe.size()*fe.size(); if (n==0 || budget<scale(50000,1000000)) checkFE(fe,e);
        Idx path=[&]{ Idx r; Dune::Hybrid::forEach(tp,[&](auto d){ r.push_back(std::size_t(d)); }); return r; }();
        for (int c=0;c<=dim;++c) for (int s=0;s<re.size(c);++s) here[{path,Ent{std::size_t(c),std::size_t(tid(re.type(s,c))),std::size_t(is.subIndex(e,s,c))}}];
        for (std::size_t i=0;i<fe.size();++i) { auto k=fe.localCoefficients().localKey(i); Ent ent{k.codim(),tid(re.type(k.subEntity(),k.codim())),std::size_t(is.subIndex(e,k.subEntity(),k.codim()))};
          ++here[{path,ent}];
          auto mi=toIdx(lv.index(node.localIndex(i))); auto [hp,isNew]=home.emplace(mi,std::make_pair(path,ent)); if (!isNew) { check(hp->second.first==path && hp->second.second==ent, "shared-index-same-entity", "index ", str(mi), " attached to different entities or components"); obs("shared-indices"); } }
      });
      for (auto& [k,c] : here) { auto [p,isNew]=counts.emplace(k,c); if (!isNew) check(p->second==c, "count-on-shared-entity", "codim ", k.second[0], ": ", p->second, " vs ", c); }
      ++n;
    }
    std::uint64_t h=hstr(name); for (auto& [mi,pe] : home) { h=mix(h,hidx(mi)); h=mix(h,pe.second[0]*1000+pe.second[2]); } state(h);
    if (it==0) sample(cat(name,": ",gv.size(0)," elements, ",home.size()," dofs on entities"));
  }
}
SPACES_MAIN
