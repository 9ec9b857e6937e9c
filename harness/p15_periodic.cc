// P15: periodic and index-transformed bases
#include "interp.hh"
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
using namespace VF;
using namespace TreeModel;
using namespace Dune::Functions::BasisFactory;
namespace Ex = Dune::Functions::BasisFactory::Experimental;
using Pairs = std::vector<std::pair<std::size_t,std::size_t>>;

// classes of the equivalence relation by breadth first search
inline std::vector<int> classes(std::size_t n, const Pairs& p)
{
  std::vector<std::vector<std::size_t>> adj(n); for (auto [a,b] : p) { adj[a].push_back(b); adj[b].push_back(a); }
  std::vector<int> c(n,-1); int k=0;
  for (std::size_t i=0;i<n;++i) if (c[i]<0) { std::vector<std::size_t> q{i}; c[i]=k; while(!q.empty()) { auto x=q.back(); q.pop_back(); for (auto y : adj[x]) if (c[y]<0) { c[y]=k; q.push_back(y); } } ++k; }
  return c;
}
inline Pairs randomPairs(std::size_t n)
{
  Pairs p; int kind=rnd(6); std::size_t m=rnd(n+3);
  auto r=[&]{ return std::size_t(rnd(n)); };
  if (kind==0) return p;
  if (kind==1) for (std::size_t i=0;i<m;++i) p.push_back({r(),r()});
  if (kind==2) { std::size_t a=r(); for (std::size_t i=0;i<m;++i) p.push_back({a,r()}); }                       // star
  if (kind==3) { std::vector<std::size_t> v(n); for (std::size_t i=0;i<n;++i) v[i]=i; std::shuffle(v.begin(),v.end(),rng()); for (std::size_t i=0;i+1<std::min(m,n);++i) p.push_back({v[i],v[i+1]}); } // chain
  if (kind==4) for (std::size_t i=0;i<m;++i) { auto a=r(), b=r(); p.push_back({a,b}); p.push_back({b,a}); p.push_back({a,a}); }
  if (kind==5) { for (std::size_t i=0;i+1<n;++i) if (rnd(2)) p.push_back({n-1-i, n-2-i}); }                      // descending chains
  return p;
}

template<class PB, class Raw> void checkPeriodic(const PB& pb, const Raw& raw, const Pairs& pairs, const std::string& key)
{
  auto cls = classes(raw.size(), pairs);
  auto lp=pb.localView(); auto lr=raw.localView();
  std::map<int,std::size_t> toIdxOf; std::map<std::size_t,int> toClass; std::uint64_t h=hstr(key);
  for (const auto& e : elements(raw.gridView())) {
    lp.bind(e); lr.bind(e);
    check(lp.size()==lr.size() && lp.maxSize()==lr.maxSize(), key+":local-size");
    for (std::size_t i=0;i<std::min(lp.size(),lr.size());++i) {
      auto P=toIdx(lp.index(i)); auto R=toIdx(lr.index(i));
      check(P.size()==1, key+":digits");
      int c=cls[R[0]];
      auto it=toIdxOf.try_emplace(c,P[0]).first;
      check(it->second==P[0], key+":not-glued", "raw index ", R[0], " has index ", P[0], " but its class has ", it->second);
      auto jt=toClass.try_emplace(P[0],c).first;
      check(jt->second==c, key+":wrongly-glued", "raw index ", R[0], " shares index ", P[0], " with another class");
      h=mix(h,mix(R[0],P[0])); obs("indices");
    }
    check(signature(lp).size()>0, key+":sig");
  }
  std::size_t n=toClass.size();
  check(n==toIdxOf.size() && (n==0 || toClass.rbegin()->first+1==n), key+":not-consecutive", n);
  check(pb.size()==n && pb.dimension()==n && sizeAt(pb,{})==n, key+":size", pb.size(), " ", pb.dimension(), " expected ", n);
  if (n) check(sizeAt(pb,{rnd(n)})==0, key+":leaf-size");
  auto d=pb.containerDescriptor();
  check(d.size()==n, key+":descriptor", d.size());
  auto c=Dune::Functions::makeContainer<double>(d, 1.0); check(c.size()==n, key+":container");
  std::vector<double> v; Dune::Functions::istlVectorBackend(v).resize(pb); check(v.size()==n, key+":resize");
  state(h); obs("glued", raw.size()-n); sample(cat(key, ": ", raw.size(), " -> ", n));
}

template<class Mk, class Fac> void periodicCase(Mk mk, Fac fac)
{
  for (int rep=0; rep<scale(5,60); ++rep) {
    auto grid=mk(); auto gv=grid->leafGridView();
    auto raw=makeBasis(gv, fac);
    auto pairs=randomPairs(raw.size());
    Ex::PeriodicIndexSet pis; for (auto [a,b] : pairs) pis.unifyIndexPair(a,b);
    auto p1=makeBasis(gv, Ex::periodic(fac, pis)); checkPeriodic(p1, raw, pairs, "factory");
    auto p2=makeBasis(gv, Ex::periodic(raw, pis)); checkPeriodic(p2, raw, pairs, "basis");
    auto p3=makeBasis(gv, Ex::periodic(raw.preBasis(), pis)); checkPeriodic(p3, raw, pairs, "prebasis");
    // the factory owns copies of its arguments
    auto f4=[&]{ auto q=pis; auto r=makeBasis(gv, fac); return Ex::periodic(r, std::move(q)); }();
    auto p4=makeBasis(gv, f4); checkPeriodic(p4, raw, pairs, "owned");
    checkPeriodic(p1, raw, pairs, "again");
    auto p5=p1; p1=makeBasis(gv, Ex::periodic(fac, Ex::PeriodicIndexSet{})); checkPeriodic(p5, raw, pairs, "copy"); checkPeriodic(p1, raw, {}, "assigned");
    auto p6=makeBasis(gv, f4); checkPeriodic(p6, raw, pairs, "factory-reused");
    // periodic space as part of a product space
    auto cfac=composite(Ex::periodic(fac, pis), lagrange<1>(), blockedLexicographic());
    auto cb=makeBasis(gv, cfac); auto lc=cb.localView(); auto lp=p5.localView();
    check(sizeAt(cb,{0})==p5.size(), "product:size");
    for (const auto& e : elements(gv)) {
      lc.bind(e); lp.bind(e);
      std::size_t k=0;
      const auto& t=lc.tree().child(Dune::Indices::_0);
      for (std::size_t i=0;i<t.size();++i,++k) { auto I=toIdx(lc.index(i)); auto J=toIdx(lp.index(i)); check(I.size()==2 && I[0]==0 && I[1]==J[0], "product:index", str(I)); }
    }
    auto pw=makeBasis(gv, power<2>(Ex::periodic(fac, pis), blockedInterleaved())); auto lw=pw.localView();
    check(sizeAt(pw,{})==p5.size(), "power:size");
    for (const auto& e : elements(gv)) { lw.bind(e); lp.bind(e); for (std::size_t c=0;c<2;++c) for (std::size_t i=0;i<lp.size();++i) { auto I=toIdx(lw.index(c*lp.size()+i)); check(I.size()==2 && I[0]==toIdx(lp.index(i))[0] && I[1]==c, "power:index", str(I)); } }
  }
}
#define PC(nm, mk, ...) VF_CASE(nm) { periodicCase([]{ return Spaces::mk(); }, __VA_ARGS__); }
#if PART == 1
PC("lagrange2/mixed2", mixed2, lagrange<2>())
PC("dg1/mixed2", mixed2, lagrangeDG<1>())
PC("lagrangeRT2/prismhex", prismhex, lagrange(2))
PC("rt0/tris", tris, raviartThomas<0>())
PC("power-fl/mixed2", mixed2, power<2>(lagrange<1>(), flatLexicographic()))
PC("composite-fl/lines", lines, composite(lagrange<2>(), lagrange<0>(), flatLexicographic()))
#elif PART == 2
// functions of a basis with opposite sides identified are periodic
template<int dim, class Fac> void torus(Fac fac, std::bitset<dim> dirs)
{
  for (int rep=0; rep<scale(4,40); ++rep) {
    auto grid=Spaces::makeYasp<dim>(1,4); auto gv=grid->leafGridView();
    using X=Dune::FieldVector<double,dim>;
    X lo(1e9), up(-1e9); for (const auto& v : vertices(gv)) for (int i=0;i<dim;++i) { auto c=v.geometry().center(); lo[i]=std::min(lo[i],c[i]); up[i]=std::max(up[i],c[i]); }
    auto raw=makeBasis(gv, fac);
    // Lagrange points of all degrees of freedom
    std::array<std::vector<double>,dim> pos;
    for (int d=0;d<dim;++d) Dune::Functions::interpolate(raw, pos[d], [d](const X& x) { return x[d]; });
    auto on=[&](std::size_t i, std::size_t j, int d) { for (int k=0;k<dim;++k) { double a=pos[k][i], b=pos[k][j]; if (k==d ? !(std::abs(a-lo[k])<1e-9 && std::abs(b-up[k])<1e-9) : std::abs(a-b)>1e-9) return false; } return true; };
    Ex::PeriodicIndexSet pis; Pairs pairs;
    for (int d=0;d<dim;++d) if (dirs[d]) for (std::size_t i=0;i<raw.size();++i) for (std::size_t j=0;j<raw.size();++j) if (on(i,j,d)) { if (rnd(2)) pis.unifyIndexPair(i,j); else pis.unifyIndexPair(j,i); pairs.push_back({i,j}); }
    auto pb=makeBasis(gv, Ex::periodic(fac, pis));
    checkPeriodic(pb, raw, pairs, "torus");
    std::vector<double> v(pb.size()); for (auto& x : v) x=urnd();
    auto f=Dune::Functions::makeDiscreteGlobalBasisFunction<double>(pb, v);
    // evaluate on opposite sides
    for (int k=0;k<scale(20,60);++k) {
      X x; for (int i=0;i<dim;++i) x[i]=lo[i]+(up[i]-lo[i])*urnd(0.001,0.999);
      double ref=0; bool first=true;
      X base=x; for (int d=0;d<dim;++d) if (dirs[d]) base[d]=lo[d];
      for (int m=0;m<(1<<dim);++m) {
        X y=base; bool ok=true; for (int d=0;d<dim;++d) if (m>>d&1) { if (!dirs[d]) ok=false; y[d]=up[d]; }
        if (!ok) continue;
        double val=0; bool found=false; auto lf=localFunction(f);
        for (const auto& e : elements(gv)) { auto l=e.geometry().local(y); bool in=true; for (int i=0;i<dim;++i) in = in && l[i]>-1e-9 && l[i]<1+1e-9; if (in) { lf.bind(e); val=lf(l); found=true; break; } }
        check(found, "torus:outside");
        if (first) { ref=val; first=false; } else check(near(val,ref,1e-8), "torus:not-periodic", "value ", val, " vs ", ref);
        obs("evaluations");
      }
    }
  }
}
VF_CASE("torus1/lag3") { torus<1>(lagrange<3>(), 1); }
VF_CASE("torus2x/lag2") { torus<2>(lagrange<2>(), 1); }
VF_CASE("torus2xy/lag1") { torus<2>(lagrange<1>(), 3); }
VF_CASE("torus2xy/lag3") { torus<2>(lagrange<3>(), 3); }
VF_CASE("torus3xyz/lag2") { torus<3>(lagrange<2>(), 7); }

// user supplied transformations
template<class Basis, class Raw, class T> void checkTransformed(const Basis& b, const Raw& raw, T trafo, const std::map<Idx,std::size_t>& sz, const std::string& key)
{
  auto lb=b.localView(); auto lr=raw.localView(); std::uint64_t h=hstr(key);
  for (const auto& e : elements(raw.gridView())) {
    lb.bind(e); lr.bind(e);
    check(lb.size()==lr.size(), key+":local-size");
    for (std::size_t i=0;i<lb.size();++i) { auto I=toIdx(lb.index(i)); auto J=trafo(toIdx(lr.index(i))); check(I==J, key+":index", str(I), " expected ", str(J)); h=mix(h,hidx(I)); }
  }
  for (auto& [p,n] : sz) check(sizeAt(b,p)==n, key+":size", str(p));
  check(b.size()==sz.at({}), key+":top-size"); check(b.dimension()==raw.dimension(), key+":dimension");
  state(h);
}
VF_CASE("transform/permute") {
  for (int rep=0;rep<scale(6,60);++rep) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); auto raw=makeBasis(gv, lagrange<2>());
    std::vector<std::size_t> perm(raw.size()); for (std::size_t i=0;i<perm.size();++i) perm[i]=i; std::shuffle(perm.begin(),perm.end(),rng());
    auto tr=Ex::indexTransformation([perm](auto& mi, const auto&) { mi[0]=perm[mi[0]]; }, [](const auto& p, const auto& pb) { return p.size()==0 ? pb.size() : 0; }, [](const auto& pb) { return pb.containerDescriptor(); }, Dune::index_constant<1>{}, Dune::index_constant<1>{});
    auto fac=Ex::transformIndices(lagrange<2>(), tr);
    auto b=makeBasis(gv, fac);
    auto model=[&](Idx i) { i[0]=perm[i[0]]; return i; };
    checkTransformed(b, raw, model, {{{},raw.size()},{{0},0}}, "perm");
    auto b2=makeBasis(gv, fac); checkTransformed(b2, raw, model, {{{},raw.size()}}, "perm-again");
    check(b.containerDescriptor().size()==raw.size(), "perm:descriptor");
    auto cb=makeBasis(gv, composite(lagrange<0>(), fac, flatLexicographic())); auto lc=cb.localView(); auto lr=raw.localView();
    for (const auto& e : elements(gv)) { lc.bind(e); lr.bind(e); for (std::size_t i=0;i<lr.size();++i) check(toIdx(lc.index(1+i))[0]==gv.size(0)+perm[toIdx(lr.index(i))[0]], "perm:composite"); }
  }
}
VF_CASE("transform/split-and-join") {
  for (int rep=0;rep<scale(6,60);++rep) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    {
      // flat power indices i -> (i%3, i/3)
      auto raw=makeBasis(gv, power<3>(lagrange<1>(), flatInterleaved()));
      auto fac=Ex::transformIndices(power<3>(lagrange<1>(), flatInterleaved()), Ex::indexTransformation(
        [](auto& mi, const auto&) { auto i=mi[0]; mi.resize(2); mi[0]=i%3; mi[1]=i/3; },
        [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0 ? 3 : p.size()==1 ? pb.size()/3 : 0; }, Dune::index_constant<2>{}, Dune::index_constant<2>{}));
      auto b=makeBasis(gv, fac);
      checkTransformed(b, raw, [](Idx i) { return Idx{i[0]%3, i[0]/3}; }, {{{},3},{{0},raw.size()/3},{{2},raw.size()/3},{{1,0},0}}, "split");
      checkIndexTree(b, "split-tree");
    }
    {
      // (component, i) -> i*2+component
      auto raw=makeBasis(gv, power<2>(lagrange<2>(), blockedLexicographic()));
      auto fac=Ex::transformIndices(power<2>(lagrange<2>(), blockedLexicographic()), Ex::indexTransformation(
        [](auto& mi, const auto&) { auto j=mi[1]*2+mi[0]; mi.resize(1); mi[0]=j; },
        [](const auto& p, const auto& pb) -> std::size_t { return p.size()==0 ? pb.dimension() : 0; }, Dune::index_constant<1>{}, Dune::index_constant<2>{}));
      auto b=makeBasis(gv, fac);
      checkTransformed(b, raw, [](Idx i) { return Idx{i[1]*2+i[0]}; }, {{{},raw.dimension()},{{0},0}}, "join");
      checkIndexTree(b, "join-tree");
    }
  }
}
#endif
