// P20: B-spline bases against an independent Cox-de Boor recursion
#include "util.hh"
#include <dune/grid/yaspgrid.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <numeric>
using namespace VF; using namespace Dune::Functions; using namespace Dune::Functions::BasisFactory;
using LD=long double;
// reference: k-th derivative of the i-th B-spline of degree p with knots t, x in the interior of knot span `span`
LD N(const std::vector<double>& t, int i, int p, int k, LD x, int span)
{
  if (p==0) return (k==0 && i==span) ? 1 : 0;
  LD a=LD(t[i+p])-t[i], b=LD(t[i+p+1])-t[i+1];
  if (k==0) { LD r=0; if (a>1e-12) r+=(x-t[i])/a*N(t,i,p-1,0,x,span); if (b>1e-12) r+=(t[i+p+1]-x)/b*N(t,i+1,p-1,0,x,span); return r; }
  LD r=0; if (a>1e-12) r+=p/a*N(t,i,p-1,k-1,x,span); if (b>1e-12) r-=p/b*N(t,i+1,p-1,k-1,x,span); return r;
}
template<class Basis, std::size_t dim> void verify(const std::string& key, const Basis& basis, const std::array<std::vector<double>,dim>& knots, const std::array<unsigned,dim>& elems, unsigned p, bool open)
{
  std::array<int,dim> n; std::size_t dimension=1; for (std::size_t d=0;d<dim;++d) { n[d]=int(knots[d].size())-int(p)-1; dimension*=n[d]; }
  check(basis.dimension()==dimension && basis.size()==dimension, key+":dimension", basis.dimension(), " ", dimension); std::size_t mx=1; for (std::size_t d=0;d<dim;++d) mx*=p+1;
  auto lv=basis.localView(); std::set<std::size_t> reached; std::uint64_t h=p;
  check(lv.maxSize()>=1 && lv.maxSize()<=mx, key+":maxSize");
  std::vector<typename Basis::GridView::template Codim<0>::Entity> es; for (const auto& e : elements(basis.gridView())) es.push_back(e);
  std::shuffle(es.begin(),es.end(),rng());
  for (const auto& e : es) {
    lv.bind(e); auto geo=e.geometry(); auto ctr=geo.center(); std::array<int,dim> span;
    // knot span from geometry
    for (std::size_t d=0;d<dim;++d) { span[d]=-1; for (std::size_t j=0;j+1<knots[d].size();++j) if (knots[d][j]<ctr[d] && ctr[d]<knots[d][j+1]) span[d]=j; check(span[d]>=0, key+":span"); }
    const auto& fe=lv.tree().finiteElement(); const auto& lb=fe.localBasis(); check(fe.size()==lv.size() && lb.size()==lv.size(), key+":fe-size"); check(lb.order()==p, key+":order"); check(lv.size()<=lv.maxSize(), key+":size-bound");
    // the set of functions on this element
    std::map<std::array<int,dim>,int> local; 
    for (std::size_t i=0;i<lv.size();++i) { auto idx=lv.index(i)[0]; check(idx<dimension, key+":index-range"); reached.insert(idx); std::array<int,dim> a; for (std::size_t d=0;d<dim;++d) { a[d]=idx%n[d]; idx/=n[d]; } check(local.emplace(a,i).second, key+":index-unique"); }
    std::size_t expected=1; for (std::size_t d=0;d<dim;++d) { int c=0; for (int i=0;i<n[d];++i) if (i<=span[d] && span[d]<=i+int(p)) ++c; expected*=c; } check(expected==lv.size(), key+":local-size", lv.size(), " ", expected);
    for (int k=0;k<2;++k) {
      auto x=randomLocal<dim>(e.type()); for (auto& v : x) v=0.01+0.98*v; auto X=geo.global(x); Dune::FieldVector<LD,dim> hh; for (std::size_t d=0;d<dim;++d) hh[d]=LD(knots[d][span[d]+1])-knots[d][span[d]];
      std::vector<Dune::FieldVector<double,1>> val, der, tmp; std::vector<Dune::FieldMatrix<double,1,dim>> jac; lb.evaluateFunction(x,val); lb.evaluateJacobian(x,jac); lb.evaluate(std::array<int,0>{},x,tmp);
      check(val.size()==lv.size() && jac.size()==lv.size() && tmp.size()==lv.size(), key+":eval-size"); if (val.size()!=lv.size() || jac.size()!=lv.size()) continue;
      LD sum=0; 
      // 1d tables
      std::array<std::vector<std::array<LD,3>>,dim> T; for (std::size_t d=0;d<dim;++d) { T[d].resize(n[d]); for (int i=0;i<n[d];++i) for (int q=0;q<3;++q) T[d][i][q]=N(knots[d],i,p,q,X[d],span[d])*std::pow(hh[d],LD(q)); }
      auto ref=[&](const std::array<int,dim>& a, std::array<int,dim> q) { LD r=1; for (std::size_t d=0;d<dim;++d) r*=T[d][a[d]][q[d]]; return r; };
      auto ok=[&](double g, LD w) { return std::abs(g-w)<=1e-9L*(1+std::abs(w)); };
      for (auto& [a,i] : local) {
        std::array<int,dim> z{}; check(ok(val[i],ref(a,z)), key+":value", "order ", p, " i=", i, " got ", val[i][0], " want ", double(ref(a,z))); check(tmp[i]==val[i], key+":evaluate0"); sum+=val[i];
        for (std::size_t d=0;d<dim;++d) { auto q=z; q[d]++; check(ok(jac[i][0][d],ref(a,q)), key+":jacobian", "order ", p, " d=", d, " got ", jac[i][0][d], " want ", double(ref(a,q))); }
        h=hdbl(h,val[i][0]);
      }
      for (std::size_t d=0;d<dim;++d) { lb.evaluate(std::array<int,1>{int(d)},x,der); check(der.size()==lv.size(), key+":partial-size"); for (auto& [a,i] : local) { std::array<int,dim> q{}; q[d]++; check(ok(der.at(i),ref(a,q)), key+":partial1", "order ", p, " d=", d); }
        for (std::size_t f=0;f<dim;++f) { lb.evaluate(std::array<int,2>{int(d),int(f)},x,der); for (auto& [a,i] : local) { std::array<int,dim> q{}; q[d]++; q[f]++; check(ok(der.at(i),ref(a,q)), key+":partial2", "order ", p, " d=", d, f, " got ", der[i][0], " want ", double(ref(a,q))); } } }
      if (open) check(std::abs(sum-1)<1e-10, key+":partition-of-unity", double(sum));
      // functions that are not local vanish here
      if (k==0) for (std::size_t d=0;d<dim;++d) for (int i=0;i<n[d];++i) if (!(i<=span[d] && span[d]<=i+int(p))) check(T[d][i][0]==0, key+":reference-support");
      obs("evaluation-points");
    }
  }
  check(reached.size()==dimension, key+":all-functions-reached", reached.size(), " of ", dimension); state(h); obs(VF::cat("order-",p));
}
template<class P> void copies(const std::string& key, const P& b, auto... args) { verify(key,b,args...); auto c=b; verify(key+"-copy",c,args...); auto m=std::make_unique<P>(std::move(c)); verify(key+"-moved",*m,args...); }
// discrete function = sum of coefficients times splines, global derivative included
template<class Basis, std::size_t dim> void function(const std::string& key, const Basis& basis, const std::array<std::vector<double>,dim>& knots, unsigned p)
{
  std::vector<double> c(basis.dimension()); for (auto& x : c) x=urnd(); auto f=makeDiscreteGlobalBasisFunction<double>(basis,c); auto l=localFunction(f); auto dl=localFunction(derivative(f));
  std::array<int,dim> n; for (std::size_t d=0;d<dim;++d) n[d]=int(knots[d].size())-int(p)-1;
  for (const auto& e : elements(basis.gridView())) { auto ctr=e.geometry().center(); std::array<int,dim> span; for (std::size_t d=0;d<dim;++d) for (std::size_t j=0;j+1<knots[d].size();++j) if (knots[d][j]<ctr[d] && ctr[d]<knots[d][j+1]) span[d]=j;
    auto x=randomLocal<dim>(e.type()); for (auto& v : x) v=0.01+0.98*v; auto X=e.geometry().global(x); LD s=0; std::array<LD,dim> g{}; 
    for (std::size_t k=0;k<c.size();++k) { std::size_t r=k; std::array<int,dim> a; for (std::size_t d=0;d<dim;++d) { a[d]=r%n[d]; r/=n[d]; } for (int q=-1;q<int(dim);++q) { LD v=c[k]; for (std::size_t d=0;d<dim && v!=0;++d) v*=N(knots[d],a[d],p,int(d)==q,X[d],span[d]); if (q<0) s+=v; else g[q]+=v; } }
    l.bind(e); dl.bind(e); check(near(l(x),double(s),1e-9), key+":function"); auto J=flat(dl(x)); for (std::size_t d=0;d<dim;++d) check(near(J.at(d),double(g[d]),1e-8), key+":function-derivative"); obs("function-points"); }
}
template<int dim> void uniform(int pmax, int nmax, int iters)
{
  for (int it=0; it<iters; ++it) {
    Dune::FieldVector<double,dim> lo, up; std::array<int,dim> n; std::array<unsigned,dim> un; for (int d=0;d<dim;++d) { lo[d]=urnd(); up[d]=lo[d]+0.3+urnd(0,2); n[d]=un[d]=1+rnd(nmax); }
    bool open=rnd(3); unsigned p=rnd(pmax+1); if (!open) for (int d=0;d<dim;++d) p=std::min(p,un[d]-1); if (!open) for (int d=0; d<dim; ++d) if (un[d]<1) open=true;
    if (!open) { bool ok=true; for (int d=0;d<dim;++d) ok = ok && un[d]+1>=p+2; if (!ok) open=true; }
    Dune::YaspGrid<dim,Dune::EquidistantOffsetCoordinates<double,dim>> g(lo,up,n); auto gv=g.leafGridView();
    std::array<std::vector<double>,dim> knots; for (int d=0;d<dim;++d) { if (open) knots[d].insert(knots[d].end(),p,lo[d]); for (unsigned j=0;j<=un[d];++j) knots[d].push_back(lo[d]+j*(up[d]-lo[d])/un[d]); if (open) knots[d].insert(knots[d].end(),p,up[d]); }
    auto b=makeBasis(gv,[&](const auto& v) { return BSplinePreBasis<std::decay_t<decltype(v)>>(v,lo,up,un,p,open); });
    copies(open?"uniform":"uniform-notopen",b,knots,un,p,open); function("uniform",b,knots,p); sample(cat("uniform dim ",dim," order ",p," elements ",un[0]," open ",open," dimension ",b.dimension()));
  }
}
template<int dim> void userKnots(int pmax, int nmax, int iters)
{
  for (int it=0; it<iters; ++it) {
    unsigned n=1+rnd(nmax); std::vector<double> k{urnd()}; for (unsigned j=0;j<n;++j) k.push_back(k.back()+(rnd(5)?0.1+urnd(0,1):0.003+urnd(0,0.01)));
    bool open=rnd(3); unsigned p=rnd(pmax+1); if (!open && n+1<p+2) p=n-1;
    std::array<std::vector<double>,dim> c; c.fill(k); Dune::YaspGrid<dim,Dune::TensorProductCoordinates<double,dim>> g(c); auto gv=g.leafGridView();
    std::array<std::vector<double>,dim> knots; for (auto& q : knots) { if (open) q.insert(q.end(),p,k.front()); q.insert(q.end(),k.begin(),k.end()); if (open) q.insert(q.end(),p,k.back()); }
    std::array<unsigned,dim> un; un.fill(n);
    auto b=makeBasis(gv,bSpline(std::vector<double>(k),p,open)); copies(open?"user":"user-notopen",b,knots,un,p,open); function("user",b,knots,p);
    auto b2=makeBasis(gv,[&](const auto& v) { return BSplinePreBasis<std::decay_t<decltype(v)>>(v,k,p,open); }); verify("user-prebasis",b2,knots,un,p,open);
    if (open) { auto b3=makeBasis(gv,bSpline(k,p)); verify("user-default-open",b3,knots,un,p,open); }
    auto pw=makeBasis(gv,power<2>(bSpline(k,p,open),flatInterleaved())); check(pw.dimension()==2*b.dimension(),"power:dimension"); auto l=pw.localView(), s=b.localView(); for (const auto& e : elements(gv)) { l.bind(e); s.bind(e); for (int ch=0;ch<2;++ch) for (std::size_t i=0;i<s.size();++i) check(l.index(l.tree().child(ch).localIndex(i))[0]==2*s.index(i)[0]+ch, "power:index"); }
  }
}
VF_CASE("uniform/1d") { uniform<1>(6,8,scale(25,300)); }
VF_CASE("uniform/2d") { uniform<2>(4,4,scale(10,80)); }
VF_CASE("uniform/3d") { uniform<3>(3,3,scale(3,25)); }
VF_CASE("user/1d") { userKnots<1>(6,8,scale(25,300)); }
VF_CASE("user/2d") { userKnots<2>(4,4,scale(8,60)); }
VF_CASE("user/3d") { userKnots<3>(2,2,scale(3,20)); }
