// P23: polynomials, monomial sets, trigonometric functions against explicit sums
#include "util.hh"
#include <dune/functions/analyticfunctions/polynomial.hh>
#include <dune/functions/analyticfunctions/monomialset.hh>
#include <dune/functions/analyticfunctions/trigonometricfunction.hh>
#include <dune/functions/common/differentiablefunction.hh>
using namespace VF; using namespace Dune::Functions;
using LD=long double;
// d-th derivative of sum c_i x^i
template<class X> LD ref(const std::vector<LD>& c, int d, X x, LD* mag=nullptr) { LD s=0,m=0; for (std::size_t i=d;i<c.size();++i) { LD t=c[i]; for (int j=0;j<d;++j) t*=LD(i-j); for (std::size_t j=d;j<i;++j) t*=x; s+=t; m+=std::abs(t); } if (mag) *mag=m; return s; }
template<class K> LD tol() { if constexpr (std::is_integral_v<K>) return 0; else return 64*std::numeric_limits<K>::epsilon(); }
template<class K, class P> void pointwise(const std::string& key, const P& p, const std::vector<LD>& c, int d)
{
  for (int k=0;k<4;++k) {
    K x; if constexpr (std::is_integral_v<K>) x=K(rnd(5))-2; else x = k==0 ? K(0) : k==1 ? K(-1) : K(urnd(-2,2));
    LD m; LD want=ref(c,d,LD(x),&m); LD got=p(x);
    check(std::abs(got-want)<=tol<K>()*(m+1e-300L), key+":value", "degree ", int(c.size())-1, " derivative ", d, " x=", double(x), " got ", double(got), " want ", double(want));
    obs("polynomial-evaluations"); state(mix(hdbl(hstr(key)+d,double(want)),c.size()));
  }
}
template<class K, class P> void chain(const std::string& key, const P& p, const std::vector<LD>& c, int d=0)
{ pointwise<K>(key,p,c,d); if constexpr (requires { p.coefficients().begin(); }) { std::size_t n=int(c.size())>d ? c.size()-d : 0; check(p.coefficients().size()==n, key+":ncoeff"); std::size_t i=0; for (auto q : p.coefficients()) { std::vector<LD> one(c.size(),0); LD t=c[i+d]; for (int j=0;j<d;++j) t*=LD(i+d-j); check(std::abs(LD(q)-t)<=tol<K>()*std::abs(t), key+":coefficient"); ++i; } } }
template<class K> void vectors()
{
  for (int it=0; it<scale(60,600); ++it) {
    int n=rnd(9); std::vector<K> c(n); std::vector<LD> r(n); for (int i=0;i<n;++i) { if constexpr (std::is_integral_v<K>) c[i]=K(rnd(9))-4; else c[i]=rnd(4)?K(urnd(-2,2)):K(0); r[i]=c[i]; }
    Polynomial<K> p(c); Polynomial q(c); auto m=makePolynomial<K>(c); auto cp=p; check(p==q && p==m && cp==p, "vector:equal");
    if (n) { auto c2=c; c2[rnd(n)]+=K(1); check(!(Polynomial<K>(c2)==p), "vector:unequal"); }
    if constexpr (std::is_same_v<K,double>) { DifferentiableFunction<K(K)> er=p; for (int d=0; d<n+3; ++d) { pointwise<K>("vector-erased",er,r,d); er=derivative(er); } }
    for (int d=0; d<n+3; ++d) { chain<K>("vector",p,r,d); pointwise<K>("vector-make",m,r,d); { auto t=derivative(p); p=t; } m=derivative(m); }
    pointwise<K>("vector-copy",cp,r,0); pointwise<K>("vector-source",q,r,0);
  }
}
template<class K, class P> void chainAll(const std::string& key, const P& p, const std::vector<LD>& r, auto depth)
{ constexpr int d=decltype(depth)::value; chain<K>(key,p,r,d); if constexpr (d<6) chainAll<K>(key,derivative(p),r,std::integral_constant<int,d+1>{}); }
template<class K, std::size_t n> void arr()
{
  for (int it=0; it<scale(10,100); ++it) {
    std::array<K,n> c; std::vector<LD> r(n); for (std::size_t i=0;i<n;++i) { if constexpr (std::is_integral_v<K>) c[i]=K(rnd(9))-4; else c[i]=K(urnd(-2,2)); r[i]=c[i]; }
    Polynomial p(c); chainAll<K>("array",p,r,std::integral_constant<int,0>{}); if constexpr (!std::is_same_v<K,float>) { auto m=makePolynomial<double>(c); chainAll<double>("array-make",m,r,std::integral_constant<int,0>{}); } check(Polynomial(c)==p,"array:equal");
  }
}
template<class K, int... ci> void seq()
{ std::vector<LD> r{LD(ci)...}; Polynomial<K,std::integer_sequence<int,ci...>> p; chainAll<K>("sequence",p,r,std::integral_constant<int,0>{}); auto m=makePolynomial<K>(std::integer_sequence<int,ci...>{}); chainAll<K>("sequence-make",m,r,std::integral_constant<int,0>{}); check(m==p,"sequence:equal"); }
VF_CASE("polynomial/vector-double") { vectors<double>(); }
VF_CASE("polynomial/vector-float") { vectors<float>(); }
VF_CASE("polynomial/vector-longdouble") { vectors<long double>(); }
VF_CASE("polynomial/vector-integer") { vectors<long long>(); }
VF_CASE("polynomial/array") { arr<double,1>(); arr<double,2>(); arr<double,3>(); arr<double,4>(); arr<double,5>(); arr<double,7>(); arr<float,4>(); arr<long long,5>(); }
VF_CASE("polynomial/sequence") { for (int i=0;i<10;++i) { seq<double,1>(); seq<double,0,0,3>(); seq<double,5,-3,2,7>(); seq<float,1,2>(); seq<long long,2,0,0,-1,4,1>(); seq<double,-1,1,-1,1,-1,1,-1>(); } 
  auto e=makePolynomial<double>(std::integer_sequence<int>{}); check(e(3.)==0,"empty-sequence"); }
VF_CASE("polynomial/tuple") {
  using namespace Dune::Indices;
  for (int it=0; it<scale(20,200); ++it) {
    double a=urnd(), b=urnd(); int k=int(rnd(7))-3; 
    { auto t=std::tuple(a,_2,k,b); std::vector<LD> r{a,2,LD(k),b}; auto p=makePolynomial<double>(t); chainAll<double>("tuple",p,r,std::integral_constant<int,0>{}); check(p==makePolynomial<double>(t),"tuple:equal"); }
    { auto t=std::tuple(_0,_0,_1); std::vector<LD> r{0,0,1}; auto p=makePolynomial<double>(t); chainAll<double>("tuple",p,r,std::integral_constant<int,0>{}); }
    { auto t=std::tuple(a); std::vector<LD> r{a}; auto p=makePolynomial<double>(t); chainAll<double>("tuple",p,r,std::integral_constant<int,0>{}); }
    { auto t=std::tuple(_3,a,_0,_0,b,k); std::vector<LD> r{3,a,0,0,b,LD(k)}; auto p=makePolynomial<double>(t); chainAll<double>("tuple",p,r,std::integral_constant<int,0>{}); }
  }
}
VF_CASE("polynomial/init-list") { Polynomial p{{1.,2.,3.}}; pointwise<double>("ilist",p,{1,2,3},0); auto q=makePolynomial<double>({1.,-2.}); pointwise<double>("ilist",q,{1,-2},0); pointwise<double>("ilist",derivative(q),{1,-2},1); Polynomial<double> e; check(e(1.)==0 && derivative(e)(2.)==0,"default"); }
//---------------------------------------------------------------- monomials
template<class RF, int dim, int deg, class DF> void mono()
{
  MonomialSet<RF,dim,deg> m; auto ex=decltype(m)::exponents(); auto d=derivative(m); auto h=derivative(d); constexpr int N=decltype(m)::size;
  long want=1; for (int i=1;i<=dim;++i) want=want*(deg+i)/i; check(N==want && ex.size()==std::size_t(want), "size", dim, " ", deg);
  std::set<std::vector<std::size_t>> seen; int last=0;
  for (auto& e : ex) { std::size_t s=0; for (auto k : e) s+=k; check(s<=std::size_t(deg), "max-degree"); check(int(s)>=last, "graded-order"); last=s; check(seen.insert({e.begin(),e.end()}).second, "unique"); }
  // documented order: within one degree sorted anti-lexicographically in the trailing exponents
  for (std::size_t i=1;i<ex.size();++i) { std::size_t s=0,t=0; for (auto k : ex[i]) s+=k; for (auto k : ex[i-1]) t+=k; if (s==t) { std::vector<std::size_t> a(ex[i-1].rbegin(),ex[i-1].rend()), b(ex[i].rbegin(),ex[i].rend()); check(a<b,"order"); } }
  for (int it=0; it<scale(20,200); ++it) {
    Dune::FieldVector<DF,dim> x; for (int i=0;i<dim;++i) { if constexpr (std::is_integral_v<DF>) x[i]=DF(rnd(5))-2; else x[i]=rnd(5)?DF(urnd(-1.5,1.5)):DF(0); }
    auto y=m(x); auto J=d(x); auto H=h(x); check(y.size()==N && J.N()==N && H.size()==N, "range-size");
    auto val=[&](const auto& e, std::array<int,dim> dd) { LD r=1; for (int i=0;i<dim;++i) { if (dd[i]>int(e[i])) return LD(0); for (int j=0;j<dd[i];++j) r*=LD(e[i]-j); for (std::size_t j=dd[i];j<e[i];++j) r*=x[i]; } return r; };
    for (int n=0;n<N;++n) {
      auto ok=[&](LD g, LD w) { return std::abs(g-w)<=LD(1e-5*(std::is_same_v<RF,float>||std::is_same_v<DF,float>)+1e-12)*(1+std::abs(w)); };
      std::array<int,dim> z{}; check(ok(y[n],val(ex[n],z)), "value", "exponent ", n);
      for (int i=0;i<dim;++i) { auto di=z; di[i]++; check(ok(J[n][i],val(ex[n],di)), "jacobian", n, " ", i); for (int j=0;j<dim;++j) { auto dj=di; dj[j]++; check(ok(H[n][i][j],val(ex[n],dj)), "hessian", n, " ", i, j); } }
      state(hdbl(n*100+dim*10+deg,double(y[n])));
    }
    obs("monomial-points");
  }
}
template<int dim> void monoDim() { mono<double,dim,0,double>(); mono<double,dim,1,double>(); mono<double,dim,2,double>(); mono<double,dim,3,double>(); mono<double,dim,4,double>(); mono<double,dim,6,double>(); mono<float,dim,3,float>(); mono<double,dim,3,int>(); }
VF_CASE("monomial/1d") { monoDim<1>(); mono<double,1,12,double>(); }
VF_CASE("monomial/2d") { monoDim<2>(); mono<double,2,9,double>(); }
VF_CASE("monomial/3d") { monoDim<3>(); mono<double,3,7,double>(); }
//---------------------------------------------------------------- trigonometric
template<class K, int s, int c> void trig() {
  TrigonometricFunction<K,s,c> f; auto d1=derivative(f); auto d2=derivative(d1); auto d3=derivative(d2); auto d4=derivative(d3);
  for (int it=0; it<scale(20,200); ++it) { K x=K(urnd(-10,10)); LD S=std::sin(LD(x)), C=std::cos(LD(x)); LD t=64*std::numeric_limits<K>::epsilon()*(std::abs(s)+std::abs(c)+1);
    LD w[5]={s*S+c*C, s*C-c*S, -s*S-c*C, -s*C+c*S, s*S+c*C}; LD g[5]={LD(f(x)),LD(d1(x)),LD(d2(x)),LD(d3(x)),LD(d4(x))}; for (int i=0;i<5;++i) check(std::abs(w[i]-g[i])<=t, "trig:value", s, " ", c, " derivative ", i);
    if constexpr (std::is_same_v<K,double>) { DifferentiableFunction<K(K)> e=f; for (int i=0;i<5;++i) { check(std::abs(LD(e(x))-w[i])<=t, "trig:erased"); e=derivative(e); } } state(hdbl(s*31+c,double(w[0]))); obs("trig-points"); } }
VF_CASE("trigonometric") { trig<double,1,0>(); trig<double,0,1>(); trig<double,2,3>(); trig<double,-1,4>(); trig<double,5,-2>(); trig<float,1,0>(); trig<float,3,-1>(); trig<double,0,0>(); trig<long double,1,1>(); }
