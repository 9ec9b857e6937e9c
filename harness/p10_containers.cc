// P10: coefficient containers, backends and container descriptors
#include "tree.hh"
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/istl/multitypeblockvector.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
using namespace VF;
using namespace TreeModel;
namespace CD = Dune::Functions::ContainerDescriptors;

template<class C> concept Dyn = requires(C& c) { c[std::size_t(0)]; };
template<class C> concept Stat = (!Dyn<C>) && requires(C& c) { c[Dune::index_constant<0>{}]; };

// visit c[i] by own traversal
template<class C, class F> void at(C& c, std::size_t i, F&& f)
{
  if constexpr (Dyn<C>) { if constexpr (std::is_same_v<std::decay_t<C>, std::vector<bool>>) { auto r=c[i]; f(r); } else f(c[i]); }
  else Dune::Hybrid::forEach(Dune::Hybrid::integralRange(Dune::Hybrid::size(c)), [&](auto ii) { if (std::size_t(ii)==i) f(c[ii]); });
}
template<class C> std::size_t sz(const C& c)
{ if constexpr (Dyn<const C>) return c.size(); else return Dune::Hybrid::size(c); }

using Sizes = std::map<Idx,std::size_t>;

// pad: entries of a complete index may be containers themselves; only component [0]...[0] is addressed
template<class C> void checkSizes(C& c, const Sizes& model, const Idx& prefix, bool pad, const std::string& key)
{
  if constexpr (Dyn<C> || Stat<C>) {
    auto it = model.find(prefix);
    if (it==model.end()) { check(false, key+":extra-prefix", str(prefix)); return; }
    if (it->second==0) { check(pad && sz(c)>0, key+":entry-not-scalar", str(prefix)); return; }
    if (!check(sz(c)==it->second, key+":size", "container size at ", str(prefix), " is ", sz(c), " but size(prefix)=", it->second)) return;
    for (std::size_t i=0;i<it->second;++i) { auto p=prefix; p.push_back(i); at(c, i, [&](auto& x) { checkSizes(x, model, p, pad, key); }); }
  } else {
    auto it = model.find(prefix);
    check(it!=model.end() && it->second==0, key+":scalar-too-early", str(prefix));
    obs("entries");
  }
}
// address and value of the entry of an index, own navigation
template<class C, class F> void entry(C& c, const Idx& i, std::size_t l, F&& f)
{
  if constexpr (Dyn<C> || Stat<C>) at(c, l<i.size() ? i[l] : 0, [&](auto& x) { entry(x, i, l+1, f); });
  else f(c);
}
template<class C, class F> void forAll(C& c, F&& f)
{
  if constexpr (Dyn<C> || Stat<C>) { for (std::size_t i=0;i<sz(c);++i) at(c, i, [&](auto& x) { forAll(x, f); }); }
  else f(c);
}
template<class D> constexpr bool known()
{ return !std::is_same_v<D, CD::Unknown>; }
template<class D> struct Knows : std::true_type {};
template<> struct Knows<CD::Unknown> : std::false_type {};
template<class... C> struct Knows<Dune::TupleVector<C...>> : std::bool_constant<(Knows<C>::value && ...)> {};
template<class C, std::size_t n> struct Knows<std::array<C,n>> : Knows<C> {};
template<class C> struct Knows<std::vector<C>> : Knows<C> {};
template<class C, std::size_t n> struct Knows<CD::UniformArray<C,n>> : Knows<C> {};
template<class C> struct Knows<CD::UniformVector<C>> : Knows<C> {};

template<class D> void checkDescriptor(const D& d, const Sizes& model, const Idx& prefix)
{
  if constexpr (std::is_same_v<D, CD::Unknown>) obs("unknown-descriptor");
  else if constexpr (std::is_same_v<D, CD::Value>) {
    auto it=model.find(prefix);
    check(it!=model.end() && it->second==0, "descriptor:value-too-early", str(prefix)); obs("descriptor-values");
  }
  else {
    auto it=model.find(prefix);
    if (!check(it!=model.end() && it->second==sz(d), "descriptor:size", "descriptor says ", sz(d), " at ", str(prefix))) return;
    for (std::size_t i=0;i<it->second;++i) { auto p=prefix; p.push_back(i); at(d, i, [&](auto& x) { checkDescriptor(x, model, p); }); }
  }
}

// write/read through accessor acc(mi)
template<class Basis, class C, class Acc, class CAcc>
void checkAccess(const Basis& basis, C& c, Acc acc, CAcc cacc, const std::string& key)
{
  using T = std::decay_t<decltype([&]{ auto lv=basis.localView(); return acc(lv.index(0)); }())>;
  std::map<Idx,double> model;
  int ctr=0;
  forAll(c, [&](auto& x) { x = T(0); });
  auto lv = basis.localView();
  for (const auto& e : elements(basis.gridView())) {
    lv.bind(e);
    for (std::size_t i=0;i<lv.size();++i) {
      auto mi = lv.index(i); auto I=toIdx(mi);
      auto it = model.find(I);
      double before = it==model.end() ? 0 : it->second;
      check(double(cacc(mi))==before, key+":entry-shared", "entry ", str(I), " is ", double(cacc(mi)), " expected ", before);
      double v; if constexpr (std::is_same_v<T,bool> || sizeof(T)==1) v=rnd(2); else v = 1+(++ctr);
      acc(mi) = T(v); model[I]=v;
      check(double(acc(mi))==v && double(cacc(mi))==v, key+":read-back", str(I));
      if constexpr (!std::is_same_v<T,bool>) if (I.size()) entry(c, I, 0, [&](auto& x) { check((void*)&x==(void*)&acc(mi), key+":address", "index ", str(I), " resolves to another entry than plain nested indexing"); });
      obs("accesses");
    }
  }
  std::uint64_t h=hstr(key); for (auto& [I,v] : model) { h=mix(h,hidx(I)); entry(c, I, 0, [&](auto& x) { check(double(x)==v, key+":final-value", str(I), " is ", double(x), " expected ", v); }); }
  std::size_t nz=0, want=0; forAll(c, [&](auto& x) { nz += double(x)!=0; }); for (auto& [I,v] : model) want += v!=0;
  check(nz==want, key+":foreign-entries", nz, " entries changed, expected ", want);
  state(h);
}

template<class Basis> Sizes basisSizes(const Basis& basis)
{
  std::set<Idx> all; auto lv=basis.localView();
  for (const auto& e : elements(basis.gridView())) { lv.bind(e); for (std::size_t i=0;i<lv.size();++i) all.insert(toIdx(lv.index(i))); }
  auto s = sizes(all);
  for (auto& [p,n] : s) check(sizeAt(basis,p)==n, "prefix-size", str(p));
  return s;
}

template<class V> void randomize(V& v) { forAll(v, [&](auto& x) { x = std::decay_t<decltype(x)>(1+rnd(100)); }); }

// one basis, one vector type: resize and access through the backend
template<class V, class Basis> void backend(const Basis& basis, const Sizes& model, V& v, const std::string& key, bool pad=false)
{
  using Dune::Functions::istlVectorBackend;
  auto b = istlVectorBackend(v);
  b.resize(basis);
  checkSizes(v, model, {}, pad, key);
  check(&b.vector()==&v, key+":vector");
  auto cb = istlVectorBackend(std::as_const(v));
  checkAccess(basis, v, [&](auto mi) -> decltype(auto) { return b[mi]; }, [&](auto mi) -> decltype(auto) { return cb[mi]; }, key);
  // copies of the backend refer to the same vector
  auto b2 = b; auto lv=basis.localView(); lv.bind(*elements(basis.gridView()).begin());
  check(&b2[lv.index(0)]==&b[lv.index(0)], key+":backend-copy");
  // repeated resize to the same basis keeps everything
  auto before=v; b.resize(basis); checkSizes(v, model, {}, pad, key);
  { std::vector<double> x,y; forAll(before,[&](auto& t){x.push_back(double(t));}); forAll(v,[&](auto& t){y.push_back(double(t));}); check(x==y, key+":resize-same-keeps"); }
  // assignments affect the wrapped vector
  b = 3.25;
  forAll(v, [&](auto& x) { check(double(x)==3.25, key+":assign-scalar", double(x)); });
  b = 0;
  forAll(v, [&](auto& x) { check(double(x)==0, key+":assign-zero", double(x)); });
  V w=v; randomize(w); auto bw=istlVectorBackend(w); auto cbw=istlVectorBackend(std::as_const(w));
  auto same=[&](const char* what, auto& x, auto& y) { std::vector<double> p,q; forAll(x,[&](auto& t){p.push_back(double(t));}); forAll(y,[&](auto& t){q.push_back(double(t));}); check(p==q && p.size()==q.size() && !p.empty(), key+":"+what); };
  V w0=w;
  b = bw; same("assign-backend", v, w); check(&b.vector()==&v, key+":assign-rebinds");
  randomize(v); same("assign-aliases", w, w0);
  b = cbw; same("assign-const-backend", v, w);
  randomize(v);
  if constexpr (requires { b = w; }) { b = w; same("assign-vector", v, w); }
  forAll(w, [&](auto& x) { x = -1; });
  bool touched=false; forAll(v, [&](auto& x) { touched |= double(x)==-1; }); check(!touched, key+":assign-shares-storage");
}

template<class Basis, class T> void factories(const Basis& basis, const Sizes& model, const char* tn)
{
  auto d = Dune::Functions::containerDescriptor(basis.preBasis());
  checkDescriptor(d, model, {});
  using D = decltype(d);
  if constexpr (Knows<D>::value) {
    auto run = [&](auto c, T def, const std::string& key) {
      checkSizes(c, model, {}, false, key);
      forAll(c, [&](auto& x) { check(double(x)==double(def), key+":default", double(x), " expected ", double(def)); });
      checkAccess(basis, c, [&](auto mi) -> decltype(auto) { return Dune::Functions::resolveDynamicMultiIndex(c, mi); }, [&](auto mi) -> decltype(auto) { return Dune::Functions::resolveDynamicMultiIndex(std::as_const(c), mi); }, key);
    };
    if constexpr (!std::is_same_v<T,bool>) {
      run(Dune::Functions::makeContainer<T>(d, T(7)), T(7), std::string("makeContainer-")+tn);
      run(Dune::Functions::makeContainer<T>(d), T(0), std::string("makeContainer0-")+tn);
      if constexpr (!std::is_same_v<T,char>) run(Dune::Functions::makeISTLVector<T>(d), T(0), std::string("makeISTLVector-")+tn);
      // a container built by the factory can be resized through the backend to the same basis
      auto c = Dune::Functions::makeContainer<T>(d);
      Dune::Functions::istlVectorBackend(c).resize(basis);
      checkSizes(c, model, {}, false, "factory-then-resize");
      if constexpr (std::is_same_v<T,double>) { auto iv = Dune::Functions::makeISTLVector<T>(d); backend(basis, model, iv, "istl-factory-backend"); }
    } else {
      auto c = Dune::Functions::makeContainer<bool>(d, true);
      checkSizes(c, model, {}, false, "bool");
      forAll(c, [&](auto& x) { check(bool(x), "bool:default"); });
    }
    obs("factories");
  } else obs("unknown-descriptor");
}

template<class... V> struct Vecs {};

// tree: expression; several meshes in a row reuse the same vectors (grow and shrink)
template<class... V, class Mk, class Ex> void run(Mk mk, Ex ex, Vecs<V...>, bool wantDescriptor, bool pad=false)
{
  int n = scale(3,30);
  for (int rep=0; rep<n; ++rep) {
    std::tuple<V...> vs{};
    int chain = 1+int(rnd(3));
    for (int ch=0; ch<chain; ++ch) {
      auto grid = mk(); auto gv = grid->leafGridView();
      auto basis = BF::makeBasis(gv, ex());
      auto model = basisSizes(basis);
      int k=0;
      std::apply([&](auto&... v) { (backend(basis, model, v, "backend"+std::to_string(k++), pad), ...); }, vs);
      factories<decltype(basis), double>(basis, model, "double");
      factories<decltype(basis), char>(basis, model, "char");
      factories<decltype(basis), bool>(basis, model, "bool");
      constexpr bool kn = Knows<decltype(Dune::Functions::containerDescriptor(basis.preBasis()))>::value;
      check(kn || !wantDescriptor, "descriptor-unknown");
      sample(cat("dimension ", basis.dimension(), ", ", sizeof...(V), " vector types"));
    }
  }
}
template<int n> using FV = Dune::FieldVector<double,n>;
template<class T> using SV = std::vector<T>;
template<class T> using BV = Dune::BlockVector<T>;
template<class... T> using TV = Dune::TupleVector<T...>;
template<class... T> using MT = Dune::MultiTypeBlockVector<T...>;
template<class T,std::size_t n> using AR = std::array<T,n>;
using namespace Dune::Functions::BasisFactory;
static auto k14() { return std::size_t(1+rnd(4)); }
#define X(nm, mk, expr, known, ...) static VF::Registrar VF_CAT(vf_t_,__COUNTER__)(nm, []{ run([]{ return Spaces::mk(); }, []{ return expr; }, Vecs<__VA_ARGS__>{}, known); });
#if PART == 1
X("lagrange2", mixed2, lagrange<2>(), true, SV<double>, BV<double>, std::vector<float>)
static VF::Registrar pad1("lagrange1-padded", []{ run([]{ return Spaces::mixed2(); }, []{ return lagrange<1>(); }, Vecs<SV<FV<1>>, BV<FV<1>>, SV<AR<double,1>>>{}, true, true); });
X("pow3-bi", mixed2, power<3>(lagrange<2>(), blockedInterleaved()), true, SV<FV<3>>, BV<FV<3>>, SV<AR<double,3>>, SV<SV<double>>, BV<BV<double>>)
X("pow2-bl", mixed2, power<2>(lagrange<2>(), blockedLexicographic()), true, SV<SV<double>>, AR<SV<double>,2>, TV<SV<double>,SV<double>>, BV<BV<double>>)
X("pow2-bl-multitype", mixed2, power<2>(lagrange<2>(), blockedLexicographic()), true, MT<BV<double>,BV<double>>)
X("pow2-fl", mixed2, power<2>(lagrange<2>(), flatLexicographic()), true, SV<double>, BV<double>)
X("pow3-fi", mixed2, power<3>(lagrange<1>(), flatInterleaved()), true, SV<double>)
X("dyn-bl", mixed2, power(lagrange<1>(), k14(), blockedLexicographic()), true, SV<SV<double>>, BV<BV<double>>)
X("dyn-bi", mixed2, power(lagrange<1>(), k14(), blockedInterleaved()), true, SV<SV<double>>)
X("dyn-fl", mixed2, power(lagrange(2), k14(), flatLexicographic()), true, SV<double>)
X("dyn-fi", mixed2, power(lagrange(2), k14(), flatInterleaved()), true, SV<double>)
#elif PART == 2
X("comp-bl(pow-bi,lag)", mixed2, composite(power<2>(lagrange<2>(), blockedInterleaved()), lagrange<1>(), blockedLexicographic()), true, TV<SV<FV<2>>,SV<double>>, TV<BV<FV<2>>,SV<double>>, MT<BV<FV<2>>,BV<double>>)
X("comp-bl(pow-bl,lag)", mixed2, composite(power<2>(lagrange<2>(), blockedLexicographic()), lagrange<1>(), blockedLexicographic()), true, TV<AR<SV<double>,2>,SV<double>>, MT<BV<BV<double>>,BV<double>>)
X("comp-bl(pow-fl,lag)", mixed2, composite(power<2>(lagrange<2>(), flatLexicographic()), lagrange<1>(), blockedLexicographic()), true, SV<SV<double>>, AR<BV<double>,2>)
X("comp-fl(lag,dg)", mixed2, composite(lagrange<2>(), lagrangeDG<1>(), flatLexicographic()), true, SV<double>, BV<double>)
X("comp-fl(pow-bi,pow-bi)", mixed2, composite(power<2>(lagrange<2>(), blockedInterleaved()), power<2>(lagrange<1>(), blockedInterleaved()), flatLexicographic()), false, SV<FV<2>>, SV<SV<double>>)
X("taylorhood", mixed2, taylorHood(), true, TV<SV<double>,SV<double>>, SV<SV<double>>)
X("taylorhood3", prismhex, taylorHood(), true, TV<SV<double>,SV<double>>)
X("taylorhood-hybrid3", tets, ([](const auto& gv) { return Dune::Functions::TaylorHoodPreBasis<std::decay_t<decltype(gv)>,true>(gv); }), true, TV<SV<FV<3>>,SV<double>>)
X("comp-bl(comp-bl,comp-bl)", mixed2, composite(composite(lagrange<2>(), lagrange<0>(), blockedLexicographic()), composite(lagrange<1>(), power<2>(lagrange<1>(), blockedInterleaved()), blockedLexicographic()), blockedLexicographic()), true, TV<AR<SV<double>,2>, TV<SV<double>,SV<FV<2>>>>)
X("comp1-bl(lag)", mixed2, composite(lagrange<1>(), blockedLexicographic()), true, AR<SV<double>,1>, SV<SV<double>>)
X("pow1-bl(lag)", mixed2, power<1>(lagrange<1>(), blockedLexicographic()), true, AR<SV<double>,1>, SV<SV<double>>)
X("pow1-bi(lag)", mixed2, power<1>(lagrange<1>(), blockedInterleaved()), true, SV<FV<1>>, SV<SV<double>>)
X("pow1-bl(pow1-bl)", mixed2, power<1>(power<1>(lagrange<1>(), blockedLexicographic()), blockedLexicographic()), true, SV<SV<SV<double>>>)
X("comp-bl(pow1-bl)", mixed2, composite(power<1>(lagrange<1>(), blockedLexicographic()), blockedLexicographic()), true, SV<SV<SV<double>>>)
#elif PART == 3
X("pow2-bl(pow3-bi)", mixed2, power<2>(power<3>(lagrange<1>(), blockedInterleaved()), blockedLexicographic()), true, AR<SV<FV<3>>,2>, SV<SV<SV<double>>>)
X("pow2-bi(pow3-bl)", mixed2, power<2>(power<3>(lagrange<1>(), blockedLexicographic()), blockedInterleaved()), true, AR<SV<FV<2>>,3>, SV<SV<SV<double>>>)
X("pow2-fl(pow3-bi)", mixed2, power<2>(power<3>(lagrange<1>(), blockedInterleaved()), flatLexicographic()), true, SV<FV<3>>)
X("pow2-fl(pow3-bl)", mixed2, power<2>(power<3>(lagrange<1>(), blockedLexicographic()), flatLexicographic()), true, AR<SV<double>,6>)
X("pow2-fi(pow3-bl)", mixed2, power<2>(power<3>(lagrange<1>(), blockedLexicographic()), flatInterleaved()), true, AR<SV<double>,6>)
X("pow2-fi(comp-bl)", mixed2, power<2>(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), flatInterleaved()), true, AR<SV<double>,4>)
X("pow2-fl(comp-bl)", mixed2, power<2>(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), flatLexicographic()), true, AR<SV<double>,4>)
X("pow2-fi(comp-bl-het)", mixed2, power<2>(composite(lagrange<1>(), power<2>(lagrange<2>(), blockedInterleaved()), blockedLexicographic()), flatInterleaved()), true, TV<SV<double>,SV<double>,SV<FV<2>>,SV<FV<2>>>)
X("pow2-fl(comp-bl-het)", mixed2, power<2>(composite(lagrange<1>(), power<2>(lagrange<2>(), blockedInterleaved()), blockedLexicographic()), flatLexicographic()), true, TV<SV<double>,SV<FV<2>>,SV<double>,SV<FV<2>>>)
X("dyn-fl(comp-bl)", mixed2, power(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), k14(), flatLexicographic()), false, SV<SV<double>>)
X("dyn-fi(comp-bl)", mixed2, power(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), k14(), flatInterleaved()), false, SV<SV<double>>)
X("dyn-fl(dyn-bl)", mixed2, power(power(lagrange<1>(), k14(), blockedLexicographic()), k14(), flatLexicographic()), true, SV<SV<double>>)
X("dyn-fi(dyn-bl)", mixed2, power(power(lagrange<1>(), k14(), blockedLexicographic()), k14(), flatInterleaved()), true, SV<SV<double>>)
X("pow2-fi(dyn-bl)", mixed2, power<2>(power(lagrange<1>(), k14(), blockedLexicographic()), flatInterleaved()), true, SV<SV<double>>)
#elif PART == 5   // three levels of nesting
static auto cb() { return composite(lagrange<0>(), lagrange<2>(), blockedLexicographic()); }
X("dyn-fl(dyn-fl(comp-bl))", mixed2, power(power(cb(), k14(), flatLexicographic()), k14(), flatLexicographic()), false, SV<SV<double>>)
X("dyn-fi(dyn-fl(comp-bl))", mixed2, power(power(cb(), k14(), flatLexicographic()), k14(), flatInterleaved()), false, SV<SV<double>>)
X("dyn-fl(dyn-fi(comp-bl))", mixed2, power(power(cb(), k14(), flatInterleaved()), k14(), flatLexicographic()), false, SV<SV<double>>)
X("pow2-fl(dyn-fl(comp-bl))", mixed2, power<2>(power(cb(), k14(), flatLexicographic()), flatLexicographic()), false, SV<SV<double>>)
X("pow3-fi(dyn-fi(comp-bl))", mixed2, power<3>(power(cb(), k14(), flatInterleaved()), flatInterleaved()), false, SV<SV<double>>)
X("pow2-fi(pow3-fl(comp-bl))", mixed2, power<2>(power<3>(cb(), flatLexicographic()), flatInterleaved()), true, AR<SV<double>,12>, SV<SV<double>>)
X("pow2-fl(pow3-fi(comp-bl))", mixed2, power<2>(power<3>(cb(), flatInterleaved()), flatLexicographic()), true, AR<SV<double>,12>, SV<SV<double>>)
X("dyn-fl(pow3-fi(comp-bl))", mixed2, power(power<3>(cb(), flatInterleaved()), k14(), flatLexicographic()), false, SV<SV<double>>)
X("dyn-fi(pow2-bl)", mixed2, power(power<2>(lagrange<2>(), blockedLexicographic()), k14(), flatInterleaved()), true, SV<SV<double>>)
X("dyn-bl(dyn-fl(comp-bl))", mixed2, power(power(cb(), k14(), flatLexicographic()), k14(), blockedLexicographic()), false, SV<SV<SV<double>>>)
X("dyn-bi(dyn-fl(comp-bl))", mixed2, power(power(cb(), k14(), flatLexicographic()), k14(), blockedInterleaved()), false, SV<SV<SV<double>>>)
X("pow2-bi(comp-bl)", mixed2, power<2>(cb(), blockedInterleaved()), true, AR<SV<FV<2>>,2>, SV<SV<SV<double>>>)
X("dyn-bi(comp-bl)", mixed2, power(cb(), k14(), blockedInterleaved()), true, AR<SV<SV<double>>,2>)
X("dyn-bi(comp-bl-het)", mixed2, power(composite(lagrange<0>(), power<2>(lagrange<1>(), blockedInterleaved()), blockedLexicographic()), k14(), blockedInterleaved()), true, TV<SV<SV<double>>,SV<AR<SV<double>,2>>>)
X("comp-bl(dyn-fl(comp-bl),lag)", mixed2, composite(power(cb(), k14(), flatLexicographic()), lagrange<1>(), blockedLexicographic()), false, TV<SV<SV<double>>,SV<double>>)
#elif PART == 4   // leaf bases
X("rt0/pyrhex", pyrhex, raviartThomas<0>(), true, SV<double>)
X("dg2/prismhex", prismhex, lagrangeDG<2>(), true, SV<double>)
X("dgrt/mixed2", mixed2, lagrangeDG(3), true, SV<double>)
X("bdm1/tris", tris, brezziDouglasMarini<1>(), true, SV<double>)
X("nedelec/mixed2", mixed2, (nedelec<1,1>()), true, SV<double>)
X("rannacherturek/mixed2", mixed2, rannacherTurek(), true, SV<double>)
X("hermite/tris", tris, cubicHermite(), true, SV<double>)
X("morley/tris", tris, morley(), true, SV<double>)
X("argyris/tris", tris, argyris(), true, SV<double>)
X("hierarchical/tris", tris, hierarchicalLagrange<2>(), true, SV<double>)
X("bubble/tris", tris, hierarchicalLagrangeWithElementBubble<1>(), true, SV<double>)
X("lagrangeRT3/prismhex", prismhex, lagrange(2), true, SV<double>)
static auto bs() { return [](const auto& gv) { using PB=Dune::Functions::BSplinePreBasis<std::decay_t<decltype(gv)>>; typename std::decay_t<decltype(gv)>::template Codim<0>::Geometry::GlobalCoordinate lo(1e9), up(-1e9); for (const auto& v : vertices(gv)) for (int i=0;i<2;++i) { lo[i]=std::min(lo[i],v.geometry().center()[i]); up[i]=std::max(up[i],v.geometry().center()[i]); } std::array<unsigned,2> n{unsigned(gv.grid().levelSize(0)[0]), unsigned(gv.grid().levelSize(0)[1])}; return PB(gv, lo, up, n, 2); }; }
X("bspline/yasp2", yasp2, bs(), true, SV<double>)
VF_CASE("throws-on-mismatch")
{
  // a vector that cannot take the shape must be rejected, not silently misused
  using Dune::Functions::istlVectorBackend;
  for (int i=0;i<scale(5,50);++i) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView();
    auto rej=[&](auto factory, auto v, const char* what) {
      auto basis=makeBasis(gv, factory); bool t=false;
      try { istlVectorBackend(v).resize(basis); } catch (Dune::RangeError&) { t=true; }
      check(t, std::string("not-rejected:")+what); state(mix(hstr(what), basis.dimension()));
    };
    rej(power<3>(lagrange<1>(), blockedInterleaved()), SV<FV<2>>{}, "3 components into FieldVector 2");
    rej(power<2>(lagrange<1>(), blockedLexicographic()), AR<SV<double>,3>{}, "2 blocks into array 3");
    rej(power<3>(lagrange<1>(), blockedLexicographic()), TV<SV<double>,SV<double>>{}, "3 blocks into tuple 2");
    rej(power<2>(lagrange<1>(), blockedLexicographic()), SV<double>{}, "nested into flat");
    rej(lagrange<1>(), SV<SV<double>>{}, "flat into empty nested");
    rej(composite(lagrange<1>(), power<2>(lagrange<1>(), blockedInterleaved()), blockedLexicographic()), SV<SV<double>>{}, "non-uniform into flat");
  }
}
#endif
