// P16: subdomains and restricted bases
#include "interp.hh"
#include <dune/grid/identitygrid.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
using namespace VF;
using namespace Dune::Functions::BasisFactory;
namespace EX = Dune::Functions::Experimental;
using Dune::Functions::Experimental::BasisFactory::restrict;

template<class GV> auto elementList(const GV& gv)
{ std::vector<typename GV::template Codim<0>::Entity> v; for (const auto& e : elements(gv)) v.push_back(e); return v; }

// random selection of elements: none, all, single, random, connected half
template<class GV> std::vector<char> selection(const GV& gv)
{
  int n=gv.size(0), kind=rnd(6); std::vector<char> s(n,0);
  if (kind==1) s.assign(n,1);
  else if (kind==2) s[rnd(n)]=1;
  else if (kind==3) for (int i=0;i<n/2+1;++i) s[i]=1;
  else if (kind>=4) for (auto& x : s) x=rnd(2);
  return s;
}
template<class GV> EX::SubDomain<GV> makeSubDomain(const GV& gv, const std::vector<char>& sel)
{
  EX::SubDomain<GV> sd(gv);
  auto els=elementList(gv); std::vector<int> order; for (std::size_t i=0;i<els.size();++i) if (sel[i]) { order.push_back(i); if (rnd(4)==0) order.push_back(i); }
  std::shuffle(order.begin(),order.end(),rng());
  for (int i : order) sd.insertElement(els[i]);
  return sd;
}

template<class GV, class SD> void checkSubDomain(const GV& gv, const SD& sd, const std::vector<char>& sel, const std::string& key)
{
  constexpr int dim=GV::dimension;
  const auto& is=gv.indexSet(); const auto& si=sd.indexSet(); auto sgv=sd.gridView();
  auto els=elementList(gv);
  using TI=unsigned; auto ti=[](Dune::GeometryType t) -> TI { return (t.dim()<<20) | (t.id()>>1); }; // lines have two equal types
  using Key=std::tuple<int,TI,std::size_t>; // codim, type, host index
  std::set<Key> inside;
  for (std::size_t n=0;n<els.size();++n) if (sel[n]) { auto re=referenceElement(els[n]); for (int c=0;c<=dim;++c) for (int i=0;i<re.size(c);++i) inside.insert({c,ti(re.type(i,c)),is.subIndex(els[n],i,c)}); }
  std::map<Key,std::size_t> idx; std::map<TI,std::set<std::size_t>> used; std::uint64_t h=hstr(key);
  for (std::size_t n=0;n<els.size();++n) {
    const auto& e=els[n]; auto re=referenceElement(e);
    check(sd.contains(e)==bool(sel[n]) && sgv.contains(e)==bool(sel[n]) && si.contains(e)==bool(sel[n]), key+":contains", n);
    if (sel[n]) check(si.index(e)==si.subIndex(e,0,0), key+":index-vs-subIndex");
    else { bool t=false; try { (void)si.index(e); } catch (Dune::InvalidStateException&) { t=true; } check(t, key+":index-not-rejected"); }
    for (int c=0;c<=dim;++c) for (int i=0;i<re.size(c);++i) {
      Key k{c,ti(re.type(i,c)),is.subIndex(e,i,c)};
      if (inside.count(k)) {
        std::size_t s=si.subIndex(e,i,c);
        auto it=idx.try_emplace(k,s).first; check(it->second==s, key+":index-differs-between-elements");
        used[ti(re.type(i,c))].insert(s); h=mix(h,s); obs("indices");
      } else { bool t=false; try { (void)si.subIndex(e,i,c); } catch (Dune::InvalidStateException&) { t=true; } check(t, key+":subIndex-not-rejected"); }
    }
    Dune::Hybrid::forEach(std::make_index_sequence<dim+1>{}, [&](auto cc) {
      constexpr int c=decltype(cc)::value;
      if constexpr (c==0 || c==dim) for (unsigned i=0;i<e.subEntities(c);++i) {
        auto s=e.template subEntity<c>(i); Key k{c,ti(s.type()),is.subIndex(e,i,c)};
        check(si.contains(s)==(inside.count(k)>0) && sgv.contains(s)==(inside.count(k)>0), key+":contains-subentity", c);
        if (inside.count(k)) check(si.index(s)==si.subIndex(e,i,c), key+":entity-index");
      }
    });
  }
  std::map<int,std::size_t> perCodim; std::map<int,std::set<TI>> types;
  for (auto& [k,s] : idx) { ++perCodim[std::get<0>(k)]; types[std::get<0>(k)].insert(std::get<1>(k)); }
  std::map<TI,std::size_t> perType; for (auto& [k,s] : idx) ++perType[std::get<1>(k)];
  for (auto& [gt,u] : used) check(u.size()==perType[gt] && *u.rbegin()+1==u.size(), key+":not-consecutive", "type ", gt, ": ", u.size(), " indices for ", perType[gt], " entities");
  for (int c=0;c<=dim;++c) {
    check(si.size(c)==perCodim[c] && std::size_t(sgv.size(c))==perCodim[c], key+":size-codim", c);
    auto t=si.types(c); std::set<TI> ts; for (auto x : t) ts.insert(ti(x));
    check(ts.size()==std::size_t(std::distance(t.begin(),t.end())) && ts==types[c], key+":types", c);
    for (auto gt : is.types(c)) check(si.size(gt)==perType[ti(gt)] && std::size_t(sgv.size(gt))==perType[ti(gt)], key+":size-type");
  }
  // iteration: each contained element exactly once
  auto iterate=[&](auto range, const char* what) { std::map<std::size_t,int> seen; for (auto it=range.begin(); it!=range.end(); ++it) { const auto& e=*it; ++seen[is.index(e)]; check(e.type()==els[0].type() || true, "t"); } 
    std::size_t want=0; std::map<std::size_t,int> exp; (void)want; for (std::size_t n=0;n<els.size();++n) if (sel[n]) ++exp[is.index(els[n])];
    if (gv.indexSet().types(0).size()==1) check(seen==exp, key+":iteration", what); else { std::size_t a=0,b=0; for (auto& [i,c] : seen) a+=c; for (auto& [i,c] : exp) b+=c; check(a==b && seen==exp, key+":iteration", what, " ", a, " vs ", b); } obs("iterations"); };
  iterate(elements(sgv), "elements");
  iterate(elements(sgv, Dune::Partitions::all), "all");
  iterate(elements(sgv, Dune::Partitions::interior), "interior");
  auto copy=sgv; iterate(elements(copy), "copied view");
  check(&sgv.indexSet()==&si && &sgv.grid()==&gv.grid(), key+":grid");
  // intersections of contained elements are those of the host
  for (std::size_t n=0;n<els.size();++n) if (sel[n]) {
    std::vector<int> a,b; for (const auto& x : intersections(gv,els[n])) a.push_back(x.indexInInside()); for (const auto& x : intersections(sgv,els[n])) { b.push_back(x.indexInInside()); check(x.inside()==els[n], key+":intersection-inside"); }
    check(a==b, key+":intersections");
  }
  state(h);
}

template<class GV> void checkInterface(const GV& gv)
{
  auto sa=selection(gv), sb=selection(gv);
  if (rnd(2)) for (std::size_t i=0;i<sb.size();++i) sb[i] = !sa[i];
  auto A=makeSubDomain(gv,sa), B=makeSubDomain(gv,sb);
  auto els=elementList(gv); auto no=[&](const auto& e) { for (std::size_t i=0;i<els.size();++i) if (els[i]==e) return i; return std::size_t(-1); };
  EX::SubDomainInterface I(A,B); EX::SubDomainSkeleton S(A);
  std::map<std::pair<std::size_t,int>,int> exp, got;
  for (std::size_t n=0;n<els.size();++n) for (const auto& x : intersections(gv,els[n])) {
    bool nb=x.neighbor() && !x.boundary(); std::size_t m = nb ? no(x.outside()) : 0;
    bool ori = nb && sa[n] && sb[m], rev = nb && sb[n] && sa[m];
    check(I.contains(x)==(ori||rev), "interface:contains");
    if (ori||rev) check(I.isOriented(x)==ori, "interface:oriented");
    check(S.contains(x)==(nb && sa[n] && sa[m]), "skeleton:contains");
    if (ori) ++exp[{n,x.indexInInside()}];
  }
  std::uint64_t h=2;
  for (const auto& x : I) { auto n=no(x.inside()); ++got[{n,x.indexInInside()}]; check(sa[n] && sb[no(x.outside())], "interface:orientation"); h=mix(h,n*10+x.indexInInside()); }
  check(got==exp, "interface:iteration", got.size(), " vs ", exp.size()); obs("interface-intersections", got.size());
  auto it=I.begin(); auto it2=it; if (it!=I.end()) { check(it==it2, "interface:equal"); auto a=(*it).indexInInside(); ++it2; check(it!=it2, "interface:unequal"); check((*it).indexInInside()==a, "interface:copy-independent"); }
  state(h);
}

// per leaf [size, indices] of a bound view
template<class LV> std::vector<std::vector<Idx>> leafIndices(const LV& lv)
{ std::vector<std::vector<Idx>> r; forEachLeaf(lv.tree(), [&](const auto& n, const auto&) { r.emplace_back(); for (std::size_t i=0;i<n.size();++i) r.back().push_back(toIdx(lv.index(n.localIndex(i)))); }); return r; }

// interpol: the space supports global interpolation of plain callables
template<class R, bool interpol, class GV, class Fac> void checkRestricted(const GV& gv, const std::vector<char>& sel, Fac fac)
{
  auto sd=makeSubDomain(gv,sel); bool empty = std::count(sel.begin(),sel.end(),1)==0;
  auto sb=makeBasis(sd.gridView(), fac);
  if (!empty) checkIndexTree(sb, "subdomain-basis");
  auto rfac=restrict(fac, sd);
  auto rb=makeBasis(gv, rfac);
  auto els=elementList(gv);
  check(rb.dimension()==sb.dimension() && rb.size()==sb.size(), "restricted:size");
  if constexpr (requires { rb.containerDescriptor().size(); }) check(rb.containerDescriptor().size()==sb.size(), "restricted:descriptor");
  auto lr=rb.localView(); auto ls=sb.localView(); std::uint64_t h=5;
  auto compare=[&](auto& lr, std::size_t n, const std::string& key) {
    check(lr.bound() && lr.element()==els[n], key+":element");
    if (!sel[n]) {
      check(lr.size()==0 && lr.tree().size()==0, key+":dofs-outside", lr.size());
      Dune::TypeTree::forEachNode(lr.tree(), [&](const auto& node, const auto&) { check(node.size()==0 && node.empty(), key+":node-outside"); });
    } else {
      ls.bind(els[n]);
      auto a=signature(lr), b=signature(ls);
      check(nearv(a,b,1e-12), key+":inside-differs");
      for (auto x : a) h=hdbl(h,x); state(h);
    }
    obs("views");
  };
  for (std::size_t n=0;n<els.size();++n) { lr.bind(els[n]); compare(lr, n, "restricted"); }
  // random rebinding, copies
  for (int op=0;op<scale(20,100);++op) { auto n=rnd(els.size()); if (rnd(4)==0) lr.unbind(); lr.bind(els[n]); compare(lr, n, "rebind"); if (rnd(3)==0) { auto c=lr; compare(c, n, "copy"); c.bind(els[rnd(els.size())]); compare(lr, n, "copy-independent"); } }
  auto rb2=rb; auto lr2=rb2.localView(); for (std::size_t n=0;n<els.size();++n) { lr2.bind(els[n]); compare(lr2, n, "basis-copy"); }
  // within a product space next to an unrestricted and another restricted space
  auto sel2=selection(gv); auto sd2=makeSubDomain(gv,sel2); auto ob=makeBasis(sd2.gridView(), lagrange<1>()); auto fb=makeBasis(gv, lagrange<0>());
  auto cb=makeBasis(gv, composite(lagrange<0>(), restrict(fac, sd), restrict(lagrange<1>(), sd2), blockedLexicographic()));
  auto lc=cb.localView(); auto lo=ob.localView(); auto lf=fb.localView();
  for (std::size_t n=0;n<els.size();++n) {
    lc.bind(els[n]); lf.bind(els[n]); auto L=leafIndices(lc);
    std::vector<std::vector<Idx>> W; auto add=[&](auto& v, std::size_t c) { for (auto l : leafIndices(v)) { for (auto& i : l) i.insert(i.begin(),c); W.push_back(l); } };
    add(lf,0);
    if (sel[n]) { ls.bind(els[n]); add(ls,1); } else { std::size_t nl=0; forEachLeaf(lc.tree().child(Dune::Indices::_1), [&](const auto&, const auto&) { ++nl; }); W.resize(W.size()+nl); }
    if (sel2[n]) { lo.bind(els[n]); add(lo,2); } else W.emplace_back();
    check(L==W, "product:indices", "element ", n);
    std::size_t tot=0; for (auto& l : W) tot+=l.size(); check(lc.size()==tot, "product:size");
  }
  if (empty) return;
  // interpolation and evaluation
  MonVec a,b;
  if constexpr (interpol) { Comps f; auto fun=rangeFunction<R>(f); Dune::Functions::interpolate(rb, a, fun); Dune::Functions::interpolate(sb, b, fun); }
  else { for (std::size_t n=0;n<els.size();++n) if (sel[n]) { ls.bind(els[n]); for (std::size_t i=0;i<ls.size();++i) if (!b.data.count(toIdx(ls.index(i)))) a[ls.index(i)]=b[ls.index(i)]=urnd(); } }
  check(a.data.size()==b.data.size(), "interpolate:count");
  for (auto& [i,x] : b.data) check(a.data.count(i) && near(a.data[i],x,1e-11), "interpolate:value", str(i));
  auto ga=Dune::Functions::makeDiscreteGlobalBasisFunction<R>(rb, a); auto gb=Dune::Functions::makeDiscreteGlobalBasisFunction<R>(sb, b);
  auto la=localFunction(ga); auto lb=localFunction(gb);
  for (std::size_t n=0;n<els.size();++n) {
    auto x=randomLocal<GV::dimension>(els[n].type()); la.bind(els[n]);
    auto va=flat(la(x));
    if (sel[n]) { lb.bind(els[n]); check(nearv(va,flat(lb(x)),1e-11), "evaluate:inside"); }
    else for (auto v : va) check(v==0, "evaluate:outside", v);
    obs("evaluations");
  }
  std::set<Idx> bd, want; Dune::Functions::forEachBoundaryDOF(rb, [&](const auto& i) { bd.insert(toIdx(i)); });
  for (std::size_t n=0;n<els.size();++n) if (sel[n]) { ls.bind(els[n]); for (const auto& x : intersections(gv,els[n])) if (x.boundary()) for (auto i : Dune::Functions::subEntityDOFs(ls, x)) want.insert(toIdx(ls.index(i))); }
  check(bd==want, "boundary-dofs");
  // the subdomain is changed and the basis updated
  auto selN=selection(gv); sd=makeSubDomain(gv,selN); rb.update(gv);
  auto sbN=makeBasis(sd.gridView(), fac); auto lN=sbN.localView(); auto lU=rb.localView();
  check(rb.dimension()==sbN.dimension(), "update:dimension");
  for (std::size_t n=0;n<els.size();++n) { lU.bind(els[n]); if (selN[n]) { lN.bind(els[n]); check(nearv(signature(lU),signature(lN),1e-12), "update:inside"); } else check(lU.size()==0, "update:outside"); }
}

template<class Mk> void domainCase(Mk mk)
{
  for (int rep=0;rep<scale(12,120);++rep) {
    auto grid=mk(); auto gv=grid->leafGridView(); auto sel=selection(gv);
    auto sd=makeSubDomain(gv,sel); checkSubDomain(gv, sd, sel, "sd");
    // further insertions
    auto els=elementList(gv); for (std::size_t i=0;i<els.size();++i) if (!sel[i] && rnd(3)==0) { sd.insertElement(els[i]); sel[i]=1; } checkSubDomain(gv, sd, sel, "grown");
    auto cp=[&]{ auto tmp=makeSubDomain(gv,sel); auto c=tmp; return c; }(); checkSubDomain(gv, cp, sel, "copy");
    auto s2=selection(gv); cp=makeSubDomain(gv,s2); checkSubDomain(gv, cp, s2, "assigned");
    checkInterface(gv);
  }
}
template<class R, bool interpol=true, class Mk, class Fac> void restrictedCase(Mk mk, Fac fac)
{ for (int rep=0;rep<scale(5,50);++rep) { auto grid=mk(); auto gv=grid->leafGridView(); checkRestricted<R,interpol>(gv, selection(gv), fac); } }

template<int n> using FV=Dune::FieldVector<double,n>;
struct IdHolder { std::shared_ptr<Spaces::Yasp<2>> h; std::shared_ptr<Dune::IdentityGrid<Spaces::Yasp<2>>> g; auto leafGridView() const { return g->leafGridView(); } };
inline std::shared_ptr<IdHolder> identity2() { auto r=std::make_shared<IdHolder>(); r->h=Spaces::yasp2(); r->g=std::make_shared<Dune::IdentityGrid<Spaces::Yasp<2>>>(*r->h); return r; }
#if PART == 1
VF_CASE("domain/mixed2") { domainCase([]{ return Spaces::mixed2(); }); }
VF_CASE("domain/pyrhex") { domainCase([]{ return Spaces::pyrhex(); }); }
VF_CASE("domain/prismhex") { domainCase([]{ return Spaces::prismhex(); }); }
VF_CASE("domain/lines") { domainCase([]{ return Spaces::lines(); }); }
VF_CASE("domain/yasp2") { domainCase([]{ return Spaces::yasp2(); }); }
VF_CASE("domain/oned") { domainCase([]{ return Spaces::oned(); }); }
VF_CASE("domain/identity2") { domainCase([]{ return identity2(); }); }
VF_CASE("restricted/lag2/identity2") { restrictedCase<double>([]{ return identity2(); }, lagrange<2>()); }
#elif PART == 2
VF_CASE("restricted/lag2/mixed2") { restrictedCase<double>([]{ return Spaces::mixed2(); }, lagrange<2>()); }
VF_CASE("restricted/lag3/prismhex") { restrictedCase<double>([]{ return Spaces::prismhex(); }, lagrange<2>()); }
VF_CASE("restricted/lagRT4/tris") { restrictedCase<double>([]{ return Spaces::tris(); }, lagrange(4)); }
VF_CASE("restricted/dg1/mixed2") { restrictedCase<double>([]{ return Spaces::mixed2(); }, lagrangeDG<1>()); }
VF_CASE("restricted/rt0/mixed2") { restrictedCase<FV<2>>([]{ return Spaces::mixed2(); }, raviartThomas<0>()); }
#elif PART == 3
VF_CASE("restricted/power-bi/mixed2") { restrictedCase<FV<2>>([]{ return Spaces::mixed2(); }, power<2>(lagrange<2>(), blockedInterleaved())); }
VF_CASE("restricted/power-fl/yasp2") { restrictedCase<FV<3>>([]{ return Spaces::yasp2(); }, power<3>(lagrange<1>(), flatLexicographic())); }
VF_CASE("restricted/comp/mixed2") { restrictedCase<Dune::TupleVector<FV<2>,double>>([]{ return Spaces::mixed2(); }, composite(power<2>(lagrange<2>(), flatInterleaved()), lagrange<1>(), blockedLexicographic())); }
VF_CASE("power-of-restricted") {
  for (int rep=0;rep<scale(6,60);++rep) {
    auto grid=Spaces::mixed2(); auto gv=grid->leafGridView(); auto sel=selection(gv); auto sd=makeSubDomain(gv,sel);
    auto pb=makeBasis(gv, power<2>(restrict(lagrange<2>(), sd), blockedLexicographic())); auto sb=makeBasis(sd.gridView(), lagrange<2>());
    auto lp=pb.localView(); auto ls=sb.localView(); std::size_t n=0; std::uint64_t h=7;
    for (const auto& e : elements(gv)) {
      lp.bind(e); std::vector<std::vector<Idx>> W(2);
      if (sel[n]) { ls.bind(e); for (std::size_t c=0;c<2;++c) for (std::size_t i=0;i<ls.size();++i) { W[c].push_back({c,toIdx(ls.index(i))[0]}); h=mix(h,hidx(W[c].back())); } }
      check(leafIndices(lp)==W, "indices", n); check(lp.size()==2*W[0].size(), "size");
      ++n;
    }
    state(h);
  }
}
#elif PART == 4
VF_CASE("restricted/bdm1/tris") { restrictedCase<FV<2>>([]{ return Spaces::tris(); }, brezziDouglasMarini<1>()); }
VF_CASE("restricted/bdm2/tris") { restrictedCase<FV<2>>([]{ return Spaces::tris(); }, brezziDouglasMarini<2>()); }
VF_CASE("restricted/bdm1/quadsa") { restrictedCase<FV<2>>([]{ return Spaces::quadsa(); }, brezziDouglasMarini<1>()); }
VF_CASE("restricted/rt1/tris") { restrictedCase<FV<2>>([]{ return Spaces::tris(); }, raviartThomas<1>()); }
VF_CASE("restricted/rt1/quadsa") { restrictedCase<FV<2>>([]{ return Spaces::quadsa(); }, raviartThomas<1>()); }
VF_CASE("restricted/nedelec/mixed2a") { restrictedCase<FV<2>>([]{ return Spaces::mixed2a(); }, nedelec<1,1,double>()); }
VF_CASE("restricted/nedelec/tets") { restrictedCase<FV<3>>([]{ return Spaces::tets(); }, nedelec<1,1,double>()); }
VF_CASE("restricted/rt0/hexesa") { restrictedCase<FV<3>>([]{ return Spaces::hexesa(); }, raviartThomas<0>()); }
#elif PART == 5
VF_CASE("restricted/rannacher/mixed2") { restrictedCase<double>([]{ return Spaces::mixed2(); }, rannacherTurek()); }
VF_CASE("restricted/hierarchical2/tris") { restrictedCase<double>([]{ return Spaces::tris(); }, hierarchicalLagrange<2>()); }
VF_CASE("restricted/bubble/tris") { restrictedCase<double>([]{ return Spaces::tris(); }, hierarchicalP1B()); }
VF_CASE("restricted/refined1/tris") { restrictedCase<double>([]{ return Spaces::tris(); }, refinedLagrange<1>()); }
VF_CASE("restricted/dg2/pyrhex") { restrictedCase<double>([]{ return Spaces::pyrhex(); }, lagrangeDG<2>()); }
VF_CASE("restricted/taylorhood/mixed2") { restrictedCase<Dune::TupleVector<FV<2>,double>>([]{ return Spaces::mixed2(); }, taylorHood()); }
#elif PART == 6
VF_CASE("restricted/hermite/tris") { restrictedCase<double,false>([]{ return Spaces::tris(); }, cubicHermite()); }
VF_CASE("restricted/hermite-reduced/tris") { restrictedCase<double,false>([]{ return Spaces::tris(); }, reducedCubicHermite()); }
VF_CASE("restricted/hermite/lines") { restrictedCase<double,false>([]{ return Spaces::lines(); }, cubicHermite()); }
VF_CASE("restricted/morley/tris") { restrictedCase<double,false>([]{ return Spaces::tris(); }, morley()); }
VF_CASE("restricted/argyris/tris") { restrictedCase<double,false>([]{ return Spaces::tris(); }, argyris()); }
#endif
