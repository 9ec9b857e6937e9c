// P03: a basis that was updated/copied/assigned is indistinguishable from a fresh
// basis on the same grid view; copies are independent.
#include "spaces.hh"
#include <optional>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
template<class Basis> void compare(const Basis& b, const Basis& fresh, const std::string& key)
{
  VF::check(&b.gridView().indexSet()==&fresh.gridView().indexSet(), key+":gridView-indexset");
  VF::check(b.gridView().size(0)==fresh.gridView().size(0), key+":gridView", b.gridView().size(0), " vs ", fresh.gridView().size(0));
  VF::check(&b.preBasis().gridView().indexSet()==&fresh.preBasis().gridView().indexSet(), key+":prebasis-gridView");
  VF::check(b.dimension()==fresh.dimension(), key+":dimension", b.dimension(), " vs ", fresh.dimension());
  VF::check(b.size()==fresh.size(), key+":size", b.size(), " vs ", fresh.size());
  auto lv = b.localView(); auto lf = fresh.localView();
  VF::check(lv.maxSize()==lf.maxSize(), key+":maxSize", lv.maxSize(), " vs ", lf.maxSize());
  std::uint64_t h=VF::hstr(key);
  for (const auto& e : elements(fresh.gridView())) {
    lv.bind(e); lf.bind(e);
    auto a = VF::signature(lv), c = VF::signature(lf);
    VF::check(a==c, key+":signature");
    for (std::size_t i=0;i<lf.size() && i<lv.size();++i) {
      auto mi=VF::toIdx(lf.index(i)); VF::Idx p;
      for (auto d : mi) { VF::check(VF::sizeAt(b,p)==VF::sizeAt(fresh,p), key+":prefix-size", VF::str(p)); p.push_back(d); }
    }
    for (auto x : c) h=VF::hdbl(h,x);
    VF::obs("elements-compared");
  }
  VF::state(h);
}
template<class Mk, class Fac> void body(const char* name, Mk mk, Fac factory, Spaces::Opt opt)
{
  using Dune::Functions::BasisFactory::makeBasis;
  int rounds = VF::scale(3,25);
  for (int r=0; r<rounds; ++r) {
    int n = 2+VF::rnd(3);
    std::vector<decltype(mk())> grids; for (int i=0;i<n;++i) grids.push_back(mk());
    using Basis = decltype(makeBasis(grids[0]->leafGridView(), factory));
    std::vector<std::unique_ptr<Basis>> fresh;
    for (auto& g : grids) fresh.push_back(std::make_unique<Basis>(makeBasis(g->leafGridView(), factory)));
    auto b = std::make_unique<Basis>(makeBasis(grids[0]->leafGridView(), factory));
    // chain of updates
    int cur=0;
    for (int t=0; t<4; ++t) {
      int nxt = VF::rnd(n);
      b->update(grids[nxt]->leafGridView());
      compare(*b, *fresh[nxt], "update");
      if constexpr (std::is_copy_constructible_v<Basis>) {
        auto c = std::make_unique<Basis>(*b);
        compare(*c, *fresh[nxt], "copy");
        int other = VF::rnd(n);
        c->update(grids[other]->leafGridView());
        compare(*b, *fresh[nxt], "original-after-copy-updated");
        compare(*c, *fresh[other], "copy-after-own-update");
        b = std::move(c); nxt = other;     // destroys the original
        compare(*b, *fresh[nxt], "copy-after-original-destroyed");
      }
      if constexpr (std::is_move_constructible_v<Basis>) {
        auto c = std::make_unique<Basis>(std::move(*b)); b = std::move(c);
        compare(*b, *fresh[nxt], "move");
      }
      if constexpr (std::is_copy_assignable_v<Basis>) {
        int o=VF::rnd(n); Basis x = *fresh[o]; x = *b;
        compare(x, *fresh[nxt], "copy-assign");
        auto lv = x.localView();
        VF::check(&lv.globalBasis()==&x, "assigned-basis-view");
      }
      cur = nxt;
    }
    VF::sample(VF::cat(name, ": ", n, " grids, dimensions ", fresh[0]->dimension(), " ", fresh[1]->dimension()));
  }
}
SPACES_MAIN
