// P02: value semantics and binding protocol of local views, as random histories
// of operations over a pool of views compared with a model (slot -> element).
#include "spaces.hh"
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
template<class Mk, class Fac> void body(const char*, Mk mk, Fac factory, Spaces::Opt opt)
{
  int grids = VF::scale(3,20), histories = VF::scale(4,20), steps = VF::scale(40,120);
  for (int g=0; g<grids; ++g) {
    auto grid = mk();
    auto basis = Dune::Functions::BasisFactory::makeBasis(grid->leafGridView(), factory);
    using Basis = decltype(basis);
    using LV = typename Basis::LocalView;
    using Element = typename Basis::GridView::template Codim<0>::Entity;
    std::vector<Element> els;
    for (const auto& e : elements(basis.gridView())) els.push_back(e);
    // reference: a fresh view per element
    std::vector<std::vector<double>> ref;
    for (auto& e : els) { auto lv = basis.localView(); lv.bind(e); ref.push_back(VF::signature(lv)); }
    for (int h=0; h<histories; ++h) {
      std::vector<std::unique_ptr<LV>> pool;
      std::vector<int> model; // -1 unbound, -2 moved from, -3 never bound
      std::string trace;
      auto validate = [&](int s, const char* op) {
        if (model[s]==-2) return;
        auto& lv = *pool[s];
        std::string key = std::string("after-")+op;
        VF::obs(op);
        VF::check(lv.bound()==(model[s]>=0), key+":bound", trace);
        VF::check(&lv.globalBasis()==&basis, key+":globalBasis");
        if (model[s]<0) {
          // unbind() is documented as a hint only: sizes of a no longer bound view are
          // unspecified, those of a view that was never bound are zero.
          if (model[s]==-3) VF::check(lv.size()==0, key+":unbound-size", lv.size(), " ", trace);
        }
        else {
          VF::check(lv.element()==els[model[s]], key+":element", trace);
          auto sig = VF::signature(lv);
          VF::check(sig==ref[model[s]], key+":signature", "view differs from a fresh view on element ", model[s], " trace ", trace);
          VF::forEachLeaf(lv.tree(), [&](const auto& node, const auto&) {
            if (node.size()) VF::check(node.element()==els[model[s]], key+":node-element", trace); });
        }
        VF::state(VF::mix(VF::hstr(op), VF::hstr(trace)));
      };
      pool.push_back(std::make_unique<LV>(basis.localView())); model.push_back(-3);
      for (int t=0; t<steps; ++t) {
        int s = VF::rnd(pool.size());
        int d = VF::rnd(pool.size());
        int op = VF::rnd(9);
        int e = VF::rnd(els.size());
        auto log = [&](const char* n) { trace += VF::cat(n,"(",s,",",d,",",e,") "); if (trace.size()>600) trace.erase(0,200); };
        switch (op) {
        case 0: case 1: case 2: {
          if (model[s]==-2) break;
          // bind to a temporary copy of the entity: the view has to keep its own
          log("bind"); { Element tmp = els[e]; pool[s]->bind(tmp); } model[s]=e; validate(s,"bind"); break; }
        case 3: if (model[s]==-2) break; log("unbind"); pool[s]->unbind(); model[s]=-1; validate(s,"unbind"); break;
        case 4: if (model[s]==-2 || pool.size()>5) break; log("copy"); pool.push_back(std::make_unique<LV>(*pool[s])); model.push_back(model[s]); validate(pool.size()-1,"copy"); validate(s,"copied-from"); break;
        case 5: if (model[s]==-2 || pool.size()>5) break; log("move"); pool.push_back(std::make_unique<LV>(std::move(*pool[s]))); model.push_back(model[s]); model[s]=-2; validate(pool.size()-1,"move"); break;
        case 6: if (model[s]==-2) break;
          if constexpr (std::is_copy_assignable_v<LV>) if (opt.assignable) { log("assign"); *pool[d] = *pool[s]; model[d]=model[s]; validate(d,"assign"); validate(s,"assigned-from"); } break;
        case 7: if (model[s]==-2 || s==d) break;
          if constexpr (std::is_move_assignable_v<LV>) if (opt.assignable) { log("massign"); *pool[d] = std::move(*pool[s]); model[d]=model[s]; model[s]=-2; validate(d,"move-assign"); } break;
        case 8: if (pool.size()<2) break; log("destroy"); pool.erase(pool.begin()+s); model.erase(model.begin()+s); break;
        }
        if (!pool.empty()) { int k=VF::rnd(pool.size()); validate(k,"other-op"); }
        bool alive=false; for (auto m : model) alive = alive || m!=-2;
        if (!alive) { pool.push_back(std::make_unique<LV>(basis.localView())); model.push_back(-3); }
      }
      VF::sample(trace);
    }
  }
}
SPACES_MAIN
