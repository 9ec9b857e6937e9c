// P22: threads sharing const objects.  No synchronisation between the worker threads other than
// relaxed atomics (which create no happens-before edges and hence hide no race from TSan).
#pragma once
#include "util.hh"
#include <atomic>
#include <thread>
#include <sched.h>
#include <unistd.h>
namespace VF {
// one worker's private log of results and its ticket sequence
struct Worker {
  std::mt19937_64 rng; std::vector<std::uint32_t> tickets; std::uint64_t evals=0;
  std::vector<std::pair<std::size_t,std::vector<double>>> log; // (work item, result)
  std::string error;
};
inline void perturb(Worker& w)
{ switch (w.rng()%8) { case 0: ::sched_yield(); break; case 1: { struct timespec t{0,long(w.rng()%20000)}; ::nanosleep(&t,nullptr); } break; default: break; } }

// run items [0,n) in every thread in a private random order; f(item) -> flat values, called concurrently.
// Returns after comparing every result bitwise with the sequential reference computed afterwards
// by ref(item) on objects that the threads never touched.
template<class F, class R> void concurrently(const std::string& key, std::size_t n, int threads, F&& makeTask, R&& ref)
{
  std::vector<Worker> ws(threads); std::atomic<std::uint32_t> ticket{0}; std::atomic<int> ready{0};
  for (auto& w : ws) w.rng.seed(rng()());
  std::vector<std::thread> ts;
  for (auto& w : ws) ts.emplace_back([&,pw=&w] {
    auto& w=*pw;
    ready.fetch_add(1,std::memory_order_relaxed);
    while (ready.load(std::memory_order_relaxed)<threads) {}
    try {
      auto task=makeTask();   // creates the thread's own local objects from the shared ones
      std::vector<std::size_t> order(n); for (std::size_t i=0;i<n;++i) order[i]=i; std::shuffle(order.begin(),order.end(),w.rng);
      for (auto i : order) { perturb(w); w.tickets.push_back(ticket.fetch_add(1,std::memory_order_relaxed)); w.log.emplace_back(i,task(i)); ++w.evals; }
    } catch (std::exception& e) { w.error=e.what(); } catch (...) { w.error="unknown"; }
  });
  for (auto& t : ts) t.join();
  std::vector<std::vector<double>> expected(n); { auto task=ref(); for (std::size_t i=0;i<n;++i) expected[i]=task(i); }
  std::vector<std::pair<std::uint32_t,int>> inter;
  for (int t=0;t<threads;++t) {
    auto& w=ws[t]; check(w.error.empty(), key+":exception", w.error); check(w.log.size()==n || !w.error.empty(), key+":lost-item");
    for (auto& [i,v] : w.log) {
      bool same=v.size()==expected[i].size(); for (std::size_t k=0;same && k<v.size();++k) same=v[k]==expected[i][k] || (v[k]!=v[k] && expected[i][k]!=expected[i][k]);
      check(same, key+":result", "thread ", t, " item ", i, ": ", str(v), " sequential ", str(expected[i]));
    }
    obs("thread_items",w.evals); for (auto k : w.tickets) inter.push_back({k,t});
  }
  std::sort(inter.begin(),inter.end()); std::uint64_t h=hstr(key); int switches=0;
  for (std::size_t i=0;i<inter.size();++i) { h=mix(h,inter[i].second); if (i && inter[i].second!=inter[i-1].second) ++switches; }
  obs("context_switches",switches); obs("concurrent_runs"); state(h);
  sample(cat(key, ": ", threads, " threads, ", n, " items each, ", switches, " observed switches"));
}
} // namespace VF
