// Monitor runtime shared by all harness executables.
#pragma once
#include <config.h>
#include <algorithm>
#include <cstdio>
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <exception>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <dune/common/exceptions.hh>

namespace VF {

struct Case { std::string name; std::function<void()> run; bool thoroughOnly; };
inline std::vector<Case>& registry() { static std::vector<Case> r; return r; }
struct Registrar { Registrar(const char* n, std::function<void()> f, bool th=false) { registry().push_back({n, std::move(f), th}); } };

struct State {
  FILE* out = stdout;
  std::uint64_t seed = 1;
  bool thorough = false;
  std::string caseName;
  std::mt19937_64 rng;
  std::map<std::string, std::uint64_t> obs;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string,int> failures;
  std::string context; // extra context for keys
  std::mutex mtx;
};
inline State& S() { static State s; return s; }

inline std::string jesc(const std::string& s)
{
  std::string r;
  for (unsigned char c : s) {
    if (c=='"' || c=='\\') { r+='\\'; r+=char(c); }
    else if (c=='\n') r+="\\n";
    else if (c<0x20) { char b[8]; std::snprintf(b,8,"\\u%04x",c); r+=b; }
    else r+=char(c);
  }
  return r;
}

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h<<6) + (h>>2); return h*0xff51afd7ed558ccdull; }
inline std::uint64_t hstr(const std::string& s) { std::uint64_t h=1469598103934665603ull; for (unsigned char c : s) { h^=c; h*=1099511628211ull; } return h; }

inline void obs(const std::string& kind, std::uint64_t n=1) { S().obs[kind]+=n; }
// record a distinct observed state
inline void state(std::uint64_t h) { if (S().distinct.size()<2000000) S().distinct.insert(mix(h, hstr(S().caseName))); }
inline void sample(const std::string& s) { if (S().samples.size()<3) S().samples.push_back(s); }

inline void fail(const std::string& key, const std::string& detail)
{
  auto k = S().caseName + ":" + key;
  if (S().failures[k]++ < 3) {
    std::fprintf(S().out, "{\"violation\":\"%s\",\"detail\":\"%s\"}\n", jesc(k).c_str(), jesc(detail).c_str());
    std::fflush(S().out);
  }
}

template<class... A> std::string cat(const A&... a) { std::ostringstream o; o.precision(15); ((o<<a),...); return o.str(); }

// the oracle step: every call is one evaluation
template<class... A>
inline bool check(bool ok, const std::string& key, const A&... detail)
{
  S().obs["checks"]++;
  if (!ok) fail(key, cat(detail...));
  return ok;
}

inline bool near(double a, double b, double tol=1e-8)
{ return std::abs(a-b) <= tol*(1.0+std::max(std::abs(a),std::abs(b))); }

template<class F> bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }

inline std::mt19937_64& rng() { return S().rng; }
inline std::uint64_t rnd(std::uint64_t n) { return n ? S().rng()%n : 0; }
inline double urnd(double a=-1, double b=1) { return a + (b-a)*double(S().rng()%1000003)/1000003.0; }
inline int scale(int quick, int thorough) { return S().thorough ? thorough : quick; }

inline void runCase(const Case& c)
{
  auto& s = S();
  s.caseName = c.name; s.obs.clear(); s.distinct.clear(); s.samples.clear(); s.failures.clear();
  s.rng.seed(s.seed*0x9E3779B97F4A7C15ull ^ hstr(c.name));
  std::fprintf(s.out, "{\"start\":\"%s\"}\n", jesc(c.name).c_str()); std::fflush(s.out);
  auto t0 = std::clock();
  try { c.run(); }
  catch (Dune::Exception& e) { fail("unexpected-exception", e.what()); }
  catch (std::exception& e) { fail("unexpected-exception", e.what()); }
  catch (...) { fail("unexpected-exception", "unknown"); }
  s.obs["cpu_ms"] = (std::clock()-t0)*1000/CLOCKS_PER_SEC;
  std::fprintf(s.out, "{\"end\":\"%s\",\"distinct\":%zu,\"obs\":{", jesc(c.name).c_str(), s.distinct.size());
  bool first=true;
  for (auto& [k,v] : s.obs) { std::fprintf(s.out, "%s\"%s\":%llu", first?"":",", jesc(k).c_str(), (unsigned long long)v); first=false; }
  std::fprintf(s.out, "},\"samples\":[");
  first=true;
  for (auto& x : s.samples) { std::fprintf(s.out, "%s\"%s\"", first?"":",", jesc(x).c_str()); first=false; }
  std::fprintf(s.out, "]}\n"); std::fflush(s.out);
}

inline int main_(int argc, char** argv)
{
  auto& s = S();
  std::vector<std::string> only; bool list=false;
  for (int i=1;i<argc;++i) {
    std::string a=argv[i];
    if (a=="--list") list=true;
    else if (a=="--thorough") s.thorough=true;
    else if (a=="--seed") s.seed=std::strtoull(argv[++i],nullptr,10);
    else if (a=="--out") { s.out=std::fopen(argv[++i],"a"); if(!s.out) { std::perror("out"); return 3; } }
    else if (a=="--case") only.push_back(argv[++i]);
    else { std::cerr<<"bad arg "<<a<<"\n"; return 3; }
  }
  for (auto& c : registry()) {
    if (c.thoroughOnly && !s.thorough) continue;
    if (list) { std::printf("%s\n", c.name.c_str()); continue; }
    if (!only.empty() && std::find(only.begin(), only.end(), c.name)==only.end()) continue;
    runCase(c);
  }
  if (s.out!=stdout) std::fclose(s.out);
  return 0;
}
} // namespace VF

#define VF_CAT2(a,b) a##b
#define VF_CAT(a,b) VF_CAT2(a,b)
#define VF_CASE(name) static void VF_CAT(vf_case_,__LINE__)(); static VF::Registrar VF_CAT(vf_reg_,__LINE__)(name, VF_CAT(vf_case_,__LINE__)); static void VF_CAT(vf_case_,__LINE__)()
#define VF_CASE_THOROUGH(name) static void VF_CAT(vf_case_,__LINE__)(); static VF::Registrar VF_CAT(vf_reg_,__LINE__)(name, VF_CAT(vf_case_,__LINE__), true); static void VF_CAT(vf_case_,__LINE__)()
#ifndef VF_NO_MAIN
int main(int argc, char** argv) { return VF::main_(argc, argv); }
#endif
