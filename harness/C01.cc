// C01: concurrent use gives the answers of sequential use, without data races.
// Every case runs in processes of its own, so that the first use of each
// cached object is concurrent; the build uses the thread sanitizer.
#include "engine.hh"
#include <atomic>
#include <cstring>
#include <memory>
#include <thread>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/virtualrefinement.hh>
using namespace vt;
using Dune::GeometryType;
namespace QT = Dune::QuadratureType;

namespace {

enum Kind { Rule, Element, Refine, Multilinear, Cached, Mapped, FiniteElement, numKinds };
const char* kindName(int k) { static const char* n[] = {"rule", "element", "refinement", "multilinear", "cached", "mapped", "finite-element"}; return n[k]; }

struct Request { int kind, dim; unsigned topo; int a, b; uint64_t value; };
inline bool operator==(const Request& x, const Request& y)
{ return x.kind == y.kind && x.dim == y.dim && x.topo == y.topo && x.a == y.a && x.b == y.b && x.value == y.value; }

struct Hash
{
  uint64_t h = 1;
  void add(double v) { uint64_t u; std::memcpy(&u, &v, 8); h = mix(h ^ u); }
  void add(float v) { add(double(v)); }
  void add(int v) { h = mix(h ^ uint64_t(int64_t(v))); }
  void add(std::size_t v) { h = mix(h ^ uint64_t(v)); }
  void add(unsigned v) { add(std::size_t(v)); }
  template<class F, int n> void add(const Dune::FieldVector<F,n>& v) { for (auto& x : v) add(x); }
  template<class M> void matrix(const M& m, int r, int c) { for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) add(double(m[i][j])); }
};

QT::Enum fam(int q)
{
  static const QT::Enum e[] = {QT::GaussLegendre, QT::GaussJacobi_1_0, QT::GaussJacobi_2_0, QT::GaussJacobi_n_0, QT::GaussLobatto, QT::GaussRadauLeft, QT::GaussRadauRight};
  return e[q % 7];
}

template<class F, int dim> void askRule(const Request& r, Hash& h, const void*& object)
{
  auto& q = Dune::QuadratureRules<F,dim>::rule(GeometryType(r.topo, dim), r.b, fam(r.a));
  object = &q;
  h.add(q.size()); h.add(q.order()); h.add(int(q.type().id() >> 1));
  for (auto& p : q) { h.add(p.position()); h.add(p.weight()); }
}
template<class F, int dim> void askElement(const Request& r, Hash& h)
{
  auto e = Dune::ReferenceElements<F,dim>::general(GeometryType(r.topo, dim));
  h.add(e.volume());
  for (int c = 0; c <= dim; ++c) {
    h.add(e.size(c));
    for (int i = 0; i < e.size(c); ++i) {
      h.add(e.position(i, c)); h.add(int(e.type(i, c).id() >> 1));
      for (int cc = c; cc <= dim; ++cc) for (auto n : e.subEntities(i, c, cc)) { h.add(n); h.add(int(e.subEntities(i, c, cc).contains(n))); }
    }
  }
  for (int i = 0; i < e.size(1); ++i) h.add(e.integrationOuterNormal(i));
  auto g = e.template geometry<1>(0);
  h.add(g.center()); h.add(g.volume());
}
template<int dim> void askRefine(const Request& r, Hash& h)
{
  auto& ref = Dune::buildRefinement<dim,double>(GeometryType(r.topo, dim), GeometryType(unsigned(r.a), dim));
  auto tag = Dune::refinementIntervals(r.b);
  h.add(ref.nVertices(tag)); h.add(ref.nElements(tag));
  for (auto it = ref.vBegin(tag), e = ref.vEnd(tag); it != e; ++it) { h.add(it.index()); h.add(it.coords()); }
  for (auto it = ref.eBegin(tag), e = ref.eEnd(tag); it != e; ++it) { h.add(it.index()); h.add(it.coords()); for (auto v : it.vertexIndices()) h.add(int(v)); }
}

struct Values { uint64_t s; double next() { s = mix(s); return double(s >> 11) / double(1ull << 53); } };

template<class G, int dim> void askGeometry(const G& g, Values& v, Hash& h, bool volume = true)
{
  h.add(g.corners()); h.add(int(g.affine()));
  for (int i = 0; i < g.corners(); ++i) h.add(g.corner(i));
  h.add(g.center());
  if (volume) h.add(g.volume());
  for (int k = 0; k < 4; ++k) {
    Dune::FieldVector<double,dim> x; for (auto& c : x) c = v.next()/dim;
    auto y = g.global(x);
    h.add(y); h.add(g.integrationElement(x)); h.matrix(g.jacobianTransposed(x), dim, dim); h.matrix(g.jacobianInverseTransposed(x), dim, dim);
    h.add(g.local(y));
  }
}
template<int dim> std::vector<Dune::FieldVector<double,dim>> corners(const Request& r, Values& v)
{
  auto e = Dune::ReferenceElements<double,dim>::general(GeometryType(r.topo, dim));
  std::vector<Dune::FieldVector<double,dim>> c(e.size(dim));
  for (int i = 0; i < e.size(dim); ++i) { c[i] = e.position(i, dim); for (auto& x : c[i]) x = 2*x + (r.a ? 0.1*v.next() : 0.0); }
  return c;
}
template<int dim> struct Bump
{
  double a;
  Dune::FieldVector<double,dim> operator()(const Dune::FieldVector<double,dim>& x) const { auto y = x; y[0] += a*x[dim-1]*x[dim-1]; return y; }
  friend auto derivative(const Bump& f)
  {
    return [a = f.a](const Dune::FieldVector<double,dim>& x) { Dune::FieldMatrix<double,dim,dim> J(0); for (int i = 0; i < dim; ++i) J[i][i] = 1; J[0][dim-1] += 2*a*x[dim-1]; return J; };
  }
};
// first order element on a simplex
template<int dim> struct P1
{
  struct Basis
  {
    struct Traits { using DomainFieldType = double; static constexpr int dimDomain = dim; using DomainType = Dune::FieldVector<double,dim>; using RangeFieldType = double;
                    using RangeType = Dune::FieldVector<double,1>; using JacobianType = Dune::FieldMatrix<double,1,dim>; };
    unsigned size() const { return dim+1; }
    unsigned order() const { return 2; }        // no short cut for affine maps
    void evaluateFunction(const Dune::FieldVector<double,dim>& x, std::vector<Dune::FieldVector<double,1>>& o) const
    { o.resize(dim+1); o[0] = 1; for (int i = 0; i < dim; ++i) { o[0] -= x[i]; o[i+1] = x[i]; } }
    void evaluateJacobian(const Dune::FieldVector<double,dim>&, std::vector<Dune::FieldMatrix<double,1,dim>>& o) const
    { o.resize(dim+1); for (int i = 0; i < dim; ++i) { o[0][0][i] = -1; for (int k = 0; k < dim; ++k) o[i+1][0][k] = i == k; } }
  };
  struct Interpolation
  {
    template<class F, class C> void interpolate(const F& f, std::vector<C>& o) const
    { o.resize(dim+1); Dune::FieldVector<double,dim> x(0); o[0] = f(x); for (int i = 0; i < dim; ++i) { x = 0; x[i] = 1; o[i+1] = f(x); } }
  };
  struct Traits { using LocalBasisType = Basis; using LocalInterpolationType = Interpolation; };
  Basis b; Interpolation ip;
  const Basis& localBasis() const { return b; }
  const Interpolation& localInterpolation() const { return ip; }
  unsigned size() const { return dim+1; }
};

template<int dim> void perform(const Request& r, Hash& h, const void*& object)
{
  Values v{r.value};
  GeometryType gt(r.topo, dim);
  switch (r.kind) {
    case Rule : if (r.value % 2) askRule<float,dim>(r, h, object); else askRule<double,dim>(r, h, object); break;
    case Element : if (r.value % 2) askElement<float,dim>(r, h); else askElement<double,dim>(r, h); break;
    case Refine : if constexpr (dim <= 3) askRefine<dim>(r, h); break;
    case Multilinear : if constexpr (dim <= 3) { auto c = corners<dim>(r, v); askGeometry<Dune::MultiLinearGeometry<double,dim,dim>,dim>({gt, c}, v, h); } break;
    case Cached : if constexpr (dim <= 3) { auto c = corners<dim>(r, v); askGeometry<Dune::CachedMultiLinearGeometry<double,dim,dim>,dim>({gt, c}, v, h); } break;
    case Mapped : if constexpr (dim <= 3) {
      auto e = Dune::ReferenceElements<double,dim>::general(gt);
      auto base = e.template geometry<0>(0);
      Dune::MappedGeometry<Bump<dim>, decltype(base)> g(Bump<dim>{0.05*v.next()}, base);
      askGeometry<decltype(g),dim>(g, v, h); } break;
    case FiniteElement : if constexpr (dim <= 3) {
      Request q = r; q.topo = 0; q.a = 1;
      auto c = corners<dim>(q, v);
      Dune::LocalFiniteElementGeometry<P1<dim>,dim> g(Dune::ReferenceElements<double,dim>::simplex(), P1<dim>{}, c);
      askGeometry<decltype(g),dim>(g, v, h); } break;
  }
}
uint64_t fulfil(const Request& r, const void*& object)
{
  Hash h; object = nullptr;
  try {
    switch (r.dim) { case 1 : perform<1>(r, h, object); break; case 2 : perform<2>(r, h, object); break; case 3 : perform<3>(r, h, object); break; default : perform<4>(r, h, object); }
  }
  catch (Dune::QuadratureOrderOutOfRange&) { h.add(12345); }
  catch (Dune::Exception&) { h.add(54321); }
  return h.h;
}

Request genRequest(Source& s)
{
  Request r{};
  static const int kinds[] = {Rule, Rule, Rule, Element, Refine, Multilinear, Cached, Mapped, FiniteElement, Rule};
  r.kind = kinds[s.choice(10)];
  r.dim = s.range(1, r.kind == Rule || r.kind == Element ? 4 : 3);
  r.topo = unsigned(s.choice(1u << r.dim)) & ~1u;
  r.value = s.choice(64);
  switch (r.kind) {
    case Rule : r.a = int(s.choice(7));
      // one order in eight is out of range
      r.b = s.choice(8) == 7 ? 500 : int(s.choice(r.dim < 3 ? 30 : r.dim == 3 ? 9 : 4));
      break;
    case Refine : {
      // supported pairs: same shape, into simplices
      r.a = int(s.choice(2) ? r.topo : 0u); r.b = s.range(1, 3); break; }
    default : r.a = int(s.choice(2));
  }
  return r;
}
std::string text(const Request& r)
{
  std::ostringstream o; o << kindName(r.kind) << "(d" << r.dim << " t" << r.topo << " " << r.a << " " << r.b << " " << r.value << ")"; return o.str();
}

constexpr int maxThreads = 8, maxRequests = 8;
struct Shared { uint64_t result[maxThreads][maxRequests]; const void* object[maxThreads][maxRequests]; };

// runs f in a child; returns exit status and what it wrote to stderr
template<class F> int inChild(F&& f, std::string& err)
{
  int pfd[2]; if (pipe(pfd) != 0) std::abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]); dup2(pfd[1], 2); close(pfd[1]);
    alarm(200);
    f();
    exit(0);             // lets the sanitizer set the exit status
  }
  close(pfd[1]);
  char buf[4096]; ssize_t n;
  while ((n = read(pfd[0], buf, sizeof buf)) > 0) if (err.size() < 100000) err.append(buf, n);
  close(pfd[0]);
  int st; waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}

} // namespace

PROPERTY_PART(C01, threads, "at least two threads make the same cached request as their first one")
{
  int nt = s.range(2, maxThreads);
  int np = s.range(1, 5);
  std::vector<Request> pool; for (int i = 0; i < np; ++i) pool.push_back(genRequest(s));
  bool together = s.choice(2) == 0;
  std::vector<std::vector<Request>> todo(nt);
  std::vector<int> skew(nt);
  for (int t = 0; t < nt; ++t) {
    int n = s.range(1, maxRequests);
    for (int k = 0; k < n; ++k) todo[t].push_back(pool[together && k == 0 ? 0 : s.choice(np)]);
    skew[t] = s.choice(3) == 0 ? int(s.choice(2000)) : 0;
  }
  for (auto& r : pool) { c.desc << text(r) << " "; c.cls(kindName(r.kind)); }
  c.desc << "in " << nt << " threads" << (together ? ", first request together" : "");
  int sameFirst = 0;
  for (int t = 0; t < nt; ++t) for (int u = 0; u < t; ++u) if (todo[t][0] == todo[u][0] && todo[t][0].kind <= Refine) ++sameFirst;
  c.nontrivial = sameFirst > 0;
  c.cls(nt < 4 ? "2-3 threads" : "4-8 threads");

  static Shared* seq = nullptr; static Shared* con = nullptr;
  if (!seq) {
    auto m = [] { void* p = mmap(nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) std::abort(); return static_cast<Shared*>(p); };
    seq = m(); con = m();
  }
  std::string err;
  std::memset(seq, 0, sizeof(Shared));
  int rc = inChild([&] { for (int t = 0; t < nt; ++t) for (size_t k = 0; k < todo[t].size(); ++k) seq->result[t][k] = fulfil(todo[t][k], seq->object[t][k]); }, err);
  c.check(rc == 0, "the sequential run ended with status ", rc, ": ", err.substr(0, 400));

  // a race need not show in every run: repeat when replaying
  int repeat = s.journal ? 1 : 8;
  for (int rep = 0; rep < repeat; ++rep) {
    std::memset(con, 0, sizeof(Shared));
    err.clear();
    rc = inChild([&] {
      std::atomic<int> ready{0}; std::atomic<bool> go{false};
      std::vector<std::thread> th;
      for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed);
        // relaxed: the start signal orders nothing the sanitizer could take for synchronisation between the requests
        while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
        for (volatile int i = 0; i < skew[t]; i = i + 1) {}
        for (size_t k = 0; k < todo[t].size(); ++k) con->result[t][k] = fulfil(todo[t][k], con->object[t][k]);
      });
      while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      go.store(true, std::memory_order_relaxed);
      for (auto& t : th) t.join();
    }, err);
    if (rc != 0) {
      std::string sum; auto p = err.find("SUMMARY:"); if (p != std::string::npos) sum = err.substr(p, err.find('\n', p) - p);
      c.check(false, "the concurrent run ended with status ", rc, " ", sum.empty() ? err.substr(0, 300) : sum);
    }
    for (int t = 0; t < nt; ++t) for (size_t k = 0; k < todo[t].size(); ++k) {
      c.check(con->result[t][k] == seq->result[t][k], "thread ", t, " request ", k, " ", text(todo[t][k]), " differs from the sequential answer");
      for (int u = 0; u <= t; ++u) for (size_t l = 0; l < todo[u].size(); ++l)
        if (todo[u][l] == todo[t][k]) c.check(con->object[u][l] == con->object[t][k], "threads ", u, " and ", t, " got different objects for ", text(todo[t][k]));
    }
  }
}
