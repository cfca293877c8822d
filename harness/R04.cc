// R04
#include "refcommon.hh"
static constexpr int MAXDIM = CT_MAX(6,4);

CT_PART(R04, inside, "dimension >= 2 and the point is not a corner or barycentre")
{
  static const auto& all = shapes(0, MAXDIM);
  auto [kd, kt] = all[s.stratum(all.size())];
  const int k_dim = kd; const unsigned k_topo = kt;
  withDim<0,MAXDIM>(k_dim, [&](auto dimc) {
    constexpr int dim = decltype(dimc)::value;
    GeometryType gt = label(s, dim, k_topo);
    auto re = Dune::referenceElement<ct,dim>(gt);
    const auto& m = oracle::shape(dim, k_topo);
    const LD e = eps<ct>();
    c.desc << shapeName(dim, k_topo) << " code " << gt.id() << " " << ctName<ct>();
    int rounds = 1 + s.choice(6);
    for (int r = 0; r < rounds; ++r) {
      Vec x = insidePoint(s, m);
      if (dim > 0)
        switch (s.choice(5)) {
          case 0 : break;
          case 1 : case 2 : {  // push across a facet by a generated distance
            const auto& p = m.planes[s.choice(m.planes.size())];
            LD v = -p.b, n2 = 0; for (int i = 0; i < dim; ++i) { v += p.n[i]*x[i]; n2 += p.n[i]*p.n[i]; }
            static const LD steps[] = {0, 1e-3L, 1, 1e4L, 1e6L, 1e-1L, 1e8L};
            int sk = s.choice(10);
            LD t = sk < 7 ? steps[sk]*e : sk == 7 ? 1e-3L : sk == 8 ? LD(s.real(0, 1)) : LD(std::pow(10.0, s.range(-6, 30)));
            if (s.oneIn(3)) t = -t;
            for (int i = 0; i < dim; ++i) x[i] += (t - v)/n2*p.n[i];
            break; }
          case 3 : for (auto& xi : x) xi = s.sreal(2); break;      // anywhere
          default : { int a = s.choice(dim); x[a] = s.flag() ? LD(s.real(1, 3)) : -LD(s.real(0, 2)); if (s.oneIn(4)) x[a] *= std::pow(10.0L, s.range(0, 30)); }
        }
      auto xf = toFV<ct,dim>(x);
      Vec xr = toVec(xf);                                          // judge the rounded point
      LD worst = -1e4000L, big = 1;
      for (auto& p : m.planes) { LD v = -p.b; for (int i = 0; i < dim; ++i) v += p.n[i]*xr[i]; worst = std::max(worst, v); }
      for (auto xi : xr) big = std::max(big, std::abs(xi));
      c.desc << " " << str(xr);
      bool got = re.checkInside(xf);
      if (dim == 0 || worst <= 4*dim*e) { c.check(got, "inside point reported outside, plane slack ", worst, " at ", str(xr)); c.cls("inside"); }
      else if (worst > 1024*e*std::max<LD>(1, 1)) { c.check(!got, "outside point reported inside, plane violation ", worst, " at ", str(xr)); c.cls(worst < 1e-3L ? "just outside" : "outside"); if (dim >= 2) c.nontrivial = true; }
      else c.cls("rounding band");
      if (worst < -1e-3L && dim >= 2) c.nontrivial = true;
    }
  });
}

