// R01
#include "refcommon.hh"
static constexpr int MAXDIM = CT_MAX(6,4);

CT_PART(R01, numbering, "dimension >= 2; the complete incidence table of one shape is compared")
{
  static const auto& all = shapes(0, MAXDIM);
  auto [kd, kt] = all[s.stratum(all.size())];
  const int k_dim = kd; const unsigned k_topo = kt;
  c.desc << "numbering of " << shapeName(k_dim, k_topo);
  withDim<0,MAXDIM>(k_dim, [&](auto dimc) {
    constexpr int dim = decltype(dimc)::value;
    GeometryType gt = label(s, dim, k_topo);
    c.desc << " code " << gt.id() << " " << ctName<ct>(); c.mixKey(gt.id()*8+dim);
    auto re = Dune::referenceElement<ct,dim>(gt);
    const auto& m = oracle::shape(dim, k_topo);
    c.check(re.type() == gt, "type() is ", re.type());
    // vertex set -> number, per codim
    std::vector<std::map<std::vector<int>,int>> lookup(dim+1);
    for (int cd = 0; cd <= dim; ++cd) {
      c.equal(re.size(cd), int(m.faces[cd].size()), "number of sub-entities of codim ", cd);
      for (size_t i = 0; i < m.faces[cd].size(); ++i) { auto v = m.faces[cd][i].verts; std::sort(v.begin(), v.end()); lookup[cd][v] = i; }
    }
    for (int cd = 0; cd <= dim; ++cd)
      for (size_t i = 0; i < m.faces[cd].size(); ++i) {
        const auto& f = m.faces[cd][i];
        c.check(re.type(i, cd) == faceType(f), "type of (", i, ",", cd, ") is ", re.type(i,cd), " expected ", faceType(f));
        const auto& fm = oracle::shape(f.dim, f.topo);
        for (int cc = 0; cc < cd; ++cc) {
          // sub-entities of smaller codimension are not defined by the documentation
        }
        for (int cc = cd; cc <= dim; ++cc) {
          const auto& ff = fm.faces[cc-cd];
          c.equal(re.size(i, cd, cc), int(ff.size()), "size(", i, ",", cd, ",", cc, ")");
          std::set<int> members;
          auto range = re.subEntities(i, cd, cc);
          c.equal(int(range.size()), int(ff.size()), "size of range(", i, ",", cd, ",", cc, ")");
          auto it = range.begin();
          for (size_t ii = 0; ii < ff.size(); ++ii, ++it) {
            std::vector<int> v; for (int x : ff[ii].verts) v.push_back(f.verts[x]);
            std::sort(v.begin(), v.end());
            int want = lookup[cc].at(v);
            c.equal(re.subEntity(i, cd, ii, cc), want, "subEntity(", i, ",", cd, ",", ii, ",", cc, ")");
            c.check(it != range.end(), "range too short");
            c.equal(int(*it), want, "range entry ", ii, " of (", i, ",", cd, ",", cc, ")");
            members.insert(want);
            // through an intermediate sub-entity: sub-sub-entity's vertices
            for (size_t v2 = 0; v2 < ff[ii].verts.size(); ++v2) {
              int direct = re.subEntity(want, cc, v2, dim);
              c.check(std::binary_search(v.begin(), v.end(), direct), "vertex ", v2, " of sub-sub-entity ", want, " leaves it");
            }
          }
          c.check(it == range.end(), "range too long");
          for (int x = 0; x < re.size(cc); ++x)
            c.check(range.contains(x) == (members.count(x) > 0), "contains(", x, ") of (", i, ",", cd, ",", cc, ") is ", range.contains(x));
        }
      }
  });
  c.cls("dim" + std::to_string(k_dim));
  c.nontrivial = k_dim >= 2;
}

