import sys; sys.path.insert(0,'/verif/tool')
from mkseed import seed
TSL='''
#include "H5Cpp.h"
#include <functional>
// writes a table in the layout of pandas
inline void grid(const std::string& name, std::vector<std::vector<double>> axes, std::function<double(std::vector<double>)> f) {
  H5::H5File file(name, H5F_ACC_TRUNC);
  auto g = file.createGroup("/pandas");
  const unsigned long long d = axes.size();
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace()).write(H5::PredType::NATIVE_ULLONG, &d);
  std::vector<double> values;
  std::vector<double> x(axes.size());
  std::function<void(size_t)> fill = [&](size_t i) {
    if (i == axes.size()) { values.push_back(f(x)); return; }
    for (double v : axes[i]) { x[i] = v; fill(i + 1); }
  };
  fill(0);
  for (size_t i = 0; i < axes.size(); i++) {
    const hsize_t n = axes[i].size();
    H5::DataSpace s(1, &n);
    g.createDataSet("axis1_level" + std::to_string(i), H5::PredType::NATIVE_DOUBLE, s).write(axes[i].data(), H5::PredType::NATIVE_DOUBLE);
  }
  const hsize_t n = values.size();
  H5::DataSpace s(1, &n);
  g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE, s).write(values.data(), H5::PredType::NATIVE_DOUBLE);
}
using V = std::vector<double>;
inline V Es{1e-9, 2e-9, 4e-9, 8e-9};      // energies of the total cross section and of beta
inline V Ts{200, 300, 400};
inline V Fs{0.25, 0.5, 0.75};
inline V betas{0.5, 1, 2, 4};
inline double b_of(double F, double E, double T) { return -1 + 2 * F; }
inline double a_of(double F, double b, double T) { return 100 * F * F; }
inline std::string part(const std::string& n, const std::string& axis, V first, std::function<double(double, double, double)> f) {
  // one order for each point of the first axis: the expansion is exact
  V o;
  for (size_t i = 0; i < Fs.size(); i++) o.push_back(i);
  grid(n + "_S", {o}, [](V) { return 1; });
  grid(n + "_F", {Fs, o}, [](V x) { return Fs[size_t(x[1])] == x[0] ? 1 : 0; });
  grid(n + "_X", {first, Ts, o}, [f](V x) { return f(Fs[size_t(x[2])], x[0], x[1]); });
  return "<partition CDF='" + n + "_F' S='" + n + "_S' " + axis + "='" + n + "_X'/>";
}
inline std::string model(double T) {
  grid("one", {{1e-11, 10}}, [](V) { return 1; });
  grid("majorant", {{1e-11, 10}}, [](V) { return 100; });
  grid("t_S", {{0}}, [](V) { return 2; });
  grid("t_E", {Es, {0}}, [](V x) { return 1e9 * x[0]; });
  grid("t_T", {Ts, {0}}, [](V x) { return x[0] / 100; });
  const V half{Es[0], Es[1]}, other{Es[2], Es[3]}, low{betas[0], betas[1]}, high{betas[2], betas[3]};
  const std::string tsl = "<tsl majorant='majorant' total_T='t_T' total_S='t_S' total_E='t_E' beta_cutoff='20' alpha_cutoff='1000'><beta_partitions>" +
    part("b0", "E_T", half, b_of) + part("b1", "E_T", other, b_of) + "</beta_partitions><alpha_partitions>" + part("a0", "beta_T", low, a_of) + part("a1", "beta_T", high, a_of) + "</alpha_partitions></tsl>";
  return "<minimc><general><particles>neutron</particles></general><temperature><constant c='" + std::to_string(T) + "'/></temperature><nuclides><continuous><nuclide name='a' awr='1'><neutron>"
  "<total file='one' temperature='300'/><scatter><xs file='one' temperature='300'/>" + tsl + "</scatter></neutron></nuclide></continuous></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1e9'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells></minimc>";
}
struct Thermal {
  Doc d;
  World w;
  const Cell& c;
  ThermalScattering x;
  double T;
  Thermal(double T) : d{model(T)}, w{d.root()}, c{w.FindCellContaining(Point{})}, x{d.root().child("nuclides").child("continuous").child("nuclide").child("neutron").child("scatter").child("tsl")}, T{T} {}
  Particle at(double E, size_t seed = 1) const { return Particle{Point{}, Direction{1, 0, 0}, ContinuousEnergy{E}, Particle::Type::neutron, seed, &c}; }
  double kT() const { return constants::boltzmann * T; }
};
'''

seed("c41_thermal_after_evaluated","C41",[("ContinuousReaction.cpp","""  if (tsl.has_value() && tsl->IsValid(p)) {
    return tsl->GetTotal(p);
  }
  else if (const auto T = p.GetCell().temperature->at(p.GetPosition());
           evaluation.IsValid(T)) {
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
  }
""","""  const auto T = p.GetCell().temperature->at(p.GetPosition());
  if (evaluation.IsValid(T)) {
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
  }
  else if (tsl.has_value() && tsl->IsValid(p)) {
    return tsl->GetTotal(p);
  }
""")],TSL+'''
int main() {
  for (double T : {250., 300.}) {
    const Thermal t{T};
    const auto& n = *t.c.material->afracs.begin()->first;
    auto p = t.at(3e-9);
    // the library gives E * T / 50 * 1e9
    EXPECT(near(n.GetTotal(p), 3 * T / 50));
    // above the library's range
    EXPECT(n.GetTotal(t.at(1e-3)) > 0.9 && n.GetTotal(t.at(1e-3)) < 1.1);
  }
}
''',"a thermal library, and data evaluated at the temperature of the cell","the bound-atom cross section is replaced by the tabulated one at that temperature only")
seed("c41_majorant_at_the_particle","C41",[("ContinuousReaction.cpp","  else if (const auto T_max = p.GetCell().temperature->upper_bound;","  else if (const auto T_max = p.GetCell().temperature->at(p.GetPosition());")],TSL+'''
int main() {
  grid("xs", {{1e-11, 10}}, [](V) { return 1; });
  const Doc d{"<minimc><general><particles>neutron</particles></general><temperature><linear><bounds lower='400' upper='800'/><intercept b='600'/><gradient x='100' y='0' z='0'/></linear></temperature><nuclides><continuous><nuclide name='a' awr='1'><neutron>"
  "<total file='xs' temperature='300'/><scatter><xs file='xs' temperature='300'/></scatter></neutron></nuclide></continuous></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='2'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells></minimc>"};
  const World w{d.root()};
  const Cell& c = w.FindCellContaining(Point{});
  const auto& n = *c.material->afracs.begin()->first;
  for (double E : {1e-10, 1e-9, 1e-8}) {
    for (double x : {-1.9, -1., 0., 1., 1.9}) {
      const Particle p{Point{x, 0, 0}, Direction{1, 0, 0}, ContinuousEnergy{E}, Particle::Type::neutron, 1, &c};
      for (double y : {-1.9, -1., 0., 1., 1.9}) {
        const Particle q{Point{y, 0, 0}, Direction{1, 0, 0}, ContinuousEnergy{E}, Particle::Type::neutron, 1, &c};
        EXPECT(n.GetMajorant(p) >= n.GetTotal(q));
      }
    }
  }
}
''',"a temperature that varies within a cell, slow neutrons, data evaluated at another temperature","the majorant of the elastic cross section is that of the place where the flight starts")
seed("c41_total_kept_near_its_temperature","C41",[("ContinuousReaction.cpp","  return tsl.has_value() && tsl->IsValid(p);\n}","  // the total already contains data evaluated at this temperature\n  return tsl.has_value() && tsl->IsValid(p) &&\n         !evaluation.IsValid(p.GetCell().temperature->at(p.GetPosition()));\n}")],TSL+'''
int main() {
  for (double T : {250., 300., 350.}) {
    const Thermal t{T};
    const auto& n = *t.c.material->afracs.begin()->first;
    EXPECT(near(n.GetTotal(t.at(3e-9)), 3 * T / 50));
    EXPECT(near(n.GetMajorant(t.at(3e-9)), 100));
  }
}
''',"a thermal library, data evaluated at the temperature of the cell, and a tabulated total","the total without thermal scattering is used at that temperature")
