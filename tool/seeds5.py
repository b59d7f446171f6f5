import sys; sys.path.insert(0,'/verif/tool')
from mkseed import seed
TSL='''
#include "H5Cpp.h"
#include <functional>
// writes a table in the layout of pandas
inline void grid(const std::string& name, std::vector<std::vector<double>> axes, std::function<double(std::vector<double>)> f) {
  H5::H5File file(name, H5F_ACC_TRUNC);
  auto g = file.createGroup("/pandas");
  const unsigned long long d = axes.size();
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace()).write(H5::PredType::NATIVE_ULLONG, &d);
  std::vector<double> values;
  std::vector<double> x(axes.size());
  std::function<void(size_t)> fill = [&](size_t i) {
    if (i == axes.size()) { values.push_back(f(x)); return; }
    for (double v : axes[i]) { x[i] = v; fill(i + 1); }
  };
  fill(0);
  for (size_t i = 0; i < axes.size(); i++) {
    const hsize_t n = axes[i].size();
    H5::DataSpace s(1, &n);
    g.createDataSet("axis1_level" + std::to_string(i), H5::PredType::NATIVE_DOUBLE, s).write(axes[i].data(), H5::PredType::NATIVE_DOUBLE);
  }
  const hsize_t n = values.size();
  H5::DataSpace s(1, &n);
  g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE, s).write(values.data(), H5::PredType::NATIVE_DOUBLE);
}
using V = std::vector<double>;
inline V Es{1e-9, 2e-9, 4e-9, 8e-9};      // energies of the total cross section and of beta
inline V Ts{200, 300, 400};
inline V Fs{0.25, 0.5, 0.75};
inline V betas{0.5, 1, 2, 4};
inline double b_of(double F, double E, double T) { return -1 + 2 * F; }
inline double a_of(double F, double b, double T) { return 100 * F * F; }
inline std::string part(const std::string& n, const std::string& axis, V first, std::function<double(double, double, double)> f) {
  // one order for each point of the first axis: the expansion is exact
  V o;
  for (size_t i = 0; i < Fs.size(); i++) o.push_back(i);
  grid(n + "_S", {o}, [](V) { return 1; });
  grid(n + "_F", {Fs, o}, [](V x) { return Fs[size_t(x[1])] == x[0] ? 1 : 0; });
  grid(n + "_X", {first, Ts, o}, [f](V x) { return f(Fs[size_t(x[2])], x[0], x[1]); });
  return "<partition CDF='" + n + "_F' S='" + n + "_S' " + axis + "='" + n + "_X'/>";
}
inline std::string model(double T) {
  grid("one", {{1e-11, 10}}, [](V) { return 1; });
  grid("majorant", {{1e-11, 10}}, [](V) { return 100; });
  grid("t_S", {{0}}, [](V) { return 2; });
  grid("t_E", {Es, {0}}, [](V x) { return 1e9 * x[0]; });
  grid("t_T", {Ts, {0}}, [](V x) { return x[0] / 100; });
  const V half{Es[0], Es[1]}, other{Es[2], Es[3]}, low{betas[0], betas[1]}, high{betas[2], betas[3]};
  const std::string tsl = "<tsl majorant='majorant' total_T='t_T' total_S='t_S' total_E='t_E' beta_cutoff='20' alpha_cutoff='1000'><beta_partitions>" +
    part("b0", "E_T", half, b_of) + part("b1", "E_T", other, b_of) + "</beta_partitions><alpha_partitions>" + part("a0", "beta_T", low, a_of) + part("a1", "beta_T", high, a_of) + "</alpha_partitions></tsl>";
  return "<minimc><temperature><constant c='" + std::to_string(T) + "'/></temperature><nuclides><continuous><nuclide name='a' awr='1'><neutron>"
  "<total file='one' temperature='300'/><scatter><xs file='one' temperature='300'/>" + tsl + "</scatter></neutron></nuclide></continuous></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1e9'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells></minimc>";
}
struct Thermal {
  Doc d;
  World w;
  const Cell& c;
  ThermalScattering x;
  double T;
  Thermal(double T) : d{model(T)}, w{d.root()}, c{w.FindCellContaining(Point{})}, x{d.root().child("nuclides").child("continuous").child("nuclide").child("neutron").child("scatter").child("tsl")}, T{T} {}
  Particle at(double E, size_t seed = 1) const { return Particle{Point{}, Direction{1, 0, 0}, ContinuousEnergy{E}, Particle::Type::neutron, seed, &c}; }
  double kT() const { return constants::boltzmann * T; }
};
'''

seed("c40_below_first_energy","C40",[("ThermalScattering.cpp","  const auto r_E = below_E_min ? 1 : (E - E_lo) / (E_hi - E_lo);\n  const auto xs_T_lo = xs_E_lo_T_lo + r_E * (xs_E_hi_T_lo - xs_E_lo_T_lo);\n","  // below E_min the cross section follows the slope of the first interval\n  const auto r_E = below_E_min ? E / E_hi : (E - E_lo) / (E_hi - E_lo);\n  const auto xs_T_lo = below_E_min\n                           ? r_E * xs_E_hi_T_lo\n                           : xs_E_lo_T_lo + r_E * (xs_E_hi_T_lo - xs_E_lo_T_lo);\n")],TSL+'''
int main() {
  const Thermal t{300};
  EXPECT(near(t.x.GetTotal(t.at(1e-9)), 6));
  EXPECT(near(t.x.GetTotal(t.at(1e-10)), 6));
  EXPECT(near(t.x.GetTotal(t.at(3e-9)), 18));
}
''',"an energy below the first tabulated one","the cross section is extrapolated to zero")
seed("c40_partition_boundary","C40",[("ThermalScattering.cpp","      std::upper_bound(\n          beta_partition_E_ends.cbegin(), beta_partition_E_ends.cend(), E_s_i));","      std::lower_bound(\n          beta_partition_E_ends.cbegin(), beta_partition_E_ends.cend(), E_s_i));")],TSL+'''
int main() {
  const Thermal t{300};
  // beta does not depend on the energy in these tables
  for (size_t s = 0; s < 500; s++) {
    for (double E : {1.5e-9, 3e-9, 4e-9, 7e-9}) {
      auto p = t.at(E, s);
      double b;
      try {
        b = t.x.SampleBeta(p, E, t.T);
      } catch (const std::runtime_error&) {
        // too many draws rejected
        continue;
      }
      EXPECT(b >= -E / t.kT() && b <= 20);
      auto q = t.at(E, s);
      std::uniform_real_distribution{}(q.rng);
      for (double F = 2; b != F;) {
        F = std::uniform_real_distribution{}(q.rng);
        // between the tabulated probabilities the line through them
        if (F > 0.25 && F < 0.75) {
          const auto v = -1 + 2 * F;
          if (v >= -E / t.kT()) {
            EXPECT(near(b, v));
            break;
          }
        } else {
          break;
        }
      }
    }
  }
}
''',"tables in more than one partition and a neighbouring energy that is the first of a partition","the expansion of the previous partition is used, beyond its last energy")
seed("c40_unscaled_alpha","C40",[("ThermalScattering.cpp","      return b_a_min + (a_prime - b_s_a_min) * (b_a_max - b_a_min) /\n                           (b_s_a_max - b_s_a_min);","      return std::max(b_a_min, a_prime) - b_s_a_min > b_a_max - b_a_min\n                 ? b_a_max\n                 : b_a_min + (a_prime - b_s_a_min) * (b_a_max - b_a_min) /\n                                 (b_s_a_max - b_s_a_min);")],TSL+'''
int main() {
  const Thermal t{300};
  const double E = 7e-9, b = -0.1;
  const double most = std::pow(std::sqrt(E) + std::sqrt(E + b * t.kT()), 2) / t.kT();
  int highest = 0;
  for (size_t s = 0; s < 2000; s++) {
    auto p = t.at(E, s);
    try {
      highest += t.x.SampleAlpha(p, b, E, t.T) >= most;
    } catch (const std::exception&) {
    }
  }
  EXPECT(highest == 0);
  // tabulated beta below the actual one: limits are wider there
  for (size_t s = 0; s < 2000; s++) {
    auto p = t.at(E, s);
    const double b = 1.5;
    const double a = t.x.SampleAlpha(p, b, E, t.T);
    const double r = std::sqrt(E), q = std::sqrt(E + b * t.kT());
    EXPECT(a > std::pow(r - q, 2) / t.kT() && a < std::pow(r + q, 2) / t.kT());
    highest += a >= std::pow(r + q, 2) / t.kT() * (1 - 1e-12);
  }
  EXPECT(highest == 0);
}
''',"a beta whose kinematic limits are narrower than those of the tabulated one it is sampled on","momentum transfers near the largest one collapse onto it")
seed("c40_end_of_inverse","C40",[("ThermalScattering.cpp","                    : -E_s / (constants::boltzmann * T);","                    : -E / (constants::boltzmann * T);")],TSL+'''
int main() {
  const Thermal t{300};
  const double E = 1.1e-9;
  int tried = 0;
  for (size_t s = 0; s < 2000; s++) {
    auto p = t.at(E, s), q = t.at(E, s);
    // chosen energy, then the first cumulative probability
    const double e = 0.1 <= std::uniform_real_distribution{}(q.rng) ? Es[0] : Es[1];
    const double F = std::uniform_real_distribution{}(q.rng);
    if (F < 0.25) {
      const double lo = -e / t.kT(), b = lo + F / 0.25 * (-0.5 - lo);
      if (b >= -E / t.kT()) {
        tried++;
        EXPECT(near(t.x.SampleBeta(p, E, t.T), b));
      }
    }
  }
  EXPECT(tried > 0);
}
''',"an incident energy between two tabulated ones and a small cumulative probability","the largest loss is that of the incident instead of the sampled energy")
