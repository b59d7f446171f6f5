import sys; sys.path.insert(0,'/verif/tool')
from mkseed import seed
H5='''
#include "H5Cpp.h"
// writes a one-dimensional table in the layout of pandas
inline void table(const std::string& name, std::vector<double> keys, std::vector<double> values) {
  H5::H5File f(name, H5F_ACC_TRUNC);
  auto g = f.createGroup("/pandas");
  const unsigned long long one = 1;
  g.createAttribute("axis1_nlevels", H5::PredType::NATIVE_ULLONG, H5::DataSpace()).write(H5::PredType::NATIVE_ULLONG, &one);
  const hsize_t n = keys.size();
  H5::DataSpace s(1, &n);
  g.createDataSet("axis1_level0", H5::PredType::NATIVE_DOUBLE, s).write(keys.data(), H5::PredType::NATIVE_DOUBLE);
  g.createDataSet("block0_values", H5::PredType::NATIVE_DOUBLE, s).write(values.data(), H5::PredType::NATIVE_DOUBLE);
}
inline std::string xs(const std::string& tag, const std::string& file, const std::string& T = "300") {
  return "<" + tag + " file='" + file + "' temperature='" + T + "'/>";
}
// one nuclide in all of space
inline std::string model(const std::string& data, const std::string& awr = "1", const std::string& temperature = "<constant c='300'/>") {
  return "<minimc><temperature>" + temperature + "</temperature><nuclides><continuous><nuclide name='a' awr='" + awr + "'><neutron>" + data + "</neutron></nuclide></continuous></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1e9'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells></minimc>";
}
'''
seed("c07_remembered_normal","C07",[("Point.cpp","""  x = std::uniform_real_distribution{-1., +1.}(rng);
  const Real sin_theta = std::sqrt(1 - x * x);
  const Real phi = std::uniform_real_distribution{0., 2 * constants::pi}(rng);
  y = sin_theta * std::cos(phi);
  z = sin_theta * std::sin(phi);
""","""  // three independent normal variates point in no preferred direction
  thread_local std::normal_distribution<Real> normal;
  x = normal(rng);
  y = normal(rng);
  z = normal(rng);
  Normalize();
""")],'''
int main() {
  RNG a{7}, b{7};
  const Direction d{a};
  const Direction e{b};
  EXPECT(d == e);
}
''',"two histories on the same thread","the direction drawn in one history depends on the history the thread ran before")
seed("c06_remembered_total","C06",[("Material.cpp","""MicroscopicCrossSection
Material::GetMicroscopicTotal(const Particle& p) const {
  // TODO: Memoize this call for performance
  return std::accumulate(""","""MicroscopicCrossSection
Material::GetMicroscopicTotal(const Particle& p) const {
  if (p.GetEnergy() == total_energy && p.GetType() == total_type) {
    return total;
  }
  total_energy = p.GetEnergy();
  total_type = p.GetType();
  return total = std::accumulate("""),("Material.hpp","  const Real number_density;","  const Real number_density;\n  // last total computed\n  mutable Energy total_energy{Group{0}};\n  mutable Particle::Type total_type{Particle::Type::neutron};\n  mutable MicroscopicCrossSection total{0};"),("Material.hpp","#include \"BasicTypes.hpp\"","#include \"BasicTypes.hpp\"\n#include \"Particle.hpp\"")],'''
#include <atomic>
#include <thread>
int main() {
  Doc d{"<minimc><general><particles>neutron</particles></general><nuclides><multigroup groups='2'><nuclide name='a'><neutron><capture>1 1000</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials><cells><cell name='c' material='m'/></cells></minimc>"};
  World w{d.root()};
  const auto& m = *w.materials.front();
  std::atomic<bool> wrong{false};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < 4; t++) {
    ts.emplace_back([&, t] {
      Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
      for (size_t i = 0; i < 4000000 && !wrong; i++) {
        const size_t g = 1 + (i * 7 + t) / 3 % 2;
        p.SetEnergy(Group{g});
        if (m.GetMicroscopicTotal(p) != (g == 1 ? 1 : 1000)) {
          wrong = true;
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  EXPECT(!wrong);
}
''',"two threads in the same material at different energies","a thread uses a total cross section computed for another")
seed("c20_zero_beyond","C20",[("ContinuousMap.hpp","""        // snap to last entry
        return std::prev(it_hi, 1)->second;""","""        // snap to last entry
        return k > std::prev(it_hi, 1)->first ? T{} : std::prev(it_hi, 1)->second;""")],'''
int main() {
  ContinuousMap<double, double> m;
  m[1] = 10;
  m[3] = 20;
  EXPECT(near(m.at(0.5), 10));
  EXPECT(near(m.at(1), 10));
  EXPECT(near(m.at(2.5), 17.5));
  EXPECT(near(m.at(3), 20));
  EXPECT(near(m.at(3.5), 20));
}
''',"an energy above the last tabulated one","the cross section there is zero")
seed("c21_all_must_modify","C21",[("Continuous.cpp","  return std::any_of(\n","  return !reactions.empty() && std::all_of(\n")],H5+'''
struct Modifying : ContinuousReaction {
  using ContinuousReaction::ContinuousReaction;
  bool ModifiesTotal(const Particle&) const noexcept final { return true; }
  MicroscopicCrossSection GetCrossSection(const Particle&) const final { return 5; }
  void Interact(Particle&) const final {}
};
int main() {
  table("one", {1e-11, 10}, {1, 1});
  table("ten", {1e-11, 10}, {10, 10});
  Doc d{model(xs("total", "ten") + xs("capture", "one"))};
  World w{d.root()};
  const auto& c = w.FindCellContaining(Point{});
  Particle p{Point{}, Direction{1, 0, 0}, ContinuousEnergy{1}, Particle::Type::neutron, 1, &c};
  const auto data = d.root().child("nuclides").child("continuous").child("nuclide").child("neutron");
  Continuous x{data};
  EXPECT(near(x.GetTotal(p), 10));
  auto& rs = const_cast<std::vector<std::unique_ptr<const ContinuousReaction>>&>(x.reactions);
  rs.push_back(std::make_unique<const Modifying>(data.child("capture")));
  EXPECT(near(x.GetTotal(p), 6));
}
''',"a nuclide with thermal scattering data and another reaction","the tabulated total is used although a reaction modifies it")
seed("c22_remainder_to_last","C22",[("Continuous.cpp","""  // If no reaction found, resample tail-recursively
  return Interact(p);""","""  // The sum of the reactions may be smaller than the total by rounding
  return reactions.back()->Interact(p);""")],H5+'''
int main() {
  table("one", {1e-11, 10}, {1, 1});
  table("ten", {1e-11, 10}, {10, 10});
  table("yield", {1e-11, 10}, {0, 0});
  Doc d{model(xs("total", "ten") + xs("capture", "one") + "<fission>" + xs("xs", "one") + xs("nubar", "yield") + "</fission>")};
  World w{d.root()};
  const auto& c = w.FindCellContaining(Point{});
  const Continuous x{d.root().child("nuclides").child("continuous").child("nuclide").child("neutron")};
  int captures = 0;
  for (size_t s = 0; s < 2000; s++) {
    Particle p{Point{}, Direction{1, 0, 0}, ContinuousEnergy{1}, Particle::Type::neutron, s, &c};
    x.Interact(p);
    captures += p.event == Particle::Event::capture;
  }
  EXPECT(captures > 800 && captures < 1200);
}
''',"a tabulated total that is larger than the sum of the reactions","the last reaction is chosen too often")
seed("c33_heavy_targets","C33",[("ContinuousReaction.cpp","    const auto E_prime = 0.5 * m_n * v_n_prime.Dot(v_n_prime);","    // very heavy targets take up no energy\n    const auto E_prime = awr > 200 ? E : 0.5 * m_n * v_n_prime.Dot(v_n_prime);")],H5+'''
int main() {
  table("one", {1e-11, 10}, {1, 1});
  Doc d{model("<scatter>" + xs("xs", "one") + "</scatter>", "236")};
  World w{d.root()};
  const auto& c = w.FindCellContaining(Point{});
  const ContinuousScatter x{d.root().child("nuclides").child("continuous").child("nuclide").child("neutron").child("scatter")};
  double mean = 0;
  for (size_t s = 0; s < 500; s++) {
    Particle p{Point{}, Direction{1, 0, 0}, ContinuousEnergy{1}, Particle::Type::neutron, s, &c};
    x.Interact(p);
    mean += std::get<ContinuousEnergy>(p.GetEnergy()) / 500;
  }
  // half of the largest loss, 4 A / (A + 1)^2
  EXPECT(near(1 - mean, 2 * 236. / 237 / 237, 1e-3));
  EXPECT(1 - mean > 0.004);
}
''',"a target with more than 200 neutron masses","particles lose no energy in collisions with it")
seed("c38_hottest_point","C38",[("ContinuousReaction.cpp","p.GetCell().temperature->at(p.GetPosition())))","p.GetCell().temperature->upper_bound))")],H5+'''
int main() {
  table("one", {1e-11, 10}, {1, 1});
  Doc d{model("<scatter>" + xs("xs", "one") + "</scatter>", "12",
    "<linear><bounds lower='1e-3' upper='1e6'/><gradient x='1' y='0' z='0'/><intercept b='1e-3'/></linear>")};
  World w{d.root()};
  const auto& c = w.FindCellContaining(Point{});
  const ContinuousScatter x{d.root().child("nuclides").child("continuous").child("nuclide").child("neutron").child("scatter")};
  for (size_t s = 0; s < 200; s++) {
    Particle p{Point{}, Direction{1, 0, 0}, ContinuousEnergy{1e-6}, Particle::Type::neutron, s, &c};
    x.Interact(p);
    // targets at the origin are practically at rest
    EXPECT(std::get<ContinuousEnergy>(p.GetEnergy()) < 1.01e-6);
  }
}
''',"a temperature that varies inside a cell","targets move with the highest temperature of the cell")
seed("c13_first_surface","C13",[("TransportMethod.cpp","""      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }
    e.Score(p);""","""      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      if (!p.current_surface || p.GetCell().material) {
        p.current_surface = nearest_surface;
      }
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }
    e.Score(p);""")],'''
int main() {
  Doc d{"<minimc><general><particles>neutron</particles><histories>1</histories><threads>1</threads></general>"
  "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='thin' aden='1e-12'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1'/></sphere><sphere name='t'><center x='0' y='0' z='0'/><radius r='2'/></sphere></surfaces>"
  "<cells><cell name='c' material='thin'><surface name='s' sense='-1'/></cell><cell name='e' material='thin'><surface name='s' sense='+1'/><surface name='t' sense='-1'/></cell><void><surface name='t' sense='+1'/></void></cells>"
  "<estimators><current name='inner' surface='s'/><current name='outer' surface='t'/></estimators></minimc>"};
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet es{d.root().child("estimators"), w, ps, 1};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  Particle p{Point{}, Direction{1, 2, 3}, Group{1}, Particle::Type::neutron, 1};
  auto proxy = es.GetProxy();
  p.Transport(proxy, w);
  proxy.CommitHistory();
  EXPECT(near(es.FindEstimatorByName("inner").scores.at(0), 1));
  EXPECT(near(es.FindEstimatorByName("outer").scores.at(0), 1));
}
''',"a particle that leaks after it crossed another surface","the leak is tallied at the surface crossed before")
seed("c28_last_boundary","C28",[("Bins.cpp","""  for (size_t i = 0; i < n_bins - 1; i++) {
    sstream << std::scientific
            << std::pow(""","""  for (size_t i = 0; i < n_bins - 2; i++) {
    sstream << std::scientific
            << std::pow(""")],'''
int main() {
  Doc d{"<logspace bins='2' min='-2' max='2'/>"};
  std::string s = Bins::Create(d.root())->to_string();
  std::replace(s.begin(), s.end(), ',', ' ');
  std::stringstream in{s};
  double b;
  std::vector<double> bs;
  while (in >> b) {
    bs.push_back(b);
  }
  EXPECT(bs.size() == 3);
  EXPECT(near(bs[0], 1e-2) && near(bs[1], 1) && near(bs[2], 1e2));
}
''',"a tally with logarithmic bins","its last boundary is not printed")
seed("c16_flights_by_total","C16",[("TransportMethod.cpp","  return p.GetCell().material->GetMicroscopicMajorant(p);\n","  return p.GetCell().material->GetMicroscopicTotal(p);\n")],'''
// cross section half of its bound, everything else a capture
struct Half : Interaction {
  MicroscopicCrossSection GetMajorant(const Particle&) const final { return 1; }
  MicroscopicCrossSection GetTotal(const Particle&) const final { return 0.5; }
  void Interact(Particle& p) const final { p.event = Particle::Event::capture; }
};
int main() {
  Doc d{"<minimc><general><particles>neutron</particles><tracking>cell delta</tracking></general>"
  "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1000'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells><estimators/></minimc>"};
  World w{d.root()};
  const_cast<std::unique_ptr<const Interaction>&>(w.nuclides.front()->xs.at(Particle::Type::neutron)) = std::make_unique<const Half>();
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet es{d.root().child("estimators"), w, ps, 1};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  double mean = 0;
  for (size_t s = 1; s <= 4000; s++) {
    Particle p{Point{}, Direction{1, 2, 3}, Group{1}, Particle::Type::neutron, s};
    auto proxy = es.GetProxy();
    p.Transport(proxy, w);
    mean += std::sqrt(p.GetPosition().Dot(p.GetPosition())) / 4000;
  }
  EXPECT(mean > 1.8 && mean < 2.2);
}
''',"delta tracking where the cross section is smaller than its bound","collisions are rejected twice over, so that flights are too long")
seed("c05_kept_after_error","C05",[("XMLDocument.cpp","  ~XercesInitializer() noexcept { xercesc::XMLPlatformUtils::Terminate(); }\n","  ~XercesInitializer() noexcept {\n    // the parser may still be in use while an exception propagates\n    if (std::uncaught_exceptions() == 0) {\n      xercesc::XMLPlatformUtils::Terminate();\n    }\n  }\n")],'''
#include "xercesc/util/PlatformUtils.hpp"
int main() {
  { std::ofstream{"a.xml"} << "<minimc/>"; }
  bool rejected = false;
  try {
    XMLDocument d{"a.xml"};
  } catch (const std::runtime_error&) {
    rejected = true;
  }
  EXPECT(rejected);
  EXPECT(xercesc::XMLPlatformUtils::fgMemoryManager == nullptr);
}
''',"a document that violates the schema","the XML library stays initialised")
seed("c03_no_schema_named","C03",[("XMLDocument.cpp","xercesc::XercesDOMParser::Val_Always","xercesc::XercesDOMParser::Val_Auto")],'''
int main() {
  { std::ofstream{"a.xml"} << "<minimc><general/></minimc>"; }
  bool rejected = false;
  try {
    XMLDocument d{"a.xml"};
  } catch (const std::runtime_error&) {
    rejected = true;
  }
  EXPECT(rejected);
}
''',"a document that names no schema","it is accepted without validation")
seed("c08_seed_of_percent","C08",[("FixedSource.cpp","    bank.emplace_back(source.Sample(seed + elapsed));","    bank.emplace_back(source.Sample(seed + static_cast<unsigned>(elapsed)));")],"","","") if False else None
seed("c11_error_of_zero_mean","C11",[("Scorable.cpp","""  for (size_t i = 0; i < scores.size(); i++) { // gross
    const auto& score = scores[i];""","""  for (size_t i = 0; i < scores.size(); i++) { // gross
    const auto& score = std::max(scores[i], Real{0});""")],'''
struct S : Scorable {
  using Scorable::Scorable;
  Real GetScore(const Particle&) const noexcept final { return 0; }
  std::string to_string(const Real) const noexcept final { return {}; }
};
int main() {
  Doc d{"<bins/>"};
  S s{"t", d.root()};
  s.scores[0] = -6;
  s.square_scores[0] = 30;
  const auto t = s.GetScoreAsString(4);
  // sqrt(30 - 36 / 4) / 4
  const double e = std::stod(t.substr(t.find("-------\\n") + 8));
  EXPECT(near(e, std::sqrt(21.) / 4, 1e-5));
}
''',"a sensitivity with a negative mean","its standard error is too large")
