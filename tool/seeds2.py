import sys; sys.path.insert(0,'/verif/tool')
from mkseed import seed
exec(open('/verif/tool/seeds1.py').read().split('TALLY=')[0].split('WORLD=',1)[1].join(["WORLD=",""]))
# two groups; data of each reaction are given as text
MG='''
inline std::string mg(const std::string& reactions, int groups = 2) {
  return "<minimc><general><particles>neutron</particles><histories>10</histories><threads>1</threads></general>"
  "<nuclides><multigroup groups='" + std::to_string(groups) + "'><nuclide name='a'><neutron>" + reactions + "</neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells></minimc>";
}
inline pugi::xml_node data(const Doc& d) { return d.root().child("nuclides").child("multigroup").child("nuclide").child("neutron"); }
'''
seed("c30_small_columns","C30",[("Multigroup.cpp","        if (column_sum == 0.) {","        if (column_sum < 1.) {")],MG+'''
int main() {
  Doc d{mg("<scatter>0.1 0.3 0.2 2.7</scatter>")};
  Multigroup m{data(d)};
  EXPECT(near(m.scatter_probs->at(2).at(1), 0.1));
  EXPECT(near(m.scatter_probs->at(2).at(2), 0.9));
  EXPECT(near(m.scatter_probs->at(1).at(1), 1. / 3));
  EXPECT(near(m.scatter_probs->at(1).at(2), 2. / 3));
}
''',"a group whose transfer data add up to less than one","transfer probabilities of groups with small cross sections are left as they were given")
seed("c31_spectrum_of_fastest_group","C31",[("Multigroup.cpp","chi.value().at(incident_group)","chi.value().at(1)")],MG+'''
int main() {
  Doc d{mg("<fission><nubar>2 2</nubar><chi>1 0 0 1</chi><xs>1 1</xs></fission>")};
  Multigroup m{data(d)};
  for (size_t s = 1; s < 20; s++) {
    Particle p{Point{}, Direction{1, 0, 0}, Group{2}, Particle::Type::neutron, s};
    m.Fission(p);
    Bank b;
    p.MoveSecondariesTo(b);
    EXPECT(!b.empty());
    EXPECT(std::get<Group>(b.back().GetEnergy()) == 2);
  }
}
''',"a fission spectrum that depends on the incident group","secondaries are always emitted with the spectrum of group 1")
seed("c14_scatter_inside_group","C14",[("Multigroup.cpp","  p.event = Particle::Event::scatter;\n",""),("Multigroup.cpp","      p.SetEnergy(g);\n","      if (Energy{g} != p.GetEnergy()) {\n        p.SetEnergy(g);\n        p.event = Particle::Event::scatter;\n      }\n")],MG+'''
int main() {
  Doc d{mg("<scatter>1 0 0 1</scatter>")};
  Multigroup m{data(d)};
  Particle p{Point{}, Direction{1, 0, 0}, Group{2}, Particle::Type::neutron, 1};
  p.event = Particle::Event::surface_cross;
  m.Interact(p);
  EXPECT(p.event == Particle::Event::scatter);
}
''',"a scatter within a group right after a surface was crossed","the particle keeps the event of the step before and scores again at the surface")
seed("c17_backward_pole","C17",[("Point.cpp","""  const bool is_off_xaxis = d.x <= constants::on_axis_tolerance &&
                            d.x > -constants::on_axis_tolerance;""","""  const bool is_off_xaxis = d.x <= constants::on_axis_tolerance;""")],'''
int main() {
  for (const auto& d : {Direction{1, 0, 0}, Direction{0, 1, 0}, Direction{0, 0, -1}, Direction{1, 2, 3}, Direction{-1, 0, 0}}) {
    const Direction e{d, 0.3, 1.2};
    EXPECT(near(e.Dot(e), 1));
    EXPECT(near(e.Dot(d), 0.3));
  }
}
''',"a particle flying exactly towards negative x","its direction after scattering is not a number")
seed("c19_value_on_boundary","C19",[("Bins.cpp","std::upper_bound(boundaries.cbegin(), boundaries.cend(), v)","std::lower_bound(boundaries.cbegin(), boundaries.cend(), v)")],'''
int main() {
  Doc d{"<boundaries>0.25 0.5 2</boundaries>"};
  const auto b = Bins::Create(d.root());
  EXPECT(b->size() == 4);
  EXPECT(b->GetIndex(0.1) == 0);
  EXPECT(b->GetIndex(0.3) == 1);
  EXPECT(b->GetIndex(0.25) == 1);
  EXPECT(b->GetIndex(2) == 3);
}
''',"a value equal to a bin boundary, such as an energy of a group","the value is assigned to the bin below")
seed("c15_small_gradient","C15",[("ScalarField.cpp","return g == Point{0, 0, 0}; }","return g.Dot(g) < 1e-6; }")],'''
int main() {
  const auto text = [](const std::string& g) {
    return "<minimc><temperature><linear><bounds lower='100' upper='1000'/><gradient x='0' y='" + g + "' z='0'/><intercept b='300'/></linear></temperature></minimc>";
  };
  for (const std::string g : {"1", "1e-4", "0"}) {
    Doc d{text(g)};
    World w{d.root()};
    bool rejected = false;
    try {
      TransportMethod::Create(d.root(), w);
    } catch (const std::runtime_error&) {
      rejected = true;
    }
    EXPECT(rejected == (g != "0"));
  }
}
''',"a temperature gradient below 0.001 per unit length, in a large model","surface tracking is accepted with a varying temperature")
seed("c24_density_of_first_cell","C24",[("TransportMethod.cpp","""  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_surface_crossing < distance_to_collision) {""","""  const auto number_density = p.GetCell().material->number_density;
  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        number_density * GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_surface_crossing < distance_to_collision) {""")],'''
int main() {
  // a thin ball inside a very dense shell
  Doc d{"<minimc><general><particles>neutron</particles><histories>1</histories><threads>1</threads><tracking>cell delta</tracking></general>"
  "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='thin' aden='1e-9'><nuclide name='a' afrac='1'/></material><material name='dense' aden='1e9'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1'/></sphere><sphere name='t'><center x='0' y='0' z='0'/><radius r='2'/></sphere></surfaces>"
  "<cells><cell name='c' material='thin'><surface name='s' sense='-1'/></cell><cell name='e' material='dense'><surface name='s' sense='+1'/><surface name='t' sense='-1'/></cell><void><surface name='t' sense='+1'/></void></cells>"
  "<estimators/></minimc>"};
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet es{d.root().child("estimators"), w, ps, 1};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  for (size_t s = 1; s < 10; s++) {
    Particle p{Point{}, Direction{1, 2, 3}, Group{1}, Particle::Type::neutron, s};
    auto proxy = es.GetProxy();
    p.Transport(proxy, w);
    EXPECT(p.event == Particle::Event::capture);
    EXPECT(near(p.GetPosition().Dot(p.GetPosition()), 1, 1e-3));
  }
}
''',"delta tracking across cells of different density","flight distances in later cells follow the density of the first")
seed("c25_three_axes","C25",[("HDF5DataSet.hpp","""    std::partial_sum(
        result.crbegin(), result.crend(), result.rbegin(), std::multiplies());""","""    std::adjacent_difference(
        result.crbegin(), result.crend(), result.rbegin(),
        std::multiplies());""")],'''
int main() {
  using V = std::vector<double>;
  const auto s = HDF5DataSet<4>::ComputeAxisStrides({V(2), V(3), V(5), V(7)});
  EXPECT(s[3] == 1);
  EXPECT(s[2] == 7);
  EXPECT(s[1] == 35);
  EXPECT(s[0] == 105);
}
''',"a table with more than two axes","strides are products of two neighbouring sizes only")
seed("c29_only_above_one","C29",[("Material.cpp","        nuclide_afrac_pair.second = nuclide_afrac_pair.second / sum_afrac;","        nuclide_afrac_pair.second /= sum_afrac > 1 ? sum_afrac : 1;")],'''
int main() {
  for (const std::string f : {"1", "3", "0.25"}) {
    Doc d{"<minimc>"
    "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide><nuclide name='b'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
    "<materials><material name='m' aden='1'><nuclide name='a' afrac='" + f + "'/><nuclide name='b' afrac='" + f + "'/></material></materials>"
    "<cells><cell name='c' material='m'/></cells></minimc>"};
    World w{d.root()};
    for (const auto& [n, a] : w.materials.front()->afracs) {
      EXPECT(near(a, 0.5));
    }
  }
}
''',"atom fractions whose sum is below one","fractions that add up to less than one are not normalised")
seed("c32_seed_of_the_source","C32",[("Source.cpp","  auto sampled_seed = rng();","  auto sampled_seed = seed;")],'''
int main() {
  Doc d{"<minimc><nuclides><multigroup/></nuclides><source><position><constant x='0' y='0' z='0'/></position><direction><isotropic/></direction>"
  "<energy><constant energy='1'/></energy><particletype><constant type='neutron'/></particletype></source></minimc>"};
  Source s{d.root().child("source")};
  for (size_t i = 1; i < 20; i++) {
    auto p = s.Sample(i);
    // the particle's own numbers are not the ones its direction was made from
    EXPECT(!near(2 * p.Sample() - 1, p.GetDirection().x));
  }
}
''',"an isotropic source","the first flight of a particle is correlated with its initial direction")
seed("c34_cell_at_zero_kelvin","C34",[("Cell.cpp","  return cell_node.attribute(\"temperature\")\n","  return cell_node.attribute(\"temperature\").as_double() > 0\n")],'''
int main() {
  for (const std::string t : {"0", "20", "900"}) {
    Doc d{"<minimc><nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
    "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
    "<cells><cell name='c' material='m' temperature='" + t + "'/></cells></minimc>"};
    World w{d.root()};
    const auto& c = w.FindCellContaining(Point{});
    EXPECT(near(c.temperature->at(Point{}), std::stod(t)));
    EXPECT(near(c.temperature->upper_bound, std::stod(t)));
  }
}
''',"a cell that is given a temperature of zero","the cell has the global temperature")
seed("c36_equal_in_projection","C36",[("Point.cpp","  return x == rhs.x && y == rhs.y && z == rhs.z;","  return Dot(rhs) == Dot(*this) && Dot(rhs) == rhs.Dot(rhs) && x == rhs.x;")],'''
int main() {
  const double h = 1e-200;
  EXPECT((Point{1, 2, 3} == Point{1, 2, 3}));
  EXPECT(!(Point{1, 2, 3} == Point{1, 3, 2}));
  EXPECT(!(Point{0, h, 0} == Point{0, 0, h}));
  EXPECT(!(Point{0, h, 0} == Point{0, 0, 0}));
}
''',"vectors with tiny or huge components","different vectors compare equal")
seed("c04_longer_name_first","C04",[("World.cpp","      [&name](const auto surface_ptr) { return surface_ptr->name == name; });","      [&name](const auto surface_ptr) {\n        return surface_ptr->name.compare(0, name.size(), name) == 0;\n      });")],'''
int main() {
  Doc d{"<minimc><surfaces><planex name='s10' x='1'/><planex name='s1' x='2'/></surfaces>"
  "<cells><void><surface name='s10' sense='-1'/><surface name='s1' sense='-1'/></void></cells></minimc>"};
  World w{d.root()};
  EXPECT(w.FindSurfaceByName("s10")->name == "s10");
  EXPECT(w.FindSurfaceByName("s1")->name == "s1");
}
''',"two surfaces, the name of one beginning with that of the other","a tally refers to the wrong surface")
seed("c02_flux_source","C02",[("Source.cpp",'''    else if (distribution_name == "isotropic-flux"){
      return std::make_unique<IsotropicFlux>(distribution_node);
    }''','''    else if (distribution_name.compare(0, 9, "isotropic") == 0) {
      // the reference direction is optional
      return distribution_node.attribute("u")
                 ? std::unique_ptr<const Distribution<T>>(
                       std::make_unique<IsotropicFlux>(distribution_node))
                 : std::make_unique<IsotropicDistribution>();
    }''')],'''
int main() {
  Doc d{"<direction><isotropic-flux x='1' y='0' z='0'/></direction>"};
  const auto s = Distribution<Direction>::Create(d.root());
  RNG rng{1};
  for (int i = 0; i < 100; i++) {
    EXPECT(s->Sample(rng).x >= 0);
  }
}
''',"a source with the distribution isotropic-flux","it is built as an isotropic one")
seed("c01_lost_in_void","C01",[("World.cpp","const Cell& World::FindCellContaining(const Point& p) const {","const Cell& World::FindCellContaining(const Point& p) const noexcept {"),("World.hpp","  const Cell& FindCellContaining(const Point& p) const;","  const Cell& FindCellContaining(const Point& p) const noexcept;")],'''
int main() {
  Doc d{"<minimc><surfaces><planex name='s' x='1'/></surfaces><cells><void><surface name='s' sense='-1'/></void></cells></minimc>"};
  World w{d.root()};
  w.FindCellContaining(Point{});
  try {
    w.FindCellContaining(Point{2, 0, 0});
  } catch (const std::runtime_error&) {
    return 0;
  }
  return 1;
}
''',"a point in no cell","the program is terminated instead of reporting the error")
