import sys; sys.path.insert(0,'/verif/tool')
from mkseed import seed
W='''
// a sphere of radius 1 of one material inside a void
inline std::string world(const std::string& estimators = "", const std::string& perturbations = "", const std::string& aden = "1") {
  return "<minimc><general><particles>neutron</particles><histories>10</histories><threads>2</threads></general>"
  "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide><nuclide name='b'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='m' aden='" + aden + "'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells>"
  + perturbations + "<estimators>" + estimators + "</estimators></minimc>";
}
'''
seed("c26_absolute_cosine","C26",[("Bins.cpp","direction ? cosine->GetIndex(direction.value().Dot(p.GetDirection())) : 0;","direction ? cosine->GetIndex(\n                      direction.value().Dot(p.GetDirection()) *\n                      (p.event == Particle::Event::leak ? 1 : -1)) : 0;")],W+'''
int main() {
  Doc d{world("<current name='t' surface='s'><bins><cosine u='1' v='0' w='0'><boundaries>-0.5 0 0.5</boundaries></cosine></bins></current>")};
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet es{d.root().child("estimators"), w, ps, 1};
  const auto& b = *es.FindEstimatorByName("t").bins;
  Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
  p.event = Particle::Event::leak;
  EXPECT(b.GetIndex(p) == 3);
  p.event = Particle::Event::surface_cross;
  EXPECT(b.GetIndex(p) == 3);
}
''',"a crossing between two material cells with a cosine axis","crossings that are not leaks are put into the bin of the opposite direction")
seed("c26_leaks_elsewhere","C26",[("Estimator.cpp","""  if (p.current_surface == surface &&
      (p.event == Particle::Event::surface_cross ||
       p.event == Particle::Event::leak)) {""","""  // nothing can leak through an inner surface
  if ((p.current_surface == surface &&
       p.event == Particle::Event::surface_cross) ||
      (p.current_surface && p.event == Particle::Event::leak)) {""")],W+'''
int main() {
  std::string text = world("<current name='t' surface='i'/><current name='o' surface='s'/>");
  text.replace(text.find("<surfaces>"), 10, "<surfaces><sphere name='i'><center x='0' y='0' z='0'/><radius r='0.5'/></sphere>");
  text.replace(text.find("<cells>"), 7, "<cells><cell name='b' material='m'><surface name='i' sense='-1'/></cell>");
  text.replace(text.find("<cell name='c' material='m'>"), 28, "<cell name='c' material='m'><surface name='i' sense='+1'/>");
  Doc d{text};
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  EstimatorSet es{d.root().child("estimators"), w, ps, 1};
  Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
  p.event = Particle::Event::leak;
  p.current_surface = w.FindSurfaceByName("s");
  EXPECT(es.FindEstimatorByName("o").GetScore(p) == 1);
  EXPECT(es.FindEstimatorByName("t").GetScore(p) == 0);
  p.event = Particle::Event::surface_cross;
  p.current_surface = w.FindSurfaceByName("i");
  EXPECT(es.FindEstimatorByName("t").GetScore(p) == 1);
  EXPECT(es.FindEstimatorByName("o").GetScore(p) == 0);
}
''',"two tallied surfaces, one of which lets particles leave the model","a leak is scored by tallies of other surfaces too")
seed("c37_effect_of_collisions","C37",[("Particle.cpp","""  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    indirect_effect += perturbation->Stream(*this, distance);
  }""","""  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    // no flight, no effect
    if (event == Event::scatter || event == Event::birth) {
      indirect_effect += perturbation->Stream(*this, distance);
    }
  }""")],W+'''
int main() {
  Doc d{world("<current name='t' surface='s'><sensitivities><perturbation name='x'/></sensitivities></current>", "<perturbations><total name='x' nuclide='a'/></perturbations>")};
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
  p.SetCell(w.FindCellContaining(Point{}));
  p.SetPerturbations(ps);
  const auto* x = ps.perturbations.front().get();
  p.Stream(0.25);
  EXPECT(near(p.GetIndirectEffect(x), 0.75));
  p.event = Particle::Event::surface_cross;
  p.Stream(0.25);
  EXPECT(near(p.GetIndirectEffect(x), 1.5));
}
''',"a flight that follows a surface crossing","flights after a surface crossing add nothing to the indirect effect")
seed("c37_progeny_keeps_effect","C37",[("Particle.cpp","  indirect_effects = perturbations.GetIndirectEffects();","  if (indirect_effects.empty()) {\n    indirect_effects = perturbations.GetIndirectEffects();\n  }"),],W+'''
int main() {
  Doc d{world("<current name='t' surface='s'><sensitivities><perturbation name='x'/></sensitivities></current>", "<perturbations><total name='x' nuclide='a'/></perturbations>")};
  World w{d.root()};
  PerturbationSet ps{d.root().child("perturbations"), w};
  Particle::transport_method = TransportMethod::Create(d.root(), w);
  Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
  p.SetCell(w.FindCellContaining(Point{}));
  p.SetPerturbations(ps);
  const auto* x = ps.perturbations.front().get();
  p.Stream(0.25);
  p.SetPerturbations(ps);
  EXPECT(p.GetIndirectEffect(x) == 0);
}
''',"a particle whose effects are set a second time","the effect of an earlier transport is carried over")

seed("c39_seed_zero","C39",[("Driver.cpp","""      seed(std::stoi(
          root.child("general").child("seed")
              ? root.child("general").child("seed").child_value()
              : "1")),""","""      seed(std::stoi(
          root.child("general").child("seed") && root.child("general").child("tracking")
              ? root.child("general").child("seed").child_value()
              : "1")),""")],'''
int main() {
  Doc d{"<minimc><general><particles>neutron</particles><histories>1</histories><threads>1</threads><seed>17</seed></general>"
  "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials><cells><cell name='c' material='m'/></cells>"
  "<problemtype><fixedsource><position><constant x='0' y='0' z='0'/></position><direction><isotropic/></direction><energy><constant energy='1'/></energy><particletype><constant type='neutron'/></particletype></fixedsource></problemtype></minimc>"};
  FixedSource f{d.root()};
  EXPECT(f.seed == 17);
}
''',"an input with a seed that does not name the tracking method","the seed of the input is ignored")
seed("c39_sphere_off_origin","C39",[("CSGSurface.cpp","center{sphere_node.child(\"center\")}","center{\n          sphere_node.child(\"center\").attribute(\"x\").as_double(),\n          sphere_node.child(\"center\").attribute(\"y\").as_double(),\n          sphere_node.child(\"center\").attribute(\"x\").as_double()}")],'''
int main() {
  Doc d{"<minimc><surfaces><sphere name='s'><center x='1' y='2' z='3'/><radius r='1'/></sphere></surfaces></minimc>"};
  const auto s = CSGSurface::Create(d.root(), "s");
  EXPECT(s->Contains(Point{1, 2, 3.5}));
  EXPECT(!s->Contains(Point{1, 2, 1}));
}
''',"a sphere that is not centred on a diagonal","a sphere is placed elsewhere than asked for")
