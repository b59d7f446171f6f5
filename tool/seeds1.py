import sys; sys.path.insert(0,'/verif/tool')
from mkseed import seed
WORLD='''
// a sphere of radius 1 of one material inside a void
inline std::string world(const std::string& estimators = "", const std::string& perturbations = "") {
  return "<minimc><general><particles>neutron</particles><histories>10</histories><threads>2</threads></general>"
  "<nuclides><multigroup groups='1'><nuclide name='a'><neutron><capture>1</capture></neutron></nuclide></multigroup></nuclides>"
  "<materials><material name='m' aden='1'><nuclide name='a' afrac='1'/></material></materials>"
  "<surfaces><sphere name='s'><center x='0' y='0' z='0'/><radius r='1'/></sphere></surfaces>"
  "<cells><cell name='c' material='m'><surface name='s' sense='-1'/></cell><void><surface name='s' sense='+1'/></void></cells>"
  + perturbations + "<estimators>" + estimators + "</estimators></minimc>";
}
'''
TALLY=WORLD+'''
struct Tally {
  Doc doc{world("<current name='t' surface='s'/>")};
  World w{doc.root()};
  PerturbationSet ps{doc.root().child("perturbations"), w};
  EstimatorSet set{doc.root().child("estimators"), w, ps, 1};
  // a particle that has just crossed the surface
  Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
  Tally() {
    p.event = Particle::Event::surface_cross;
    p.current_surface = w.FindSurfaceByName("s");
  }
  const Estimator& t() const { return set.FindEstimatorByName("t"); }
};
'''
seed("c09_second_score_lost","C09",[("Scorable.cpp","    it->second += score;\n","    it->second = score;\n")],TALLY+'''
int main() {
  Tally t;
  auto proxy = t.set.GetProxy();
  for (int i = 0; i < 3; i++) proxy.Score(t.p);
  proxy.CommitHistory();
  EXPECT(near(t.t().scores.at(0), 3));
  EXPECT(near(t.t().square_scores.at(0), 9));
}
''',"a history that scores more than once in the same bin of a tally","only the last score of a history in a bin is kept")
seed("c09_square_of_events","C09",[("Scorable.cpp","    original.square_scores[index] += score * score;\n","    original.square_scores[index] += score;\n")],TALLY+'''
int main() {
  Tally t;
  for (int n = 1; n <= 3; n++) {
    auto proxy = t.set.GetProxy();
    for (int i = 0; i < n; i++) proxy.Score(t.p);
    proxy.CommitHistory();
  }
  EXPECT(near(t.t().scores.at(0), 6));
  EXPECT(near(t.t().square_scores.at(0), 14));
}
''',"a history whose total score in a bin is neither 0 nor 1","the accumulated squares are sums of scores")
seed("c10_squares_from_scores","C10",[("Scorable.cpp","      other.square_scores.cbegin(), square_scores.begin(), std::plus<Real>());\n","      other.scores.cbegin(), square_scores.begin(), std::plus<Real>());\n")],TALLY+'''
int main() {
  Tally t;
  auto proxy = t.set.GetProxy();
  proxy.Score(t.p);
  proxy.Score(t.p);
  proxy.CommitHistory();
  EstimatorSet sum = t.set;
  sum += t.set;
  sum += t.set;
  EXPECT(near(sum.FindEstimatorByName("t").scores.at(0), 6));
  EXPECT(near(sum.FindEstimatorByName("t").square_scores.at(0), 12));
}
''',"several workers, and a history that scores more than once in a bin","merging adds scores to the squared scores")
seed("c10_copy_without_sensitivities","C10",[("Estimator.cpp","""        for (const auto& sensitivity : other.sensitivities) {
          result.push_back(sensitivity->Clone());
        }
""","""        for (const auto& sensitivity : other.sensitivities) {
          if (result.empty() || sensitivity->name != result.front()->name) {
            result.insert(result.begin(), sensitivity->Clone());
            result.resize(1);
          }
        }
""")],WORLD+'''
int main() {
  Doc doc{world(
      "<current name='t' surface='s'><sensitivities><perturbation name='x'/><perturbation name='y'/></sensitivities></current>",
      "<perturbations><total name='x' nuclide='a'/><total name='y' nuclide='a'/></perturbations>")};
  World w{doc.root()};
  PerturbationSet ps{doc.root().child("perturbations"), w};
  EstimatorSet set{doc.root().child("estimators"), w, ps, 1};
  EXPECT(set.FindEstimatorByName("t").sensitivities.size() == 2);
  EstimatorSet copy = set;
  EXPECT(copy.FindEstimatorByName("t").sensitivities.size() == 2);
}
''',"a tally with more than one sensitivity","copies of a tally keep one sensitivity only")
seed("c12_secondaries_at_the_wrong_end","C12",[("Bank.cpp","  banked.splice(banked.begin(), rhs.banked);\n","  banked.splice(banked.end(), rhs.banked);\n")],'''
int main() {
  Bank bank;
  bank.emplace_back(Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, RNG::result_type{1});
  Particle* current = &bank.back();
  for (int i = 0; i < 3; i++) current->BankSecondaries(Direction{0, 1, 0}, Group{2});
  current->MoveSecondariesTo(bank);
  // the current particle is the one that is removed
  EXPECT(&bank.back() == current);
  bank.pop_back();
  int n = 0;
  for (; !bank.empty(); bank.pop_back()) n += std::get<Group>(bank.back().GetEnergy()) == 2;
  EXPECT(n == 3);
}
''',"a particle with secondaries","a secondary is removed instead of its parent, which is transported again")
seed("c08_progress_takes_numbers","C08",[("FixedSource.cpp","        interval_period != 0 && elapsed % interval_period == 0) {\n","        interval_period != 0 && histories_elapsed++ % interval_period == 0) {\n")],WORLD+'''
int main() {
  std::string s = world("<current name='t' surface='s'/>");
  auto sub = [&](const std::string& a, const std::string& b) { s.replace(s.find(a), a.size(), b); };
  sub("aden='1'", "aden='1e-30'");
  sub("<histories>10<", "<histories>20000<");
  sub("<estimators>", "<problemtype><fixedsource><position><constant x='0' y='0' z='0'/></position><direction><isotropic/></direction>"
    "<energy><constant energy='1'/></energy><particletype><constant type='neutron'/></particletype></fixedsource></problemtype><estimators>");
  Doc doc{s};
  Particle::transport_method = std::make_unique<const SurfaceTracking>();
  FixedSource f{doc.root()};
  // every history leaks
  const double n = f.Solve().FindEstimatorByName("t").GetScore(0, 1);
  EXPECT(n == 20000);
}
''',"at least 10000 histories, so that progress is reported","the progress report uses up history numbers, so only half of the histories are run")
seed("c11_error_of_binary_scores","C11",[("Scorable.cpp","    sstream << std::sqrt(square_score - score * score / total_weight) /\n","    sstream << std::sqrt(score - score * score / total_weight) /\n")],TALLY+'''
int main() {
  Tally t;
  for (int n = 0; n < 4; n++) {
    auto proxy = t.set.GetProxy();
    for (int i = 0; i < n; i++) proxy.Score(t.p);
    proxy.CommitHistory();
  }
  // S = 6, Q = 14, N = 4
  std::string s = t.t().GetScoreAsString(4);
  s = s.substr(s.find("-------\\n") + 8);
  EXPECT(near(std::atof(s.c_str()), std::sqrt(14. - 36. / 4) / 4, 1e-5));
}
''',"a tally in which histories score values other than 0 and 1","the standard error uses scores instead of squared scores")
seed("c18_oblique_rays_to_cylinders","C18",[("CSGSurface.cpp","      1 - dw * dw, 2 * (pd - pw * dw), pp - pw * pw - radius * radius);\n","      1 - dw * dw, 2 * pd, pp - pw * pw - radius * radius);\n")],'''
int main() {
  Doc doc{"<cylinderx name='c' r='2'/>"};
  CylinderX c{doc.root()};
  for (double x : {0., 1., -5.})
    for (double u : {0., 0.5, -0.3}) {
      Direction d{u, 1, 0.2};
      Point p{x, 0.3, 0.1};
      const double s = c.Distance(p, d);
      Point q = p + d * s;
      EXPECT(near(q.y * q.y + q.z * q.z, 4));
    }
}
''',"a direction with a component along the axis and a position away from the origin along it","the distance to a cylinder is wrong for oblique rays")
seed("c23_majorant_of_totals","C23",[("Material.cpp","        return accumulated + afrac * nuclide->GetMajorant(p);\n","        return accumulated + afrac * nuclide->GetTotal(p);\n")],WORLD+'''
struct Fake : Interaction {
  double t, m;
  Fake(double t, double m) : t{t}, m{m} {}
  MicroscopicCrossSection GetMajorant(const Particle&) const noexcept override { return m; }
  MicroscopicCrossSection GetTotal(const Particle&) const noexcept override { return t; }
  void Interact(Particle&) const noexcept override {}
};
int main() {
  Doc doc{world()};
  World w{doc.root()};
  auto& xs = const_cast<Interaction::Map&>(w.nuclides.at(0)->xs);
  xs[Particle::Type::neutron] = std::make_unique<Fake>(2, 5);
  Particle p{Point{}, Direction{1, 0, 0}, Group{1}, Particle::Type::neutron, 1};
  EXPECT(near(w.materials.at(0)->GetMicroscopicTotal(p), 2));
  EXPECT(near(w.materials.at(0)->GetMicroscopicMajorant(p), 5));
}
''',"delta tracking in a material whose majorant differs from its total cross section","the majorant of a material is its total cross section")
seed("c35_origin_sense","C35",[("Cell.cpp","        return surface_ptr->Contains(p) == is_surface_senses;\n","        return surface_ptr->Contains(p) || !is_surface_senses;\n")],WORLD+'''
int main() {
  Doc doc{world()};
  World w{doc.root()};
  for (const auto& c : w.cells)
    for (double x : {0., 0.5, 1.5}) EXPECT(c.Contains(Point{x, 0, 0}) == (bool(c.material) == (x < 1)));
}
''',"a point on the inner side of a surface a cell senses from outside","a cell with sense +1 contains points inside the surface")
