"""Edits for tool/mut.py."""
EDITS = []


def bug(name, expect, *edits):
    EDITS.append({"name": name, "kind": "bug", "expect": expect if isinstance(expect, list) else [expect], "edits": edits})


def same(name, *edits):
    EDITS.append({"name": name, "kind": "same", "expect": [], "edits": edits})


# ---- rewritings that keep the behaviour
same("loop_material_total", ("Material.cpp", """  return std::accumulate(
      afracs.cbegin(), afracs.cend(), MicroscopicCrossSection{0},
      [&p](const auto& accumulated, const auto& nuclide_afrac_pair) {
        const auto& [nuclide, afrac] = nuclide_afrac_pair;
        return accumulated + afrac * nuclide->GetTotal(p);
      });
""", """  MicroscopicCrossSection result = 0;
  for (const auto& entry : afracs) {
    const auto contribution = entry.first->GetTotal(p) * entry.second;
    result += contribution;
  }
  return result;
"""))
same("loop_multigroup_total", ("Multigroup.cpp", """  return std::accumulate(
      reactions.begin(), reactions.end(), std::vector<Real>(G, 0),
      [](auto& accumulated, const auto& reaction_xs) noexcept {
        std::transform(
            accumulated.begin(), accumulated.end(), reaction_xs.second.begin(),
            accumulated.begin(), std::plus<Real>{});
        return accumulated;
      });
""", """  std::vector<Real> accumulated(G, 0);
  for (const auto& [reaction, xs] : reactions) {
    for (Group g = 1; g <= G; g++) {
      accumulated[g - 1] += xs.at(g);
    }
  }
  return accumulated;
"""))
same("loop_continuous_totals", ("Continuous.cpp", """    return std::accumulate(
        reactions.cbegin(), reactions.cend(), MicroscopicCrossSection{0},
        [&p](const auto& accumulated, const auto& reaction) {
          return accumulated + reaction->GetMajorant(p);
        });
""", """    MicroscopicCrossSection sum{0};
    for (size_t i = 0; i < reactions.size(); i++) {
      sum = sum + reactions[i]->GetMajorant(p);
    }
    return sum;
"""))

# ---- transport methods
TM = "TransportMethod.cpp"
bug("delta_total_before_stream", "C16", (TM, """      p.Stream(distance_to_collision);
      if (std::bernoulli_distribution{
              p.GetCell().material->GetMicroscopicTotal(p) /
              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {""", """      const auto acceptance =
          p.GetCell().material->GetMicroscopicTotal(p) /
          p.GetCell().material->GetMicroscopicMajorant(p);
      p.Stream(distance_to_collision);
      if (std::bernoulli_distribution{acceptance}(p.rng)) {"""))
same("delta_majorant_before_stream", (TM, """      p.Stream(distance_to_collision);
      if (std::bernoulli_distribution{
              p.GetCell().material->GetMicroscopicTotal(p) /
              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {""", """      const auto majorant = p.GetCell().material->GetMicroscopicMajorant(p);
      p.Stream(distance_to_collision);
      const auto& material = *p.GetCell().material;
      const bool real =
          std::uniform_real_distribution{}(p.rng) * majorant <
          material.GetMicroscopicTotal(p);
      if (real) {"""))
bug("delta_flight_total", ["C16", "C24"], (TM, "  return p.GetCell().material->GetMicroscopicMajorant(p);\n}", "  return p.GetCell().material->GetMicroscopicTotal(p);\n}"))
bug("delta_virtual_unmarked", ["C13"], (TM, "        p.event = Particle::Event::virtual_collision;\n", ""))
bug("delta_inverted", "C16", (TM, """              p.GetCell().material->GetMicroscopicTotal(p) /
              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {""", """              1 - p.GetCell().material->GetMicroscopicTotal(p) /
              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {"""))
bug("surface_no_density", "C24", (TM, """        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {""", """        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {"""))
bug("surface_cell_stale_density", "C24", (TM, """  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {""", """  const auto number_density = p.GetCell().material->number_density;
  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {"""))
bug("stream_no_nudge", "C24", (TM, """    if (distance_to_surface_crossing < distance_to_collision) {
      // a surface crossing occurs
      p.Stream(distance_to_surface_crossing + constants::nudge);""", """    if (distance_to_surface_crossing < distance_to_collision) {
      // a surface crossing occurs
      p.Stream(distance_to_surface_crossing - constants::nudge);"""))
bug("score_only_material", "C13", (TM, """    e.Score(p);
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking""", """    if (p.GetCell().material || p.event == Particle::Event::scatter) {
      e.Score(p);
    }
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking"""))
bug("score_before_event", "C13", (TM, """      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }
    e.Score(p);
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking""", """      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
    }
    e.Score(p);
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking"""))
same("surface_helper", (TM, """// SurfaceTracking

Bank SurfaceTracking""", """// SurfaceTracking

namespace {
void Cross(Particle& p, const World& w, const std::shared_ptr<const CSGSurface>& s, const Real d) {
  p.current_surface = s;
  p.Stream(d + constants::nudge);
  const auto& next = w.FindCellContaining(p.GetPosition());
  p.SetCell(next);
  if (next.material) {
    p.event = Particle::Event::surface_cross;
  }
  else {
    p.event = Particle::Event::leak;
  }
}
} // namespace

Bank SurfaceTracking"""), (TM, """    if (distance_to_collision < distance_to_surface_crossing) {
      p.Stream(distance_to_collision);
      const auto& nuclide = p.SampleNuclide();
      nuclide.Interact(p);
    }
    else {
      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }
    e.Score(p);
  }
""", """    if (distance_to_collision >= distance_to_surface_crossing) {
      Cross(p, w, nearest_surface, distance_to_surface_crossing);
      e.Score(p);
      continue;
    }
    p.Stream(distance_to_collision);
    p.SampleNuclide().Interact(p);
    e.Score(p);
  }
"""))
same("surface_do_while", (TM, """  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {""", """  for (; p.IsAlive();) {
    const auto nearest = p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    const auto& nearest_surface = std::get<0>(nearest);
    const auto distance_to_surface_crossing = std::get<1>(nearest);
    const Real rate = GetCollisionProbabilityDensity(p) * p.GetCell().material->number_density;
    std::exponential_distribution<Real> flight{rate};
    const auto distance_to_collision = flight(p.rng);
    const bool collides = distance_to_collision < distance_to_surface_crossing;
    if (collides) {"""))
bug("proxy_skip_first_sens", "C13", ("Estimator.cpp", """  for (auto& sensitivity_proxy : sensitivity_proxies) {
    sensitivity_proxy.Score(p);
  }""", """  for (size_t i = 1; i < sensitivity_proxies.size(); i++) {
    sensitivity_proxies[i].Score(p);
  }"""))
same("proxy_loop", ("Estimator.cpp", """  std::for_each(
      estimator_proxies.begin(), estimator_proxies.end(),
      [&p](auto& estimator_proxy) { estimator_proxy.Score(p); });""", """  for (size_t i = 0; i < estimator_proxies.size(); i++) {
    estimator_proxies[i].Score(p);
  }"""))

# ---- worker loop, collection, merging
FS, SC, ES = "FixedSource.cpp", "Scorable.cpp", "Estimator.cpp"
bug("seed_fixed_offset", ["C08"], (FS, "source.Sample(seed + elapsed)", "source.Sample(seed + elapsed / 2)"))
bug("counter_load_store", ["C08"], (FS, "    auto elapsed = histories_elapsed++;\n", "    auto elapsed = histories_elapsed.load();\n    histories_elapsed = elapsed + 1;\n"))
bug("guard_le", ["C08"], (FS, "if (elapsed >= batchsize) {", "if (elapsed > batchsize) {"))
bug("commit_inside_bank_loop", ["C09"], (FS, """      bank.pop_back();
    }
    // add the scores stored by the proxy to worker_estimator_set
    scoring_proxy.CommitHistory();
""", """      bank.pop_back();
      // add the scores stored by the proxy to worker_estimator_set
      scoring_proxy.CommitHistory();
    }
"""))
bug("proxy_outside_loop", ["C09"], (FS, """  while (true) {
    // we _could_ return a newly constructed EstimatorSet from each call to
    // Transport() to keep things more functional, but I suspect it will be
    // super slow, so we use a lightweight EstimatorSet::Proxy
    auto scoring_proxy = worker_estimator_set.GetProxy();
""", """  auto scoring_proxy = worker_estimator_set.GetProxy();
  while (true) {
"""))
bug("skip_commit_on_empty", ["C09"], (FS, "    scoring_proxy.CommitHistory();\n", "    if (elapsed + 1 < batchsize) {\n      scoring_proxy.CommitHistory();\n    }\n"))
bug("pop_before_move", ["C12"], (FS, """      bank.back().MoveSecondariesTo(bank);
      // most recently processed Particle is removed from back
      bank.pop_back();
""", """      if (bank.back().IsAlive()) {
        bank.back().MoveSecondariesTo(bank);
      }
      bank.pop_back();
"""))
bug("transport_front", ["C12"], (FS, "      bank.back().Transport(scoring_proxy, world);\n", "      bank.front().Transport(scoring_proxy, world);\n"),
    ("Bank.hpp", "  Particle& back() noexcept;\n", "  Particle& back() noexcept;\n  Particle& front() noexcept { return banked.front(); }\n"))
bug("secondaries_at_end", ["C12"], ("Bank.cpp", "banked.splice(banked.begin(), rhs.banked)", "banked.splice(banked.end(), rhs.banked)"))
bug("insert_overwrite", ["C09"], (SC, "    it->second += score;\n", "    it->second = std::max(it->second, score);\n"))
bug("insert_without_find", ["C09"], (SC, """  if (const auto it = pending_scores.find(index); it != pending_scores.cend()) {
    // add score to existing index
    it->second += score;
  }
  else {
    // insert index and initialize score
    pending_scores.insert(std::make_pair(index, score));
  }
""", """  pending_scores.insert(std::make_pair(index, score));
"""))
bug("square_per_event", ["C09"], (SC, """    it->second += score;
""", """    it->second += score;
    original.square_scores[index] += score * score;
"""), )
bug("square_abs", ["C09"], (SC, "    original.square_scores[index] += score * score;\n", "    original.square_scores[index] += std::abs(score);\n"))
bug("merge_scores_only", ["C10"], (SC, """  std::transform(
      square_scores.cbegin(), square_scores.cend(),
      other.square_scores.cbegin(), square_scores.begin(), std::plus<Real>());
""", ""))
bug("merge_skip_first_bin", ["C10"], (SC, """  std::transform(
      square_scores.cbegin(), square_scores.cend(),
      other.square_scores.cbegin(), square_scores.begin(), std::plus<Real>());
""", """  for (size_t i = 1; i < square_scores.size(); i++) {
    square_scores[i] += other.square_scores[i];
  }
"""))
bug("merge_no_sens", ["C10"], (ES, "    *sensitivity += **matched_it;\n", "    if (other.sensitivities.size() > 1) {\n      *sensitivity += **matched_it;\n    }\n"))
bug("merge_missing_ignored", ["C10"], (ES, """          throw std::runtime_error("Estimator not found: " + estimator->name);
""", """          return;
"""))
bug("copy_drops_sens", ["C10"], (ES, """        for (const auto& sensitivity : other.sensitivities) {
          result.push_back(sensitivity->Clone());
        }
""", """        for (const auto& sensitivity : other.sensitivities) {
          if (result.empty()) {
            result.push_back(sensitivity->Clone());
          }
        }
"""))
bug("first_worker_dropped", ["C10"], (FS, """  for (auto& worker_estimator_set : worker_estimator_sets) {
    solver_estimator_set += worker_estimator_set.get();
  }
""", """  for (auto& worker_estimator_set : worker_estimator_sets) {
    if (&worker_estimator_set != &worker_estimator_sets.front()) {
      solver_estimator_set += worker_estimator_set.get();
    }
  }
"""))
same("worker_fetch_add", (FS, "    auto elapsed = histories_elapsed++;\n", "    const size_t elapsed = histories_elapsed.fetch_add(1);\n"),
     (FS, "    if (elapsed >= batchsize) {\n      break;\n    }\n", "    if (!(elapsed < batchsize)) {\n      return worker_estimator_set;\n    }\n"))
same("worker_for", (FS, """  while (true) {
    // we _could_ return""", """  for (size_t elapsed = histories_elapsed++; elapsed < batchsize;
       elapsed = histories_elapsed++) {
    // we _could_ return"""), (FS, """    // atomically update thread-local count of histories started
    auto elapsed = histories_elapsed++;
    if (elapsed >= batchsize) {
      break;
    }
""", ""))
same("score_operator_index", (SC, """  if (const auto it = pending_scores.find(index); it != pending_scores.cend()) {
    // add score to existing index
    it->second += score;
  }
  else {
    // insert index and initialize score
    pending_scores.insert(std::make_pair(index, score));
  }
""", """  pending_scores[index] += score;
"""))
same("score_try_emplace", (SC, """  if (const auto it = pending_scores.find(index); it != pending_scores.cend()) {
    // add score to existing index
    it->second += score;
  }
  else {
    // insert index and initialize score
    pending_scores.insert(std::make_pair(index, score));
  }
""", """  const auto [it, inserted] = pending_scores.try_emplace(index, score);
  if (!inserted) {
    it->second += score;
  }
"""))
same("score_early_return", (SC, """    it->second += score;
  }
  else {
    // insert index and initialize score
    pending_scores.insert(std::make_pair(index, score));
  }
""", """    it->second = it->second + score;
    return;
  }
  pending_scores.emplace(index, score);
"""))
same("commit_locals", (SC, """    original.scores[index] += score;
    original.square_scores[index] += score * score;
""", """    auto& s = original.scores[index];
    auto& q = original.square_scores[index];
    q = std::pow(score, 2) + q;
    s = s + score;
"""))
same("merge_index_loop", (SC, """  std::transform(
      scores.cbegin(), scores.cend(), other.scores.cbegin(), scores.begin(),
      std::plus<Real>());
  // add square scores
  std::transform(
      square_scores.cbegin(), square_scores.cend(),
      other.square_scores.cbegin(), square_scores.begin(), std::plus<Real>());
""", """  for (size_t i = 0; i < scores.size(); i++) {
    scores[i] += other.scores[i];
    square_scores[i] = square_scores[i] + other.square_scores[i];
  }
"""))
same("merge_range_loop", (ES, """  std::for_each(
      estimators.begin(), estimators.end(), [&other](auto& estimator) {
        // find the Estimator in other with a matching name
        const auto matched_it = std::find_if(
            other.estimators.cbegin(), other.estimators.cend(),
            [&estimator](const auto& other_it) {
              return estimator->name == other_it->name;
            });
        // throw exception if no matching Estimator was found
        if (matched_it == other.estimators.cend()) {
          throw std::runtime_error("Estimator not found: " + estimator->name);
        }
        *estimator += **matched_it;
      });
""", """  for (const auto& estimator : estimators) {
    const Estimator& counterpart = other.FindEstimatorByName(estimator->name);
    *estimator += counterpart;
  }
"""))
same("solve_futures", (FS, """  for (size_t i = 0; i < threads; i++) {
    worker_estimator_sets.push_back(
        std::async(&FixedSource::StartWorker, this));
  }
""", """  worker_estimator_sets.reserve(threads);
  for (size_t i = 0; i < threads; i++) {
    auto result = std::async([this]() { return StartWorker(); });
    worker_estimator_sets.push_back(std::move(result));
  }
"""))
same("bank_front_extract", (FS, """      // add indirect effects to current Particle
      bank.back().SetPerturbations(perturbations);
      // transport the Particle
      bank.back().Transport(scoring_proxy, world);
      // new Particle objects are added to front
      bank.back().MoveSecondariesTo(bank);
""", """      auto& current = bank.back();
      current.SetPerturbations(perturbations);
      current.Transport(scoring_proxy, world);
      current.MoveSecondariesTo(bank);
"""))

# ---- selections
MG, CO, PA = "Multigroup.cpp", "Continuous.cpp", "Particle.cpp"
bug("sel_before_add", "C22", (MG, """    accumulated += xs.at(std::get<Group>(p.GetEnergy()));
    if (accumulated > threshold) {
      switch""", """    accumulated += xs.at(1);
    if (accumulated > threshold) {
      switch"""))
bug("sel_group_compare_first", "C22", (MG, """    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);
      p.SetDirectionIsotropic();
      return;
    }
""", """    if (accumulated >= threshold) {
      p.SetEnergy(g);
      p.SetDirectionIsotropic();
      return;
    }
    accumulated += group_probs.at(g);
"""))
bug("sel_group_bound", "C22", (MG, """  for (Group g = 1; g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);""", """  for (Group g = 1; g < max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);"""))
bug("sel_group_start", "C22", (MG, """  for (Group g = 1; g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);""", """  for (Group g = std::get<Group>(p.GetEnergy()); g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);"""))
bug("sel_fission_one_draw", "C22", (MG, """  for (size_t i = 0; i < fission_yield; i++) {
    const Real threshold = std::uniform_real_distribution{}(p.rng);
""", """  const Real threshold = std::uniform_real_distribution{}(p.rng);
  for (size_t i = 0; i < fission_yield; i++) {
"""))
bug("sel_fission_no_break", "C22", (MG, """        p.BankSecondaries(Direction{p.rng}, g);
        break;
""", """        p.BankSecondaries(Direction{p.rng}, g);
"""))
bug("sel_fission_acc_outside", "C22", (MG, """  for (size_t i = 0; i < fission_yield; i++) {
    const Real threshold = std::uniform_real_distribution{}(p.rng);
    Real accumulated{0};
""", """  Real accumulated{0};
  for (size_t i = 0; i < fission_yield; i++) {
    const Real threshold = std::uniform_real_distribution{}(p.rng);
"""))
bug("sel_chi_group", "C22", (MG, "p.BankSecondaries(Direction{p.rng}, g);", "p.BankSecondaries(Direction{p.rng}, incident_group);"))
bug("sel_continuous_no_resample", "C22", (CO, """  // If no reaction found, resample tail-recursively
  return Interact(p);
""", ""))
bug("sel_continuous_majorant", "C22", (CO, "std::uniform_real_distribution{}(p.rng) * GetTotal(p);", "std::uniform_real_distribution{}(p.rng) * GetMajorant(p);"))
bug("sel_continuous_weight", "C22", (CO, "accumulated += candidate->GetCrossSection(p);", "accumulated += candidate->GetMajorant(p);"))
bug("sel_nuclide_no_fraction", "C22", (PA, "accumulated += afrac * nuclide_ptr->GetTotal(*this);", "accumulated += nuclide_ptr->GetTotal(*this);"))
bug("sel_nuclide_square", "C22", (PA, """      cell->material->GetMicroscopicTotal(*this) *
      std::uniform_real_distribution{}(rng);""", """      cell->material->GetMicroscopicTotal(*this) *
      std::uniform_real_distribution{}(rng) *
      std::uniform_real_distribution{}(rng);"""))
bug("sel_nuclide_majorant", "C22", (PA, "      cell->material->GetMicroscopicTotal(*this) *\n", "      cell->material->GetMicroscopicMajorant(*this) *\n"))
bug("sel_continuous_skips_first", "C22", (CO, """  for (const auto& candidate : reactions) {
    accumulated += candidate->GetCrossSection(p);
    if (accumulated > threshold) {
      candidate->Interact(p);
      return;
    }
  }
""", """  for (auto it = reactions.begin(); it != reactions.end(); ++it) {
    if (it == reactions.begin() && reactions.size() > 1) {
      continue;
    }
    accumulated += (*it)->GetCrossSection(p);
    if (accumulated > threshold) {
      (*it)->Interact(p);
      return;
    }
  }
"""))
same("sel_continuous_while", (CO, """  const MicroscopicCrossSection threshold =
      std::uniform_real_distribution{}(p.rng) * GetTotal(p);
  MicroscopicCrossSection accumulated{0};
  for (const auto& candidate : reactions) {
    accumulated += candidate->GetCrossSection(p);
    if (accumulated > threshold) {
      candidate->Interact(p);
      return;
    }
  }
  // If no reaction found, resample tail-recursively
  return Interact(p);
""", """  while (true) {
    const Real u = std::uniform_real_distribution{}(p.rng);
    MicroscopicCrossSection remaining = u * GetTotal(p);
    for (size_t i = 0; i < reactions.size(); i++) {
      remaining -= reactions[i]->GetCrossSection(p);
      if (remaining < 0) {
        return reactions[i]->Interact(p);
      }
    }
  }
"""))
same("sel_continuous_pointer", (CO, """  for (const auto& candidate : reactions) {
    accumulated += candidate->GetCrossSection(p);
    if (accumulated > threshold) {
      candidate->Interact(p);
      return;
    }
  }
  // If no reaction found, resample tail-recursively
  return Interact(p);
""", """  const ContinuousReaction* selected = nullptr;
  for (const auto& candidate : reactions) {
    accumulated += candidate->GetCrossSection(p);
    if (accumulated > threshold) {
      selected = candidate.get();
      break;
    }
  }
  if (selected == nullptr) {
    return Interact(p);
  }
  selected->Interact(p);
"""))
same("sel_continuous_iterator", (CO, """  for (const auto& candidate : reactions) {
    accumulated += candidate->GetCrossSection(p);
    if (accumulated > threshold) {
      candidate->Interact(p);
      return;
    }
  }
""", """  for (auto it = reactions.cbegin(); it != reactions.cend(); it++) {
    accumulated = accumulated + (*it)->GetCrossSection(p);
    if (threshold < accumulated) {
      (*it)->Interact(p);
      return;
    }
  }
"""))
same("sel_continuous_find_if", (CO, """  for (const auto& candidate : reactions) {
    accumulated += candidate->GetCrossSection(p);
    if (accumulated > threshold) {
      candidate->Interact(p);
      return;
    }
  }
  // If no reaction found, resample tail-recursively
  return Interact(p);
""", """  const auto selected = std::find_if(
      reactions.cbegin(), reactions.cend(),
      [&](const auto& candidate) {
        accumulated += candidate->GetCrossSection(p);
        return accumulated > threshold;
      });
  if (selected == reactions.cend()) {
    return Interact(p);
  }
  return (*selected)->Interact(p);
"""))
same("sel_group_helper", (MG, """void Multigroup::Scatter(Particle& p) const noexcept {
  p.event = Particle::Event::scatter;
  const Real threshold = std::uniform_real_distribution{}(p.rng);
  Real accumulated{0};
  const auto& group_probs{
      scatter_probs.value().at(std::get<Group>(p.GetEnergy()))};
  for (Group g = 1; g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);
      p.SetDirectionIsotropic();
      return;
    }
  }
  // scatter_probs is a NormalizedTwoDimensional so this shouldn't ever happen
  assert(false);
}
""", """namespace {
std::optional<Group>
SampleGroup(const Multigroup::OneDimensional& probs, Group n, Real threshold) {
  Real sum{0};
  for (Group g = 1; g <= n; ++g) {
    sum += probs.at(g);
    if (sum > threshold) {
      return g;
    }
  }
  return std::nullopt;
}
} // namespace

void Multigroup::Scatter(Particle& p) const noexcept {
  p.event = Particle::Event::scatter;
  const Real threshold = std::uniform_real_distribution{}(p.rng);
  const auto& group_probs{
      scatter_probs.value().at(std::get<Group>(p.GetEnergy()))};
  if (const auto g = SampleGroup(group_probs, max_group, threshold)) {
    p.SetEnergy(*g);
    p.SetDirectionIsotropic();
    return;
  }
  assert(false);
}
"""), ("Multigroup.hpp", """private:
  // Groupwise cross sections indexed by one Group""", """public:
  // Groupwise cross sections indexed by one Group"""))
same("sel_group_after_loop", (MG, """  for (Group g = 1; g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);
      p.SetDirectionIsotropic();
      return;
    }
  }
  // scatter_probs is a NormalizedTwoDimensional so this shouldn't ever happen
  assert(false);
""", """  Group g = 1;
  for (; g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      break;
    }
  }
  assert(g <= max_group);
  p.SetEnergy(g);
  p.SetDirectionIsotropic();
"""))
same("sel_reaction_if", (MG, """      switch (reaction) {
      case Reaction::capture:
        Capture(p);
        break;
      case Reaction::scatter:
        Scatter(p);
        break;
      case Reaction::fission:
        Fission(p);
        break;
      }
      return;
""", """      if (reaction == Reaction::capture) {
        return Capture(p);
      }
      if (reaction == Reaction::scatter) {
        return Scatter(p);
      }
      return Fission(p);
"""))
same("sel_nuclide_factor", (PA, """  const MicroscopicCrossSection threshold =
      cell->material->GetMicroscopicTotal(*this) *
      std::uniform_real_distribution{}(rng);
  MicroscopicCrossSection accumulated = 0;
  for (const auto& [nuclide_ptr, afrac] : cell->material->afracs) {
    accumulated += afrac * nuclide_ptr->GetTotal(*this);
    if (accumulated > threshold) {
      return *nuclide_ptr;
    }
  }
""", """  const auto& material = *cell->material;
  const auto total = material.GetMicroscopicTotal(*this);
  const Real u = Sample();
  Real sum = 0;
  for (const auto& entry : material.afracs) {
    const auto& nuclide = *entry.first;
    sum += nuclide.GetTotal(*this) * entry.second;
    if (sum <= u * total) {
      continue;
    }
    return nuclide;
  }
"""))

# ---- multigroup tables
bug("mg_transposed", "C30", (MG, "flattened.at(G * (g - 1) + (gp - 1))", "flattened.at(G * (gp - 1) + (g - 1))"))
bug("mg_short_table", "C30", (MG, "  if (elements.size() != G) {", "  if (elements.size() < G) {"))
bug("mg_short_matrix", "C30", (MG, "  if (flattened.size() != expected_size) {", "  if (flattened.size() % G != 0) {"))
bug("mg_expected_2g", "C30", (MG, "  const size_t expected_size{G * G};", "  const size_t expected_size{G + G};"))
bug("mg_at_zero", "C30", (MG, "  return elements.at(g - 1);\n}\n\nMultigroup::OneDimensional::elements_type::iterator", "  return elements.at(g % elements.size());\n}\n\nMultigroup::OneDimensional::elements_type::iterator"))
bug("mg_chi_unnormalised_small", "C30", (MG, "        if (column_sum == 0.) {", "        if (column_sum <= 1.) {"))
bug("mg_norm_by_first", "C30", (MG, "[&column_sum](auto& element) { element /= column_sum; });", "[&column_sum](auto& element) { element /= column_sum * column_sum; });"))
bug("mg_fission_xs_from_nubar", "C30", (MG, 'reactions.emplace(reaction, reaction_node.child("xs"));', 'reactions.emplace(reaction, reaction_node.child("nubar"));'))
bug("mg_chi_from_nubar", "C30", (MG, '''                  particle_node.child("fission").child("chi"))
''', '''                  particle_node.child("scatter"))
'''))
bug("mg_scatter_xs_first", "C30", (MG, "        column.begin(), column.end(), MicroscopicCrossSection{0}));", "        column.begin() + 1, column.end(), MicroscopicCrossSection{0}));"))
bug("mg_groups_of_first_nuclide", "C30", (MG, '      .attribute("groups")\n', '      .first_child().attribute("groups")\n'))
same("mg_matrix_by_rows", (MG, """  for (Group gp = 1; gp <= G; gp++) {
    std::vector<Real> column;
    for (Group g = 1; g <= G; g++) {
      column.push_back(flattened.at(G * (g - 1) + (gp - 1)));
    }
    elements.push_back(column);
  }
""", """  for (size_t incoming = 0; incoming < G; ++incoming) {
    std::vector<Real> column;
    column.reserve(G);
    for (size_t outgoing = 0; outgoing < G; ++outgoing) {
      column.push_back(flattened[outgoing * G + incoming]);
    }
    elements.emplace_back(column);
  }
"""))
same("mg_normalise_loops", (MG, """  std::for_each(
      elements.begin(), elements.end(),
      [](elements_type::value_type& one_dimensional) {
        auto column_sum = std::accumulate(
            one_dimensional.begin(), one_dimensional.end(), Real{0},
            std::plus<Real>{});
        if (column_sum == 0.) {
          return;
        }
        else {
          std::for_each(
              one_dimensional.begin(), one_dimensional.end(),
              [&column_sum](auto& element) { element /= column_sum; });
        }
      });
""", """  for (auto& column : elements) {
    Real sum = 0;
    for (const auto& value : column) {
      sum += value;
    }
    if (sum != 0) {
      for (auto& value : column) {
        value = value / sum;
      }
    }
  }
"""))
same("mg_check_helper", (MG, """Multigroup::OneDimensional::OneDimensional(const pugi::xml_node& groupxs_node) {
  const Group G{GroupStructureSize(groupxs_node.root())};
  std::stringstream element_stringlist{groupxs_node.child_value()};
  Real element;
  while (element_stringlist >> element) {
    elements.push_back(element);
  }
  if (elements.size() != G) {
    throw std::runtime_error(
        groupxs_node.path() + ": Expected " + std::to_string(G) +
        " entries but got " + std::to_string(elements.size()));
  }
}
""", """namespace {
std::vector<Real> ReadValues(const pugi::xml_node& node, size_t expected) {
  std::vector<Real> values;
  std::stringstream stream{node.child_value()};
  Real value;
  while (stream >> value) {
    values.push_back(value);
  }
  if (values.size() != expected) {
    throw std::runtime_error(
        node.path() + ": Expected " + std::to_string(expected) +
        " entries but got " + std::to_string(values.size()));
  }
  return values;
}
} // namespace

Multigroup::OneDimensional::OneDimensional(const pugi::xml_node& groupxs_node)
    : elements{ReadValues(
          groupxs_node, GroupStructureSize(groupxs_node.root()))} {}
"""))
same("mg_reactions_switch", (MG, """    if (reaction == Reaction::scatter) {
      reactions.emplace(reaction, CreateScatterXS(reaction_node));
    }
    else if (reaction == Reaction::fission) {
      // fission cross sections "xs" are bundled along with "chi" and "nubar"
      reactions.emplace(reaction, reaction_node.child("xs"));
    }
    else {
      reactions.emplace(reaction, reaction_node);
    }
""", """    switch (reaction) {
    case Reaction::capture:
      reactions.emplace(reaction, OneDimensional{reaction_node});
      break;
    case Reaction::fission:
      reactions.emplace(reaction, OneDimensional{reaction_node.child("xs")});
      break;
    case Reaction::scatter:
      reactions.emplace(reaction, CreateScatterXS(reaction_node));
      break;
    }
"""))
same("mg_scatter_loops", (MG, """  for (const auto& column : scatter_matrix) {
    column_sums.push_back(std::accumulate(
        column.begin(), column.end(), MicroscopicCrossSection{0}));
  }
""", """  for (const auto& column : scatter_matrix) {
    MicroscopicCrossSection sum{0};
    for (const auto& element : column) {
      sum += element;
    }
    column_sums.push_back(sum);
  }
"""))

# ---- C14, C31: collisions
PC = "Particle.cpp"
CR = "ContinuousReaction.cpp"
TM = "TransportMethod.cpp"
bug("kin_scatter_by_spectrum", "C31", (MG, """      scatter_probs.value().at(std::get<Group>(p.GetEnergy()))};""", """      (chi ? chi : scatter_probs).value().at(std::get<Group>(p.GetEnergy()))};"""))
bug("kin_yield_rounded", "C31", (MG, """      nubar.value().at(incident_group) +
      std::uniform_real_distribution{}(p.rng));""", """      nubar.value().at(incident_group) + 0.5);"""))
bug("kin_yield_of_first_group", "C31", (MG, """      nubar.value().at(incident_group) +""", """      nubar.value().at(1) +"""))
bug("kin_one_direction_for_all", "C31", (MG, """  const auto& group_probs{chi.value().at(incident_group)};
""", """  const auto& group_probs{chi.value().at(incident_group)};
  const Direction direction{p.rng};
"""), (MG, "p.BankSecondaries(Direction{p.rng}, g);", "p.BankSecondaries(direction, g);"))
bug("kin_direction_kept", "C31", (MG, """      p.SetEnergy(g);
      p.SetDirectionIsotropic();""", """      if (g != std::get<Group>(p.GetEnergy())) {
        p.SetDirectionIsotropic();
      }
      p.SetEnergy(g);"""))
bug("kin_forward_secondaries", "C31", (MG, "p.BankSecondaries(Direction{p.rng}, g);", "p.BankSecondaries(p.GetDirection(), g);"))
bug("kin_row_after_update", "C31", (MG, """      scatter_probs.value().at(std::get<Group>(p.GetEnergy()))};""", """      scatter_probs.value().at(max_group)};"""))
bug("fate_fission_survives", "C14", (PC, """  return event != Event::capture && event != Event::leak &&
         event != Event::fission;""", """  return event != Event::capture && event != Event::leak;"""))
bug("fate_virtual_ends", "C14", (PC, """         event != Event::fission;""", """         event < Event::fission;"""))
bug("fate_scatter_keeps_old_event", "C14", (MG, """  p.event = Particle::Event::scatter;
""", """  if (p.event != Particle::Event::surface_cross) {
    p.event = Particle::Event::scatter;
  }
"""))
bug("fate_fission_as_capture", "C14", (CR, """  p.event = Particle::Event::fission;
""", """  p.event = nubar ? Particle::Event::fission : Particle::Event::capture;
"""))
bug("fate_secondaries_without_cell", "C14", (PC, """      position, direction, energy, Type::neutron, rng(), cell);""", """      position, direction, energy, type, rng(), nullptr);"""))
bug("fate_secondaries_at_origin_of_flight", "C14", (PC, """      position, direction, energy, Type::neutron, rng(), cell);""", """      position - direction * 1e-3, direction, energy, Type::neutron, rng(), cell);"""))
bug("fate_secondaries_share_direction", "C14", (CR, """  for (size_t i = 0; i < fission_yield; i++) {
    // evaluation order of arguments is undefined so do evaluation here
    const Direction direction{p.rng};
""", """  const Direction direction{p.rng};
  for (size_t i = 0; i < fission_yield; i++) {
"""))
bug("fate_yield_truncated", "C14", (CR, """      nubar.value().at(std::get<ContinuousEnergy>(p.GetEnergy())) +
      std::uniform_real_distribution{}(p.rng));""", """      nubar.value().at(std::get<ContinuousEnergy>(p.GetEnergy())) + 1 -
      std::uniform_real_distribution{0.5, 1.}(p.rng));"""))
bug("fate_history_cut_short", "C14", (TM, """    e.Score(p);
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking""", """    e.Score(p);
    if (p.event == Particle::Event::surface_cross &&
        p.GetDirection().Dot(Direction{1, 0, 0}) == 0) {
      break;
    }
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking"""))
bug("fate_wrong_type_of_data", "C14", ("Nuclide.cpp", """  xs.at(p.type)->Interact(p);""", """  xs.begin()->second->Interact(p);"""))
bug("fate_energy_dropped", "C14", (PC, """  direction = Direction{direction, mu, phi};
  energy = e;""", """  direction = Direction{direction, mu, phi};
  if (mu < 1) {
    energy = e;
  }"""))
same("fate_alive_switch", (PC, """  return event != Event::capture && event != Event::leak &&
         event != Event::fission;""", """  switch (event) {
  case Event::capture:
  case Event::fission:
  case Event::leak:
    return false;
  default:
    return true;
  }"""))
same("fate_do_while", (TM, """  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision <""", """  do {
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision <"""), (TM, """    e.Score(p);
  }
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking""", """    e.Score(p);
  } while (p.IsAlive());
  return history_bank;
}

MicroscopicCrossSection SurfaceTracking"""))
same("fate_forever", (TM, """  while (p.IsAlive()) {
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_surface""", """  for (;;) {
    if (!p.IsAlive()) {
      break;
    }
    const auto distance_to_collision = std::exponential_distribution{
        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_surface"""))
same("kin_sample_group_helper", ("Multigroup.hpp", """  void Fission(Particle& p) const noexcept;""", """  void Fission(Particle& p) const noexcept;
  Group SampleGroup(Particle& p, const OneDimensional& group_probs) const noexcept {
    const Real threshold = p.Sample();
    Real accumulated{0};
    for (Group g = 1; g <= max_group; g++) {
      accumulated += group_probs.at(g);
      if (accumulated > threshold) {
        return g;
      }
    }
    assert(false);
    return max_group;
  }"""), ("Multigroup.hpp", "#include <", """#include "Particle.hpp"
#include <cassert>
#include <""") if False else ("Multigroup.hpp", """#include "Interaction.hpp\"
""", """#include "Interaction.hpp"
#include "Particle.hpp"
#include <cassert>
"""), (MG, """  const Real threshold = std::uniform_real_distribution{}(p.rng);
  Real accumulated{0};
  const auto& group_probs{
      scatter_probs.value().at(std::get<Group>(p.GetEnergy()))};
  for (Group g = 1; g <= max_group; g++) {
    accumulated += group_probs.at(g);
    if (accumulated > threshold) {
      p.SetEnergy(g);
      p.SetDirectionIsotropic();
      return;
    }
  }
  // scatter_probs is a NormalizedTwoDimensional so this shouldn't ever happen
  assert(false);
""", """  p.SetEnergy(SampleGroup(p, scatter_probs.value().at(std::get<Group>(p.GetEnergy()))));
  p.SetDirectionIsotropic();
"""))
same("kin_fission_count_down", (MG, """  for (size_t i = 0; i < fission_yield; i++) {""", """  for (; fission_yield > 0; --fission_yield) {"""))
same("kin_fission_while", (MG, """  for (size_t i = 0; i < fission_yield; i++) {""", """  size_t produced = 0;
  while (produced != fission_yield) {
    ++produced;"""))
same("kin_bank_helper", (PC, """  secondaries.emplace_back(
      position, direction, energy, Type::neutron, rng(), cell);""", """  const auto seed = rng();
  const auto born = Type::neutron;
  const Particle secondary{position, direction, energy, born, seed, cell};
  secondaries.emplace_back(secondary);"""))
same("kin_named_direction", (MG, "        p.BankSecondaries(Direction{p.rng}, g);", """        const Direction outgoing{p.rng};
        const Energy energy{g};
        p.BankSecondaries(outgoing, energy);"""))

# ---- choice of the transport method
WC, SF, CC = "World.cpp", "ScalarField.cpp", "Cell.cpp"
bug("const_guard_bounds", "C15", (WC, "  return temperature->IsConstant();", "  return temperature->upper_bound - temperature->lower_bound <= 0;"))
bug("const_guard_only_explicit", "C15", (TM, "    if (world.HasConstantTemperature()) {", "    if (tracking_type.empty() || world.HasConstantTemperature()) {"))
bug("const_fallback_to_delta", "C15", (TM, """      throw std::runtime_error(
          "Surface tracking with continuous global temperature not allowed");""", """      transport_method = std::make_unique<const CellDeltaTracking>();"""))
bug("const_two_components", ["C15", "C34"], (SF, "return g == Point{0, 0, 0}; }", "return g.Dot(Point{1, 1, 0}) == 0; }"))
bug("const_later_choice", "C15", ("FixedSource.cpp", """EstimatorSet FixedSource::Solve() {""", """EstimatorSet FixedSource::Solve() {
  if (threads > 1) {
    Particle::transport_method = std::make_unique<const SurfaceTracking>();
  }"""), ("FixedSource.cpp", '#include "FixedSource.hpp"', '#include "FixedSource.hpp"\n#include "TransportMethod.hpp"'))
bug("const_cells_other_field", "C15", (WC, "cells.emplace_back(cell_node, all_surfaces, all_materials, temperature);", """cells.emplace_back(
        cell_node, all_surfaces, all_materials,
        root.child("temperature")
            ? ScalarField::Create(root.child("temperature").last_child())
            : temperature);"""))
same("const_guard_inlined", (TM, """    if (world.HasConstantTemperature()) {
      transport_method = std::make_unique<const SurfaceTracking>();
    }
    else {
      throw std::runtime_error(
          "Surface tracking with continuous global temperature not allowed");
    }""", """    const bool allowed = world.HasConstantTemperature();
    if (!allowed) {
      throw std::runtime_error(
          "Surface tracking with continuous global temperature not allowed");
    }
    return std::make_unique<const SurfaceTracking>();"""))
same("const_all_cells", (WC, "  return temperature->IsConstant();", """  const ScalarField& global = *temperature;
  if (!global.IsConstant()) {
    return false;
  }
  return true;"""))

# ---- source particles
SO = "Source.cpp"
bug("src_direction_from_position_node", "C32", (SO, """source_node.child("direction"))},""", """source_node.child("position"))},"""))
bug("src_flux_cosine_uniform", "C32", (SO, "  const Real mu = std::sqrt(std::uniform_real_distribution{}(rng));", "  const Real mu = std::uniform_real_distribution{}(rng);"))
bug("src_flux_half_azimuth", "C32", (SO, "  const Real phi = std::uniform_real_distribution{0., 2 * constants::pi}(rng);\n  return Direction{reference", "  const Real phi = std::uniform_real_distribution{0., constants::pi}(rng);\n  return Direction{reference"))
bug("src_flux_same_draw", "C32", (SO, "  const Real phi = std::uniform_real_distribution{0., 2 * constants::pi}(rng);\n  return Direction{reference", "  const Real phi = 2 * constants::pi * mu * mu;\n  return Direction{reference"))
bug("src_flux_is_isotropic", ["C32"], (SO, 'distribution_name == "isotropic"', 'distribution_name.find("isotropic") == 0'))
bug("src_copied_generator", ["C32"], (SO, "  auto sampled_energy = energy->Sample(rng);", "  RNG energy_rng{seed};\n  auto sampled_energy = energy->Sample(energy_rng);"))
bug("src_same_seed", ["C32"], (SO, "  auto sampled_seed = rng();", "  auto sampled_seed = seed;"))
bug("src_energy_rounded", ["C32"], (SO, "ContinuousEnergy{std::stod(energy_value)}", "ContinuousEnergy{std::stof(energy_value)}"))
bug("src_photons_are_neutrons", ["C32"], (SO, """          Particle::ToType(distribution_node.attribute("type").as_string());""", """          Particle::ToType(property_node.attribute("type").as_string("neutron"));"""))
bug("src_isotropic_upper", ["C32"], ("Point.cpp", "x = std::uniform_real_distribution{-1., +1.}(rng);", "x = std::uniform_real_distribution{0., +1.}(rng);"))
same("src_reordered_types", (SO, """  auto sampled_energy = energy->Sample(rng);
  auto sampled_particle_type = particle_type->Sample(rng);
""", """  const auto sampled_particle_type = particle_type->Sample(rng);
  const auto sampled_energy = energy->Sample(rng);
"""))
same("src_switch_on_names", (SO, """    else if (distribution_name == "isotropic") {
      return std::make_unique<IsotropicDistribution>();
    }
    else if (distribution_name == "isotropic-flux"){
      return std::make_unique<IsotropicFlux>(distribution_node);
    }
    else {
      assert(false);
    }""", """    if (distribution_name != "isotropic") {
      assert(distribution_name == "isotropic-flux");
      auto flux = std::make_unique<IsotropicFlux>(distribution_node);
      return flux;
    }
    return std::make_unique<IsotropicDistribution>();"""))
same("src_flux_arithmetic", (SO, "  const Real phi = std::uniform_real_distribution{0., 2 * constants::pi}(rng);\n  return Direction{reference, mu, phi};", "  std::uniform_real_distribution<Real> unit{0., 1.};\n  const Real turns = unit(rng);\n  const Direction sampled(reference, mu, turns * (constants::pi + constants::pi));\n  return sampled;"))

# ---- elastic collisions
CR = "ContinuousReaction.cpp"
bug("el_cm_without_target_mass", "C33", (CR, "    const auto v_cm = (v_n + awr * v_T) / (1 + awr);", "    const auto v_cm = (v_n + v_T) / (1 + awr);"))
bug("el_outgoing_about_target", "C33", (CR, "Direction{V_n, mu_cm, phi_cm};", "Direction{v_T, mu_cm, phi_cm};"))
bug("el_speed_of_lab", "C33", (CR, "std::sqrt(V_n.Dot(V_n)) * V_n_prime_direction", "std::sqrt(v_n.Dot(v_n)) * V_n_prime_direction"))
bug("el_cosine_in_cm", "C33", (CR, "p.Scatter(p.GetDirection().Dot(Direction{v_n_prime}), E_prime);", "p.Scatter(p.GetDirection().Dot(V_n_prime_direction), E_prime);"))
bug("el_half_circle", "C33", (CR, "const auto phi_cm = 2 * constants::pi * p.Sample();", "const auto phi_cm = constants::pi * p.Sample();"))
bug("el_shared_azimuth", "C33", (CR, "const auto phi_cm = 2 * constants::pi * p.Sample();", "const auto phi_cm = phi;"))
bug("el_energy_of_cm", "C33", (CR, "0.5 * m_n * v_n_prime.Dot(v_n_prime);", "0.5 * m_n * V_n_prime.Dot(V_n_prime);"))
bug("el_scatter_keeps_azimuth", "C33", ("Particle.cpp", "  direction = Direction{direction, mu, phi};\n  energy = e;", "  direction = Direction{direction, mu, phi / 2};\n  energy = e;"))
bug("tgt_cosine_once", "C38", (CR, "    Real mu;\n    do {", "    Real mu = 2 * p.Sample() - 1;\n    do {"), (CR, "      mu = 2 * p.Sample() - 1; // TODO: Check if this can be factored out\n", ""))
bug("tgt_reject_sign", "C38", (CR, "std::sqrt(x * x + y * y - 2 * x * y * mu) / (x + y));", "std::sqrt(x * x + y * y + 2 * x * y * mu) / (x + y));"))
bug("tgt_swapped_laws", "C38", (CR, "      if (p.Sample() <\n", "      if (p.Sample() >\n"))
bug("tgt_cos_not_squared", "C38", (CR, "std::log(xi_2) * z * z)", "std::log(xi_2) * z)"))
bug("tgt_temperature_at_origin", "C38", (CR, "p.GetCell().temperature->at(p.GetPosition())));", "p.GetCell().temperature->at(Point{})));"))
bug("tgt_beta_without_mass", "C38", (CR, "        (awr * m_n) / (2. * constants::boltzmann *", "        m_n / (2. * constants::boltzmann *"))
bug("tgt_accept_inverted", "C38", (CR, "} while (p.Sample() >= std", "} while (p.Sample() <= std"))
same("el_components", (CR, """    const auto v_cm = (v_n + awr * v_T) / (1 + awr);
    const auto V_n = v_n - v_cm;""", """    const auto fraction = 1 / (1 + awr);
    const auto v_cm = fraction * v_n + (awr * fraction) * v_T;
    const auto V_n = (awr * fraction) * (v_n - v_T);"""))
same("el_inline_speed", (CR, """    const auto V_n_prime = std::sqrt(V_n.Dot(V_n)) * V_n_prime_direction;
    // outgoing velocity in lab frame
    const auto v_n_prime = V_n_prime + v_cm;
    // outgoing energy in lab frame
    const auto E_prime = 0.5 * m_n * v_n_prime.Dot(v_n_prime);""", """    const auto speed_cm = std::sqrt(V_n.Dot(V_n));
    // outgoing velocity in lab frame
    const auto v_n_prime = v_cm + speed_cm * V_n_prime_direction;
    // outgoing energy in lab frame
    const auto E_prime = v_n_prime.Dot(v_n_prime) * m_n / 2;"""))
same("tgt_endless_loop", (CR, "    do {\n      // order random", "    while (true) {\n      // order random"), (CR, "    } while (p.Sample() >= std::sqrt(x * x + y * y - 2 * x * y * mu) / (x + y));", """      const auto relative = std::sqrt(x * x + y * y - 2 * x * y * mu);
      if (p.Sample() * (x + y) < relative) {
        break;
      }
    }"""))
same("tgt_two_logs", (CR, "x = std::sqrt(-std::log(xi_1 * xi_2));      // lanl C49", "x = std::sqrt(-(std::log(xi_1) + std::log(xi_2)));"))

# C20
CM = "ContinuousMap.hpp"
bug("tab_lower_edge", "C20", (CM, "return v_lo + (v_hi - v_lo) / (k_hi - k_lo) * (k - k_lo);\n      }\n    }\n    else {\n      // nested", "return v_hi + (v_hi - v_lo) / (k_hi - k_lo) * (k - k_lo);\n      }\n    }\n    else {\n      // nested"))
bug("tab_zero_below", "C20", (CM, "        // snap to first entry\n        return it_hi->second;", "        // snap to first entry\n        return T{};"))
bug("tab_no_first", "C20", (CM, "      else if (it_hi == elements.cbegin()) {\n        // snap to first entry\n        return it_hi->second;\n      }\n", ""))
bug("tab_find_exact_next", "C20", (CM, "const auto it_hi = elements.upper_bound(k);", "const auto it_hi = elements.lower_bound(k);"), (CM, "else if (it_hi == elements.cbegin()) {\n        // snap to first entry", "else if (it_hi->first == k) {\n        return std::prev(it_hi)->second;\n      }\n      else if (it_hi == elements.cbegin()) {\n        // snap to first entry"))
bug("tab_step", "C20", (CM, "return v_lo + (v_hi - v_lo) / (k_hi - k_lo) * (k - k_lo);\n      }\n    }\n    else {\n      // nested", "return v_lo;\n      }\n    }\n    else {\n      // nested"))
bug("tab_descending", "C20", (CM, "using elements_type = std::map<Key, T>;", "using elements_type = std::map<Key, T, std::greater<Key>>;"), (CM, "#include <map>", "#include <map>\n#include <functional>"))
same("tab_lower_bound", (CM, "const auto it_hi = elements.upper_bound(k);", "const auto it_hi = elements.lower_bound(k);"))
same("tab_exact_first", (CM, "const auto it_hi = elements.upper_bound(k);", "if constexpr (sizeof...(Args) == 0) {\n      if (const auto it = elements.find(k); it != elements.cend()) {\n        return it->second;\n      }\n    }\n    const auto it_hi = elements.upper_bound(k);"))
same("tab_outside_first", (CM, "      if (it_hi == elements.cend()){\n        // snap to last entry\n        return std::prev(it_hi, 1)->second;\n      }\n      else if (it_hi == elements.cbegin()) {\n        // snap to first entry\n        return it_hi->second;\n      }",
"      if (k <= elements.cbegin()->first) {\n        return elements.cbegin()->second;\n      }\n      else if (k >= elements.crbegin()->first) {\n        return elements.crbegin()->second;\n      }"))
same("tab_weights", (CM, "        const auto& [k_hi, v_hi] = *it_hi;\n        const auto& [k_lo, v_lo] = *std::prev(it_hi, 1);\n        return v_lo + (v_hi - v_lo) / (k_hi - k_lo) * (k - k_lo);", "        auto it_lo = it_hi;\n        --it_lo;\n        const auto f = (k - it_lo->first) / (it_hi->first - it_lo->first);\n        return (1 - f) * it_lo->second + f * it_hi->second;"))
same("tab_helper", (CM, "        return v_lo + (v_hi - v_lo) / (k_hi - k_lo) * (k - k_lo);\n      }\n    }\n    else {\n      // nested", "        return Between(k_lo, v_lo, k_hi, v_hi, k);\n      }\n    }\n    else {\n      // nested"), (CM, "protected:\n  /// @brief This class", "  static T Between(const Key& a, const T& fa, const Key& b, const T& fb, const Key& x) noexcept {\n    const auto slope = (fb - fa) / (b - a);\n    return fa + slope * (x - a);\n  }\nprotected:\n  /// @brief This class"))
same("tab_clamp", (CM, "      if (it_hi == elements.cend()){\n        // snap to last entry\n        return std::prev(it_hi, 1)->second;\n      }\n      else if (it_hi == elements.cbegin()) {\n        // snap to first entry\n        return it_hi->second;\n      }\n      else {\n        // linearly interpolate\n        const auto& [k_hi, v_hi] = *it_hi;\n        const auto& [k_lo, v_lo] = *std::prev(it_hi, 1);\n        return v_lo + (v_hi - v_lo) / (k_hi - k_lo) * (k - k_lo);\n      }",
"      if (elements.size() == 1) {\n        return elements.cbegin()->second;\n      }\n      auto it = it_hi;\n      if (it == elements.cend()) {\n        it = std::prev(it);\n      }\n      else if (it == elements.cbegin()) {\n        it = std::next(it);\n      }\n      const auto x = std::clamp(k, elements.cbegin()->first, elements.crbegin()->first);\n      const auto lo = std::prev(it);\n      return lo->second + (it->second - lo->second) * (x - lo->first) / (it->first - lo->first);"), (CM, "#include <map>", "#include <map>\n#include <algorithm>"))

# C25
HD = "HDF5DataSet.hpp"
PS = """    std::transform(
        std::next(axes.cbegin(), 1), axes.cend(), result.begin(),
        [](const auto& axis) { return axis.size(); });
    // Last element is 1 since the stride at the innermost axis (level `D - 1`)
    // will be one.
    result[D - 1] = 1;
    // Compute strides by partially multiplying each level size beginning at
    // level `D - 1`
    std::partial_sum(
        result.crbegin(), result.crend(), result.rbegin(), std::multiplies());
"""
AT = """    if constexpr (sizeof...(inner_indices) == 0) {
      return values.at(base + index);
    }
    else {
      return at_from_base(
          base + index * strides.at(level), level + 1, inner_indices...);
    }"""
bug("hdf_column_major", "C25", (HD, "std::next(axes.cbegin(), 1), axes.cend(), result.begin(),", "axes.cbegin(), std::prev(axes.cend()), std::next(result.begin()),"), (HD, "result[D - 1] = 1;", "result[0] = 1;"), (HD, "result.crbegin(), result.crend(), result.rbegin(), std::multiplies());", "result.cbegin(), result.cend(), result.begin(), std::multiplies());"))
bug("hdf_forward_product", "C25", (HD, "result.crbegin(), result.crend(), result.rbegin(), std::multiplies());", "result.cbegin(), result.cend(), result.begin(), std::multiplies());"))
bug("hdf_sizes_summed", "C25", (HD, "result.rbegin(), std::multiplies());", "result.rbegin());"))
bug("hdf_sizes_of_own_axis", "C25", (HD, "std::next(axes.cbegin(), 1), axes.cend()", "axes.cbegin(), std::prev(axes.cend())"))
bug("hdf_no_partial_product", "C25", (HD, "    std::partial_sum(\n        result.crbegin(), result.crend(), result.rbegin(), std::multiplies());\n", ""))
bug("hdf_level_stays", "C25", (HD, "base + index * strides.at(level), level + 1,", "base + index * strides.at(level), level,"))
bug("hdf_next_stride", "C25", (HD, "base + index * strides.at(level), level + 1,", "base + index * strides.at(D - 1 - level), level + 1,"))
bug("hdf_last_refused", "C25", (HD, "if (index >= axes.at(level).size()) {", "if (index + 1 >= axes.at(level).size()) {"))
bug("hdf_levels_reversed", "C25", (HD, "std::string{\"axis1_level\"} + std::to_string(i));", "std::string{\"axis1_level\"} + std::to_string(D - 1 - i));"))
bug("hdf_inner_first", "C25", (HD, "result[keys[index]] = ToContinuousMap(outer_indices..., index);", "result[keys[index]] = ToContinuousMap(index, outer_indices...);"))
bug("hdf_keys_of_first_axis", "C25", (HD, "GetAxis(sizeof...(outer_indices));", "GetAxis(sizeof...(outer_indices) / 2);"))
bug("hdf_skip_last_key", "C25", (HD, "index < keys.size(); index++", "index + 1 < keys.size(); index++"))
same("hdf_loop_strides", (HD, PS, "    result[D - 1] = 1;\n    for (size_t i = D - 1; i > 0; i--) {\n      result[i - 1] = result[i] * axes[i].size();\n    }\n"))
same("hdf_running_stride", (HD, PS, "    size_t stride = 1;\n    for (size_t i = 0; i < D; ++i) {\n      result[D - 1 - i] = stride;\n      stride *= axes.at(D - 1 - i).size();\n    }\n"))
same("hdf_accumulate", (HD, PS, "    for (size_t i = 0; i < D; ++i) {\n      result[i] = std::accumulate(std::next(axes.begin(), i + 1), axes.end(), size_t{1}, [](size_t n, const auto& axis) { return n * axis.size(); });\n    }\n"))
same("hdf_scan_lambda", (HD, "result.crbegin(), result.crend(), result.rbegin(), std::multiplies());", "result.rbegin(), result.rend(), result.rbegin(), [](size_t a, size_t b) { return b * a; });"))
same("hdf_uniform_stride", (HD, AT, """    const auto offset = base + index * strides[level];
    if constexpr (sizeof...(inner_indices) == 0) {
      return values.at(offset);
    }
    else {
      return at_from_base(offset, level + 1, inner_indices...);
    }"""))
same("hdf_horner", (HD, "    return at_from_base(0, 0, index, inner_indices...);", """    const std::array<size_t, D> indices{index, static_cast<size_t>(inner_indices)...};
    size_t offset = 0;
    for (size_t level = 0; level < D; level++) {
      if (indices[level] >= axes[level].size()) {
        throw std::out_of_range("Out-of-range level " + std::to_string(level));
      }
      offset = offset * axes[level].size() + indices[level];
    }
    return values[offset];"""))
same("hdf_reader_helper", (HD, "  // Helper function to read flattened array from HDF5 file\n", """  static std::vector<double> ReadAll(const H5::DataSet& dataset) {
    std::vector<double> data(static_cast<size_t>(dataset.getSpace().getSimpleExtentNpoints()));
    dataset.read(data.data(), H5::PredType::NATIVE_DOUBLE);
    return data;
  }
  // Helper function to read flattened array from HDF5 file
"""), (HD, """      result[i] = std::vector<double>(
          static_cast<size_t>(
              level_dataset.getSpace().getSimpleExtentNpoints()),
          0);
      level_dataset.read(result[i].data(), H5::PredType::NATIVE_DOUBLE);
""", "      result[i] = ReadAll(level_dataset);\n"))
same("hdf_range_keys", (HD, """      for (size_t index = 0; index < keys.size(); index++) {
        result[keys[index]] = ToContinuousMap(outer_indices..., index);
      }""", """      size_t index = 0;
      for (const auto& key : keys) {
        result[key] = ToContinuousMap(outer_indices..., index);
        ++index;
      }"""))

# C28
MN, ES, SC, SE = "minimc.cpp", "Estimator.cpp", "Scorable.cpp", "Sensitivity.cpp"
bug("out_no_count", "C28", (MN, "  output_file << driver->batchsize << std::endl;\n", ""))
bug("out_count_unseparated", "C28", (MN, "output_file << driver->batchsize << std::endl;", "output_file << driver->batchsize;"))
bug("out_seed_for_count", "C28", (MN, "driver->batchsize", "driver->batchsize + 1"))
bug("out_extension", "C28", (MN, 'replace_extension(".out")', 'replace_extension(".txt")'))
bug("out_cwd", "C28", (MN, "auto output_filepath = input_filepath;", "auto output_filepath = std::filesystem::path{\"result.xml\"};"))
bug("out_order", "C28", (MN, "  output_file << driver->batchsize << std::endl;\n  output_file << result.to_string();", "  output_file << result.to_string();\n  output_file << driver->batchsize << std::endl;"))
bug("out_only_if_tallies", "C28", (MN, "  output_file << result.to_string();", "  if (driver->batchsize > 1) {\n    output_file << result.to_string();\n  }"))
bug("out_unsolved", "C28", (MN, "result.to_string()", "driver->Solve().to_string()"), (MN, "  output_file << driver->batchsize", "  output_file << result.to_string();\n  output_file << driver->batchsize"))
bug("txt_no_energy", "C28", (("Bins.cpp"), "energy\\n------\\n\" + energy->to_string()", "energy\\n------\\n\" + cosine->to_string()"))
bug("txt_skip_zero", ["C28"], (SC, "    sstream << score / total_weight << \", \";", "    if (score != 0) {\n      sstream << score / total_weight << \", \";\n    }"))
bug("txt_no_separator", "C28", (SC, "            << \", \";\n", "            ;\n"))
bug("txt_bins_unseparated", "C28", (("Bins.cpp"), "    sstream << std::scientific << boundary << \", \";", "    sstream << std::scientific << boundary;"))
bug("txt_no_sensitivities", "C28", (ES, "    result += sensitivity->to_string(total_weight);", "    if (!result.empty()) {\n      sensitivity->to_string(total_weight);\n    }"))
bug("txt_first_sensitivity", "C28", (ES, "    result += sensitivity->to_string(total_weight);\n", "    result += sensitivity->to_string(total_weight);\n    break;\n"))
bug("txt_sensitivity_name", "C28", (SE, "  return name + \"\\n\" + std::string(name.size(), '=')", "  return estimator.name + \"\\n\" + std::string(name.size(), '=')"))
bug("txt_overwrites", "C28", (ES, "    result += \"\\n\" + estimator->to_string(total_weight) + \"\\n\";", "    result = \"\\n\" + estimator->to_string(total_weight) + \"\\n\";"))
bug("txt_skip_unnamed", "C28", (ES, "    result += \"\\n\" + estimator->to_string(total_weight) + \"\\n\";", "    if (estimator->GetScore(0, total_weight) >= 0) {\n      result += \"\\n\" + estimator->to_string(total_weight) + \"\\n\";\n    }"))
bug("txt_sensitivity_named_after_tally", "C28", (SC, 'name{estimator.name + "::" + perturbation.name}', 'name{estimator.name + "::" + estimator.name}'))
same("out_helper", (MN, "int main(int argc", """static void Report(std::ostream& stream, const Driver& driver, const EstimatorSet& result) {
  stream << driver.batchsize << '\\n' << result.to_string();
}

int main(int argc"""), (MN, "  output_file << driver->batchsize << std::endl;\n  output_file << result.to_string();", "  Report(output_file, *driver, result);"))
same("out_string", (MN, "  output_file << driver->batchsize << std::endl;\n  output_file << result.to_string();", "  const auto text = std::to_string(driver->batchsize) + \"\\n\" + result.to_string();\n  output_file << text;"))
same("out_open_late", (MN, "  std::ofstream output_file {output_filepath.replace_extension(\".out\")};\n  const auto& result = driver->Solve();", "  const auto result = driver->Solve();\n  output_filepath.replace_extension(\".out\");\n  std::ofstream output_file {output_filepath};"))
same("out_scope_closes", (MN, "  output_file.close();\n", "  output_file.flush();\n"))
same("txt_stringstream", (ES, """  std::string result;
  result += name + "\\n" + std::string(name.size(), '=') + "\\n\\n";
  result += bins->to_string();
  result += GetScoreAsString(total_weight);
  for (const auto& sensitivity : sensitivities) {
    result += sensitivity->to_string(total_weight);
  }
  return result;""", """  std::ostringstream stream;
  stream << name << "\\n" << std::string(name.size(), '=') << "\\n\\n" << bins->to_string() << GetScoreAsString(total_weight);
  for (size_t i = 0; i < sensitivities.size(); ++i) {
    stream << sensitivities[i]->to_string(total_weight);
  }
  return stream.str();"""), (ES, "#include <algorithm>", "#include <algorithm>\n#include <sstream>"))
same("txt_accumulate", (ES, """  std::string result;
  for (const auto& estimator : estimators) {
    result += "\\n" + estimator->to_string(total_weight) + "\\n";
  }
  return result;""", """  std::string result;
  std::for_each(estimators.begin(), estimators.end(), [this, &result](const auto& estimator) {
    result.append("\\n").append(estimator->to_string(total_weight));
    result += '\\n';
  });
  return result;"""))
same("txt_index_means", (SC, "  for (const auto& score : scores) { // wow so clean\n    sstream << score / total_weight << \", \";\n  }", "  for (size_t i = 0; i < scores.size(); i++) {\n    sstream << GetScore(i, total_weight) << \", \";\n  }"))

# C27
BH, SCH, DH, PH, ESH = "Bins.hpp", "Scorable.hpp", "Driver.hpp", "Particle.hpp", "Estimator.hpp"
bug("ini_width_first", "C27", (BH, "  // lowest finite bin boundary\n  const Real lower_bound;\n  // highest finite bin boundary\n  const Real upper_bound;\n  // bin width\n  const Real bin_width;", "  // bin width\n  const Real bin_width;\n  // lowest finite bin boundary\n  const Real lower_bound;\n  // highest finite bin boundary\n  const Real upper_bound;"))
bug("ini_scores_before_bins", "C27", (SCH, "  const std::shared_ptr<const ParticleBins> bins;\n  /// @brief Flattened array of scores\n  std::vector<Real> scores;", "  std::vector<Real> scores;\n  /// @brief Used to map a Particle to a unique index\n  const std::shared_ptr<const ParticleBins> bins;"))
bug("ini_world_after_perturbations", "C27", (DH, "  const World world;\n", ""), (DH, "  const PerturbationSet perturbations;\n", "  const PerturbationSet perturbations;\n  const World world;\n"))
bug("ini_atomic", "C27", ("FixedSource.hpp", "histories_elapsed{0};", "histories_elapsed;"))
bug("ini_event", "C27", (PH, "Event event{Event::birth};", "Event event;"))
bug("ini_point", "C27", ("Point.hpp", "Real z{0};", "Real z;"))
bug("ini_lambda_reads_later", "C27", ("Bins.cpp", "        if (upper_bound <= lower_bound) {", "        if (upper_bound <= lower_bound || !(bin_width >= 0)) {"))
bug("ini_method_reads_later", "C27", ("Bins.cpp", "        if (upper_bound <= lower_bound) {", "        if (upper_bound <= lower_bound || GetIndex(upper_bound) == 0) {"))
same("ini_reorder_independent", (DH, "  const size_t threads;\n", ""), (DH, "  const RNG::result_type seed;\n", "  const RNG::result_type seed;\n  const size_t threads;\n"))
same("ini_default_members", (PH, "RNG rng;", "RNG rng{};"), ("Point.hpp", "  Real x{0};", "  Real x = 0.;"))

# ---- C06
bug("thr_memo_material", "C06", ("Material.hpp", """  const Real number_density;
""", """  const Real number_density;
  mutable Real last_total = 0;
"""), ("Material.cpp", """Material::GetMicroscopicTotal(const Particle& p) const {
  // TODO: Memoize this call for performance
  return std::accumulate(""", """Material::GetMicroscopicTotal(const Particle& p) const {
  // TODO: Memoize this call for performance
  return last_total = std::accumulate("""))
bug("thr_counter_plain", ["C06", "C08"], ("FixedSource.hpp", "std::atomic<size_t> histories_elapsed{0};", "size_t histories_elapsed{0};"))
bug("thr_static_nearest", "C06", ("Cell.cpp", """  const auto& nearest_surface = (*nearest_it).first;
""", """  static std::shared_ptr<const CSGSurface> nearest_surface;
  nearest_surface = (*nearest_it).first;
"""))
bug("thr_static_buffer", "C06", ("Estimator.cpp", """  std::for_each(
      estimator_proxies.begin(), estimator_proxies.end(),
      [&p](auto& estimator_proxy) { estimator_proxy.Score(p); });
""", """  static std::vector<EstimatorProxy*> order;
  order.clear();
  for (auto& estimator_proxy : estimator_proxies) {
    order.push_back(&estimator_proxy);
  }
  for (auto* estimator_proxy : order) {
    estimator_proxy->Score(p);
  }
"""))
bug("thr_static_distribution", "C06", ("Particle.cpp", """Real Particle::Sample() noexcept {
  return std::uniform_real_distribution{}(rng);
""", """Real Particle::Sample() noexcept {
  static std::uniform_real_distribution distribution{};
  return distribution(rng);
"""))
bug("thr_shared_sensitivities", ["C06", "C10"], ("Estimator.hpp", "  std::vector<std::unique_ptr<Sensitivity>> sensitivities;", "  std::vector<std::shared_ptr<Sensitivity>> sensitivities;"), ("Estimator.cpp", """        std::vector<std::unique_ptr<Sensitivity>> result;
        for (const auto& sensitivity : other.sensitivities) {
          result.push_back(sensitivity->Clone());
        }
        return result;
""", """        std::vector<std::shared_ptr<Sensitivity>> result;
        for (const auto& sensitivity : other.sensitivities) {
          result.push_back(sensitivity);
        }
        return result;
"""), ("Estimator.cpp", """        std::vector<std::unique_ptr<Sensitivity>> result;
        for (const auto& perturbation_sensitivity_node :""", """        std::vector<std::shared_ptr<Sensitivity>> result;
        for (const auto& perturbation_sensitivity_node :"""))
bug("thr_proxy_of_shared", "C06", ("FixedSource.cpp", "    auto scoring_proxy = worker_estimator_set.GetProxy();", "    auto scoring_proxy = init_estimator_set.GetProxy();"))
bug("thr_merge_shared", "C06", ("Driver.hpp", "  const EstimatorSet init_estimator_set;", "  EstimatorSet init_estimator_set;"), ("FixedSource.cpp", """  EstimatorSet solver_estimator_set = init_estimator_set;
  for (auto& worker_estimator_set : worker_estimator_sets) {
    solver_estimator_set += worker_estimator_set.get();
  }
""", """  EstimatorSet& solver_estimator_set = init_estimator_set;
  for (auto& worker_estimator_set : worker_estimator_sets) {
    solver_estimator_set += worker_estimator_set.get();
  }
"""))
bug("thr_bins_hint", "C06", ("Bins.hpp", """  const Real lower_bound;
  // C++ Core""", """  mutable size_t hint = 0;
  const Real lower_bound;
  // C++ Core""") if False else ("Bins.cpp", """  else {
    return (v - lower_bound) / bin_width + 1;
  }
""", """  else {
    static size_t hint;
    hint = (v - lower_bound) / bin_width + 1;
    return hint;
  }
"""))
bug("thr_source_generator", "C06", ("Source.cpp", """Particle Source::Sample(RNG::result_type seed) const noexcept {
""", """Particle Source::Sample(RNG::result_type seed) const noexcept {
  static RNG shared{seed};
  seed = shared();
""") if False else ("Particle.cpp", """      position, direction, energy, Type::neutron, rng(), cell);
""", """      position, direction, energy, Type::neutron,
      [this]() {
        static RNG children{rng()};
        return children();
      }(),
      cell);
"""))
bug("thr_const_cast_nuclide", "C06", ("Material.cpp", """        const auto& [nuclide, afrac] = nuclide_afrac_pair;
        return accumulated + afrac * nuclide->GetMajorant(p);
""", """        auto& [nuclide, afrac] = const_cast<std::pair<const std::shared_ptr<const Nuclide>, Real>&>(nuclide_afrac_pair);
        afrac = afrac < 0 ? 0 : afrac;
        return accumulated + afrac * nuclide->GetMajorant(p);
"""))
bug("thr_material_map_subscript", "C06", ("Perturbation.cpp", """  return indirect_effects;
}
""", """  return indirect_effects;
}
""") if False else ("Particle.cpp", """Bank Particle::Transport(EstimatorSetProxy& e, const World& w) {
""", """Bank Particle::Transport(EstimatorSetProxy& e, const World& w) {
  if (!transport_method) {
    transport_method = nullptr;
  }
"""))
same("thr_thread_local", ("Particle.cpp", """Real Particle::Sample() noexcept {
  return std::uniform_real_distribution{}(rng);
""", """Real Particle::Sample() noexcept {
  std::uniform_real_distribution distribution{};
  return distribution(rng);
"""))
same("thr_async_lambda", ("FixedSource.cpp", """        std::async(&FixedSource::StartWorker, this));
""", """        std::async([this]() { return StartWorker(); }));
"""))
same("thr_loops", ("Estimator.cpp", """  std::for_each(
      estimator_proxies.begin(), estimator_proxies.end(),
      [&p](auto& estimator_proxy) { estimator_proxy.Score(p); });
""", """  for (auto it = estimator_proxies.begin(); it != estimator_proxies.end(); ++it) {
    it->Score(p);
  }
"""), ("Particle.cpp", """  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    indirect_effect += perturbation->Stream(*this, distance);
  }
""", """  std::for_each(
      indirect_effects.begin(), indirect_effects.end(), [this, distance](auto& entry) {
        entry.second += entry.first->Stream(*this, distance);
      });
"""), ("Particle.cpp", "#include <cassert>\n", "#include <algorithm>\n#include <cassert>\n"))
same("thr_helpers", ("FixedSource.cpp", """  EstimatorSet solver_estimator_set = init_estimator_set;
  for (auto& worker_estimator_set : worker_estimator_sets) {
    solver_estimator_set += worker_estimator_set.get();
  }
""", """  EstimatorSet solver_estimator_set{init_estimator_set};
  for (size_t i = 0; i < worker_estimator_sets.size(); i++) {
    const EstimatorSet part = worker_estimator_sets[i].get();
    solver_estimator_set += part;
  }
"""), ("Cell.cpp", """  return std::make_tuple(nearest_surface, nearest_surface->Distance(p, d));
""", """  std::tuple<std::shared_ptr<const CSGSurface>, Real> result{nullptr, 0};
  std::get<0>(result) = nearest_surface;
  std::get<1>(result) = nearest_surface->Distance(p, d);
  return result;
"""))

# ---- C07
bug("rep_two_draws_in_arguments", "C07", ("Source.cpp", """  auto sampled_seed = rng();
  return Particle{
      sampled_position, sampled_direction, sampled_energy,
      sampled_particle_type, sampled_seed};
""", """  return Particle(
      sampled_position, direction->Sample(rng), sampled_energy,
      sampled_particle_type, rng());
"""), ("Source.cpp", """  auto sampled_direction = direction->Sample(rng);
""", ""))
bug("rep_two_draws_in_sum", "C07", ("Point.cpp", """  x = std::uniform_real_distribution{-1., +1.}(rng);
""", """  x = std::uniform_real_distribution{}(rng) - std::sqrt(std::uniform_real_distribution{}(rng));
"""))
bug("rep_secondary_direction_in_call", "C07", ("ContinuousReaction.cpp", """    const Direction direction{p.rng};
""", """    const Direction direction = MakeDirection(Direction{p.rng}, p.Sample());
"""), ("ContinuousReaction.cpp", """// ContinuousReaction

//// public
""", """// ContinuousReaction

namespace {
Direction MakeDirection(const Direction& d, const Real x) noexcept {
  return x < 0 ? Direction{-d.x, -d.y, -d.z} : d;
}
}

//// public
""") if False else ("ContinuousReaction.cpp", """#include "ContinuousReaction.hpp"
""", """#include "ContinuousReaction.hpp"
#include "Point.hpp"
namespace {
Direction MakeDirection(const Direction& d, const double x) noexcept {
  return x < 0 ? Direction{1, 0, 0} : d;
}
}
"""))
bug("rep_generator_by_value", "C07", ("Point.hpp", "  Direction(RNG& rng) noexcept;", "  Direction(RNG rng) noexcept;"), ("Point.cpp", "Direction::Direction(RNG& rng) noexcept {", "Direction::Direction(RNG rng) noexcept {"))
bug("rep_generator_copied", "C07", ("Multigroup.cpp", "  const Real threshold = std::uniform_real_distribution{}(p.rng);\n", "  auto rng = p.rng;\n  const Real threshold = std::uniform_real_distribution{}(rng);\n") if False else ("Particle.cpp", """Real Particle::Sample() noexcept {
  return std::uniform_real_distribution{}(rng);
""", """Real Particle::Sample() noexcept {
  auto generator = rng;
  return std::uniform_real_distribution{}(generator);
"""))
bug("rep_thread_local_generator", "C07", ("Particle.cpp", """Real Particle::Sample() noexcept {
  return std::uniform_real_distribution{}(rng);
""", """Real Particle::Sample() noexcept {
  thread_local RNG generator{rng()};
  return std::uniform_real_distribution{}(generator);
"""))
bug("rep_thread_local_cache", "C07", ("Cell.cpp", """  const auto& nearest_surface = (*nearest_it).first;
""", """  thread_local std::shared_ptr<const CSGSurface> previous;
  const auto& nearest_surface = previous && (*nearest_it).first->Distance(p, d) == previous->Distance(p, d) ? previous : (*nearest_it).first;
  previous = nearest_surface;
"""))
bug("rep_constant_child_seed", "C07", ("Particle.cpp", "      position, direction, energy, Type::neutron, rng(), cell);", "      position, direction, energy, Type::neutron, 1, cell);"))
bug("rep_address_seed", "C07", ("Particle.cpp", "      position, direction, energy, Type::neutron, rng(), cell);", "      position, direction, energy, Type::neutron, rng() ^ reinterpret_cast<RNG::result_type>(cell), cell);"))
bug("rep_time_seed", "C07", ("Source.cpp", "  RNG rng{seed};", "  RNG rng{seed ^ static_cast<RNG::result_type>(std::time(nullptr) / 86400)};"), ("Source.cpp", "#include <cmath>\n", "#include <cmath>\n#include <ctime>\n"))
bug("rep_materials_by_address", "C07", ("Material.hpp", """      std::map<std::shared_ptr<const Nuclide>, Real, CompareName>;""", """      std::map<std::shared_ptr<const Nuclide>, Real>;"""))
bug("rep_compare_addresses", "C07", ("Cell.cpp", "  return lhs->name < rhs->name;", "  return lhs < rhs;"))
bug("rep_indirect_effects_draw", "C07", ("Particle.cpp", """    indirect_effect += perturbation->Scatter(*this, mu, e);
""", """    indirect_effect += perturbation->Scatter(*this, mu, e) * (Sample() < 2);
"""))
bug("rep_object_generator", "C07", ("Source.hpp", """class IsotropicFlux : public""", """static RNG own{1};
class IsotropicFlux : public"""), ("Source.cpp", """  return Direction{rng};
""", """  own.seed(rng());
  return Direction{own};
"""))
same("rep_named_draws", ("Particle.cpp", """  secondaries.emplace_back(
      position, direction, energy, Type::neutron, rng(), cell);
""", """  const auto child_seed = rng();
  secondaries.emplace_back(
      position, direction, energy, Type::neutron, child_seed, cell);
"""), ("Source.cpp", """  auto sampled_seed = rng();
  return Particle{
      sampled_position, sampled_direction, sampled_energy,
      sampled_particle_type, sampled_seed};
""", """  return Particle{
      sampled_position, sampled_direction, sampled_energy,
      sampled_particle_type, rng()};
"""), ("Particle.cpp", """Real Particle::Sample() noexcept {
  return std::uniform_real_distribution{}(rng);
""", """Real Particle::Sample() noexcept {
  auto& generator = rng;
  return std::uniform_real_distribution{}(generator);
"""))
same("rep_effects_loop", ("Particle.cpp", """  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    indirect_effect += perturbation->Scatter(*this, mu, e);
  }
""", """  for (auto it = indirect_effects.begin(); it != indirect_effects.end(); it++) {
    const Real change = it->first->Scatter(*this, mu, e);
    it->second = it->second + change;
  }
"""))

# ---- C05: strings and the life of the XML library
XSTR = """  const auto release = [](char* s) { xercesc::XMLString::release(&s); };
  std::unique_ptr<char, decltype(release)> p{
      xercesc::XMLString::transcode(str), release};
  return std::string{p.get()};
"""
XINI = """  XercesInitializer init;
  XercesErrorHandler error_handler;
  xercesc::XercesDOMParser parser;
"""
bug("xml_default_delete", ["C05"], ("XMLDocument.cpp", XSTR, """  std::unique_ptr<char> p{xercesc::XMLString::transcode(str)};
  return std::string{p.get()};
"""))
bug("xml_leak", ["C05"], ("XMLDocument.cpp", XSTR, """  const char* const p = xercesc::XMLString::transcode(str);
  return std::string{p};
"""))
bug("xml_leak_temp", ["C05"], ("XMLDocument.cpp", XSTR, """  return std::string{xercesc::XMLString::transcode(str)};
"""))
bug("xml_raw_throws", ["C05"], ("XMLDocument.cpp", XSTR, """  char* p = xercesc::XMLString::transcode(str);
  std::string s{p};
  xercesc::XMLString::release(&p);
  return s;
"""))
bug("xml_leak_path", ["C05"], ("XMLDocument.cpp", XSTR, """  char* p = xercesc::XMLString::transcode(str);
  if (*p == 0) {
    return {};
  }
  const auto release = [](char* s) { xercesc::XMLString::release(&s); };
  std::unique_ptr<char, decltype(release)> q{p, release};
  return std::string{q.get()};
"""))
bug("xml_double", ["C05"], ("XMLDocument.cpp", """  return std::string{p.get()};
}
""", """  std::string result{p.get()};
  auto raw = p.get();
  xercesc::XMLString::release(&raw);
  return result;
}
"""))
bug("xml_give_up", ["C05"], ("XMLDocument.cpp", "return std::string{p.get()};", "return std::string{p.release()};"))
bug("xml_deleter_cond", ["C05"], ("XMLDocument.cpp", "{ xercesc::XMLString::release(&s); }", "{ if (*s) xercesc::XMLString::release(&s); }"))
bug("xml_deleter_free", ["C05"], ("XMLDocument.cpp", "{ xercesc::XMLString::release(&s); }", "{ delete[] s; }"))
bug("xml_order", ["C05"], ("XMLDocument.cpp", XINI, """  XercesErrorHandler error_handler;
  xercesc::XercesDOMParser parser;
  XercesInitializer init;
"""))
bug("xml_temporary_guard", ["C05"], ("XMLDocument.cpp", "  XercesInitializer init;\n", "  XercesInitializer{};\n"))
bug("xml_scope", ["C05"], ("XMLDocument.cpp", "  XercesInitializer init;\n", "  { XercesInitializer init; }\n"))
bug("xml_no_guard", ["C05"], ("XMLDocument.cpp", "  XercesInitializer init;\n", ""))
bug("xml_raw_pair", ["C05"], ("XMLDocument.cpp", "  XercesInitializer init;\n", "  xercesc::XMLPlatformUtils::Initialize();\n"),
    ("XMLDocument.cpp", "  return doc;\n}", "  xercesc::XMLPlatformUtils::Terminate();\n  return doc;\n}"))
bug("xml_guard_copy", ["C05"], ("XMLDocument.cpp", "XercesInitializer(const XercesInitializer&) = delete;", "XercesInitializer(const XercesInitializer&) noexcept {}"),
    ("XMLDocument.cpp", "  XercesInitializer init;\n", "  XercesInitializer init;\n  const XercesInitializer other{init};\n"))
bug("xml_guard_once", ["C05"], ("XMLDocument.cpp", "~XercesInitializer() noexcept { xercesc::XMLPlatformUtils::Terminate(); }", """~XercesInitializer() noexcept {
    if (!std::uncaught_exceptions()) {
      xercesc::XMLPlatformUtils::Terminate();
    }
  }"""))
bug("xml_guard_static", ["C05"], ("XMLDocument.cpp", "XercesInitializer() noexcept { xercesc::XMLPlatformUtils::Initialize(); }", """XercesInitializer() noexcept {
    static bool first = true;
    if (first) {
      xercesc::XMLPlatformUtils::Initialize();
    }
    first = false;
  }"""))
same("xml_functor", ("XMLDocument.cpp", "// Convert from XMLCh array to std::string\n", """struct Returner {
  void operator()(char* s) const { xercesc::XMLString::release(&s); }
};
// Convert from XMLCh array to std::string
"""), ("XMLDocument.cpp", XSTR, """  const std::unique_ptr<char, Returner> p{xercesc::XMLString::transcode(str)};
  return p.get();
"""))
same("xml_function_deleter", ("XMLDocument.cpp", "// Convert from XMLCh array to std::string\n", """static void give_back(char* s) noexcept {
  auto copy = s;
  xercesc::XMLString::release(&s);
}
// Convert from XMLCh array to std::string
"""), ("XMLDocument.cpp", XSTR, """  auto owned = xercesc::XMLString::transcode(str);
  const std::unique_ptr<char, void (*)(char*)> p{owned, give_back};
  std::string converted{p.get()};
  return converted;
"""))
same("xml_shared", ("XMLDocument.cpp", XSTR, """  const std::shared_ptr<char> p{
      xercesc::XMLString::transcode(str),
      [](char* s) { xercesc::XMLString::release(&s); }};
  return std::string{p.get()};
"""))
same("xml_holder", ("XMLDocument.cpp", "// Convert from XMLCh array to std::string\n", """class Transcoded {
public:
  explicit Transcoded(const XMLCh* s) : text{xercesc::XMLString::transcode(s)} {}
  ~Transcoded() { xercesc::XMLString::release(&text); }
  Transcoded(const Transcoded&) = delete;
  Transcoded& operator=(const Transcoded&) = delete;
  const char* c_str() const noexcept { return text; }
private:
  char* text;
};
// Convert from XMLCh array to std::string
"""), ("XMLDocument.cpp", XSTR, """  return Transcoded{str}.c_str();
"""))
bug("xml_holder_copy", ["C05"], ("XMLDocument.cpp", "// Convert from XMLCh array to std::string\n", """class Transcoded {
public:
  explicit Transcoded(const XMLCh* s) : text{xercesc::XMLString::transcode(s)} {}
  ~Transcoded() { xercesc::XMLString::release(&text); }
  const char* c_str() const noexcept { return text; }
private:
  char* text;
};
// Convert from XMLCh array to std::string
"""), ("XMLDocument.cpp", XSTR, """  const Transcoded t{str};
  return Transcoded{t}.c_str();
"""))
same("xml_split", ("XMLDocument.cpp", """  // Xerces-C++ validation
  XercesInitializer init;
  XercesErrorHandler error_handler;
  xercesc::XercesDOMParser parser;
  parser.setValidationScheme(xercesc::XercesDOMParser::Val_Always);
  parser.setDoSchema(true);
  parser.setDoNamespaces(true);
  parser.setErrorHandler(&error_handler);
  parser.parse(xml_filepath.string().c_str());
""", """  {
    const auto init = std::make_unique<XercesInitializer>();
    CheckAgainstSchema(xml_filepath);
  }
"""), ("XMLDocument.cpp", """pugi::xml_document
XMLDocument::ValidateXML""", """// Xerces-C++ validation
static void CheckAgainstSchema(const std::filesystem::path& xml_filepath) {
  XercesErrorHandler error_handler;
  const auto parser = std::make_unique<xercesc::XercesDOMParser>();
  parser->setValidationScheme(xercesc::XercesDOMParser::Val_Always);
  parser->setDoSchema(true);
  parser->setDoNamespaces(true);
  parser->setErrorHandler(&error_handler);
  parser->parse(xml_filepath.string().c_str());
}

pugi::xml_document
XMLDocument::ValidateXML"""))
same("xml_static_guard", ("XMLDocument.cpp", "  XercesInitializer init;\n", "  static const XercesInitializer init;\n"))
same("xml_defaulted_handler", ("XMLDocument.cpp", "    HandleException(exc);\n  }\n  // Handles recoverable", "    const auto& reported = exc;\n    HandleException(reported);\n  }\n  // Handles recoverable"))

# ---- C03: validated before use
VSET = """  parser.setValidationScheme(xercesc::XercesDOMParser::Val_Always);
  parser.setDoSchema(true);
  parser.setDoNamespaces(true);
  parser.setErrorHandler(&error_handler);
"""
VPARSE = "  parser.parse(xml_filepath.string().c_str());\n"
VLOAD = """  pugi::xml_document doc{};
  if (auto result = doc.load_file(xml_filepath.c_str()); !result) {
    throw std::runtime_error(result.description());
  }
  return doc;
"""
VALL = VSET + VPARSE + "  // pugixml DOM construction\n" + VLOAD
bug("val_auto", ["C03"], ("XMLDocument.cpp", "XercesDOMParser::Val_Always", "XercesDOMParser::Val_Auto"))
bug("val_no_schema", ["C03"], ("XMLDocument.cpp", "  parser.setDoSchema(true);\n", ""))
bug("val_namespaces", ["C03"], ("XMLDocument.cpp", "setDoNamespaces(true)", "setDoNamespaces(false)"))
bug("val_identity", ["C03"], ("XMLDocument.cpp", VPARSE, "  parser.setIdentityConstraintChecking(false);\n" + VPARSE))
bug("val_late_handler", ["C03"], ("XMLDocument.cpp", "  parser.setErrorHandler(&error_handler);\n" + VPARSE, VPARSE + "  parser.setErrorHandler(&error_handler);\n"))
bug("val_no_handler", ["C03"], ("XMLDocument.cpp", "  parser.setErrorHandler(&error_handler);\n", ""))
bug("val_error_is_warning", ["C03"], ("XMLDocument.cpp", """  void error(const xercesc::SAXParseException& exc) final {
    HandleException(exc);
  }""", """  void error(const xercesc::SAXParseException& exc) final {
    if (exc.getLineNumber() == 0) {
      return;
    }
    HandleException(exc);
  }"""))
bug("val_handler_prints", ["C03"], ("XMLDocument.cpp", "    throw std::runtime_error(error_message);", "    if (have_file_location) {\n      throw std::runtime_error(error_message);\n    }"))
bug("val_load_first", ["C03"], ("XMLDocument.cpp", VALL, VSET + VLOAD.replace("  return doc;\n", "") + "  if (doc.child(\"minimc\")) {\n    return doc;\n  }\n" + VPARSE + "  return doc;\n"))
bug("val_other_file", ["C03"], ("XMLDocument.cpp", VPARSE, "  parser.parse((xml_filepath.string() + \".validated\").c_str());\n"))
bug("val_skip_small", ["C03"], ("XMLDocument.cpp", VPARSE, "  if (std::filesystem::file_size(xml_filepath) > 64) {\n  " + VPARSE + "  }\n"))
bug("val_unchecked_load", ["C03"], ("XMLDocument.cpp", VLOAD, """  pugi::xml_document doc{};
  auto result = doc.load_file(xml_filepath.c_str());
  if (!result && result.status != pugi::status_end_element_mismatch) {
    throw std::runtime_error(result.description());
  }
  return doc;
"""))
bug("val_catch", ["C03", "C01"], ("XMLDocument.cpp", VPARSE, """  try {
    parser.parse(xml_filepath.string().c_str());
  } catch (const std::runtime_error& e) {
    if (xml_filepath.extension() == ".xml") {
      throw;
    }
  }
"""))
bug("val_second_ctor", ["C03"], ("XMLDocument.hpp", "  XMLDocument(const std::filesystem::path& xml_filepath);\n", """  XMLDocument(const std::filesystem::path& xml_filepath);
  /// @brief Loads a document from memory
  XMLDocument(const std::string& contents);
"""), ("XMLDocument.cpp", """    : doc{ValidateXML(xml_filepath)} {}
""", """    : doc{ValidateXML(xml_filepath)} {}

static pugi::xml_document FromMemory(const std::string& contents) {
  pugi::xml_document doc{};
  if (auto result = doc.load_string(contents.c_str()); !result) {
    throw std::runtime_error(result.description());
  }
  return doc;
}

XMLDocument::XMLDocument(const std::string& contents)
    : doc{FromMemory(contents)} {}
"""))
bug("val_alter", ["C03"], ("XMLDocument.cpp", "  return doc;\n}", "  doc.child(\"minimc\").remove_child(\"sensitivities\");\n  return doc;\n}"))
bug("val_bypass", ["C03"], ("Driver.cpp", "  auto doc = std::make_unique<XMLDocument>(xml_filepath);", """  pugi::xml_document general;
  general.load_file(xml_filepath.c_str());
  auto doc = std::make_unique<XMLDocument>(xml_filepath);"""))
bug("val_handler_scope", ["C03"], ("XMLDocument.cpp", "  XercesErrorHandler error_handler;\n", ""), ("XMLDocument.cpp", "  parser.setErrorHandler(&error_handler);\n", "  {\n    XercesErrorHandler error_handler;\n    parser.setErrorHandler(&error_handler);\n  }\n"))
same("val_reorder", ("XMLDocument.cpp", VSET, """  parser.setErrorHandler(&error_handler);
  parser.setDoNamespaces(true);
  parser.setValidationSchemaFullChecking(true);
  parser.setDoSchema(true);
  parser.setValidationScheme(xercesc::XercesDOMParser::Val_Always);
"""), ("XMLDocument.cpp", VPARSE, "  const auto name = xml_filepath.string();\n  parser.parse(name.c_str());\n"))
same("val_status", ("XMLDocument.cpp", VLOAD, """  pugi::xml_document doc;
  const auto result = doc.load_file(xml_filepath.string().c_str());
  if (result) {
    return doc;
  }
  throw std::runtime_error(result.description());
"""))
same("val_status2", ("XMLDocument.cpp", VLOAD, """  pugi::xml_document doc;
  const auto result = doc.load_file(xml_filepath.c_str());
  if (result.status != pugi::status_ok) {
    throw std::runtime_error(result.description());
  }
  return doc;
"""))
same("val_handler_pointer", ("XMLDocument.cpp", "  XercesErrorHandler error_handler;\n", "  const auto error_handler = std::make_unique<XercesErrorHandler>();\n"), ("XMLDocument.cpp", "setErrorHandler(&error_handler)", "setErrorHandler(error_handler.get())"))
same("val_split_out", ("XMLDocument.hpp", "  // Validates an XML file with", "  // Reads a validated document\n  static pugi::xml_document Load(const std::filesystem::path& xml_filepath);\n  // Validates an XML file with"), ("XMLDocument.cpp", "  // pugixml DOM construction\n" + VLOAD + "}\n", """  return Load(xml_filepath);
}

pugi::xml_document
XMLDocument::Load(const std::filesystem::path& xml_filepath) {
""" + VLOAD + "}\n"))
same("val_rethrow", ("XMLDocument.cpp", VPARSE, """  try {
    parser.parse(xml_filepath.string().c_str());
  } catch (const std::runtime_error& e) {
    throw std::runtime_error(std::string{"invalid: "} + e.what());
  }
"""))

# -- C02 ---------------------------------------------------------------------
bug("doc_bins_swapped", ["C02"], ("Bins.cpp", 'bins_type == "linspace"', 'bins_type == "XX"'), ("Bins.cpp", 'bins_type == "logspace"', 'bins_type == "linspace"'), ("Bins.cpp", 'bins_type == "XX"', 'bins_type == "logspace"'))
bug("doc_bins_merged", ["C02"], ("Bins.cpp", "std::make_unique<const LogspaceBins>(bins_node)", "std::make_unique<const LinspaceBins>(bins_node)"))
bug("doc_bins_misspelled", ["C02"], ("Bins.cpp", 'bins_type == "boundaries"', 'bins_type == "boundary"'))
bug("doc_bins_else", ["C02"], ("Bins.cpp", """  else {
    assert(false); // this should have been caught by the validator
    return {};
  }
}

Bins::~Bins""", """  else {
    return std::make_unique<const NoBins>();
  }
}

Bins::~Bins"""), ("Bins.cpp", 'bins_type == "logspace"', 'bins_type == "log"'))
bug("doc_flux_misspelled", ["C02"], ("Source.cpp", '"isotropic-flux"', '"isotropic_flux"'))
bug("doc_flux_prefix", ["C02"], ("Source.cpp", 'distribution_name == "isotropic")', 'distribution_name.rfind("isotropic", 0) == 0)'))
bug("doc_field_attribute", ["C02"], ("ScalarField.cpp", 'scalar_field_node.attribute("c").as_double()},\n      c{', 'scalar_field_node.attribute("value").as_double()},\n      c{'))
bug("doc_reaction_merged", ["C02"], ("Reaction.cpp", "return Reaction::scatter;", "return Reaction::capture;"))
bug("doc_reaction_swapped", ["C02"], ("Reaction.cpp", "return Reaction::scatter;", "return Reaction::XX;"), ("Reaction.cpp", "return Reaction::fission;", "return Reaction::scatter;"), ("Reaction.cpp", "return Reaction::XX;", "return Reaction::fission;"))
bug("doc_tracking_default", ["C02"], ("TransportMethod.cpp", 'else if (tracking_type == "cell delta")', 'else if (tracking_type == "cell_delta")'))
bug("doc_tracking_ignored", ["C02"], ("TransportMethod.cpp", 'if (tracking_type.empty() || tracking_type == "surface")', 'if (tracking_type.empty() || tracking_type != "delta")'))
bug("doc_problem", ["C02"], ("Driver.cpp", "std::make_unique<KEigenvalue>(doc->root)", "std::make_unique<FixedSource>(doc->root)"))
bug("doc_surface_merged", ["C02"], ("CSGSurface.cpp", "std::make_unique<const CylinderX>(surface_node)", "std::make_unique<const PlaneX>(surface_node)"))
bug("doc_total_T", ["C02"], ("ThermalScattering.cpp", "attribute(\"total_T\")", "attribute(\"total_t\")"))
bug("doc_particle_default", ["C02"], ("Particle.cpp", 'else if (name == "photon") {', 'else {'), ("Particle.cpp", """  else {
    throw std::runtime_error("Unrecognized particle type: \\"" + name + "\\"");
  };
""", ""))
bug("doc_energy_kind", ["C02"], ("Source.cpp", 'energy_type == "multigroup"', 'energy_type != "multi"'))
REACTION = '''Reaction ToReaction(const std::string& name) {
  if (name == "capture") {
    return Reaction::capture;
  }
  else if (name == "scatter") {
    return Reaction::scatter;
  }
  else if (name == "fission") {
    return Reaction::fission;
  }
  else {
    throw std::runtime_error("Unrecognized reaction name: " + name);
  };
}
'''
same("doc_reaction_map", ("Reaction.cpp", "#include <stdexcept>\n", "#include <map>\n#include <stdexcept>\n"), ("Reaction.cpp", REACTION, '''Reaction ToReaction(const std::string& name) {
  static const std::map<std::string, Reaction> reactions{
      {"capture", Reaction::capture},
      {"scatter", Reaction::scatter},
      {"fission", Reaction::fission}};
  const auto it = reactions.find(name);
  if (it == reactions.end()) {
    throw std::runtime_error("Unrecognized reaction name: " + name);
  }
  return it->second;
}
'''))
same("doc_reaction_early", ("Reaction.cpp", REACTION, '''Reaction ToReaction(const std::string& name) {
  if (name.compare("capture") == 0)
    return Reaction::capture;
  if (name.compare("scatter") == 0)
    return Reaction::scatter;
  if (name != "fission")
    throw std::runtime_error("Unrecognized reaction name: " + name);
  return Reaction::fission;
}
'''))
same("doc_flux_first", ("Source.cpp", '''    else if (distribution_name == "isotropic") {
      return std::make_unique<IsotropicDistribution>();
    }
    else if (distribution_name == "isotropic-flux"){
      return std::make_unique<IsotropicFlux>(distribution_node);
    }
''', '''    const auto isotropic = distribution_name.rfind("isotropic", 0) == 0;
    if (isotropic) {
      if (distribution_name.size() > 9) {
        return std::make_unique<IsotropicFlux>(distribution_node);
      }
      return std::make_unique<IsotropicDistribution>();
    }
'''))
same("doc_problem_helper", ("Driver.cpp", '''  const std::string problem_type =
      doc->root.child("problemtype").first_child().name();
  if (problem_type == "fixedsource") {
    return std::make_unique<FixedSource>(doc->root);
  }
  else if (problem_type == "keigenvalue") {
    return std::make_unique<KEigenvalue>(doc->root);
  }
  else {
    assert(false); // this should have been caught by the validator
    return {};
  }
''', '''  const auto problem_node = doc->root.child("problemtype");
  if (problem_node.child("fixedsource")) {
    return std::make_unique<FixedSource>(doc->root);
  }
  if (!problem_node.child("keigenvalue")) {
    throw std::runtime_error("no problem type");
  }
  return std::make_unique<KEigenvalue>(doc->root);
'''), ("Driver.cpp", "#include <iosfwd>\n", "#include <iosfwd>\n#include <stdexcept>\n"))
same("doc_tracking_ternary", ("TransportMethod.cpp", '''  const std::string tracking_type =
      root.child("general").child("tracking").child_value();
''', '''  const auto tracking_node = root.child("general").child("tracking");
  const std::string tracking_type =
      tracking_node ? tracking_node.child_value() : "surface";
'''))
same("doc_surface_strings", ("CSGSurface.cpp", '''  switch (ToSurfaceType(surface_node.name())) {
  case CSGSurface::SurfaceType::Sphere:
    surface = std::make_unique<const Sphere>(surface_node);
    break;
  case CSGSurface::SurfaceType::PlaneX:
    surface = std::make_unique<const PlaneX>(surface_node);
    break;
  case CSGSurface::SurfaceType::CylinderX:
    surface = std::make_unique<const CylinderX>(surface_node);
    break;
  }
  return surface;
''', '''  const auto type = ToSurfaceType(surface_node.name());
  if (type == CSGSurface::SurfaceType::Sphere) {
    return std::make_unique<const Sphere>(surface_node);
  }
  if (type == CSGSurface::SurfaceType::PlaneX) {
    return std::make_unique<const PlaneX>(surface_node);
  }
  surface = std::make_unique<const CylinderX>(surface_node);
  return surface;
'''))

# ---- C04 references by name
bug("name_prefix", ["C04"], ("World.cpp", """      [&name](const auto nuclide_ptr) { return nuclide_ptr->name == name; });""",
    """      [&name](const auto nuclide_ptr) {
        return nuclide_ptr->name.compare(0, name.size(), name) == 0;
      });"""))
bug("name_prefix_rfind", ["C04"], ("World.cpp", """      [&name](const auto surface_ptr) { return surface_ptr->name == name; });""",
    """      [&name](const auto surface_ptr) {
        return surface_ptr->name.rfind(name, 0) == 0;
      });"""))
bug("name_last_instead", ["C04"], ("World.cpp", """  if (surface_it == surfaces.cend()) {
    throw std::runtime_error(""", """  if (surfaces.empty()) {
    throw std::runtime_error("""))
bug("name_default_material", ["C04"], ("Cell.cpp", """  // World::CreateMaterials should have created all Material objects needed
  assert(material_it != all_materials.cend());
  return *material_it;""", """  return material_it != all_materials.cend() ? *material_it
                                             : all_materials.back();"""))
bug("name_void_skip", ["C04"], ("World.cpp", """  for (const auto& cell_node : root.child("cells")) {
    for (const auto& surface_node : cell_node) {""", """  for (const auto& cell_node : root.child("cells")) {
    if (std::string{cell_node.name()} == "void") {
      continue;
    }
    for (const auto& surface_node : cell_node) {"""))
bug("name_break", ["C04"], ("World.cpp", """      if (nuclide_it == all_nuclides.cend()) {
        // Find""", """      if (nuclide_it != all_nuclides.cend()) {
        break;
      }
      {
        // Find"""))
bug("name_node_unchecked", ["C04"], ("World.cpp", """        if (!nuclide_node) {""", """        if (!energy_type_node) {"""))
bug("name_findnode_unchecked", ["C04"], ("Material.cpp", """  if (!material_node) {""", """  if (!materials_node) {"""))
bug("name_own_name", ["C04"], ("Perturbation.cpp", """          total_node.attribute("nuclide").as_string())} {}""", """          total_node.attribute("name").as_string())} {}"""))
bug("name_comparator", ["C04"], ("Material.cpp", """  return lhs->name < rhs->name;""", """  return lhs->name.size() < rhs->name.size();"""))
bug("name_void_by_material", ["C04"], ("Cell.cpp", """  if (cell_node.attribute("name").empty()) {
    return nullptr;""", """  if (cell_node.attribute("temperature").empty()) {
    return nullptr;"""))
bug("name_skip_surface", ["C04"], ("Cell.cpp", """    // World::CreateCSGSurfaces should have created all CSGSurface objects
    // needed
    assert(surface_it != all_surfaces.cend());
""", """    if (surface_it == all_surfaces.cend()) {
      continue;
    }
"""))
bug("name_perturbation_guard", ["C04"], ("Perturbation.cpp", """  if (perturbation_it == perturbations.cend()) {""", """  if (perturbations.empty()) {"""))
bug("name_firstchar", ["C04"], ("World.cpp", """          [&nuclide_name](const std::shared_ptr<const Nuclide>& nuclide) {
            return nuclide->name == nuclide_name;
          });""", """          [&nuclide_name](const std::shared_ptr<const Nuclide>& nuclide) {
            return nuclide->name.find(nuclide_name) != std::string::npos;
          });"""))
bug("name_other_attr", ["C04"], ("CSGSurface.cpp", """      surfaces_node.find_child_by_attribute("name", name.c_str())};""", """      surfaces_node.find_child_by_attribute("id", name.c_str())};"""))
bug("name_nearest", ["C04"], ("Cell.cpp", """  if (nearest_it == surface_senses.cend()) {""", """  if (nearest_it == surface_senses.cbegin()) {"""))
bug("name_lower", ["C04"], ("CSGSurface.cpp", """      surfaces_node.find_child_by_attribute("name", name.c_str())};""", """      surfaces_node.find_child_by_attribute(
          "name", name.substr(0, name.find(' ')).c_str())};"""))
same("name_throw_first", ("World.cpp", """  if (surface_it == surfaces.cend()) {
    throw std::runtime_error(
        "Surface \\"" + name""", """  if (surface_it != surfaces.cend()) {
    return *surface_it;
  }
  else {
    throw std::runtime_error(
        "Surface \\"" + name"""), ("World.cpp", """              return accumulated + "\\"" + surface_ptr->name + "\\", ";
            }) +
        "]");
  }
  else {
    return *surface_it;
  }
}""", """              return accumulated + "\\"" + surface_ptr->name + "\\", ";
            }) +
        "]");
  }
}"""))
same("name_loop", ("World.cpp", """  const auto nuclide_it = std::find_if(
      nuclides.cbegin(), nuclides.cend(),
      [&name](const auto nuclide_ptr) { return nuclide_ptr->name == name; });
  if (nuclide_it == nuclides.cend()) {
    throw std::runtime_error(""", """  for (const auto& candidate : nuclides) {
    if (candidate->name == name) {
      return candidate;
    }
  }
  {
    throw std::runtime_error("""), ("World.cpp", """              return accumulated + "\\"" + nuclide_ptr->name + "\\", ";
            }) +
        "]");
  }
  else {
    return *nuclide_it;
  }
}""", """              return accumulated + "\\"" + nuclide_ptr->name + "\\", ";
            }) +
        "]");
  }
}"""))
same("name_helper", ("World.cpp", """      auto surface_name = surface_node.attribute("name").as_string();
      auto surface_it = std::find_if(
          all_surfaces.cbegin(), all_surfaces.cend(),
          [&surface_name](const std::shared_ptr<const CSGSurface>& surface) {
            return surface->name == surface_name;
          });
      if (surface_it == all_surfaces.cend()) {
        all_surfaces""", """      const std::string surface_name = surface_node.attribute("name").as_string();
      if (!HasName(all_surfaces, surface_name)) {
        all_surfaces"""), ("World.cpp", """const Cell& World::FindCellContaining(""", """template <typename V>
static bool HasName(const V& objects, const std::string& name) {
  return std::any_of(objects.cbegin(), objects.cend(), [&name](const auto& o) {
    return o->name == name;
  });
}

const Cell& World::FindCellContaining("""))
same("name_throws_instead_of_assert", ("Material.cpp", """    // World::CreateNuclides should have created all Nuclide objects needed
    assert(nuclide_it != all_nuclides.cend());
""", """    if (nuclide_it == all_nuclides.cend()) {
      throw std::runtime_error("missing nuclide");
    }
"""))
same("name_string_key", ("Cell.cpp", """  auto material_name = cell_node.attribute("material").as_string();
""", """  const std::string material_name = cell_node.attribute("material").as_string();
"""))
same("name_void_by_tag", ("Cell.cpp", """  if (cell_node.attribute("name").empty()) {
    return nullptr;""", """  if (std::string{cell_node.name()} == "void") {
    return nullptr;"""))
same("name_creator_if", ("World.cpp", """    if (std::string{cell_node.name()} == "void") {
      // Skip void cells
      continue;
    }
    auto material_name = cell_node.attribute("material").as_string();
    auto material_it = std::find_if(
        all_materials.cbegin(), all_materials.cend(),
        [&material_name](const std::shared_ptr<const Material>& material) {
          return material->name == material_name;
        });
    if (material_it == all_materials.cend()) {
      all_materials.push_back(
          std::make_shared<const Material>(root, material_name, all_nuclides));
    }
""", """    if (cell_node.attribute("material")) {
      const std::string wanted{cell_node.attribute("material").as_string()};
      const bool known = std::any_of(
          all_materials.begin(), all_materials.end(),
          [&wanted](const auto& m) { return m->name == wanted; });
      if (!known) {
        all_materials.emplace_back(
            std::make_shared<const Material>(root, wanted, all_nuclides));
      }
    }
"""))

# -- boundaries of axes
bug("axes_step", ["C28"], ("Bins.cpp", "lower_bound + i * bin_width << ", "lower_bound + (i + 1) * bin_width << "))
bug("axes_short", ["C28"], ("Bins.cpp", """  for (size_t i = 0; i < n_bins - 1; i++) {
    sstream << std::scientific << lower""", """  for (size_t i = 0; i + 2 < n_bins; i++) {
    sstream << std::scientific << lower"""))
bug("axes_exponents", ["C28"], ("Bins.cpp", "std::pow(base, log_lower_bound + i * log_bin_width)", "log_lower_bound + i * log_bin_width"))
bug("axes_base", ["C28"], ("Bins.cpp", "std::pow(base, log_lower_bound + i * log_bin_width)", "std::pow(10, log_lower_bound + i * log_bin_width)"))
bug("axes_skip_zero", ["C28"], ("Bins.cpp", """    sstream << std::scientific << boundary << ", ";""", """    if (boundary != 0) {
      sstream << std::scientific << boundary << ", ";
    }"""))
same("axes_exp", ("Bins.cpp", "std::pow(base, log_lower_bound + i * log_bin_width)", "std::pow(base, (log_lower_bound * (n_bins - 2 - i) + log_upper_bound * i) / (n_bins - 2))"))
bug("xml_guard_local_static", ["C05"], ("XMLDocument.cpp", "  XercesInitializer() noexcept { xercesc::XMLPlatformUtils::Initialize(); }\n", "  XercesInitializer() noexcept {\n    static const bool once = (xercesc::XMLPlatformUtils::Initialize(), true);\n    (void)once;\n  }\n"))
same("xml_guard_helper", ("XMLDocument.cpp", "  XercesInitializer() noexcept { xercesc::XMLPlatformUtils::Initialize(); }\n", "  XercesInitializer() noexcept { Start(); }\n  static void Start() { xercesc::XMLPlatformUtils::Initialize(); }\n"))

# -- what tallies score (C26) --------------------------------------------------
EST = "Estimator.cpp"
BIN = "Bins.cpp"
SC = '''  if (p.current_surface == surface &&
      (p.event == Particle::Event::surface_cross ||
       p.event == Particle::Event::leak)) {
    return 1;
  }
  else {
    return 0;
  }
'''
bug("cur_no_leak", ["C26"], (EST, SC, '''  return p.current_surface == surface && p.event == Particle::Event::surface_cross ? 1 : 0;
'''))
bug("cur_any_event", ["C26"], (EST, SC, '''  return p.current_surface == surface ? 1 : 0;
'''))
bug("cur_not_scatter", ["C26"], (EST, SC, '''  return p.current_surface == surface && p.event != Particle::Event::scatter && p.event != Particle::Event::virtual_collision ? 1 : 0;
'''))
bug("cur_leak_anywhere", ["C26"], (EST, SC, '''  if (p.event == Particle::Event::leak) {
    return 1;
  }
  return p.current_surface == surface && p.event == Particle::Event::surface_cross ? 1 : 0;
'''))
bug("cur_cosine_position", ["C26"], (BIN, "direction.value().Dot(p.GetDirection())", "direction.value().Dot(p.GetPosition())"))
bug("cur_cosine_abs", ["C26"], (BIN, "direction.value().Dot(p.GetDirection())", "std::abs(direction.value().Dot(p.GetDirection()))"), )
bug("cur_uvw", ["C26"], (BIN, 'cosine_node.attribute("v").as_double()', 'cosine_node.attribute("w").as_double()'))
bug("cur_energy_one", ["C26"], (BIN, "direction ? cosine->GetIndex", "direction && cosine->size() > 2 ? cosine->GetIndex"))
same("cur_switch", (EST, SC, '''  switch (p.event) {
  case Particle::Event::surface_cross:
  case Particle::Event::leak:
    return p.current_surface == surface;
  default:
    return 0;
  }
'''))
same("cur_early", (EST, SC, '''  if (surface != p.current_surface) {
    return 0;
  }
  const bool left = p.event == Particle::Event::leak;
  return left || p.event == Particle::Event::surface_cross ? 1 : 0;
'''))
same("cur_variant", (BIN, "std::visit(VisitEnergy(), p.GetEnergy())", "std::visit([](const auto& e) -> Real { return e; }, p.GetEnergy())"))
same("cur_holds", (BIN, "const auto e_i = energy->GetIndex(std::visit(VisitEnergy(), p.GetEnergy()));", '''const auto& held = p.GetEnergy();
  const Real number = std::holds_alternative<Group>(held) ? static_cast<Real>(std::get<Group>(held)) : std::get<ContinuousEnergy>(held);
  const auto e_i = energy->GetIndex(number);'''))
same("cur_if", (BIN, '''  const auto c_i =
      direction ? cosine->GetIndex(direction.value().Dot(p.GetDirection())) : 0;
''', '''  size_t c_i = 0;
  if (direction.has_value()) {
    const auto mu = p.GetDirection().Dot(*direction);
    c_i = cosine->GetIndex(mu);
  }
'''))

# -- sensitivities (C37) -----------------------------------------------------
bug("sen_effect_twice", ["C37"], ("Particle.cpp", "indirect_effect += perturbation->Stream(*this, distance);", "indirect_effect += perturbation->Stream(*this, distance) + (event == Event::leak ? 0 : perturbation->Scatter(*this, 1, energy));"))
bug("sen_effect_after", ["C37"], ("Particle.cpp", '''  // update indirect effect due to each perturbation
  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    indirect_effect += perturbation->Stream(*this, distance);
  }
  // update position
  position += direction * distance;
''', '''  // update position
  position += direction * distance;
  // update indirect effect due to each perturbation
  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    indirect_effect += perturbation->Stream(*this, distance);
  }
'''))
bug("sen_effect_first_only", ["C37"], ("Particle.cpp", "    indirect_effect += perturbation->Stream(*this, distance);\n", "    indirect_effect += perturbation->Stream(*this, distance);\n    break;\n"))
bug("sen_effect_set", ["C37"], ("Particle.cpp", "    indirect_effect += perturbation->Scatter(*this, mu, e);\n", "    indirect_effect = perturbation->Scatter(*this, mu, e);\n"))
bug("sen_reset_on_cell", ["C37"], ("Particle.cpp", "void Particle::SetCell(const Cell& c) noexcept { cell = &c; };", "void Particle::SetCell(const Cell& c) noexcept {\n  if (cell && !c.material) {\n    indirect_effects.clear();\n  }\n  cell = &c;\n};"))
bug("sen_source_only", ["C37"], ("FixedSource.cpp", "      bank.back().SetPerturbations(perturbations);\n", "      if (bank.back().event == Particle::Event::birth && bank.begin() == std::prev(bank.end())) {\n        bank.back().SetPerturbations(perturbations);\n      }\n") if 0 else ("FixedSource.cpp", "    // beginning with the initial Particle, complete the history\n    while (!bank.empty()) {\n      // add indirect effects to current Particle\n      bank.back().SetPerturbations(perturbations);\n", "    // beginning with the initial Particle, complete the history\n    bank.back().SetPerturbations(perturbations);\n    while (!bank.empty()) {\n"))
bug("sen_starts_at_one", ["C37"], ("Perturbation.cpp", "result.insert(std::make_pair(perturbation.get(), 0));", "result.insert(std::make_pair(perturbation.get(), result.empty() ? 0 : 1));"))
bug("sen_no_score", ["C37"], ("Sensitivity.cpp", "return p.GetIndirectEffect(&perturbation) * estimator.GetScore(p);", "return p.GetIndirectEffect(&perturbation);"))
bug("sen_absent", ["C37"], ("Perturbation.cpp", "if (atom_fractions.find(nuclide) == atom_fractions.cend()) {", "if (atom_fractions.size() > 1 && atom_fractions.find(nuclide) == atom_fractions.cend()) {"))
bug("sen_first_of_list", ["C37"], (EST, '''             estimator_node.child("sensitivities")) {
''', '''             estimator_node.child("sensitivities")) {
          if (!result.empty() && sensitivity_node == estimator_node.child("sensitivities").last_child()) {
            continue;
          }
''') if 0 else ("Perturbation.cpp", "          result.push_back(Perturbation::Create(perturbation_node, world));\n", "          if (perturbation_node.next_sibling() || result.size() < 2) {\n            result.push_back(Perturbation::Create(perturbation_node, world));\n          }\n"))
same("sen_algorithm", ("Particle.cpp", '''  for (auto& [perturbation, indirect_effect] : indirect_effects) {
    indirect_effect += perturbation->Stream(*this, distance);
  }
''', '''  for (auto it = indirect_effects.begin(); it != indirect_effects.end(); ++it) {
    const Real contribution = it->first->Stream(*this, distance);
    it->second += contribution;
  }
'''))
same("sen_subscript", ("Perturbation.cpp", "result.insert(std::make_pair(perturbation.get(), 0));", "result[perturbation.get()] = 0;"))
same("sen_emplace", ("Perturbation.cpp", "result.insert(std::make_pair(perturbation.get(), 0));", "result.emplace(perturbation.get(), 0);"))
same("sen_count", ("Perturbation.cpp", "if (atom_fractions.find(nuclide) == atom_fractions.cend()) {", "if (atom_fractions.count(nuclide) == 0) {"))
same("sen_order", ("Sensitivity.cpp", "return p.GetIndirectEffect(&perturbation) * estimator.GetScore(p);", "const Real score = estimator.GetScore(p);\n  if (score == 0) {\n    return 0;\n  }\n  return score * p.GetIndirectEffect(&perturbation);"))
same("sen_loop", ("FixedSource.cpp", '''      bank.back().SetPerturbations(perturbations);
      // transport the Particle
      bank.back().Transport(scoring_proxy, world);
''', '''      Particle& current = bank.back();
      current.SetPerturbations(perturbations);
      current.Transport(scoring_proxy, world);
'''))

# -- the model is the one described -------------------------------------------
bug("mod_sphere_axis", ["C39"], ("CSGSurface.cpp", 'center{sphere_node.child("center")}', 'center{sphere_node.child("radius")}'))
bug("mod_sphere_diameter", ["C39"], ("CSGSurface.cpp", 'radius{sphere_node.child("radius").attribute("r").as_double()}', 'radius{sphere_node.child("radius").attribute("r").as_double() / 2}'))
bug("mod_plane_sign", ["C39"], ("CSGSurface.cpp", 'c{planex_node.attribute("x").as_double()}', 'c{-planex_node.attribute("x").as_double()}'))
bug("mod_point_yz", ["C39"], ("Point.cpp", 'y{pointtype_node.attribute("y").as_double()}', 'y{pointtype_node.attribute("z").as_double()}'))
bug("mod_seed_default", ["C39"], ("Driver.cpp", ': "1")', ': "")'))
bug("mod_seed_ignored", ["C39"], ("Driver.cpp", '''? root.child("general").child("seed").child_value()
              : "1")''', '''? "1"
              : root.child("general").child("seed").child_value())'''))
bug("mod_seed_is_histories", ["C39"], ("Driver.cpp", '? root.child("general").child("seed").child_value()', '? root.child("general").child("histories").child_value()'))
bug("mod_threads_is_histories", ["C39"], ("Driver.cpp", 'std::stoul(root.child("general").child("threads").child_value())', 'std::stoul(root.child("general").child("histories").child_value())'))
bug("mod_total_is_capture", ["C39"], ("Continuous.cpp", '"total")} {}', '"capture")} {}'))
same("mod_awr_default", ("ContinuousReaction.cpp", 'attribute("awr").as_double()} {}', 'attribute("awr").as_double(1)} {}'))
bug("mod_tsl_awr", ["C39"], ("ThermalScattering.cpp", 'awr{tsl_node.parent().parent().parent().attribute("awr").as_double()}', 'awr{tsl_node.parent().parent().parent().attribute("aden").as_double()}'))
bug("mod_tsl_cutoffs", ["C39"], ("ThermalScattering.cpp", 'beta_cutoff{tsl_node.attribute("beta_cutoff")', 'beta_cutoff{tsl_node.attribute("alpha_cutoff")'))
bug("mod_tsl_files", ["C39"], ("ThermalScattering.cpp", 'scatter_xs_T{tsl_node.attribute("total_T")', 'scatter_xs_T{tsl_node.attribute("total_S")'))
bug("mod_root", ["C39"], ("XMLDocument.hpp", '"minimc"', '"inimc"'))
bug("mod_aden", ["C39"], ("Material.cpp", 'FindNode(root, name).attribute("aden")', 'FindNode(root, name).attribute("afrac")'))
bug("mod_eval_temperature", ["C39"], ("ContinuousEvaluation.cpp", 'temperature{evaluation_node.attribute("temperature").as_double()}', 'temperature{evaluation_node.parent().attribute("temperature").as_double()}'))
bug("mod_cells_skip_last", ["C39"], ("World.cpp", "    cells.emplace_back(cell_node, all_surfaces, all_materials, temperature);", "    if (cell_node.next_sibling() || cells.empty()) {\n      cells.emplace_back(cell_node, all_surfaces, all_materials, temperature);\n    }"))
bug("mod_keig_counts", ["C39"], ("KEigenvalue.cpp", '.attribute("inactive")', '.attribute("active")'))
bug("mod_room", ["C39"], ("World.cpp", "return std::make_unique<const ConstantField>(constants::room_temperature);", "return std::make_unique<const ConstantField>(0);"))
bug("mod_perturbations", ["C02"], ("Driver.cpp", 'root.child("perturbations")', 'root.child("estimators")'))
bug("mod_fission_xs", ["C39"], ("ContinuousReaction.cpp", 'ContinuousReaction{scatter_node.child("xs")}', 'ContinuousReaction{scatter_node.parent().child("total")}'))
bug("mod_source", ["C39"], ("FixedSource.cpp", 'root.child("problemtype").child("fixedsource")', 'root.child("problemtype").child("keigenvalue")'))
same("mod_plane_default", ("CSGSurface.cpp", 'c{planex_node.attribute("x").as_double()}', 'c{planex_node.attribute("x").as_double(1)}'))
same("mod_seed_text", ("Driver.cpp", """      seed(std::stoi(
          root.child("general").child("seed")
              ? root.child("general").child("seed").child_value()
              : "1")),""", """      seed(root.child("general").child("seed")
               ? std::stoi(root.child("general").child("seed").child_value())
               : 1),"""))
same("mod_seed_function", ("Driver.cpp", """      seed(std::stoi(
          root.child("general").child("seed")
              ? root.child("general").child("seed").child_value()
              : "1")),""", """      seed(SeedFrom(root.child("general"))),"""), ("Driver.cpp", "// Driver\n", """// Driver

namespace {
RNG::result_type SeedFrom(const pugi::xml_node& general) {
  const pugi::xml_node node = general.child("seed");
  if (!node) {
    return 1;
  }
  return std::stoi(node.child_value());
}
} // namespace
"""))
same("mod_threads_text", ("Driver.cpp", """          std::stoul(root.child("general").child("threads").child_value())}""", """          root.child("general").child("threads").text().as_ullong()}"""))
same("mod_sphere_squared", ("CSGSurface.cpp", "radius{sphere_node.child(\"radius\").attribute(\"r\").as_double()}", "radius{[&sphere_node] {\n        const auto radius_node = sphere_node.child(\"radius\");\n        return radius_node.attribute(\"r\").as_double();\n      }()}"))
same("mod_keig_local", ("KEigenvalue.cpp", """          last_inactive + root.child("problemtype")
                              .child("keigenvalue")
                              .attribute("active")
                              .as_uint()}""", """          root.child("problemtype").child("keigenvalue").attribute("active").as_uint() + last_inactive}"""))
same("mod_cells_index", ("World.cpp", """  for (const auto& cell_node : root.child("cells")) {
    cells.emplace_back(cell_node, all_surfaces, all_materials, temperature);
  }""", """  const auto cells_node = root.child("cells");
  for (auto it = cells_node.begin(); it != cells_node.end(); ++it) {
    cells.push_back(Cell{*it, all_surfaces, all_materials, temperature});
  }"""))
same("mod_temperature_branches", ("World.cpp", """  if (!temperature_node) {
    // default temperature is room temperature
    return std::make_unique<const ConstantField>(constants::room_temperature);
  }
  return ScalarField::Create(temperature_node.first_child());""", """  if (temperature_node) {
    return ScalarField::Create(temperature_node.first_child());
  }
  else {
    return std::make_unique<const ConstantField>(constants::room_temperature);
  }"""))
same("mod_partitions_algorithm", ("ThermalScattering.cpp", """        std::vector<BetaPartition> result;
        for (const auto& partition_node : tsl_node.child("beta_partitions")) {
          result.emplace_back(partition_node);
        }
        return result;""", """        const auto nodes = tsl_node.child("beta_partitions");
        return std::vector<BetaPartition>(nodes.begin(), nodes.end());"""))
same("mod_nubar_if", ("ContinuousReaction.cpp", """          fission_node.child("nubar")
              ? std::make_optional(HDF5DataSet<1>{
                    fission_node.child("nubar").attribute("file").as_string()}
                                       .ToContinuousMap())
              : std::nullopt}""", """          [&fission_node]() -> std::optional<ContinuousMap<double, double>> {
            const auto nubar_node = fission_node.child("nubar");
            if (!nubar_node) {
              return std::nullopt;
            }
            HDF5DataSet<1> table{nubar_node.attribute("file").as_string()};
            return table.ToContinuousMap();
          }()}"""))

# thermal scattering
TS = "ThermalScattering.cpp"
bug("tsl_T_above", ["C40"], (TS, "                   : above_T_max ? 1\n", "                   : above_T_max ? 0\n"))
bug("tsl_E_weight", ["C40"], (TS, "(E - E_lo) / (E_hi - E_lo);", "(E_hi - E) / (E_hi - E_lo);"))
bug("tsl_bilinear_mixed", ["C40"], (TS, "xs_E_lo_T_hi + r_E * (xs_E_hi_T_hi - xs_E_lo_T_hi)", "xs_E_lo_T_hi + r_E * (xs_E_hi_T_hi - xs_E_lo_T_lo)"))
bug("tsl_position_temperature", ["C40"], (TS, """  const Temperature T = p.GetCell().temperature->at(p.GetPosition());
  const auto& Ts""", """  const Temperature T = p.GetCell().temperature->upper_bound;
  const auto& Ts"""))
bug("tsl_first_order", ["C40"], (TS, "  for (size_t order = 0; order < max_order; order++) {\n    result +=", "  for (size_t order = 1; order < max_order; order++) {\n    result +="))
bug("tsl_beta_axes", ["C40"], (TS, "                 E_T_modes.at(E_index, T_lo_i, order);", "                 E_T_modes.at(E_index, T_hi_i, order);"))
bug("tsl_alpha_axis", ["C40"], (TS, "  const auto& Ts = beta_T_modes.GetAxis(1);", "  const auto& Ts = beta_T_modes.GetAxis(0);"))
bug("tsl_nan", ["C40"], (TS, """      below_T_min
          ? beta_T_lo
          : beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);""", """      beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);"""))
bug("tsl_valid_photon", ["C40"], (TS, "p.GetType() == Particle::Type::neutron && E < cutoff_energy", "E < cutoff_energy"))
bug("tsl_valid_above", ["C40"], (TS, "&& E < cutoff_energy", "&& E < 2 * cutoff_energy"))
bug("tsl_mu_awr", ["C40"], (TS, "alpha * awr * constants::boltzmann * T) /", "alpha * constants::boltzmann * T) /"))
bug("tsl_E_sign", ["C40"], (TS, "const auto E_p = E + beta", "const auto E_p = E - beta"))
bug("tsl_choice_swapped", ["C40"], (TS, "      r <= std::uniform_real_distribution{}(p.rng) ? E_hi_i - 1 : E_hi_i;", "      r <= std::uniform_real_distribution{}(p.rng) ? E_hi_i : E_hi_i - 1;"))
bug("tsl_choice_nearest", ["C40"], (TS, "      r <= std::uniform_real_distribution{}(p.rng) ? E_hi_i - 1 : E_hi_i;", "      r <= 0.5 ? E_hi_i - 1 : E_hi_i;"))
bug("tsl_accept_all", ["C40"], (TS, "    if (b_min <= b_prime) {", "    if (2 * b_min <= b_prime) {"))
bug("tsl_local_index", ["C40"], (TS, "P_s_i == 0 ? E_s_i : E_s_i - beta_partition_E_ends.at(P_s_i - 1)", "P_s_i == 0 ? E_s_i : E_s_i - beta_partition_E_ends.at(0)"))
bug("tsl_same_draw", ["C40"], (TS, "    const Real F = std::uniform_real_distribution{}(p.rng);\n", "    const Real F = r;\n"))
bug("tsl_last_beta", ["C40"], (TS, "                                          : beta_cutoff;", "                                          : alpha_cutoff;"))
bug("tsl_alpha_throw", ["C40"], (TS, "      (b_hi_i == betas.size() ||\n       (sgn_b", "      ((sgn_b"))
bug("tsl_alpha_paren", ["C40"], (TS, "(abs_b - betas.at(b_hi_i - 1)) /\n                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));", "(abs_b - betas.at(b_hi_i - 1) /\n                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));"))
bug("tsl_alpha_sign", ["C40"], (TS, "  Beta b_s = sgn_b * betas.at(b_s_i);", "  Beta b_s = betas.at(b_s_i);"))
bug("tsl_alpha_cut", ["C40"], (TS, "beta_cutoff <= betas.at(b_hi_i)", "alpha_cutoff <= betas.at(b_hi_i)"))
bug("tsl_alpha_limits", ["C40"], (TS, "  const Alpha b_s_a_max = std::pow(sqrt_E + b_s_sqrt_E_bkT, 2) / akT;", "  const Alpha b_s_a_max = std::pow(sqrt_E + b_s_sqrt_E_bkT, 2) / awr;"))
bug("tsl_alpha_limits_b", ["C40"], (TS, "  const auto F_max = find_cdf(b_s_a_max);", "  const auto F_max = find_cdf(alpha_cutoff);"))
bug("tsl_alpha_cdf", ["C40"], (TS, "    return F_a_lo + (a - a_lo) * (F_a_hi - F_a_lo) / (a_hi - a_lo);", "    return F_a_lo + (a - a_lo) * (F_a_hi - F_a_lo) / a_hi;"))
bug("tsl_alpha_scale", ["C40"], (TS, "std::sqrt(E + b * constants::boltzmann * T);\n      const Alpha b_a_min", "std::sqrt(E + b_s * constants::boltzmann * T);\n      const Alpha b_a_min"))
bug("tsl_alpha_accept", ["C40"], (TS, "    if (b_s_a_min < a_prime && a_prime < b_s_a_max) {", "    if (a_prime < b_s_a_max) {"))
bug("tsl_ends", ["C40"], (TS, """          current_end += partition.E_T_modes.GetAxis(0).size();
          result.emplace_back(current_end);""", """          result.emplace_back(current_end);
          current_end += partition.E_T_modes.GetAxis(0).size();"""))
bug("tsl_Es_axis", ["C40"], (TS, "const auto& Es = partition.E_T_modes.GetAxis(0);", "const auto& Es = partition.E_T_modes.GetAxis(1);"))
same("tsl_lerp", (TS, "  return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);", "  return (1 - r_T) * xs_T_lo + r_T * xs_T_hi;"))
same("tsl_order", (TS, """  // Linear interpolation in energy
  const auto E_lo = Es.at(E_lo_i);
  const auto E_hi = Es.at(E_hi_i);
  const auto r_E = below_E_min ? 1 : (E - E_lo) / (E_hi - E_lo);
  const auto xs_T_lo = xs_E_lo_T_lo + r_E * (xs_E_hi_T_lo - xs_E_lo_T_lo);
  const auto xs_T_hi = xs_E_lo_T_hi + r_E * (xs_E_hi_T_hi - xs_E_lo_T_hi);

  // Linear interpolation in temperature
  const auto T_lo = Ts.at(T_lo_i);
  const auto T_hi = Ts.at(T_hi_i);
  const auto r_T = below_T_min   ? 1
                   : above_T_max ? 1
                                 : (T - T_lo) / (T_hi - T_lo);
  return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);""", """  // Linear interpolation in temperature
  const auto T_lo = Ts.at(T_lo_i);
  const auto T_hi = Ts.at(T_hi_i);
  const auto r_T = below_T_min || above_T_max ? 1 : (T - T_lo) / (T_hi - T_lo);
  const auto xs_E_lo = xs_E_lo_T_lo + r_T * (xs_E_lo_T_hi - xs_E_lo_T_lo);
  const auto xs_E_hi = xs_E_hi_T_lo + r_T * (xs_E_hi_T_hi - xs_E_hi_T_lo);

  // Linear interpolation in energy
  if (below_E_min) {
    return xs_E_hi;
  }
  const auto E_lo = Es.at(E_lo_i);
  const auto E_hi = Es.at(E_hi_i);
  return xs_E_lo + (E - E_lo) / (E_hi - E_lo) * (xs_E_hi - xs_E_lo);"""))
same("tsl_clamped", (TS, """      below_T_min
          ? beta_T_lo
          : beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);""", """      below_T_min || above_T_max
          ? beta_T_hi
          : beta_T_lo + (beta_T_hi - beta_T_lo) * (T - T_lo) / (T_hi - T_lo);"""))
same("tsl_accept", (TS, """    const auto b_min = -E / (constants::boltzmann * T);
    if (b_min <= b_prime) {
      return b_prime;
    }""", """    const auto E_p = E + b_prime * constants::boltzmann * T;
    if (!(E_p < 0)) {
      return b_prime;
    }"""))
same("tsl_accept_continue", (TS, """    if (b_min <= b_prime) {
      return b_prime;
    }""", """    if (b_prime < b_min) {
      continue;
    }
    return b_prime;"""))
same("tsl_choice_less", (TS, """  const size_t E_s_i =
      r <= std::uniform_real_distribution{}(p.rng) ? E_hi_i - 1 : E_hi_i;""", """  const auto choose_upper = std::uniform_real_distribution{}(p.rng) < r;
  const size_t E_s_i = choose_upper ? E_hi_i : E_hi_i - 1;"""))
same("tsl_kT", (TS, """  const auto E_p = E + beta * constants::boltzmann * T;
  const auto mu = (E + E_p - alpha * awr * constants::boltzmann * T) /
                  (2 * std::sqrt(E * E_p));""", """  const auto kT = constants::boltzmann * T;
  const auto E_p = E + beta * kT;
  const auto mu = 0.5 * (E + E_p - awr * alpha * kT) / (std::sqrt(E) * std::sqrt(E_p));"""))
same("tsl_valid_if", (TS, """  return p.GetType() == Particle::Type::neutron && E < cutoff_energy;""", """  if (p.GetType() != Particle::Type::neutron) {
    return false;
  }
  return !(E >= cutoff_energy);"""))
same("tsl_alpha_limits_helper", (TS, """  const Alpha b_s_a_min = std::pow(sqrt_E - b_s_sqrt_E_bkT, 2) / akT;
  const Alpha b_s_a_max = std::pow(sqrt_E + b_s_sqrt_E_bkT, 2) / akT;""", """  const auto square = [](const Real x) { return x * x; };
  const Alpha b_s_a_min = square(sqrt_E - b_s_sqrt_E_bkT) / akT;
  const Alpha b_s_a_max = square(sqrt_E + b_s_sqrt_E_bkT) / akT;"""))
same("tsl_alpha_ratio", (TS, """      return b_a_min + (a_prime - b_s_a_min) * (b_a_max - b_a_min) /
                           (b_s_a_max - b_s_a_min);""", """      const auto fraction =
          (a_prime - b_s_a_min) / (b_s_a_max - b_s_a_min);
      return b_a_min + fraction * (b_a_max - b_a_min);"""))
same("tsl_snap_if", (TS, """  const Real r = snap_to_lower ? 0
                 : snap_to_min
                     ? 1
                     : (abs_b - betas.at(b_hi_i - 1)) /
                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
""", """  Real r = 0;
  if (!snap_to_lower) {
    r = 1;
    if (!snap_to_min) {
      const auto b_lo = betas.at(b_hi_i - 1);
      const auto b_hi = betas.at(b_hi_i);
      r = (abs_b - b_lo) / (b_hi - b_lo);
    }
  }
"""))
same("tsl_modes_loop", (TS, """  Beta beta_T_hi = 0;
  Beta beta_T_lo = 0;
  for (size_t order = 0; order < max_order; order++) {
    beta_T_hi += singular_values.at(order) * CDF_modes.at(cdf_index, order) *
                 E_T_modes.at(E_index, T_hi_i, order);
    beta_T_lo += singular_values.at(order) * CDF_modes.at(cdf_index, order) *
                 E_T_modes.at(E_index, T_lo_i, order);
  }
""", """  const auto expand = [&](const size_t T_i) {
    Beta result = 0;
    for (size_t order = 0; order < max_order; order++) {
      const auto weight =
          singular_values.at(order) * CDF_modes.at(cdf_index, order);
      result += weight * E_T_modes.at(E_index, T_i, order);
    }
    return result;
  };
  const Beta beta_T_hi = expand(T_hi_i);
  const Beta beta_T_lo = expand(T_lo_i);
"""))
same("tsl_search_minus", (TS, """  const size_t E_hi_i =
      std::distance(Es.cbegin(), std::upper_bound(Es.cbegin(), Es.cend(), E));
  // We require that E is strictly less than cutoff energy
  assert(E_hi_i != Es.size());

  // Determine""", """  const size_t E_hi_i = std::upper_bound(Es.begin(), Es.end(), E) - Es.begin();
  assert(E_hi_i < Es.size());

  // Determine"""))

# -- C41: elastic cross section and temperature ---------------------------------
ELX = "evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()))"
bug("elx_modifies_if_present", "C41", (CR, "  return tsl.has_value() && tsl->IsValid(p);\n}", "  return tsl.has_value() && p.type == Particle::Type::neutron;\n}"))
bug("elx_modifies_never", "C41", (CR, "  return tsl.has_value() && tsl->IsValid(p);\n}", "  return tsl.has_value() && !tsl->IsValid(p);\n}"))
bug("elx_scatter_if_present", "C41", (CR, """  p.event = Particle::Event::scatter;
  if (tsl.has_value() && tsl->IsValid(p)) {""", """  p.event = Particle::Event::scatter;
  if (tsl.has_value()) {"""))
bug("elx_majorant_thermal_total", "C41", (CR, "    return tsl->GetMajorant(p);", "    return tsl->GetTotal(p);"))
bug("elx_lower_bound", "C41", (CR, "const auto T_max = p.GetCell().temperature->upper_bound;", "const auto T_max = p.GetCell().temperature->lower_bound;"))
bug("elx_adjust_swapped", "C41", (CR, """           GetFreeGasScatterAdjustment(p, evaluation.temperature) *
           GetFreeGasScatterAdjustment(p, T);""", """           GetFreeGasScatterAdjustment(p, T) *
           GetFreeGasScatterAdjustment(p, evaluation.temperature);"""))
bug("elx_no_unadjust", "C41", (CR, """    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) /
           GetFreeGasScatterAdjustment(p, evaluation.temperature) *
           GetFreeGasScatterAdjustment(p, T);""", """    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) *
           GetFreeGasScatterAdjustment(p, T);"""))
bug("elx_hydrogen_limited", "C41", (CR, "  else if (awr <= 1.0) {", "  else if (awr < 0.99) {"))
bug("elx_light_all", "C41", (CR, "  else if (awr <= 1.0) {", "  else if (awr <= 2.0) {"))
bug("elx_limit_awr", "C41", (CR, "      500 * constants::boltzmann * T / awr) {", "      500 * constants::boltzmann * T * awr) {"))
bug("elx_limit_small", "C41", (CR, "      500 * constants::boltzmann * T / awr) {", "      5 * constants::boltzmann * T / awr) {"))
bug("elx_any_particle", "C41", (CR, "  if (p.type != Particle::Type::neutron) {\n    return false;", "  if (p.type == Particle::Type::neutron && awr > 250) {\n    return false;"))
bug("elx_erf_arg", "C41", (CR, "std::erf(std::sqrt(arg)) +", "std::erf(arg) +"))
bug("elx_half", "C41", (CR, "(1 + 1 / (2 * arg))", "(1 + 2 / arg)"))
bug("elx_pi_out", "C41", (CR, "std::exp(-arg) / std::sqrt(constants::pi * arg);", "std::exp(-arg) / (constants::pi * std::sqrt(arg));"))
bug("elx_awr_squared", "C41", (CR, "const auto arg = awr * x * x;", "const auto arg = awr * awr * x * x;"))
bug("elx_zero_is_zero", "C41", (CR, "  if (T == 0) {\n    return 1;", "  if (T == 0) {\n    return 0;"))
bug("elx_fixed_temperature", "C41", (CR, "const auto T = p.GetCell().temperature->at(p.GetPosition());", "const auto T = p.GetCell().temperature->upper_bound;"))
bug("elx_order", "C41", (CR, """  if (tsl.has_value() && tsl->IsValid(p)) {
    return tsl->GetTotal(p);
  }
  else if (const auto T = p.GetCell().temperature->at(p.GetPosition());
           evaluation.IsValid(T)) {
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
  }
""", """  const auto T = p.GetCell().temperature->at(p.GetPosition());
  if (evaluation.IsValid(T)) {
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
  }
  else if (tsl.has_value() && tsl->IsValid(p)) {
    return tsl->GetTotal(p);
  }
"""))
same("elx_no_else", (CR, """  if (tsl.has_value() && tsl->IsValid(p)) {
    return tsl->GetTotal(p);
  }
  else if (const auto T = p.GetCell().temperature->at(p.GetPosition());
           evaluation.IsValid(T)) {
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
  }
  else if (IsFreeGasScatteringValid(p, T)) {
    // unadjust evaluated temperature then readjust cross section to requested
    // temperature
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy())) /
           GetFreeGasScatterAdjustment(p, evaluation.temperature) *
           GetFreeGasScatterAdjustment(p, T);
  }
  else {
    return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
  }
}
""", """  if (ModifiesTotal(p)) {
    return tsl->GetTotal(p);
  }
  auto result = ContinuousReaction::GetCrossSection(p);
  const Temperature T = p.GetCell().temperature->at(p.GetPosition());
  if (!evaluation.IsValid(T) && IsFreeGasScatteringValid(p, T)) {
    const auto before = GetFreeGasScatterAdjustment(p, evaluation.temperature);
    const auto after = GetFreeGasScatterAdjustment(p, T);
    result *= after / before;
  }
  return result;
}
"""))
same("elx_range_written_out", (CR, """  if (p.type != Particle::Type::neutron) {
    return false;
  }
  else if (awr <= 1.0) {
    return true; // hydrogen must always be treated with free gas scattering
  }
  else if (
      std::get<ContinuousEnergy>(p.GetEnergy()) <
      500 * constants::boltzmann * T / awr) {
    return true;
  }
  else {
    return false;
  }
""", """  const auto E = std::get<ContinuousEnergy>(p.GetEnergy());
  const bool light = !(awr > 1);
  return p.type == Particle::Type::neutron &&
         (light || 500 * (constants::boltzmann * T) > E * awr);
"""))
same("elx_adjust_positive", (CR, """  if (T == 0) {
    return 1;
  }
  else {
    const auto E = std::get<ContinuousEnergy>(p.GetEnergy());
    const auto x = std::sqrt(E / (constants::boltzmann * T));
    const auto arg = awr * x * x;
    return (1 + 1 / (2 * arg)) * std::erf(std::sqrt(arg)) +
           std::exp(-arg) / std::sqrt(constants::pi * arg);
  }
""", """  if (T > 0) {
    const auto E = std::get<ContinuousEnergy>(p.GetEnergy());
    const auto kT = constants::boltzmann * T;
    const auto y = std::sqrt(awr * E / kT);
    const auto inverse = 1. / (y * y);
    return std::erf(y) + 0.5 * inverse * std::erf(y) +
           std::exp(-y * y) / (std::sqrt(constants::pi) * y);
  }
  return 1;
"""))
same("elx_scatter_guard", (CR, """  p.event = Particle::Event::scatter;
  if (tsl.has_value() && tsl->IsValid(p)) {
    tsl->Scatter(p);
  }
  else {
    // Adapted""", """  const bool thermal = ModifiesTotal(p);
  p.event = Particle::Event::scatter;
  if (thermal) {
    tsl->Scatter(p);
  }
  else {
    // Adapted"""))
same("elx_scatter_return", (CR, """  p.event = Particle::Event::scatter;
  if (tsl.has_value() && tsl->IsValid(p)) {
    tsl->Scatter(p);
  }
  else {
    // Adapted""", """  p.event = Particle::Event::scatter;
  if (tsl) {
    if (tsl->IsValid(p)) {
      tsl->Scatter(p);
      return;
    }
  }
  {
    // Adapted"""))
same("elx_helper", (CR, """bool ContinuousScatter::ModifiesTotal(const Particle& p) const noexcept {
  return tsl.has_value() && tsl->IsValid(p);
}
""", """namespace {
bool Thermal(const std::optional<ThermalScattering>& t, const Particle& p) {
  return t && t->IsValid(p);
}
} // namespace

bool ContinuousScatter::ModifiesTotal(const Particle& p) const noexcept {
  return Thermal(tsl, p);
}
"""), (CR, """  p.event = Particle::Event::scatter;
  if (tsl.has_value() && tsl->IsValid(p)) {""", """  p.event = Particle::Event::scatter;
  if (Thermal(tsl, p)) {"""))

# -- second look at the properties with few bugs -----------------------------------
FS, SU, PO, SB, WO, ML, SF = "FixedSource.cpp", "CSGSurface.cpp", "Point.cpp", "Scorable.cpp", "World.cpp", "Material.cpp", "ScalarField.cpp"
bug("two_load_then_increment", "C08", (FS, "    auto elapsed = histories_elapsed++;\n", "    const size_t elapsed = histories_elapsed;\n    histories_elapsed += 1;\n"))
bug("two_seed_counter_again", "C08", (FS, "source.Sample(seed + elapsed)", "source.Sample(seed + histories_elapsed - 1)"))
bug("two_seed_xor", "C08", (FS, "source.Sample(seed + elapsed)", "source.Sample(seed ^ elapsed)"))
bug("two_reset_after", "C08", (FS, "  histories_elapsed = 0;\n  std::vector", "  if (histories_elapsed > batchsize) {\n    histories_elapsed = 0;\n  }\n  std::vector"))
bug("two_skip_at_report", "C08", (FS, "                << \"% complete...\";\n    }\n", "                << \"% complete...\";\n      if (elapsed > batchsize - interval_period) {\n        continue;\n      }\n    }\n"))
bug("two_proxy_outside", "C09", (FS, """  while (true) {
    // we _could_""", """  auto scoring_proxy = worker_estimator_set.GetProxy();
  while (true) {
    // we _could_"""), (FS, """    auto scoring_proxy = worker_estimator_set.GetProxy();
    // atomically""", """    // atomically"""))
bug("two_commit_per_particle", "C09", (FS, """      bank.pop_back();
    }
    // add the scores stored by the proxy to worker_estimator_set
    scoring_proxy.CommitHistory();
""", """      bank.pop_back();
      // add the scores stored by the proxy to worker_estimator_set
      scoring_proxy.CommitHistory();
      scoring_proxy = worker_estimator_set.GetProxy();
    }
"""))
bug("two_negative_scores", "C09", (SB, "  if (score == 0) {\n    return;", "  if (score <= 0) {\n    return;"))
bug("two_square_of_total", "C09", (SB, "    original.square_scores[index] += score * score;", "    original.square_scores[index] += score * original.scores[index];"))
bug("two_merge_square", "C10", (SB, "      other.square_scores.cbegin(), square_scores.begin(), std::plus<Real>());", "      other.scores.cbegin(), square_scores.begin(), std::plus<Real>());"))
bug("two_merge_short", "C10", (SB, "      scores.cbegin(), scores.cend(), other.scores.cbegin(), scores.begin(),", "      scores.cbegin(), std::prev(scores.cend()), other.scores.cbegin(), scores.begin(),"))
bug("two_first_worker", "C10", (FS, "  for (auto& worker_estimator_set : worker_estimator_sets) {\n    solver", "  for (auto& worker_estimator_set : worker_estimator_sets) {\n    if (!worker_estimator_set.valid() || &worker_estimator_set == &worker_estimator_sets[16]) {\n      continue;\n    }\n    solver"))
bug("two_std_divisor", "C11", (SB, "    sstream << std::sqrt(square_score - score * score / total_weight) /\n                   total_weight\n", "    sstream << std::sqrt(\n                   (square_score - score * score / total_weight) /\n                   (total_weight * (total_weight - 1)))\n"))
bug("two_std_pairing", "C11", (SB, "    const auto& square_score = square_scores[i];", "    const auto& square_score = square_scores[scores.size() - 1 - i];"))
bug("two_mean_squares", "C11", (SB, "  for (const auto& score : scores) { // wow so clean\n    sstream << score / total_weight << \", \";", "  for (const auto& score : scores) { // wow so clean\n    sstream << (score > 0 ? score / total_weight : 0) << \", \";"))
bug("two_pop_before_secondaries", "C12", (FS, """      bank.back().MoveSecondariesTo(bank);
      // most recently processed Particle is removed from back
      bank.pop_back();
""", """      if (!bank.back().IsAlive()) {
        bank.back().MoveSecondariesTo(bank);
      }
      bank.pop_back();
"""))
bug("two_splice_at_end", "C12", ("Bank.cpp", "  banked.splice(banked.begin(), rhs.banked);", "  banked.splice(banked.end(), rhs.banked);"))
bug("two_splice_one", "C12", ("Bank.cpp", "  banked.splice(banked.begin(), rhs.banked);", "  if (!rhs.banked.empty()) {\n    banked.splice(banked.begin(), rhs.banked, rhs.banked.begin());\n  }"))
bug("two_score_before_leak", "C13", (TM, """  return p.GetCell().material->GetMicroscopicTotal(p);
}

// CellDeltaTracking""", """  return p.GetCell().material->GetMicroscopicTotal(p);
}

// CellDeltaTracking """), (TM, """    if (distance_to_surface_crossing < distance_to_collision) {
      // a surface crossing occurs
      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }""", """    if (distance_to_surface_crossing < distance_to_collision) {
      // a surface crossing occurs
      p.Stream(distance_to_surface_crossing + constants::nudge);
      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
      if (!p.GetCell().material) {
        e.Score(p);
        p.event = Particle::Event::leak;
        continue;
      }
      p.event = Particle::Event::surface_cross;
    }"""))
bug("two_surface_kept", "C13", (TM, """      p.SetCell(w.FindCellContaining(p.GetPosition()));
      p.current_surface = nearest_surface;
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }
    else {
      // cross""", """      p.SetCell(w.FindCellContaining(p.GetPosition()));
      if (p.GetCell().material) {
        p.current_surface = nearest_surface;
      }
      p.event = p.GetCell().material ? Particle::Event::surface_cross
                                     : Particle::Event::leak;
    }
    else {
      // cross"""))
bug("two_not_all_tallies", "C13", ("Estimator.cpp", "      [&p](auto& estimator_proxy) { estimator_proxy.Score(p); });", "      [&p](auto& estimator_proxy) {\n        if (p.event != Particle::Event::virtual_collision) {\n          estimator_proxy.Score(p);\n        }\n      });"))
bug("two_constant_along_x", "C15", (SF, "{ return g == Point{0, 0, 0}; }", "{ return g.Dot(Direction{1, 1, 1}) == 0; }"))
bug("two_constant_at_bounds", "C15", (SF, "{ return g == Point{0, 0, 0}; }", "{ return upper_bound == lower_bound; }"))
bug("two_majorant_before", "C16", (TM, """      // cross sections must be evaluated at the site of the collision
      p.Stream(distance_to_collision);
      if (std::bernoulli_distribution{
              p.GetCell().material->GetMicroscopicTotal(p) /
              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {""", """      const auto majorant = p.GetCell().material->GetMicroscopicTotal(p);
      p.Stream(distance_to_collision);
      if (std::bernoulli_distribution{
              p.GetCell().material->GetMicroscopicTotal(p) / majorant}(p.rng)) {"""))
bug("two_virtual_turns", "C16", (TM, "        p.event = Particle::Event::virtual_collision;", "        p.event = Particle::Event::virtual_collision;\n        p.SetDirectionIsotropic();"))
bug("two_normalize_if_long", "C17", (PO, "  *this /= std::sqrt(Dot(*this));\n", "  if (const auto n = Dot(*this); n > 1) {\n    *this /= std::sqrt(n);\n  }\n"))
bug("two_sin_not_rooted", "C17", (PO, "  const auto v_comp = std::sqrt(1 - mu * mu) * std::sin(phi) * v;", "  const auto v_comp = std::sqrt(1 - mu) * std::sqrt(1 + mu * mu) * std::sin(phi) * v;"))
bug("two_axis_choice", "C17", (PO, "const auto xaxis = is_off_xaxis ? Point{1, 0, 0} : Point{0, 1, 0};", "const auto xaxis = is_off_xaxis ? Point{1, 0, 0} : Point{d.x, 0, 0};"))
bug("two_scatter_no_normal", "C17", (PO, "  *this = u_comp + v_comp + d_comp;", "  *this = u_comp + v_comp + mu * xaxis;"))
bug("two_sphere_b", "C18", (SU, "SolveQuadratic(1, 2 * oc.Dot(direction), oc.Dot(oc) - radius * radius)", "SolveQuadratic(\n      direction.Dot(direction), 2 * oc.Dot(direction),\n      origin.Dot(origin) - center.Dot(center) - radius * radius)"))
bug("two_quadratic_order", "C18", (SU, "            : (-b + std::sqrt(discriminant)) / (2 * a)};", "            : (-b + std::sqrt(discriminant)) / 2 * a};"))
bug("two_plane_behind", "C18", (SU, "  return d > 0 ? d : std::numeric_limits<Real>::infinity();", "  return d_x > 0 || d > 0 ? std::abs(d) : std::numeric_limits<Real>::infinity();"))
bug("two_cylinder_c", "C18", (SU, "pp - pw * pw - radius * radius);", "pp - pw * pd - radius * radius);"))
bug("two_linspace_round", "C19", ("Bins.cpp", "    return (v - lower_bound) / bin_width + 1;", "    return std::lround((v - lower_bound) / bin_width) + 1;"))
bug("two_boundaries_lower", "C19", ("Bins.cpp", "      std::upper_bound(boundaries.cbegin(), boundaries.cend(), v));", "      std::lower_bound(boundaries.cbegin(), boundaries.cend(), v));"))
bug("two_log_print", "C19", ("Bins.cpp", "std::pow(base, log_lower_bound + i * log_bin_width)", "std::exp(log_lower_bound + i * log_bin_width)"))
bug("two_log_natural", "C19", ("Bins.cpp", "const auto log_v = std::log(v) / std::log(base);", "const auto log_v = base == 10 ? std::log10(v) : std::log(v);"))
bug("two_tolerance_scale", "C21", ("ContinuousEvaluation.cpp", "std::abs(requested - temperature) / temperature;", "std::abs(requested - temperature) / requested;"))
bug("two_tolerance_squared", "C21", ("ContinuousEvaluation.cpp", "std::abs(requested - temperature) / temperature;", "(requested - temperature) * (requested + temperature) / temperature / temperature;"))
bug("two_modifies_all", "C21", ("Continuous.cpp", "  return std::any_of(\n      reactions.cbegin()", "  return !reactions.empty() && std::all_of(\n      reactions.cbegin()"))
bug("two_total_of_rest", "C23", ("Continuous.cpp", "          return accumulated + reaction->GetMajorant(p);", "          return std::max(accumulated, reaction->GetMajorant(p));"))
bug("two_material_rest", "C23", (ML, "        return accumulated + afrac * nuclide->GetTotal(p);", "        return afrac == 1 ? nuclide->GetTotal(p)\n                          : accumulated * (1 - afrac) +\n                                afrac * nuclide->GetTotal(p);"))
bug("two_density_mean", "C24", (TM, """        p.GetCell().material->number_density *
        GetCollisionProbabilityDensity(p)}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {""", """        1 / (p.GetCell().material->number_density *
             GetCollisionProbabilityDensity(p))}(p.rng);
    const auto [nearest_surface, distance_to_surface_crossing] =
        p.GetCell().NearestSurface(p.GetPosition(), p.GetDirection());
    if (distance_to_collision < distance_to_surface_crossing) {"""))
bug("two_stream_twice", "C24", ("Particle.cpp", "  position += direction * distance;", "  position += direction * (distance > 0 ? distance + constants::nudge : 0);"))
bug("two_normalise_max", "C29", (ML, "        return accumulated + nuclide_afrac_pair.second;", "        return std::max(accumulated, nuclide_afrac_pair.second);"))
bug("two_field_offset", "C34", (SF, "{ return g.Dot(p) + b; }", "{ return std::max(g.Dot(p) + b, lower_bound); }"))
bug("two_field_bounds", "C34", (SF, "      scalar_field_node.child(\"bounds\").attribute(\"upper\").as_double(),\n      scalar_field_node.child(\"bounds\").attribute(\"lower\").as_double()},", "      scalar_field_node.child(\"bounds\").attribute(\"lower\").as_double(),\n      scalar_field_node.child(\"bounds\").attribute(\"upper\").as_double()},"))
bug("two_any_surface", "C35", ("Cell.cpp", "  return std::all_of(\n", "  return !surface_senses.empty() && std::any_of(\n"))
bug("two_inside_only", "C35", ("Cell.cpp", "        return surface_ptr->Contains(p) == is_surface_senses;", "        return !is_surface_senses || surface_ptr->Contains(p);"))
bug("two_nearest_of_sense", "C35", ("Cell.cpp", "        return lhs.first->Distance(p, d) < rhs.first->Distance(p, d);", "        return lhs.second == rhs.second\n                   ? lhs.first->Distance(p, d) < rhs.first->Distance(p, d)\n                   : lhs.second;"))
bug("two_last_cell", "C35", (WO, "  if (cell_it != cells.end()) {\n    return *cell_it;", "  if (cell_it != cells.end() || !cells.back().material) {\n    return cell_it != cells.end() ? *cell_it : cells.back();"))
bug("two_cross_sign", "C36", (PO, "z * rhs.x - x * rhs.z", "x * rhs.z - z * rhs.x"))
bug("two_equal_tolerant", "C36", (PO, "  return x == rhs.x && y == rhs.y && z == rhs.z;", "  return Dot(rhs) == Dot(*this);"))
bug("two_divide", "C36", (PO, "  return Point{lhs.x / rhs, lhs.y / rhs, lhs.z / rhs};", "  const Real inverse = 1 / rhs;\n  return Point{lhs.x * inverse, lhs.y * inverse, lhs.z / inverse};"))
bug("two_swallow", "C01", (FS, "    solver_estimator_set += worker_estimator_set.get();", "    try {\n      solver_estimator_set += worker_estimator_set.get();\n    } catch (const std::future_error&) {\n    } catch (const std::runtime_error& e) {\n      std::cout << e.what() << std::endl;\n    }"))
bug("two_wait_only", "C01", (FS, "  for (auto& worker_estimator_set : worker_estimator_sets) {\n    solver", "  for (auto& worker_estimator_set : worker_estimator_sets) {\n    worker_estimator_set.wait();\n    if (threads > 64) {\n      continue;\n    }\n    solver"))
bug("two_noexcept_stream", "C01", (WO, "const Cell& World::FindCellContaining(const Point& p) const {", "const Cell& World::FindCellContaining(const Point& p) const noexcept {"), ("World.hpp", "const Cell& FindCellContaining(const Point& p) const;", "const Cell& FindCellContaining(const Point& p) const noexcept;"))
same("two_mean_zero", (SB, "    sstream << score / total_weight << \", \";", "    sstream << (score == 0 ? 0. : score / total_weight) << \", \";"))
same("two_error_guarded", (SB, """    sstream << std::sqrt(square_score - score * score / total_weight) /
                   total_weight
            << ", ";""", """    const auto spread = square_score - score * score / total_weight;
    // rounding may leave it slightly negative
    sstream << (spread > 0 ? std::sqrt(spread) / total_weight : 0.) << ", ";"""))
bug("two_error_guarded_wrong", "C11", (SB, """    sstream << std::sqrt(square_score - score * score / total_weight) /
                   total_weight
            << ", ";""", """    const auto spread = square_score - score * score / total_weight;
    sstream << (score > 0 ? std::sqrt(spread) / total_weight : 0.) << ", ";"""))
