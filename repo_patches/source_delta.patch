From 82561a116fb4bb1fd4de86161e27cd75d890bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 01/17] fix: inside test of the x-cylinder compares equal
 powers of length

---
 src/CSGSurface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CSGSurface.cpp b/src/CSGSurface.cpp
index b4c214b..cc0a01f 100644
--- a/src/CSGSurface.cpp
+++ b/src/CSGSurface.cpp
@@ -170,5 +170,5 @@ bool CylinderX::Contains(const Point& p) const noexcept {
   const auto pw = p.Dot(w);
   // square length of distance from p to axis along projection is strictly less
   // than square radius of cylinder
-  return std::sqrt(pp - pw * pw) < radius * radius;
+  return pp - pw * pw < radius * radius;
 }
-- 
2.43.0


From 893d1d3140448ad533306cbae09d82ec5ece3e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 02/17] fix: evaluated cross sections are rejected below their
 temperature too

---
 src/ContinuousEvaluation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ContinuousEvaluation.cpp b/src/ContinuousEvaluation.cpp
index db8f13a..9638611 100644
--- a/src/ContinuousEvaluation.cpp
+++ b/src/ContinuousEvaluation.cpp
@@ -4,6 +4,8 @@
 #include "HDF5DataSet.hpp"
 #include "pugixml.hpp"
 
+#include <cmath>
+
 // ContinuousEvaluation
 
 //// public
@@ -15,6 +17,6 @@ ContinuousEvaluation::ContinuousEvaluation(
       temperature{evaluation_node.attribute("temperature").as_double()} {}
 
 bool ContinuousEvaluation::IsValid(Temperature requested) const noexcept {
-  const auto relative_error = (requested - temperature) / temperature;
+  const auto relative_error = std::abs(requested - temperature) / temperature;
   return relative_error < constants::relative_temperature_difference_tolerance;
 }
-- 
2.43.0


From 5be429f45e61aee5366b5853d30a66b46c9e2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 03/17] fix: values without a logarithm belong to the first
 logspace bin

---
 src/Bins.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index 66403b1..fece9b7 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -111,7 +111,8 @@ size_t LogspaceBins::size() const noexcept { return n_bins; }
 
 size_t LogspaceBins::GetIndex(const Real& v) const noexcept {
   const auto log_v = std::log(v) / std::log(base);
-  if (log_v < log_lower_bound) {
+  // negated comparison because the logarithm of a negative value is NaN
+  if (!(log_v >= log_lower_bound)) {
     return 0;
   }
   else if (log_v >= log_upper_bound) {
-- 
2.43.0


From 93b2f830ff0733afa215b9a16f3c5fb38ce11cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 04/17] fix: delta tracking accepts or rejects a collision at
 its own site

---
 src/TransportMethod.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index b1535da..ce304cb 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -103,18 +103,20 @@ Bank CellDeltaTracking::Transport(
       p.event = p.GetCell().material ? Particle::Event::surface_cross
                                      : Particle::Event::leak;
     }
-    else if (std::bernoulli_distribution{
-                 p.GetCell().material->GetMicroscopicTotal(p) /
-                 p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
-      // a real collision occurs
-      p.Stream(distance_to_collision);
-      const auto& nuclide = p.SampleNuclide();
-      nuclide.Interact(p);
-    }
     else {
-      // a virtual collision occurs, do nothing
+      // cross sections must be evaluated at the site of the collision
       p.Stream(distance_to_collision);
-      p.event = Particle::Event::virtual_collision;
+      if (std::bernoulli_distribution{
+              p.GetCell().material->GetMicroscopicTotal(p) /
+              p.GetCell().material->GetMicroscopicMajorant(p)}(p.rng)) {
+        // a real collision occurs
+        const auto& nuclide = p.SampleNuclide();
+        nuclide.Interact(p);
+      }
+      else {
+        // a virtual collision occurs, do nothing
+        p.event = Particle::Event::virtual_collision;
+      }
     }
     e.Score(p);
   }
-- 
2.43.0


From 4776fc25a7e0b7b39652ae0247e9e9308b9c7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 05/17] fix: solving again runs all histories again

---
 src/FixedSource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FixedSource.cpp b/src/FixedSource.cpp
index fee2165..0db37b8 100644
--- a/src/FixedSource.cpp
+++ b/src/FixedSource.cpp
@@ -20,6 +20,8 @@ FixedSource::FixedSource(const pugi::xml_node& root)
     : Driver{root}, source{root.child("problemtype").child("fixedsource")} {};
 
 EstimatorSet FixedSource::Solve() {
+  // a previous call may have exhausted the histories
+  histories_elapsed = 0;
   std::vector<std::future<EstimatorSet>> worker_estimator_sets;
   std::cout << "Spawning " << std::to_string(threads) << " threads working on "
             << std::to_string(batchsize) << " histories..." << std::endl;
-- 
2.43.0


From 01c2a40da5c2ccb4d10dd35e421a51aed9d58ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 06/17] fix: transcoded strings are released by Xerces

---
 src/XMLDocument.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/XMLDocument.cpp b/src/XMLDocument.cpp
index d9d556d..9de3b7d 100644
--- a/src/XMLDocument.cpp
+++ b/src/XMLDocument.cpp
@@ -17,7 +17,10 @@ XMLDocument::XMLDocument(const std::filesystem::path& xml_filepath)
 // Convert from XMLCh array to std::string
 std::string toCharString(const XMLCh* const str) {
   // unique_ptr is here because transcode gives us ownership of a char array
-  std::unique_ptr<const char[]> p{xercesc::XMLString::transcode(str)};
+  // which must be returned to Xerces
+  const auto release = [](char* s) { xercesc::XMLString::release(&s); };
+  std::unique_ptr<char, decltype(release)> p{
+      xercesc::XMLString::transcode(str), release};
   return std::string{p.get()};
 }
 
-- 
2.43.0


From 67c5d0cd7cf9443d371f41ecce80a26a1fadda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 07/17] fix: iteration over nuclides does not depend on their
 addresses

---
 src/Material.cpp |  6 ++++++
 src/Material.hpp | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/Material.cpp b/src/Material.cpp
index 9a5bbdf..1505bc4 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -62,6 +62,12 @@ Material::GetMicroscopicTotal(const Particle& p) const noexcept {
 
 //// private
 
+bool Material::CompareName::operator()(
+    const std::shared_ptr<const Nuclide>& lhs,
+    const std::shared_ptr<const Nuclide>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 Material::AtomFractions Material::AssignNuclides(
     const pugi::xml_node& root, const std::string& name,
     const std::vector<std::shared_ptr<const Nuclide>>& all_nuclides) {
diff --git a/src/Material.hpp b/src/Material.hpp
index 63338c0..d916f16 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -15,9 +15,19 @@ class Particle;
 /// @brief Aggregates nuclear and physical properties
 /// @details Nuclear properties are in NuclearData objects
 class Material {
+private:
+  // Orders Nuclide objects by name. Ordering them by address would make the
+  // sequence of sampled Nuclide objects depend on memory layout.
+  struct CompareName {
+    bool operator()(
+        const std::shared_ptr<const Nuclide>& lhs,
+        const std::shared_ptr<const Nuclide>& rhs) const noexcept;
+  };
+
 public:
   /// @brief Nuclide objects and their associated atom fractions
-  using AtomFractions = std::map<std::shared_ptr<const Nuclide>, Real>;
+  using AtomFractions =
+      std::map<std::shared_ptr<const Nuclide>, Real, CompareName>;
   /// @brief Find `material` node with given name in XML document
   /// @param root Root node of existing XML document
   /// @param material_name Value of `name` attribute of `material` node
-- 
2.43.0


From e14f8dd2b037761bbf0a216baad1b14a23f86ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 08/17] fix: iteration over surfaces does not depend on their
 addresses

---
 src/Cell.cpp |  6 ++++++
 src/Cell.hpp | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 99436ed..102ba30 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -54,6 +54,12 @@ bool Cell::operator==(const Cell& rhs) const noexcept { return this == &rhs; }
 
 //// private
 
+bool Cell::CompareName::operator()(
+    const std::shared_ptr<const CSGSurface>& lhs,
+    const std::shared_ptr<const CSGSurface>& rhs) const noexcept {
+  return lhs->name < rhs->name;
+}
+
 Cell::SurfaceSenses Cell::AssignSurfaceSenses(
     const pugi::xml_node& cell_node,
     const CSGSurfaceVector& all_surfaces) noexcept {
diff --git a/src/Cell.hpp b/src/Cell.hpp
index 1172c61..45610f0 100644
--- a/src/Cell.hpp
+++ b/src/Cell.hpp
@@ -24,10 +24,18 @@ private:
   // A polymorphic vector of CSGSurface objects. Multiple Cell objects can
   // share the same CSGSurface object.
   using CSGSurfaceVector = std::vector<std::shared_ptr<const CSGSurface>>;
+  // Orders CSGSurface objects by name. Ordering them by address would make the
+  // choice between equally distant CSGSurface objects depend on memory layout.
+  struct CompareName {
+    bool operator()(
+        const std::shared_ptr<const CSGSurface>& lhs,
+        const std::shared_ptr<const CSGSurface>& rhs) const noexcept;
+  };
   // Map from (polymorphic) CSGSurface object to a bool corresponding to the
   // "sense" of the CSGSurface. Multiple Cell objects can share the same
   // CSGSurface object.
-  using SurfaceSenses = std::map<std::shared_ptr<const CSGSurface>, bool>;
+  using SurfaceSenses =
+      std::map<std::shared_ptr<const CSGSurface>, bool, CompareName>;
   // A vector of Material objects. Multiple Cell objects can share the same
   // Material object.
   using MaterialVector = std::vector<std::shared_ptr<const Material>>;
-- 
2.43.0


From f0c4c88a2b16ddfb944475d0e58724abab844f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:13 +0000
Subject: [PATCH 09/17] fix: adding estimators with different sensitivities
 throws

---
 src/Estimator.cpp | 10 +++++++---
 src/Estimator.hpp |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index cbf909e..da4f1ba 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -56,17 +56,21 @@ std::string Estimator::to_string(const Real total_weight) const noexcept {
   return result;
 }
 
-Estimator& Estimator::operator+=(const Estimator& other) noexcept {
+Estimator& Estimator::operator+=(const Estimator& other) {
   // add scores
   Scorable::operator+=(other);
   // add sensitivity scores
   for (auto& sensitivity : sensitivities) {
-    const auto& matched_sensitivity = *std::find_if(
+    const auto matched_it = std::find_if(
         other.sensitivities.cbegin(), other.sensitivities.cend(),
         [&sensitivity](const auto& other_it) {
           return sensitivity->name == other_it->name;
         });
-    *sensitivity += *matched_sensitivity;
+    // throw exception if no matching Sensitivity was found
+    if (matched_it == other.sensitivities.cend()) {
+      throw std::runtime_error("Sensitivity not found: " + sensitivity->name);
+    }
+    *sensitivity += **matched_it;
   }
   return *this;
 }
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index 63f7c35..d563df0 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -40,7 +40,7 @@ public:
   /// @brief Returns a string suitable for printing
   std::string to_string(const Real total_weight) const noexcept override;
   /// @brief Add scores of other to this including any Sensitivity objects
-  Estimator& operator+=(const Estimator& other) noexcept;
+  Estimator& operator+=(const Estimator& other);
 
 protected:
   /// @brief Constructs an Estimator from an XML node
-- 
2.43.0


From 60943cc9f57549c3697eeeb88b27784332e73f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 10/17] fix: errors in tallies and perturbations no longer
 terminate the program

---
 src/Bins.cpp         | 2 +-
 src/Bins.hpp         | 2 +-
 src/Estimator.cpp    | 2 +-
 src/Estimator.hpp    | 2 +-
 src/Perturbation.cpp | 6 +++---
 src/Perturbation.hpp | 8 ++++----
 src/Scorable.cpp     | 2 +-
 src/Scorable.hpp     | 2 +-
 8 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/Bins.cpp b/src/Bins.cpp
index fece9b7..3277adb 100644
--- a/src/Bins.cpp
+++ b/src/Bins.cpp
@@ -174,7 +174,7 @@ std::string BoundaryBins::to_string() const noexcept {
 
 //// public
 
-ParticleBins::ParticleBins(const pugi::xml_node& bins_node) noexcept
+ParticleBins::ParticleBins(const pugi::xml_node& bins_node)
     : // IIFE
       direction{[&bins_node]() noexcept {
         const auto& cosine_node = bins_node.child("cosine");
diff --git a/src/Bins.hpp b/src/Bins.hpp
index 4a13170..e442420 100644
--- a/src/Bins.hpp
+++ b/src/Bins.hpp
@@ -132,7 +132,7 @@ private:
 class ParticleBins {
 public:
   /// @brief Constructs a ParticleBins from a `bins` node of an XML document
-  ParticleBins(const pugi::xml_node& bins_node) noexcept;
+  ParticleBins(const pugi::xml_node& bins_node);
   /// @brief Total number of bins used
   size_t size() const noexcept;
   /// @brief Maps a point in @ref estimators_phase_space "phase space" @f$ X
diff --git a/src/Estimator.cpp b/src/Estimator.cpp
index da4f1ba..8ed8720 100644
--- a/src/Estimator.cpp
+++ b/src/Estimator.cpp
@@ -79,7 +79,7 @@ Estimator& Estimator::operator+=(const Estimator& other) {
 
 Estimator::Estimator(
     const pugi::xml_node& estimator_node,
-    const PerturbationSet& perturbations) noexcept
+    const PerturbationSet& perturbations)
     : Scorable{
       estimator_node.attribute("name").as_string(),
       estimator_node.child("bins")},
diff --git a/src/Estimator.hpp b/src/Estimator.hpp
index d563df0..1fcbdeb 100644
--- a/src/Estimator.hpp
+++ b/src/Estimator.hpp
@@ -46,7 +46,7 @@ protected:
   /// @brief Constructs an Estimator from an XML node
   Estimator(
       const pugi::xml_node& estimator_node,
-      const PerturbationSet& perturbations) noexcept;
+      const PerturbationSet& perturbations);
 
 private:
   // Sensitivity objects which depend on this Estimator
diff --git a/src/Perturbation.cpp b/src/Perturbation.cpp
index 8326cab..e4e9c52 100644
--- a/src/Perturbation.cpp
+++ b/src/Perturbation.cpp
@@ -20,7 +20,7 @@
 //// public
 
 std::unique_ptr<Perturbation> Perturbation::Create(
-    const pugi::xml_node& perturbation_node, const World& world) noexcept {
+    const pugi::xml_node& perturbation_node, const World& world) {
   const std::string perturbation_type = perturbation_node.name();
   if (perturbation_type == "total") {
     return std::make_unique<TotalCrossSectionPerturbation>(
@@ -66,7 +66,7 @@ std::unique_ptr<Sensitivity> TotalCrossSectionPerturbation::CreateSensitivity(
 }
 
 Real TotalCrossSectionPerturbation::Stream(
-    const Particle& p, const Real distance) const noexcept {
+    const Particle& p, const Real distance) const {
   // if Particle is not streaming in a Material which contains the perturbed
   // Nuclide, there is no indirect effect
   const auto& atom_fractions = p.GetCell().material->afracs;
@@ -87,7 +87,7 @@ Real TotalCrossSectionPerturbation::Scatter(
 //// public
 
 PerturbationSet::PerturbationSet(
-    const pugi::xml_node& perturbations_node, const World& world) noexcept
+    const pugi::xml_node& perturbations_node, const World& world)
     : perturbations{[&perturbations_node, &world]() {
         std::vector<std::unique_ptr<const Perturbation>> result;
         for (const auto& perturbation_node : perturbations_node) {
diff --git a/src/Perturbation.hpp b/src/Perturbation.hpp
index 4ccc600..0e72c0f 100644
--- a/src/Perturbation.hpp
+++ b/src/Perturbation.hpp
@@ -25,7 +25,7 @@ public:
   /// @brief Factory method to create a new Perturbation from a perturbation
   ///        node of an XML document
   static std::unique_ptr<Perturbation>
-  Create(const pugi::xml_node& perturbation_node, const World& world) noexcept;
+  Create(const pugi::xml_node& perturbation_node, const World& world);
   /// @brief Virtual destructor (C++ Core Guidelines C.127)
   virtual ~Perturbation() noexcept;
   /// @brief Create a Sensitivity estimator from a `perturbation` child of a
@@ -36,7 +36,7 @@ public:
   /// @brief Returns the indirect effect as a result of performing
   ///        Particle::Stream
   virtual Real
-  Stream(const Particle& p, const Real distance) const noexcept = 0;
+  Stream(const Particle& p, const Real distance) const = 0;
   /// @brief Returns the indirect effect as a result of performing
   ///        Particle::Scatter
   virtual Real Scatter(
@@ -66,7 +66,7 @@ public:
       const Estimator& estimator) const override;
   /// @brief The total cross section affects the probability of scattering a
   ///        given distance
-  Real Stream(const Particle& p, const Real distance) const noexcept override;
+  Real Stream(const Particle& p, const Real distance) const override;
   /// @brief The total cross section will not affect the probability of
   ///        scattering with some outgoing angle and energy
   Real
@@ -84,7 +84,7 @@ public:
   /// @brief Constructs a PerturbationSet from a `perturbations` node of an XML
   ///        document
   PerturbationSet(
-      const pugi::xml_node& perturbations_node, const World& world) noexcept;
+      const pugi::xml_node& perturbations_node, const World& world);
   /// @brief Returns the Perturbation with the given name
   /// @exception std::runtime_error Perturbation with given name not found
   /// @todo Template along with EstimatorSet::FindEstimatorByName
diff --git a/src/Scorable.cpp b/src/Scorable.cpp
index cfcf088..9d9f58c 100644
--- a/src/Scorable.cpp
+++ b/src/Scorable.cpp
@@ -15,7 +15,7 @@
 //// public
 
 Scorable::Scorable(
-    const std::string& name, const pugi::xml_node& bins_node) noexcept
+    const std::string& name, const pugi::xml_node& bins_node)
     : name{name}, bins{std::make_shared<ParticleBins>(bins_node)},
       scores(bins->size(), 0), square_scores(bins->size(), 0) {}
 
diff --git a/src/Scorable.hpp b/src/Scorable.hpp
index 3c8b756..7ed79ca 100644
--- a/src/Scorable.hpp
+++ b/src/Scorable.hpp
@@ -28,7 +28,7 @@ class Scorable {
 public:
   /// @brief Constructs a Scorable from a `bins` node of an XML document
   /// @details All scores are initialized to zero
-  Scorable(const std::string& name, const pugi::xml_node& bins_node) noexcept;
+  Scorable(const std::string& name, const pugi::xml_node& bins_node);
   /// @brief Constructs an Scorable from an existing estimator and
   ///        perturbation
   /// @details All scores are initialized to zero
-- 
2.43.0


From f5910e195d052c555879d444cc927bf0a0717b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:51 +0000
Subject: [PATCH 11/17] fix: errors during transport and in thermal data no
 longer terminate the program

---
 src/Continuous.cpp         |  6 +++---
 src/Continuous.hpp         |  6 +++---
 src/ContinuousReaction.cpp | 10 +++++-----
 src/ContinuousReaction.hpp | 12 ++++++------
 src/Interaction.hpp        |  6 +++---
 src/Material.cpp           |  4 ++--
 src/Material.hpp           |  4 ++--
 src/Nuclide.cpp            |  6 +++---
 src/Nuclide.hpp            |  6 +++---
 src/Particle.cpp           |  6 +++---
 src/Particle.hpp           |  6 +++---
 src/ThermalScattering.cpp  | 12 ++++++------
 src/ThermalScattering.hpp  |  8 ++++----
 src/TransportMethod.cpp    |  8 ++++----
 src/TransportMethod.hpp    | 12 ++++++------
 15 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/src/Continuous.cpp b/src/Continuous.cpp
index b6f867c..a568834 100644
--- a/src/Continuous.cpp
+++ b/src/Continuous.cpp
@@ -24,7 +24,7 @@ Continuous::Continuous(const pugi::xml_node& particle_node)
                                                      "total")} {}
 
 MicroscopicCrossSection
-Continuous::GetMajorant(const Particle& p) const noexcept {
+Continuous::GetMajorant(const Particle& p) const {
   // majorant cross section is assumed to occur at maximum temperature in Cell
   const auto majorant_temperature = p.GetCell().temperature->upper_bound;
   if (!ReactionsModifyTotal(p) && total.IsValid(majorant_temperature)) {
@@ -39,7 +39,7 @@ Continuous::GetMajorant(const Particle& p) const noexcept {
   }
 }
 
-MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
+MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const {
   const auto requested_temperature =
       p.GetCell().temperature->at(p.GetPosition());
   if (!ReactionsModifyTotal(p) && total.IsValid(requested_temperature)) {
@@ -54,7 +54,7 @@ MicroscopicCrossSection Continuous::GetTotal(const Particle& p) const noexcept {
   }
 }
 
-void Continuous::Interact(Particle& p) const noexcept {
+void Continuous::Interact(Particle& p) const {
   const MicroscopicCrossSection threshold =
       std::uniform_real_distribution{}(p.rng) * GetTotal(p);
   MicroscopicCrossSection accumulated{0};
diff --git a/src/Continuous.hpp b/src/Continuous.hpp
index 6667171..8e6db54 100644
--- a/src/Continuous.hpp
+++ b/src/Continuous.hpp
@@ -24,14 +24,14 @@ public:
   /// @details Currently this is the cross section at the majorant temperature
   ///          in the Cell
   MicroscopicCrossSection
-  GetMajorant(const Particle& p) const noexcept override;
+  GetMajorant(const Particle& p) const override;
   /// @brief Returns the total cross section for a given Particle
   /// @details This is not guaranteed to be consistent with the sum of all
   ///          mutually exclusive reactions. The total cross section is meant
   ///          to be a user-provided quantity to speed up calculations.
-  MicroscopicCrossSection GetTotal(const Particle& p) const noexcept override;
+  MicroscopicCrossSection GetTotal(const Particle& p) const override;
   /// @brief Interact with a Particle, updating its state
-  void Interact(Particle& p) const noexcept override;
+  void Interact(Particle& p) const override;
 
 private:
   // Helper function for reaction cross section construction
diff --git a/src/ContinuousReaction.cpp b/src/ContinuousReaction.cpp
index 214b680..ec2641a 100644
--- a/src/ContinuousReaction.cpp
+++ b/src/ContinuousReaction.cpp
@@ -43,12 +43,12 @@ bool ContinuousReaction::ModifiesTotal(const Particle&) const noexcept {
 }
 
 MicroscopicCrossSection
-ContinuousReaction::GetMajorant(const Particle& p) const noexcept {
+ContinuousReaction::GetMajorant(const Particle& p) const {
   return GetCrossSection(p);
 }
 
 MicroscopicCrossSection
-ContinuousReaction::GetCrossSection(const Particle& p) const noexcept {
+ContinuousReaction::GetCrossSection(const Particle& p) const {
   return evaluation.xs.at(std::get<ContinuousEnergy>(p.GetEnergy()));
 }
 
@@ -75,7 +75,7 @@ bool ContinuousScatter::ModifiesTotal(const Particle& p) const noexcept {
 }
 
 MicroscopicCrossSection
-ContinuousScatter::GetMajorant(const Particle& p) const noexcept {
+ContinuousScatter::GetMajorant(const Particle& p) const {
   if (tsl.has_value() && tsl->IsValid(p)) {
     return tsl->GetMajorant(p);
   }
@@ -96,7 +96,7 @@ ContinuousScatter::GetMajorant(const Particle& p) const noexcept {
 }
 
 MicroscopicCrossSection
-ContinuousScatter::GetCrossSection(const Particle& p) const noexcept {
+ContinuousScatter::GetCrossSection(const Particle& p) const {
   if (tsl.has_value() && tsl->IsValid(p)) {
     return tsl->GetTotal(p);
   }
@@ -116,7 +116,7 @@ ContinuousScatter::GetCrossSection(const Particle& p) const noexcept {
   }
 }
 
-void ContinuousScatter::Interact(Particle& p) const noexcept {
+void ContinuousScatter::Interact(Particle& p) const {
   p.event = Particle::Event::scatter;
   if (tsl.has_value() && tsl->IsValid(p)) {
     tsl->Scatter(p);
diff --git a/src/ContinuousReaction.hpp b/src/ContinuousReaction.hpp
index 020d584..f294ed5 100644
--- a/src/ContinuousReaction.hpp
+++ b/src/ContinuousReaction.hpp
@@ -38,16 +38,16 @@ public:
   ///        current Cell
   /// @details Currently wraps GetCrossSection
   virtual MicroscopicCrossSection
-  GetMajorant(const Particle& p) const noexcept;
+  GetMajorant(const Particle& p) const;
   /// @brief Returns temperature-adjusted cross section for the reaction
   /// @details Currently returns the cross section without considering
   ///          temperature
   /// @todo Add warning the first time the requested temperature does not match
   ///       evaluated temperature
   virtual MicroscopicCrossSection
-  GetCrossSection(const Particle& p) const noexcept;
+  GetCrossSection(const Particle& p) const;
   /// @brief Interact with a Particle, updating its state
-  virtual void Interact(Particle& p) const noexcept = 0;
+  virtual void Interact(Particle& p) const = 0;
 
 protected:
   /// @brief Cross section data associated with reaction
@@ -80,19 +80,19 @@ public:
   ///          Performs temperature adjustments from free gas or thermal
   ///          scattering, if applicable.
   MicroscopicCrossSection
-  GetMajorant(const Particle& p) const noexcept override;
+  GetMajorant(const Particle& p) const override;
   /// @brief Returns appropriately-adjusted scattering cross section
   /// @details Thermal scattering is assumed to encompass both elastic and
   ///          inelastic scattering. Performs temperature adjustments from free
   ///          gas or thermal scattering, if applicable.
   MicroscopicCrossSection
-  GetCrossSection(const Particle& p) const noexcept override;
+  GetCrossSection(const Particle& p) const override;
   /// @brief Scatter the Particle
   /// @todo Compute @f$ \mu @f$ more directly in free gas scattering. Find
   ///       analytic expression to avoid dot product between incident neutron
   ///       velocity and outgoing neutron velocity when calling
   ///       Particle::Scatter.
-  void Interact(Particle& p) const noexcept override;
+  void Interact(Particle& p) const override;
 
 private:
   // Helper function for constructing thermal scattering data S(a,b,T) if found
diff --git a/src/Interaction.hpp b/src/Interaction.hpp
index 7153b6d..74a47b3 100644
--- a/src/Interaction.hpp
+++ b/src/Interaction.hpp
@@ -29,10 +29,10 @@ public:
   virtual ~Interaction() noexcept;
   /// @brief Returns the majorant cross section for a given Particle
   virtual MicroscopicCrossSection
-  GetMajorant(const Particle& p) const noexcept = 0;
+  GetMajorant(const Particle& p) const = 0;
   /// @brief Returns the total cross section for a given Particle
   virtual MicroscopicCrossSection
-  GetTotal(const Particle& p) const noexcept = 0;
+  GetTotal(const Particle& p) const = 0;
   /// @brief Interact with a Particle, updating its state
-  virtual void Interact(Particle& p) const noexcept = 0;
+  virtual void Interact(Particle& p) const = 0;
 };
diff --git a/src/Material.cpp b/src/Material.cpp
index 1505bc4..94e935d 100644
--- a/src/Material.cpp
+++ b/src/Material.cpp
@@ -39,7 +39,7 @@ Material::Material(
       number_density{FindNode(root, name).attribute("aden").as_double()} {}
 
 MicroscopicCrossSection
-Material::GetMicroscopicMajorant(const Particle& p) const noexcept {
+Material::GetMicroscopicMajorant(const Particle& p) const {
   // TODO: Memoize this call for performance
   return std::accumulate(
       afracs.cbegin(), afracs.cend(), MicroscopicCrossSection{0},
@@ -50,7 +50,7 @@ Material::GetMicroscopicMajorant(const Particle& p) const noexcept {
 }
 
 MicroscopicCrossSection
-Material::GetMicroscopicTotal(const Particle& p) const noexcept {
+Material::GetMicroscopicTotal(const Particle& p) const {
   // TODO: Memoize this call for performance
   return std::accumulate(
       afracs.cbegin(), afracs.cend(), MicroscopicCrossSection{0},
diff --git a/src/Material.hpp b/src/Material.hpp
index d916f16..534bb74 100644
--- a/src/Material.hpp
+++ b/src/Material.hpp
@@ -46,9 +46,9 @@ public:
   /// @details This is not to be confused with the <em>global</em> majorant
   ///          across all Materials in the problem
   MicroscopicCrossSection
-  GetMicroscopicMajorant(const Particle& p) const noexcept;
+  GetMicroscopicMajorant(const Particle& p) const;
   /// @brief Return the total <em>microscopic</em> cross section
-  MicroscopicCrossSection GetMicroscopicTotal(const Particle& p) const noexcept;
+  MicroscopicCrossSection GetMicroscopicTotal(const Particle& p) const;
   /// @brief Unique, user-defined identifier (C++ Core Guidelines C.131)
   const std::string name;
   /// @brief All Nuclide objects which make up this Material and their
diff --git a/src/Nuclide.cpp b/src/Nuclide.cpp
index 75c83c5..22ea373 100644
--- a/src/Nuclide.cpp
+++ b/src/Nuclide.cpp
@@ -13,14 +13,14 @@ Nuclide::Nuclide(const pugi::xml_node& nuclide_node)
     : name{nuclide_node.attribute("name").as_string()}, xs{Interaction::Create(
                                                             nuclide_node)} {}
 
-MicroscopicCrossSection Nuclide::GetMajorant(const Particle& p) const noexcept {
+MicroscopicCrossSection Nuclide::GetMajorant(const Particle& p) const {
   return xs.at(p.type)->GetMajorant(p);
 }
 
-MicroscopicCrossSection Nuclide::GetTotal(const Particle& p) const noexcept {
+MicroscopicCrossSection Nuclide::GetTotal(const Particle& p) const {
   return xs.at(p.type)->GetTotal(p);
 }
 
-void Nuclide::Interact(Particle& p) const noexcept {
+void Nuclide::Interact(Particle& p) const {
   xs.at(p.type)->Interact(p);
 }
diff --git a/src/Nuclide.hpp b/src/Nuclide.hpp
index 21da9ed..4ab657a 100644
--- a/src/Nuclide.hpp
+++ b/src/Nuclide.hpp
@@ -17,11 +17,11 @@ public:
   /// @brief Constructs a Nuclide from a `nuclide` node
   Nuclide(const pugi::xml_node& nuclide_node);
   /// @brief Returns the majorant cross section for a given Particle
-  MicroscopicCrossSection GetMajorant(const Particle& p) const noexcept;
+  MicroscopicCrossSection GetMajorant(const Particle& p) const;
   /// @brief Returns the total cross section for a given Particle
-  MicroscopicCrossSection GetTotal(const Particle& p) const noexcept;
+  MicroscopicCrossSection GetTotal(const Particle& p) const;
   /// @brief Interact with a Particle, updating its state
-  void Interact(Particle& p) const noexcept;
+  void Interact(Particle& p) const;
   /// @brief Unique, user-defined identifier (C++ Core Guidelines C.131)
   const std::string name;
 
diff --git a/src/Particle.cpp b/src/Particle.cpp
index 3a59b98..0cc6747 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -39,11 +39,11 @@ Particle::Particle(
     : position{position}, direction{direction}, energy{energy}, cell{cell},
       rng{seed}, type{type} {}
 
-Bank Particle::Transport(EstimatorSetProxy& e, const World& w) noexcept {
+Bank Particle::Transport(EstimatorSetProxy& e, const World& w) {
   return transport_method->Transport(*this, e, w);
 }
 
-void Particle::Stream(const Real distance) noexcept {
+void Particle::Stream(const Real distance) {
   // update indirect effect due to each perturbation
   for (auto& [perturbation, indirect_effect] : indirect_effects) {
     indirect_effect += perturbation->Stream(*this, distance);
@@ -107,7 +107,7 @@ Real Particle::Sample() noexcept {
   return std::uniform_real_distribution{}(rng);
 }
 
-const Nuclide& Particle::SampleNuclide() noexcept {
+const Nuclide& Particle::SampleNuclide() {
   const MicroscopicCrossSection threshold =
       cell->material->GetMicroscopicTotal(*this) *
       std::uniform_real_distribution{}(rng);
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 178a9b4..85d3ccb 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -52,9 +52,9 @@ public:
       const Cell* cell = nullptr) noexcept;
   /// @brief Use Particle::transport_method to update Particle state until it
   ///        dies
-  Bank Transport(EstimatorSetProxy& e, const World& w) noexcept;
+  Bank Transport(EstimatorSetProxy& e, const World& w);
   /// @brief Moves the particle along its current direction a given distance
-  void Stream(const Real distance) noexcept;
+  void Stream(const Real distance);
   /// @brief Scatters the Particle with an outgoing direction and energy.
   /// @details Scattering is assumed to be azimuthally symmetric.
   /// @param mu The scattering cosine @f$ \mu @f$
@@ -97,7 +97,7 @@ public:
   Real Sample() noexcept;
   /// @brief Sample a Nuclide given that the Particle has collided inside its
   ///        Cell
-  const Nuclide& SampleNuclide() noexcept;
+  const Nuclide& SampleNuclide();
   /// @brief Returns true if the Particle should continue to be transported
   bool IsAlive() const noexcept;
 
diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bbc3dec..92051b1 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -22,14 +22,14 @@
 
 //// public
 
-ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
+ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node)
     : majorant{HDF5DataSet<1>{tsl_node.attribute("majorant").as_string()}
                    .ToContinuousMap()},
       scatter_xs_T{tsl_node.attribute("total_T").as_string()},
       scatter_xs_S{tsl_node.attribute("total_S").as_string()},
       scatter_xs_E{tsl_node.attribute("total_E").as_string()},
       // IIFE
-      beta_partitions{[&tsl_node]() noexcept {
+      beta_partitions{[&tsl_node]() {
         std::vector<BetaPartition> result;
         for (const auto& partition_node : tsl_node.child("beta_partitions")) {
           result.emplace_back(partition_node);
@@ -62,7 +62,7 @@ ThermalScattering::ThermalScattering(const pugi::xml_node& tsl_node) noexcept
         return result;
       }()},
       // IIFE
-      alpha_partitions{[&tsl_node]() noexcept {
+      alpha_partitions{[&tsl_node]() {
         std::vector<AlphaPartition> result;
         for (const auto& partition_node : tsl_node.child("alpha_partitions")) {
           result.emplace_back(partition_node);
@@ -109,7 +109,7 @@ ThermalScattering::GetMajorant(const Particle& p) const noexcept {
 }
 
 MicroscopicCrossSection
-ThermalScattering::GetTotal(const Particle& p) const noexcept {
+ThermalScattering::GetTotal(const Particle& p) const {
 
   // Find index of Energy above and below Particle Energy
   const auto E = std::get<ContinuousEnergy>(p.GetEnergy());
@@ -182,7 +182,7 @@ ThermalScattering::BetaPartition::BetaPartition(
 
 ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
     const size_t cdf_index, const size_t E_index,
-    Temperature T) const noexcept {
+    Temperature T) const {
 
   // Find index of Temperature above and below target Temperature
   const auto& Ts = E_T_modes.GetAxis(1);
@@ -258,7 +258,7 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
 // ThermalScattering
 
 MacroscopicCrossSection ThermalScattering::EvaluateInelastic(
-    const size_t E_index, const size_t T_index) const noexcept {
+    const size_t E_index, const size_t T_index) const {
   const size_t max_order = scatter_xs_S.GetAxis(0).size();
   MicroscopicCrossSection result = 0;
   for (size_t order = 0; order < max_order; order++) {
diff --git a/src/ThermalScattering.hpp b/src/ThermalScattering.hpp
index 25b2d06..a1fffb0 100644
--- a/src/ThermalScattering.hpp
+++ b/src/ThermalScattering.hpp
@@ -28,7 +28,7 @@ public:
   /// @brief Dimensionless momentum transfer
   using Alpha = Real;
   /// @brief Constructs thermal scattering data from a `tsl` node
-  ThermalScattering(const pugi::xml_node& tsl_node) noexcept;
+  ThermalScattering(const pugi::xml_node& tsl_node);
   /// @brief Returns true if Particle is Type::neutron and is strictly below
   ///        the cutoff energy
   bool IsValid(const Particle& p) const noexcept;
@@ -43,7 +43,7 @@ public:
   ///          energy and temperature.
   /// @todo Avoid calling HDF5DataSet::at for each order since order
   ///       coefficients are adjacent in memory
-  MicroscopicCrossSection GetTotal(const Particle& p) const noexcept;
+  MicroscopicCrossSection GetTotal(const Particle& p) const;
   /// @brief The raison d'etre of this class
   /// @exception std::runtime_error Resample limit for beta exceeded
   void Scatter(Particle& p) const;
@@ -58,7 +58,7 @@ private:
     // Evaluates beta using proper orthogonal decomposition and linear
     // interpolation in T
     Beta Evaluate(const size_t cdf_index, const size_t E_index, Temperature T)
-        const noexcept;
+        const;
     // Contains CDF modes
     const HDF5DataSet<2> CDF_modes;
     // Contains singular values
@@ -86,7 +86,7 @@ private:
   };
   // Evaluates the inelastic scattering cross section.
   MacroscopicCrossSection
-  EvaluateInelastic(const size_t E_index, const size_t T_index) const noexcept;
+  EvaluateInelastic(const size_t E_index, const size_t T_index) const;
   // Sample an outgoing energy. Requires Particle energy is strictly below
   // ThermalScattering::cutoff_energy. Uses histogram interpolation in PDF.
   Beta SampleBeta(Particle& p, ContinuousEnergy E, Temperature T) const;
diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index ce304cb..7960cdf 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -50,7 +50,7 @@ TransportMethod::~TransportMethod() noexcept {}
 // SurfaceTracking
 
 Bank SurfaceTracking::Transport(
-    Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
+    Particle& p, EstimatorSetProxy& e, const World& w) const {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
   while (p.IsAlive()) {
@@ -77,7 +77,7 @@ Bank SurfaceTracking::Transport(
 }
 
 MicroscopicCrossSection SurfaceTracking::GetCollisionProbabilityDensity(
-    const Particle& p) const noexcept {
+    const Particle& p) const {
   return p.GetCell().material->GetMicroscopicTotal(p);
 }
 
@@ -86,7 +86,7 @@ MicroscopicCrossSection SurfaceTracking::GetCollisionProbabilityDensity(
 // TODO: Remove embarrasing amount of code duplication between this and
 // SurfaceTracking
 Bank CellDeltaTracking::Transport(
-    Particle& p, EstimatorSetProxy& e, const World& w) const noexcept {
+    Particle& p, EstimatorSetProxy& e, const World& w) const {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
   while (p.IsAlive()) {
@@ -124,6 +124,6 @@ Bank CellDeltaTracking::Transport(
 }
 
 MicroscopicCrossSection CellDeltaTracking::GetCollisionProbabilityDensity(
-    const Particle& p) const noexcept {
+    const Particle& p) const {
   return p.GetCell().material->GetMicroscopicMajorant(p);
 }
diff --git a/src/TransportMethod.hpp b/src/TransportMethod.hpp
index d002a02..78c492e 100644
--- a/src/TransportMethod.hpp
+++ b/src/TransportMethod.hpp
@@ -40,11 +40,11 @@ public:
   /// @param w World the Particle transports within
   /// @returns Any secondaries produced in the course of transporting p
   virtual Bank Transport(
-      Particle& p, EstimatorSetProxy& e, const World& w) const noexcept = 0;
+      Particle& p, EstimatorSetProxy& e, const World& w) const = 0;
   /// @brief Returns the probability density of colliding per unit distance per
   ///        unit number density
   virtual MicroscopicCrossSection
-  GetCollisionProbabilityDensity(const Particle& p) const noexcept = 0;
+  GetCollisionProbabilityDensity(const Particle& p) const = 0;
 };
 
 /// @brief Loops over each CSGSurface in the current Cell to find the next
@@ -53,10 +53,10 @@ class SurfaceTracking : public TransportMethod {
 public:
   /// @brief Implements delta tracking
   Bank Transport(Particle& p, EstimatorSetProxy& e, const World& w)
-      const noexcept override;
+      const override;
   /// @brief Returns the probability density of a true collision
   MicroscopicCrossSection
-  GetCollisionProbabilityDensity(const Particle& p) const noexcept override;
+  GetCollisionProbabilityDensity(const Particle& p) const override;
 };
 
 /// @brief Tracks a particle using delta tracking within a Cell. Surface
@@ -65,8 +65,8 @@ class CellDeltaTracking : public TransportMethod {
 public:
   /// @brief Implements cell delta tracking
   Bank Transport(Particle& p, EstimatorSetProxy& e, const World& w)
-      const noexcept override;
+      const override;
   /// @brief Returns the probability density of a true or virtual collision
   MicroscopicCrossSection
-  GetCollisionProbabilityDensity(const Particle& p) const noexcept override;
+  GetCollisionProbabilityDensity(const Particle& p) const override;
 };
-- 
2.43.0


From 2da3b70da78a80db2aea00f71fc9c24406df4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:12 +0000
Subject: [PATCH 12/17] fix: a source in a void raises an error instead of
 dereferencing null

---
 src/TransportMethod.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/TransportMethod.cpp b/src/TransportMethod.cpp
index 7960cdf..9589183 100644
--- a/src/TransportMethod.cpp
+++ b/src/TransportMethod.cpp
@@ -53,6 +53,9 @@ Bank SurfaceTracking::Transport(
     Particle& p, EstimatorSetProxy& e, const World& w) const {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
+  if (!p.GetCell().material) {
+    throw std::runtime_error("Particle cannot start in a void Cell");
+  }
   while (p.IsAlive()) {
     const auto distance_to_collision = std::exponential_distribution{
         p.GetCell().material->number_density *
@@ -89,6 +92,9 @@ Bank CellDeltaTracking::Transport(
     Particle& p, EstimatorSetProxy& e, const World& w) const {
   Bank history_bank;
   p.SetCell(w.FindCellContaining(p.GetPosition()));
+  if (!p.GetCell().material) {
+    throw std::runtime_error("Particle cannot start in a void Cell");
+  }
   while (p.IsAlive()) {
     const auto distance_to_collision = std::exponential_distribution{
         p.GetCell().material->number_density *
-- 
2.43.0


From 7ff4af1d853f6586af7420f55b4f321f65372f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:35 +0000
Subject: [PATCH 13/17] fix: reject unknown or missing particle types with an
 exception

Particle::ToType asserted on a missing or unknown type and, without
assertions, silently returned neutron. The schema allows the type attribute
of a particle type distribution to be left out.
---
 src/Particle.cpp | 5 ++---
 src/Particle.hpp | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 0cc6747..5f5ec30 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -18,7 +18,7 @@
 
 //// public
 
-Particle::Type Particle::ToType(const std::string& name) noexcept {
+Particle::Type Particle::ToType(const std::string& name) {
   if (name == "neutron") {
     return Particle::Type::neutron;
   }
@@ -26,8 +26,7 @@ Particle::Type Particle::ToType(const std::string& name) noexcept {
     return Particle::Type::photon;
   }
   else {
-    assert(false); // this should have been caught by the validator
-    return {};
+    throw std::runtime_error("Unrecognized particle type: \"" + name + "\"");
   };
 }
 
diff --git a/src/Particle.hpp b/src/Particle.hpp
index 85d3ccb..24cf3e4 100644
--- a/src/Particle.hpp
+++ b/src/Particle.hpp
@@ -42,7 +42,7 @@ public:
     virtual_collision,
   };
   /// @brief Helper function to convert from std::string to Type
-  static Type ToType(const std::string& name) noexcept;
+  static Type ToType(const std::string& name);
   /// @brief The TransportMethod used by all Particle objects
   static std::unique_ptr<const TransportMethod> transport_method;
   /// @brief Member constructor. Explicitly assigns phase-space members.
-- 
2.43.0


From 9d526cf1543a26479b96c975b1a297f737385cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:11 +0000
Subject: [PATCH 14/17] fix: use the highest tabulated temperature for thermal
 total cross sections above it

At or above the highest tabulated temperature the interpolation factor was 0,
which selects the second to last temperature.
---
 src/ThermalScattering.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 92051b1..58bba21 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -151,7 +151,7 @@ ThermalScattering::GetTotal(const Particle& p) const {
   const auto T_lo = Ts.at(T_lo_i);
   const auto T_hi = Ts.at(T_hi_i);
   const auto r_T = below_T_min   ? 1
-                   : above_T_max ? 0
+                   : above_T_max ? 1
                                  : (T - T_lo) / (T_hi - T_lo);
   return xs_T_lo + r_T * (xs_T_hi - xs_T_lo);
 }
-- 
2.43.0


From cdfaf5f7b0eddbf9a11f254093d77df3b7a32cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:11 +0000
Subject: [PATCH 15/17] fix: avoid 0/0 for thermal scattering below the lowest
 tabulated temperature

Below the lowest tabulated temperature, or if there is only one, the lower and
upper temperature coincide and interpolating between them yields NaN.
---
 src/ThermalScattering.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index 58bba21..c2df5fb 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -210,7 +210,9 @@ ThermalScattering::Beta ThermalScattering::BetaPartition::Evaluate(
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
   const Real sampled_beta =
-      beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
+      below_T_min
+          ? beta_T_lo
+          : beta_T_lo + (beta_T_hi - beta_T_lo) / (T_hi - T_lo) * (T - T_lo);
   return sampled_beta;
 }
 
@@ -251,7 +253,10 @@ ThermalScattering::Alpha ThermalScattering::AlphaPartition::Evaluate(
   const Temperature T_hi = Ts.at(T_hi_i);
   const Temperature T_lo = Ts.at(T_lo_i);
   const Real sampled_alpha =
-      alpha_T_lo + (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
+      below_T_min
+          ? alpha_T_lo
+          : alpha_T_lo +
+                (alpha_T_hi - alpha_T_lo) / (T_hi - T_lo) * (T - T_lo);
   return sampled_alpha;
 }
 
-- 
2.43.0


From 7f625246a1b0d262ba9248ad61be2fbd34f7eacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:11 +0000
Subject: [PATCH 16/17] fix: interpolate between beta grids when sampling alpha

A misplaced parenthesis made the probability of choosing the upper grid
something other than the relative distance to the lower one.
---
 src/ThermalScattering.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index c2df5fb..bcc2f30 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -366,8 +366,8 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   const Real r = snap_to_lower ? 0
                  : snap_to_min
                      ? 1
-                     : (abs_b - betas.at(b_hi_i - 1) /
-                                    (betas.at(b_hi_i) - betas.at(b_hi_i - 1)));
+                     : (abs_b - betas.at(b_hi_i - 1)) /
+                           (betas.at(b_hi_i) - betas.at(b_hi_i - 1));
   const size_t b_s_i =
       r <= std::uniform_real_distribution{}(p.rng) ? b_hi_i - 1 : b_hi_i;
   Beta b_s = sgn_b * betas.at(b_s_i);
-- 
2.43.0


From 8c7a3f06473d0af987b5f913b5527ae356eecfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:12 +0000
Subject: [PATCH 17/17] fix: sample alpha for beta beyond the last tabulated
 beta

Looking up the upper beta grid threw std::out_of_range.
---
 src/ThermalScattering.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ThermalScattering.cpp b/src/ThermalScattering.cpp
index bcc2f30..1a01fbd 100644
--- a/src/ThermalScattering.cpp
+++ b/src/ThermalScattering.cpp
@@ -357,8 +357,10 @@ ThermalScattering::Alpha ThermalScattering::SampleAlpha(
   // b_lo <= abs_b < b_hi
   // For positive b, if beta_cutoff <= b_hi, we force the use of b_lo
   // For negative b, if -b_hi < - E / (k * T), we force the use of b_lo
+  // If there is no b_hi, we have no choice but to use b_lo
   const bool snap_to_lower =
-      ((sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
+      (b_hi_i == betas.size() ||
+       (sgn_b == 1 && beta_cutoff <= betas.at(b_hi_i)) ||
        (sgn_b == -1 && -betas.at(b_hi_i) < -E / (constants::boltzmann * T)));
   // Handle case where abs_b is less than the smallest beta provided, b_min
   const bool snap_to_min = b_hi_i == 0;
-- 
2.43.0

