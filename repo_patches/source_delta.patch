From 302a00ee724f7d0cf0ec8b688e37a86c6fac1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 01/13] fix: keep the sign of the charged particle phase shift

acos( G / sqrt( F^2 + G^2 ) ) is the angle of (G,F) only when F >= 0.
---
 .../rmatrix/src/calculatePhaseShift.hpp                       | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
index d827a06..f1bbc8c 100644
--- a/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/calculatePhaseShift.hpp
@@ -69,7 +69,5 @@ double calculatePhaseShift< ChargedParticle >( const unsigned int l,
 
   double F = gf.imag();
   double G = gf.real();
-  return ( F == 0. ) and ( G == 0. )
-           ? 0.
-           : std::acos( G / std::sqrt( F * F + G * G ) );
+  return std::atan2( F, G );
 }
-- 
2.43.0


From b38f6a4b5275b33bedfc90d6235978d1cd693d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 02/13] fix: scale the whole amplitude derivative in the
 Riccati expansion above the barrier

Only the leading term of b was multiplied by x1*y1, so G' was off by up to a
percent for 5 <= eta < 15 and rho > 2 eta.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 146230e..749cd56 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -171,7 +171,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 =  3.0*(x*(x*(x*(39.*x-260.)+728.)-832.)+2560.)/4096.;
   g3 = -3.0*(x*(x*(x*(x*(x*(1899.*x-17724.)+73432.)-177280.)+308480.)
            +196608.)+860160.)/131072.;
-  b = x1*y1/4.0+g0*(g1+g0*(g2+g0*g3));
+  b = x1*y1*(0.25+g0*(g1+g0*(g2+g0*g3)));
 
   m = 1.0/std::sqrt(x2)*exp(psi);
 
-- 
2.43.0


From 652edf216e6af193b756be9aac1cca63672d7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:23 +0000
Subject: [PATCH 03/13] fix: coefficient of the third phase correction in the
 Riccati expansion

It is the coefficient 13178880 of the same polynomial in omGcase1.
---
 src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
index 749cd56..7b89170 100644
--- a/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/coh3-asympt.hpp
@@ -149,7 +149,7 @@ void omGcase4(double ra, double y, double *p0, double *p1)
   g2 = -(x*(x*(x*(x*(x*(-1890.*x+7560.)-12240.)-13440.)+16128.)-9216.)+2048.)
        /92160.;
   g3 = -(x*(x*(x*(x*(x*(x*(x*(x*(x*(130977.*x
-       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+15178880.)
+       -  873180.)+2487240.)-3588480.)+13520640.)- 9225216.)+13178880.)
        -11714560.)+6389760.)-1966080.)+  262144.)/10321920.;
   g4 = 2.0*y*(x2/x+0.5*log((1.0-x2)/(1.0+x2)))+PI_4;
   fai = g4+std::sqrt(g0)*(g1+g0*(g2+g0*g3));
-- 
2.43.0


From f4a5f47a2ae6a06268576a11f9ef03de25c686dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:40 +0000
Subject: [PATCH 04/13] fix: compare the collision matrix with twice the
 Coulomb phase of the incident channel

---
 .../rmatrix/SpinGroup/src/evaluate.hpp                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
index a2526f5..4f83457 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/evaluate.hpp
@@ -67,12 +67,12 @@ void evaluate( const Energy& energy,
                                    incidentSqrtP * tValue * sqrtP ) * omega; },
             delta( 1.0 ), row, diagonalSqrtPMatrix, diagonalOmegaMatrix );
 
-    // the exponential of the coulomb phase shift for the incident channel
+    // the exponential of twice the coulomb phase shift for the incident channel
     const auto exponential =
-      std::exp( std::complex< double >( 0., coulombShifts[c] ) );
+      std::exp( std::complex< double >( 0., 2. * coulombShifts[c] ) );
 
     // the cross section values for channel c to c' - independent of formalism
-    // sigma_cc' = norm( exp( iw_c ) delta_cc' - U_cc' )
+    // sigma_cc' = norm( exp( 2iw_c ) delta_cc' - U_cc' )
     const auto sigma =
       ranges::view::zip_with(
           [&] ( const auto delta, const auto uValue )
-- 
2.43.0


From ac54b1eaec0f6334c2c4e51d20bda0d8e067e7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:37 +0000
Subject: [PATCH 05/13] fix: refuse a spin group without channels instead of
 reading its first channel

---
 .../rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp b/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
index 5cb13e8..6328661 100644
--- a/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
+++ b/src/resonanceReconstruction/rmatrix/SpinGroup/src/makeReactionIdentifiers.hpp
@@ -3,6 +3,9 @@ std::vector< ReactionID >
 makeReactionIdentifiers( const std::vector< ParticleChannel >& channels,
                          ReichMoore ) {
 
+  // a spin group without channels is refused by verifyChannels
+  if ( channels.empty() ) { return {}; }
+
   auto reactionID = [] ( const auto& channel )
                        { return channel.reactionID(); };
 
-- 
2.43.0


From 0d22830b13abdc844a2f5902112caf68d86493b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 06/13] fix: store the penetrability of a legacy resonance,
 which was left uninitialised

---
 .../rmatrix/legacy/resolved/Resonance/src/ctor.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
index c85ad56..7723815 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/resolved/Resonance/src/ctor.hpp
@@ -25,4 +25,5 @@ Resonance( const Energy& energy,
     competition_( competition ),
     elastic_to_penetrability_( elastic / P ),
     competition_to_penetrability_( competition / Q ),
+    penetrability_( P ),
     shiftfactor_( S ) {}
-- 
2.43.0


From 129afc32e66a490743cb5b80f04d8004cd8d677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:47 +0000
Subject: [PATCH 07/13] fix: no quadrature lookup below the first column when
 the elastic width has no degrees of freedom

---
 .../legacy/unresolved/src/calculateFluctuationIntegrals.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
index 73898d4..4f79bd9 100644
--- a/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
+++ b/src/resonanceReconstruction/rmatrix/legacy/unresolved/src/calculateFluctuationIntegrals.hpp
@@ -46,7 +46,7 @@ FluctuationIntegrals calculateFluctuationIntegrals( const Widths& widths,
                                0. / electronVolt, 0. / electronVolt );
 
   // the degrees of freedom for each reaction
-  unsigned int mu = degrees.elastic - 1;
+  unsigned int mu = degrees.hasElastic() ? degrees.elastic - 1 : 0;
   unsigned int nu = degrees.hasFission() ? degrees.fission - 1 : 0;
   unsigned int lambda = degrees.hasCompetition() ? degrees.competition - 1 : 0;
 
-- 
2.43.0


From d482c22939b1292f597ce52c6f57c729747476f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:50 +0000
Subject: [PATCH 08/13] fix: channels of R-matrix limited data take the
 reaction of their own particle pair

---
 .../rmatrix/src/makeParticleChannels.hpp               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
index a78bc8e..701501f 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannels.hpp
@@ -62,12 +62,18 @@ makeParticleChannels(
 
   // do some range magic
   auto q = endfPairs.Q();
-  auto incidentPairs = ranges::view::repeat_n( incident, pairs.size() );
+  auto mt = endfPairs.MT();
+  auto incidentPairs = ranges::view::repeat_n(
+                           incident,
+                           ranges::distance( endfChannels.particlePairNumbers() ) );
   auto channelPairs = endfChannels.particlePairNumbers()
                           | ranges::view::transform( getParticlePair );
   auto qValues = endfChannels.particlePairNumbers()
                      | ranges::view::transform( [&] ( unsigned int i )
                                                     { return q[ i - 1 ]; } );
+  auto channelMTs = endfChannels.particlePairNumbers()
+                        | ranges::view::transform( [&] ( unsigned int i )
+                                                       { return mt[ i - 1 ]; } );
   auto channelNumbers = ranges::view::zip_with(
                             makeChannelQuantumNumbers,
                             endfChannels.orbitalMomentumValues(),
@@ -85,5 +91,5 @@ makeParticleChannels(
              channelNumbers,
              channelRadii,
              endfChannels.boundaryConditionValues(),
-             endfPairs.MT() );
+             channelMTs );
 }
-- 
2.43.0


From b7c17aef80220b7760a7f8b5cbe2aeb95041fab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:50 +0000
Subject: [PATCH 09/13] fix: Reich-Moore channels without resonances use the l
 dependent scattering radius

---
 .../src/makeReichMooreCompoundSystem.hpp      | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
index d18cdd6..4cda687 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeReichMooreCompoundSystem.hpp
@@ -21,10 +21,6 @@ makeReichMooreCompoundSystem(
                    Particle( target, awri * neutronMass,
                              0.0 * coulombs, spin, +1) );
 
-  // channel radii
-  ChannelRadii radii = makeChannelRadii( ap, nro, naps,
-                                         awri, neutronMass.value );
-
   // create the spin groups and assign the quantum numbers
   auto required = makeQuantumNumbers( in, nlsc );
   auto lvalues = endfReichMoore.lValues();
@@ -41,7 +37,20 @@ makeReichMooreCompoundSystem(
   // add the remaining required elastic channels with no resonances
   for ( const auto& number : required ) {
 
-    Channel< Neutron > elastic( in, in, 0.0 * electronVolt, number, radii );
+    // the l dependent scattering radius is used when there is one
+    double radius = ap;
+    for ( const auto& lvalue : lvalues ) {
+
+      if ( ( lvalue.orbitalMomentum() == number.orbitalAngularMomentum() ) and
+           ( lvalue.lDependentScatteringRadius() != 0. ) ) {
+
+        radius = lvalue.lDependentScatteringRadius();
+      }
+    }
+
+    Channel< Neutron > elastic( in, in, 0.0 * electronVolt, number,
+                                makeChannelRadii( radius, nro, naps,
+                                                  awri, neutronMass.value ) );
     data.emplace_back( elastic,
                        std::vector< Energy >{},
                        std::vector< ReducedWidth >{} );
-- 
2.43.0


From 362b85f343ef5c18c5c5fcc4726b583b7bc174d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:50 +0000
Subject: [PATCH 10/13] fix: R-matrix limited data without a capture or elastic
 pair read outside the pairs

---
 .../rmatrix/src/makeCompoundSystem.hpp                    | 5 +++++
 .../rmatrix/src/makeParticleChannelData.hpp               | 8 +++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp b/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
index 7d97876..90ebfe6 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeCompoundSystem.hpp
@@ -12,6 +12,11 @@ makeCompoundSystem(
   auto endfPairs = endfRMatrix.particlePairs();
   auto pairs = makeParticlePairs( endfPairs, neutronMass, elementaryCharge,
                                   incident, target );
+  if ( rmatrix::incident( endfPairs ) == pairs.size() ) {
+
+    throw std::runtime_error( "The R-matrix limited data has no elastic "
+                              "particle pair" );
+  }
   auto in = pairs[ rmatrix::incident( endfPairs ) ];
   bool reducedWidthsFlag = endfRMatrix.reducedWidths() == 0 ? false : true;
   auto spingroups = endfRMatrix.spinGroups();
diff --git a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
index bab40e5..f5bf264 100644
--- a/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/makeParticleChannelData.hpp
@@ -271,6 +271,12 @@ makeParticleChannelData(
                          channel );
     };
 
+    // without a capture pair, there is no eliminated channel
+    if ( rmatrix::eliminated( endfPairs ) == pairs.size() ) {
+
+      return static_cast< long >( channels.size() );
+    }
+
     auto eliminatedPair = pairs[ rmatrix::eliminated( endfPairs ) ];
     auto pairs = channels | ranges::view::transform( getParticlePair );
     auto found = std::find_if(
@@ -278,7 +284,7 @@ makeParticleChannelData(
                      ranges::end( pairs ),
                      [&] ( const auto& pair )
                          { return eliminatedPair.pairID() == pair.pairID(); } );
-    return std::distance( ranges::begin( pairs ), found );
+    return static_cast< long >( std::distance( ranges::begin( pairs ), found ) );
   }();
 
   // go over the data and create the particle channel data
-- 
2.43.0


From ee42c11c3025b3bf4d981648b55a0fff2dee4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:50 +0000
Subject: [PATCH 11/13] fix: whether the shift factor counts is taken from the
 elastic pair, not from the first one

---
 src/resonanceReconstruction/rmatrix/src/fromENDF.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
index 21c432a..c7e099a 100644
--- a/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
+++ b/src/resonanceReconstruction/rmatrix/src/fromENDF.hpp
@@ -64,8 +64,15 @@ fromENDF( const endf::ResonanceRange& endfResonanceRange,
 
           auto endfRMatrix =
             std::get< endf::RMatrixLimited >( endfResonanceRange.parameters() );
-          bool shiftFactorBoundary =
-              endfRMatrix.particlePairs().shiftFactorFlag().front() == 0 ? true : false;
+          auto endfPairs = endfRMatrix.particlePairs();
+          auto elastic = rmatrix::incident( endfPairs );
+          auto flags = endfPairs.shiftFactorFlag();
+          if ( elastic == ranges::distance( flags ) ) {
+
+            throw std::runtime_error( "The R-matrix limited data has no elastic "
+                                      "particle pair" );
+          }
+          bool shiftFactorBoundary = flags[ elastic ] == 0 ? true : false;
 
           switch ( endfRMatrix.formalism() ) {
 
-- 
2.43.0


From 72bd54db6163204b560c7625e9aec23e46a64d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:00 +0000
Subject: [PATCH 12/13] fix: refuse a range with unsupported radius options
 instead of running off the end of the function

---
 .../breitWigner/multiLevel/Apply/src/call.hpp                   | 2 ++
 .../breitWigner/singleLevel/Apply/src/call.hpp                  | 2 ++
 src/resonanceReconstruction/reichMoore/Apply/src/call.hpp       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
index 71e4d20..ecfc722 100644
--- a/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/multiLevel/Apply/src/call.hpp
@@ -31,6 +31,8 @@ operator()( const endf::ResonanceRange& range,
         return callback( build( energyRange, mlbw, radius( mlbw.AP() ) ) );
       }
     }
+
+    throw std::runtime_error( "Unsupported NAPS value" );
   }
   catch( std::bad_optional_access& ){
     Log::error( "Resonance range doesn't have scattering radius." );
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
index 37a83a0..daba3ed 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/call.hpp
@@ -32,6 +32,8 @@ operator()( const endf::ResonanceRange& range,
         return callback( build( energyRange, slbw, radius( slbw.AP() ) ) );
       }
     }
+
+    throw std::runtime_error( "Unsupported NAPS value" );
   }
   catch( std::bad_optional_access& ){
     Log::error( "Resonance range doesn't have scattering radius." );
diff --git a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
index fbf33aa..4d0031b 100644
--- a/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
+++ b/src/resonanceReconstruction/reichMoore/Apply/src/call.hpp
@@ -46,6 +46,8 @@ operator()( const endf::ResonanceRange& range,
                                   rm, Both{}, radius( rm.AP() ), true ) );
       }
     }
+
+    throw std::runtime_error( "Unsupported NAPS value" );
   }
   catch ( ... ) {
 
-- 
2.43.0


From 220e1f382c324ba59f8a492d421527a197d06cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:00 +0000
Subject: [PATCH 13/13] fix: the competing channel of a Breit-Wigner range
 opens at its threshold in the laboratory system

---
 .../breitWigner/lvalue/Type/src/competitiveWidth.hpp          | 4 +++-
 .../breitWigner/singleLevel/Apply/src/lvalue.hpp              | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
index 42cb0da..50fcc84 100644
--- a/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
+++ b/src/resonanceReconstruction/breitWigner/lvalue/Type/src/competitiveWidth.hpp
@@ -1,8 +1,10 @@
 template< typename ChannelRatio >
 auto competitiveWidth( const Quantity< ElectronVolts > energy,
                        ChannelRatio&& rho ) const {
+  const auto channelEnergy = energy + *( this->weightedQValue );
   const double penetrationFactor =
-    this->penetrationShift( rho( energy + *( this->weightedQValue ) ) )[0];
+    channelEnergy < 0. * electronVolts ?
+    0. : this->penetrationShift( rho( channelEnergy ) )[0];
   
   return [ penetrationFactor ]( const resonance::Type& r ){
     return r.weightedCompetitiveWidth * penetrationFactor;
diff --git a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
index d37f5c5..9d836f8 100644
--- a/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
+++ b/src/resonanceReconstruction/breitWigner/singleLevel/Apply/src/lvalue.hpp
@@ -8,7 +8,7 @@ static auto lvalue( const endf::SingleLevelBreitWigner::LValue& lstate,
                     double targetSpin ){
   if ( lstate.LRX() ){
     const auto weightRatio = lstate.AWRI() / ( lstate.AWRI() + 1. );
-    const auto offset = lstate.QX() * weightRatio * electronVolts;
+    const auto offset = lstate.QX() / weightRatio * electronVolts;
 
     auto rs =
       resonances( lstate.resonances(),
-- 
2.43.0

