prop("P01", "Coupling of angular momenta yields exactly the physically possible values",
     "For any particle spin, target spin and orbital angular momentum, the lists of possible channel spins and of possible total angular momenta contain every value that quantum-mechanical coupling allows, each exactly once and in increasing order, and nothing else.",
     ["inputs"], "for all half-integer spins and integer orbital momenta",
     "The tests list a few spins up to 9/2; the rule has to hold for every nuclide and wave a data file can name.",
     [S + "possibleChannelSpinValues.hpp", S + "possibleChannelTotalAngularMomentumValues.hpp"],
     "The functions produce |a-b| .. a+b in unit steps; the specification counts projections of the product space instead.",
     "coupling", "All spins up to 9 and waves up to 7 are visited (three-way coupling: spins up to 5); larger ones at random up to 30.")
prop("P02", "Channel quantum numbers keep their values and have one canonical name",
     "A set of channel quantum numbers returns the orbital momentum, spin, total angular momentum and parity it was built from, and its text form is the canonical {l,s,J+/-} name with half-integers written as fractions, so that two channels have the same name exactly when all four numbers agree.",
     ["inputs"], "for all orbital momenta, spins, total angular momenta and parities",
     "Channel and reaction identifiers are built from this text, so one ambiguous or misprinted combination merges or loses channels; tests print two examples.",
     [R + "rmatrix/ChannelQuantumNumbers.hpp"],
     "ChannelQuantumNumbers::toString and its accessors", "coupling",
     "All labels with spins below 12.5 and even l up to 12 are visited; larger ones at random.")
prop("P03", "Neutron penetrability and shift factor are the exact hard-sphere values",
     "For neutron channels with orbital momentum 0 to 4 the penetrability and shift factor equal the logarithmic derivative of the outgoing free wave at the channel radius, for every positive value of rho, through every interface the library offers, and larger orbital momenta are refused rather than answered. A channel without positive kinetic energy has no penetrability in the interface that accepts such values.",
     ["inputs"], "for all rho > 0 (and rho <= 0 where accepted) and all orbital momenta",
     "The closed forms have a dozen coefficients whose effect is invisible at the few rho the tests sample.",
     [S + "calculatePenetrability.hpp", S + "calculateShiftFactor.hpp", R + "src/penetrationShift.hpp", S + "horner.hpp"],
     "closed forms per l; the specification uses the exact recurrence of the logarithmic derivative in rational arithmetic",
     "hardsphere", "rho from 2^-24 to 2^12.")
prop("P04", "Neutron hard-sphere phase shifts are exact up to whole turns",
     "For neutron channels with orbital momentum 0 to 4 the hard-sphere phase shift equals the phase of the free outgoing wave at the channel radius up to a multiple of pi, for every rho, and larger orbital momenta are refused.",
     ["inputs"], "for all rho > 0 and all orbital momenta",
     "The phase passes through poles of the closed form; the tests only sample smooth places.",
     [S + "calculatePhaseShift.hpp", R + "src/phaseShift.hpp"],
     "closed forms per l; the specification adds up arguments along the recurrence", "hardsphere", "rho from 2^-24 to 2^12.")
prop("P05", "Photon and fission channels have no barrier",
     "Channels that are neither neutron nor charged particle channels have penetrability 1, shift factor 0 and phase shift 0 for every orbital momentum, energy and charge, and only charged particle channels have a Coulomb phase shift.",
     ["inputs"], "for all l, rho and eta", "Tests try one or two values per function and channel type.",
     [S + "calculatePenetrability.hpp", S + "calculateShiftFactor.hpp", S + "calculatePhaseShift.hpp", S + "calculateCoulombPhaseShift.hpp"],
     "default templates", "hardsphere")
prop("P06", "Charged-particle penetrability and shift factor follow the Coulomb functions",
     "For charged particle channels the penetrability and shift factor equal those of the outgoing Coulomb wave at the channel radius to the accuracy of the stepwise integration (a few 1e-5, growing with eta/rho), for every orbital momentum up to 12, eta from 0 to 24 and rho from 1/16 to 45; without charge they are the hard-sphere values to rounding.",
     ["inputs"], "for all l <= 12, 0 <= eta <= 24, 1/16 <= rho <= 45 with a penetrability above 1e-40",
     "No test of the suite that can run here evaluates a charged-particle channel, and the algorithm switches between four expansions with many coefficients.",
     [S + "coh3-coulomb.hpp", S + "coh3-asympt.hpp", S + "coh3-extwave.hpp", S + "calculatePenetrability.hpp", S + "calculateShiftFactor.hpp"],
     "asymptotic start, Newmark integration, G upward and F downward recurrences; the specification uses 416-bit power series",
     "coulomb", "")
prop("P07", "Charged-particle hard-sphere phase shifts follow the Coulomb functions",
     "For charged particle channels the hard-sphere phase shift is the angle of the Coulomb wave (G, F) at the channel radius, with the right sign and quadrant, for every orbital momentum up to 12, eta from 0 to 24 and rho from 1/16 to 45.",
     ["inputs"], "for all l <= 12, 0 <= eta <= 24, 1/16 <= rho <= 45",
     "The interference of potential and resonance scattering depends on it and no test samples it.",
     [S + "calculatePhaseShift.hpp", S + "coh3-coulomb.hpp", S + "coh3-asympt.hpp", S + "coh3-extwave.hpp"],
     "as for the penetrability", "coulomb", "")
prop("P08", "The Coulomb phase shift difference is the sum of arctangents",
     "The Coulomb phase shift of a charged particle channel relative to the s-wave is the sum of arctan(eta/n) for n from 1 to l, for every l and eta, and zero for l = 0.",
     ["inputs"], "for all l and eta > 0", "It is accumulated over l, and tests sample l up to 2 at two values of eta.",
     [S + "calculateCoulombPhaseShift.hpp"], "accumulation over n", "coulomb",
     "The code adds cotangents (known finding): the check accepts exactly that deviation and nothing else.")
prop("P09", "Cross section tuples add, subtract and scale slot by slot",
     "A tuple of partial cross sections behaves as a vector: any history of additions, subtractions and scalings leaves in each slot exactly what that slot's own history gives, without mixing slots and without changing the operands.",
     ["inputs", "histories"], "for all sequences of operations on tuples of any length",
     "The evaluators sum thousands of contributions through it; the suite has no test of it at all.",
     [R + "pack.hpp"], "Pack operators", "pack")
M = R + "rmatrix/"
prop("P10", "Particles and particle pairs keep their data and derive masses from it",
     "A particle returns the mass, charge, spin, parity and name it was given, and is refused if its mass or charge is negative. A particle pair returns the reduced mass and the mass ratio that follow from the masses of its two particles in their given order, and is named after them unless a name was given.",
     ["inputs"], "for all masses, charges, spins, parities and names",
     "Every wave number is computed from these two ratios; tests build five pairs.",
     [M + "Particle.hpp", M + "ParticlePair.hpp", M + "Particle/src/ctor.hpp", M + "Particle/src/verifyNotNegative.hpp", M + "ParticlePair/src/ctor.hpp"],
     "constructors; the specification computes the ratios exactly", "channel")
prop("P11", "A channel is named, classified and weighted by its pair and quantum numbers",
     "A reaction channel returns what it was built from, its name joins the pair (or a given name) with the quantum numbers, its reaction joins the incident and outgoing pair, it is an entrance channel exactly when both pairs are the same, and its statistical factor is (2J+1)/(2i+1)/(2I+1) of its own pair.",
     ["inputs"], "for all pairs, names, q values, quantum numbers, radii and boundary conditions",
     "Cross sections are collected by these names and scaled with this factor; tests build one channel of each kind.",
     [M + "Channel.hpp", M + "Channel/src/ctor.hpp", M + "Channel/src/makeChannelID.hpp", M + "Channel/src/makeReactionID.hpp"],
     "constructors and accessors of Channel", "channel")
prop("P12", "Wave number, Sommerfeld parameter and threshold follow from the masses",
     "For every channel and incident energy the wave number and the Sommerfeld parameter are those of the outgoing pair at the kinetic energy left after the q value, counted in the centre of mass of the incident pair, and the channel is below its threshold exactly when that energy is negative.",
     ["inputs"], "for all channels and energies, with exact thresholds where the mass ratio is a double",
     "A threshold is one point on the energy axis and tests do not sample it; the constants only show in the fifth digit.",
     [M + "Channel/src/waveNumber.hpp", M + "Channel/src/sommerfeldParameter.hpp", M + "Channel/src/belowThreshold.hpp", "src/resonanceReconstruction.hpp"],
     "formulas in units; the specification uses its own CODATA constants in fixed point", "channel",
     "Wave numbers to 1e-12 relative (times the cancellation in E m + q).")
prop("P13", "Each wave quantity is computed with the radius meant for it",
     "A set of channel radii built from one, two or three radii, each a constant or a table over energy, answers with the right one for penetrability, shift factor and phase shift at every energy, and the channel computes each of these quantities with its own radius at that energy.",
     ["inputs"], "for all combinations of constants and tables, and all energies",
     "Where two radii are equal, as in most tests, a mix-up is invisible.",
     [M + "ChannelRadii.hpp", M + "ChannelRadii/src/ctor.hpp", M + "ChannelRadiusTable.hpp", M + "Channel/src/penetrability.hpp", M + "Channel/src/shiftFactor.hpp", M + "Channel/src/phaseShift.hpp"],
     "ChannelRadii accessors and Channel::penetrability, shiftFactor, phaseShift", "channel",
     "Energies inside the tables; what happens outside is decided by the interpolation library, which is not part of this repository.")
prop("P14", "Inconsistent R-matrix systems are refused and leave nothing behind",
     "Building a spin group or compound system succeeds exactly when there is at least one group and channel, all channels of a group share the incident pair, spin and parity, no channel or spin group occurs twice, there is an entrance channel, and every resonance has one width for each of the channels in their order. Anything else is refused, at whatever place in the input the fault is, and systems built before are unaffected.",
     ["inputs", "histories"], "for all systems with one fault anywhere, and all without",
     "Tests try each fault once in a one- or two-channel group at the first place looked at.",
     [M + "SpinGroup/src/verifyChannels.hpp", M + "SpinGroup/src/verifyIncidentChannels.hpp", M + "SpinGroup/src/verifyResonanceChannels.hpp", M + "CompoundSystem/src/", M + "ResonanceTable/src/", M + "ParticleChannelData/src/", M + "SpinGroup/src/makeReactionIdentifiers.hpp"],
     "verify functions in constructors", "compound")
prop("P15", "R-matrix cross sections follow Reich-Moore theory and conserve flux",
     "For every compound system and energy the cross sections of all reactions are those of the Reich-Moore approximation of R-matrix theory with the channels' own penetrabilities, phases, boundary conditions and statistical factor, summed over spin groups and entrance channels. Capture is what the other reactions leave over, never negative and zero where no resonance has an eliminated width.",
     ["inputs"], "for all systems of up to 3 spin groups, 4 channels and 4 resonances each, neutral and charged, with both boundary options",
     "Signs of interference between channels and resonances only show in multi-channel, multi-level systems away from the peaks.",
     [M + "SpinGroup/src/evaluate.hpp", M + "RLMatrixCalculator.hpp", M + "LMatrixCalculator.hpp", M + "ResonanceTable.hpp", M + "Resonance.hpp", M + "CompoundSystem.hpp", M + "SpinGroup/src/omegas.hpp"],
     "channel matrix inversion; the specification inverts the level matrix instead, in 192-bit arithmetic with a bound on rounding",
     "compound", "Ill-conditioned inversions (above 1e7) and energies within 1e-4 of a threshold are not compared.")
prop("P16", "Channels below their threshold neither receive nor lend flux",
     "At energies below the threshold of a channel its cross section is zero and the other cross sections are those of the system in which the resonances do not couple to it; at the threshold it opens, in every spin group and in any order of channels.",
     ["inputs"], "for all systems with threshold channels and energies around the thresholds",
     "Few tests have threshold reactions, at two or three energies.",
     [M + "RLMatrixCalculator.hpp", M + "Resonance/src/rmatrix.hpp", M + "Channel/src/belowThreshold.hpp", M + "SpinGroup/src/evaluate.hpp"],
     "rows and columns of the R matrix are set to zero", "compound")
prop("P17", "The T matrix is complete, symmetric in theory and keyed by both channels",
     "For every compound system and energy the T matrix has one element for each ordered pair of channels of each spin group, under the names of both channels, equal to sqrt(P) (1 - R L)^-1 R sqrt(P); a later evaluation replaces the elements it computes and leaves all others alone.",
     ["inputs", "histories"], "for all systems, energies and orders of evaluation",
     "Tests evaluate one spin group at a time and do not mix systems in a map.",
     [M + "SpinGroup/src/evaluateTMatrix.hpp", M + "CompoundSystem.hpp", M + "RLMatrixCalculator.hpp"],
     "matrix elements in a map", "compound")
prop("P18", "Evaluations only add to the result and do not depend on history",
     "Evaluating a system adds its cross sections at that energy to whatever the result map holds, and nothing else in the map changes. The answer is the same whatever energies, spin groups, copies, grids or other systems were asked for in between, so a return to an earlier energy gives the earlier answer.",
     ["histories"], "for all sequences of builds, evaluations, copies, inspections and clears",
     "The matrix workspace of a spin group is reused between calls; tests start from fresh objects and ascending energies.",
     [M + "SpinGroup/src/evaluate.hpp", M + "RLMatrixCalculator.hpp", M + "LMatrixCalculator.hpp", M + "CompoundSystem.hpp"],
     "workspace matrices are members", "compound")
prop("P19", "The resolved energy grid has every positive resonance and its half widths",
     "The grid of a spin group or compound system consists of the energy of every resonance above zero and that energy minus and plus half the total width (all channels at that energy, and the eliminated channel), in increasing order and without repetition, and of nothing else.",
     ["inputs"], "for all systems, including bound levels and several groups",
     "Tests have one or two resonances per group.",
     [M + "SpinGroup/src/grid.hpp", M + "CompoundSystem.hpp"], "grid()", "compound",
     "Grids in which two points are closer than 1e-9 relative are not compared.")
prop("P20", "A system assembled from channel data has all resonances and widths in place",
     "From a list of channels with their own resonance energies and widths, given in any order, the assembly makes one spin group for each spin and parity in increasing order, each with its channels in the given order and every energy of any of its channels once in increasing order, with the widths in the right places, zero where a channel has none, and the eliminated width from the eliminated channel.",
     ["inputs"], "for all orders and subsets of channels and energies",
     "Misplaced widths need channels with different energy lists, which tests do not combine.",
     [M + "CompoundSystem/src/", M + "SpinGroup/src/makeResonanceTable.hpp", M + "SpinGroup/src/makeChannels.hpp", M + "ParticleChannelData.hpp"],
     "sorting and merging in constructors", "compound")
prop("P21", "Single-level Breit-Wigner cross sections follow the formula level by level",
     "For every set of legacy resonances and every energy, the single-level elastic, capture and fission cross sections of a spin group are the sums over its resonances of the Breit-Wigner terms, with the neutron and competitive widths scaled by their penetrabilities, the resonance energy moved by the shift factor, and the total width made of all four widths. Fission is reported exactly when a resonance has a fission width.",
     ["inputs"], "for all spin groups of up to 5 resonances with any widths, l <= 4, radii and energies",
     "The tests evaluate one resonance of an s-wave, where the shift is zero and competition absent.",
     [L + "resolved/SpinGroup/SingleLevelBreitWigner/src/evaluate.hpp", L + "resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp", L + "resolved/Resonance.hpp", L + "resolved/Resonance/src/ctor.hpp", L + "Data.hpp"],
     "sums of real terms; the specification takes differences of squared moduli of complex collision functions", "legacy",
     "The competitive penetrability is taken at E - QX, as the class documents.")
prop("P22", "Multi-level Breit-Wigner elastic scattering has all interference terms",
     "For every set of legacy resonances and every energy, the multi-level elastic cross section of a spin group is that of the collision function with all its resonances, so every pair of resonances interferes exactly once with the right sign, while capture and fission are those of the single-level formula.",
     ["inputs"], "for all spin groups of up to 5 resonances with any widths, l <= 4, radii and energies",
     "With one or two resonances per spin group, as in tests, most pairs never occur.",
     [L + "resolved/SpinGroup/MultiLevelBreitWigner/src/evaluate.hpp", L + "resolved/SpinGroup/SingleLevelBreitWigner/src/precompute.hpp"],
     "double loop over resonances; the specification squares the sum of amplitudes", "legacy")
prop("P23", "A legacy system adds potential scattering once and keeps no history",
     "Evaluating a legacy system, resolved or unresolved, adds to the result map the contributions of its spin groups and, once, the hard-sphere scattering of all waves up to its largest orbital momentum with the first group's phase shift radius. Nothing else in the map changes, and the answer does not depend on earlier energies, copies, grids or other systems.",
     ["inputs", "histories"], "for all systems of up to 4 spin groups in any order of l and J, and all sequences of calls",
     "Tests have systems with one or two waves in ascending order, evaluated at ascending energies into fresh maps.",
     [L + "CompoundSystemBase/src/evaluate.hpp", L + "CompoundSystemBase/src/getLMax.hpp", L + "SpinGroupBase.hpp", L + "resolved/CompoundSystem.hpp", L + "unresolved/CompoundSystem.hpp"],
     "accumulation over groups and waves", "legacy")
prop("P24", "The legacy resolved grid has every positive resonance and its half widths",
     "The energy grid of a legacy resolved system or spin group consists of the energy of every resonance above zero and that energy minus and plus half the total width (elastic, capture, fission and competition), in increasing order and without repetition, and of nothing else.",
     ["inputs"], "for all systems, including bound levels and several groups", "Tests have one or two resonances per group.",
     [L + "resolved/SpinGroup/SingleLevelBreitWigner/src/grid.hpp", L + "resolved/CompoundSystem/src/grid.hpp"], "grid()", "legacy",
     "Grids in which two points are closer than 1e-9 relative are not compared.")
prop("P25", "Legacy systems are refused when inconsistent and otherwise keep their data",
     "A legacy system is built exactly when it has at least one spin group, no two groups share both orbital and total angular momentum, and every unresolved table has at least two energies and no more than four degrees of freedom for each width. What is built answers with the resonance data it was given, with widths and energies rescaled to any penetrability and shift factor; a refusal leaves earlier systems intact.",
     ["inputs", "histories"], "for all systems with one fault anywhere, and all without",
     "Tests try each fault once, with two groups.",
     [L + "CompoundSystemBase/src/verifySpinGroups.hpp", L + "unresolved/ResonanceTable/src/verifyTable.hpp", L + "resolved/Resonance.hpp", L + "ResonanceTableBase.hpp", L + "SpinGroupBase.hpp"],
     "verify functions in constructors and accessors", "legacy")
prop("P26", "Unresolved cross sections are the width-fluctuation averages",
     "For every table of unresolved parameters and every energy in it, the elastic, capture and fission cross sections of a spin group are 2 pi^2/k^2 g/D times the averaged products of widths, with the neutron width from the reduced width, the square root of the energy, the penetrability and its degrees of freedom, and the elastic one reduced by the interference with potential scattering. Fission is reported exactly where its average width is not zero.",
     ["inputs"], "for all tables, degrees of freedom, l <= 3, radii and energies",
     "Tests evaluate one nuclide at three energies; each degree of freedom and width combination takes a different branch.",
     [L + "unresolved/SpinGroup/src/evaluate.hpp", L + "unresolved/src/calculateFluctuationIntegrals.hpp", L + "unresolved/ResonanceTable/src/call.hpp"],
     "formulas; the specification has its own quadrature and interpolation in 192-bit arithmetic", "unresolved",
     "A fission or competitive width with zero degrees of freedom is outside what is compared.")
prop("P27", "Fluctuation integrals and tabulated parameters are right for every branch",
     "The four fluctuation integrals equal the tensor quadrature of the width ratios with the published ten-point weights for each number of degrees of freedom, whichever of the fission and competitive widths are zero. Unresolved parameters between two energies of the table lie on the straight line between them, each with its own column, and equal the table at its energies.",
     ["inputs"], "for all widths, degrees of freedom, tables and energies",
     "Eighty quadrature constants in four branches; tests touch the columns of one data file.",
     [L + "unresolved/src/calculateFluctuationIntegrals.hpp", L + "unresolved/ResonanceTable/src/call.hpp", L + "unresolved/ResonanceTable/src/make.hpp", L + "unresolved/ResonanceTable/src/ctor.hpp"],
     "quadrature loops and interpolation tables", "unresolved")
prop("P28", "The unresolved grid keeps all table energies and leaves no wide gaps",
     "The grid of an unresolved system contains every energy of every spin group's table once, in increasing order; wherever two neighbours are more than 25 % apart, the points of the 13-per-decade scheme between them are added until no such gap is left, and nothing else.",
     ["inputs"], "for all sets of tables with energies from 1 eV to 1 MeV, including energies on the scheme and gaps over several decades",
     "Off-by-one errors at the ends of decades or at exactly 25 % need particular energies.",
     [L + "unresolved/CompoundSystem/src/grid.hpp"], "insertion while iterating; the specification states which points are added", "unresolved",
     "Energies within 1e-12 of a limit, where rounding decides, are not compared unless they are exactly on it.")
# ENDF resonance ranges
E = R + "rmatrix/src/"
prop("P29", "A reconstructor answers exactly inside its energy range",
     "A reconstructor made from a resonance range reports the limits of that range and whether it is resolved or unresolved; at any energy from the lower to the upper limit, both included, it gives the cross sections of its resonance parameters, and outside it gives none. Its grid is the grid of its resonance parameters without the energies outside of the range.",
     ["inputs"], "for all kinds of ranges, limits and energies, including exactly at the limits and one part in a million beyond",
     "Tests evaluate a handful of energies well inside one range each; limits and neighbours of limits are not sampled.",
     [R + "rmatrix/Reconstructor.hpp", E + "fromENDF.hpp"], "range test in front of the evaluation, filter behind the grid", "endf",
     "Resolved (all four formalisms) and unresolved ranges.")
prop("P30", "Channel radii follow the options of the resonance range",
     "The radius used for penetrability and shift factor and the radius used for the hard-sphere phase are the constant radius of the file, the radius from the target mass, or the energy-dependent table, exactly as the two radius options of the range prescribe; tables are interpolated with the law of each of their regions, and an l-dependent radius replaces the constant one. Option values without a meaning are refused.",
     ["inputs"], "for all combinations of options, radii, tables with several regions and interpolation laws, and energies",
     "The options combine with formalism, table regions and laws; each test file has one combination.",
     [E + "makeChannelRadii.hpp", E + "makeChannelRadiusTable.hpp", R + "rmatrix/ChannelRadii.hpp"],
     "a switch over two options repeated for each formalism", "endf",
     "Energies outside of a table are not asked for; what happens there is up to the interpolation library.")
prop("P31", "Breit-Wigner ranges give the cross sections their parameters define",
     "From a single- or multi-level Breit-Wigner range, every resonance ends up in the spin group of its l and J with the widths of the file, penetrability and shift factor at its energy and the competitive width that is left of the total width, and the cross sections are those of the ENDF formulas including potential scattering of every l. Competitive widths count only where the file says so, and then follow the penetrability of the competing channel.",
     ["inputs"], "for all spins, l values in any order, signs of J, resonances above and below zero, options and energies",
     "Needs combinations of several l and J, unused l values, bound levels and competitive widths that single-nuclide test files lack.",
     [E + "makeLegacyBreitWignerSpinGroups.hpp", E + "makeLegacyBreitWignerCompoundSystem.hpp", E + "makeQuantumNumbers.hpp"],
     "conversion of l values into spin groups", "endf",
     "Competitive widths only for resonances above the threshold of the competing channel. Known finding: energy of the competing channel.")
prop("P32", "Reich-Moore ranges give the cross sections their parameters define",
     "From a Reich-Moore range, every resonance ends up in the spin group of its l, J and channel spin, with signed reduced widths for elastic scattering and up to two fission channels and with capture eliminated; every l below the convergence limit and every channel spin contributes potential scattering with the radius of its l, resonances or not. The cross sections are those of R-matrix theory for these groups.",
     ["inputs"], "for all spins, signs of J, radii per l, numbers of fission channels, signs of widths, numbers of l values and energies",
     "Files for tests have one or two spin groups; channel spins, silent channels and signs only matter in combination.",
     [E + "makeReichMooreChannelData.hpp", E + "makeReichMooreCompoundSystem.hpp", E + "makeQuantumNumbers.hpp", E + "makeParticleChannelData.hpp"],
     "conversion of l values into channel data, merged by J and parity", "endf",
     "Known finding: fission widths for both channel spins of an l and J. Cross sections as in P15.")
prop("P33", "R-matrix limited ranges give the cross sections their parameters define",
     "From an R-matrix limited range, every channel gets the particles, masses, charges, spins, parities, Q value, radii and boundary condition of its particle pair and channel entry whatever the order of the pairs, amplitudes or widths are converted according to the flag, the capture channel is eliminated, channels without any width are left out unless they scatter elastically, and the shift factor counts as the elastic pair prescribes. The cross sections are those of R-matrix theory for these groups.",
     ["inputs"], "for all sets and orders of particle pairs, spin groups, channels, widths and amplitudes, and energies",
     "Pairs are looked up by number and reaction in several places; test files list them in one order.",
     [E + "makeParticlePairs.hpp", E + "makeParticleChannels.hpp", E + "makeParticleChannelData.hpp", E + "makeCompoundSystem.hpp", E + "fromENDF.hpp"],
     "pairs and channels looked up by position and reaction number", "endf",
     "One shift factor flag for all pairs with mass; reactions 2, 18, 51, 102, 103 and 107; charged particles with amplitudes.")
prop("P34", "Unresolved ranges give the averages their parameters define",
     "From each of the three kinds of unresolved ranges, every l and J becomes a spin group with the file's spacing, widths and degrees of freedom at the file's energies (at the limits of the range where nothing depends on the energy), and the cross sections are the averages of these, with potential scattering.",
     ["inputs"], "for all three kinds, l and J values, degrees of freedom, energy tables and energies",
     "Each kind takes its own path through the conversion, and a test file exercises one J pattern.",
     [E + "makeLegacyUnresolvedResonanceTable.hpp", E + "makeLegacyUnresolvedSpinGroups.hpp", E + "makeLegacyUnresolvedCompoundSystem.hpp"],
     "three overloads that build resonance tables", "endf", "Tables cover the range. Averages as in P26.")
prop("P35", "Ranges that cannot be reconstructed are refused and change nothing",
     "Ranges of a kind the library does not reconstruct, ranges whose kind and contents disagree, spins that do not couple or are claimed twice, l values beyond the limit, spin groups without elastic channel and tables that are too short are refused with an exception; consistent ranges are accepted. A refusal leaves reconstructors made before untouched.",
     ["inputs", "histories"], "for all damaged variants of all kinds of ranges",
     "The tests build consistent ranges only.",
     [E + "fromENDF.hpp", E + "makeQuantumNumbers.hpp", R + "rmatrix/CompoundSystem.hpp"], "checks spread over the conversion and the constructors", "endf", "")
# evaluators straight from a range
B = R + "breitWigner/"
prop("P36", "Direct Breit-Wigner evaluators give the ENDF formulas for every range",
     "Handed a Breit-Wigner range, the single-level and the multi-level evaluator give at every energy the elastic, capture and fission cross sections of the ENDF formulas: resonances interfere with those of the same l and J and with potential scattering, penetrability, shift factor and phase come from the radii the range prescribes, and competitive widths follow the penetrability of the competing channel. Cross sections add and subtract reaction by reaction.",
     ["inputs"], "for all spins, l values up to 4, J values in any order, resonances above and below zero, radius options, tables and energies",
     "Tables of formulas per l and bookkeeping of levels per J; the tests compare one nuclide per formalism.",
     [B + "singleLevel/", B + "multiLevel/", B + "resonance/", B + "lvalue/", B + "CrossSection.hpp"],
     "formulas and loops over resonances, separately for each l", "old",
     "The mass of the neutron is that of these evaluators. Competitive widths only for resonances above the threshold of the competing channel.")
prop("P37", "The direct Reich-Moore evaluator gives R-matrix theory for every range",
     "Handed a Reich-Moore range, the direct evaluator gives at every energy the elastic, capture and fission cross sections of R-matrix theory with capture eliminated: every l and J with one elastic and up to two fission channels, signed fission amplitudes, the radii of their l where the options prescribe those, and potential scattering also for the J values of an l without resonances.",
     ["inputs"], "for all spins, l values up to 4, signs of J and of fission widths, radii per l, options, tables and energies",
     "The inverse is written out by case; interference of two fission channels and l-dependent radii need data that test files lack.",
     [R + "reichMoore/"], "3x3 matrices inverted by hand, radii chosen by tags", "old",
     "Neutron widths that are not negative and at most one resonance per J and energy; bound levels only with constant radii.")
prop("P38", "Direct evaluators refuse what they cannot evaluate and keep nothing of it",
     "A direct evaluator refuses, with an exception, a range of another formalism, radius options without a meaning, interpolation laws without a meaning and l values beyond its formulas; any other range of its formalism is passed on exactly once. A refused range leaves an evaluator made before untouched.",
     ["inputs", "histories"], "for all three evaluators, all formalisms and all damaged variants",
     "Tests only hand over consistent ranges of the right formalism.",
     [B + "singleLevel/Apply/", B + "multiLevel/Apply/", R + "reichMoore/Apply/", R + "src/penetrationShift.hpp"],
     "switches over options and l that fall through", "old", "")
