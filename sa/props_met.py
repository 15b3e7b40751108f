from .registry import Prop, congs

M, UM, I = "dsps.metallicity.mzr.", "dsps.metallicity.umzr.", "dsps.imf."

Prop("M02", "Mass-metallicity model: sigmoid-slope at z=0 plus non-positive evolution",
     "At any stellar mass and cosmic time log10(Z) is log10(0.012) plus a sigmoid-slope in log10 mass, plus an evolution term equal to min(g(lookback), 0) with lookback max(12.5 - t, 0) Gyr "
     "and g a sigmoid-slope (k = 1.6) pivoted at the transition lookback time with value and late slope linear in log10 mass. "
     "The unbounded-parameter variant is the same model with pivot mass 10^10.5 and transition at 8.44 Gyr; the Maiolino (2008) relation is k0 - 12 - 0.0864 (logM - logM0)^2.",
     "every mass array, cosmic time and parameter set",
     "tests check monotonicity or finiteness for default parameters",
     ["dsps/metallicity/mzr.py", "dsps/metallicity/umzr.py"], [("mzr_model", "dsps/metallicity/mzr.py:mzr_model"), ("umzr mzr_model", "dsps/metallicity/umzr.py:mzr_model")],
     lambda: congs(M, "mzr_model_t0", "maiolino08_metallicity_evolution", "mzr_evolution_model", "mzr_model") + congs(UM, "mzr_model_t0", "mzr_evolution_model", "mzr_model"), 14)

Prop("I01", "Surviving and remnant mass fractions follow the documented fits",
     "The returned fraction is a sigmoid in log10(age/yr) from h to a sigmoid-slope z(age), the surviving fraction is one minus it, and the remnant mass is 10 to a sigmoid-slope, "
     "at every age and parameter set, with steepnesses given as log10. Omitted parameters take the Chabrier calibration.",
     "every age array and parameter set",
     "tests check bounds for the named IMFs on one age grid",
     ["dsps/imf/surviving_mstar.py", "dsps/imf/remnant_mass.py"], [("surviving_mstar", "dsps/imf/surviving_mstar.py:surviving_mstar"), ("remnant_mass", "dsps/imf/remnant_mass.py:remnant_mass")],
     lambda: congs(I, "remnant_mass.remnant_mass", "surviving_mstar.surviving_mstar", "surviving_mstar._returned_mass"), 8)
