from .registry import Prop, congs

C = "dsps.cosmology.flat_wcdm."
F = ["dsps/cosmology/flat_wcdm.py"]
W = "dsps/cosmology/flat_wcdm.py:"

Prop("C01", "Flat-wCDM distances are the trapezoid integral of c/H and its scalings",
     "For any redshift z >= 0 and cosmology (Om0, w0, wa, h) the comoving distance in Mpc is the trapezoid rule on 256 equally spaced redshifts "
     "from 0 to z of c/H(z), with H = 100 h E km/s/Mpc and E^2 = Om0 (1+z)^3 + (1-Om0) (1+z)^(3(1+w0+wa)) exp(-3 wa z/(1+z)). "
     "The luminosity distance is that times (1+z), the angular-diameter distance that divided by (1+z), the distance modulus 5 log10(D_L/Mpc) + 25, "
     "and the differential comoving volume per steradian (c/H0) D_C^2/E. The vectorised forms apply the scalar ones redshift by redshift with one shared cosmology.",
     "every redshift >= 0 and every cosmology, scalar kernels and their vectorised public forms",
     "tests compare a few redshifts of a few named cosmologies, mostly with wa = 0, against tabulated astropy values at loose tolerance",
     F, [("comoving_distance_to_z and the kernels built on it", W + "comoving_distance_to_z"), ("vmapped forms", W + "comoving_distance")],
     lambda: congs(C, "comoving_distance_to_z", "luminosity_distance_to_z", "angular_diameter_distance_to_z", "distance_modulus_to_z",
                   "hubble_distance_mpc", "differential_comoving_volume_at_z", "comoving_distance", "luminosity_distance",
                   "angular_diameter_distance", "distance_modulus", "differential_comoving_volume"), 16)

Prop("C02", "Lookback time and cosmic age obey the flat-wCDM time integral",
     "For any redshift z >= 0 and cosmology the lookback time in Gyr is the trapezoid rule on 512 equally spaced redshifts from 0 to z of 1/((1+z) H(z)); "
     "the age at z = 0 is the same integrand on 512 points equally spaced in log10(1+z) from 0 to 3, and age(z) = age(0) - lookback(z) for every element of a redshift array. "
     "The vectorised lookback time applies the scalar one redshift by redshift with one shared cosmology.",
     "every redshift >= 0 and every cosmology",
     "tests sample a few redshifts of Planck15 and WMAP5 at loose tolerance",
     F, [("lookback_to_z, age_at_z0, age_at_z", W + "lookback_to_z")],
     lambda: congs(C, "lookback_to_z", "age_at_z0", "age_at_z", "lookback_time"), 6)

Prop("C03", "Critical density and virial dynamical time follow Bryan & Norman (1998)",
     "For any redshift and cosmology the critical density is 277.536627 h^2 E(z)^2 Msun/kpc^3 and the matter fraction is Om(z) = Om0 (1+z)^3/E(z)^2. "
     "The virial overdensity is 18 pi^2 + 82 x - 39 x^2 with x = Om(z) - 1, and the virial dynamical time is 2^1.5 / (H(z) sqrt(overdensity)) in Gyr, element by element over a redshift array.",
     "every redshift and cosmology",
     "tests compare a handful of redshifts in one cosmology",
     F, [("rho_crit, virial_dynamical_time", W + "virial_dynamical_time")],
     lambda: congs(C, "rho_crit", "virial_dynamical_time", "_Om", "_delta_vir"), 6)
