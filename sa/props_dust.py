from .registry import Prop, congs

D = "dsps.dust.att_curves."
BB = "dsps.dust.blackbody."
W = "dsps/dust/att_curves.py:"
FL = ["dsps/dust/att_curves.py"]

Prop("D01", "Dust transmission is floor + (1 - floor) 10^(-0.4 A), A = max(Av k/4.05, 0)",
     "For any attenuation curve k, visual attenuation Av and floor, the transmitted fraction is floor + (1 - floor) * 10^(-0.4 A) with A = max(Av k/4.05, 0); the floor defaults to 0. "
     "Every attenuation curve function returns exactly that A for its own k(lambda).",
     "every k(lambda), Av, floor",
     "tests check a few curves at a few Av",
     FL, [("_frac_transmission_from_k_lambda", W + "_frac_transmission_from_k_lambda"), ("*_att_curve", W + "noll09_k_att_curve")],
     lambda: congs(D, "_frac_transmission_from_k_lambda", "noll09_k_att_curve", "sbl18_k_att_curve", "calzetti00_att_curve", "leitherer02_att_curve"), 12)

Prop("D02", "Attenuation curves k(lambda) follow Calzetti, Leitherer, Noll and Salim",
     "The Calzetti (2000) curve switches polynomials at 0.63 micron, the Leitherer (2002) curve replaces it at and below 0.15 micron, and for every wavelength the Noll (2009) curve is "
     "max((k + Drude bump)(lambda/0.55)^slope, 0) and the Salim (2018) curve max(k (lambda/0.55)^slope + Drude bump, 0), with bump "
     "B (lambda w)^2/((lambda^2-lambda0^2)^2+(lambda w)^2), defaults lambda0 = 0.2175 and w = 0.035 micron. The triweight curve is 10^(sigmoid-slope in log10 lambda) and the bump strength is 0.85 - 1.9 delta.",
     "every wavelength array > 0 and every curve parameter",
     "tests sample default parameters on one wavelength grid",
     FL, [("k(lambda) functions", W + "sbl18_k_lambda")],
     lambda: congs(D, "calzetti00_k_lambda", "leitherer02_k_lambda", "_l02_below_c00_above", "power_law_vband_norm", "noll09_k_lambda", "sbl18_k_lambda",
                   "triweight_k_lambda", "_get_eb_from_delta"), 18)

Prop("D03", "Blackbody densities are Planck's law in Lsun units",
     "The frequency form is 2 h nu^3/c^2/(exp(h nu/kT) - 1) in W/m^2/Hz/sr and the wavelength form 2 h c^2/lambda^5/(exp(hc/(lambda k T)) - 1) in W/m^3/sr. "
     "The public forms give them in Lsun (3.828e26 W), per Hz for frequencies in Hz and per Angstrom for wavelengths in Angstrom, elementwise for every positive temperature.",
     "every frequency or wavelength array > 0 and temperature > 0",
     "tests compare a few temperatures with astropy",
     ["dsps/dust/blackbody.py"], [("blackbody_freq_density, blackbody_wave_density", "dsps/dust/blackbody.py:blackbody_freq_density")],
     lambda: congs(BB, "blackbody_freq_density", "blackbody_wave_density", "_blackbody_freq_density_si", "_blackbody_wave_density_si"), 8)
