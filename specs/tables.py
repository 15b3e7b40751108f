"""Published values of the named parameter sets (plain data)."""

# a, b, lgk1, d, e
REMNANT = {"DEFAULT": (-1.42, 7, 1, 1.3, 0.2), "SALPETER": (-1.67, 7, 1, 1.3, 0.2), "CHABRIER": (-1.42, 7, 1, 1.3, 0.2),
           "KROUPA": (-1.45, 7, 1, 1.3, 0.2), "VAN_DOKKUM": (-1.4, 7, 1, 1.3, 0.2)}
SURVIVING = {
    "DEFAULT": (0.225, 8.0, -0.5, 0.145, 0.08, 6.5, 0.7, 0.005),
    "SALPETER": (0.13, 8.0, -0.5, 0.055, 0.08, 6.5, 0.7, 0.005),
    "CHABRIER": (0.225, 8.0, -0.5, 0.145, 0.08, 6.5, 0.7, 0.005),
    "KROUPA": (0.211, 8.0, -0.5, 0.13, 0.08, 6.5, 0.7, 0.005),
    "VAN_DOKKUM": (0.238, 8.0, -0.5, 0.156, 0.08, 6.5, 0.7, 0.005),
}

# y0, x0, k, slope_lo, slope_hi, c0_y, c1_y, tlook_c, c0_slope, c1_slope
MZR_DEFAULTS = (0.05, 10.5, 1, 0.4, 0.1, -1.455, 0.13, 8.44, -0.959, 0.067242)
MAIOLINO = {0.07: (11.18, 9.04), 0.7: (11.57, 9.04), 2.2: (12.38, 8.99), 3.5: (12.76, 8.79), 3.51: (12.87, 8.90)}

# lgfburst, lgyr_peak, lgyr_max
BURST_DEFAULTS = (-3.0, 5.5, 7.0)
