"""Documented constants of the library, restated independently of the code."""

SFR_MIN = 1e-14  # Msun/yr floor of every tabulated SFH
T_BIRTH_MIN = 0.001  # Gyr, earliest birth time
T_TABLE_MIN = 0.01  # Gyr
LGMET_LO = -10.0
LGMET_HI = 10.0
N_T_LGSM = 100
YR_PER_GYR = 1e9
RV = 4.05
AB0 = 1.13492e-13  # 3631 Jy at 10 pc in Lsun/Hz
C_MS = 2.99792458e8  # m/s
MPC_CM = 3.08567758149e24
YEAR_S = 31556925.2
RHO_CRIT0 = 277.536627  # Msun h^2 / kpc^3
H_PLANCK = 6.62607015e-34
K_BOLTZ = 1.380649e-23
LSUN_W = 3.828e26
LSUN_CGS = 3.828e33
PLANCK15 = (0.3075, -1.0, 0.0, 0.6774)
WMAP5 = (0.277, -1.0, 0.0, 0.702)
FSPS_COSMO = (0.27, -1.0, 0.0, 0.72)
