from . import props_cosmo, props_phot, props_dust, props_met, props_sed, props_misc, props_io, props_rt  # noqa
