"""Behaviour-preserving edits of loaders, scripts, figures and package set-up."""
REFS = []


def R(id, *edits, many=False):
    REFS.append(dict(id=id, edits=list(edits), many=many))


LS = "dsps/data_loaders/load_ssp_data.py"
LF = "dsps/data_loaders/load_filter_data.py"
LE = "dsps/data_loaders/load_emline_info.py"
RF = "dsps/data_loaders/retrieve_fsps_data.py"
FK = "dsps/data_loaders/retrieve_fake_fsps_data.py"
DF = "dsps/data_loaders/defaults.py"
SC = "scripts/write_fsps_data_to_disk.py"
IN = "dsps/__init__.py"

TRY = """            try:
                drn = os.environ["DSPS_DRN"]
            except KeyError:
                msg = (
                    "Since you did not pass the fn or drn argument\\n"
                    "then you must have the DSPS_DRN environment variable set"
                )
                raise ValueError(msg)
"""
MSG = '''                    "Since you did not pass the fn or drn argument\\n"
                    "then you must have the DSPS_DRN environment variable set"
'''
R("ls-environ-get", (LS, TRY, """            drn = os.environ.get("DSPS_DRN")
            if drn is None:
                raise ValueError(
""" + MSG + """                )
"""))
R("ls-getenv", (LS, TRY, """            drn = os.getenv("DSPS_DRN", None)
            if drn is None:
                raise ValueError(
""" + MSG + """                )
"""))
R("ls-in-environ", (LS, TRY, """            if "DSPS_DRN" not in os.environ:
                raise ValueError(
""" + MSG + """                )
            drn = os.environ["DSPS_DRN"]
"""))
R("ls-raise-from", (LS, "            except KeyError:\n", "            except KeyError as err:\n"), (LS, "                raise ValueError(msg)\n", "                raise ValueError(msg) from err\n"))
R("ls-helper", (LS, TRY, "            drn = _get_default_drn()\n"), (LS, "def load_ssp_templates(", '''def _get_default_drn():
    """Directory stored in the DSPS_DRN environment variable"""
    try:
        return os.environ["DSPS_DRN"]
    except KeyError:
        msg = (
            "Since you did not pass the fn or drn argument\\n"
            "then you must have the DSPS_DRN environment variable set"
        )
        raise ValueError(msg)


def load_ssp_templates('''))
R("ls-pathjoin", (LS, "import os\n", "import os\nfrom os import path as osp\n"), (LS, "fn = os.path.join(drn, bn)", "fn = osp.join(drn, bn)"))
R("ls-raise-missing", (LS, '    assert os.path.isfile(fn), "{0} does not exist".format(fn)\n', '    if not os.path.isfile(fn):\n        raise AssertionError(f"{fn} does not exist")\n'))
R("ls-fstring", (LS, '"{0} does not exist".format(fn)', 'f"{fn} does not exist"'))
R("ls-pathlib", (LS, "import os\n", "import os\nfrom pathlib import Path\n"), (LS, "assert os.path.isfile(fn)", "assert Path(fn).is_file()"))
R("ls-dictcomp", (LS, """    ssp_data_dict = OrderedDict()
    with h5py.File(fn, "r") as hdf:
        for key in DEFAULT_SSP_KEYS:
            ssp_data_dict[key] = hdf[key][...]
""", """    with h5py.File(fn, "r") as hdf:
        ssp_data_dict = {key: hdf[key][...] for key in DEFAULT_SSP_KEYS}
"""))
R("ls-slice-read", (LS, "ssp_data_dict[key] = hdf[key][...]", "ssp_data_dict[key] = hdf[key][:]"))
R("ls-empty-read", (LS, "ssp_data_dict[key] = hdf[key][...]", "ssp_data_dict[key] = hdf[key][()]"))
R("ls-in-hdf", (LS, 'if "ssp_emline_name" in hdf.keys():', 'if "ssp_emline_name" in hdf:'))
R("ls-return-once", (LS, """            return SSPData(**ssp_data_dict)
        else:
            # If no lines are in the SSP data, these fields will exist and store None
            return SSPData(**ssp_data_dict)
""", """    # If no lines are in the SSP data, these fields will exist and store None
    return SSPData(**ssp_data_dict)
"""))
R("ls-kwfile", (LS, 'h5py.File(fn, "r")', 'h5py.File(fn, mode="r")'))
R("ls-tolist", (LS, "[float(wave) for wave in hdf[\"ssp_emline_wave\"][...]]", "list(map(float, hdf[\"ssp_emline_wave\"][...]))"))
R("ls-str", (LS, """            ssp_emline_name = [
                name.decode("utf-8") for name in hdf["ssp_emline_name"][...]
            ]
""", """            ssp_emline_name = []
            for raw_name in hdf["ssp_emline_name"][...]:
                ssp_emline_name.append(raw_name.decode("utf-8"))
"""))
R("ls-decode-default", (LS, 'name.decode("utf-8")', "name.decode()"))
R("ls-positional", (LS, """            EmLineWave = namedtuple("EmLineWave", ssp_emline_name)
            ssp_data_dict["ssp_emline_wave"] = EmLineWave(*ssp_emline_wave)
            ssp_data_dict["ssp_emline_luminosity"] = ssp_emline_luminosity

            return SSPData(**ssp_data_dict)
""", """            EmLineWave = namedtuple("EmLineWave", ssp_emline_name)
            return SSPData(
                *ssp_data_dict.values(),
                EmLineWave(*ssp_emline_wave),
                ssp_emline_luminosity,
            )
"""))
R("ls-make", (LS, "EmLineWave(*ssp_emline_wave)", "EmLineWave._make(ssp_emline_wave)"))
R("ls-update", (LS, """            ssp_data_dict["ssp_emline_wave"] = EmLineWave(*ssp_emline_wave)
            ssp_data_dict["ssp_emline_luminosity"] = ssp_emline_luminosity
""", """            ssp_data_dict.update(
                ssp_emline_wave=EmLineWave(*ssp_emline_wave),
                ssp_emline_luminosity=ssp_emline_luminosity,
            )
"""))
R("ls-scale-inplace", (LS, """            ssp_emline_luminosity = hdf["ssp_emline_luminosity"][...] * L_SUN_CGS
""", """            ssp_emline_luminosity = hdf["ssp_emline_luminosity"][...]
            ssp_emline_luminosity = L_SUN_CGS * ssp_emline_luminosity
"""))
R("ls-not-dummy", (LS, """    if dummy:
        return load_fake_ssp_data()

    if fn is None:
""", """    if dummy is True or dummy:
        return load_fake_ssp_data()
    elif fn is None:
"""))
# ---- filters
FTRY = """            try:
                drn = os.environ["DSPS_DRN"]
                drn = os.path.join(drn, "filters")
                assert os.path.isdir(drn), "Directory does not exist:\\n{0}".format(drn)
            except KeyError:
                msg = (
                    "Since you did not pass the fn or drn argument\\n"
                    "then you must have the DSPS_DRN environment variable set"
                )
                raise ValueError(msg)
"""
R("lf-environ-get", (LF, FTRY, """            root_drn = os.environ.get("DSPS_DRN")
            if root_drn is None:
                msg = (
""" + MSG + """                )
                raise ValueError(msg)
            drn = os.path.join(root_drn, "filters")
            assert os.path.isdir(drn), f"Directory does not exist:\\n{drn}"
"""))
R("lf-try-else", (LF, FTRY, """            try:
                drn = os.environ["DSPS_DRN"]
            except KeyError:
                msg = (
""" + MSG + """                )
                raise ValueError(msg)
            else:
                drn = os.path.join(drn, "filters")
            assert os.path.isdir(drn), "Directory does not exist:\\n{0}".format(drn)
"""))
R("lf-one-assert", (LF, """        assert len(fn_list) < 2, msg.format(bn_pat, drn)
""", """        assert not len(fn_list) > 1, msg.format(bn_pat, drn)
"""))
R("lf-raise", (LF, """        assert len(fn_list) != 0, msg.format(bn_pat, drn)
""", """        if not fn_list:
            raise AssertionError(msg.format(bn_pat, drn))
"""))
R("lf-unpack", (LF, "        fn = fn_list[0]\n", "        (fn,) = fn_list\n"))
R("lf-any", (LF, "if transmission.min() < -TOL:", "if np.any(transmission < -TOL):"), (LF, "elif transmission.max() > 1 + TOL:", "if np.any(transmission > 1 + TOL):"),
  (LF, "        else:\n            transmission = np.clip(transmission, 0.0, 1.0)\n", "        transmission = np.clip(transmission, 0.0, 1.0)\n"))
R("lf-npmin", (LF, "transmission.min() < -TOL", "np.min(transmission) < -TOL"), (LF, "transmission.max() > 1 + TOL", "np.max(transmission) - 1 > TOL"))
R("lf-minmax", (LF, "np.clip(transmission, 0.0, 1.0)", "np.minimum(np.maximum(transmission, 0.0), 1.0)"))
R("lf-clipmethod", (LF, "np.clip(transmission, 0.0, 1.0)", "transmission.clip(0.0, 1.0)"))
R("lf-dedent", (LF, """    with h5py.File(fn, "r") as hdf:
        wave = hdf["wave"][...]
        transmission = hdf["transmission"][...]

        if transmission.min() < -TOL:
            raise ValueError(f"Negatively-valued transmission curve for {fn}")
        elif transmission.max() > 1 + TOL:
            raise ValueError(f"transmission curve exceeds unity for {fn}")
        else:
            transmission = np.clip(transmission, 0.0, 1.0)
""", """    with h5py.File(fn, "r") as hdf:
        wave = hdf["wave"][...]
        transmission = hdf["transmission"][...]

    if transmission.min() < -TOL:
        raise ValueError(f"Negatively-valued transmission curve for {fn}")
    if transmission.max() > 1 + TOL:
        raise ValueError(f"transmission curve exceeds unity for {fn}")
    transmission = np.clip(transmission, 0.0, 1.0)
"""))
R("lf-order", (LF, """        if transmission.min() < -TOL:
            raise ValueError(f"Negatively-valued transmission curve for {fn}")
        elif transmission.max() > 1 + TOL:
            raise ValueError(f"transmission curve exceeds unity for {fn}")
""", """        if transmission.max() > 1 + TOL:
            raise ValueError(f"transmission curve exceeds unity for {fn}")
        elif transmission.min() < -TOL:
            raise ValueError(f"Negatively-valued transmission curve for {fn}")
"""))
R("lf-asarray", (LF, 'wave = hdf["wave"][...]', 'wave = np.array(hdf["wave"])'))
R("lf-kwnt", (LF, "return TransmissionCurve(wave, transmission)", "return TransmissionCurve(wave=wave, transmission=transmission)"))
R("lf-ran-unpack", (LF, """        xmin = wave_range[0] + scale * 2
        xmax = wave_range[1] - scale * 2
""", """        wave_lo, wave_hi = wave_range
        xmin, xmax = wave_lo + 2 * scale, wave_hi - 2 * scale
"""))
R("lf-ran-linspace", (LF, "np.linspace(*wave_range, 200)", "np.linspace(wave_range[0], wave_range[1], num=200)"))
R("lf-ran-gauss", (LF, """    _transmission = norm.pdf(wave, loc=tcurve_center, scale=scale)
    transmission = _transmission / _transmission.max()
    tcurve = TransmissionCurve(wave, transmission)

    return tcurve
""", """    pdf = norm.pdf(wave, tcurve_center, scale)
    return TransmissionCurve(wave, pdf / np.max(pdf))
"""))
R("lf-ran-uniform", (LF, "jran.uniform(ran_key, minval=xmin, maxval=xmax)", "jran.uniform(ran_key, (), minval=xmin, maxval=xmax)"))
R("lf-ran-scaled", (LF, "tcurve_center = jran.uniform(ran_key, minval=xmin, maxval=xmax)", "tcurve_center = xmin + (xmax - xmin) * jran.uniform(ran_key)"))
R("lf-glob", (LF, "from glob import glob\n", "import glob\n"), (LF, "fn_list = glob(fn_pat)", "fn_list = glob.glob(fn_pat)"))
R("lf-prngkey", (LF, "jran.key(seed)", "jran.PRNGKey(seed)"))
# ---- emission lines
R("le-split2", (LE, """            line = raw_line.strip()
            _line_wave, _a = line.split(",")
            line_wave = float(_line_wave)
            _b = _a.replace""", """            fields = raw_line.strip().split(",")
            line_wave = float(fields[0])
            _b = fields[1].replace"""))
R("le-chain", (LE, """            _b = _a.replace("-", "_").replace(" ", "_").replace(".", "p")
            line_name = _b.replace("[", "").replace("]", "")
""", """            line_name = _a
            for old, new in (("-", "_"), (" ", "_"), (".", "p"), ("[", ""), ("]", "")):
                line_name = line_name.replace(old, new)
"""))
R("le-helper", (LE, """            _b = _a.replace("-", "_").replace(" ", "_").replace(".", "p")
            line_name = _b.replace("[", "").replace("]", "")
""", """            line_name = _sanitize_name(_a)
"""), (LE, "def read_emlines_info_fsps(", """def _sanitize_name(name):
    name = name.replace("[", "").replace("]", "")
    return name.replace(".", "p").replace(" ", "_").replace("-", "_")


def read_emlines_info_fsps("""))
R("le-readlines", (LE, "        for raw_line in f:\n", "        for raw_line in f.readlines():\n"))
R("le-dictlit", (LE, "emline_dict = dict()", "emline_dict = {}"))
R("le-early", (LE, """    if testmode:
        line_wave_arr = np.array(line_wave_collector)
        return emline_dict, line_wave_arr
    else:
        return emline_dict
""", """    if not testmode:
        return emline_dict
    return emline_dict, np.array(line_wave_collector)
"""))
R("le-sub-loop", (LE, """    indx_lines = np.array(
        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]
    )
""", """    all_names = ssp_data.ssp_emline_wave._fields
    indx_lines = []
    for name in emline_names:
        indx_lines.append(all_names.index(name))
    indx_lines = np.array(indx_lines)
"""))
R("le-sub-getattr", (LE, """    line_wave = np.array(ssp_data.ssp_emline_wave)[indx_lines]
""", """    line_wave = [getattr(ssp_data.ssp_emline_wave, name) for name in emline_names]
"""))
R("le-sub-take", (LE, "ssp_data.ssp_emline_luminosity[:, :, indx_lines]", "np.take(ssp_data.ssp_emline_luminosity, indx_lines, axis=2)"))
R("le-sub-ellipsis", (LE, "ssp_data.ssp_emline_luminosity[:, :, indx_lines]", "ssp_data.ssp_emline_luminosity[..., indx_lines]"))
R("le-sub-return", (LE, """    ssp_data = ssp_data._replace(
        ssp_emline_wave=line_wave, ssp_emline_luminosity=line_lum
    )

    return ssp_data
""", """    return ssp_data._replace(
        ssp_emline_luminosity=line_lum, ssp_emline_wave=line_wave
    )
"""))
R("le-sub-list", (LE, """    indx_lines = np.array(
        [ssp_data.ssp_emline_wave._fields.index(name) for name in emline_names]
    )
""", """    fields = list(ssp_data.ssp_emline_wave._fields)
    indx_lines = np.array([fields.index(name) for name in emline_names], dtype=int)
"""))
# ---- fsps
R("rf-lines-once", (RF, """        lines = f.readlines()
        lines = [line.strip() for line in lines]
""", """        lines = [line.strip() for line in f]
"""))
R("rf-float", (RF, """        ref_emline_wave = np.array(
            [line.split(",")[0] for line in lines], dtype="float64"
        )
""", """        ref_emline_wave = np.array([float(line.split(",")[0]) for line in lines])
"""))
R("rf-zip", (RF, """        ref_emline_wave = np.array(
            [line.split(",")[0] for line in lines], dtype="float64"
        )
        ref_emline_name = np.array([line.split(",")[1] for line in lines])
""", """        fields = [line.split(",") for line in lines]
        ref_emline_wave = np.array([float(x[0]) for x in fields])
        ref_emline_name = np.array([x[1] for x in fields])
"""))
R("rf-abs", (RF, "    isclose = np.isclose(ref_emline_wave, find_emline_wave, atol=0, rtol=1e-6)\n", "    isclose = np.abs(ref_emline_wave - find_emline_wave) <= 1e-6 * np.abs(find_emline_wave)\n"))
R("rf-npsum", (RF, "if isclose.sum() == 1:", "if np.sum(isclose) == 1:"))
R("rf-count", (RF, "if isclose.sum() == 1:", "if np.count_nonzero(isclose) == 1:"))
R("rf-early", (RF, """    if isclose.sum() == 1:
        return ref_emline_name[isclose].item()
    else:
        return ""
""", """    if isclose.sum() != 1:
        return ""
    return ref_emline_name[isclose].item()
"""))
R("rf-idx0", (RF, "ref_emline_name[isclose].item()", "str(ref_emline_name[isclose][0])"))
R("rf-names-loop", (RF, """    emline_name = [
        name.replace(".", "p")
        .replace("-", "_")
        .replace(" ", "_")
        .replace("[", "")
        .replace("]", "")
        for name in emline_name
    ]
""", """    clean_names = []
    for name in emline_name:
        name = name.replace("[", "").replace("]", "")
        name = name.replace(".", "p").replace("-", "_").replace(" ", "_")
        clean_names.append(name)
    emline_name = clean_names
"""))
R("rf-listtuple", (RF, """    emline_wave = [float(wave) for wave in emline_wave]
    emline_wave_namedtuple = EmLineWave(*emline_wave)
    return emline_wave_namedtuple
""", """    return EmLineWave(*(float(wave) for wave in emline_wave))
"""))
R("rf-hasattr", (RF, 'if hasattr(sp, "emline_luminosity") is True:', 'if hasattr(sp, "emline_luminosity"):'), many=True)
R("rf-enumerate", (RF, "for zmet_indx in range(1, ssp_lgmet.size + 1):", "for zmet_indx, _lgmet in enumerate(ssp_lgmet, start=1):"))
R("rf-nzmet", (RF, "range(1, ssp_lgmet.size + 1)", "range(1, nzmet + 1)"))
R("rf-zero-based", (RF, "    for zmet_indx in range(1, ssp_lgmet.size + 1):\n", "    for i in range(nzmet):\n        zmet_indx = i + 1\n"))
R("rf-noprint", (RF, '        print("...retrieving zmet = {0} of {1}".format(zmet_indx, nzmet))\n', '        print(f"...retrieving zmet = {zmet_indx} of {nzmet}")\n'))
R("rf-kwnt", (RF, """        return SSPData(
            ssp_lgmet,
            ssp_lg_age_gyr,
            ssp_wave,
            ssp_flux,
            ssp_emline_wave,
            ssp_emline_luminosity,
        )
    else:
        return SSPData(ssp_lgmet, ssp_lg_age_gyr, ssp_wave, ssp_flux)
""", """    else:
        ssp_emline_wave = None
        ssp_emline_luminosity = None

    return SSPData(
        ssp_lgmet=ssp_lgmet,
        ssp_lg_age_gyr=ssp_lg_age_gyr,
        ssp_wave=ssp_wave,
        ssp_flux=ssp_flux,
        ssp_emline_wave=ssp_emline_wave,
        ssp_emline_luminosity=ssp_emline_luminosity,
    )
"""))
R("rf-always-list", (RF, """    if hasattr(sp, "emline_luminosity") is True:
        emline_luminosity_collector = []
    for""", """    emline_luminosity_collector = []
    for"""))
R("rf-dictkw", (RF, """        sp = fsps.StellarPopulation(
            zcontinuous=0,
            zmet=zmet_indx,
            add_neb_emission=add_neb_emission,
            **kwargs,
        )
""", """        sp_kwargs = dict(zcontinuous=0, zmet=zmet_indx, add_neb_emission=add_neb_emission)
        sp = fsps.StellarPopulation(**sp_kwargs, **kwargs)
"""))
R("rf-stack", (RF, "ssp_flux = np.array(spectrum_collector)", "ssp_flux = np.stack(spectrum_collector)"))
R("rf-log10", (RF, "ssp_lgmet = np.log10(sp.zlegend)", "ssp_lgmet = np.log10(np.asarray(sp.zlegend))"))
# ---- fake data
R("fk-vec-spec", (FK, """    n_met, n_age = ssp_plaw_data_c0.shape
    spec_ssp = np.zeros((n_met, n_age, n_wave_ssp))
    for iz in range(n_met):
        for iage in range(n_age):
            c0 = ssp_plaw_data_c0[iz, iage]
            c1 = ssp_plaw_data_c1[iz, iage]
            spec_ssp[iz, iage, :] = 10 ** (c0 + c1 * np.log10(ssp_wave))
    return spec_ssp
""", """    c0 = ssp_plaw_data_c0[:, :, np.newaxis]
    c1 = ssp_plaw_data_c1[:, :, np.newaxis]
    spec_ssp = 10 ** (c0 + c1 * np.log10(ssp_wave))
    return spec_ssp
"""))
R("fk-arange", (FK, """    log_age_gyr = np.arange(-3.5, 1.2, 0.05)
    return log_age_gyr
""", """    return np.arange(-3.5, 1.2, 0.05)
"""))
R("fk-curves", (FK, """    u = _lsst_u_trans(lgwave)
    g = _lsst_g_trans(lgwave)
    r = _lsst_r_trans(lgwave)
    i = _lsst_i_trans(lgwave)
    z = _lsst_z_trans(lgwave)
    y = _lsst_y_trans(lgwave)
    return wave, u, g, r, i, z, y
""", """    funcs = (
        _lsst_u_trans,
        _lsst_g_trans,
        _lsst_r_trans,
        _lsst_i_trans,
        _lsst_z_trans,
        _lsst_y_trans,
    )
    return (wave, *[func(lgwave) for func in funcs])
"""))
R("fk-nline-none", (FK, """    if n_line == 0:
        ssp_emline_wave = None
        ssp_emline_luminosity = None
    else:
        ssp_emline_wave = _get_emline_wave_namedtuple(n_line)
        ssp_emline_luminosity = _get_ssp_emline_luminosity(n_line)
""", """    ssp_emline_wave, ssp_emline_luminosity = None, None
    if n_line != 0:
        ssp_emline_wave = _get_emline_wave_namedtuple(n_line)
        ssp_emline_luminosity = _get_ssp_emline_luminosity(n_line)
"""))
R("fk-spec-log", (FK, "spec_ssp[iz, iage, :] = 10 ** (c0 + c1 * np.log10(ssp_wave))", "spec_ssp[iz, iage] = np.power(10.0, c0 + c1 * np.log10(ssp_wave))"))
R("fk-spec-plaw", (FK, "spec_ssp[iz, iage, :] = 10 ** (c0 + c1 * np.log10(ssp_wave))", "spec_ssp[iz, iage, :] = 10**c0 * ssp_wave**c1"))
R("fk-lum-vec", (FK, """            low = 10 ** np.random.uniform(-70, -2, size=n_low)
            high = 10 ** np.random.uniform(-2, 3, size=n_high)

            ssp_emline_luminosity[iz][iage] = np.concatenate([low, high])
            np.random.shuffle(ssp_emline_luminosity[iz][iage])
""", """            low = 10 ** np.random.uniform(-70, -2, size=n_low)
            high = 10 ** np.random.uniform(-2, 3, size=n_high)

            lines = np.concatenate((low, high))
            np.random.shuffle(lines)
            ssp_emline_luminosity[iz, iage, :] = lines
"""))
R("fk-filtwave", (FK, """    filter_waves = np.zeros((n_bands, n_filter_waves))
    for iband in range(n_bands):
        xmin, xmax = wave_mins[iband], wave_maxs[iband]
        filter_waves[iband, :] = np.linspace(xmin, xmax, n_filter_waves)
    return filter_waves
""", """    return np.array(
        [np.linspace(lo, hi, n_filter_waves) for lo, hi in zip(wave_mins, wave_maxs)]
    )
"""))
R("fk-filttrans", (FK, """    for iband, func in enumerate(func_list):
        wave = filter_waves[iband, :]
        filter_trans[iband, :] = func(np.log10(wave))
    return filter_trans
""", """    lgwaves = np.log10(filter_waves)
    for iband in range(n_bands):
        filter_trans[iband] = func_list[iband](lgwaves[iband])
    return filter_trans
"""))
R("fk-name-sorted", (FK, """    ssp_emline_name = {"XXX"}
    while len(ssp_emline_name) < n_line:
        ssp_emline_name.add("".join(random.choices(string.ascii_uppercase, k=3)))
    ssp_emline_name = list(ssp_emline_name)
""", """    names = {"XXX"}
    while len(names) < n_line:
        letters = random.choices(string.ascii_uppercase, k=3)
        names.add("".join(letters))
    ssp_emline_name = list(names)
"""))
# ---- script
R("sc-dict", (SC, """    kwargs = {}
    if args.gas_logz is not None:
        kwargs["gas_logz"] = args.gas_logz
    if args.gas_logu is not None:
        kwargs["gas_logu"] = args.gas_logu
""", """    kwargs = dict(gas_logz=args.gas_logz, gas_logu=args.gas_logu)
    kwargs = {key: val for key, val in kwargs.items() if val is not None}
"""))
R("sc-createds", (SC, "            hdf[key] = arr\n", "            hdf.create_dataset(key, data=arr)\n"))
R("sc-getattr", (SC, """        for key, arr in zip(DEFAULT_SSP_KEYS, ssp_data):
            hdf[key] = arr
""", """        for key in DEFAULT_SSP_KEYS:
            hdf[key] = getattr(ssp_data, key)
"""))
R("sc-nparr", (SC, """            ssp_emline_wave = np.array(
                [getattr(ssp_data.ssp_emline_wave, name) for name in ssp_emline_name]
            )
""", """            ssp_emline_wave = np.array(ssp_data.ssp_emline_wave)
"""))
R("sc-main", (SC, """if __name__ == "__main__":
    parser = argparse.ArgumentParser()""", """def main():
    parser = argparse.ArgumentParser()"""), (SC, """            hdf["ssp_emline_luminosity"] = ssp_data.ssp_emline_luminosity""", """            hdf["ssp_emline_luminosity"] = ssp_data.ssp_emline_luminosity


if __name__ == "__main__":
    main()
"""))
# ---- package
R("df-tuple", (DF, 'DEFAULT_SSP_KEYS = ("ssp_lgmet", "ssp_lg_age_gyr", "ssp_wave", "ssp_flux")', "DEFAULT_SSP_KEYS = SSPData._fields[:4]"))
R("df-optional", (DF, "    ssp_emline_wave: np.ndarray = None\n", "    ssp_emline_wave: typing.Optional[tuple] = None\n"))
