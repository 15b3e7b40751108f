"""properties stated but not decided by this family of technique"""


def _p(id, title, statement, text, why, files, mech):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


NA_PROPS = [
    _p("N01", "Rounding error of every result stays small in double precision",
       "In double precision every documented function returns a value within a small relative error of its exact real-number definition, for all inputs of its domain.",
       "every input of the documented domains", "tests compare a few values at loose tolerance",
       ["dsps/sed/stellar_sed.py", "dsps/cosmology/flat_wcdm.py"], [("all numerical kernels", "dsps/utils.py")]),
    _p("N02", "Gradients are finite wherever the value is differentiable",
       "For every input in a documented domain at which a function is differentiable, its automatic derivative is finite and equals the mathematical derivative.",
       "every input of the documented domains", "tests evaluate gradients at a few points",
       ["dsps/sed/stellar_sed.py", "dsps/utils.py"], [("where-guards", "dsps/utils.py:_tw_cuml_kern")]),
    _p("N03", "Quadratures converge to the continuous integrals they stand for",
       "Distances, ages, stellar masses and magnitudes agree with the continuous integrals they approximate, and with reference packages, within a stated accuracy for every input.",
       "every cosmology, SFH and filter", "tests compare a few tabulated reference values",
       ["dsps/cosmology/flat_wcdm.py", "dsps/photometry/photometry_kernels.py"], [("trapezoid rules", "dsps/utils.py:trapz")]),
]
NA = [
    ("N01", "a rounding-error bound over unbounded real inputs quantifies over runtime values; no sound static bound short of an error-analysis proof per kernel is in reach"),
    ("N02", "finiteness of floating-point derivatives depends on overflow and cancellation at run-time values, which the real-arithmetic lowering does not model"),
    ("N03", "discretisation error depends on the smoothness and values of run-time inputs; the checks decide which quadrature is computed, not how accurate it is"),
]
