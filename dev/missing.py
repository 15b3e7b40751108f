import sys; sys.path.insert(0,'/verif')
from sa.models import REG as have
names="abs absolute add allclose arccos array_equal bincount cbrt ceil choose compress copy count_nonzero deg2rad delete diag divide dstack equal exp exp2 expm1 eye flatnonzero fliplr float32 float64 float_power floor floor_divide fmax fmin fmod genfromtxt greater greater_equal identity indices intersect1d isfinite isin ix_ less less_equal log log1p logical_and logical_not logical_or maximum median minimum mod multiply negative nonzero not_equal power remainder rot90 sign sin size sqrt square subtract tanh tri tril triu true_divide trunc unwrap positive nan_to_num heaviside abs concatenate column_stack vstack hstack stack append atleast_1d atleast_2d amax amin max min sum prod mean average std var cumsum cumprod diff ediff1d trapezoid interp searchsorted digitize histogram where select piecewise clip sort argsort argmax argmin unique take take_along_axis flip flipud roll tile repeat reshape ravel squeeze expand_dims swapaxes moveaxis transpose broadcast_to broadcast_arrays meshgrid outer inner dot matmul einsum tensordot vdot ones zeros full ones_like zeros_like full_like empty empty_like arange linspace logspace geomspace array asarray ascontiguousarray isclose any all nansum nanmax nanmin nanmean ptp insert split array_split pad polyval shape ndim size iscomplexobj isscalar result_type gradient percentile quantile hypot logaddexp logaddexp2".split()
print([n for n in names if "np."+n not in have])
l="abs add pow exp log sqrt square dynamic_update_slice max min ge gt le lt eq ne mul sub div neg integer_pow logistic erf dot dot_general sign tanh associative_scan reduce cbrt rsqrt log1p expm1 clamp select cond scan fori_loop while_loop map dynamic_slice slice slice_in_dim dynamic_index_in_dim index_in_dim full iota rev exp2 is_finite floor switch".split()
print([n for n in l if "lax."+n not in have])
