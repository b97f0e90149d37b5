"""Total effects: regress the destination on the source and the source's parents, take the source's coefficient;
the model-based variant sums the products of coefficients over all directed paths."""
import numbers
import warnings
import numpy as np
from sklearn.linear_model import LinearRegression
from sklearn.utils import check_array, check_scalar
from lingam.utils import calculate_total_effect, find_all_paths


def parents_of(row):
    return np.where(np.abs(row) > 0)[0]


def regression_effect(X, source, parents, destination):
    return LinearRegression().fit(X[:, [source] + list(parents)], X[:, destination]).coef_[0]


def datasets(X_list):
    """two or more tables with the same columns"""
    if not isinstance(X_list, list):
        raise ValueError("not a list")
    if len(X_list) < 2:
        raise ValueError("fewer than two")
    n_features = check_array(X_list[0]).shape[1]
    out = []
    for X in X_list:
        X = check_array(X)
        if X.shape[1] != n_features:
            raise ValueError("other columns")
        out.append(X)
    return out


def warn_if_reversed(order, from_index, to_index):
    if order.index(from_index) > order.index(to_index):
        warnings.warn("destination precedes source")


@defines("C10", "DirectLiNGAM.estimate_total_effect", "ICALiNGAM.estimate_total_effect", "HighDimDirectLiNGAM.estimate_total_effect",
         observe=["return", "warn"])
def ordered_model(self, X, from_index, to_index):
    """coefficient of the source given its parents; warns when the destination precedes the source"""
    X = check_array(X)
    warn_if_reversed(self.causal_order_, from_index, to_index)
    return regression_effect(X, from_index, parents_of(self.adjacency_matrix_[from_index]), to_index)


def position(order, index):
    for i, block in enumerate(order):
        if hasattr(block, "__iter__") and index in block:
            pos = i
            break
        elif not hasattr(block, "__iter__") and int(index) == int(block):
            pos = i
            break
    return pos


@defines("C10", "BottomUpParceLiNGAM.estimate_total_effect", observe=["return", "warn"])
def parcelingam(self, X, from_index, to_index):
    """coefficient of the source given its parents, nan when the source is confounded; warns in both doubtful cases"""
    X = check_array(X)
    if position(self.causal_order_, from_index) > position(self.causal_order_, to_index):
        warnings.warn("destination precedes source")
    if True in np.isnan(self.adjacency_matrix_[from_index]):
        warnings.warn("confounded")
        return np.nan
    return regression_effect(X, from_index, parents_of(self.adjacency_matrix_[from_index]), to_index)


@defines("C10", "BottomUpParceLiNGAM.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def parcelingam2(self, from_index, to_index):
    """path sum over the fitted matrix, nan when the source is confounded"""
    if position(self.causal_order_, from_index) > position(self.causal_order_, to_index):
        warnings.warn("destination precedes source")
    if True in np.isnan(self.adjacency_matrix_[from_index]):
        warnings.warn("confounded")
        return np.nan
    return calculate_total_effect(self.adjacency_matrix_, from_index, to_index)


@defines("C10", "RCD.estimate_total_effect", observe=["return", "warn"])
def rcd(self, X, from_index, to_index):
    """coefficient of the source given its parents, nan when confounded; warns when the destination is an ancestor"""
    X = check_array(X)
    if to_index in self.ancestors_list_[from_index]:
        warnings.warn("destination precedes source")
    if True in np.isnan(self.adjacency_matrix_[from_index]):
        warnings.warn("confounded")
        return np.nan
    return regression_effect(X, from_index, parents_of(self.adjacency_matrix_[from_index]), to_index)


@defines("C10", "RCD.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def rcd2(self, from_index, to_index):
    """path sum over the fitted matrix, nan when the source is confounded"""
    if to_index in self.ancestors_list_[from_index]:
        warnings.warn("destination precedes source")
    if True in np.isnan(self.adjacency_matrix_[from_index]):
        warnings.warn("confounded")
        return np.nan
    return calculate_total_effect(self.adjacency_matrix_, from_index, to_index)


@defines("C10 C13", "MultiGroupDirectLiNGAM.estimate_total_effect", observe=["return", "warn"])
def multigroup(self, X_list, from_index, to_index):
    """one effect per dataset, each from that dataset and its own matrix"""
    X_list = datasets(X_list)
    warn_if_reversed(self.causal_order_, from_index, to_index)
    effects = []
    for X, am in zip(X_list, self.adjacency_matrices_):
        effects.append(regression_effect(X, from_index, parents_of(am[from_index]), to_index))
    return effects


@defines("C10 C13", "MultiGroupDirectLiNGAM.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def multigroup2(self, from_index, to_index):
    """one path sum per dataset"""
    warn_if_reversed(self.causal_order_, from_index, to_index)
    return [calculate_total_effect(am, from_index, to_index) for am in self.adjacency_matrices_]


@defines("C10 C13", "MultiGroupRCD.estimate_total_effect", observe=["return", "warn"])
def multigroup_rcd(self, X_list, from_index, to_index):
    """one effect per dataset, nan for the datasets where the source is confounded"""
    X_list = datasets(X_list)
    if to_index in self.ancestors_list_[from_index]:
        warnings.warn("destination precedes source")
    effects = []
    for X, am in zip(X_list, self.adjacency_matrices_):
        if True in np.isnan(am[from_index]):
            warnings.warn("confounded")
            effects.append(np.nan)
        else:
            effects.append(regression_effect(X, from_index, parents_of(am[from_index]), to_index))
    return effects


@defines("C10 C13", "MultiGroupRCD.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def multigroup_rcd2(self, from_index, to_index):
    """one path sum per dataset, nan for the datasets where the source is confounded"""
    if to_index in self.ancestors_list_[from_index]:
        warnings.warn("destination precedes source")
    effects = []
    for am in self.adjacency_matrices_:
        if True in np.isnan(am[from_index]):
            warnings.warn("confounded")
            effects.append(np.nan)
        else:
            effects.append(calculate_total_effect(am, from_index, to_index))
    return effects


@defines("C10 C16", "VARLiNGAM.estimate_total_effect", observe=["return", "warn"])
def var(self, X, from_index, to_index, from_lag=0):
    """source at its lag and its parents at theirs, columns [x(t), x(t-1), ...]"""
    X = check_array(X)
    if from_lag == 0:
        warn_if_reversed(self.causal_order_, from_index, to_index)
    p = X.shape[1]
    blocks = 1 + self._fitted_lags + from_lag
    joined = np.zeros((X.shape[0], p * blocks))
    for lag in range(blocks):
        joined[:, p * lag: p * lag + p] = np.roll(X[:, 0:p], lag, axis=0)
    am = np.concatenate([*self.adjacency_matrices_], axis=1)
    parents = parents_of(am[from_index])
    source = from_index if from_lag == 0 else from_index + p * from_lag
    parents = parents if from_lag == 0 else parents + p * from_lag
    return regression_effect(joined, source, parents, to_index)


@defines("C10 C16", "VARLiNGAM.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def var2(self, n_features, from_index, to_index, from_lag=0):
    """path sum over the lag-expanded matrix"""
    if from_lag == 0:
        warn_if_reversed(self.causal_order_, from_index, to_index)
    am = np.concatenate([*self.adjacency_matrices_], axis=1)
    am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
    source = from_index if from_lag == 0 else from_index + n_features * from_lag
    return calculate_total_effect(am, source, to_index)


@defines("C10 C16", "VARMALiNGAM.estimate_total_effect", observe=["return", "warn"])
def varma(self, X, E, from_index, to_index, from_lag=0):
    """source at its lag, its parents among lagged values and lagged errors"""
    X = check_array(X)
    if from_lag == 0:
        warn_if_reversed(self.causal_order_, from_index, to_index)
    p = X.shape[1]
    ar, ma = self._fitted_order[0], self._fitted_order[1]
    joined = np.zeros((X.shape[0], p * (1 + from_lag + ar + ma)))
    for lag in range(1 + ar + from_lag):
        joined[:, p * lag: p * lag + p] = np.roll(X[:, 0:p], lag, axis=0)
    for q in range(ma):
        pos = p * (1 + ar + from_lag) + p * q
        joined[:, pos: pos + p] = np.roll(E[:, 0:p], q + 1 + from_lag, axis=0)
    am = np.concatenate([*self.adjacency_matrices_[0], *self.adjacency_matrices_[1]], axis=1)
    parents = parents_of(am[from_index])
    source = from_index if from_lag == 0 else from_index + p * from_lag
    parents = parents if from_lag == 0 else parents + p * from_lag
    return regression_effect(joined, source, parents, to_index)


@defines("C10 C16", "VARMALiNGAM.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def varma2(self, n_features, from_index, to_index, from_lag=0):
    """path sum over the lag-expanded autoregressive matrices"""
    if from_lag == 0:
        warn_if_reversed(self.causal_order_, from_index, to_index)
    am = np.concatenate([*self.adjacency_matrices_[0]], axis=1)
    am = np.pad(am, [(0, am.shape[1] - am.shape[0]), (0, 0)])
    source = from_index if from_lag == 0 else from_index + n_features * from_lag
    return calculate_total_effect(am, source, to_index)


def warn_longitudinal(orders, from_t, from_index, to_t, to_index):
    if to_t == from_t:
        if orders[to_t].index(from_index) > orders[from_t].index(to_index):
            warnings.warn("destination precedes source")
    elif to_t < from_t:
        warnings.warn("destination precedes source")


@defines("C10 C16", "LongitudinalLiNGAM.estimate_total_effect", observe=["return", "warn"])
def longitudinal(self, X_t, from_t, from_index, to_t, to_index):
    """columns [x(to_t), x(from_t), x(from_t - 1), ...]; source and parents are shifted by one block"""
    warn_longitudinal(self.causal_orders_, from_t, from_index, to_t, to_index)
    joined = np.zeros((self._n, self._p * (2 + self._n_lags)))
    joined[:, 0: self._p] = X_t[to_t]
    for tau in range(1 + self._n_lags):
        pos = self._p + self._p * tau
        joined[:, pos: pos + self._p] = X_t[from_t - tau]
    am = np.concatenate([*self.adjacency_matrices_[from_t]], axis=1)
    return regression_effect(joined, from_index + self._p, parents_of(am[from_index]) + self._p, to_index)


@defines("C10 C16", "LongitudinalLiNGAM.estimate_total_effect2", observe=["return", "warn"], opaque=["calculate_total_effect"])
def longitudinal2(self, from_t, from_index, to_t, to_index):
    """path sum over the block matrix of all timepoints between source and destination"""
    warn_longitudinal(self.causal_orders_, from_t, from_index, to_t, to_index)
    n = to_t - from_t + 1
    p = self.adjacency_matrices_.shape[2]
    m = np.zeros((p * n, p * n))
    for i in range(n):
        for j in range(n):
            if p * j > p * i:
                continue
            if i - j > self._n_lags:
                continue
            m[p * i: p * i + p, p * j: p * j + p] = self.adjacency_matrices_[i + from_t, i - j]
    return calculate_total_effect(m, from_index, p * (to_t - from_t) + to_index)


@defines("C10", "calculate_total_effect", opaque=["find_all_paths"])
def path_sum(adjacency_matrix, from_index, to_index, is_continuous=None):
    """the sum of the products along every directed path"""
    adjacency_matrix = check_array(adjacency_matrix, ensure_min_samples=2, ensure_min_features=2, force_all_finite="allow-nan")
    if adjacency_matrix.shape[0] != adjacency_matrix.shape[1]:
        raise ValueError("not square")
    from_index = check_scalar(from_index, "from_index", (numbers.Integral, np.integer), min_val=0, max_val=len(adjacency_matrix) - 1)
    to_index = check_scalar(to_index, "to_index", (numbers.Integral, np.integer), min_val=0, max_val=len(adjacency_matrix) - 1)
    if from_index == to_index:
        raise ValueError("same variable")
    if is_continuous is None:
        is_continuous = [True for _ in range(len(adjacency_matrix))]
    else:
        is_continuous = check_array(is_continuous, ensure_2d=False, ensure_min_samples=len(adjacency_matrix))
    paths, effects = find_all_paths(adjacency_matrix, from_index, to_index)
    for path in paths:
        for node in path[1:]:
            if not is_continuous[node]:
                raise ValueError("discrete variable on the path")
    return sum(effects)
