"""Time series models."""
import numpy as np
from sklearn.linear_model import LinearRegression
from sklearn.utils import check_array
from statsmodels.tsa.vector_ar.var_model import VAR
from lingam.base import _BaseLiNGAM
from lingam.direct_lingam import DirectLiNGAM
from lingam.utils import predict_adaptive_lasso
from sklearn.utils import check_random_state
from statsmodels.tsa.statespace.varmax import VARMAX


def VARLiNGAM_estimate_var_coefs(self, X, criterion):
    if criterion not in ['aic', 'fpe', 'hqic', 'bic']:
        var = VAR(X)
        result = var.fit(maxlags=self._lags, trend='n')
    else:
        min_value = float('Inf')
        result = None
        for lag in range(1, self._lags + 1):
            var = VAR(X)
            fitted = var.fit(maxlags=lag, ic=None, trend='n')
            value = getattr(fitted, criterion)
            if value < min_value:
                min_value = value
                result = fitted
    return (result.coefs, result.k_ar, result.resid)


def VARLiNGAM_calc_residuals(self, X, M_taus, lags):
    X = X.T
    n_features = X.shape[0]
    n_samples = X.shape[1]
    residuals = np.zeros((n_features, n_samples))
    for t in range(n_samples):
        if t - lags < 0:
            continue
        estimated = np.zeros((X.shape[0], 1))
        for tau in range(1, lags + 1):
            estimated += np.dot(M_taus[tau - 1], X[:, t - tau].reshape((-1, 1)))
        residuals[:, t] = X[:, t] - estimated.reshape((-1,))
    residuals = residuals[:, lags:].T
    return residuals


def VARLiNGAM_calc_b(self, X, B0, M_taus):
    n_features = X.shape[1]
    B_taus = np.array([B0])
    for M in M_taus:
        B_t = np.dot(np.eye(n_features) - B0, M)
        B_taus = np.append(B_taus, [B_t], axis=0)
    return B_taus


def VARLiNGAM_pruning(self, X, B_taus, causal_order):
    n_features = X.shape[1]
    stacked = [np.flip(X, axis=0)]
    for i in range(self._lags):
        stacked.append(np.roll(stacked[-1], -1, axis=0))
    blocks = np.array(list(zip(*stacked)))[:-self._lags]
    for i in range(n_features):
        causal_order_no = causal_order.index(i)
        ancestor_indexes = causal_order[:causal_order_no]
        obj = np.zeros(len(blocks))
        exp = np.zeros((len(blocks), causal_order_no + n_features * self._lags))
        for j, block in enumerate(blocks):
            obj[j] = block[0][i]
            exp[j:] = np.concatenate([block[0][ancestor_indexes].flatten(), block[1:][:].flatten()], axis=0)
        predictors = [i for i in range(exp.shape[1])]
        target = len(predictors)
        X_con = np.concatenate([exp, obj.reshape(-1, 1)], axis=1)
        coef = predict_adaptive_lasso(X_con, predictors, target)
        B_taus[0][i, ancestor_indexes] = coef[:causal_order_no]
        for j in range(len(B_taus[1:])):
            B_taus[j + 1][i, :] = coef[causal_order_no + n_features * j:causal_order_no + n_features * j + n_features]
    return B_taus


def VARLiNGAM_fit(self, X, criterion):
    self._causal_order = None
    self._adjacency_matrices = None
    X = check_array(X)
    lingam_model = self._lingam_model
    if lingam_model is None:
        lingam_model = DirectLiNGAM()
    elif not isinstance(lingam_model, _BaseLiNGAM):
        raise ValueError('lingam_model must be a subclass of _BaseLiNGAM')
    M_taus = self._ar_coefs
    if M_taus is None:
        M_taus, lags, residuals = VARLiNGAM_estimate_var_coefs(self, X, criterion)
    else:
        lags = M_taus.shape[0]
        residuals = VARLiNGAM_calc_residuals(self, X, M_taus, lags)
    model = lingam_model
    model.fit(residuals)
    B_taus = VARLiNGAM_calc_b(self, X, model.adjacency_matrix_, M_taus)
    if self._prune:
        B_taus = VARLiNGAM_pruning(self, X, B_taus, model.causal_order_)
    self._fitted_ar_coefs = M_taus
    self._fitted_lags = lags
    self._residuals = residuals
    self._causal_order = model.causal_order_
    self._adjacency_matrices = B_taus
    return self


@defines('C16 C08 C09', 'VARLiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrices_', 'prop:residuals_'], init=True, opaque=['predict_adaptive_lasso'])
def define_VARLiNGAM_fit(self, X):
    """LiNGAM on the residuals of the vector autoregression"""
    return VARLiNGAM_fit(self, X, self._criterion)


def VARMALiNGAM_estimate_varma_coefs(self, X, criterion):
    if criterion not in ['aic', 'bic', 'hqic']:
        result = VARMAX(X, order=self._order, trend='c').fit(maxiter=self._max_iter)
    else:
        min_value = float('Inf')
        result = None
        orders = [(p, q) for p in range(self._order[0] + 1) for q in range(self._order[1] + 1)]
        orders.remove((0, 0))
        for order in orders:
            fitted = VARMAX(X, order=order, trend='c').fit(maxiter=self._max_iter)
            value = getattr(fitted, criterion)
            if value < min_value:
                min_value = value
                result = fitted
    return (result.coefficient_matrices_var, result.coefficient_matrices_vma, result.specification['order'], result.resid)


def VARMALiNGAM_calc_residuals(self, X, ar_coefs, ma_coefs, p, q):
    X = X.T
    n_features = X.shape[0]
    n_samples = X.shape[1]
    start_index = max(p, q)
    rng = check_random_state(self._random_state)
    epsilon = np.zeros([n_features, n_samples])
    for t in range(n_samples):
        if t < start_index:
            epsilon[:, t] = rng.normal(size=n_features)
            continue
        ar = np.zeros([n_features, 1])
        for i in range(p):
            ar += np.dot(ar_coefs[i], X[:, t - i - 1].reshape(-1, 1))
        ma = np.zeros([n_features, 1])
        for j in range(q):
            ma += np.dot(ma_coefs[j], epsilon[:, t - j - 1].reshape(-1, 1))
        epsilon[:, t] = X[:, t] - (ar.flatten() + ma.flatten())
    residuals = epsilon[:, start_index:].T
    return residuals


def VARMALiNGAM_calc_psi_and_omega(self, psi0, phis, thetas, order):
    psis = [psi0]
    for i in range(order[0]):
        psi = np.dot(np.eye(psi0.shape[0]) - psi0, phis[i])
        psis.append(psi)
    omegas = []
    for j in range(order[1]):
        omega = np.dot(np.dot(np.eye(psi0.shape[0]) - psi0, thetas[j]), np.linalg.inv(np.eye(psi0.shape[0]) - psi0))
        omegas.append(omega)
    return (np.array(psis), np.array(omegas))


def VARMALiNGAM_pruning(self, X, ee, order, causal_order):
    n_features = X.shape[1]
    X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + order[0] + order[1])))
    for p in range(1 + order[0]):
        pos = n_features * p
        X_joined[:, pos:pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
    for q in range(order[1]):
        pos = n_features * (1 + order[0]) + n_features * q
        X_joined[:, pos:pos + n_features] = np.roll(ee[:, 0:n_features], q + 1, axis=0)
    psi_omega = np.zeros((n_features, n_features * (1 + order[0] + order[1])))
    for i, target in enumerate(causal_order):
        predictors = [j for j in range(X_joined.shape[1]) if j not in causal_order[i:]]
        coef = predict_adaptive_lasso(X_joined, predictors, target)
        psi_omega[target, predictors] = coef
    psis = np.zeros((1 + order[0], n_features, n_features))
    for p in range(1 + order[0]):
        pos = n_features * p
        psis[p] = psi_omega[:, pos:pos + n_features]
    omegas = np.zeros((order[1], n_features, n_features))
    for q in range(order[1]):
        pos = n_features * (1 + order[0]) + n_features * q
        omegas[q] = psi_omega[:, pos:pos + n_features]
    return (psis, omegas)


def VARMALiNGAM_fit(self, X, criterion):
    self._causal_order = None
    self._adjacency_matrices = None
    X = check_array(X)
    lingam_model = self._lingam_model
    if lingam_model is None:
        lingam_model = DirectLiNGAM()
    elif not isinstance(lingam_model, _BaseLiNGAM):
        raise ValueError('lingam_model must be a subclass of _BaseLiNGAM')
    phis = self._ar_coefs
    thetas = self._ma_coefs
    order = self._order
    if phis is None or thetas is None:
        phis, thetas, order, residuals = VARMALiNGAM_estimate_varma_coefs(self, X, criterion)
    else:
        p = phis.shape[0]
        q = thetas.shape[0]
        residuals = VARMALiNGAM_calc_residuals(self, X, phis, thetas, p, q)
    model = lingam_model
    model.fit(residuals)
    psis, omegas = VARMALiNGAM_calc_psi_and_omega(self, model.adjacency_matrix_, phis, thetas, order)
    if self._prune:
        ee = np.dot(np.eye(model.adjacency_matrix_.shape[0]) - model.adjacency_matrix_, residuals.T).T
        psis, omegas = VARMALiNGAM_pruning(self, X, ee, order, model.causal_order_)
    self._fitted_ar_coefs = phis
    self._fitted_ma_coefs = thetas
    self._fitted_order = order
    self._residuals = residuals
    self._causal_order = model.causal_order_
    self._adjacency_matrices = (psis, omegas)
    return self


@defines('C16 C08 C09', 'VARMALiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrices_', 'prop:residuals_'], init=True, opaque=['predict_adaptive_lasso'])
def define_VARMALiNGAM_fit(self, X):
    """LiNGAM on the residuals of the vector ARMA model"""
    return VARMALiNGAM_fit(self, X, self._criterion)


def LongitudinalLiNGAM_compute_residuals(self, X_t):
    M_tau = np.zeros((self._T, self._n_lags, self._p, self._p))
    N_t = np.zeros((self._T, self._p, self._n))
    N_t[:, :, :] = np.nan
    X_t = np.array(X_t)
    for t in range(self._n_lags, self._T):
        X = np.vstack(X_t[t - self._n_lags:t][::-1])
        y = X_t[t]
        reg = LinearRegression()
        reg.fit(X.T, y.T)
        M_tau[t, :self._n_lags] = np.split(reg.coef_, self._n_lags, axis=1)
        N_t[t] = X_t[t] - reg.coef_ @ X
    return (M_tau, N_t)


def LongitudinalLiNGAM_estimate_instantaneous_effects(self, N_t):
    causal_orders = [[np.nan] * self._p for _ in range(self._n_lags)]
    B_t = np.zeros((self._T, self._p, self._p))
    for t in range(self._n_lags, self._T):
        model = DirectLiNGAM(measure=self._measure)
        model.fit(N_t[t].T)
        causal_orders.append(model.causal_order_)
        B_t[t] = model.adjacency_matrix_
    return (B_t, causal_orders)


def LongitudinalLiNGAM_estimate_lagged_effects(self, B_t, M_tau):
    B_tau = np.zeros((self._T, self._n_lags, self._p, self._p))
    for t in range(self._n_lags, self._T):
        for tau in range(self._n_lags):
            B_tau[t, tau] = np.dot(np.eye(self._p) - B_t[t], M_tau[t, tau])
    return B_tau


@defines('C16 C09', 'LongitudinalLiNGAM.fit', observe=['prop:causal_orders_', 'prop:adjacency_matrices_', 'prop:residuals_'], init=True, opaque=['DirectLiNGAM.fit'])
def define_LongitudinalLiNGAM_fit(self, X_list):
    """LiNGAM on the residuals of each time point given the previous ones"""
    if not isinstance(X_list, (list, np.ndarray)):
        raise ValueError('X_list must be a array-like.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._T = len(X_list)
    self._n = check_array(X_list[0]).shape[0]
    self._p = check_array(X_list[0]).shape[1]
    X_t = []
    for X in X_list:
        X = check_array(X)
        if X.shape != (self._n, self._p):
            raise ValueError('X_list must be a list with the same shape')
        X_t.append(X.T)
    n_taus = self._n_lags + 1
    M_tau, N_t = LongitudinalLiNGAM_compute_residuals(self, X_t)
    if self._Aknw is None:
        B_t, causal_orders = LongitudinalLiNGAM_estimate_instantaneous_effects(self, N_t)
        B_tau = LongitudinalLiNGAM_estimate_lagged_effects(self, B_t, M_tau)
        self._adjacency_matrices = np.empty((self._T, n_taus, self._p, self._p))
        self._adjacency_matrices[:, :] = np.nan
        for t in range(self._n_lags, self._T):
            self._adjacency_matrices[t, 0] = B_t[t]
            for l in range(self._n_lags):
                if t - l != 0:
                    self._adjacency_matrices[t, l + 1] = B_tau[t, l]
        self._causal_orders = causal_orders
    else:
        if (self._T, n_taus, self._p, self._p) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (T, n_lags + 1, n_features, n_features)')
        X_t = np.vstack(X_t)
        pk = np.zeros((self._T * self._p, self._T * self._p))
        for t in range(self._T):
            col_end = (t + 1) * self._p
            col_start = max(col_end - self._p * n_taus, 0)
            pk[t * self._p:(t + 1) * self._p, col_start:col_end] = -1
        for t in range(self._T):
            for tau in range(n_taus):
                if t < tau:
                    continue
                ix = np.ix_(np.arange(t * self._p, (t + 1) * self._p), np.arange((t - tau) * self._p, (t - tau + 1) * self._p))
                temp = pk[ix]
                temp[self._Aknw[t, tau] == 0] = 0
                temp[self._Aknw[t, tau] == 1] = 1
                pk[ix] = temp
        model = DirectLiNGAM(prior_knowledge=pk, measure=self._measure, random_state=self._random_state)
        model.fit(X_t.T)
        adj = np.array(np.split(model.adjacency_matrix_, self._T, axis=1))
        adj = np.array(np.split(adj, self._T, axis=1))
        adjs = np.zeros((self._T, n_taus, self._p, self._p))
        for t in range(self._n_lags, self._T):
            for lag in range(n_taus):
                adjs[t, lag] = adj[t, t - lag]
        adjs[:self._n_lags] = np.nan
        causal_orders = []
        for t in range(self._T):
            if t < self._n_lags:
                causal_orders.append([np.nan for _ in range(self._p)])
                continue
            targets = range(t * self._p, (t + 1) * self._p)
            filter_ = list(map(lambda x: x in targets, model.causal_order_))
            causal_order = np.array(model.causal_order_)[filter_]
            causal_order = causal_order - min(causal_order)
            causal_orders.append(causal_order.tolist())
        self._adjacency_matrices = adjs
        self._causal_orders = causal_orders
    self._residuals = np.zeros((self._T, self._n, self._p))
    for t in range(self._T):
        self._residuals[t] = N_t[t].T
    return self
