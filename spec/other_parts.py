"""Steps of the other computations, each in terms of the others."""
import itertools
import numbers
import numpy as np
from sklearn.linear_model import LinearRegression
from sklearn.utils import check_array
from statsmodels.tsa.vector_ar.var_model import VAR
from lingam.base import _BaseLiNGAM
from lingam.direct_lingam import DirectLiNGAM
from lingam.hsic import hsic_test_gamma
from lingam.utils import predict_adaptive_lasso
from lingam.var_lingam import VARLiNGAM
from sklearn.utils import check_random_state
from statsmodels.tsa.statespace.varmax import VARMAX
from lingam.ica_lingam import ICALiNGAM
from lingam.bottom_up_parce_lingam import BottomUpParceLiNGAM
import pandas as pd
from sklearn.linear_model import LogisticRegression
from sklearn.base import clone, is_classifier
from sklearn.pipeline import Pipeline
from lingam.causal_based_simulator import CBSILiNGAM, CBSIUnobsCommonCauseLiNGAM, CBSITimeSeriesLiNGAM, _LinearRegression, _LogisticRegression
from sklearn.preprocessing import OneHotEncoder
from sklearn.compose import ColumnTransformer
from sklearn.utils import check_scalar
from sklearn.model_selection import check_cv
from sklearn.dummy import DummyRegressor
from sklearn.ensemble import RandomForestRegressor
from lingam.tools import _check_imputer_outout, _check_cd_output, BaseMultipleImputation, BaseMultiGroupCDModel, _DefaultMultipleImputation, _DefaultMultiGroupCDModel
import scipy.optimize as sopt
from scipy.special import expit as sigmoid
from psy import cfa
from itertools import product
import networkx as nx
from sklearn.linear_model import PoissonRegressor
from sklearn.metrics import log_loss
import lingam.utils as ut
import matplotlib.pyplot as plt
from matplotlib.figure import Figure
from lingam.utils._visualize_nonlinear_causal_effect import _is_bootstrap_result, _is_adjacency_matrix, _check_estimator, _calculate, _draw
from scipy.linalg import eigh
from scipy.sparse.linalg import eigsh
from lingam.utils._f_correlation import _squared_dist, _incomplete_cholesky, _svd
from lingam.hsic import get_kernel_width, _rbf_dot, get_gram_matrix, hsic_teststat
from scipy.optimize import fmin_l_bfgs_b
from scipy.stats import pearsonr, shapiro
from lingam.utils._rcd import get_common_ancestors, get_residual_matrix, is_non_gaussianity, is_correlated, exists_ancestor_in_U, is_independent_of_resid, get_resid_and_coef, get_resid_and_coef_by_MLHSICR, is_independent


@defines('C08 C09 C16', 'VARLiNGAM.fit', observe=['return'], opaque=['%_fit'], part_of=[])
def part_VARLiNGAM_fit(self, X):
    """Fit the model to X"""
    return self._fit(X, self._criterion)


@defines('C08 C09 C16', 'VARLiNGAM._fit', observe=['field:_causal_order', 'field:_adjacency_matrices', 'field:_fitted_ar_coefs', 'field:_fitted_lags', 'field:_residuals'], opaque=['%_calc_b', '%_calc_residuals', '%_estimate_var_coefs', '%_pruning'], part_of=['VARLiNGAM.fit'])
def part_VARLiNGAM__fit(self, X, criterion):
    """Fit the model to X, selecting the lags by ``criterion``"""
    self._causal_order = None
    self._adjacency_matrices = None
    X = check_array(X)
    lingam_model = self._lingam_model
    if lingam_model is None:
        lingam_model = DirectLiNGAM()
    elif not isinstance(lingam_model, _BaseLiNGAM):
        raise ValueError('lingam_model must be a subclass of _BaseLiNGAM')
    M_taus = self._ar_coefs
    if M_taus is None:
        M_taus, lags, residuals = self._estimate_var_coefs(X, criterion)
    else:
        lags = M_taus.shape[0]
        residuals = self._calc_residuals(X, M_taus, lags)
    model = lingam_model
    model.fit(residuals)
    B_taus = self._calc_b(X, model.adjacency_matrix_, M_taus)
    if self._prune:
        B_taus = self._pruning(X, B_taus, model.causal_order_)
    self._fitted_ar_coefs = M_taus
    self._fitted_lags = lags
    self._residuals = residuals
    self._causal_order = model.causal_order_
    self._adjacency_matrices = B_taus
    return self


@defines('C08 C09 C16', 'VARLiNGAM._calc_b', observe=['return'], opaque=[], part_of=['VARLiNGAM.fit'])
def part_VARLiNGAM__calc_b(self, X, B0, M_taus):
    """Calculate B"""
    n_features = X.shape[1]
    B_taus = np.array([B0])
    for M in M_taus:
        B_t = np.dot(np.eye(n_features) - B0, M)
        B_taus = np.append(B_taus, [B_t], axis=0)
    return B_taus


@defines('C08 C09 C16', 'VARLiNGAM._estimate_var_coefs', observe=['return'], opaque=[], part_of=['VARLiNGAM.fit'])
def part_VARLiNGAM__estimate_var_coefs(self, X, criterion):
    """Estimate coefficients of VAR"""
    if criterion not in ['aic', 'fpe', 'hqic', 'bic']:
        var = VAR(X)
        result = var.fit(maxlags=self._lags, trend='n')
    else:
        min_value = float('Inf')
        result = None
        for lag in range(1, self._lags + 1):
            var = VAR(X)
            fitted = var.fit(maxlags=lag, ic=None, trend='n')
            value = getattr(fitted, criterion)
            if value < min_value:
                min_value = value
                result = fitted
    return (result.coefs, result.k_ar, result.resid)


@defines('C08 C09 C16', 'VARLiNGAM._calc_residuals', observe=['return'], opaque=[], part_of=['VARLiNGAM.fit'])
def part_VARLiNGAM__calc_residuals(self, X, M_taus, lags):
    """Calculate residulas"""
    X = X.T
    n_features = X.shape[0]
    n_samples = X.shape[1]
    residuals = np.zeros((n_features, n_samples))
    for t in range(n_samples):
        if t - lags < 0:
            continue
        estimated = np.zeros((X.shape[0], 1))
        for tau in range(1, lags + 1):
            estimated += np.dot(M_taus[tau - 1], X[:, t - tau].reshape((-1, 1)))
        residuals[:, t] = X[:, t] - estimated.reshape((-1,))
    residuals = residuals[:, lags:].T
    return residuals


@defines('C08 C09 C16', 'VARLiNGAM._pruning', observe=['return'], opaque=['utils:predict_adaptive_lasso'], part_of=['VARLiNGAM.fit'])
def part_VARLiNGAM__pruning(self, X, B_taus, causal_order):
    """Prune edges"""
    n_features = X.shape[1]
    stacked = [np.flip(X, axis=0)]
    for i in range(self._lags):
        stacked.append(np.roll(stacked[-1], -1, axis=0))
    blocks = np.array(list(zip(*stacked)))[:-self._lags]
    for i in range(n_features):
        causal_order_no = causal_order.index(i)
        ancestor_indexes = causal_order[:causal_order_no]
        obj = np.zeros(len(blocks))
        exp = np.zeros((len(blocks), causal_order_no + n_features * self._lags))
        for j, block in enumerate(blocks):
            obj[j] = block[0][i]
            exp[j:] = np.concatenate([block[0][ancestor_indexes].flatten(), block[1:][:].flatten()], axis=0)
        predictors = [i for i in range(exp.shape[1])]
        target = len(predictors)
        X_con = np.concatenate([exp, obj.reshape(-1, 1)], axis=1)
        coef = predict_adaptive_lasso(X_con, predictors, target)
        B_taus[0][i, ancestor_indexes] = coef[:causal_order_no]
        for j in range(len(B_taus[1:])):
            B_taus[j + 1][i, :] = coef[causal_order_no + n_features * j:causal_order_no + n_features * j + n_features]
    return B_taus


@defines('C08 C09 C16', 'VARMALiNGAM.fit', observe=['return'], opaque=['%_fit'], part_of=[])
def part_VARMALiNGAM_fit(self, X):
    """Fit the model to X"""
    return self._fit(X, self._criterion)


@defines('C08 C09 C16', 'VARMALiNGAM._fit', observe=['field:_causal_order', 'field:_adjacency_matrices', 'field:_fitted_ar_coefs', 'field:_fitted_ma_coefs', 'field:_fitted_order', 'field:_residuals'], opaque=['%_calc_psi_and_omega', '%_calc_residuals', '%_estimate_varma_coefs', '%_pruning'], part_of=['VARMALiNGAM.fit'])
def part_VARMALiNGAM__fit(self, X, criterion):
    """Fit the model to X, selecting the order by ``criterion``"""
    self._causal_order = None
    self._adjacency_matrices = None
    X = check_array(X)
    lingam_model = self._lingam_model
    if lingam_model is None:
        lingam_model = DirectLiNGAM()
    elif not isinstance(lingam_model, _BaseLiNGAM):
        raise ValueError('lingam_model must be a subclass of _BaseLiNGAM')
    phis = self._ar_coefs
    thetas = self._ma_coefs
    order = self._order
    if phis is None or thetas is None:
        phis, thetas, order, residuals = self._estimate_varma_coefs(X, criterion)
    else:
        p = phis.shape[0]
        q = thetas.shape[0]
        residuals = self._calc_residuals(X, phis, thetas, p, q)
    model = lingam_model
    model.fit(residuals)
    psis, omegas = self._calc_psi_and_omega(model.adjacency_matrix_, phis, thetas, order)
    if self._prune:
        ee = np.dot(np.eye(model.adjacency_matrix_.shape[0]) - model.adjacency_matrix_, residuals.T).T
        psis, omegas = self._pruning(X, ee, order, model.causal_order_)
    self._fitted_ar_coefs = phis
    self._fitted_ma_coefs = thetas
    self._fitted_order = order
    self._residuals = residuals
    self._causal_order = model.causal_order_
    self._adjacency_matrices = (psis, omegas)
    return self


@defines('C08 C09 C16', 'VARMALiNGAM._calc_psi_and_omega', observe=['return'], opaque=[], part_of=['VARMALiNGAM.fit'])
def part_VARMALiNGAM__calc_psi_and_omega(self, psi0, phis, thetas, order):
    """calc psi and omega"""
    psis = [psi0]
    for i in range(order[0]):
        psi = np.dot(np.eye(psi0.shape[0]) - psi0, phis[i])
        psis.append(psi)
    omegas = []
    for j in range(order[1]):
        omega = np.dot(np.dot(np.eye(psi0.shape[0]) - psi0, thetas[j]), np.linalg.inv(np.eye(psi0.shape[0]) - psi0))
        omegas.append(omega)
    return (np.array(psis), np.array(omegas))


@defines('C08 C09 C16', 'VARMALiNGAM._estimate_varma_coefs', observe=['return'], opaque=[], part_of=['VARMALiNGAM.fit'])
def part_VARMALiNGAM__estimate_varma_coefs(self, X, criterion):
    """estimate varma coefs"""
    if criterion not in ['aic', 'bic', 'hqic']:
        result = VARMAX(X, order=self._order, trend='c').fit(maxiter=self._max_iter)
    else:
        min_value = float('Inf')
        result = None
        orders = [(p, q) for p in range(self._order[0] + 1) for q in range(self._order[1] + 1)]
        orders.remove((0, 0))
        for order in orders:
            fitted = VARMAX(X, order=order, trend='c').fit(maxiter=self._max_iter)
            value = getattr(fitted, criterion)
            if value < min_value:
                min_value = value
                result = fitted
    return (result.coefficient_matrices_var, result.coefficient_matrices_vma, result.specification['order'], result.resid)


@defines('C08 C09 C16', 'VARMALiNGAM._calc_residuals', observe=['return'], opaque=[], part_of=['VARMALiNGAM.fit'])
def part_VARMALiNGAM__calc_residuals(self, X, ar_coefs, ma_coefs, p, q):
    """calc residuals"""
    X = X.T
    n_features = X.shape[0]
    n_samples = X.shape[1]
    start_index = max(p, q)
    rng = check_random_state(self._random_state)
    epsilon = np.zeros([n_features, n_samples])
    for t in range(n_samples):
        if t < start_index:
            epsilon[:, t] = rng.normal(size=n_features)
            continue
        ar = np.zeros([n_features, 1])
        for i in range(p):
            ar += np.dot(ar_coefs[i], X[:, t - i - 1].reshape(-1, 1))
        ma = np.zeros([n_features, 1])
        for j in range(q):
            ma += np.dot(ma_coefs[j], epsilon[:, t - j - 1].reshape(-1, 1))
        epsilon[:, t] = X[:, t] - (ar.flatten() + ma.flatten())
    residuals = epsilon[:, start_index:].T
    return residuals


@defines('C08 C09 C16', 'VARMALiNGAM._pruning', observe=['return'], opaque=['utils:predict_adaptive_lasso'], part_of=['VARMALiNGAM.fit'])
def part_VARMALiNGAM__pruning(self, X, ee, order, causal_order):
    """pruning"""
    n_features = X.shape[1]
    X_joined = np.zeros((X.shape[0], X.shape[1] * (1 + order[0] + order[1])))
    for p in range(1 + order[0]):
        pos = n_features * p
        X_joined[:, pos:pos + n_features] = np.roll(X[:, 0:n_features], p, axis=0)
    for q in range(order[1]):
        pos = n_features * (1 + order[0]) + n_features * q
        X_joined[:, pos:pos + n_features] = np.roll(ee[:, 0:n_features], q + 1, axis=0)
    psi_omega = np.zeros((n_features, n_features * (1 + order[0] + order[1])))
    for i, target in enumerate(causal_order):
        predictors = [j for j in range(X_joined.shape[1]) if j not in causal_order[i:]]
        coef = predict_adaptive_lasso(X_joined, predictors, target)
        psi_omega[target, predictors] = coef
    psis = np.zeros((1 + order[0], n_features, n_features))
    for p in range(1 + order[0]):
        pos = n_features * p
        psis[p] = psi_omega[:, pos:pos + n_features]
    omegas = np.zeros((order[1], n_features, n_features))
    for q in range(order[1]):
        pos = n_features * (1 + order[0]) + n_features * q
        omegas[q] = psi_omega[:, pos:pos + n_features]
    return (psis, omegas)


@defines('C09 C16', 'LongitudinalLiNGAM.fit', observe=['field:_T', 'field:_n', 'field:_p', 'field:_residuals', 'field:_adjacency_matrices', 'field:_causal_orders'], opaque=['%_compute_residuals', '%_estimate_instantaneous_effects', '%_estimate_lagged_effects'], part_of=[])
def part_LongitudinalLiNGAM_fit(self, X_list):
    """Fit the model to datasets"""
    if not isinstance(X_list, (list, np.ndarray)):
        raise ValueError('X_list must be a array-like.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._T = len(X_list)
    self._n = check_array(X_list[0]).shape[0]
    self._p = check_array(X_list[0]).shape[1]
    X_t = []
    for X in X_list:
        X = check_array(X)
        if X.shape != (self._n, self._p):
            raise ValueError('X_list must be a list with the same shape')
        X_t.append(X.T)
    n_taus = self._n_lags + 1
    M_tau, N_t = self._compute_residuals(X_t)
    if self._Aknw is None:
        B_t, causal_orders = self._estimate_instantaneous_effects(N_t)
        B_tau = self._estimate_lagged_effects(B_t, M_tau)
        self._adjacency_matrices = np.empty((self._T, n_taus, self._p, self._p))
        self._adjacency_matrices[:, :] = np.nan
        for t in range(self._n_lags, self._T):
            self._adjacency_matrices[t, 0] = B_t[t]
            for l in range(self._n_lags):
                if t - l != 0:
                    self._adjacency_matrices[t, l + 1] = B_tau[t, l]
        self._causal_orders = causal_orders
    else:
        if (self._T, n_taus, self._p, self._p) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (T, n_lags + 1, n_features, n_features)')
        X_t = np.vstack(X_t)
        pk = np.zeros((self._T * self._p, self._T * self._p))
        for t in range(self._T):
            col_end = (t + 1) * self._p
            col_start = max(col_end - self._p * n_taus, 0)
            pk[t * self._p:(t + 1) * self._p, col_start:col_end] = -1
        for t in range(self._T):
            for tau in range(n_taus):
                if t < tau:
                    continue
                ix = np.ix_(np.arange(t * self._p, (t + 1) * self._p), np.arange((t - tau) * self._p, (t - tau + 1) * self._p))
                temp = pk[ix]
                temp[self._Aknw[t, tau] == 0] = 0
                temp[self._Aknw[t, tau] == 1] = 1
                pk[ix] = temp
        model = DirectLiNGAM(prior_knowledge=pk, measure=self._measure, random_state=self._random_state)
        model.fit(X_t.T)
        adj = np.array(np.split(model.adjacency_matrix_, self._T, axis=1))
        adj = np.array(np.split(adj, self._T, axis=1))
        adjs = np.zeros((self._T, n_taus, self._p, self._p))
        for t in range(self._n_lags, self._T):
            for lag in range(n_taus):
                adjs[t, lag] = adj[t, t - lag]
        adjs[:self._n_lags] = np.nan
        causal_orders = []
        for t in range(self._T):
            if t < self._n_lags:
                causal_orders.append([np.nan for _ in range(self._p)])
                continue
            targets = range(t * self._p, (t + 1) * self._p)
            filter_ = list(map(lambda x: x in targets, model.causal_order_))
            causal_order = np.array(model.causal_order_)[filter_]
            causal_order = causal_order - min(causal_order)
            causal_orders.append(causal_order.tolist())
        self._adjacency_matrices = adjs
        self._causal_orders = causal_orders
    self._residuals = np.zeros((self._T, self._n, self._p))
    for t in range(self._T):
        self._residuals[t] = N_t[t].T
    return self


@defines('C09 C16', 'LongitudinalLiNGAM._compute_residuals', observe=['return'], opaque=[], part_of=['LongitudinalLiNGAM.fit'])
def part_LongitudinalLiNGAM__compute_residuals(self, X_t):
    """Compute residuals N(t)"""
    M_tau = np.zeros((self._T, self._n_lags, self._p, self._p))
    N_t = np.zeros((self._T, self._p, self._n))
    N_t[:, :, :] = np.nan
    X_t = np.array(X_t)
    for t in range(self._n_lags, self._T):
        X = np.vstack(X_t[t - self._n_lags:t][::-1])
        y = X_t[t]
        reg = LinearRegression()
        reg.fit(X.T, y.T)
        M_tau[t, :self._n_lags] = np.split(reg.coef_, self._n_lags, axis=1)
        N_t[t] = X_t[t] - reg.coef_ @ X
    return (M_tau, N_t)


@defines('C09 C16', 'LongitudinalLiNGAM._estimate_instantaneous_effects', observe=['return'], opaque=[], part_of=['LongitudinalLiNGAM.fit'])
def part_LongitudinalLiNGAM__estimate_instantaneous_effects(self, N_t):
    """Estimate instantaneous effects B(t,t) by applying LiNGAM"""
    causal_orders = [[np.nan] * self._p for _ in range(self._n_lags)]
    B_t = np.zeros((self._T, self._p, self._p))
    for t in range(self._n_lags, self._T):
        model = DirectLiNGAM(measure=self._measure)
        model.fit(N_t[t].T)
        causal_orders.append(model.causal_order_)
        B_t[t] = model.adjacency_matrix_
    return (B_t, causal_orders)


@defines('C09 C16', 'LongitudinalLiNGAM._estimate_lagged_effects', observe=['return'], opaque=[], part_of=['LongitudinalLiNGAM.fit'])
def part_LongitudinalLiNGAM__estimate_lagged_effects(self, B_t, M_tau):
    """Estimate lagged effects B(t,t-τ)"""
    B_tau = np.zeros((self._T, self._n_lags, self._p, self._p))
    for t in range(self._n_lags, self._T):
        for tau in range(self._n_lags):
            B_tau[t, tau] = np.dot(np.eye(self._p) - B_t[t], M_tau[t, tau])
    return B_tau


@defines('C17', 'CausalBasedSimulator.train', observe=['field:_impl', 'field:_train_result'], opaque=['%_check_models', '%_dispatch_impl', '%_train'], part_of=[])
def part_CausalBasedSimulator_train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
    """Estimate functional relations between variables and variable"""
    if cd_algo_name is None:
        cd_algo_name = 'DirectLiNGAM'
    if not isinstance(cd_algo_name, str):
        raise TypeError('cd_algo_name must be str or None.')
    impl_constructor = self._dispatch_impl(cd_algo_name)
    impl = impl_constructor(X, causal_graph, is_discrete=is_discrete)
    train_models = self._check_models(models, impl.endog_names_, impl.discrete_endog_names_)
    train_result = self._train(train_models, causal_graph, impl)
    self._impl = impl
    self._train_result = train_result
    return self


@defines('C17', 'CausalBasedSimulator._dispatch_impl', observe=['return'], opaque=[], part_of=['CausalBasedSimulator.train'])
def part_CausalBasedSimulator__dispatch_impl(self, cd_algo_name):
    """dispatch impl"""
    if cd_algo_name is None:
        return CBSILiNGAM
    elif cd_algo_name == DirectLiNGAM.__name__:
        return CBSILiNGAM
    elif cd_algo_name == ICALiNGAM.__name__:
        return CBSILiNGAM
    elif cd_algo_name == BottomUpParceLiNGAM.__name__:
        return CBSIUnobsCommonCauseLiNGAM
    elif cd_algo_name == VARLiNGAM.__name__:
        return CBSITimeSeriesLiNGAM
    else:
        raise ValueError('Unknown cd_algo_name')


@defines('C17', 'CausalBasedSimulator._check_models', observe=['return'], opaque=['%_check_model_instance'], part_of=['CausalBasedSimulator.train'])
def part_CausalBasedSimulator__check_models(self, models, endog_names, discrete_endog_names):
    """check models"""
    if models is None:
        return {}
    if not isinstance(models, dict):
        raise RuntimeError('models must be a dictionary.')
    for var_name, model in models.items():
        if var_name not in endog_names:
            raise RuntimeError(f'Unknown variable name ({var_name})')
        self._check_model_instance(model, var_name, discrete_endog_names)
    return models


@defines('C17', 'CausalBasedSimulator._train', observe=['return', 'call:.fit'], opaque=[], part_of=['CausalBasedSimulator.train'])
def part_CausalBasedSimulator__train(self, models, causal_graph, impl):
    """train"""
    train_result = {}
    for target_name in impl.endog_names_:
        y = impl.get_data(target_name)
        y = y.ravel()
        parent_names = impl.get_parent_names(target_name)
        if len(parent_names) == 0:
            train_result[target_name] = {'model': None, 'parent_names': [], 'predicted': None, 'residual': y}
            continue
        X = impl.get_data(parent_names)
        is_classifier = target_name in impl.discrete_endog_names_
        if target_name in models.keys():
            model = clone(models[target_name])
        elif is_classifier:
            model = LogisticRegression()
        else:
            model = LinearRegression()
        model.fit(X, y)
        predicted = model.predict(X)
        predicted = predicted.ravel()
        if not is_classifier:
            residual = (y - predicted).ravel()
        else:
            residual = None
        train_result[target_name] = {'model': model, 'parent_names': parent_names, 'predicted': predicted, 'residual': residual}
    return train_result


@defines('C17', 'CausalBasedSimulator.run', observe=['return'], opaque=['%_check_changing_exog', '%_check_changing_models', '%_simulate'], part_of=[])
def part_CausalBasedSimulator_run(self, changing_exog=None, changing_models=None, shuffle_residual=False, random_state=None):
    """Generate simulated data using trained models and the given"""
    if self._train_result is None:
        raise RuntimeError('run() must be executed after train() is executed')
    random_state = check_random_state(random_state)
    changing_exog = self._check_changing_exog(changing_exog, self._impl.exog_length_, self._impl.endog_names_, self._impl.discrete_endog_names_)
    changing_models = self._check_changing_models(changing_models, self._impl.endog_names_, self._impl.discrete_endog_names_)
    simulated_data = self._simulate(changing_exog, changing_models, self._impl, self._train_result, shuffle_residual, random_state)
    return simulated_data


@defines('C17', 'CausalBasedSimulator._check_changing_exog', observe=['return'], opaque=[], part_of=['CausalBasedSimulator.run'])
def part_CausalBasedSimulator__check_changing_exog(self, changing_exog, n_samples, endog_names, discrete_endog_names):
    """check changing exog"""
    if changing_exog is None:
        return {}
    if not isinstance(changing_exog, dict):
        raise RuntimeError('changing_exog must be a dictionary.')
    changing_exog_ = {}
    for var_name, values in changing_exog.items():
        if var_name not in endog_names:
            raise RuntimeError(f'Unknown key in changing_exog. ({var_name})')
        if var_name in discrete_endog_names:
            raise RuntimeError(f'Discrete variables shall not be specified. ({var_name})')
        s = check_array(values, ensure_2d=False, dtype=None).ravel()
        if s.shape[0] != n_samples:
            raise RuntimeError(f'Wrong length. ({s.shape[0]} != {n_samples})')
        changing_exog_[var_name] = values
    return changing_exog_


@defines('C17', 'CausalBasedSimulator._check_changing_models', observe=['return'], opaque=['%_check_model_instance'], part_of=['CausalBasedSimulator.run'])
def part_CausalBasedSimulator__check_changing_models(self, changing_models, endog_names, discrete_endog_names):
    """check changing models"""
    if changing_models is None:
        return {}
    if not isinstance(changing_models, dict):
        raise RuntimeError('changing_models shall be list.')
    changing_models_ = {}
    for target_name, model_info in changing_models.items():
        if not isinstance(model_info, dict):
            raise RuntimeError('changing_models shall be list of dictionaries.')
        if not isinstance(target_name, str):
            raise TypeError('Key of changing_models must be str.')
        if target_name not in endog_names:
            raise RuntimeError(f'Unknown name. ({target_name})')
        if 'parent_names' not in model_info.keys():
            raise KeyError('model_info must have parent_names key.')
        parent_names = model_info['parent_names']
        if not isinstance(parent_names, list):
            raise KeyError('parent_names must be list.')
        for parent_name in model_info['parent_names']:
            if parent_name not in endog_names:
                raise RuntimeError(f'Unknown name. ({parent_name})')
        if len(parent_names) == 0:
            changing_models_[target_name] = {'parent_names': []}
            continue
        if 'coef' not in model_info.keys() and 'model' not in model_info.keys():
            raise KeyError('Elements of changing_models must have coef or model key when parent_names is set.')
        if 'coef' in model_info.keys():
            coef = check_array(model_info['coef'], ensure_2d=False, ensure_min_samples=0)
            if len(coef) != len(parent_names):
                raise ValueError('len(coef) != len(parent_names)')
            if target_name not in discrete_endog_names:
                model = _LinearRegression(coef)
            else:
                model = _LogisticRegression(coef)
            changing_models_[target_name] = {'parent_names': parent_names, 'model': model}
            continue
        if 'model' not in model_info.keys() or model_info['model'] is None:
            raise KeyError("model must be set when coef isn't set.")
        model = model_info['model']
        self._check_model_instance(model, target_name, discrete_endog_names)
        changing_models_[target_name] = {'parent_names': parent_names, 'model': model}
    return changing_models_


@defines('C17', 'CausalBasedSimulator._simulate', observe=['return'], opaque=[], part_of=['CausalBasedSimulator.run'])
def part_CausalBasedSimulator__simulate(self, changing_exog, changing_models, impl, train_result, shuffle_residual, random_state):
    """simulate"""
    simulated = pd.DataFrame(index=np.arange(impl.exog_length_), columns=impl.endog_names_)
    if shuffle_residual:
        shuffle_index = random_state.choice(np.arange(impl.exog_length_), size=impl.exog_length_, replace=False)
    changing_edges = {}
    for target_name, info in changing_models.items():
        changing_edges[target_name] = info['parent_names']
    causal_order = self._impl.get_causal_order(changing_edges)
    for target_name in causal_order:
        is_classifier = target_name in impl.discrete_endog_names_
        parent_names = impl.get_parent_names(target_name)
        if target_name in changing_models.keys():
            parent_names_ = changing_models[target_name]['parent_names']
            if parent_names_ is not None:
                parent_names = parent_names_
        if target_name not in changing_exog.keys():
            error = train_result[target_name]['residual']
        else:
            error = changing_exog[target_name].ravel()
        if shuffle_residual and error is not None:
            error = error[shuffle_index]
        if len(parent_names) == 0:
            if not is_classifier:
                simulated[target_name] = error
            else:
                simulated[target_name] = impl.get_data(target_name)
            continue
        if target_name not in changing_models.keys():
            model = train_result[target_name]['model']
        else:
            model = changing_models[target_name]['model']
        predicted = model.predict(simulated[parent_names].values)
        predicted = predicted.ravel()
        if not is_classifier:
            predicted = predicted + error
        simulated[target_name] = predicted
    return simulated


@defines('C17', 'CausalDataGenerator.fit', observe=['field:_X', 'field:_cause', 'field:_effect', 'field:_adjustments', 'field:model_cause_', 'field:model_effect_', 'field:error_cause_', 'field:error_effect_'], opaque=['%_is_sklearn_estimator', '%_make_model'], part_of=[])
def part_CausalDataGenerator_fit(self, X, cause, effect, adjustments=None, model_cause=None, model_effect=None):
    """Fit models to the data"""
    if not isinstance(X, pd.DataFrame):
        raise TypeError('X shall be a pandas.DataFrame.')
    check_array(X, dtype=None, ensure_min_features=2)
    X = X.copy()
    if cause not in X.columns:
        raise ValueError("cause isn't exist in X.columns.")
    if effect not in X.columns:
        raise ValueError("effect isn't exist in X.columns.")
    if adjustments is None:
        adjustments = np.array([])
    else:
        adjustments = check_array(adjustments, ensure_2d=False, dtype=None, ensure_min_samples=0).reshape((-1,))
    if model_cause is not None:
        is_categorical = X[cause].dtype == 'category'
        self._is_sklearn_estimator(model_cause, is_categorical)
    if model_effect is not None:
        is_categorical = X[effect].dtype == 'category'
        self._is_sklearn_estimator(model_effect, is_categorical)
    if len(adjustments) == 0:
        model_cause, resid_cause = (None, X[cause])
    else:
        model_cause, resid_cause = self._make_model(pd.DataFrame(X[adjustments]), X[cause], 'model_cause', model=model_cause)
    model_effect, resid_effect = self._make_model(pd.DataFrame(X[[cause, *adjustments]]), X[effect], 'model_effect', model=model_effect)
    self._X = X
    self._cause = cause
    self._effect = effect
    self._adjustments = adjustments
    self.model_cause_ = model_cause
    self.model_effect_ = model_effect
    self.error_cause_ = resid_cause
    self.error_effect_ = resid_effect
    return self


@defines('C17', 'CausalDataGenerator._make_model', observe=['return'], opaque=[], part_of=['CausalDataGenerator.fit'])
def part_CausalDataGenerator__make_model(self, X, y, name, model=None):
    """make model"""
    if model is not None:
        try:
            model.fit(X, y)
        except Exception as e:
            raise RuntimeError(f'{name}.fit(): {str(e)}')
    else:
        if y.dtypes == 'category':
            model = LogisticRegression()
        else:
            model = LinearRegression()
        categoricals = X.columns[X.dtypes == 'category']
        numerics = X.columns[X.dtypes != 'category']
        if len(categoricals) > 0:
            transformers = [('categorical', OneHotEncoder(sparse_output=False), categoricals), ('numeric', 'passthrough', numerics)]
            trans = ColumnTransformer(transformers=transformers)
            model = Pipeline([('transformer', trans), ('estimator', model)])
        model.fit(X, y)
    if y.dtype == 'category':
        resids = np.full(X.shape[0], np.nan)
    else:
        resids = y - model.predict(X)
    resids = pd.Series(resids, index=y.index, name=y.name)
    return (model, resids)


@defines('C17', 'CausalDataGenerator.generate', observe=['return'], opaque=['%_check_data_dict'], part_of=[])
def part_CausalDataGenerator_generate(self, interv_endog=None, interv_exog=None, cause_model=None, cause_model_args=None, effect_model=None, effect_model_args=None):
    """Parameters"""
    interv_endog = self._check_data_dict(interv_endog, 'interv_endog')
    interv_exog = self._check_data_dict(interv_exog, 'interv_exog')
    if cause_model is not None:
        if not callable(cause_model):
            raise TypeError('cause_model shall be callable.')
    if effect_model is not None:
        if not callable(effect_model):
            raise TypeError('effect_model shall be callable.')
    generated = self._X[[self._cause, self._effect, *self._adjustments]].copy()
    generated[self._cause] = self.error_cause_
    generated[self._effect] = self.error_effect_
    for name, interv_exog_ in interv_exog.items():
        generated[name] = interv_exog_
    if self._cause in interv_endog.keys():
        generated[self._cause] = interv_endog[self._cause]
    elif cause_model is not None:
        try:
            predicted = cause_model(generated[self._adjustments], generated[self._cause], cause_model_args)
        except Exception as e:
            raise RuntimeError('Exception: cause_model: ' + str(e))
        generated[self._cause] = predicted
        if self._X[self._cause].dtype == 'category':
            generated[self._cause] = pd.Categorical(generated[self._cause])
    elif self.model_cause_ is not None:
        if self._X[self._cause].dtype != 'category':
            predicted = self.model_cause_.predict(generated[self._adjustments])
            generated[self._cause] += np.array(predicted)
        else:
            proba = self.model_cause_.predict_proba(generated[self._adjustments])
            predicted = []
            for proba_ in proba:
                predicted.append(self._random_state.choice(self.model_cause_.classes_, p=proba_))
            generated[self._cause] = np.array(predicted)
            generated[self._cause] = pd.Categorical(generated[self._cause])
    if self._effect in interv_endog.keys():
        generated[self._effect] = interv_endog[self._effect]
    elif effect_model is not None:
        try:
            predicted = effect_model(generated[[self._cause, *self._adjustments]], generated[self._effect], effect_model_args)
        except Exception as e:
            raise RuntimeError('Exception: effect_model: ' + str(e))
        generated[self._effect] = predicted
        if self._X[self._effect].dtype == 'category':
            generated[self._effect] = pd.Categorical(generated[self._effect])
    elif self._X[self._effect].dtype != 'category':
        predicted = self.model_effect_.predict(generated[[self._cause, *self._adjustments]])
        generated[self._effect] += np.array(predicted)
    else:
        proba = self.model_effect_.predict_proba(generated[[self._cause, *self._adjustments]])
        predicted = []
        for proba_ in proba:
            predicted.append(self._random_state.choice(self.model_effect_.classes_, p=proba_))
        generated[self._effect] = np.array(predicted)
        generated[self._effect] = pd.Categorical(generated[self._effect])
    generated_values = generated.loc[self._X.index, self._X.columns]
    return generated_values


@defines('C17', 'CausalDataGenerator._check_data_dict', observe=['return'], opaque=[], part_of=['CausalDataGenerator.generate'])
def part_CausalDataGenerator__check_data_dict(self, data_dict, name):
    """check data dict"""
    if data_dict is None:
        return {}
    if not isinstance(data_dict, dict):
        raise TypeError(f'{name} shall be a dictionary.')
    for name, values in data_dict.items():
        if not isinstance(name, str):
            raise TypeError(f'A key of {name} shall be str.')
        if name not in [self._cause, self._effect, *self._adjustments]:
            raise ValueError(f'Keys of {name} shall be cause or effect or a element of adjustments.')
        values = check_array(values, ensure_2d=False, dtype=None)
        if values.shape[0] != self._X.shape[0]:
            raise ValueError(f'shape[0] of {name} shall be the same as X.shape[0].')
    return data_dict


@defines('C17', 'CausalEffect.estimate_effects_on_prediction', observe=['return'], opaque=['%_check_init_params', '%_get_propagated_effects', '%_predict'], part_of=[])
def part_CausalEffect_estimate_effects_on_prediction(self, X, target_index, pred_model):
    """Estimate the intervention effect with the prediction model"""
    X = check_array(X)
    self._check_init_params()
    vars_ = [i for i in range(X.shape[1]) if i != target_index]
    Ex = X.mean(axis=0)
    En = Ex - np.dot(self._B, Ex)
    effects = []
    for i in range(X.shape[1]):
        Ex_do = self._get_propagated_effects(En, i, Ex[i])
        Ey_do = self._predict(Ex_do[vars_], pred_model)
        Ex_do = self._get_propagated_effects(En, i, Ex[i] + X[:, i].std())
        Ey1 = Ey_do - self._predict(Ex_do[vars_], pred_model)
        Ex_do = self._get_propagated_effects(En, i, Ex[i] - X[:, i].std())
        Ey2 = Ey_do - self._predict(Ex_do[vars_], pred_model)
        effects.append([np.abs(Ey1), np.abs(Ey2)])
    return np.array(effects)


@defines('C17', 'CausalEffect._check_init_params', observe=['field:_B', 'field:_causal_order'], opaque=[], part_of=['CausalEffect.estimate_effects_on_prediction', 'CausalEffect.estimate_optimal_intervention'])
def part_CausalEffect__check_init_params(self):
    """Check initial parameters"""
    if self._B is not None:
        return
    if isinstance(self._causal_model, _BaseLiNGAM):
        self._B = self._causal_model.adjacency_matrix_
        self._causal_order = self._causal_model.causal_order_
        return
    elif type(self._causal_model) is np.ndarray or type(self._causal_model) is list:
        B = self._causal_model if type(self._causal_model) is np.ndarray else np.array(self._causal_model)
        if len(B.shape) != 2:
            raise ValueError("Specified 'causal_model' is not matrix")
        if B.shape[0] != B.shape[1]:
            raise ValueError("Specified 'causal_model' is not square matrix.")
        original_index = np.arange(B.shape[0])
        causal_order = []
        B_ = B
        for _ in range(B.shape[0]):
            zero_rows = np.where(np.sum(np.abs(B_), axis=1) < 1e-10)[0]
            if len(zero_rows) == 0:
                raise ValueError("Specified 'causal_model' is not lower triangular matrix.")
            causal_order.append(original_index[zero_rows[0]])
            original_index = np.delete(original_index, zero_rows[0], 0)
            mask = np.delete(np.arange(len(B_)), zero_rows[0], 0)
            B_ = B_[mask][:, mask]
        self._B = B
        self._causal_order = causal_order
        return
    else:
        raise ValueError("Specified 'causal_model' cannot be used.")


@defines('C17', 'CausalEffect._get_propagated_effects', observe=['return'], opaque=[], part_of=['CausalEffect.estimate_effects_on_prediction'])
def part_CausalEffect__get_propagated_effects(self, En, intervention_index, intervention_value):
    """Get propagated effects according to causal order"""
    effects = np.zeros(len(self._causal_order))
    for i in self._causal_order:
        if i == intervention_index:
            effects[i] = intervention_value
        else:
            effects[i] = np.dot(self._B[i, :], effects) + En[i]
    return effects


@defines('C17', 'CausalEffect._predict', observe=['return'], opaque=[], part_of=['CausalEffect.estimate_effects_on_prediction'])
def part_CausalEffect__predict(self, X, pred_model):
    """Predict the expectation with prediction model"""
    if hasattr(pred_model, 'predict_proba'):
        p0, p1 = pred_model.predict_proba(X.reshape(1, -1))[0]
        pred = p0 - p1
    elif hasattr(pred_model, 'predict'):
        pred = pred_model.predict(X.reshape(1, -1))[0]
    else:
        raise ValueError("'pred_model' has no prediction method.")
    return pred


@defines('C17', 'CausalEffect.estimate_optimal_intervention', observe=['return'], opaque=['%_check_init_params'], part_of=[])
def part_CausalEffect_estimate_optimal_intervention(self, X, target_index, pred_model, intervention_index, desired_output):
    """Estimate of the intervention such that the expectation of"""
    X = check_array(X)
    self._check_init_params()
    if not hasattr(pred_model, 'coef_') and (not hasattr(pred_model, 'intercept_')):
        raise ValueError("'pred_model' does not have regression coefficient attributes.")
    if hasattr(pred_model, 'predict_proba'):
        raise ValueError("'pred_model' is not linear regression model.")
    Ex = X.mean(axis=0)
    En = Ex - np.dot(self._B, Ex)
    s = [i for i in range(X.shape[1]) if i != intervention_index]
    root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
    s = [i for i in s if i not in root_vars]
    alpha = np.zeros(self._B.shape[1])
    alpha[intervention_index] = 1
    Ex[intervention_index] = 0
    En[intervention_index] = 0
    while len(s) > 0:
        k = np.random.choice(s)
        parents = np.where(np.abs(self._B[k]) > 0)[0].tolist()
        if len(list(set(parents) & set(s))) == 0:
            a = 0
            u = 0
            for q in parents:
                a = a + self._B[k, q] * alpha[q]
                if q != intervention_index:
                    u = u + self._B[k, q] * Ex[q]
            Ex[k] = u + En[k]
            alpha[k] = a
            s.remove(k)
    coefs = np.insert(pred_model.coef_, target_index, 0)
    return (desired_output - np.dot(coefs, Ex) - pred_model.intercept_) / np.dot(coefs, alpha)


@defines('C22', 'OutOfSampleCausalTuning.fit', observe=['field:best_idx_', 'field:fit_info_'], opaque=['%_check_configs', '%_estimate_graph', '%_evaluate_config', '%_get_mb_sizes', '%_make_var_models', '%_predict_vars', '%_select_explanatory', '%_sparsity_penalty'], part_of=[])
def part_OutOfSampleCausalTuning_fit(self, data, configs):
    """Search the index of the best configuration given in configs"""
    data = check_array(data, ensure_min_features=2)
    configs = self._check_configs(configs)
    cv = check_cv(self.cv)
    thr = check_scalar(self.thr, 'thr', float, min_val=0, max_val=1, include_boundaries='neither')
    sp = check_scalar(self.sparsity_penalty, 'sparsity_penalty', bool)
    rs = check_random_state(self.random_state)
    scores = []
    mb_sizes = []
    config_infos = []
    for config in configs:
        config_info = []
        for cv_idx, (train, test) in enumerate(cv.split(data)):
            train_data = data[train]
            test_data = data[test]
            if config['all_others'] is False:
                graph = self._estimate_graph(train_data, config)
            else:
                graph = None
            exps = self._select_explanatory(graph, data.shape[1])
            models = self._make_var_models(train_data, exps, rs)
            preds = self._predict_vars(test_data, exps, models)
            cv_info = {'test': test, 'graph': graph, 'exps': exps, 'preds': preds}
            config_info.append(cv_info)
        score = self._evaluate_config(data, config_info)
        mb_size = self._get_mb_sizes(config_info)
        scores.append(score)
        mb_sizes.append(mb_size)
        config_infos.append(config_info)
    best_idx = np.argmax(scores)
    if sp is True:
        best_idx, sp_scores = self._sparsity_penalty(data, thr, rs, scores, mb_sizes, config_infos, best_idx)
    else:
        sp_scores = None
    self.best_idx_ = best_idx
    fit_info = {}
    fit_info['performance'] = scores
    fit_info['mb_size'] = mb_sizes
    fit_info['sp_score'] = sp_scores
    self.fit_info_ = fit_info
    return self


@defines('C22', 'OutOfSampleCausalTuning._check_configs', observe=['return'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__check_configs(self, configs):
    """check configs"""
    if not isinstance(configs, list):
        raise TypeError('configs is not a list')
    if len(configs) < 1:
        raise ValueError('configs is empty')
    configs_ = []
    for config_idx, config in enumerate(configs):
        if not isinstance(config, dict):
            raise TypeError(f'configs[{config_idx}] is not a dict')
        config_ = {'all_others': False, 'model': None, 'init_kwargs': {}, 'fit_kwargs': {}}
        for key, value in config.items():
            if key == 'all_others':
                check_scalar(value, key, bool)
            elif key == 'model':
                if not callable(value):
                    raise TypeError(f'{key} is not callable (config[{config_idx}])')
            elif key == 'init_kwargs':
                if not isinstance(value, dict):
                    raise TypeError(f'{key} is not a dict (config[{config_idx}])')
            elif key == 'fit_kwargs':
                if not isinstance(value, dict):
                    raise TypeError(f'{key} is not a dict (config[{config_idx}])')
            else:
                raise ValueError(f'{key} is an unknown key (config[{config_idx}])')
            config_[key] = value
        if config_['all_others'] is False and config_['model'] is None:
            raise ValueError(f'model is not specified (config[{config_idx}])')
        elif config_['all_others'] is True:
            config_['model'] = None
            config_['init_kwargs'] = {}
            config_['fit_kwargs'] = {}
        configs_.append(config_)
    return configs_


@defines('C22', 'OutOfSampleCausalTuning._evaluate_config', observe=['return'], opaque=['%_calc_mutual_info'], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__evaluate_config(self, data, config_info):
    """evaluate config"""
    scores = []
    for var_idx in range(data.shape[1]):
        pred = []
        truth = []
        for cv_idx, config_info_ in enumerate(config_info):
            pred.append(config_info_['preds'][var_idx])
            truth.append(data[config_info_['test'], var_idx])
        pred = np.concatenate(pred)
        truth = np.concatenate(truth)
        score = self._calc_mutual_info(truth, pred)
        scores.append(score)
    return np.mean(scores)


@defines('C22', 'OutOfSampleCausalTuning._get_mb_sizes', observe=['return'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__get_mb_sizes(self, config_info):
    """get mb sizes"""
    mb_sizes = []
    for cv_idx, config_info_ in enumerate(config_info):
        for var_idx, exp in enumerate(config_info_['exps']):
            mb_sizes.append(len(exp))
    return np.mean(mb_sizes)


@defines('C22', 'OutOfSampleCausalTuning._sparsity_penalty', observe=['return'], opaque=['%_calc_mutual_info'], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__sparsity_penalty(self, data, thr, rs, scores, mb_sizes, config_infos, best_idx):
    """sparsity penalty"""
    ret = best_idx
    trial_num = 1000
    ps = {}
    for conf_idx, config_info in enumerate(config_infos):
        if conf_idx == best_idx:
            continue
        t_obs = scores[best_idx] - scores[conf_idx]
        ts = []
        for trial in range(trial_num):
            best_mis = []
            mis = []
            for var_idx in range(data.shape[1]):
                best_pred = np.hstack([cv_info['preds'][var_idx] for cv_info in config_infos[best_idx]])
                pred = np.hstack([cv_info['preds'][var_idx] for cv_info in config_info])
                test_indices = np.hstack([cv_info['test'] for cv_info in config_info])
                truth = np.hstack(data[test_indices, var_idx])
                best_pred_pm = rs.permutation(best_pred)
                pred_pm = rs.permutation(pred)
                best_mi = self._calc_mutual_info(truth, best_pred_pm)
                mi = self._calc_mutual_info(truth, pred_pm)
                best_mis.append(best_mi)
                mis.append(mi)
            t = np.mean(best_mis) - np.mean(mis)
            ts.append(t)
        p = sum(map(lambda t: t > t_obs, ts)) / trial_num
        ps[conf_idx] = p
    matches = [k for k, v in ps.items() if v > thr]
    if len(matches) > 0:
        matches = [best_idx] + matches
        mbs = [mb_sizes[idx] for idx in matches]
        ret = matches[np.argmin(mbs)]
    return (ret, ps)


@defines('C22', 'OutOfSampleCausalTuning._select_explanatory', observe=['return'], opaque=['%_get_mb'], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__select_explanatory(self, graph, n_features):
    """select explanatory"""
    exps = []
    for var_idx in range(n_features):
        if graph is not None:
            exp = self._get_mb(var_idx, graph)
        else:
            exp = sorted(set(range(n_features)) - set([var_idx]))
        exps.append(exp)
    return exps


@defines('C22', 'OutOfSampleCausalTuning._make_var_models', observe=['return', 'call:.fit'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__make_var_models(self, train_data, exps, random_state):
    """make var models"""
    models = []
    for var_idx, exp in enumerate(exps):
        X = train_data[:, exp]
        y = train_data[:, var_idx]
        if len(exp) > 0:
            model = RandomForestRegressor(n_jobs=-1, random_state=random_state)
        else:
            model = DummyRegressor(strategy='mean')
        model.fit(X, y)
        models.append(model)
    return models


@defines('C22', 'OutOfSampleCausalTuning._predict_vars', observe=['return'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__predict_vars(self, test_data, exps, models):
    """predict vars"""
    preds = {}
    for var_idx, exp in enumerate(exps):
        X = test_data[:, exp]
        pred = models[var_idx].predict(X)
        preds[var_idx] = pred
    return preds


@defines('C22', 'OutOfSampleCausalTuning._estimate_graph', observe=['return', 'call:.fit'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__estimate_graph(self, train_data, config):
    """estimate graph"""
    model = config['model'](**config['init_kwargs'])
    model.fit(train_data, **config['fit_kwargs'])
    return model.adjacency_matrix_


@defines('C22', 'OutOfSampleCausalTuning._calc_mutual_info', observe=['return'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__calc_mutual_info(self, x, x2):
    """calc mutual info"""
    return -0.5 * np.log(1 - np.corrcoef(x, x2)[0, 1] ** 2)


@defines('C22', 'OutOfSampleCausalTuning._get_mb', observe=['return'], opaque=[], part_of=['OutOfSampleCausalTuning.fit'])
def part_OutOfSampleCausalTuning__get_mb(self, i, graph):
    """get mb"""
    pa = np.argwhere(~np.isclose(graph[i], 0)).flatten()
    ch = np.argwhere(~np.isclose(graph[:, i], 0)).flatten()
    co_pa = []
    if len(ch) > 0:
        for ch_ in ch:
            co_pa_ = np.argwhere(~np.isclose(graph[ch_], 0)).flatten()
            co_pa.append(co_pa_)
        co_pa = np.concatenate(co_pa)
        co_pa = co_pa[co_pa != i]
    return np.unique([*pa, *ch, *co_pa]).tolist()


@defines('C11 C22', 'bootstrap_with_imputation', observe=['return', 'call:.fit'], opaque=['tools:_check_cd_output', 'tools:_check_imputer_outout'], part_of=[])
def part_bootstrap_with_imputation(X, n_sampling, n_repeats=10, imp=None, cd_model=None, prior_knowledge=None, apply_prior_knowledge_softly=False, random_state=None):
    """Discovering causal relations in data with missing values"""
    X = check_array(X, force_all_finite='allow-nan')
    n_sampling = check_scalar(n_sampling, 'n_sampling', (numbers.Integral, np.integer), min_val=1)
    n_repeats = check_scalar(n_repeats, 'n_repeats', (numbers.Integral, np.integer), min_val=1)
    if cd_model is not None and (not isinstance(cd_model, BaseMultiGroupCDModel)):
        raise ValueError('cd_model must be an instance of a subclass of BaseMultiGroupCDModel.')
    if imp is not None and (not isinstance(imp, BaseMultipleImputation)):
        raise ValueError('imp must be an instance of a subclass of BaseMultipleImputation.')
    n_samples, n_features = X.shape
    if prior_knowledge is not None:
        prior_knowledge = check_array(prior_knowledge)
        if prior_knowledge.shape != (n_features, n_features):
            raise ValueError('The shape of prior_knowledge must be (n_features, n_features).')
    random_state = check_random_state(random_state)
    if imp is None:
        imp = _DefaultMultipleImputation(n_repeats, random_state)
    if cd_model is None:
        cd_model = _DefaultMultiGroupCDModel(prior_knowledge=prior_knowledge, apply_prior_knowledge_softly=apply_prior_knowledge_softly, random_state=random_state)
    resampled_indices = []
    causal_orders = []
    adj_matrices_list = []
    imputation_results = []
    for i in range(n_sampling):
        resampled_index = random_state.choice(np.arange(X.shape[0]), replace=True, size=len(X))
        bootstrap_sample = X[resampled_index]
        cd_model.before_imputation(bootstrap_sample)
        datasets = imp.fit_transform(bootstrap_sample)
        datasets = _check_imputer_outout(datasets, n_samples, n_features)
        n_repeats_impl = len(datasets)
        result = cd_model.fit(datasets)
        causal_order, adjacency_matrices = _check_cd_output(result, n_repeats_impl, n_features)
        datasets = np.array(datasets)
        imputation_result = np.full(datasets.shape, np.nan)
        pos = np.isnan(bootstrap_sample)
        imputation_result[:, pos] = datasets[:, pos]
        resampled_indices.append(resampled_index)
        causal_orders.append(causal_order)
        adj_matrices_list.append(adjacency_matrices)
        imputation_results.append(imputation_result)
    resampled_indices = np.array(resampled_indices)
    causal_orders = np.array(causal_orders)
    adj_matrices_list = np.array(adj_matrices_list)
    imputation_results = np.array(imputation_results)
    return (causal_orders, adj_matrices_list, resampled_indices, imputation_results)


@defines('C11 C22', 'tools:_check_imputer_outout', observe=['return'], opaque=[], part_of=['bootstrap_with_imputation'])
def part_tools__check_imputer_outout(imp_output, n_samples, n_features):
    """check imputer outout"""
    try:
        imputed_data = check_array(imp_output, allow_nd=True)
    except Exception as e:
        raise ValueError('The return value of imp violates its specification: ' + str(e))
    if imputed_data.shape[1:] != (n_samples, n_features):
        raise ValueError('The shape of the return value of imp must be (n_repeats, n_samples, n_fatures).')
    imputed_data = list(imputed_data)
    return imputed_data


@defines('C11 C22', 'tools:_check_cd_output', observe=['return'], opaque=[], part_of=['bootstrap_with_imputation'])
def part_tools__check_cd_output(cd_output, n_repeats, n_features):
    """check cd output"""
    if not isinstance(cd_output, tuple) or len(cd_output) != 2:
        raise ValueError('The return value of cd_model.fit() must be a tuple like (causal_order, adjacenecy_matrices).')
    causal_order, adjacency_matrices = cd_output
    try:
        causal_order = check_array(causal_order, ensure_2d=False)
    except Exception as e:
        raise ValueError('causal_order, the output of cd_model, violates its specification: ' + str(e))
    if len(causal_order) != n_features:
        raise ValueError('The length of causal_order, the output of cd_model, must be equal to n_features.')
    if not np.array_equal(np.unique(causal_order), np.arange(len(causal_order))):
        raise ValueError('Elements of causal_order, the output of cd_model, must be unique and must be indicates a column number.')
    try:
        adjacency_matrices = check_array(adjacency_matrices, allow_nd=True)
    except Exception as e:
        raise ValueError('adjacency_matrices, the output of cd_model, violates its specification: ' + str(e))
    if adjacency_matrices.shape[-2:] != (n_features, n_features):
        raise ValueError('The shape of elements of adjacency_matrices, the output of cd_model, must be (n_features, n_features)')
    return (causal_order, adjacency_matrices)


@defines('C09 C21', 'LiNA.fit', observe=['return', 'field:_adjacency_matrix', 'field:_measurement_matrix'], opaque=['%_estimate_LiNA'], part_of=[])
def part_LiNA_fit(self, X, G_sign, scale):
    """Fit the model to X with measurement structure and latent factors' scales"""
    n_samples = X.shape[0]
    n_features_latent = G_sign.shape[1]
    lam, phi, var_e = cfa(X, G_sign)
    G_est_nor = lam
    f_est_nor = np.linalg.inv(G_est_nor.T @ G_est_nor) @ G_est_nor.T @ X.T
    f_est_nor = f_est_nor.T
    f_est = np.zeros([n_samples, n_features_latent])
    for j in range(n_features_latent):
        f_est[:, j] = f_est_nor[:, j] * scale[0, j]
    f = f_est
    W_est = self._estimate_LiNA(f)
    self._adjacency_matrix = W_est
    self._measurement_matrix = G_est_nor
    return self._adjacency_matrix


@defines('C09 C21', 'LiNA._estimate_LiNA', observe=['return'], opaque=[], part_of=['LiNA.fit'])
def part_LiNA__estimate_LiNA(self, f):
    """Estimate the adjacency matrix btw. estimated latent factors for single-domain data"""

    def _loss(W):
        """Evaluate value and gradient of loss."""
        M = f @ W
        if self._loss_type == 'l2':
            R = f - M
            loss = 0.5 / f.shape[0] * (R ** 2).sum()
            D = -1.0 / f.shape[0] * f.T @ R
        elif self._loss_type == 'logistic':
            loss = 1.0 / f.shape[0] * (np.logaddexp(0, M) - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (sigmoid(M) - f)
        elif self._loss_type == 'poisson':
            S = np.exp(M)
            loss = 1.0 / f.shape[0] * (S - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (S - f)
        elif self._loss_type == 'laplace':
            R = f - M
            loss = -np.sum(-np.log(np.cosh(R)))
            D = -f.T @ np.tanh(R)
        else:
            raise ValueError('unknown loss type')
        return (loss, D)

    def _h(W):
        """Evaluate value and gradient of acyclicity constraint."""
        M = np.eye(d) + W * W / d
        E = np.linalg.matrix_power(M, d - 1)
        h = (E.T * M).sum() - d
        return (h, E)

    def _adj(w):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (w[:d * d] - w[d * d:]).reshape([d, d])

    def _func(w):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        W = _adj(w)
        loss, D = _loss(W)
        h, E = _h(W)
        obj = loss + 0.5 * rho * h * h + alpha * h + self._lambda1 * w.sum()
        G = D + (rho * h + alpha) * E.T * W * 2
        grad_cat = np.concatenate((G + self._lambda1, -G + self._lambda1), axis=None)
        return (obj, grad_cat)
    n, d = f.shape
    w_est, rho, alpha, h = (np.zeros(2 * d * d), 1.0, 0.0, np.inf)
    bnds = [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)]
    for _ in range(self._max_iter):
        w_new, h_new = (None, None)
        while rho < self._rho_max:
            sol = sopt.minimize(_func, w_est, method='L-BFGS-B', jac=True, bounds=bnds)
            w_new = sol.x
            h_new, _ = _h(_adj(w_new))
            if h_new > 0.25 * h:
                rho *= 10
            else:
                break
        w_est, h = (w_new, h_new)
        alpha += rho * h
        if h <= self._h_tol or rho >= self._rho_max:
            break
    W_est = _adj(w_est)
    W_est[np.abs(W_est) < self._w_threshold] = 0
    return W_est


@defines('C09 C21', 'LiM.fit', observe=['return', 'field:_adjacency_matrix'], opaque=['%_estimate_LiM'], part_of=[])
def part_LiM_fit(self, X, dis_con, only_global=False, is_poisson=False):
    """Fit the model to X with mixed data"""
    W_min_lss = self._estimate_LiM(X, dis_con, only_global, is_poisson)
    self._adjacency_matrix = W_min_lss
    return self._adjacency_matrix


@defines('C09 C21', 'LiM._estimate_LiM', observe=['return'], opaque=[], part_of=['LiM.fit'])
def part_LiM__estimate_LiM(self, X, dis_con, only_global, is_poisson):
    """Estimate the adjacency matrix btw. mixed variables"""
    loss_type = self._loss_type

    def _loss(W):
        """Evaluate value and gradient of loss."""
        M = X @ W
        if loss_type == 'logistic':
            loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
            G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
        elif loss_type == 'poisson':
            loss = -np.sum(X.T @ M) + np.exp(M).sum()
            for j in range(X.shape[0]):
                for k in range(X.shape[1]):
                    loss += np.log(_factorial(X[j][k]))
            loss = 1.0 / X.shape[0] * loss
            G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
        elif loss_type == 'laplace':
            R = X - M
            loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
            G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
        elif loss_type == 'mixed':
            R = X - M
            a1, a2 = (1, 1)
            loss_dis = ((np.logaddexp(0, M) - X * M) * np.absolute(dis_con - 1)).sum()
            loss_con = np.sum(-np.log(np.cosh(R)) * dis_con)
            loss = -1.0 / X.shape[0] * (a1 * loss_dis + a2 * loss_con)
            W_dis = np.zeros([d, d])
            W_con = np.zeros([d, d])
            for ii in np.where(dis_con[0, :] == 0):
                W_dis[[ii], :] = 1
                W_dis[:, [ii]] = 1
            for jj in np.where(dis_con[0, :] == 1):
                W_con[[jj], :] = 1
                W_con[:, [jj]] = 1
            G_dis = X.T @ (sigmoid(M) - X) * W_dis
            G_con = -X.T @ np.tanh(R) * W_con
            G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
        elif loss_type == 'mixed_dag':
            dag = nx.DiGraph(W)
            lingam_data = np.transpose(X)
            df = pd.DataFrame(X)
            is_continuous = dis_con[0, :].astype(bool)
            is_discrete = np.invert(is_continuous)
            loss = -_bic_scoring(dag, is_discrete, is_poisson, df, lingam_data)
            R = X - M
            G_loss = 1.0 / X.shape[0] * (X.T @ (sigmoid(M) - X) - X.T @ np.tanh(R))
        else:
            raise ValueError('unknown loss type')
        return (loss, G_loss)

    def _bic_scoring(dag: nx.DiGraph, is_discrete, is_poisson, df, lingam_data):
        """Evaluate value of loss given the DAG."""
        sample_size = df.shape[0]
        K = dag.number_of_edges() + dag.number_of_nodes()
        penalty = np.log(sample_size) / 2 * K
        total_score = 0.0 - penalty
        for i in dag.nodes:
            parents_i = [j for j in dag.predecessors(i)]
            if is_discrete[i] and is_poisson == False:
                if not parents_i:
                    frequency_table = df[i].value_counts()
                    likekihood_bernoulli = 0.0
                    for count_k in frequency_table:
                        likekihood_bernoulli += count_k * (np.log(count_k) - np.log(frequency_table.sum()))
                    total_score += likekihood_bernoulli
                elif parents_i:
                    X = df[parents_i]
                    y = df[i]
                    logistic = LogisticRegression(solver='lbfgs')
                    logistic.fit(X, y)
                    predict_prob = logistic.predict_proba(X)
                    likekihood_logistic = -log_loss(y_true=y, y_pred=predict_prob, normalize=False)
                    total_score += likekihood_logistic
                pass
            elif is_discrete[i] and is_poisson == True:
                if not parents_i:
                    frequency_table = df[i].value_counts()
                    likekihood_bernoulli = 0.0
                    for count_k in frequency_table:
                        likekihood_bernoulli += count_k * (np.log(count_k) - np.log(frequency_table.sum()))
                    total_score += likekihood_bernoulli
                elif parents_i:
                    for iii in range(len(parents_i)):
                        X = lingam_data[parents_i[iii]]
                        X = X.reshape(-1, 1)
                        y = lingam_data[i]
                        poisson = PoissonRegressor()
                        poisson.fit(X, y)
                        beta = poisson.coef_
                        likekihood_poisson = -np.sum(y * lingam_data[parents_i[iii]] * beta) + np.sum(np.exp(lingam_data[parents_i[iii]] * beta))
                        for j in range(len(y)):
                            likekihood_poisson += np.log(_factorial(y[j]))
                    total_score += likekihood_poisson
            elif not is_discrete[i]:
                b_i = np.zeros(dag.number_of_nodes())
                if parents_i:
                    X = df[parents_i]
                    y = df[i]
                    lr = LinearRegression(fit_intercept=True)
                    lr.fit(X, y)
                    for index, j in enumerate(parents_i):
                        b_i[j] = lr.coef_[index]
                    bi_0 = lr.intercept_
                else:
                    bi_0 = np.mean(df[i])
                likekihood_lingam = ut.likelihood_i(lingam_data, i, b_i, bi_0)
                total_score += likekihood_lingam
                pass
        return total_score

    def _h(W):
        """Evaluate value and gradient of acyclicity constraint."""
        M = np.eye(d) + W * W / d
        G_h = np.linalg.matrix_power(M, d - 1)
        h = (G_h.T * M).sum() - d
        return (h, G_h)

    def _adj(w):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (w[:d * d] - w[d * d:]).reshape([d, d])

    def _func(w):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        W = _adj(w)
        loss, G_loss = _loss(W)
        h, G_h = _h(W)
        obj = loss + 0.5 * rho * h * h + alpha * h + self._lambda1 * w.sum()
        G_smooth = G_loss + (rho * h + alpha) * G_h.T * W * 2
        g_obj = np.concatenate((G_smooth + self._lambda1, -G_smooth + self._lambda1), axis=None)
        return (obj, g_obj)

    def _factorial(y):
        if not isinstance(y, int):
            y = round(y)
        if y == 0 or y == 1 or y < 0:
            return 1
        else:
            return y * _factorial(y - 1)
    n, d = X.shape
    w_est, rho, alpha, h = (np.random.random(2 * d * d), 1.0, 0.0, np.inf)
    bnds = [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)]
    for _ in range(self._max_iter):
        w_new, h_new = (None, None)
        while rho < self._rho_max:
            sol = sopt.minimize(_func, w_est, method='L-BFGS-B', jac=True, bounds=bnds)
            w_new = sol.x
            h_new, _ = _h(_adj(w_new))
            if h_new >= 0.25 * h:
                rho *= 10
            else:
                break
        w_est, h = (w_new, h_new)
        alpha += rho * h
        if h <= self._h_tol and h != 0:
            break
        if rho >= self._rho_max * 1e-06 and h > 100000.0:
            w_est = np.random.random(2 * d * d)
            rho = 1.0
        elif rho >= self._rho_max:
            break
        if np.sum(np.absolute(_adj(w_est))) < 0.09:
            w_est = np.random.random(2 * d * d)
    W_est = _adj(w_est)
    W_est[np.abs(W_est) < self._w_threshold] = 0
    print('W_est (without the 2nd phase) is: \n', W_est)
    if not only_global:
        loss_type = 'mixed_dag'
        aa, aaa = _loss(W_est)
        I = np.where(W_est != 0)
        W_min_lss = np.copy(W_est)
        candi_setting = list(product(range(2), repeat=len(I[0])))
        for candi_setting_i in range(1, len(candi_setting)):
            W_tmp = np.copy(W_est)
            for iii in range(len(I[0])):
                if candi_setting[candi_setting_i][iii] == 1:
                    W_tmp[I[0][iii], I[1][iii]] = 0
                    W_tmp[I[1][iii], I[0][iii]] = 1
            lss, lss_G = _loss(W_tmp)
            if lss < aa and _h(W_tmp)[0] < self._h_tol:
                W_min_lss = np.copy(W_tmp)
                aa = lss
        if d > 2 and len(I[0]) > d - 1:
            W0 = np.copy(W_min_lss)
            I_delete = np.where(W_min_lss != 0)
            for delete_i in range(len(I_delete[0])):
                W_tmp = np.copy(W0)
                W_tmp[I_delete[0][delete_i], I_delete[1][delete_i]] = 0
                lss, lss_G = _loss(W_tmp)
                if lss < aa and _h(W_tmp)[0] < self._h_tol:
                    W_min_lss = np.copy(W_tmp)
                    aa = lss
            if not np.all(W_est.astype(bool) == W_min_lss.astype(bool)):
                W0 = np.copy(W_est)
                for delete_i in range(len(I[0])):
                    W_tmp = np.copy(W0)
                    W_tmp[I[0][delete_i], I[1][delete_i]] = 0
                    lss, lss_G = _loss(W_tmp)
                    if lss < aa and _h(W_tmp)[0] < self._h_tol:
                        W_min_lss = np.copy(W_tmp)
                        aa = lss
        if d > 2 and len(I[0]) < d * (d - 1) / 2:
            W0 = np.copy(W_min_lss)
            W_edges = W0 + W0.T + np.eye(d)
            I_add = np.where(W_edges == 0)
            for add_i in range(len(I_add[0])):
                W_tmp = np.copy(W0)
                W_tmp[I_add[0][add_i], I_add[1][add_i]] = 1
                lss, lss_G = _loss(W_tmp)
                if lss < aa and _h(W_tmp)[0] < self._h_tol:
                    W_min_lss = np.copy(W_tmp)
                    aa = lss
            if not np.all(W_est.astype(bool) == W_min_lss.astype(bool)):
                W0 = np.copy(W_est)
                W_edges = W0 + W0.T + np.eye(d)
                I_add = np.where(W_edges == 0)
                for add_i in range(len(I_add[0])):
                    W_tmp = np.copy(W0)
                    W_tmp[I_add[0][add_i], I_add[1][add_i]] = 1
                    lss, lss_G = _loss(W_tmp)
                    if lss < aa and _h(W_tmp)[0] < self._h_tol:
                        W_min_lss = np.copy(W_tmp)
                        aa = lss
    else:
        W_min_lss = np.copy(W_est)
    return W_min_lss


@defines('C09 C21', 'MDLiNA.fit', observe=['return', 'field:_adjacency_matrix', 'field:_measurement_matrix'], opaque=['%_conh', '%_estimate_MDLiNA_B', '%_estimate_MDLiNA_H'], part_of=[])
def part_MDLiNA_fit(self, X, G_sign, scale):
    """Fit the model to X with measurement structure and latent factors' scales"""
    lam, phi, var_e = cfa(X, G_sign)
    G_est = lam
    f_est = np.linalg.inv(G_est.T @ G_est) @ G_est.T @ X.T
    f_est = f_est.T
    F = np.zeros([f_est.shape[0], f_est.shape[1]])
    for j in range(f_est.shape[1]):
        if j < self._no_of_latent_1domain:
            F[:, j] = f_est[:, j] * scale[0, j]
        else:
            F[:, j] = f_est[:, j] * scale[1, j]
    W0 = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    H0 = np.zeros([self._no_of_latent_1domain * self._no_of_domain, self._no_of_latent_1domain])
    times = 0
    min_like = np.inf
    Likelihood_all = np.zeros([1, 10000])
    while 1:
        H_est = self._estimate_MDLiNA_H(F, W0)
        F_final2 = np.linalg.inv(H_est.T @ H_est) @ H_est.T @ F.T
        W_est = self._estimate_MDLiNA_B(F_final2.T)
        times = times + 1
        print('W_est is:\n', W_est)
        print('W0 is:\n', W0)
        inv_HH = np.linalg.inv(H_est.T @ H_est) @ H_est.T
        P_H = H_est @ inv_HH @ F.T
        LL = np.sum(np.log(np.cosh(F @ H_est - F @ inv_HH.T @ W_est))) + np.abs(W_est).sum() + 10000 * self._conh(W_est)
        recon_error = np.trace((F.T - P_H).T @ (F.T - P_H))
        H1 = np.abs(H_est).sum()
        likelihood_all = LL + recon_error + H1
        Likelihood_all[0, times] = likelihood_all
        if likelihood_all <= min_like:
            min_like = likelihood_all
        if np.abs(Likelihood_all[0, times] - Likelihood_all[0, times - 1]) < 0.1:
            break
        elif times >= 30 and np.abs(likelihood_all - min_like) < 0.1:
            break
        elif times >= 30 and likelihood_all <= min_like:
            break
        elif times >= 50 and np.abs(likelihood_all - np.min(Likelihood_all[0, times - 20:times - 1])) < 0.1:
            break
        elif times >= 50 and likelihood_all <= np.min(Likelihood_all[0, times - 20:times - 1]):
            break
        else:
            W0 = W_est
            H0 = H_est
    if np.where(H_est != 0)[0].shape[0] == 0:
        H_est = H0
    if np.where(W_est != 0)[0].shape[0] == 0:
        W_est = W0
    tt = 0
    if tt == 0:
        Weight = np.abs(H_est)
        W = W_est
    else:
        Weight = np.abs(H_est)
        W = W0
    BB = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    for i in range(self._no_of_latent_1domain):
        for j in range(self._no_of_latent_1domain):
            BB[j, i] = np.abs(Weight[j, i]) + np.abs(Weight[j + self._no_of_latent_1domain, i])
    order = np.zeros([1, self._no_of_latent_1domain])
    if len(np.where(BB == 0)) == 0:
        for i in range(self._no_of_latent_1domain):
            indice = np.where(BB == np.amax(BB))
            order[0, indice[1]] = indice[0]
            BB[indice[0], :] = 0
            BB[:, indice[1]] = 0
    else:
        indice = np.where(BB == 0)
        BB[:, indice[1]] = BB[:, indice[1]] + 0.01
        for i in range(self._no_of_latent_1domain):
            indice = np.where(BB == np.amax(BB))
            if len(indice[0]) > 1:
                order[0, indice[1][0]] = indice[0][0]
                BB[indice[0][0], :] = 0
                BB[:, indice[1][0]] = 0
            else:
                order[0, indice[1]] = indice[0]
                BB[indice[0], :] = 0
                BB[:, indice[1]] = 0
    W_est_new0 = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    W_est_new = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    for i in range(self._no_of_latent_1domain):
        indice = np.where(order == i)
        W_est_new0[[i], :] = W[indice[1], :]
    for i in range(self._no_of_latent_1domain):
        indice = np.where(order == i)
        W_est_new[:, [i]] = W_est_new0[:, indice[1]]
    self._adjacency_matrix = W_est_new
    self._measurement_matrix = G_est
    return self._adjacency_matrix


@defines('C09 C21', 'MDLiNA._estimate_MDLiNA_H', observe=['return', 'field:_H_est'], opaque=[], part_of=['MDLiNA.fit'])
def part_MDLiNA__estimate_MDLiNA_H(self, f, W):
    """Optimize H matrix btw. multi-domain latent factors and latent factors of interest"""

    def _loss(H):
        """Evaluate value and gradient of loss."""
        inv_HH = np.linalg.inv(H.T @ H)
        fH = f @ H
        M = fH @ inv_HH @ W
        if self._loss_type == 'l2':
            R = f - M
            loss = 0.5 / f.shape[0] * (R ** 2).sum()
            D = -1.0 / f.shape[0] * f.T @ R
        elif self._loss_type == 'laplace':
            R = fH @ inv_HH - M
            for j in range(hq):
                R[:, j] = R[:, j] - np.mean(R[:, j])
                R[:, j] = R[:, j] / np.std(R[:, j])
            if np.trace(H.T @ H) < 10000:
                aa = np.trace(H.T @ H)
                D = -f.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) @ inv_HH + H @ inv_HH @ inv_HH @ fH.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) + H @ inv_HH @ inv_HH @ (np.eye(np.size(H, 1)) - W).T @ np.tanh(R).T @ fH - 2 * f.T @ fH @ inv_HH + 2 * H @ inv_HH @ fH.T @ fH @ inv_HH
            else:
                aa = 0
                D = -f.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) @ inv_HH + H @ inv_HH @ inv_HH @ fH.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) + H @ inv_HH @ inv_HH @ (np.eye(np.size(H, 1)) - W).T @ np.tanh(R).T @ fH - 2 * f.T @ fH @ inv_HH + 2 * H @ inv_HH @ fH.T @ fH @ inv_HH + 2 * H
            loss = np.sum(np.log(np.cosh(R))) + np.trace((f - fH @ inv_HH @ H.T).T @ (f - fH @ inv_HH @ H.T)) + (np.trace(H.T @ H) - aa)
        else:
            raise ValueError('unknown loss type')
        return (loss, D)

    def _adj(h):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (h[:hq * q] - h[hq * q:]).reshape([q, hq])

    def _func(h):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        H = _adj(h)
        loss, D = _loss(H)
        obj = loss + self._lambda1 * h.sum()
        G = D
        grad_cat = np.concatenate((G + self._lambda1, -G + self._lambda1), axis=None)
        return (obj, grad_cat)
    n, q = f.shape
    hq = np.size(W, 0)
    h_est, score_0 = (np.random.rand(2 * hq * q), np.inf)
    for _ in range(self._max_iter):
        sol = sopt.minimize(_func, h_est, method='BFGS', jac=True)
        h_new = sol.x
        score_1 = sol.fun
        if np.abs(score_0 - score_1) < self._h_tol:
            break
        if score_1 > 0 and score_1 < score_0:
            h_est = h_new
            score_0 = score_1
            bb = _adj(h_est)
            bb[np.abs(bb) < self._w_threshold] = 0
            if np.linalg.det(bb.T @ bb) == 0:
                h_est[0:8] = h_est[0:8] + 0.1
            if np.max(np.abs(h_est)) > 100:
                h_est = np.random.rand(2 * hq * q)
                score_0 = np.inf
        else:
            h_est = np.random.rand(2 * hq * q)
    h_est = h_new
    H_est = _adj(h_est)
    H_est[np.abs(H_est) < self._w_threshold] = 0
    self._H_est = H_est
    return self._H_est


@defines('C09 C21', 'MDLiNA._estimate_MDLiNA_B', observe=['return', 'field:_W_est'], opaque=[], part_of=['MDLiNA.fit'])
def part_MDLiNA__estimate_MDLiNA_B(self, f):
    """Optimize the causal effect matrix among shared latent factors"""

    def _loss(W):
        """Evaluate value and gradient of loss."""
        M = f @ W
        if self._loss_type == 'l2':
            R = f - M
            loss = 0.5 / f.shape[0] * (R ** 2).sum()
            D = -1.0 / f.shape[0] * f.T @ R
        elif self._loss_type == 'logistic':
            loss = 1.0 / f.shape[0] * (np.logaddexp(0, M) - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (sigmoid(M) - f)
        elif self._loss_type == 'poisson':
            S = np.exp(M)
            loss = 1.0 / f.shape[0] * (S - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (S - f)
        elif self._loss_type == 'laplace':
            R = f - M
            loss = -np.sum(-np.log(np.cosh(R)))
            D = -f.T @ np.tanh(R)
        else:
            raise ValueError('unknown loss type')
        return (loss, D)

    def _h(W):
        """Evaluate value and gradient of acyclicity constraint."""
        M = np.eye(d) + W * W / d
        E = np.linalg.matrix_power(M, d - 1)
        h = (E.T * M).sum() - d
        return (h, E)

    def _adj(w):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (w[:d * d] - w[d * d:]).reshape([d, d])

    def _func(w):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        W = _adj(w)
        loss, D = _loss(W)
        h, E = _h(W)
        obj = loss + 0.5 * rho * h * h + alpha * h + self._lambda1 * w.sum()
        G = D + (rho * h + alpha) * E.T * W * 2
        grad_cat = np.concatenate((G + self._lambda1, -G + self._lambda1), axis=None)
        return (obj, grad_cat)
    n, d = f.shape
    w_est, rho, alpha, h = (np.zeros(2 * d * d), 1.0, 0.0, np.inf)
    bnds = [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)]
    for _ in range(self._max_iter):
        w_new, h_new = (None, None)
        while rho < self._rho_max:
            sol = sopt.minimize(_func, w_est, method='L-BFGS-B', jac=True, bounds=bnds)
            w_new = sol.x
            h_new, _ = _h(_adj(w_new))
            if h_new > 0.25 * h:
                rho *= 10
            else:
                break
        w_est, h = (w_new, h_new)
        alpha += rho * h
        if h <= self._h_tol or rho >= self._rho_max:
            break
    W_est = _adj(w_est)
    W_est[np.abs(W_est) < self._w_threshold] = 0
    self._W_est = W_est
    return self._W_est


@defines('C09 C21', 'MDLiNA._conh', observe=['return'], opaque=[], part_of=['MDLiNA.fit'])
def part_MDLiNA__conh(self, W):
    """Evaluate value of acyclicity constraint"""
    d = self._no_of_latent_1domain
    M = np.eye(d) + W * W / d
    E = np.linalg.matrix_power(M, d - 1)
    h = (E.T * M).sum() - d
    return h


@defines('C23', 'visualize_nonlinear_causal_effect', observe=['return'], opaque=['utils._visualize_nonlinear_causal_effect:_calculate', 'utils._visualize_nonlinear_causal_effect:_check_estimator', 'utils._visualize_nonlinear_causal_effect:_draw', 'utils._visualize_nonlinear_causal_effect:_is_adjacency_matrix', 'utils._visualize_nonlinear_causal_effect:_is_bootstrap_result'], part_of=[])
def part_visualize_nonlinear_causal_effect(X, cd_result, estimator, cause_name, effect_name, cause_positions=None, percentile=None, fig=None, boxplot=False):
    """Visualize non-linear causal effect"""
    if not isinstance(X, pd.DataFrame):
        raise TypeError('X must be pandas.DataFrame.')
    if not _is_bootstrap_result(cd_result) and (not _is_adjacency_matrix(cd_result, X.shape[1])):
        raise TypeError('cd_result must be lingam.bootstrap.BootstrapResult or array-like.')
    if cause_name not in X.columns:
        raise ValueError('cause_name is not exsit in X.columns.')
    if X[cause_name].dtype == 'category':
        raise ValueError('cause_name must not be categorical.')
    if effect_name not in X.columns:
        raise ValueError('effect_name is not exsit in X.columns.')
    is_discrete = X[effect_name].dtype == 'category'
    _check_estimator(estimator, is_discrete)
    if cause_positions is not None:
        cause_positions = check_array(cause_positions, dtype=None, ensure_2d=False).flatten()
        if None in cause_positions:
            raise TypeError('cause_positions must not include None.')
    if percentile is not None:
        if not isinstance(percentile, list) or len(percentile) != 3:
            raise TypeError('percentile must be a list of 3 floats.')
        if not all(map(lambda x: 0 <= x and x <= 100, percentile)):
            raise TypeError('Elements of percentile must be between 0 and 100 inclusive.')
    if fig is not None:
        if not isinstance(fig, Figure):
            raise TypeError('fig must be matplotlib.figure.Figure.')
    if cause_positions is None:
        cause_positions = np.linspace(X[cause_name].min(), X[cause_name].max(), 10)
    if fig is None:
        fig = plt.figure()
    cause_index = list(X.columns).index(cause_name)
    effect_index = list(X.columns).index(effect_name)
    effect_classes = [None] if not is_discrete else np.unique(X[effect_name])
    if percentile is None:
        percentile = (95, 50, 5)
    if _is_bootstrap_result(cd_result):
        adj_matrices = cd_result.adjacency_matrices_
        index_list = cd_result.resampled_indices_
        if index_list is None:
            index_list = [np.arange(len(X))] * len(adj_matrices)
        disable_percentile = False
    else:
        adj_matrices = [cd_result]
        index_list = [np.arange(len(X))]
        disable_percentile = True
    effect_info = _calculate(effect_classes, adj_matrices, index_list, cause_index, effect_index, estimator, cause_positions, X, is_discrete)
    fig = _draw(effect_info, cause_positions, percentile, fig, cause_name, effect_name, boxplot, disable_percentile)
    return fig


@defines('C23', 'utils._visualize_nonlinear_causal_effect:_is_bootstrap_result', observe=['return'], opaque=[], part_of=['visualize_nonlinear_causal_effect'])
def part_utils__visualize_nonlinear_causal_effect__is_bootstrap_result(cd_result):
    """is bootstrap result"""
    name = type(cd_result).__module__ + '.' + type(cd_result).__name__
    if name != 'lingam.bootstrap.BootstrapResult':
        return False
    return True


@defines('C23', 'utils._visualize_nonlinear_causal_effect:_calculate', observe=['return', 'call:.fit'], opaque=[], part_of=['visualize_nonlinear_causal_effect'])
def part_utils__visualize_nonlinear_causal_effect__calculate(effect_classes, adj_matrices, index_list, cause_index, effect_index, estimator, cause_positions, X, is_discrete):
    """calculate"""
    effect_info = {effect_class: {} for effect_class in effect_classes}
    for c in effect_info.keys():
        effect_info[c] = {p: [] for p in cause_positions}
    for m, sub_index in zip(adj_matrices, index_list):
        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
        covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
        exp = np.sort([cause_index] + covariate.tolist())
        exp = np.delete(exp, np.argwhere(exp == effect_index))
        X_exp = pd.get_dummies(X.iloc[sub_index, exp])
        X_obj = X.iloc[sub_index, effect_index]
        estimator.fit(X_exp, X_obj)
        for interv_val in cause_positions:
            X_ = X.iloc[sub_index, :].copy()
            X_.iloc[:, cause_index] = interv_val
            X_exp2 = pd.get_dummies(X_.iloc[:, exp])
            if not is_discrete:
                effect_values = estimator.predict(X_exp2)
                v = np.mean(effect_values)
                effect_info[None][interv_val].append(v)
            else:
                effect_values = estimator.predict_proba(X_exp2)
                for i, c in enumerate(estimator.classes_):
                    v = np.mean(effect_values[:, i])
                    effect_info[c][interv_val].append(v)
    return effect_info


@defines('C23', 'utils._visualize_nonlinear_causal_effect:_draw', observe=['return', 'call:.add_subplot', 'call:.scatter', 'call:.boxplot', 'call:.set_xlabel', 'call:.set_ylabel', 'call:.set_ylim', 'call:.set_title', 'call:.plot'], opaque=[], part_of=['visualize_nonlinear_causal_effect'])
def part_utils__visualize_nonlinear_causal_effect__draw(effect_info, cause_positions, percentile, fig, cause_name, effect_name, is_box, disable_percentile):
    """draw"""
    if disable_percentile is False:
        alpha = 0.5
        colors = ['red', 'green', 'blue']
    else:
        percentile = [50]
        alpha = 1.0
        colors = ['green']
    for i in range(len(effect_info)):
        fig.add_subplot(1, len(effect_info), i + 1)
    axes = np.array(fig.get_axes()).flatten()
    for ax, (class_name, effects) in zip(axes, effect_info.items()):
        per_plot = {per: [] for per in percentile}
        for interv_val, values in effects.items():
            if not is_box:
                ax.scatter(interv_val * np.ones(len(values)), values, color='black', alpha=alpha, facecolor='none')
            else:
                ax.boxplot(values, positions=[interv_val], manage_ticks=False)
            per_points = np.percentile(values, percentile)
            for per_point, percentile_ in zip(per_points, percentile):
                per_plot[percentile_].append(per_point)
        ax.set_xlabel(cause_name)
        if class_name is None:
            ax.set_ylabel(f'causal effect {effect_name}')
        else:
            ax.set_ylim(-0.05, 1.05)
            ax.set_title(f'class {class_name}')
            ax.set_ylabel('probability')
        for (per, values), color in zip(per_plot.items(), colors):
            label = f'{per}%' if disable_percentile is False else None
            ax.plot(cause_positions, values, color=color, label=label)
    return fig


@defines('C23', 'utils._visualize_nonlinear_causal_effect:_is_adjacency_matrix', observe=['return'], opaque=[], part_of=['visualize_nonlinear_causal_effect'])
def part_utils__visualize_nonlinear_causal_effect__is_adjacency_matrix(cd_result, col_num):
    """is adjacency matrix"""
    check_array(cd_result)
    if cd_result.shape[0] != col_num or cd_result.shape[1] != col_num:
        return False
    return True


@defines('C15', 'f_correlation', observe=['return'], opaque=['utils._f_correlation:_incomplete_cholesky', 'utils._f_correlation:_svd'], part_of=[])
def part_f_correlation(x, y):
    """Implementation of F-correlation [2]_"""
    x_ = check_array(x, ensure_2d=False)
    y_ = check_array(y, ensure_2d=False)
    n = x_.shape[0]
    if y_.shape[0] != n:
        raise ValueError('x and y must be the same size.')
    x_ = (x_ - x_.mean()) / x_.std()
    y_ = (y_ - y_.mean()) / y_.std()
    X = [x_, y_]
    m = len(X)
    if n > 1000:
        kappa, sigma = [0.002, 0.5]
    else:
        kappa, sigma = [0.02, 1.0]
    Rs = []
    Us = []
    sizes = []
    for i in range(m):
        G, P = _incomplete_cholesky(X[i], sigma, n * kappa * 0.01)
        G = G[np.argsort(P), :]
        G = G - np.tile(np.mean(G, axis=0), (len(G), 1))
        R, U = _svd(G, n, kappa)
        Rs.append(R)
        Us.append(U)
        sizes.append(R.shape[0])
    R_kappa = np.eye(sum(sizes))
    st = np.cumsum(np.hstack([0, sizes]))
    st = st[:m]
    for i in range(1, m):
        for j in range(0, i):
            RUUR = np.diag(Rs[i]) @ (Us[i].T @ Us[j]) @ np.diag(Rs[j])
            R_kappa[st[i]:st[i] + sizes[i], st[j]:st[j] + sizes[j]] = RUUR
            R_kappa[st[j]:st[j] + sizes[j], st[i]:st[i] + sizes[i]] = RUUR.T
    w, _ = eigsh(R_kappa, 1, which='SM')
    return 1 - w[0]


@defines('C15', 'utils._f_correlation:_incomplete_cholesky', observe=['return'], opaque=['utils._f_correlation:_squared_dist'], part_of=['f_correlation'])
def part_utils__f_correlation__incomplete_cholesky(x, sigma, tol):
    """Incomplete cholesky decomposition of the gram matrix with the gaussian kernel"""
    n = x.shape[0]
    i = 0
    Gjj = np.ones(n)
    G = np.empty((n, 0))
    P = np.array([i for i in range(n)])
    while np.sum(Gjj[i:n]) > tol:
        G = np.append(G, np.zeros((n, 1)), axis=1)
        if i > 0:
            jast = np.argmax(Gjj[i:n])
            jast = jast + i
            P[[i, jast]] = P[[jast, i]]
            G[[i, jast], :i] = G[[jast, i], :i]
        else:
            jast = 0
        G[i, i] = Gjj[jast]
        G[i, i] = np.sqrt(G[i, i])
        if i < n:
            dist = _squared_dist(x[P[i + 1:n]], x[[P[i]]])
            K = np.exp(-0.5 / sigma ** 2 * dist)
            if i > 0:
                sigG = G[i + 1:n, 0:i] @ G[i, 0:i].reshape(-1, 1)
                G[i + 1:n, [i]] = 1 / G[i, i] * (K - sigG)
            else:
                G[i + 1:n, [i]] = 1 / G[i, i] * K
        if i < n:
            Gjj[i + 1:n] = np.ones(n - (i + 1)) - np.sum(G[i + 1:n, 0:i + 1] ** 2, axis=1)
        i = i + 1
    return (G, P)


@defines('C15', 'utils._f_correlation:_svd', observe=['return'], opaque=[], part_of=['f_correlation'])
def part_utils__f_correlation__svd(G, n, kappa):
    """Singular value decomposition"""
    eta = kappa * 0.01
    D, A = eigh(G.T @ G)
    indexes = np.where(D >= n * eta)[0]
    order = np.argsort(D[indexes])
    order = order[::-1]
    indexes = indexes[order[0:len(indexes)]]
    D = D[indexes]
    U = G @ (A[:, indexes] @ np.diag(np.sqrt(1.0 / D)))
    R = D
    for j in range(len(D)):
        R[j] = D[j] / (n * kappa / 2 + D[j])
    return (R, U)


@defines('C15', 'utils._f_correlation:_squared_dist', observe=['return'], opaque=[], part_of=['f_correlation'])
def part_utils__f_correlation__squared_dist(x, y):
    """Squared euclidean distance matrix"""
    xx = x * x
    yy = y * y
    xy = x.reshape(-1, 1) * y
    xx = np.tile(xx.reshape(-1, 1), (1, len(yy)))
    yy = np.tile(yy, (len(xx), 1))
    return np.abs(xx + yy - 2 * xy)


@defines('C15', 'get_gram_matrix', observe=['return'], opaque=['hsic:_rbf_dot'], part_of=[])
def part_get_gram_matrix(X, width):
    """Get the centered gram matrices"""
    n = X.shape[0]
    K = _rbf_dot(X, width)
    K_colsums = K.sum(axis=0)
    K_rowsums = K.sum(axis=1)
    K_allsum = K_rowsums.sum()
    Kc = K - (K_colsums[None, :] + K_rowsums[:, None]) / n + K_allsum / n ** 2
    return (K, Kc)


@defines('C15', 'hsic:_rbf_dot', observe=['return'], opaque=[], part_of=['get_gram_matrix'])
def part_hsic__rbf_dot(X, width):
    """rbf dot, in special case with X dot X"""
    G = np.sum(X * X, axis=1)
    H = G[None, :] + G[:, None] - 2 * np.dot(X, X.T)
    return np.exp(-H / 2 / width ** 2)


@defines('C19', 'utils._rcd:extract_ancestors', observe=['return'], opaque=['utils._rcd:exists_ancestor_in_U', 'utils._rcd:get_common_ancestors', 'utils._rcd:get_residual_matrix', 'utils._rcd:is_correlated', 'utils._rcd:is_independent_of_resid', 'utils._rcd:is_non_gaussianity'], part_of=[])
def part_utils__rcd_extract_ancestors(X, max_explanatory_num=2, cor_alpha=0.01, ind_alpha=0.01, shapiro_alpha=0.01, MLHSICR=True, bw_method='mdbs'):
    """Extract a set of ancestors of each variable"""
    n_features = X.shape[1]
    M = [set() for i in range(n_features)]
    l = 1
    hu_history = {}
    X = check_array(X)
    while True:
        changed = False
        U_list = itertools.combinations(range(n_features), l + 1)
        U_list = [sorted(list(U)) for U in U_list]
        for U in U_list:
            H_U = get_common_ancestors(M, U)
            if tuple(U) in hu_history and H_U == hu_history[tuple(U)]:
                continue
            Y = get_residual_matrix(X, U, H_U)
            if not is_non_gaussianity(Y, U, shapiro_alpha):
                continue
            is_cor = True
            for xi, xj in itertools.combinations(U, 2):
                if not is_correlated(Y[:, xi], Y[:, xj], cor_alpha):
                    is_cor = False
                    break
            if not is_cor:
                continue
            sink_set = []
            for xi in U:
                xj_list = list(set(U) - set([xi]))
                if exists_ancestor_in_U(M, U, xi, xj_list):
                    continue
                if is_independent_of_resid(Y, xi, xj_list, ind_alpha, bw_method, MLHSICR):
                    sink_set.append(xi)
            if len(sink_set) == 1:
                xi = sink_set[0]
                xj_list = list(set(U) - set(sink_set))
                if not M[xi] == M[xi] | set(xj_list):
                    M[xi] = M[xi] | set(xj_list)
                    changed = True
            hu_history[tuple(U)] = H_U
        if changed:
            l = 1
        elif l < max_explanatory_num:
            l += 1
        else:
            break
    return M


@defines('C19', 'utils._rcd:get_common_ancestors', observe=['return'], opaque=[], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_get_common_ancestors(M, U):
    """Get the set of common ancestors of U"""
    Mj_list = [M[xj] for xj in U]
    return set.intersection(*Mj_list)


@defines('C19', 'utils._rcd:get_residual_matrix', observe=['return'], opaque=['utils._rcd:get_resid_and_coef'], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_get_residual_matrix(X, U, H_U):
    """get residual matrix"""
    if len(H_U) == 0:
        return X
    Y = np.zeros_like(X)
    for xj in U:
        Y[:, xj], _ = get_resid_and_coef(X, xj, list(H_U))
    return Y


@defines('C19', 'utils._rcd:is_non_gaussianity', observe=['return'], opaque=[], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_is_non_gaussianity(Y, U, alpha):
    """Test whether a variable is generated from a non-Gaussian process using the Shapiro-Wilk test"""
    for xj in U:
        if shapiro(Y[:, xj])[1] > alpha:
            return False
    return True


@defines('C19', 'utils._rcd:exists_ancestor_in_U', observe=['return'], opaque=[], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_exists_ancestor_in_U(M, U, xi, xj_list):
    """exists ancestor in U"""
    for xj in xj_list:
        if xi in M[xj]:
            return True
    if set(xj_list) == set(xj_list) & M[xi]:
        return True
    return False


@defines('C19', 'utils._rcd:is_independent_of_resid', observe=['return'], opaque=['utils._rcd:get_resid_and_coef', 'utils._rcd:get_resid_and_coef_by_MLHSICR', 'utils._rcd:is_independent'], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_is_independent_of_resid(Y, xi, xj_list, alpha, bw_method, MLHSICR):
    """Check whether the residuals obtained from multiple regressions are independent"""
    n_samples = Y.shape[0]
    is_all_independent = True
    resid, _ = get_resid_and_coef(Y, xi, xj_list)
    for xj in xj_list:
        if not is_independent(np.reshape(resid, [n_samples, 1]), np.reshape(Y[:, xj], [n_samples, 1]), bw_method, alpha):
            is_all_independent = False
            break
    if is_all_independent:
        return True
    elif len(xj_list) == 1 or MLHSICR is False:
        return False
    resid, _ = get_resid_and_coef_by_MLHSICR(Y, xi, xj_list)
    for xj in xj_list:
        if not is_independent(np.reshape(resid, [n_samples, 1]), np.reshape(Y[:, xj], [n_samples, 1]), bw_method, alpha):
            return False
    return True


@defines('C19', 'utils._rcd:is_correlated', observe=['return'], opaque=[], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_is_correlated(a, b, alpha):
    """Estimate that the two variables are linearly correlated using the Pearson's correlation"""
    return pearsonr(a, b)[1] < alpha


@defines('C19', 'utils._rcd:get_resid_and_coef', observe=['return'], opaque=[], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_get_resid_and_coef(X, endog_idx, exog_idcs):
    """Get the residuals and coefficients of the ordinary least squares method"""
    lr = LinearRegression()
    lr.fit(X[:, exog_idcs], X[:, endog_idx])
    resid = X[:, endog_idx] - lr.predict(X[:, exog_idcs])
    return (resid, lr.coef_)


@defines('C19', 'utils._rcd:get_resid_and_coef_by_MLHSICR', observe=['return'], opaque=['hsic:get_gram_matrix', 'hsic:get_kernel_width', 'hsic:hsic_teststat', 'utils._rcd:get_resid_and_coef'], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_get_resid_and_coef_by_MLHSICR(Y, xi, xj_list):
    """Get the residuals and coefficients by minimizing the sum of HSICs using the L-BFGS method"""
    n_samples = Y.shape[0]
    width_list = []
    Lc_list = []
    for xj in xj_list:
        yj = np.reshape(Y[:, xj], [n_samples, 1])
        width_xj = get_kernel_width(yj)
        _, Lc = get_gram_matrix(yj, width_xj)
        width_list.append(width_xj)
        Lc_list.append(Lc)
    _, initial_coef = get_resid_and_coef(Y, xi, xj_list)
    width_xi = get_kernel_width(np.reshape(Y[:, xi], [n_samples, 1]))

    def sum_empirical_hsic(coef):
        resid = Y[:, xi]
        width = width_xi
        for j, xj in enumerate(xj_list):
            resid = resid - coef[j] * Y[:, xj]
            width = width - coef[j] * width_list[j]
        _, Kc = get_gram_matrix(np.reshape(resid, [n_samples, 1]), width)
        objective = 0.0
        for j, xj in enumerate(xj_list):
            objective += hsic_teststat(Kc, Lc_list[j], n_samples)
        return objective
    coefs, _, _ = fmin_l_bfgs_b(func=sum_empirical_hsic, x0=initial_coef, approx_grad=True)
    resid = Y[:, xi]
    for j, xj in enumerate(xj_list):
        resid = resid - coefs[j] * Y[:, xj]
    return (resid, coefs)


@defines('C19', 'utils._rcd:is_independent', observe=['return'], opaque=['hsic:hsic_test_gamma'], part_of=['utils._rcd:extract_ancestors'])
def part_utils__rcd_is_independent(X, Y, bw_method, alpha):
    """is independent"""
    _, p = hsic_test_gamma(X, Y, bw_method=bw_method)
    return p > alpha
