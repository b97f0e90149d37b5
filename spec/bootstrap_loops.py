"""Bootstrapping: one fit per resample of the rows, stored at its own position as [sample, to, from]."""
import numbers
import numpy as np
from sklearn.utils import check_array, resample
from lingam.utils import calculate_total_effect
from lingam.bootstrap import BootstrapResult
from lingam.var_lingam import VARBootstrapResult
from sklearn.utils import check_random_state
from lingam.varma_lingam import VARMABootstrapResult
from lingam.longitudinal_lingam import LongitudinalBootstrapResult
from sklearn.utils import check_scalar
from lingam.tools import BaseMultipleImputation, BaseMultiGroupCDModel, _DefaultMultipleImputation, _DefaultMultiGroupCDModel


@defines('C11', 'DirectLiNGAM.bootstrap', 'ICALiNGAM.bootstrap', 'HighDimDirectLiNGAM.bootstrap', 'RESIT.bootstrap', opaque=['calculate_total_effect', '%fit'])
def DirectLiNGAM_bootstrap(self, X, n_sampling):
    """each resample is fitted anew and stored at its own position; effects follow the fitted order"""
    X = check_array(X)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    adjacency_matrices = np.zeros([n_sampling, X.shape[1], X.shape[1]])
    total_effects = np.zeros([n_sampling, X.shape[1], X.shape[1]])
    index = np.arange(X.shape[0])
    resampled_indices = []
    for i in range(n_sampling):
        resampled_X, resampled_index = resample(X, index)
        self.fit(resampled_X)
        adjacency_matrices[i] = self.adjacency_matrix_
        for c, from_ in enumerate(self.causal_order_):
            for to in self.causal_order_[c + 1:]:
                total_effects[i, to, from_] = calculate_total_effect(self.adjacency_matrix_, from_, to)
        resampled_indices.append(resampled_index)
    return BootstrapResult(adjacency_matrices, total_effects, resampled_indices=resampled_indices)


@defines('C11', 'BottomUpParceLiNGAM.bootstrap', opaque=['calculate_total_effect', '%fit', '%estimate_total_effect', '%estimate_total_effect2'])
def BottomUpParceLiNGAM_bootstrap(self, X, n_sampling):
    """each resample is fitted anew and stored at its own position; effects follow the fitted order"""
    X = check_array(X)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    adjacency_matrices = np.zeros([n_sampling, X.shape[1], X.shape[1]])
    total_effects = np.zeros([n_sampling, X.shape[1], X.shape[1]])
    for i in range(n_sampling):
        resampled_X = resample(X)
        self.fit(resampled_X)
        adjacency_matrices[i] = self.adjacency_matrix_
        for c, from_ in enumerate(self.causal_order_):
            for to in self.causal_order_[c + 1:]:
                if hasattr(from_, '__iter__'):
                    for from_item in from_:
                        total_effects[i, to, from_item] = self.estimate_total_effect2(from_item, to)
                else:
                    total_effects[i, to, from_] = self.estimate_total_effect2(from_, to)
    return BootstrapResult(adjacency_matrices, total_effects)


@defines('C11', 'RCD.bootstrap', opaque=['calculate_total_effect', '%fit', '%estimate_total_effect', '%estimate_total_effect2'])
def RCD_bootstrap(self, X, n_sampling):
    """each resample is fitted anew and stored at its own position; effects follow the fitted order"""
    X = check_array(X)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    adjacency_matrices = np.zeros([n_sampling, X.shape[1], X.shape[1]])
    total_effects = np.zeros([n_sampling, X.shape[1], X.shape[1]])
    for i in range(n_sampling):
        resampled_X = resample(X)
        self.fit(resampled_X)
        adjacency_matrices[i] = self.adjacency_matrix_
        for to, ancestors in enumerate(self.ancestors_list_):
            for from_ in ancestors:
                total_effects[i, to, from_] = self.estimate_total_effect2(from_, to)
    return BootstrapResult(adjacency_matrices, total_effects)


def MultiGroupRCD_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._k = len(X_list)
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C11 C13', 'MultiGroupRCD.bootstrap', opaque=['calculate_total_effect', '%fit', '%estimate_total_effect', '%estimate_total_effect2'])
def MultiGroupRCD_bootstrap(self, X_list, n_sampling):
    """every dataset is resampled; one result per dataset"""
    X_list = MultiGroupRCD_check_X_list(self, X_list)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    adjacency_matrices_list = np.zeros([len(X_list), n_sampling, self._n_features, self._n_features])
    total_effects_list = np.zeros([len(X_list), n_sampling, self._n_features, self._n_features])
    for n in range(n_sampling):
        resampled_X_list = [resample(X) for X in X_list]
        self.fit(resampled_X_list)
        for i, am in enumerate(self.adjacency_matrices_):
            adjacency_matrices_list[i][n] = am
        for to, ancestors in enumerate(self.ancestors_list_):
            for from_ in ancestors:
                effects = self.estimate_total_effect2(from_, to)
                for i, effect in enumerate(effects):
                    total_effects_list[i, n, to, from_] = effect
    result_list = []
    for am, te in zip(adjacency_matrices_list, total_effects_list):
        result_list.append(BootstrapResult(am, te))
    return result_list


def MultiGroupDirectLiNGAM_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C11 C13', 'MultiGroupDirectLiNGAM.bootstrap', opaque=['calculate_total_effect', '%fit', '%estimate_total_effect', '%estimate_total_effect2'])
def MultiGroupDirectLiNGAM_bootstrap(self, X_list, n_sampling):
    """every dataset is resampled; one result per dataset"""
    X_list = MultiGroupDirectLiNGAM_check_X_list(self, X_list)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    adjacency_matrices_list = np.zeros([len(X_list), n_sampling, self._n_features, self._n_features])
    total_effects_list = np.zeros([len(X_list), n_sampling, self._n_features, self._n_features])
    for n in range(n_sampling):
        resampled_X_list = [resample(X) for X in X_list]
        self.fit(resampled_X_list)
        for i, am in enumerate(self.adjacency_matrices_):
            adjacency_matrices_list[i][n] = am
        for c, from_ in enumerate(self.causal_order_):
            for to in self.causal_order_[c + 1:]:
                effects = self.estimate_total_effect2(from_, to)
                for i, effect in enumerate(effects):
                    total_effects_list[i, n, to, from_] = effect
    result_list = []
    for am, te in zip(adjacency_matrices_list, total_effects_list):
        result_list.append(BootstrapResult(am, te))
    return result_list


@defines('C11 C16', 'VARLiNGAM.bootstrap', opaque=['calculate_total_effect', '%fit', '%_fit', '%estimate_total_effect', '%estimate_total_effect2'])
def VARLiNGAM_bootstrap(self, X, n_sampling):
    """residuals resampled and the series regenerated from the fitted lags"""
    X = check_array(X)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    n_samples = X.shape[0]
    n_features = X.shape[1]
    lags = self._lags
    self._fit(X, None)
    fitted_ar_coefs = self._fitted_ar_coefs
    fitted_residuals = self.residuals_
    total_effects = np.zeros([n_sampling, n_features, n_features * (1 + self._fitted_lags)])
    adjacency_matrices = []
    for i in range(n_sampling):
        sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
        resampled_X = np.zeros((n_samples, n_features))
        for j in range(n_samples):
            if j < lags:
                resampled_X[j, :] = sampled_residuals[j]
                continue
            ar = np.zeros((1, n_features))
            for t, M in enumerate(fitted_ar_coefs):
                ar += np.dot(M, resampled_X[j - t - 1, :].T).T
            resampled_X[j, :] = ar + sampled_residuals[j]
        self._fit(resampled_X, None)
        am = np.concatenate([*self.adjacency_matrices_], axis=1)
        adjacency_matrices.append(am)
        for c, to in enumerate(reversed(self.causal_order_)):
            for from_ in self.causal_order_[:n_features - (c + 1)]:
                total_effects[i, to, from_] = self.estimate_total_effect2(n_features, from_, to)
            for lag in range(self._fitted_lags):
                for from_ in range(n_features):
                    total_effects[i, to, from_ + n_features * (lag + 1)] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
    return VARBootstrapResult(adjacency_matrices, total_effects)


@defines('C11 C16', 'VARMALiNGAM.bootstrap', opaque=['calculate_total_effect', '%fit', '%_fit', '%estimate_total_effect', '%estimate_total_effect2'])
def VARMALiNGAM_bootstrap(self, X, n_sampling):
    """residuals resampled and the series regenerated from the fitted lags"""
    X = check_array(X)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    n_samples = X.shape[0]
    n_features = X.shape[1]
    p, q = self._order
    self._fit(X, None)
    fitted_ar_coefs = self._fitted_ar_coefs
    fitted_ma_coefs = self._fitted_ma_coefs
    fitted_residuals = self.residuals_
    total_effects = np.zeros([n_sampling, n_features, n_features * (1 + p)])
    adjacency_matrices = []
    for i in range(n_sampling):
        sampled_residuals = resample(fitted_residuals, n_samples=n_samples)
        resampled_X = np.zeros((n_samples, n_features))
        for j in range(n_samples):
            if j < max(p, q):
                resampled_X[j, :] = sampled_residuals[j]
                continue
            ar = np.zeros((1, n_features))
            for t, M in enumerate(fitted_ar_coefs):
                ar += np.dot(M, resampled_X[j - t - 1, :].T).T
            ma = np.zeros((1, n_features))
            for t, M in enumerate(fitted_ma_coefs):
                ma += np.dot(M, sampled_residuals[j - t - 1, :].T).T
            resampled_X[j, :] = ar + sampled_residuals[j] + ma
        self._fit(resampled_X, None)
        psi = self.adjacency_matrices_[0]
        omega = self.adjacency_matrices_[1]
        am = np.concatenate([*psi, *omega], axis=1)
        adjacency_matrices.append(am)
        for c, to in enumerate(reversed(self.causal_order_)):
            for from_ in self.causal_order_[:n_features - (c + 1)]:
                total_effects[i, to, from_] = self.estimate_total_effect2(n_features, from_, to)
            for lag in range(p):
                for from_ in range(n_features):
                    total_effects[i, to, from_ + n_features * (lag + 1)] = self.estimate_total_effect2(n_features, from_, to, lag + 1)
    return VARMABootstrapResult(adjacency_matrices, total_effects, self._fitted_order)


@defines('C11 C16', 'LongitudinalLiNGAM.bootstrap', opaque=['calculate_total_effect', '%fit', '%estimate_total_effect', '%estimate_total_effect2'])
def LongitudinalLiNGAM_bootstrap(self, X_list, n_sampling, start_from_t=1):
    """rows resampled per timepoint list; results stored per sample"""
    if not isinstance(X_list, (list, np.ndarray)):
        raise ValueError('X_list must be a array-like.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._T = len(X_list)
    self._n = check_array(X_list[0]).shape[0]
    self._p = check_array(X_list[0]).shape[1]
    X_t = []
    for X in X_list:
        X = check_array(X)
        if X.shape != (self._n, self._p):
            raise ValueError('X_list must be a list with the same shape')
        X_t.append(X)
    if isinstance(n_sampling, (numbers.Integral, np.integer)):
        if not 0 < n_sampling:
            raise ValueError('n_sampling must be an integer greater than 0.')
    else:
        raise ValueError('n_sampling must be an integer greater than 0.')
    adjacency_matrices = np.zeros((n_sampling, self._T, 1 + self._n_lags, self._p, self._p))
    total_effects = np.zeros((n_sampling, self._T * self._p, self._T * self._p))
    for i in range(n_sampling):
        resampled_X_t = np.empty((self._T, self._n, self._p))
        indices = np.random.randint(0, self._n, size=(self._n,))
        for t in range(self._T):
            resampled_X_t[t] = X_t[t][indices, :]
        self.fit(resampled_X_t)
        adjacency_matrices[i] = self.adjacency_matrices_
        for from_t in range(max(start_from_t, self._n_lags), self._T):
            for c, from_ in enumerate(self.causal_orders_[from_t]):
                to_t = from_t
                for to in self.causal_orders_[from_t][c + 1:]:
                    total_effects[i, to_t * self._p + to, from_t * self._p + from_] = self.estimate_total_effect2(from_t, from_, to_t, to)
                for to_t in range(from_t + 1, self._T):
                    for to in self.causal_orders_[to_t]:
                        total_effects[i, to_t * self._p + to, from_t * self._p + from_] = self.estimate_total_effect2(from_t, from_, to_t, to)
    return LongitudinalBootstrapResult(self._T, adjacency_matrices, total_effects)


def check_imputer_outout(imp_output, n_samples, n_features):
    try:
        imputed_data = check_array(imp_output, allow_nd=True)
    except Exception as e:
        raise ValueError('The return value of imp violates its specification: ' + str(e))
    if imputed_data.shape[1:] != (n_samples, n_features):
        raise ValueError('The shape of the return value of imp must be (n_repeats, n_samples, n_fatures).')
    imputed_data = list(imputed_data)
    return imputed_data


def check_cd_output(cd_output, n_repeats, n_features):
    if not isinstance(cd_output, tuple) or len(cd_output) != 2:
        raise ValueError('The return value of cd_model.fit() must be a tuple like (causal_order, adjacenecy_matrices).')
    causal_order, adjacency_matrices = cd_output
    try:
        causal_order = check_array(causal_order, ensure_2d=False)
    except Exception as e:
        raise ValueError('causal_order, the output of cd_model, violates its specification: ' + str(e))
    if len(causal_order) != n_features:
        raise ValueError('The length of causal_order, the output of cd_model, must be equal to n_features.')
    if not np.array_equal(np.unique(causal_order), np.arange(len(causal_order))):
        raise ValueError('Elements of causal_order, the output of cd_model, must be unique and must be indicates a column number.')
    try:
        adjacency_matrices = check_array(adjacency_matrices, allow_nd=True)
    except Exception as e:
        raise ValueError('adjacency_matrices, the output of cd_model, violates its specification: ' + str(e))
    if adjacency_matrices.shape[-2:] != (n_features, n_features):
        raise ValueError('The shape of elements of adjacency_matrices, the output of cd_model, must be (n_features, n_features)')
    return (causal_order, adjacency_matrices)


@defines('C11 C22', 'bootstrap_with_imputation', opaque=['MultiGroupDirectLiNGAM.fit'], observe=['return', 'call:.fit'])
def bootstrap_with_imputation(X, n_sampling, n_repeats=10, imp=None, cd_model=None, prior_knowledge=None, apply_prior_knowledge_softly=False, random_state=None):
    """each resample is imputed and fitted on its own"""
    X = check_array(X, force_all_finite='allow-nan')
    n_sampling = check_scalar(n_sampling, 'n_sampling', (numbers.Integral, np.integer), min_val=1)
    n_repeats = check_scalar(n_repeats, 'n_repeats', (numbers.Integral, np.integer), min_val=1)
    if cd_model is not None and (not isinstance(cd_model, BaseMultiGroupCDModel)):
        raise ValueError('cd_model must be an instance of a subclass of BaseMultiGroupCDModel.')
    if imp is not None and (not isinstance(imp, BaseMultipleImputation)):
        raise ValueError('imp must be an instance of a subclass of BaseMultipleImputation.')
    n_samples, n_features = X.shape
    if prior_knowledge is not None:
        prior_knowledge = check_array(prior_knowledge)
        if prior_knowledge.shape != (n_features, n_features):
            raise ValueError('The shape of prior_knowledge must be (n_features, n_features).')
    random_state = check_random_state(random_state)
    if imp is None:
        imp = _DefaultMultipleImputation(n_repeats, random_state)
    if cd_model is None:
        cd_model = _DefaultMultiGroupCDModel(prior_knowledge=prior_knowledge, apply_prior_knowledge_softly=apply_prior_knowledge_softly, random_state=random_state)
    resampled_indices = []
    causal_orders = []
    adj_matrices_list = []
    imputation_results = []
    for i in range(n_sampling):
        resampled_index = random_state.choice(np.arange(X.shape[0]), replace=True, size=len(X))
        bootstrap_sample = X[resampled_index]
        cd_model.before_imputation(bootstrap_sample)
        datasets = imp.fit_transform(bootstrap_sample)
        datasets = check_imputer_outout(datasets, n_samples, n_features)
        n_repeats_impl = len(datasets)
        result = cd_model.fit(datasets)
        causal_order, adjacency_matrices = check_cd_output(result, n_repeats_impl, n_features)
        datasets = np.array(datasets)
        imputation_result = np.full(datasets.shape, np.nan)
        pos = np.isnan(bootstrap_sample)
        imputation_result[:, pos] = datasets[:, pos]
        resampled_indices.append(resampled_index)
        causal_orders.append(causal_order)
        adj_matrices_list.append(adjacency_matrices)
        imputation_results.append(imputation_result)
    resampled_indices = np.array(resampled_indices)
    causal_orders = np.array(causal_orders)
    adj_matrices_list = np.array(adj_matrices_list)
    imputation_results = np.array(imputation_results)
    return (causal_orders, adj_matrices_list, resampled_indices, imputation_results)
