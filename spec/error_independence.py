"""Independence tests between the error variables of a fitted model."""
import itertools
import numpy as np
from sklearn.utils import check_array
from lingam.hsic import hsic_test_gamma


@defines('C14', 'DirectLiNGAM.get_error_independence_p_values', 'ICALiNGAM.get_error_independence_p_values', 'HighDimDirectLiNGAM.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_DirectLiNGAM_get_error_independence_p_values(self, X):
    """p-value of every pair of estimated error variables"""
    X = check_array(X)
    n_samples = X.shape[0]
    n_features = X.shape[1]
    E = X - np.dot(self.adjacency_matrix_, X.T).T
    p_values = np.zeros([n_features, n_features])
    for i, j in itertools.combinations(range(n_features), 2):
        _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
        p_values[i, j] = p_value
        p_values[j, i] = p_value
    return p_values


@defines('C14', 'RESIT.get_error_independence_p_values')
def define_RESIT_get_error_independence_p_values(self, X):
    """zero for every pair"""
    n_features = X.shape[1]
    p_values = np.zeros([n_features, n_features])
    return p_values


@defines('C14', 'BottomUpParceLiNGAM.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_BottomUpParceLiNGAM_get_error_independence_p_values(self, X):
    """p-value of every pair of estimated error variables, unknown where a coefficient is unknown"""
    X = check_array(X)
    n_samples = X.shape[0]
    n_features = X.shape[1]
    E = X - np.dot(self.adjacency_matrix_, X.T).T
    nan_cols = list(set(np.argwhere(np.isnan(self.adjacency_matrix_)).ravel()))
    p_values = np.zeros([n_features, n_features])
    for i, j in itertools.combinations(range(n_features), 2):
        if i in nan_cols or j in nan_cols:
            p_values[i, j] = np.nan
            p_values[j, i] = np.nan
        else:
            _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
            p_values[i, j] = p_value
            p_values[j, i] = p_value
    return p_values


@defines('C14', 'RCD.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_RCD_get_error_independence_p_values(self, X):
    """p-value of every pair of estimated error variables, unknown where a coefficient is unknown"""
    X = check_array(X)
    n_samples = X.shape[0]
    n_features = X.shape[1]
    E = X - np.dot(self.adjacency_matrix_, X.T).T
    nan_cols = list(set(np.argwhere(np.isnan(self.adjacency_matrix_)).ravel()))
    p_values = np.zeros([n_features, n_features])
    for i, j in itertools.combinations(range(n_features), 2):
        if i in nan_cols or j in nan_cols:
            p_values[i, j] = np.nan
            p_values[j, i] = np.nan
        else:
            _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
            p_values[i, j] = p_value
            p_values[j, i] = p_value
    return p_values


def MultiGroupDirectLiNGAM_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C14 C13', 'MultiGroupDirectLiNGAM.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_MultiGroupDirectLiNGAM_get_error_independence_p_values(self, X_list):
    """p-values of each dataset's error variables"""
    X_list = MultiGroupDirectLiNGAM_check_X_list(self, X_list)
    p_values = np.zeros([len(X_list), self._n_features, self._n_features])
    for d, (X, am) in enumerate(zip(X_list, self.adjacency_matrices_)):
        n_samples = X.shape[0]
        E = X - np.dot(am, X.T).T
        for i, j in itertools.combinations(range(self._n_features), 2):
            _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
            p_values[d, i, j] = p_value
            p_values[d, j, i] = p_value
    return p_values


def MultiGroupRCD_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._k = len(X_list)
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C14 C13', 'MultiGroupRCD.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_MultiGroupRCD_get_error_independence_p_values(self, X_list):
    """p-values of each dataset's error variables"""
    X_list = MultiGroupRCD_check_X_list(self, X_list)
    p_values = np.zeros([len(X_list), self._n_features, self._n_features])
    for d, (X, am) in enumerate(zip(X_list, self.adjacency_matrices_)):
        n_samples = X.shape[0]
        E = X - np.dot(am, X.T).T
        nan_cols = list(set(np.argwhere(np.isnan(am)).ravel()))
        for i, j in itertools.combinations(range(self._n_features), 2):
            if i in nan_cols or j in nan_cols:
                p_values[d, i, j] = np.nan
                p_values[d, j, i] = np.nan
            else:
                _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
                p_values[d, i, j] = p_value
                p_values[d, j, i] = p_value
    return p_values


@defines('C14 C16', 'VARLiNGAM.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_VARLiNGAM_get_error_independence_p_values(self):
    """p-values of the instantaneous error variables"""
    nn = self.residuals_
    B0 = self.adjacency_matrices_[0]
    E = np.dot(np.eye(B0.shape[0]) - B0, nn.T).T
    n_samples = E.shape[0]
    n_features = E.shape[1]
    p_values = np.zeros([n_features, n_features])
    for i, j in itertools.combinations(range(n_features), 2):
        _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
        p_values[i, j] = p_value
        p_values[j, i] = p_value
    return p_values


@defines('C14 C16', 'VARMALiNGAM.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_VARMALiNGAM_get_error_independence_p_values(self):
    """p-values of the instantaneous error variables"""
    eps = self.residuals_
    psi0 = self.adjacency_matrices_[0][0]
    E = np.dot(np.eye(psi0.shape[0]) - psi0, eps.T).T
    n_samples = E.shape[0]
    n_features = E.shape[1]
    p_values = np.zeros([n_features, n_features])
    for i, j in itertools.combinations(range(n_features), 2):
        _, p_value = hsic_test_gamma(np.reshape(E[:, i], [n_samples, 1]), np.reshape(E[:, j], [n_samples, 1]))
        p_values[i, j] = p_value
        p_values[j, i] = p_value
    return p_values


@defines('C14 C16', 'LongitudinalLiNGAM.get_error_independence_p_values', opaque=['hsic_test_gamma'])
def define_LongitudinalLiNGAM_get_error_independence_p_values(self):
    """p-values of the error variables at each time point"""
    E_list = np.empty((self._T, self._n, self._p))
    for t, resid in enumerate(self.residuals_):
        B_t = self.adjacency_matrices_[t, 0]
        E_list[t] = np.dot(np.eye(B_t.shape[0]) - B_t, resid.T).T
    p_values_list = np.zeros([self._T, self._p, self._p])
    p_values_list[:, :, :] = np.nan
    for t in range(self._n_lags, self._T):
        p_values = np.zeros([self._p, self._p])
        for i, j in itertools.combinations(range(self._p), 2):
            _, p_value = hsic_test_gamma(np.reshape(E_list[t][:, i], [self._n, 1]), np.reshape(E_list[t][:, j], [self._n, 1]))
            p_values[i, j] = p_value
            p_values[j, i] = p_value
        p_values_list[t] = p_values
    return p_values_list
