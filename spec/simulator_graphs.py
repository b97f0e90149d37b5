"""Causal graphs as the simulator reads them."""
import numpy as np
import pandas as pd
from scipy.special import expit
from sklearn.utils import check_array


def CBSILiNGAM_check_causal_graph(self, causal_graph, X):
    try:
        causal_graph = check_array(causal_graph, copy=True)
        n_features = X.shape[1]
        if causal_graph.shape != (n_features, n_features):
            raise ValueError('The shape of causal_graph must be (n_features, n_features)')
    except Exception as e:
        raise ValueError('causal_graph has an error: ' + str(e))
    return causal_graph


def CBSILiNGAM_make_var_names(self, causal_graph, X, is_discrete):
    n_features = len(causal_graph)
    if isinstance(X, pd.DataFrame):
        endog_names = check_array(X.columns, ensure_2d=False, dtype=None, copy=True)
        endog_names = [str(endog_name) for endog_name in endog_names]
    else:
        endog_names = [f'{i:d}' for i in range(n_features)]
    if is_discrete is None:
        is_discrete = [False for _ in range(n_features)]
    discrete_endog_names = np.array(endog_names)[is_discrete].tolist()
    return (endog_names, discrete_endog_names)


def CBSILiNGAM_calc_causal_order(self, causal_graph):
    causal_order = []
    row_num = causal_graph.shape[0]
    original_index = np.arange(row_num)
    while 0 < len(causal_graph):
        row_index_list = np.where(np.sum(np.abs(causal_graph), axis=1) == 0)[0]
        if len(row_index_list) == 0:
            break
        target_index = row_index_list[0]
        causal_order.append(original_index[target_index])
        original_index = np.delete(original_index, target_index, axis=0)
        mask = np.delete(np.arange(len(causal_graph)), target_index, axis=0)
        causal_graph = causal_graph[mask][:, mask]
    if len(causal_order) != row_num:
        causal_order = None
    return causal_order


@defines('C17', 'CBSILiNGAM.__init__', observe=['prop:causal_order_', 'prop:endog_names_', 'prop:discrete_endog_names_', 'prop:exog_length_', 'field:_causal_graph'])
def define_CBSILiNGAM___init__(self, X, causal_graph, is_discrete=None):
    """names, order and length taken from graph and data"""
    X_ = check_array(X)
    n_samples, n_features = X_.shape
    causal_graph = CBSILiNGAM_check_causal_graph(self, causal_graph, X_)
    endog_names, discrete_endog_names = CBSILiNGAM_make_var_names(self, causal_graph, X, is_discrete)
    causal_order = CBSILiNGAM_calc_causal_order(self, causal_graph)
    if causal_order is None:
        raise ValueError('causal_graph must be acyclic.')
    causal_order = [endog_names[n] for n in causal_order]
    self._X = X_
    self._exog_length = n_samples
    self._is_discrete = is_discrete
    self._endog_names = endog_names
    self._discrete_endog_names = discrete_endog_names
    self._causal_graph = causal_graph
    self._causal_order = causal_order


def CBSITimeSeriesLiNGAM_check_causal_graph(self, causal_graph, X):
    try:
        causal_graph = check_array(causal_graph, allow_nd=True, copy=True)
        if len(causal_graph.shape) != 3:
            raise ValueError('causal_graph must be 3 dimentional array.')
        n_features = X.shape[1]
        if causal_graph.shape[1:] != (n_features, n_features):
            raise ValueError('The shape of causal_graph must be (n_lags+1, n_features, n_features)')
    except Exception as e:
        raise ValueError('causal_graph has an error: ' + str(e))
    coef = np.concatenate(causal_graph, axis=1)
    causal_graph_ = np.zeros((coef.shape[1], coef.shape[1]))
    causal_graph_[:len(coef)] = coef
    self._n_lags = len(causal_graph) - 1
    return causal_graph_


def CBSITimeSeriesLiNGAM_make_var_names(self, causal_graph, X, is_discrete):
    n_features = X.shape[1]
    if isinstance(X, pd.DataFrame):
        endog_names_ = X.columns.tolist()
    else:
        endog_names_ = [f'{i:d}' for i in range(n_features)]
    endog_names = []
    for i in range(self._n_lags + 1):
        if i == 0:
            index_format = '[t]'
        else:
            index_format = f'[t-{i}]'
        endog_names += [name + index_format for name in endog_names_]
    if is_discrete is None:
        is_discrete = [False for _ in range(n_features)]
        is_discrete *= self._n_lags + 1
    else:
        is_discrete = is_discrete * (self._n_lags + 1)
    discrete_endog_names = np.array(endog_names)[is_discrete].tolist()
    return (endog_names, discrete_endog_names)


def CBSITimeSeriesLiNGAM_calc_causal_order(self, causal_graph):
    causal_order = []
    row_num = causal_graph.shape[0]
    original_index = np.arange(row_num)
    while 0 < len(causal_graph):
        row_index_list = np.where(np.sum(np.abs(causal_graph), axis=1) == 0)[0]
        if len(row_index_list) == 0:
            break
        target_index = row_index_list[0]
        causal_order.append(original_index[target_index])
        original_index = np.delete(original_index, target_index, axis=0)
        mask = np.delete(np.arange(len(causal_graph)), target_index, axis=0)
        causal_graph = causal_graph[mask][:, mask]
    if len(causal_order) != row_num:
        causal_order = None
    return causal_order


def CBSITimeSeriesLiNGAM_CBSILiNGAM_init(self, X, causal_graph, is_discrete=None):
    X_ = check_array(X)
    n_samples, n_features = X_.shape
    causal_graph = CBSITimeSeriesLiNGAM_check_causal_graph(self, causal_graph, X_)
    endog_names, discrete_endog_names = CBSITimeSeriesLiNGAM_make_var_names(self, causal_graph, X, is_discrete)
    causal_order = CBSITimeSeriesLiNGAM_calc_causal_order(self, causal_graph)
    if causal_order is None:
        raise ValueError('causal_graph must be acyclic.')
    causal_order = [endog_names[n] for n in causal_order]
    self._X = X_
    self._exog_length = n_samples
    self._is_discrete = is_discrete
    self._endog_names = endog_names
    self._discrete_endog_names = discrete_endog_names
    self._causal_graph = causal_graph
    self._causal_order = causal_order


@defines('C17', 'CBSITimeSeriesLiNGAM.__init__', observe=['prop:causal_order_', 'prop:endog_names_', 'prop:discrete_endog_names_', 'prop:exog_length_', 'field:_causal_graph', 'field:_n_lags'])
def define_CBSITimeSeriesLiNGAM___init__(self, X, causal_graph, is_discrete=None):
    """names, order and length taken from lagged graphs and data"""
    CBSITimeSeriesLiNGAM_CBSILiNGAM_init(self, X, causal_graph, is_discrete=is_discrete)
    self._exog_length = self.exog_length_ - self._n_lags


def CBSIUnobsCommonCauseLiNGAM_check_causal_graph(self, causal_graph, X):
    try:
        causal_graph = check_array(causal_graph, force_all_finite='allow-nan', copy=True)
        n_features = X.shape[1]
        if causal_graph.shape != (n_features, n_features):
            raise RuntimeError('The shape of causal_graph must be (n_features, n_features)')
        causal_graph[np.isnan(causal_graph)] = 0
    except Exception as e:
        raise ValueError('causal_graph has an error: ' + str(e))
    return causal_graph


def CBSIUnobsCommonCauseLiNGAM_make_var_names(self, causal_graph, X, is_discrete):
    n_features = len(causal_graph)
    if isinstance(X, pd.DataFrame):
        endog_names = check_array(X.columns, ensure_2d=False, dtype=None, copy=True)
        endog_names = [str(endog_name) for endog_name in endog_names]
    else:
        endog_names = [f'{i:d}' for i in range(n_features)]
    if is_discrete is None:
        is_discrete = [False for _ in range(n_features)]
    discrete_endog_names = np.array(endog_names)[is_discrete].tolist()
    return (endog_names, discrete_endog_names)


def CBSIUnobsCommonCauseLiNGAM_calc_causal_order(self, causal_graph):
    causal_order = []
    row_num = causal_graph.shape[0]
    original_index = np.arange(row_num)
    while 0 < len(causal_graph):
        row_index_list = np.where(np.sum(np.abs(causal_graph), axis=1) == 0)[0]
        if len(row_index_list) == 0:
            break
        target_index = row_index_list[0]
        causal_order.append(original_index[target_index])
        original_index = np.delete(original_index, target_index, axis=0)
        mask = np.delete(np.arange(len(causal_graph)), target_index, axis=0)
        causal_graph = causal_graph[mask][:, mask]
    if len(causal_order) != row_num:
        causal_order = None
    return causal_order


@defines('C17', 'CBSIUnobsCommonCauseLiNGAM.__init__', observe=['prop:causal_order_', 'prop:endog_names_', 'prop:discrete_endog_names_', 'prop:exog_length_', 'field:_causal_graph'])
def define_CBSIUnobsCommonCauseLiNGAM___init__(self, X, causal_graph, is_discrete=None):
    """names, order and length taken from graph and data"""
    X_ = check_array(X)
    n_samples, n_features = X_.shape
    causal_graph = CBSIUnobsCommonCauseLiNGAM_check_causal_graph(self, causal_graph, X_)
    endog_names, discrete_endog_names = CBSIUnobsCommonCauseLiNGAM_make_var_names(self, causal_graph, X, is_discrete)
    causal_order = CBSIUnobsCommonCauseLiNGAM_calc_causal_order(self, causal_graph)
    if causal_order is None:
        raise ValueError('causal_graph must be acyclic.')
    causal_order = [endog_names[n] for n in causal_order]
    self._X = X_
    self._exog_length = n_samples
    self._is_discrete = is_discrete
    self._endog_names = endog_names
    self._discrete_endog_names = discrete_endog_names
    self._causal_graph = causal_graph
    self._causal_order = causal_order


@defines('C17', 'CBSILiNGAM.get_parent_names')
def define_CBSILiNGAM_get_parent_names(self, var_name):
    """variables with a non-zero effect"""
    if var_name not in self.endog_names_:
        raise ValueError(f'Unknown variable. {var_name}')
    causal_graph = ~np.isclose(self._causal_graph, 0)
    index = self.endog_names_.index(var_name)
    parent_indices = np.argwhere(causal_graph[index, :]).ravel()
    parent_names = np.array(self.endog_names_)[parent_indices].tolist()
    return parent_names


@defines('C17', 'CBSILiNGAM.get_data')
def define_CBSILiNGAM_get_data(self, var_names):
    """columns of the data"""
    if isinstance(var_names, str):
        var_names = [var_names]
    var_indices = []
    for var_name in var_names:
        index = self.endog_names_.index(var_name)
        var_indices.append(index)
    data = self._X[:, var_indices]
    return data


@defines('C17', 'CBSITimeSeriesLiNGAM.get_data')
def define_CBSITimeSeriesLiNGAM_get_data(self, var_names):
    """columns of the data shifted by their lag"""
    n_features = self._X.shape[1]
    if isinstance(var_names, str):
        var_names = [var_names]
    X_ = []
    for var_name in var_names:
        index = self.endog_names_.index(var_name)
        X_index = index % n_features
        lag = index // n_features
        data = self._X[self._n_lags - lag:-lag if lag != 0 else None, X_index]
        X_.append(data)
    X_ = np.vstack(X_).T
    return X_


@defines('C17', 'CBSILiNGAM.get_causal_order')
def define_CBSILiNGAM_get_causal_order(self, changing_edges=None):
    """order of the graph with the changed edges"""
    if changing_edges is None:
        changing_edges = {}
    causal_graph = self._causal_graph.copy()
    for target_name, parent_names in changing_edges.items():
        row = self.endog_names_.index(target_name)
        cols = [self.endog_names_.index(parent_name) for parent_name in parent_names]
        causal_graph[row, :] = 0
        causal_graph[row, cols] = 1
    causal_order = CBSILiNGAM_calc_causal_order(self, causal_graph)
    if causal_order is None:
        mes = 'causal_graph updated by changing_models is cyclic.'
        mes += ' changing_models must be set so that causal graph does not cycle.'
        raise ValueError(mes)
    causal_order = [self.endog_names_[n] for n in causal_order]
    return causal_order


@defines('C17', '_LinearRegression.predict')
def define__LinearRegression_predict(self, X):
    """linear combination"""
    if len(self.coef_) == 0:
        return np.zeros((len(X), 1))
    return (self.coef_ @ X.T).T


@defines('C17', '_LogisticRegression.predict')
def define__LogisticRegression_predict(self, X):
    """sign of the linear combination"""
    if len(self.coef_) == 0:
        return np.zeros((len(X), 1))
    return expit((self.coef_ @ X.T).T) >= 0.5
