"""Functions of graphs."""
import networkx as nx
import numpy as np
import pandas as pd
import semopy
from sklearn import linear_model
from sklearn.utils import check_array, check_scalar


@defines('C18 C07', 'make_prior_knowledge')
def define_make_prior_knowledge(n_variables, exogenous_variables=None, sink_variables=None, paths=None, no_paths=None):
    """prior knowledge matrix from the listed restrictions"""
    prior_knowledge = np.full((n_variables, n_variables), -1)
    if no_paths:
        for no_path in no_paths:
            prior_knowledge[no_path[1], no_path[0]] = 0
    if paths:
        for path in paths:
            prior_knowledge[path[1], path[0]] = 1
    if sink_variables:
        for var in sink_variables:
            prior_knowledge[:, var] = 0
    if exogenous_variables:
        for var in exogenous_variables:
            prior_knowledge[var, :] = 0
    np.fill_diagonal(prior_knowledge, -1)
    return prior_knowledge


@defines('C18', 'get_sink_variables')
def define_get_sink_variables(adjacency_matrix):
    """variables without children"""
    am = adjacency_matrix.copy()
    am = np.abs(am)
    np.fill_diagonal(am, 0)
    sink_vars = [i for i in range(am.shape[1]) if am[:, i].sum() == 0]
    return sink_vars


@defines('C18', 'get_exo_variables')
def define_get_exo_variables(adjacency_matrix):
    """variables without parents"""
    am = adjacency_matrix.copy()
    am = np.abs(am)
    np.fill_diagonal(am, 0)
    exo_vars = [i for i in range(am.shape[1]) if am[i, :].sum() == 0]
    return exo_vars


@defines('C18', 'remove_effect')
def define_remove_effect(X, remove_features, return_coefs=False):
    """residuals after regressing out the listed variables"""
    X = np.copy(check_array(X))
    coefs = {}
    features_ = [i for i in np.arange(X.shape[1]) if i not in remove_features]
    for feature in features_:
        reg = linear_model.LinearRegression()
        reg.fit(X[:, remove_features], X[:, feature])
        X[:, feature] = X[:, feature] - reg.predict(X[:, remove_features])
        coefs[feature] = reg.coef_
    if return_coefs:
        return (X, coefs)
    return X


@defines('C18 C10 C12', 'find_all_paths')
def define_find_all_paths(dag, from_index, to_index, min_causal_effect=0.0):
    """all directed paths with their effects"""
    edges = np.array(np.where(np.abs(np.nan_to_num(dag)) > min_causal_effect)).T
    to_indices = []
    for i in range(dag.shape[0]):
        adj_list = edges[edges[:, 1] == i][:, 0].tolist()
        if len(adj_list) != 0:
            to_indices.append(adj_list)
        else:
            to_indices.append([])
    paths = []
    stack = [from_index]
    stack_to_indice = [to_indices[from_index]]
    while stack:
        if len(stack) > dag.shape[0]:
            raise ValueError('Unable to find the path because a cyclic graph has been specified.')
        cur_index = stack[-1]
        to_indice = stack_to_indice[-1]
        if cur_index == to_index:
            paths.append(stack.copy())
            stack.pop()
            stack_to_indice.pop()
        elif len(to_indice) > 0:
            next_index = to_indice.pop(0)
            stack.append(next_index)
            stack_to_indice.append(to_indices[next_index].copy())
        else:
            stack.pop()
            stack_to_indice.pop()
    effects = []
    for p in paths:
        coefs = [dag[p[i + 1], p[i]] for i in range(len(p) - 1)]
        effects.append(np.cumprod(coefs)[-1])
    return (paths, effects)


@defines('C18', 'evaluate_model_fit')
def define_evaluate_model_fit(adjacency_matrix, X, is_ordinal=None):
    """model specification and data handed to the SEM fit"""
    adj = check_array(adjacency_matrix, force_all_finite='allow-nan')
    if adj.ndim != 2 or adj.shape[0] != adj.shape[1]:
        raise ValueError('adj must be an square matrix.')
    X = check_array(X)
    if X.shape[1] != adj.shape[1]:
        raise ValueError('X.shape[1] and adj.shape[1] must be the same.')
    if is_ordinal is None:
        is_ordinal = np.zeros(X.shape[1])
    else:
        is_ordinal = check_array(is_ordinal, ensure_2d=False).flatten()
    if is_ordinal.shape[0] != adj.shape[1]:
        raise ValueError('is_ordinal.shape[0] and adj.shape[1] must be the same.')
    desc = ''
    eta_names = []
    for i, row in enumerate(adj):
        if np.sum(np.isnan(row)) == 0 and np.sum(np.isclose(row, 0)) == row.shape[0]:
            continue
        desc += f'x{i:d} ~ '
        for j, elem in enumerate(row):
            if np.isnan(elem):
                eta_name = f'eta_{i}_{j}' if i < j else f'eta_{j}_{i}'
                desc += f'{eta_name} + '
                if eta_name not in eta_names:
                    eta_names.append(eta_name)
            elif not np.isclose(elem, 0):
                desc += f'{elem:f} * x{j:d} + '
        desc = desc[:-len(' * ')] + '\n'
    if len(eta_names) > 0:
        desc += 'DEFINE(latent) ' + ' '.join(eta_names) + '\n'
    if sum(is_ordinal) > 0:
        indices = np.argwhere(is_ordinal).flatten()
        desc += 'DEFINE(ordinal)'
        for i in indices:
            desc += f' x{i}'
        desc += '\n'
    columns = [f'x{i:d}' for i in range(X.shape[1])]
    X = pd.DataFrame(X, columns=columns)
    m = semopy.Model(desc)
    m.fit(X)
    stats = semopy.calc_stats(m)
    return stats


@defines('C18', 'calculate_distance_from_root_nodes')
def define_calculate_distance_from_root_nodes(adjacency_matrix, max_distance=None):
    """length of the shortest path from a root"""
    adjacency_matrix = check_array(adjacency_matrix, ensure_min_samples=2, ensure_min_features=2, force_all_finite='allow-nan')
    if adjacency_matrix.shape[0] != adjacency_matrix.shape[1]:
        raise ValueError('adjacency_matrix must be an square matrix.')
    if max_distance is not None:
        max_distance = check_scalar(max_distance, 'max_distance', int, min_val=1)
    adjacency_matrix = np.nan_to_num(adjacency_matrix)
    root_indices = np.argwhere(np.isclose(np.sum(np.abs(adjacency_matrix), axis=1), 0) == True).flatten()
    if len(root_indices) == 0:
        raise ValueError('adjacency_matrix has no root nodes.')
    G = nx.from_numpy_array(adjacency_matrix.T, create_using=nx.DiGraph)
    dist_df = {}
    for index in root_indices:
        dist = nx.shortest_path_length(G, source=index)
        dist_df[index] = dist
    dist_df = pd.DataFrame(dist_df)
    dist_df = dist_df.fillna(np.iinfo(int).max)
    dist_df = dist_df.min(axis=1)
    if max_distance is not None:
        dist_df = dist_df.iloc[dist_df.values <= max_distance]
    dist_df = dist_df.sort_index()
    dist_df = dist_df.astype(int)
    result = {i: [] for i in pd.unique(dist_df)}
    for name, dist in dist_df.items():
        result[dist].append(name)
    return result
