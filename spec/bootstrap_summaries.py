"""Summaries of bootstrap results: counts, probabilities, effects and paths over the stored samples."""
import numbers
import numpy as np
from lingam.utils import find_all_paths


@defines('C12', 'BootstrapResult.get_causal_direction_counts', 'VARBootstrapResult.get_causal_direction_counts', 'VARMABootstrapResult.get_causal_direction_counts')
def BootstrapResult_get_causal_direction_counts(self, n_directions=None, min_causal_effect=None, split_by_causal_effect_sign=False):
    """how often each direction exceeds the threshold, most frequent first"""
    if isinstance(n_directions, (numbers.Integral, np.integer)):
        if not 0 < n_directions:
            raise ValueError('n_directions must be an integer greater than 0')
    elif n_directions is None:
        pass
    else:
        raise ValueError('n_directions must be an integer greater than 0')
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    directions = []
    for am in np.nan_to_num(self.adjacency_matrices_):
        direction = np.array(np.where(np.abs(am) > min_causal_effect))
        if split_by_causal_effect_sign:
            signs = np.array([np.sign(am[i][j]) for i, j in direction.T]).astype('int64').T
            direction = np.vstack([direction, signs])
        directions.append(direction.T)
    directions = np.concatenate(directions)
    if len(directions) == 0:
        cdc = {'from': [], 'to': [], 'count': []}
        if split_by_causal_effect_sign:
            cdc['sign'] = []
        return cdc
    directions, counts = np.unique(directions, axis=0, return_counts=True)
    sort_order = np.argsort(-counts)
    sort_order = sort_order[:n_directions] if n_directions is not None else sort_order
    counts = counts[sort_order]
    directions = directions[sort_order]
    cdc = {'from': directions[:, 1].tolist(), 'to': directions[:, 0].tolist(), 'count': counts.tolist()}
    if split_by_causal_effect_sign:
        cdc['sign'] = directions[:, 2].tolist()
    return cdc


@defines('C12', 'BootstrapResult.get_directed_acyclic_graph_counts', 'VARBootstrapResult.get_directed_acyclic_graph_counts', 'VARMABootstrapResult.get_directed_acyclic_graph_counts')
def BootstrapResult_get_directed_acyclic_graph_counts(self, n_dags=None, min_causal_effect=None, split_by_causal_effect_sign=False):
    """how often each thresholded graph occurs, most frequent first"""
    if isinstance(n_dags, (numbers.Integral, np.integer)):
        if not 0 < n_dags:
            raise ValueError('n_dags must be an integer greater than 0')
    elif n_dags is None:
        pass
    else:
        raise ValueError('n_dags must be an integer greater than 0')
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    dags = []
    for am in np.nan_to_num(self.adjacency_matrices_):
        dag = np.abs(am) > min_causal_effect
        if split_by_causal_effect_sign:
            direction = np.array(np.where(dag))
            signs = np.zeros_like(dag).astype('int64')
            for i, j in direction.T:
                signs[i][j] = np.sign(am[i][j]).astype('int64')
            dag = signs
        dags.append(dag)
    dags, counts = np.unique(dags, axis=0, return_counts=True)
    sort_order = np.argsort(-counts)
    sort_order = sort_order[:n_dags] if n_dags is not None else sort_order
    counts = counts[sort_order]
    dags = dags[sort_order]
    if split_by_causal_effect_sign:
        dags = [{'from': np.where(dag)[1].tolist(), 'to': np.where(dag)[0].tolist(), 'sign': [dag[i][j] for i, j in np.array(np.where(dag)).T]} for dag in dags]
    else:
        dags = [{'from': np.where(dag)[1].tolist(), 'to': np.where(dag)[0].tolist()} for dag in dags]
    return {'dag': dags, 'count': counts.tolist()}


@defines('C12', 'BootstrapResult.get_probabilities', 'VARBootstrapResult.get_probabilities', 'VARMABootstrapResult.get_probabilities')
def BootstrapResult_get_probabilities(self, min_causal_effect=None):
    """share of samples in which each coefficient exceeds the threshold"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    adjacency_matrices = np.nan_to_num(self.adjacency_matrices_)
    shape = adjacency_matrices[0].shape
    bp = np.zeros(shape)
    for B in adjacency_matrices:
        bp += np.where(np.abs(B) > min_causal_effect, 1, 0)
    bp = bp / len(adjacency_matrices)
    if int(shape[1] / shape[0]) == 1:
        return bp
    else:
        return np.hsplit(bp, int(shape[1] / shape[0]))


@defines('C12', 'BootstrapResult.get_total_causal_effects', 'VARBootstrapResult.get_total_causal_effects', 'VARMABootstrapResult.get_total_causal_effects')
def BootstrapResult_get_total_causal_effects(self, min_causal_effect=None):
    """median nonzero total effect and share of samples, most probable first"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    probs = np.sum(np.where(np.abs(self.total_effects_) > min_causal_effect, 1, 0), axis=0, keepdims=True)[0]
    probs = probs / len(self.total_effects_)
    dirs = np.array(np.where(np.abs(probs) > 0))
    probs = probs[dirs[0], dirs[1]]
    effects = np.zeros(dirs.shape[1])
    for i, (to, from_) in enumerate(dirs.T):
        idx = np.where(np.abs(self.total_effects_[:, to, from_]) > 0)
        effects[i] = np.median(self.total_effects_[:, to, from_][idx])
    order = np.argsort(-probs)
    dirs = dirs.T[order]
    effects = effects[order]
    probs = probs[order]
    ce = {'from': dirs[:, 1].tolist(), 'to': dirs[:, 0].tolist(), 'effect': effects.tolist(), 'probability': probs.tolist()}
    return ce


@defines('C12', 'BootstrapResult.get_paths', opaque=['find_all_paths'])
def BootstrapResult_get_paths(self, from_index, to_index, min_causal_effect=None):
    """paths with median effect and share of samples, most probable first"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    paths_list = []
    effects_list = []
    for am in self.adjacency_matrices_:
        paths, effects = find_all_paths(am, from_index, to_index, min_causal_effect)
        paths_list.extend(['_'.join(map(str, p)) for p in paths])
        effects_list.extend(effects)
    paths_list = np.array(paths_list)
    effects_list = np.array(effects_list)
    paths_str, counts = np.unique(paths_list, axis=0, return_counts=True)
    order = np.argsort(-counts)
    probs = counts[order] / len(self.adjacency_matrices_)
    paths_str = paths_str[order]
    effects = [np.median(effects_list[np.where(paths_list == p)]) for p in paths_str]
    result = {'path': [[int(i) for i in p.split('_')] for p in paths_str], 'effect': effects, 'probability': probs.tolist()}
    return result


@defines('C12 C16', 'VARBootstrapResult.get_paths', opaque=['find_all_paths'])
def VARBootstrapResult_get_paths(self, from_index, to_index, from_lag=0, to_lag=0, min_causal_effect=None):
    """paths over the unrolled lags with median effect and share of samples"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    if to_lag > from_lag:
        raise ValueError('from_lag should be greater than or equal to to_lag.')
    if to_lag == from_lag:
        if to_index == from_index:
            raise ValueError('The same variable is specified for from and to.')
    paths_list = []
    effects_list = []
    for am in self.adjacency_matrices_:
        expansion_m = np.zeros((am.shape[1], am.shape[1]))
        n_features = am.shape[0]
        n_lags = int(am.shape[1] / am.shape[0]) - 1
        for i in range(n_lags + 1):
            for j in range(i, n_lags + 1):
                row = n_features * i
                col = n_features * j
                lag = col - row
                expansion_m[row:row + n_features, col:col + n_features] = am[0:n_features, lag:lag + n_features]
        paths, effects = find_all_paths(expansion_m, int(n_features * from_lag + from_index), int(n_features * to_lag + to_index), min_causal_effect)
        paths_list.extend(['_'.join(map(str, p)) for p in paths])
        effects_list.extend(effects)
    paths_list = np.array(paths_list)
    effects_list = np.array(effects_list)
    paths_str, counts = np.unique(paths_list, axis=0, return_counts=True)
    order = np.argsort(-counts)
    probs = counts[order] / len(self.adjacency_matrices_)
    paths_str = paths_str[order]
    effects = [np.median(effects_list[np.where(paths_list == p)]) for p in paths_str]
    result = {'path': [[int(i) for i in p.split('_')] for p in paths_str], 'effect': effects, 'probability': probs.tolist()}
    return result


@defines('C12 C16', 'VARMABootstrapResult.get_paths', opaque=['find_all_paths'])
def VARMABootstrapResult_get_paths(self, from_index, to_index, from_lag=0, to_lag=0, min_causal_effect=None):
    """paths over the unrolled lags with median effect and share of samples"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    if to_lag > from_lag:
        raise ValueError('from_lag should be greater than or equal to to_lag.')
    if to_lag == from_lag:
        if to_index == from_index:
            raise ValueError('The same variable is specified for from and to.')
    paths_list = []
    effects_list = []
    for am in self.adjacency_matrices_:
        n_features = am.shape[0]
        expansion_m_size = n_features * (self._order[0] + 1)
        expansion_m = np.zeros((expansion_m_size, expansion_m_size))
        n_lags = int(expansion_m_size / n_features) - 1
        for i in range(n_lags + 1):
            for j in range(i, n_lags + 1):
                row = n_features * i
                col = n_features * j
                lag = col - row
                expansion_m[row:row + n_features, col:col + n_features] = am[0:n_features, lag:lag + n_features]
        paths, effects = find_all_paths(expansion_m, int(n_features * from_lag + from_index), int(n_features * to_lag + to_index), min_causal_effect)
        paths_list.extend(['_'.join(map(str, p)) for p in paths])
        effects_list.extend(effects)
    paths_list = np.array(paths_list)
    effects_list = np.array(effects_list)
    paths_str, counts = np.unique(paths_list, axis=0, return_counts=True)
    order = np.argsort(-counts)
    probs = counts[order] / len(self.adjacency_matrices_)
    paths_str = paths_str[order]
    effects = [np.median(effects_list[np.where(paths_list == p)]) for p in paths_str]
    result = {'path': [[int(i) for i in p.split('_')] for p in paths_str], 'effect': effects, 'probability': probs.tolist()}
    return result


@defines('C12', 'LongitudinalBootstrapResult.get_causal_direction_counts')
def LongitudinalBootstrapResult_get_causal_direction_counts(self, n_directions=None, min_causal_effect=None, split_by_causal_effect_sign=False):
    """per timepoint, how often each direction exceeds the threshold"""
    if isinstance(n_directions, (numbers.Integral, np.integer)):
        if not 0 < n_directions:
            raise ValueError('n_directions must be an integer greater than 0')
    elif n_directions is None:
        pass
    else:
        raise ValueError('n_directions must be an integer greater than 0')
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    cdc_list = []
    for t in range(self._n_timepoints):
        directions = []
        for m in self.adjacency_matrices_:
            am = np.concatenate([*m[t]], axis=1)
            direction = np.array(np.where(np.abs(am) > min_causal_effect))
            if split_by_causal_effect_sign:
                signs = np.array([np.sign(am[i][j]) for i, j in direction.T]).astype('int64').T
                direction = np.vstack([direction, signs])
            directions.append(direction.T)
        directions = np.concatenate(directions)
        if len(directions) == 0:
            cdc = {'from': [], 'to': [], 'count': []}
            if split_by_causal_effect_sign:
                cdc['sign'] = []
            cdc_list.append(cdc)
            continue
        directions, counts = np.unique(directions, axis=0, return_counts=True)
        sort_order = np.argsort(-counts)
        sort_order = sort_order[:n_directions] if n_directions is not None else sort_order
        counts = counts[sort_order]
        directions = directions[sort_order]
        cdc = {'from': directions[:, 1].tolist(), 'to': directions[:, 0].tolist(), 'count': counts.tolist()}
        if split_by_causal_effect_sign:
            cdc['sign'] = directions[:, 2].tolist()
        cdc_list.append(cdc)
    return cdc_list


@defines('C12', 'LongitudinalBootstrapResult.get_directed_acyclic_graph_counts')
def LongitudinalBootstrapResult_get_directed_acyclic_graph_counts(self, n_dags=None, min_causal_effect=None, split_by_causal_effect_sign=False):
    """per timepoint, how often each thresholded graph occurs"""
    if isinstance(n_dags, (numbers.Integral, np.integer)):
        if not 0 < n_dags:
            raise ValueError('n_dags must be an integer greater than 0')
    elif n_dags is None:
        pass
    else:
        raise ValueError('n_dags must be an integer greater than 0')
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    dagc_list = []
    for t in range(self._n_timepoints):
        dags = []
        for m in self.adjacency_matrices_:
            am = np.concatenate([*m[t]], axis=1)
            dag = np.abs(am) > min_causal_effect
            if split_by_causal_effect_sign:
                direction = np.array(np.where(dag))
                signs = np.zeros_like(dag).astype('int64')
                for i, j in direction.T:
                    signs[i][j] = np.sign(am[i][j]).astype('int64')
                dag = signs
            dags.append(dag)
        dags, counts = np.unique(dags, axis=0, return_counts=True)
        sort_order = np.argsort(-counts)
        sort_order = sort_order[:n_dags] if n_dags is not None else sort_order
        counts = counts[sort_order]
        dags = dags[sort_order]
        if split_by_causal_effect_sign:
            dags = [{'from': np.where(dag)[1].tolist(), 'to': np.where(dag)[0].tolist(), 'sign': [dag[i][j] for i, j in np.array(np.where(dag)).T]} for dag in dags]
        else:
            dags = [{'from': np.where(dag)[1].tolist(), 'to': np.where(dag)[0].tolist()} for dag in dags]
        dagc_list.append({'dag': dags, 'count': counts.tolist()})
    return dagc_list


@defines('C12', 'LongitudinalBootstrapResult.get_probabilities')
def LongitudinalBootstrapResult_get_probabilities(self, min_causal_effect=None):
    """share of samples in which each coefficient exceeds the threshold"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    prob = np.zeros(self.adjacency_matrices_[0].shape)
    for adj_mat in self.adjacency_matrices_:
        prob += np.where(np.abs(adj_mat) > min_causal_effect, 1, 0)
    prob = prob / len(self.adjacency_matrices_)
    return prob


@defines('C12', 'LongitudinalBootstrapResult.get_total_causal_effects')
def LongitudinalBootstrapResult_get_total_causal_effects(self, min_causal_effect=None):
    """median nonzero total effect and share of samples, most probable first"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    probs = np.sum(np.where(np.abs(self.total_effects_) > min_causal_effect, 1, 0), axis=0, keepdims=True)[0]
    probs = probs / len(self.total_effects_)
    dirs = np.array(np.where(np.abs(probs) > 0))
    probs = probs[dirs[0], dirs[1]]
    effects = np.zeros(dirs.shape[1])
    for i, (to, from_) in enumerate(dirs.T):
        idx = np.where(np.abs(self.total_effects_[:, to, from_]) > 0)
        effects[i] = np.median(self.total_effects_[:, to, from_][idx])
    order = np.argsort(-probs)
    dirs = dirs.T[order]
    effects = effects[order]
    probs = probs[order]
    ce = {'from': dirs[:, 1].tolist(), 'to': dirs[:, 0].tolist(), 'effect': effects.tolist(), 'probability': probs.tolist()}
    return ce


@defines('C12 C16', 'LongitudinalBootstrapResult.get_paths', opaque=['find_all_paths'])
def LongitudinalBootstrapResult_get_paths(self, from_index, to_index, from_t, to_t, min_causal_effect=None):
    """paths over timepoints with median effect and share of samples"""
    if min_causal_effect is None:
        min_causal_effect = 0.0
    elif not 0.0 < min_causal_effect:
        raise ValueError('min_causal_effect must be an value greater than 0.')
    if to_t < from_t:
        raise ValueError('to_t should be greater than or equal to from_t.')
    if to_t == from_t:
        if to_index == from_index:
            raise ValueError('The same variable is specified for from and to.')
    paths_list = []
    effects_list = []
    for am in self.adjacency_matrices_:
        n_timepoints = to_t - from_t + 1
        n_features = am.shape[2]
        expansion_m_size = n_features * n_timepoints
        expansion_m = np.zeros((expansion_m_size, expansion_m_size))
        for i in range(n_timepoints):
            for j in range(n_timepoints):
                row = n_features * i
                col = n_features * j
                t = i + from_t
                tau = i - j
                if col > row:
                    continue
                if tau > am.shape[1] - 1:
                    continue
                expansion_m[row:row + n_features, col:col + n_features] = am[t, tau]
        paths, effects = find_all_paths(expansion_m, int(from_index), int(n_features * (to_t - from_t) + to_index), min_causal_effect)
        paths_list.extend(['_'.join(map(str, p)) for p in paths])
        effects_list.extend(effects)
    paths_list = np.array(paths_list)
    effects_list = np.array(effects_list)
    paths_str, counts = np.unique(paths_list, axis=0, return_counts=True)
    order = np.argsort(-counts)
    probs = counts[order] / len(self.adjacency_matrices_)
    paths_str = paths_str[order]
    effects = [np.median(effects_list[np.where(paths_list == p)]) for p in paths_str]
    result = {'path': [[int(i) for i in p.split('_')] for p in paths_str], 'effect': effects, 'probability': probs.tolist()}
    return result
