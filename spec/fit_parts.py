"""Steps of model fitting, each in terms of the others."""
import numpy as np
from sklearn.preprocessing import scale
from sklearn.utils import check_array
import itertools
import warnings
from sklearn.linear_model import LinearRegression
from lingam.hsic import hsic_test_gamma
from lingam.utils import predict_adaptive_lasso
from scipy.optimize import linear_sum_assignment
from sklearn.decomposition import FastICA
from sklearn.linear_model import LassoLarsCV
from sklearn.preprocessing import StandardScaler
from scipy.stats.distributions import chi2
from lingam.utils import f_correlation
from scipy.optimize import fmin_l_bfgs_b
from scipy.stats import pearsonr, shapiro
from lingam.hsic import get_gram_matrix, get_kernel_width, hsic_teststat
import copy
from pygam import LinearGAM


@defines('C07 C08 C09 C15', 'DirectLiNGAM.fit', observe=['return', 'field:_causal_order', 'field:_partial_orders'], opaque=['%_estimate_adjacency_matrix', '%_extract_partial_orders', '%_residual', '%_search_causal_order', '%_search_causal_order_gpu', '%_search_causal_order_kernel'], part_of=[])
def part_DirectLiNGAM_fit(self, X):
    """Fit the model to X"""
    X = check_array(X)
    n_features = X.shape[1]
    if self._Aknw is not None:
        if (n_features, n_features) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (n_features, n_features)')
        elif not self._apply_prior_knowledge_softly:
            self._partial_orders = self._extract_partial_orders(self._Aknw)
    U = np.arange(n_features)
    K = []
    X_ = np.copy(X)
    if self._measure == 'kernel':
        X_ = scale(X_)
    for _ in range(n_features):
        if self._measure == 'kernel':
            m = self._search_causal_order_kernel(X_, U)
        elif self._measure == 'pwling_fast':
            m = self._search_causal_order_gpu(X_.astype(np.float64), U.astype(np.int32))
        else:
            m = self._search_causal_order(X_, U)
        for i in U:
            if i != m:
                X_[:, i] = self._residual(X_[:, i], X_[:, m])
        K.append(m)
        U = U[U != m]
        if self._Aknw is not None and (not self._apply_prior_knowledge_softly):
            self._partial_orders = self._partial_orders[self._partial_orders[:, 0] != m]
    self._causal_order = K
    return self._estimate_adjacency_matrix(X, prior_knowledge=self._Aknw)


@defines('C07 C08 C09 C13 C15', '_BaseLiNGAM._estimate_adjacency_matrix', observe=['field:_adjacency_matrix'], opaque=['utils:predict_adaptive_lasso'], part_of=['DirectLiNGAM.fit', 'HighDimDirectLiNGAM.fit', 'ICALiNGAM.fit', 'MultiGroupDirectLiNGAM.fit'])
def part__BaseLiNGAM__estimate_adjacency_matrix(self, X, prior_knowledge=None):
    """Estimate adjacency matrix by causal order"""
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) == 0:
            continue
        B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09 C15', 'DirectLiNGAM._search_causal_order_kernel', observe=['return'], opaque=['%_mutual_information', '%_residual', '%_search_candidate'], part_of=['DirectLiNGAM.fit'])
def part_DirectLiNGAM__search_causal_order_kernel(self, X, U):
    """Search the causal ordering by kernel method"""
    Uc, Vj = self._search_candidate(U)
    if len(Uc) == 1:
        return Uc[0]
    if X.shape[0] > 1000:
        param = [0.002, 0.5]
    else:
        param = [0.02, 1.0]
    Tkernels = []
    for j in Uc:
        Tkernel = 0
        for i in U:
            if i != j:
                ri_j = X[:, i] if j in Vj and i in Uc else self._residual(X[:, i], X[:, j])
                Tkernel += self._mutual_information(X[:, j], ri_j, param)
        Tkernels.append(Tkernel)
    return Uc[np.argmin(Tkernels)]


@defines('C07 C08 C09 C13 C15', 'DirectLiNGAM._extract_partial_orders', observe=['return'], opaque=[], part_of=['DirectLiNGAM.fit', 'MultiGroupDirectLiNGAM.fit'])
def part_DirectLiNGAM__extract_partial_orders(self, pk):
    """Extract partial orders from prior knowledge"""
    path_pairs = np.array(np.where(pk == 1)).transpose()
    no_path_pairs = np.array(np.where(pk == 0)).transpose()
    check_pairs = np.concatenate([path_pairs, path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        if len(pairs[counts > 1]) > 0:
            raise ValueError(f'The prior knowledge contains inconsistencies at the following indices: {pairs[counts > 1].tolist()}')
    check_pairs = np.concatenate([no_path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        check_pairs = np.concatenate([no_path_pairs, pairs[counts > 1]])
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        no_path_pairs = pairs[counts < 2]
    check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) == 0:
        return check_pairs
    pairs = np.unique(check_pairs, axis=0)
    return pairs[:, [1, 0]]


@defines('C07 C08 C09 C15', 'DirectLiNGAM._search_causal_order_gpu', observe=['return'], opaque=[], part_of=['DirectLiNGAM.fit'])
def part_DirectLiNGAM__search_causal_order_gpu(self, X, U):
    """Accelerated Causal ordering"""
    cols = len(U)
    rows = len(X)
    arr = X[:, np.array(U)]
    from lingam_cuda import causal_order as causal_order_gpu
    mlist = causal_order_gpu(arr, rows, cols)
    return U[np.argmax(mlist)]


@defines('C07 C08 C09 C15', 'DirectLiNGAM._search_causal_order', observe=['return'], opaque=['%_diff_mutual_info', '%_residual', '%_search_candidate'], part_of=['DirectLiNGAM.fit'])
def part_DirectLiNGAM__search_causal_order(self, X, U):
    """Search the causal ordering"""
    Uc, Vj = self._search_candidate(U)
    if len(Uc) == 1:
        return Uc[0]
    M_list = []
    for i in Uc:
        M = 0
        for j in U:
            if i != j:
                xi_std = (X[:, i] - np.mean(X[:, i])) / np.std(X[:, i])
                xj_std = (X[:, j] - np.mean(X[:, j])) / np.std(X[:, j])
                ri_j = xi_std if i in Vj and j in Uc else self._residual(xi_std, xj_std)
                rj_i = xj_std if j in Vj and i in Uc else self._residual(xj_std, xi_std)
                M += np.min([0, self._diff_mutual_info(xi_std, xj_std, ri_j, rj_i)]) ** 2
        M_list.append(-1.0 * M)
    return Uc[np.argmax(M_list)]


@defines('C07 C08 C09 C13 C15', 'DirectLiNGAM._residual', observe=['return'], opaque=[], part_of=['DirectLiNGAM.fit', 'MultiGroupDirectLiNGAM.fit'])
def part_DirectLiNGAM__residual(self, xi, xj):
    """The residual when xi is regressed on xj"""
    return xi - np.cov(xi, xj, bias=True)[0, 1] / np.var(xj) * xj


@defines('C07 C08 C09 C13 C15', 'DirectLiNGAM._search_candidate', observe=['return'], opaque=[], part_of=['DirectLiNGAM.fit', 'MultiGroupDirectLiNGAM.fit'])
def part_DirectLiNGAM__search_candidate(self, U):
    """Search for candidate features"""
    if self._Aknw is None:
        return (U, [])
    if not self._apply_prior_knowledge_softly:
        if len(self._partial_orders) != 0:
            Uc = [i for i in U if i not in self._partial_orders[:, 1]]
            return (Uc, [])
        else:
            return (U, [])
    Uc = []
    for j in U:
        index = U[U != j]
        if self._Aknw[j][index].sum() == 0:
            Uc.append(j)
    if len(Uc) == 0:
        U_end = []
        for j in U:
            index = U[U != j]
            if np.nansum(self._Aknw[j][index]) > 0:
                U_end.append(j)
        for i in U:
            index = U[U != i]
            if self._Aknw[index, i].sum() == 0:
                U_end.append(i)
        Uc = [i for i in U if i not in set(U_end)]
    Vj = []
    for i in U:
        if i in Uc:
            continue
        if self._Aknw[i][Uc].sum() == 0:
            Vj.append(i)
    return (Uc, Vj)


@defines('C07 C08 C09 C15', 'DirectLiNGAM._mutual_information', observe=['return'], opaque=[], part_of=['DirectLiNGAM.fit'])
def part_DirectLiNGAM__mutual_information(self, x1, x2, param):
    """Calculate the mutual informations"""
    kappa, sigma = param
    n = len(x1)
    X1 = np.tile(x1, (n, 1))
    K1 = np.exp(-1 / (2 * sigma ** 2) * (X1 ** 2 + X1.T ** 2 - 2 * X1 * X1.T))
    X2 = np.tile(x2, (n, 1))
    K2 = np.exp(-1 / (2 * sigma ** 2) * (X2 ** 2 + X2.T ** 2 - 2 * X2 * X2.T))
    tmp1 = K1 + n * kappa * np.identity(n) / 2
    tmp2 = K2 + n * kappa * np.identity(n) / 2
    K_kappa = np.r_[np.c_[tmp1 @ tmp1, K1 @ K2], np.c_[K2 @ K1, tmp2 @ tmp2]]
    D_kappa = np.r_[np.c_[tmp1 @ tmp1, np.zeros([n, n])], np.c_[np.zeros([n, n]), tmp2 @ tmp2]]
    sigma_K = np.linalg.svd(K_kappa, compute_uv=False)
    sigma_D = np.linalg.svd(D_kappa, compute_uv=False)
    return -1 / 2 * (np.sum(np.log(sigma_K)) - np.sum(np.log(sigma_D)))


@defines('C07 C08 C09 C13 C15', 'DirectLiNGAM._diff_mutual_info', observe=['return'], opaque=['%_entropy'], part_of=['DirectLiNGAM.fit', 'MultiGroupDirectLiNGAM.fit'])
def part_DirectLiNGAM__diff_mutual_info(self, xi_std, xj_std, ri_j, rj_i):
    """Calculate the difference of the mutual informations"""
    return self._entropy(xj_std) + self._entropy(ri_j / np.std(ri_j)) - (self._entropy(xi_std) + self._entropy(rj_i / np.std(rj_i)))


@defines('C07 C08 C09 C13 C15', 'DirectLiNGAM._entropy', observe=['return'], opaque=[], part_of=['DirectLiNGAM.fit', 'MultiGroupDirectLiNGAM.fit'])
def part_DirectLiNGAM__entropy(self, u):
    """Calculate entropy using the maximum entropy approximations"""
    k1 = 79.047
    k2 = 7.4129
    gamma = 0.37457
    return (1 + np.log(2 * np.pi)) / 2 - k1 * (np.mean(np.log(np.cosh(u))) - gamma) ** 2 - k2 * np.mean(u * np.exp(-u ** 2 / 2)) ** 2


@defines('C08 C09 C15', 'ICALiNGAM.fit', observe=['return', 'field:_causal_order'], opaque=['%_estimate_adjacency_matrix', '%_estimate_causal_order'], part_of=[])
def part_ICALiNGAM_fit(self, X):
    """Fit the model to X"""
    X = check_array(X)
    ica = FastICA(max_iter=self._max_iter, random_state=self._random_state)
    ica.fit(X)
    W_ica = ica.components_
    _, col_index = linear_sum_assignment(1 / np.abs(W_ica))
    PW_ica = np.zeros_like(W_ica)
    PW_ica[col_index] = W_ica
    D = np.diag(PW_ica)[:, np.newaxis]
    W_estimate = PW_ica / D
    B_estimate = np.eye(len(W_estimate)) - W_estimate
    causal_order = self._estimate_causal_order(B_estimate)
    self._causal_order = causal_order
    return self._estimate_adjacency_matrix(X)


@defines('C08 C09 C15', 'ICALiNGAM._estimate_causal_order', observe=['return'], opaque=['%_search_causal_order'], part_of=['ICALiNGAM.fit'])
def part_ICALiNGAM__estimate_causal_order(self, matrix):
    """Obtain a lower triangular from the given matrix approximately"""
    causal_order = None
    pos_list = np.argsort(np.abs(matrix), axis=None)
    pos_list = np.vstack(np.unravel_index(pos_list, matrix.shape)).T
    initial_zero_num = int(matrix.shape[0] * (matrix.shape[0] + 1) / 2)
    for i, j in pos_list[:initial_zero_num]:
        matrix[i, j] = 0
    for i, j in pos_list[initial_zero_num:]:
        causal_order = self._search_causal_order(matrix)
        if causal_order is not None:
            break
        else:
            matrix[i, j] = 0
    return causal_order


@defines('C08 C09 C15', 'ICALiNGAM._search_causal_order', observe=['return'], opaque=[], part_of=['ICALiNGAM.fit'])
def part_ICALiNGAM__search_causal_order(self, matrix):
    """Obtain a causal order from the given matrix strictly"""
    causal_order = []
    row_num = matrix.shape[0]
    original_index = np.arange(row_num)
    while 0 < len(matrix):
        row_index_list = np.where(np.sum(np.abs(matrix), axis=1) == 0)[0]
        if len(row_index_list) == 0:
            break
        target_index = row_index_list[0]
        causal_order.append(original_index[target_index])
        original_index = np.delete(original_index, target_index, axis=0)
        mask = np.delete(np.arange(len(matrix)), target_index, axis=0)
        matrix = matrix[mask][:, mask]
    if len(causal_order) != row_num:
        causal_order = None
    return causal_order


@defines('C07 C08 C09', 'HighDimDirectLiNGAM.fit', observe=['return', 'field:_Y', 'field:_yty', 'field:_causal_order'], opaque=['%_estimate_adjacency_matrix', '%_estimate_adjacency_matrix2', '%_get_prune_stats'], part_of=[])
def part_HighDimDirectLiNGAM_fit(self, X):
    """Fit the model to X"""
    self._Y = check_array(X)
    self._yty = self._Y.T @ self._Y
    cut_off = 0
    theta = []
    p = self._Y.shape[1]
    psi = list(range(p))
    prune_stats = np.full((p, p), 100000.0)
    np.fill_diagonal(prune_stats, 0)
    while len(psi) > 1:
        new_stats = []
        for v in psi:
            cond_set = set.intersection(set(theta), set(np.argwhere(prune_stats[v] > cut_off).flatten()))
            cond_set = set.union(cond_set, set(theta[-1:] if len(theta) > 0 else set()))
            last_root = theta[-1] if len(theta) > 0 else None
            stats = self._get_prune_stats(v, psi, self._K, last_root, cond_set, self._J)
            new_stats.append(stats)
        new_stats = np.array(new_stats)
        prune_stats[psi, :] = np.min([prune_stats[psi, :], new_stats], axis=0)
        np.fill_diagonal(prune_stats, 0)
        max_taus = np.max(prune_stats[np.ix_(psi, psi)], axis=1)
        r = psi[np.argmin(max_taus)]
        cut_off = max(cut_off, min(max_taus) * self._alpha)
        theta.append(r)
        psi.remove(r)
    self._causal_order = [*theta, *psi]
    if not self._estimate_adj_mat:
        return self
    if self._Y.shape[0] <= self._Y.shape[1]:
        warnings.warn('Since n_samples <= n_features, the adjacency matrix is estimated with LassoLarsCV instead of LassoLarsIC.')
        return self._estimate_adjacency_matrix2(self._Y)
    return self._estimate_adjacency_matrix(self._Y)


@defines('C07 C08 C09', 'HighDimDirectLiNGAM._estimate_adjacency_matrix2', observe=['field:_adjacency_matrix'], opaque=['%_predict_adaptive_lasso'], part_of=['HighDimDirectLiNGAM.fit'])
def part_HighDimDirectLiNGAM__estimate_adjacency_matrix2(self, X):
    """Estimate adjacency matrix by causal order"""
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if len(predictors) == 0:
            continue
        B[target, predictors] = self._predict_adaptive_lasso(X, predictors, target)
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09', 'HighDimDirectLiNGAM._get_prune_stats', observe=['return'], opaque=['%_calc_tau', '%_calc_taus'], part_of=['HighDimDirectLiNGAM.fit'])
def part_HighDimDirectLiNGAM__get_prune_stats(self, i, j, K, last_root, condition_set, J):
    """get prune stats"""
    j = list(set(j) - {i})
    p = self._Y.shape[1]
    prune_stat = np.array([100000.0 for _ in range(p)])
    if last_root is None:
        prune_stat[j] = [self._calc_tau(K, self._Y[:, i], self._Y[:, j_]) for j_ in j]
        return prune_stat
    size_of_set = min(J, len(condition_set))
    if len(condition_set - {last_root}) == 1:
        condition_sub_set = np.array([list(condition_set - {last_root})]).reshape(1, 1)
    else:
        condition_sub_set = list(itertools.combinations(list(condition_set - {last_root}), size_of_set - 1))
        condition_sub_set = np.array([list(e) for e in condition_sub_set])
    an_sets = np.array([list(condition_set - set(x)) for x in condition_sub_set])
    if len(an_sets) == 1 and an_sets.shape[1] > 0:
        an_sets = an_sets.T
    condition_sub_set = np.concatenate([np.full(len(condition_sub_set), last_root).reshape(-1, 1), condition_sub_set], axis=1).astype(int)
    prune_stat = self._calc_taus(i, j, K, condition_sub_set, an_sets)
    return prune_stat


@defines('C07 C08 C09', 'HighDimDirectLiNGAM._predict_adaptive_lasso', observe=['return'], opaque=[], part_of=['HighDimDirectLiNGAM.fit'])
def part_HighDimDirectLiNGAM__predict_adaptive_lasso(self, X, predictors, target, gamma=1.0):
    """Predict with Adaptive Lasso"""
    scaler = StandardScaler()
    X_std = scaler.fit_transform(X)
    lr = LinearRegression()
    lr.fit(X_std[:, predictors], X_std[:, target])
    weight = np.power(np.abs(lr.coef_), gamma)
    reg = LassoLarsCV()
    reg.fit(X_std[:, predictors] * weight, X_std[:, target])
    pruned_idx = np.abs(reg.coef_ * weight) > 0.0
    coef = np.zeros(reg.coef_.shape)
    if pruned_idx.sum() > 0:
        lr = LinearRegression()
        pred = np.array(predictors)
        lr.fit(X[:, pred[pruned_idx]], X[:, target])
        coef[pruned_idx] = lr.coef_
    return coef


@defines('C07 C08 C09', 'HighDimDirectLiNGAM._calc_taus', observe=['return'], opaque=[], part_of=['HighDimDirectLiNGAM.fit'])
def part_HighDimDirectLiNGAM__calc_taus(self, pa, ch, k, cond_sets, an_sets):
    """calc taus"""
    n = self._Y.shape[0]
    ret = np.empty(self._Y.shape[1])
    ret.fill(10000000000.0)
    for z in range(len(cond_sets)):
        cond = cond_sets[z]
        b = np.linalg.pinv(self._yty[np.ix_(cond, cond)]) @ self._yty[cond, pa]
        resid = (self._Y[:, [pa]] - self._Y[:, cond] @ b.reshape(len(cond), 1)).flatten()
        resid_k_1 = np.power(resid, k - 1)
        resid_var = np.mean(np.power(resid, 2))
        resid_k = np.mean(np.power(resid, k))
        for i in range(len(ch)):
            value = 1.0 / n * np.dot(resid_k_1, self._Y[:, ch[i]]) * resid_var - resid_k * (1.0 / n) * np.dot(resid, self._Y[:, ch[i]])
            ret[ch[i]] = np.min([ret[ch[i]], abs(value)])
        for i in range(an_sets.shape[1]):
            value = 1.0 / n * np.dot(resid_k_1.T, self._Y[:, an_sets[z, i]]) * resid_var - resid_k * (1.0 / n) * np.dot(resid.T, self._Y[:, an_sets[z, i]])
            ret[an_sets[z, i]] = np.min([ret[an_sets[z, i]], abs(value)])
        return ret


@defines('C07 C08 C09', 'HighDimDirectLiNGAM._calc_tau', observe=['return'], opaque=[], part_of=['HighDimDirectLiNGAM.fit'])
def part_HighDimDirectLiNGAM__calc_tau(self, k, pa, ch):
    """calc tau"""
    return abs(np.mean(pa ** (k - 1) * ch) * np.mean(pa ** 2) - np.mean(pa ** k) * np.mean(pa * ch))


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM.fit', observe=['return', 'field:_causal_order', 'field:_adjacency_matrices', 'field:_thresh_p', 'field:_p_list', 'field:_partial_orders'], opaque=['%_estimate_adjacency_matrix', '%_extract_partial_orders', '%_search_causal_order'], part_of=[])
def part_BottomUpParceLiNGAM_fit(self, X):
    """Fit the model to X"""
    self._causal_order = None
    self._adjacency_matrices = None
    X = check_array(X)
    n_features = X.shape[1]
    if self._Aknw is not None:
        if (n_features, n_features) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (n_features, n_features)')
        else:
            self._partial_orders = self._extract_partial_orders(self._Aknw)
    X = X - np.tile(np.mean(X, axis=0), (X.shape[0], 1))
    self._thresh_p = self._alpha / (n_features - 1)
    K_bttm, p_bttm = self._search_causal_order(X)
    U_res = list(np.setdiff1d(np.arange(n_features), K_bttm))
    K = []
    if len(U_res) > 1:
        K = [U_res]
    for i in K_bttm:
        K.append(i)
    self._causal_order = K
    self._p_list = p_bttm
    return self._estimate_adjacency_matrix(X, prior_knowledge=self._Aknw)


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._search_causal_order', observe=['return', 'field:_partial_orders'], opaque=['%_find_exo_vec', '%_is_reject', '%_search_candidate'], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__search_causal_order(self, X):
    """Search causal orders one by one from the bottom upward"""
    U = np.arange(X.shape[1])
    K_bttm = []
    p_bttm = []
    is_search_causal_order = True
    while is_search_causal_order:
        Uc = self._search_candidate(U)
        m, _, eval = self._find_exo_vec(X, Uc, U)
        if not self._is_reject(eval):
            K_bttm = np.append(m, K_bttm).astype(np.int64)
            p_bttm.insert(0, eval)
            U = U[U != m]
            if self._Aknw is not None:
                self._partial_orders = self._partial_orders[self._partial_orders[:, 1] != m]
            if len(U) <= 1:
                K_bttm = np.append(U, K_bttm).astype(np.int64)
                p_bttm.insert(0, 0.0)
                is_search_causal_order = False
        else:
            is_search_causal_order = False
    return (K_bttm, p_bttm)


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._estimate_adjacency_matrix', observe=['field:_adjacency_matrix'], opaque=['%_flatten', 'utils:predict_adaptive_lasso'], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__estimate_adjacency_matrix(self, X, prior_knowledge=None):
    """Estimate adjacency matrix by causal order"""
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._flatten(self._causal_order[:i])
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) != 0:
            B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    for unk_order in self._causal_order:
        if hasattr(unk_order, '__iter__') and (not isinstance(unk_order, str)):
            for i in range(len(unk_order) - 1):
                xi = unk_order[i]
                for xj in unk_order[i + 1:]:
                    B[xi, xj] = np.nan
                    B[xj, xi] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._extract_partial_orders', observe=['return'], opaque=[], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__extract_partial_orders(self, pk):
    """Extract partial orders from prior knowledge"""
    path_pairs = np.array(np.where(pk == 1)).transpose()
    no_path_pairs = np.array(np.where(pk == 0)).transpose()
    check_pairs = np.concatenate([path_pairs, path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        if len(pairs[counts > 1]) > 0:
            raise ValueError(f'The prior knowledge contains inconsistencies at the following indices: {pairs[counts > 1].tolist()}')
    check_pairs = np.concatenate([no_path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        check_pairs = np.concatenate([no_path_pairs, pairs[counts > 1]])
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        no_path_pairs = pairs[counts < 2]
    check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) == 0:
        return check_pairs
    pairs = np.unique(check_pairs, axis=0)
    return pairs[:, [1, 0]]


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._search_candidate', observe=['return'], opaque=[], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__search_candidate(self, U):
    """Search for candidate features"""
    if self._Aknw is None:
        return U
    if len(self._partial_orders) != 0:
        Uc = [i for i in U if i not in self._partial_orders[:, 0]]
        return Uc
    return U


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._find_exo_vec', observe=['return'], opaque=['%_compute_residuals', '%_f_correlation', '%_fisher_hsic_test'], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__find_exo_vec(self, X, Uc, U):
    """Find the most exogenous vector"""
    eval = np.inf
    exo_vec = []
    if len(Uc) == 1:
        m = np.array([Uc[0]])
        predictors = np.setdiff1d(U, Uc[0])
        R = self._compute_residuals(X, predictors, m)
        if self._independence == 'hsic':
            eval, _ = self._fisher_hsic_test(X[:, predictors], R, np.inf)
        elif self._independence == 'fcorr':
            eval = self._f_correlation(X[:, predictors], R)
        return (m, [], eval)
    else:
        max_p_stat = np.inf
        for j in range(len(Uc)):
            xi_index = np.setdiff1d(Uc, Uc[j])
            xj_index = np.array([Uc[j]])
            R = self._compute_residuals(X, xi_index, xj_index)
            if self._independence == 'hsic':
                fisher_p, fisher_stat = self._fisher_hsic_test(X[:, xi_index], R, max_p_stat)
                if fisher_stat < max_p_stat:
                    exo_vec = xi_index
                    eval = fisher_p
                    max_p_stat = fisher_stat
            elif self._independence == 'fcorr':
                f_corr = self._f_correlation(X[:, xi_index], R)
                if f_corr < eval:
                    exo_vec = xi_index
                    eval = f_corr
        m = np.setdiff1d(Uc, exo_vec)
    return (m, exo_vec, eval)


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._is_reject', observe=['return'], opaque=[], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__is_reject(self, eval):
    """is reject"""
    is_reject = False
    if self._independence == 'hsic':
        if eval < self._thresh_p:
            is_reject = True
    elif self._independence == 'fcorr':
        if eval >= self._ind_corr:
            is_reject = True
    return is_reject


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._flatten', observe=['return'], opaque=[], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__flatten(self, arr):
    """Return a copy of an array flattened in one dimension"""
    return [val for item in arr for val in (part_BottomUpParceLiNGAM__flatten(self, item) if hasattr(item, '__iter__') and (not isinstance(item, str)) else [item])]


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._compute_residuals', observe=['return'], opaque=[], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__compute_residuals(self, X, predictors, target):
    """Compute residuals"""
    if self._reg is None:
        cov = np.cov(X.T)
        coef = np.dot(np.linalg.pinv(cov[np.ix_(predictors, predictors)]), cov[np.ix_(target, predictors)].reshape(predictors.shape[0], 1))
        R = X[:, target] - np.dot(X[:, predictors], coef)
    else:
        self._reg.fit(X[:, predictors], np.ravel(X[:, target]))
        R = X[:, target] - self._reg.predict(X[:, predictors]).reshape(-1, 1)
    return R


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._fisher_hsic_test', observe=['return'], opaque=['hsic:hsic_test_gamma'], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__fisher_hsic_test(self, X, R, max_p_stat):
    """Conduct statistical test by HSIC and Fisher's method"""
    fisher_stat = 0
    n_features = X.shape[1]
    if n_features == 1:
        fisher_stat, fisher_p = hsic_test_gamma(X, R)
    else:
        for i in range(n_features):
            _, hsic_p = hsic_test_gamma(X[:, [i]], R)
            fisher_stat += np.inf if hsic_p == 0 else -2 * np.log(hsic_p)
            if fisher_stat > max_p_stat:
                break
        fisher_p = 1 - chi2.cdf(fisher_stat, df=2 * n_features)
    return (fisher_p, fisher_stat)


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM._f_correlation', observe=['return'], opaque=['utils._f_correlation:f_correlation'], part_of=['BottomUpParceLiNGAM.fit'])
def part_BottomUpParceLiNGAM__f_correlation(self, X, R):
    """Determine independence by F-correlation"""
    max_f_corr = 0.0
    n_features = X.shape[1]
    if n_features == 1:
        max_f_corr = f_correlation(X, R)
    else:
        for i in range(n_features):
            f_corr = f_correlation(X[:, [i]], R)
            if f_corr > max_f_corr:
                max_f_corr = f_corr
    return max_f_corr


@defines('C08 C09', 'RESIT.fit', observe=['field:_causal_order', 'field:_adjacency_matrix'], opaque=['%_estimate_order', '%_remove_edges'], part_of=[])
def part_RESIT_fit(self, X):
    """Fit the model to X"""
    X = check_array(X)
    n_features = X.shape[1]
    pa, pi = self._estimate_order(X)
    pa = self._remove_edges(X, pa, pi)
    adjacency_matrix = np.zeros([n_features, n_features])
    for i, parents in pa.items():
        for p in parents:
            adjacency_matrix[i, p] = 1
    self._causal_order = pi
    self._adjacency_matrix = adjacency_matrix
    return self


@defines('C08 C09', 'RESIT._estimate_order', observe=['return', 'call:.fit'], opaque=['hsic:hsic_test_gamma'], part_of=['RESIT.fit'])
def part_RESIT__estimate_order(self, X):
    """Determine topological order"""
    S = np.arange(X.shape[1])
    pa = {}
    pi = []
    for _ in range(X.shape[1]):
        if len(S) == 1:
            pa[S[0]] = []
            pi.insert(0, S[0])
            continue
        hsic_stats = []
        for k in S:
            predictors = [i for i in S if i != k]
            self._reg.fit(X[:, predictors], X[:, k])
            residual = X[:, k] - self._reg.predict(X[:, predictors])
            hsic_stat, hsic_p = hsic_test_gamma(residual, X[:, predictors])
            hsic_stats.append(hsic_stat)
        k = S[np.argmin(hsic_stats)]
        S = S[S != k]
        pa[k] = S.tolist()
        pi.insert(0, k)
    return (pa, pi)


@defines('C08 C09', 'RESIT._remove_edges', observe=['return', 'call:.fit'], opaque=['hsic:hsic_test_gamma'], part_of=['RESIT.fit'])
def part_RESIT__remove_edges(self, X, pa, pi):
    """Remove superfluous edges"""
    for k in range(1, X.shape[1]):
        parents = pa[pi[k]].copy()
        for l in parents:
            predictors = [i for i in pa[pi[k]] if i != l]
            if len(predictors) < 1:
                continue
            self._reg.fit(X[:, predictors], X[:, pi[k]])
            residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
            _, hsic_p = hsic_test_gamma(residual, X[:, predictors])
            if hsic_p > self._alpha:
                pa[pi[k]].remove(l)
    return pa


@defines('C09 C19', 'RCD.fit', observe=['return', 'field:_ancestors_list'], opaque=['%_estimate_adjacency_matrix', '%_extract_ancestors', '%_extract_parents', '%_extract_vars_sharing_confounders'], part_of=[])
def part_RCD_fit(self, X):
    """Fit the model to X"""
    X = check_array(X)
    M = self._extract_ancestors(X)
    P = self._extract_parents(X, M)
    C = self._extract_vars_sharing_confounders(X, P)
    self._ancestors_list = M
    return self._estimate_adjacency_matrix(X, P, C)


@defines('C09 C19', 'RCD._extract_ancestors', observe=['return'], opaque=['%_exists_ancestor_in_U', '%_get_common_ancestors', '%_get_residual_matrix', '%_is_correlated', '%_is_independent_of_resid', '%_is_non_gaussianity'], part_of=['RCD.fit'])
def part_RCD__extract_ancestors(self, X):
    """Extract a set of ancestors of each variable"""
    n_features = X.shape[1]
    M = [set() for i in range(n_features)]
    l = 1
    hu_history = {}
    while True:
        changed = False
        U_list = itertools.combinations(range(n_features), l + 1)
        for U in U_list:
            U = list(U)
            U.sort()
            H_U = self._get_common_ancestors(M, U)
            if tuple(U) in hu_history and H_U == hu_history[tuple(U)]:
                continue
            Y = self._get_residual_matrix(X, U, H_U)
            if not self._is_non_gaussianity(Y, U):
                continue
            is_cor = True
            for xi, xj in itertools.combinations(U, 2):
                if not self._is_correlated(Y[:, xi], Y[:, xj]):
                    is_cor = False
                    break
            if not is_cor:
                continue
            sink_set = []
            for xi in U:
                xj_list = list(set(U) - set([xi]))
                if self._exists_ancestor_in_U(M, U, xi, xj_list):
                    continue
                if self._is_independent_of_resid(Y, xi, xj_list):
                    sink_set.append(xi)
            if len(sink_set) == 1:
                xi = sink_set[0]
                xj_list = list(set(U) - set(sink_set))
                if not M[xi] == M[xi] | set(xj_list):
                    M[xi] = M[xi] | set(xj_list)
                    changed = True
            hu_history[tuple(U)] = H_U
        if changed:
            l = 1
        elif l < self._max_explanatory_num:
            l += 1
        else:
            break
    return M


@defines('C09 C19', 'RCD._extract_parents', observe=['return'], opaque=['%_is_parent'], part_of=['RCD.fit'])
def part_RCD__extract_parents(self, X, M):
    """Extract parents (direct causes) from a set of ancestors"""
    n_features = X.shape[1]
    P = [set() for i in range(n_features)]
    for xi in range(n_features):
        for xj in M[xi]:
            if self._is_parent(X, M, xj, xi):
                P[xi].add(xj)
    return P


@defines('C09 C19', 'RCD._extract_vars_sharing_confounders', observe=['return'], opaque=['%_get_resid_to_parent', '%_is_correlated'], part_of=['RCD.fit'])
def part_RCD__extract_vars_sharing_confounders(self, X, P):
    """Find the pairs of variables affected by the same latent confounders"""
    n_features = X.shape[1]
    C = [set() for i in range(n_features)]
    for i, j in itertools.combinations(range(n_features), 2):
        if i in P[j] or j in P[i]:
            continue
        resid_xi = self._get_resid_to_parent(X, i, P)
        resid_xj = self._get_resid_to_parent(X, j, P)
        if self._is_correlated(resid_xi, resid_xj):
            C[i].add(j)
            C[j].add(i)
    return C


@defines('C09 C19', 'RCD._estimate_adjacency_matrix', observe=['field:_adjacency_matrix'], opaque=['%_get_resid_and_coef'], part_of=['RCD.fit'])
def part_RCD__estimate_adjacency_matrix(self, X, P, C):
    """Estimate adjacency matrix by causal parents and confounders"""
    n_features = X.shape[1]
    B = np.zeros([n_features, n_features], dtype='float64')
    for xi in range(n_features):
        xj_list = list(P[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        _, coef = self._get_resid_and_coef(X, xi, xj_list)
        for j, xj in enumerate(xj_list):
            B[xi, xj] = coef[j]
    for xi in range(n_features):
        xj_list = list(C[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        for xj in xj_list:
            B[xi, xj] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C09 C19', 'RCD._get_common_ancestors', observe=['return'], opaque=[], part_of=['RCD.fit'])
def part_RCD__get_common_ancestors(self, M, U):
    """Get the set of common ancestors of U"""
    Mj_list = [M[xj] for xj in U]
    return set.intersection(*Mj_list)


@defines('C09 C19', 'RCD._get_residual_matrix', observe=['return'], opaque=['%_get_resid_and_coef'], part_of=['RCD.fit'])
def part_RCD__get_residual_matrix(self, X, U, H_U):
    """get residual matrix"""
    if len(H_U) == 0:
        return X
    Y = np.zeros_like(X)
    for xj in U:
        Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
    return Y


@defines('C09 C19', 'RCD._is_non_gaussianity', observe=['return'], opaque=[], part_of=['RCD.fit'])
def part_RCD__is_non_gaussianity(self, Y, U):
    """Test whether a variable is generated from a non-Gaussian process using the Shapiro-Wilk test"""
    for xj in U:
        if shapiro(Y[:, xj])[1] > self._shapiro_alpha:
            return False
    return True


@defines('C09 C19', 'RCD._exists_ancestor_in_U', observe=['return'], opaque=[], part_of=['RCD.fit'])
def part_RCD__exists_ancestor_in_U(self, M, U, xi, xj_list):
    """exists ancestor in U"""
    for xj in xj_list:
        if xi in M[xj]:
            return True
    if set(xj_list) == set(xj_list) & M[xi]:
        return True
    return False


@defines('C09 C19', 'RCD._is_independent_of_resid', observe=['return'], opaque=['%_get_resid_and_coef', '%_get_resid_and_coef_by_MLHSICR', '%_is_independent'], part_of=['RCD.fit'])
def part_RCD__is_independent_of_resid(self, Y, xi, xj_list):
    """Check whether the residuals obtained from multiple regressions are independent"""
    n_samples = Y.shape[0]
    is_all_independent = True
    resid, _ = self._get_resid_and_coef(Y, xi, xj_list)
    for xj in xj_list:
        if not self._is_independent(np.reshape(resid, [n_samples, 1]), np.reshape(Y[:, xj], [n_samples, 1])):
            is_all_independent = False
            break
    if is_all_independent:
        return True
    elif len(xj_list) == 1 or self._MLHSICR is False:
        return False
    resid, _ = self._get_resid_and_coef_by_MLHSICR(Y, xi, xj_list)
    for xj in xj_list:
        if not self._is_independent(np.reshape(resid, [n_samples, 1]), np.reshape(Y[:, xj], [n_samples, 1])):
            return False
    return True


@defines('C09 C19', 'RCD._is_correlated', observe=['return'], opaque=[], part_of=['RCD.fit'])
def part_RCD__is_correlated(self, a, b):
    """Estimate that the two variables are linearly correlated using the Pearson's correlation"""
    return pearsonr(a, b)[1] < self._cor_alpha


@defines('C09 C19', 'RCD._is_parent', observe=['return'], opaque=['%_get_resid_and_coef', '%_is_correlated'], part_of=['RCD.fit'])
def part_RCD__is_parent(self, X, M, xj, xi):
    """is parent"""
    if len(M[xi] - set([xj])) > 0:
        zi, _ = self._get_resid_and_coef(X, xi, list(M[xi] - set([xj])))
    else:
        zi = X[:, xi]
    if len(M[xi] & M[xj]) > 0:
        wj, _ = self._get_resid_and_coef(X, xj, list(M[xi] & M[xj]))
    else:
        wj = X[:, xj]
    return self._is_correlated(wj, zi)


@defines('C09 C19', 'RCD._get_resid_to_parent', observe=['return'], opaque=['%_get_resid_and_coef'], part_of=['RCD.fit'])
def part_RCD__get_resid_to_parent(self, X, idx, P):
    """get resid to parent"""
    if len(P[idx]) == 0:
        return X[:, idx]
    resid, _ = self._get_resid_and_coef(X, idx, list(P[idx]))
    return resid


@defines('C09 C19', 'RCD._get_resid_and_coef', observe=['return'], opaque=[], part_of=['RCD.fit'])
def part_RCD__get_resid_and_coef(self, X, endog_idx, exog_idcs):
    """Get the residuals and coefficients of the ordinary least squares method"""
    lr = LinearRegression()
    lr.fit(X[:, exog_idcs], X[:, endog_idx])
    resid = X[:, endog_idx] - lr.predict(X[:, exog_idcs])
    return (resid, lr.coef_)


@defines('C09 C19', 'RCD._get_resid_and_coef_by_MLHSICR', observe=['return'], opaque=['%_get_resid_and_coef', 'hsic:get_gram_matrix', 'hsic:get_kernel_width', 'hsic:hsic_teststat'], part_of=['RCD.fit'])
def part_RCD__get_resid_and_coef_by_MLHSICR(self, Y, xi, xj_list):
    """Get the residuals and coefficients by minimizing the sum of HSICs using the L-BFGS method"""
    n_samples = Y.shape[0]
    width_list = []
    Lc_list = []
    for xj in xj_list:
        yj = np.reshape(Y[:, xj], [n_samples, 1])
        width_xj = get_kernel_width(yj)
        _, Lc = get_gram_matrix(yj, width_xj)
        width_list.append(width_xj)
        Lc_list.append(Lc)
    _, initial_coef = self._get_resid_and_coef(Y, xi, xj_list)
    width_xi = get_kernel_width(np.reshape(Y[:, xi], [n_samples, 1]))

    def sum_empirical_hsic(coef):
        resid = Y[:, xi]
        width = width_xi
        for j, xj in enumerate(xj_list):
            resid = resid - coef[j] * Y[:, xj]
            width = width - coef[j] * width_list[j]
        _, Kc = get_gram_matrix(np.reshape(resid, [n_samples, 1]), width)
        objective = 0.0
        for j, xj in enumerate(xj_list):
            objective += hsic_teststat(Kc, Lc_list[j], n_samples)
        return objective
    coefs, _, _ = fmin_l_bfgs_b(func=sum_empirical_hsic, x0=initial_coef, approx_grad=True)
    resid = Y[:, xi]
    for j, xj in enumerate(xj_list):
        resid = resid - coefs[j] * Y[:, xj]
    return (resid, coefs)


@defines('C09 C19', 'RCD._is_independent', observe=['return'], opaque=['hsic:hsic_test_gamma', 'utils._f_correlation:f_correlation'], part_of=['RCD.fit'])
def part_RCD__is_independent(self, X, Y):
    """is independent"""
    is_independent = False
    if self._independence == 'hsic':
        _, p = hsic_test_gamma(X, Y, bw_method=self._bw_method)
        is_independent = p > self._ind_alpha
    elif self._independence == 'fcorr':
        f_corr = f_correlation(X, Y)
        is_independent = f_corr < self._ind_corr
    return is_independent


@defines('C09 C13 C19', 'MultiGroupRCD.fit', observe=['field:_ancestors_list', 'field:_adjacency_matrices'], opaque=['%_check_X_list', '%_estimate_adjacency_matrix', '%_extract_ancestors', '%_extract_parents', '%_extract_vars_sharing_confounders'], part_of=[])
def part_MultiGroupRCD_fit(self, X_list):
    """Fit the model to multiple datasets"""
    X_list = self._check_X_list(X_list)
    M = self._extract_ancestors(X_list)
    P = self._extract_parents(X_list, M)
    C = self._extract_vars_sharing_confounders(X_list, P)
    self._ancestors_list = M
    self._adjacency_matrices = []
    for X in X_list:
        adjacency_matrix = self._estimate_adjacency_matrix(X, P, C)
        self._adjacency_matrices.append(adjacency_matrix)
    return self


@defines('C09 C13 C19', 'MultiGroupRCD._check_X_list', observe=['return', 'field:_k', 'field:_n_features'], opaque=[], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__check_X_list(self, X_list):
    """Check input X list"""
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._k = len(X_list)
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C09 C13 C19', 'MultiGroupRCD._extract_ancestors', observe=['return'], opaque=['%_exists_ancestor_in_U', '%_get_common_ancestors', '%_get_residual_matrix', '%_is_correlated', '%_is_independent_of_resid', '%_is_non_gaussianity'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__extract_ancestors(self, X_list):
    """Extract a set of ancestors of each variable"""
    M = [set() for i in range(self._n_features)]
    l = 1
    hu_history = {}
    while True:
        changed = False
        U_list = itertools.combinations(range(self._n_features), l + 1)
        for U in U_list:
            U = list(U)
            U.sort()
            H_U = self._get_common_ancestors(M, U)
            if tuple(U) in hu_history and H_U == hu_history[tuple(U)]:
                continue
            Y_list = []
            for X in X_list:
                Y_list.append(self._get_residual_matrix(X, U, H_U))
            if not self._is_non_gaussianity(Y_list, U):
                continue
            if not self._is_correlated(Y_list, U):
                continue
            sink_set = []
            for xi in U:
                xj_list = list(set(U) - set([xi]))
                if self._exists_ancestor_in_U(M, U, xi, xj_list):
                    continue
                if self._is_independent_of_resid(Y_list, xi, xj_list):
                    sink_set.append(xi)
            if len(sink_set) == 1:
                xi = sink_set[0]
                xj_list = list(set(U) - set(sink_set))
                if not M[xi] == M[xi] | set(xj_list):
                    M[xi] = M[xi] | set(xj_list)
                    changed = True
            hu_history[tuple(U)] = H_U
        if changed:
            l = 1
        elif l < self._max_explanatory_num:
            l += 1
        else:
            break
    return M


@defines('C09 C13 C19', 'MultiGroupRCD._extract_parents', observe=['return'], opaque=['%_is_parent'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__extract_parents(self, X_list, M):
    """Extract parents (direct causes) from a set of ancestors"""
    P = [set() for i in range(self._n_features)]
    for xi in range(self._n_features):
        for xj in M[xi]:
            if self._is_parent(X_list, M, xj, xi):
                P[xi].add(xj)
    return P


@defines('C09 C13 C19', 'MultiGroupRCD._extract_vars_sharing_confounders', observe=['return'], opaque=['%_get_resid_to_parent'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__extract_vars_sharing_confounders(self, X_list, P):
    """Find the pairs of variables affected by the same latent confounders"""
    C = [set() for i in range(self._n_features)]
    for i, j in itertools.combinations(range(self._n_features), 2):
        if i in P[j] or j in P[i]:
            continue
        fisher_stat = 0
        for X in X_list:
            resid_xi = self._get_resid_to_parent(X, i, P)
            resid_xj = self._get_resid_to_parent(X, j, P)
            corr_p = pearsonr(resid_xi, resid_xj)[1]
            fisher_stat += np.inf if corr_p == 0 else -2 * np.log(corr_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        if fisher_p < self._cor_alpha:
            C[i].add(j)
            C[j].add(i)
    return C


@defines('C09 C13 C19', 'MultiGroupRCD._estimate_adjacency_matrix', observe=['return'], opaque=['%_get_resid_and_coef'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__estimate_adjacency_matrix(self, X, P, C):
    """estimate adjacency matrix"""
    B = np.zeros([self._n_features, self._n_features], dtype='float64')
    for xi in range(self._n_features):
        xj_list = list(P[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        _, coef = self._get_resid_and_coef(X, xi, xj_list)
        for j, xj in enumerate(xj_list):
            B[xi, xj] = coef[j]
    for xi in range(self._n_features):
        xj_list = list(C[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        for xj in xj_list:
            B[xi, xj] = np.nan
    return B


@defines('C09 C13 C19', 'MultiGroupRCD._get_common_ancestors', observe=['return'], opaque=[], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__get_common_ancestors(self, M, U):
    """Get the set of common ancestors of U"""
    Mj_list = [M[xj] for xj in U]
    return set.intersection(*Mj_list)


@defines('C09 C13 C19', 'MultiGroupRCD._is_non_gaussianity', observe=['return'], opaque=[], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__is_non_gaussianity(self, Y_list, U):
    """Test whether a variable is generated from a non-Gaussian process using the Shapiro-Wilk test"""
    for xj in U:
        fisher_stat = 0
        for Y in Y_list:
            shapiro_p = shapiro(Y[:, xj])[1]
            fisher_stat += np.inf if shapiro_p == 0 else -2 * np.log(shapiro_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        if fisher_p > self._shapiro_alpha:
            return False
    return True


@defines('C09 C13 C19', 'MultiGroupRCD._is_correlated', observe=['return'], opaque=[], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__is_correlated(self, Y_list, U):
    """is correlated"""
    for xi, xj in itertools.combinations(U, 2):
        fisher_stat = 0
        for Y in Y_list:
            corr_p = pearsonr(Y[:, xi], Y[:, xj])[1]
            fisher_stat += np.inf if corr_p == 0 else -2 * np.log(corr_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        if fisher_p >= self._cor_alpha:
            return False
    return True


@defines('C09 C13 C19', 'MultiGroupRCD._exists_ancestor_in_U', observe=['return'], opaque=[], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__exists_ancestor_in_U(self, M, U, xi, xj_list):
    """exists ancestor in U"""
    for xj in xj_list:
        if xi in M[xj]:
            return True
    if set(xj_list) == set(xj_list) & M[xi]:
        return True
    return False


@defines('C09 C13 C19', 'MultiGroupRCD._is_independent_of_resid', observe=['return'], opaque=['%_get_resid_and_coef', '%_get_resid_and_coef_by_MLHSICR', '%_is_independent'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__is_independent_of_resid(self, Y_list, xi, xj_list):
    """Check whether the residuals obtained from multiple regressions are independent"""
    resid_list = []
    for Y in Y_list:
        resid, _ = self._get_resid_and_coef(Y, xi, xj_list)
        resid_list.append(resid)
    is_all_independent = True
    for xj in xj_list:
        is_independent = self._is_independent(resid_list, Y_list, xj)
        if not is_independent:
            is_all_independent = False
            break
    if is_all_independent:
        return True
    elif len(xj_list) == 1 or self._MLHSICR is False:
        return False
    resid_list = []
    for Y in Y_list:
        resid, _ = self._get_resid_and_coef_by_MLHSICR(Y, xi, xj_list)
        resid_list.append(resid)
    for xj in xj_list:
        is_independent = self._is_independent(resid_list, Y_list, xj)
        if not is_independent:
            return False
    return True


@defines('C09 C13 C19', 'MultiGroupRCD._get_residual_matrix', observe=['return'], opaque=['%_get_resid_and_coef'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__get_residual_matrix(self, X, U, H_U):
    """get residual matrix"""
    if len(H_U) == 0:
        return X
    Y = np.zeros_like(X)
    for xj in U:
        Y[:, xj], _ = self._get_resid_and_coef(X, xj, list(H_U))
    return Y


@defines('C09 C13 C19', 'MultiGroupRCD._is_parent', observe=['return'], opaque=['%_get_resid_and_coef'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__is_parent(self, X_list, M, xj, xi):
    """is parent"""
    fisher_stat = 0
    for X in X_list:
        if len(M[xi] - set([xj])) > 0:
            zi, _ = self._get_resid_and_coef(X, xi, list(M[xi] - set([xj])))
        else:
            zi = X[:, xi]
        if len(M[xi] & M[xj]) > 0:
            wj, _ = self._get_resid_and_coef(X, xj, list(M[xi] & M[xj]))
        else:
            wj = X[:, xj]
        corr_p = pearsonr(wj, zi)[1]
        fisher_stat += np.inf if corr_p == 0 else -2 * np.log(corr_p)
    fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
    return fisher_p < self._cor_alpha


@defines('C09 C13 C19', 'MultiGroupRCD._get_resid_to_parent', observe=['return'], opaque=['%_get_resid_and_coef'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__get_resid_to_parent(self, X, idx, P):
    """get resid to parent"""
    if len(P[idx]) == 0:
        return X[:, idx]
    resid, _ = self._get_resid_and_coef(X, idx, list(P[idx]))
    return resid


@defines('C09 C13 C19', 'MultiGroupRCD._get_resid_and_coef', observe=['return'], opaque=[], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__get_resid_and_coef(self, X, endog_idx, exog_idcs):
    """Get the residuals and coefficients of the ordinary least squares method"""
    lr = LinearRegression()
    lr.fit(X[:, exog_idcs], X[:, endog_idx])
    resid = X[:, endog_idx] - lr.predict(X[:, exog_idcs])
    return (resid, lr.coef_)


@defines('C09 C13 C19', 'MultiGroupRCD._is_independent', observe=['return'], opaque=['hsic:hsic_test_gamma', 'utils._f_correlation:f_correlation'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__is_independent(self, X_list, Y_list, xj):
    """is independent"""
    if self._independence == 'hsic':
        fisher_stat = 0
        for i, Y in enumerate(Y_list):
            _, hsic_p = hsic_test_gamma(X_list[i], Y[:, xj], bw_method=self._bw_method)
            fisher_stat += np.inf if hsic_p == 0 else -2 * np.log(hsic_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        is_independent = fisher_p > self._ind_alpha
    elif self._independence == 'fcorr':
        max_f_corr = 0.0
        for i, Y in enumerate(Y_list):
            f_corr = f_correlation(X_list[i], Y[:, xj])
            if f_corr > max_f_corr:
                max_f_corr = f_corr
        is_independent = max_f_corr < self._ind_corr
    return is_independent


@defines('C09 C13 C19', 'MultiGroupRCD._get_resid_and_coef_by_MLHSICR', observe=['return'], opaque=['%_get_resid_and_coef', 'hsic:get_gram_matrix', 'hsic:get_kernel_width', 'hsic:hsic_teststat'], part_of=['MultiGroupRCD.fit'])
def part_MultiGroupRCD__get_resid_and_coef_by_MLHSICR(self, Y, xi, xj_list):
    """Get the residuals and coefficients by minimizing the sum of HSICs using the L-BFGS method"""
    n_samples = Y.shape[0]
    width_list = []
    Lc_list = []
    for xj in xj_list:
        yj = np.reshape(Y[:, xj], [n_samples, 1])
        width_xj = get_kernel_width(yj)
        _, Lc = get_gram_matrix(yj, width_xj)
        width_list.append(width_xj)
        Lc_list.append(Lc)
    _, initial_coef = self._get_resid_and_coef(Y, xi, xj_list)
    width_xi = get_kernel_width(np.reshape(Y[:, xi], [n_samples, 1]))

    def sum_empirical_hsic(coef):
        resid = Y[:, xi]
        width = width_xi
        for j, xj in enumerate(xj_list):
            resid = resid - coef[j] * Y[:, xj]
            width = width - coef[j] * width_list[j]
        _, Kc = get_gram_matrix(np.reshape(resid, [n_samples, 1]), width)
        objective = 0.0
        for j, xj in enumerate(xj_list):
            objective += hsic_teststat(Kc, Lc_list[j], n_samples)
        return objective
    coefs, _, _ = fmin_l_bfgs_b(func=sum_empirical_hsic, x0=initial_coef, approx_grad=True)
    resid = Y[:, xi]
    for j, xj in enumerate(xj_list):
        resid = resid - coefs[j] * Y[:, xj]
    return (resid, coefs)


@defines('C07 C08 C09 C13', 'MultiGroupDirectLiNGAM.fit', observe=['field:_causal_order', 'field:_adjacency_matrices', 'field:_partial_orders'], opaque=['%_check_X_list', '%_estimate_adjacency_matrix', '%_extract_partial_orders', '%_residual', '%_search_causal_order'], part_of=[])
def part_MultiGroupDirectLiNGAM_fit(self, X_list):
    """Fit the model to multiple datasets"""
    X_list = self._check_X_list(X_list)
    if self._Aknw is not None:
        if (self._n_features, self._n_features) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (n_features, n_features)')
        elif not self._apply_prior_knowledge_softly:
            self._partial_orders = self._extract_partial_orders(self._Aknw)
    U = np.arange(self._n_features)
    K = []
    X_list_ = [np.copy(X) for X in X_list]
    for _ in range(self._n_features):
        m = self._search_causal_order(X_list_, U)
        for i in U:
            if i != m:
                for d in range(len(X_list_)):
                    X_list_[d][:, i] = self._residual(X_list_[d][:, i], X_list_[d][:, m])
        K.append(m)
        U = U[U != m]
        if self._Aknw is not None and (not self._apply_prior_knowledge_softly):
            self._partial_orders = self._partial_orders[self._partial_orders[:, 0] != m]
    self._causal_order = K
    self._adjacency_matrices = []
    for X in X_list:
        self._estimate_adjacency_matrix(X, prior_knowledge=self._Aknw)
        self._adjacency_matrices.append(self._adjacency_matrix)
    return self


@defines('C07 C08 C09 C13', 'MultiGroupDirectLiNGAM._check_X_list', observe=['return', 'field:_n_features'], opaque=[], part_of=['MultiGroupDirectLiNGAM.fit'])
def part_MultiGroupDirectLiNGAM__check_X_list(self, X_list):
    """Check input X list"""
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C07 C08 C09 C13', 'MultiGroupDirectLiNGAM._search_causal_order', observe=['return'], opaque=['%_diff_mutual_info', '%_residual', '%_search_candidate'], part_of=['MultiGroupDirectLiNGAM.fit'])
def part_MultiGroupDirectLiNGAM__search_causal_order(self, X_list, U):
    """Search the causal ordering"""
    Uc, Vj = self._search_candidate(U)
    if len(Uc) == 1:
        return Uc[0]
    total_size = 0
    for X in X_list:
        total_size += len(X)
    MG_list = []
    for i in Uc:
        MG = 0
        for X in X_list:
            M = 0
            for j in U:
                if i != j:
                    xi_std = (X[:, i] - np.mean(X[:, i])) / np.std(X[:, i])
                    xj_std = (X[:, j] - np.mean(X[:, j])) / np.std(X[:, j])
                    ri_j = xi_std if i in Vj and j in Uc else self._residual(xi_std, xj_std)
                    rj_i = xj_std if j in Vj and i in Uc else self._residual(xj_std, xi_std)
                    M += np.min([0, self._diff_mutual_info(xi_std, xj_std, ri_j, rj_i)]) ** 2
            MG += M * (len(X) / total_size)
        MG_list.append(-1.0 * MG)
    return Uc[np.argmax(MG_list)]


@defines('C07 C09 C19', 'CAMUV.fit', observe=['return', 'field:_U', 'field:_P'], opaque=['%_estimate_adjacency_matrix', '%_find_parents', '%_get_neighborhoods', '%_get_residual', '%_is_independent'], part_of=[])
def part_CAMUV_fit(self, X):
    """Fit the model to X"""
    X = check_array(X)
    n = X.shape[0]
    d = X.shape[1]
    N = self._get_neighborhoods(X)
    P = self._find_parents(X, self._num_explanatory_vals, N)
    U = []
    for i in range(d):
        for j in range(d)[i + 1:]:
            if i in P[j] or j in P[i]:
                continue
            if i not in N[j] or j not in N[i]:
                continue
            i_residual = self._get_residual(X, i, P[i])
            j_residual = self._get_residual(X, j, P[j])
            in_X = np.reshape(i_residual, [n, 1])
            in_Y = np.reshape(j_residual, [n, 1])
            if not self._is_independent(in_X, in_Y):
                if not set([i, j]) in U:
                    U.append(set([i, j]))
    self._U = U
    self._P = P
    return self._estimate_adjacency_matrix(X, P, U)


@defines('C07 C09 C19', 'CAMUV._get_neighborhoods', observe=['return'], opaque=['%_is_independent'], part_of=['CAMUV.fit'])
def part_CAMUV__get_neighborhoods(self, X):
    """get neighborhoods"""
    n = X.shape[0]
    d = X.shape[1]
    N = [set() for i in range(d)]
    for i in range(d):
        for j in range(d)[i + 1:]:
            in_X = np.reshape(X[:, i], [n, 1])
            in_Y = np.reshape(X[:, j], [n, 1])
            if not self._is_independent(in_X, in_Y):
                N[i].add(j)
                N[j].add(i)
    return N


@defines('C07 C09 C19', 'CAMUV._find_parents', observe=['return'], opaque=['%_check_identified_causality', '%_check_independence_withou_K', '%_get_child', '%_get_residual', '%_get_residuals_matrix', '%_is_independent'], part_of=['CAMUV.fit'])
def part_CAMUV__find_parents(self, X, maxnum_vals, N):
    """find parents"""
    n = X.shape[0]
    d = X.shape[1]
    P = [set() for i in range(d)]
    t = 2
    Y = copy.deepcopy(X)
    while True:
        changed = False
        variables_set_list = list(itertools.combinations(set(range(d)), t))
        for variables_set in variables_set_list:
            variables_set = set(variables_set)
            if not self._check_identified_causality(variables_set, P):
                continue
            child, is_independence_with_K = self._get_child(X, variables_set, P, N, Y)
            if child is None:
                continue
            if not is_independence_with_K:
                continue
            parents = variables_set - {child}
            if not self._check_independence_withou_K(parents, child, P, N, Y):
                continue
            for parent in parents:
                P[child].add(parent)
                changed = True
                Y = self._get_residuals_matrix(X, Y, P, child)
        if changed:
            t = 2
        else:
            t += 1
            if t > maxnum_vals:
                break
    for i in range(d):
        non_parents = set()
        for j in P[i]:
            residual_i = self._get_residual(X, i, P[i] - {j})
            residual_j = self._get_residual(X, j, P[j])
            in_X = np.reshape(residual_i, [n, 1])
            in_Y = np.reshape(residual_j, [n, 1])
            if self._is_independent(in_X, in_Y):
                non_parents.add(j)
        P[i] = P[i] - non_parents
    return P


@defines('C07 C09 C19', 'CAMUV._estimate_adjacency_matrix', observe=['field:_adjacency_matrix'], opaque=[], part_of=['CAMUV.fit'])
def part_CAMUV__estimate_adjacency_matrix(self, X, P, U):
    """estimate adjacency matrix"""
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i, parents in enumerate(P):
        for parent in parents:
            B[i, parent] = 1
    for confounded_pair in U:
        confounded_pair = list(confounded_pair)
        B[confounded_pair[0], confounded_pair[1]] = np.nan
        B[confounded_pair[1], confounded_pair[0]] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C07 C09 C19', 'CAMUV._get_residual', observe=['return'], opaque=[], part_of=['CAMUV.fit'])
def part_CAMUV__get_residual(self, X, explained_i, explanatory_ids):
    """get residual"""
    explanatory_ids = list(explanatory_ids)
    if len(explanatory_ids) == 0:
        residual = X[:, explained_i]
    else:
        gam = LinearGAM().fit(X[:, explanatory_ids], X[:, explained_i])
        residual = X[:, explained_i] - gam.predict(X[:, explanatory_ids])
    return residual


@defines('C07 C09 C19', 'CAMUV._is_independent', observe=['return'], opaque=['%_is_independent_by'], part_of=['CAMUV.fit'])
def part_CAMUV__is_independent(self, X, Y):
    """is independent"""
    if self._independence == 'hsic':
        threshold = self._alpha
    elif self._independence == 'fcorr':
        threshold = self._ind_corr
    is_independent, _ = self._is_independent_by(X, Y, threshold)
    return is_independent


@defines('C07 C09 C19', 'CAMUV._get_child', observe=['return'], opaque=['%_check_correlation', '%_check_prior_knowledge', '%_get_residual', '%_is_independent_by'], part_of=['CAMUV.fit'])
def part_CAMUV__get_child(self, X, variables_set, P, N, Y):
    """get child"""
    n = X.shape[0]
    prev_independence = 0.0 if self._independence == 'hsic' else 1.0
    max_independence_child = None
    for child in variables_set:
        parents = variables_set - {child}
        if self._check_prior_knowledge(parents, child):
            continue
        if not self._check_correlation(child, parents, N):
            continue
        residual = self._get_residual(X, child, parents | P[child])
        in_X = np.reshape(residual, [n, 1])
        in_Y = np.reshape(Y[:, list(parents)], [n, len(parents)])
        is_ind, value = self._is_independent_by(in_X, in_Y, prev_independence)
        if is_ind:
            prev_independence = value
            max_independence_child = child
    if self._independence == 'hsic':
        is_independent = prev_independence > self._alpha
    elif self._independence == 'fcorr':
        is_independent = prev_independence < self._ind_corr
    return (max_independence_child, is_independent)


@defines('C07 C09 C19', 'CAMUV._check_identified_causality', observe=['return'], opaque=[], part_of=['CAMUV.fit'])
def part_CAMUV__check_identified_causality(self, variables_set, P):
    """check identified causality"""
    variables_list = list(variables_set)
    for i in variables_list:
        for j in variables_list[variables_list.index(i) + 1:]:
            if j in P[i] or i in P[j]:
                return False
    return True


@defines('C07 C09 C19', 'CAMUV._check_independence_withou_K', observe=['return'], opaque=['%_is_independent'], part_of=['CAMUV.fit'])
def part_CAMUV__check_independence_withou_K(self, parents, child, P, N, Y):
    """check independence withou K"""
    n = Y.shape[0]
    for parent in parents:
        in_X = np.reshape(Y[:, child], [n, 1])
        in_Y = np.reshape(Y[:, parent], [n, 1])
        if self._is_independent(in_X, in_Y):
            return False
    return True


@defines('C07 C09 C19', 'CAMUV._get_residuals_matrix', observe=['return'], opaque=['%_get_residual'], part_of=['CAMUV.fit'])
def part_CAMUV__get_residuals_matrix(self, X, Y_old, P, child):
    """get residuals matrix"""
    Y = copy.deepcopy(Y_old)
    Y[:, child] = self._get_residual(X, child, P[child])
    return Y


@defines('C07 C09 C19', 'CAMUV._is_independent_by', observe=['return'], opaque=['hsic:hsic_test_gamma', 'utils._f_correlation:f_correlation'], part_of=['CAMUV.fit'])
def part_CAMUV__is_independent_by(self, X, Y, threshold):
    """is independent by"""
    is_independent = False
    if self._independence == 'hsic':
        _, value = hsic_test_gamma(X, Y)
        is_independent = value > threshold
    elif self._independence == 'fcorr':
        value = f_correlation(X, Y)
        is_independent = value < threshold
    return (is_independent, value)


@defines('C07 C09 C19', 'CAMUV._check_prior_knowledge', observe=['return'], opaque=[], part_of=['CAMUV.fit'])
def part_CAMUV__check_prior_knowledge(self, xj_list, xi):
    """check prior knowledge"""
    if self._pk_dict is not None:
        for xj in xj_list:
            if xi in self._pk_dict and xj in self._pk_dict[xi]:
                return True
    return False


@defines('C07 C09 C19', 'CAMUV._check_correlation', observe=['return'], opaque=[], part_of=['CAMUV.fit'])
def part_CAMUV__check_correlation(self, child, parents, N):
    """check correlation"""
    for parent in parents:
        if parent not in N[child]:
            return False
    return True


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV.fit', observe=['return', 'field:_U', 'field:_P'], opaque=['%_check_X_list', '%_estimate_adjacency_matrix', '%_find_parents', '%_get_neighborhoods', '%_get_residual', '%_is_independent'], part_of=[])
def part_MultiGroupCAMUV_fit(self, X_list):
    """Fit the model to multiple datasets"""
    X_list = self._check_X_list(X_list)
    d = X_list[0].shape[1]
    N = self._get_neighborhoods(X_list)
    P = self._find_parents(X_list, self._num_explanatory_vals, N)
    U = []
    for i in range(d):
        for j in range(d)[i + 1:]:
            if i in P[j] or j in P[i]:
                continue
            if i not in N[j] or j not in N[i]:
                continue
            in_X_list = []
            in_Y_list = []
            for X in X_list:
                n = X.shape[0]
                i_residual = self._get_residual(X, i, P[i])
                j_residual = self._get_residual(X, j, P[j])
                in_X_list.append(np.reshape(i_residual, [n, 1]))
                in_Y_list.append(np.reshape(j_residual, [n, 1]))
            if not self._is_independent(in_X_list, in_Y_list):
                if not set([i, j]) in U:
                    U.append(set([i, j]))
    self._U = U
    self._P = P
    return self._estimate_adjacency_matrix(X_list[0], P, U)


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._check_X_list', observe=['return', 'field:_k', 'field:_n_features'], opaque=[], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__check_X_list(self, X_list):
    """Check input X list"""
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._k = len(X_list)
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._get_neighborhoods', observe=['return'], opaque=['%_is_independent'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__get_neighborhoods(self, X_list):
    """get neighborhoods"""
    d = X_list[0].shape[1]
    N = [set() for i in range(d)]
    for i in range(d):
        for j in range(d)[i + 1:]:
            in_X_list = []
            in_Y_list = []
            for X in X_list:
                n = X.shape[0]
                in_X_list.append(np.reshape(X[:, i], [n, 1]))
                in_Y_list.append(np.reshape(X[:, j], [n, 1]))
            if not self._is_independent(in_X_list, in_Y_list):
                N[i].add(j)
                N[j].add(i)
    return N


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._find_parents', observe=['return'], opaque=['%_check_identified_causality', '%_check_independence_withou_K', '%_get_child', '%_get_residual', '%_get_residuals_matrix', '%_is_independent'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__find_parents(self, X_list, maxnum_vals, N):
    """find parents"""
    d = X_list[0].shape[1]
    P = [set() for i in range(d)]
    t = 2
    Y_list = [copy.deepcopy(X) for X in X_list]
    while True:
        changed = False
        variables_set_list = list(itertools.combinations(set(range(d)), t))
        for variables_set in variables_set_list:
            variables_set = set(variables_set)
            if not self._check_identified_causality(variables_set, P):
                continue
            child, is_independence_with_K = self._get_child(X_list, variables_set, P, N, Y_list)
            if child is None:
                continue
            if not is_independence_with_K:
                continue
            parents = variables_set - {child}
            if not self._check_independence_withou_K(parents, child, P, N, Y_list):
                continue
            for parent in parents:
                P[child].add(parent)
                changed = True
                Y_list_ = []
                for X, Y in zip(X_list, Y_list):
                    Y_list_.append(self._get_residuals_matrix(X, Y, P, child))
                Y_list = Y_list_
        if changed:
            t = 2
        else:
            t += 1
            if t > maxnum_vals:
                break
    for i in range(d):
        non_parents = set()
        for j in P[i]:
            in_X_list = []
            in_Y_list = []
            for X in X_list:
                n = X.shape[0]
                residual_i = self._get_residual(X, i, P[i] - {j})
                residual_j = self._get_residual(X, j, P[j])
                in_X_list.append(np.reshape(residual_i, [n, 1]))
                in_Y_list.append(np.reshape(residual_j, [n, 1]))
            if self._is_independent(in_X_list, in_Y_list):
                non_parents.add(j)
        P[i] = P[i] - non_parents
    return P


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._estimate_adjacency_matrix', observe=['field:_adjacency_matrix'], opaque=[], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__estimate_adjacency_matrix(self, X, P, U):
    """estimate adjacency matrix"""
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i, parents in enumerate(P):
        for parent in parents:
            B[i, parent] = 1
    for confounded_pair in U:
        confounded_pair = list(confounded_pair)
        B[confounded_pair[0], confounded_pair[1]] = np.nan
        B[confounded_pair[1], confounded_pair[0]] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._get_residual', observe=['return'], opaque=[], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__get_residual(self, X, explained_i, explanatory_ids):
    """get residual"""
    explanatory_ids = list(explanatory_ids)
    if len(explanatory_ids) == 0:
        residual = X[:, explained_i]
    else:
        gam = LinearGAM().fit(X[:, explanatory_ids], X[:, explained_i])
        residual = X[:, explained_i] - gam.predict(X[:, explanatory_ids])
    return residual


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._is_independent', observe=['return'], opaque=['%_is_independent_by'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__is_independent(self, X_list, Y_list):
    """is independent"""
    if self._independence == 'hsic':
        threshold = self._alpha
    elif self._independence == 'fcorr':
        threshold = self._ind_corr
    is_independent, _ = self._is_independent_by(X_list, Y_list, threshold)
    return is_independent


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._get_child', observe=['return'], opaque=['%_check_correlation', '%_check_prior_knowledge', '%_get_residual', '%_is_independent_by'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__get_child(self, X_list, variables_set, P, N, Y_list):
    """get child"""
    prev_independence = 0.0 if self._independence == 'hsic' else 1.0
    max_independence_child = None
    for child in variables_set:
        parents = variables_set - {child}
        if self._check_prior_knowledge(parents, child):
            continue
        if not self._check_correlation(child, parents, N):
            continue
        in_X_list = []
        in_Y_list = []
        for X, Y in zip(X_list, Y_list):
            n = X.shape[0]
            residual = self._get_residual(X, child, parents | P[child])
            in_X_list.append(np.reshape(residual, [n, 1]))
            in_Y_list.append(np.reshape(Y[:, list(parents)], [n, len(parents)]))
        is_ind, value = self._is_independent_by(in_X_list, in_Y_list, prev_independence)
        if is_ind:
            prev_independence = value
            max_independence_child = child
    if self._independence == 'hsic':
        is_independent = prev_independence > self._alpha
    elif self._independence == 'fcorr':
        is_independent = prev_independence < self._ind_corr
    return (max_independence_child, is_independent)


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._check_identified_causality', observe=['return'], opaque=[], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__check_identified_causality(self, variables_set, P):
    """check identified causality"""
    variables_list = list(variables_set)
    for i in variables_list:
        for j in variables_list[variables_list.index(i) + 1:]:
            if j in P[i] or i in P[j]:
                return False
    return True


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._check_independence_withou_K', observe=['return'], opaque=['%_is_independent'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__check_independence_withou_K(self, parents, child, P, N, Y_list):
    """check independence withou K"""
    for parent in parents:
        in_X_list = []
        in_Y_list = []
        for Y in Y_list:
            n = Y.shape[0]
            in_X_list.append(np.reshape(Y[:, child], [n, 1]))
            in_Y_list.append(np.reshape(Y[:, parent], [n, 1]))
        if self._is_independent(in_X_list, in_Y_list):
            return False
    return True


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._get_residuals_matrix', observe=['return'], opaque=['%_get_residual'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__get_residuals_matrix(self, X, Y_old, P, child):
    """get residuals matrix"""
    Y = copy.deepcopy(Y_old)
    Y[:, child] = self._get_residual(X, child, P[child])
    return Y


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._is_independent_by', observe=['return'], opaque=['hsic:hsic_test_gamma', 'utils._f_correlation:f_correlation'], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__is_independent_by(self, X_list, Y_list, threshold):
    """is independent by"""
    is_independent = False
    value = 0.0
    if self._independence == 'hsic':
        fisher_stat = 0
        for X, Y in zip(X_list, Y_list):
            _, hsic_p = hsic_test_gamma(X, Y)
            fisher_stat += np.inf if hsic_p == 0 else -2 * np.log(hsic_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        is_independent = fisher_p > threshold
        value = fisher_p
    elif self._independence == 'fcorr':
        max_f_corr = 0.0
        for X, Y in zip(X_list, Y_list):
            f_corr = f_correlation(X, Y)
            if f_corr > max_f_corr:
                max_f_corr = f_corr
        is_independent = max_f_corr < threshold
        value = max_f_corr
    return (is_independent, value)


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._check_prior_knowledge', observe=['return'], opaque=[], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__check_prior_knowledge(self, xj_list, xi):
    """check prior knowledge"""
    if self._pk_dict is not None:
        for xj in xj_list:
            if xi in self._pk_dict and xj in self._pk_dict[xi]:
                return True
    return False


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV._check_correlation', observe=['return'], opaque=[], part_of=['MultiGroupCAMUV.fit'])
def part_MultiGroupCAMUV__check_correlation(self, child, parents, N):
    """check correlation"""
    for parent in parents:
        if parent not in N[child]:
            return False
    return True
