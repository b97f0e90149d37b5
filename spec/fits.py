"""Model fitting."""
import numpy as np
from sklearn.preprocessing import scale
from sklearn.utils import check_array
import itertools
import warnings
from sklearn.linear_model import LinearRegression
from lingam.hsic import hsic_test_gamma
from lingam.utils import predict_adaptive_lasso
from scipy.optimize import linear_sum_assignment
from sklearn.decomposition import FastICA
from sklearn.linear_model import LassoLarsCV
from sklearn.preprocessing import StandardScaler
from scipy.stats.distributions import chi2
from lingam.utils import f_correlation
from scipy.optimize import fmin_l_bfgs_b
from scipy.stats import pearsonr, shapiro
from lingam.hsic import get_gram_matrix, get_kernel_width, hsic_teststat
import copy
from pygam import LinearGAM


def DirectLiNGAM_extract_partial_orders(self, pk):
    path_pairs = np.array(np.where(pk == 1)).transpose()
    no_path_pairs = np.array(np.where(pk == 0)).transpose()
    check_pairs = np.concatenate([path_pairs, path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        if len(pairs[counts > 1]) > 0:
            raise ValueError(f'The prior knowledge contains inconsistencies at the following indices: {pairs[counts > 1].tolist()}')
    check_pairs = np.concatenate([no_path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        check_pairs = np.concatenate([no_path_pairs, pairs[counts > 1]])
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        no_path_pairs = pairs[counts < 2]
    check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) == 0:
        return check_pairs
    pairs = np.unique(check_pairs, axis=0)
    return pairs[:, [1, 0]]


def DirectLiNGAM_search_candidate(self, U):
    if self._Aknw is None:
        return (U, [])
    if not self._apply_prior_knowledge_softly:
        if len(self._partial_orders) != 0:
            Uc = [i for i in U if i not in self._partial_orders[:, 1]]
            return (Uc, [])
        else:
            return (U, [])
    Uc = []
    for j in U:
        index = U[U != j]
        if self._Aknw[j][index].sum() == 0:
            Uc.append(j)
    if len(Uc) == 0:
        U_end = []
        for j in U:
            index = U[U != j]
            if np.nansum(self._Aknw[j][index]) > 0:
                U_end.append(j)
        for i in U:
            index = U[U != i]
            if self._Aknw[index, i].sum() == 0:
                U_end.append(i)
        Uc = [i for i in U if i not in set(U_end)]
    Vj = []
    for i in U:
        if i in Uc:
            continue
        if self._Aknw[i][Uc].sum() == 0:
            Vj.append(i)
    return (Uc, Vj)


def DirectLiNGAM_residual(self, xi, xj):
    return xi - np.cov(xi, xj, bias=True)[0, 1] / np.var(xj) * xj


def DirectLiNGAM_mutual_information(self, x1, x2, param):
    kappa, sigma = param
    n = len(x1)
    X1 = np.tile(x1, (n, 1))
    K1 = np.exp(-1 / (2 * sigma ** 2) * (X1 ** 2 + X1.T ** 2 - 2 * X1 * X1.T))
    X2 = np.tile(x2, (n, 1))
    K2 = np.exp(-1 / (2 * sigma ** 2) * (X2 ** 2 + X2.T ** 2 - 2 * X2 * X2.T))
    tmp1 = K1 + n * kappa * np.identity(n) / 2
    tmp2 = K2 + n * kappa * np.identity(n) / 2
    K_kappa = np.r_[np.c_[tmp1 @ tmp1, K1 @ K2], np.c_[K2 @ K1, tmp2 @ tmp2]]
    D_kappa = np.r_[np.c_[tmp1 @ tmp1, np.zeros([n, n])], np.c_[np.zeros([n, n]), tmp2 @ tmp2]]
    sigma_K = np.linalg.svd(K_kappa, compute_uv=False)
    sigma_D = np.linalg.svd(D_kappa, compute_uv=False)
    return -1 / 2 * (np.sum(np.log(sigma_K)) - np.sum(np.log(sigma_D)))


def DirectLiNGAM_search_causal_order_kernel(self, X, U):
    Uc, Vj = DirectLiNGAM_search_candidate(self, U)
    if len(Uc) == 1:
        return Uc[0]
    if X.shape[0] > 1000:
        param = [0.002, 0.5]
    else:
        param = [0.02, 1.0]
    Tkernels = []
    for j in Uc:
        Tkernel = 0
        for i in U:
            if i != j:
                ri_j = X[:, i] if j in Vj and i in Uc else DirectLiNGAM_residual(self, X[:, i], X[:, j])
                Tkernel += DirectLiNGAM_mutual_information(self, X[:, j], ri_j, param)
        Tkernels.append(Tkernel)
    return Uc[np.argmin(Tkernels)]


def DirectLiNGAM_search_causal_order_gpu(self, X, U):
    cols = len(U)
    rows = len(X)
    arr = X[:, np.array(U)]
    from lingam_cuda import causal_order as causal_order_gpu
    mlist = causal_order_gpu(arr, rows, cols)
    return U[np.argmax(mlist)]


def DirectLiNGAM_entropy(self, u):
    k1 = 79.047
    k2 = 7.4129
    gamma = 0.37457
    return (1 + np.log(2 * np.pi)) / 2 - k1 * (np.mean(np.log(np.cosh(u))) - gamma) ** 2 - k2 * np.mean(u * np.exp(-u ** 2 / 2)) ** 2


def DirectLiNGAM_diff_mutual_info(self, xi_std, xj_std, ri_j, rj_i):
    return DirectLiNGAM_entropy(self, xj_std) + DirectLiNGAM_entropy(self, ri_j / np.std(ri_j)) - (DirectLiNGAM_entropy(self, xi_std) + DirectLiNGAM_entropy(self, rj_i / np.std(rj_i)))


def DirectLiNGAM_search_causal_order(self, X, U):
    Uc, Vj = DirectLiNGAM_search_candidate(self, U)
    if len(Uc) == 1:
        return Uc[0]
    M_list = []
    for i in Uc:
        M = 0
        for j in U:
            if i != j:
                xi_std = (X[:, i] - np.mean(X[:, i])) / np.std(X[:, i])
                xj_std = (X[:, j] - np.mean(X[:, j])) / np.std(X[:, j])
                ri_j = xi_std if i in Vj and j in Uc else DirectLiNGAM_residual(self, xi_std, xj_std)
                rj_i = xj_std if j in Vj and i in Uc else DirectLiNGAM_residual(self, xj_std, xi_std)
                M += np.min([0, DirectLiNGAM_diff_mutual_info(self, xi_std, xj_std, ri_j, rj_i)]) ** 2
        M_list.append(-1.0 * M)
    return Uc[np.argmax(M_list)]


def DirectLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=None):
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) == 0:
            continue
        B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09 C15', 'DirectLiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrix_'], init=True, opaque=['predict_adaptive_lasso'])
def DirectLiNGAM_fit(self, X):
    """order by least dependence on the residuals, coefficients regressed along the order"""
    X = check_array(X)
    n_features = X.shape[1]
    if self._Aknw is not None:
        if (n_features, n_features) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (n_features, n_features)')
        elif not self._apply_prior_knowledge_softly:
            self._partial_orders = DirectLiNGAM_extract_partial_orders(self, self._Aknw)
    U = np.arange(n_features)
    K = []
    X_ = np.copy(X)
    if self._measure == 'kernel':
        X_ = scale(X_)
    for _ in range(n_features):
        if self._measure == 'kernel':
            m = DirectLiNGAM_search_causal_order_kernel(self, X_, U)
        elif self._measure == 'pwling_fast':
            m = DirectLiNGAM_search_causal_order_gpu(self, X_.astype(np.float64), U.astype(np.int32))
        else:
            m = DirectLiNGAM_search_causal_order(self, X_, U)
        for i in U:
            if i != m:
                X_[:, i] = DirectLiNGAM_residual(self, X_[:, i], X_[:, m])
        K.append(m)
        U = U[U != m]
        if self._Aknw is not None and (not self._apply_prior_knowledge_softly):
            self._partial_orders = self._partial_orders[self._partial_orders[:, 0] != m]
    self._causal_order = K
    return DirectLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=self._Aknw)


def ICALiNGAM_search_causal_order(self, matrix):
    causal_order = []
    row_num = matrix.shape[0]
    original_index = np.arange(row_num)
    while 0 < len(matrix):
        row_index_list = np.where(np.sum(np.abs(matrix), axis=1) == 0)[0]
        if len(row_index_list) == 0:
            break
        target_index = row_index_list[0]
        causal_order.append(original_index[target_index])
        original_index = np.delete(original_index, target_index, axis=0)
        mask = np.delete(np.arange(len(matrix)), target_index, axis=0)
        matrix = matrix[mask][:, mask]
    if len(causal_order) != row_num:
        causal_order = None
    return causal_order


def ICALiNGAM_estimate_causal_order(self, matrix):
    causal_order = None
    pos_list = np.argsort(np.abs(matrix), axis=None)
    pos_list = np.vstack(np.unravel_index(pos_list, matrix.shape)).T
    initial_zero_num = int(matrix.shape[0] * (matrix.shape[0] + 1) / 2)
    for i, j in pos_list[:initial_zero_num]:
        matrix[i, j] = 0
    for i, j in pos_list[initial_zero_num:]:
        causal_order = ICALiNGAM_search_causal_order(self, matrix)
        if causal_order is not None:
            break
        else:
            matrix[i, j] = 0
    return causal_order


def ICALiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=None):
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) == 0:
            continue
        B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    self._adjacency_matrix = B
    return self


@defines('C08 C09 C15', 'ICALiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrix_'], init=True, opaque=['predict_adaptive_lasso'])
def ICALiNGAM_fit(self, X):
    """unmixing matrix permuted and scaled, order that makes it lower triangular"""
    X = check_array(X)
    ica = FastICA(max_iter=self._max_iter, random_state=self._random_state)
    ica.fit(X)
    W_ica = ica.components_
    _, col_index = linear_sum_assignment(1 / np.abs(W_ica))
    PW_ica = np.zeros_like(W_ica)
    PW_ica[col_index] = W_ica
    D = np.diag(PW_ica)[:, np.newaxis]
    W_estimate = PW_ica / D
    B_estimate = np.eye(len(W_estimate)) - W_estimate
    causal_order = ICALiNGAM_estimate_causal_order(self, B_estimate)
    self._causal_order = causal_order
    return ICALiNGAM_estimate_adjacency_matrix(self, X)


def HighDimDirectLiNGAM_calc_tau(self, k, pa, ch):
    return abs(np.mean(pa ** (k - 1) * ch) * np.mean(pa ** 2) - np.mean(pa ** k) * np.mean(pa * ch))


def HighDimDirectLiNGAM_calc_taus(self, pa, ch, k, cond_sets, an_sets):
    n = self._Y.shape[0]
    ret = np.empty(self._Y.shape[1])
    ret.fill(10000000000.0)
    for z in range(len(cond_sets)):
        cond = cond_sets[z]
        b = np.linalg.pinv(self._yty[np.ix_(cond, cond)]) @ self._yty[cond, pa]
        resid = (self._Y[:, [pa]] - self._Y[:, cond] @ b.reshape(len(cond), 1)).flatten()
        resid_k_1 = np.power(resid, k - 1)
        resid_var = np.mean(np.power(resid, 2))
        resid_k = np.mean(np.power(resid, k))
        for i in range(len(ch)):
            value = 1.0 / n * np.dot(resid_k_1, self._Y[:, ch[i]]) * resid_var - resid_k * (1.0 / n) * np.dot(resid, self._Y[:, ch[i]])
            ret[ch[i]] = np.min([ret[ch[i]], abs(value)])
        for i in range(an_sets.shape[1]):
            value = 1.0 / n * np.dot(resid_k_1.T, self._Y[:, an_sets[z, i]]) * resid_var - resid_k * (1.0 / n) * np.dot(resid.T, self._Y[:, an_sets[z, i]])
            ret[an_sets[z, i]] = np.min([ret[an_sets[z, i]], abs(value)])
        return ret


def HighDimDirectLiNGAM_get_prune_stats(self, i, j, K, last_root, condition_set, J):
    j = list(set(j) - {i})
    p = self._Y.shape[1]
    prune_stat = np.array([100000.0 for _ in range(p)])
    if last_root is None:
        prune_stat[j] = [HighDimDirectLiNGAM_calc_tau(self, K, self._Y[:, i], self._Y[:, j_]) for j_ in j]
        return prune_stat
    size_of_set = min(J, len(condition_set))
    if len(condition_set - {last_root}) == 1:
        condition_sub_set = np.array([list(condition_set - {last_root})]).reshape(1, 1)
    else:
        condition_sub_set = list(itertools.combinations(list(condition_set - {last_root}), size_of_set - 1))
        condition_sub_set = np.array([list(e) for e in condition_sub_set])
    an_sets = np.array([list(condition_set - set(x)) for x in condition_sub_set])
    if len(an_sets) == 1 and an_sets.shape[1] > 0:
        an_sets = an_sets.T
    condition_sub_set = np.concatenate([np.full(len(condition_sub_set), last_root).reshape(-1, 1), condition_sub_set], axis=1).astype(int)
    prune_stat = HighDimDirectLiNGAM_calc_taus(self, i, j, K, condition_sub_set, an_sets)
    return prune_stat


def HighDimDirectLiNGAM_predict_adaptive_lasso(self, X, predictors, target, gamma=1.0):
    scaler = StandardScaler()
    X_std = scaler.fit_transform(X)
    lr = LinearRegression()
    lr.fit(X_std[:, predictors], X_std[:, target])
    weight = np.power(np.abs(lr.coef_), gamma)
    reg = LassoLarsCV()
    reg.fit(X_std[:, predictors] * weight, X_std[:, target])
    pruned_idx = np.abs(reg.coef_ * weight) > 0.0
    coef = np.zeros(reg.coef_.shape)
    if pruned_idx.sum() > 0:
        lr = LinearRegression()
        pred = np.array(predictors)
        lr.fit(X[:, pred[pruned_idx]], X[:, target])
        coef[pruned_idx] = lr.coef_
    return coef


def HighDimDirectLiNGAM_estimate_adjacency_matrix2(self, X):
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if len(predictors) == 0:
            continue
        B[target, predictors] = HighDimDirectLiNGAM_predict_adaptive_lasso(self, X, predictors, target)
    self._adjacency_matrix = B
    return self


def HighDimDirectLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=None):
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) == 0:
            continue
        B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09', 'HighDimDirectLiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrix_'], init=True, opaque=['predict_adaptive_lasso'])
def HighDimDirectLiNGAM_fit(self, X):
    """order by tau statistics, coefficients regressed along the order"""
    self._Y = check_array(X)
    self._yty = self._Y.T @ self._Y
    cut_off = 0
    theta = []
    p = self._Y.shape[1]
    psi = list(range(p))
    prune_stats = np.full((p, p), 100000.0)
    np.fill_diagonal(prune_stats, 0)
    while len(psi) > 1:
        new_stats = []
        for v in psi:
            cond_set = set.intersection(set(theta), set(np.argwhere(prune_stats[v] > cut_off).flatten()))
            cond_set = set.union(cond_set, set(theta[-1:] if len(theta) > 0 else set()))
            last_root = theta[-1] if len(theta) > 0 else None
            stats = HighDimDirectLiNGAM_get_prune_stats(self, v, psi, self._K, last_root, cond_set, self._J)
            new_stats.append(stats)
        new_stats = np.array(new_stats)
        prune_stats[psi, :] = np.min([prune_stats[psi, :], new_stats], axis=0)
        np.fill_diagonal(prune_stats, 0)
        max_taus = np.max(prune_stats[np.ix_(psi, psi)], axis=1)
        r = psi[np.argmin(max_taus)]
        cut_off = max(cut_off, min(max_taus) * self._alpha)
        theta.append(r)
        psi.remove(r)
    self._causal_order = [*theta, *psi]
    if not self._estimate_adj_mat:
        return self
    if self._Y.shape[0] <= self._Y.shape[1]:
        warnings.warn('Since n_samples <= n_features, the adjacency matrix is estimated with LassoLarsCV instead of LassoLarsIC.')
        return HighDimDirectLiNGAM_estimate_adjacency_matrix2(self, self._Y)
    return HighDimDirectLiNGAM_estimate_adjacency_matrix(self, self._Y)


def BottomUpParceLiNGAM_extract_partial_orders(self, pk):
    path_pairs = np.array(np.where(pk == 1)).transpose()
    no_path_pairs = np.array(np.where(pk == 0)).transpose()
    check_pairs = np.concatenate([path_pairs, path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        if len(pairs[counts > 1]) > 0:
            raise ValueError(f'The prior knowledge contains inconsistencies at the following indices: {pairs[counts > 1].tolist()}')
    check_pairs = np.concatenate([no_path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        check_pairs = np.concatenate([no_path_pairs, pairs[counts > 1]])
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        no_path_pairs = pairs[counts < 2]
    check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) == 0:
        return check_pairs
    pairs = np.unique(check_pairs, axis=0)
    return pairs[:, [1, 0]]


def BottomUpParceLiNGAM_search_candidate(self, U):
    if self._Aknw is None:
        return U
    if len(self._partial_orders) != 0:
        Uc = [i for i in U if i not in self._partial_orders[:, 0]]
        return Uc
    return U


def BottomUpParceLiNGAM_compute_residuals(self, X, predictors, target):
    if self._reg is None:
        cov = np.cov(X.T)
        coef = np.dot(np.linalg.pinv(cov[np.ix_(predictors, predictors)]), cov[np.ix_(target, predictors)].reshape(predictors.shape[0], 1))
        R = X[:, target] - np.dot(X[:, predictors], coef)
    else:
        self._reg.fit(X[:, predictors], np.ravel(X[:, target]))
        R = X[:, target] - self._reg.predict(X[:, predictors]).reshape(-1, 1)
    return R


def BottomUpParceLiNGAM_fisher_hsic_test(self, X, R, max_p_stat):
    fisher_stat = 0
    n_features = X.shape[1]
    if n_features == 1:
        fisher_stat, fisher_p = hsic_test_gamma(X, R)
    else:
        for i in range(n_features):
            _, hsic_p = hsic_test_gamma(X[:, [i]], R)
            fisher_stat += np.inf if hsic_p == 0 else -2 * np.log(hsic_p)
            if fisher_stat > max_p_stat:
                break
        fisher_p = 1 - chi2.cdf(fisher_stat, df=2 * n_features)
    return (fisher_p, fisher_stat)


def BottomUpParceLiNGAM_f_correlation(self, X, R):
    max_f_corr = 0.0
    n_features = X.shape[1]
    if n_features == 1:
        max_f_corr = f_correlation(X, R)
    else:
        for i in range(n_features):
            f_corr = f_correlation(X[:, [i]], R)
            if f_corr > max_f_corr:
                max_f_corr = f_corr
    return max_f_corr


def BottomUpParceLiNGAM_find_exo_vec(self, X, Uc, U):
    eval = np.inf
    exo_vec = []
    if len(Uc) == 1:
        m = np.array([Uc[0]])
        predictors = np.setdiff1d(U, Uc[0])
        R = BottomUpParceLiNGAM_compute_residuals(self, X, predictors, m)
        if self._independence == 'hsic':
            eval, _ = BottomUpParceLiNGAM_fisher_hsic_test(self, X[:, predictors], R, np.inf)
        elif self._independence == 'fcorr':
            eval = BottomUpParceLiNGAM_f_correlation(self, X[:, predictors], R)
        return (m, [], eval)
    else:
        max_p_stat = np.inf
        for j in range(len(Uc)):
            xi_index = np.setdiff1d(Uc, Uc[j])
            xj_index = np.array([Uc[j]])
            R = BottomUpParceLiNGAM_compute_residuals(self, X, xi_index, xj_index)
            if self._independence == 'hsic':
                fisher_p, fisher_stat = BottomUpParceLiNGAM_fisher_hsic_test(self, X[:, xi_index], R, max_p_stat)
                if fisher_stat < max_p_stat:
                    exo_vec = xi_index
                    eval = fisher_p
                    max_p_stat = fisher_stat
            elif self._independence == 'fcorr':
                f_corr = BottomUpParceLiNGAM_f_correlation(self, X[:, xi_index], R)
                if f_corr < eval:
                    exo_vec = xi_index
                    eval = f_corr
        m = np.setdiff1d(Uc, exo_vec)
    return (m, exo_vec, eval)


def BottomUpParceLiNGAM_is_reject(self, eval):
    is_reject = False
    if self._independence == 'hsic':
        if eval < self._thresh_p:
            is_reject = True
    elif self._independence == 'fcorr':
        if eval >= self._ind_corr:
            is_reject = True
    return is_reject


def BottomUpParceLiNGAM_search_causal_order(self, X):
    U = np.arange(X.shape[1])
    K_bttm = []
    p_bttm = []
    is_search_causal_order = True
    while is_search_causal_order:
        Uc = BottomUpParceLiNGAM_search_candidate(self, U)
        m, _, eval = BottomUpParceLiNGAM_find_exo_vec(self, X, Uc, U)
        if not BottomUpParceLiNGAM_is_reject(self, eval):
            K_bttm = np.append(m, K_bttm).astype(np.int64)
            p_bttm.insert(0, eval)
            U = U[U != m]
            if self._Aknw is not None:
                self._partial_orders = self._partial_orders[self._partial_orders[:, 1] != m]
            if len(U) <= 1:
                K_bttm = np.append(U, K_bttm).astype(np.int64)
                p_bttm.insert(0, 0.0)
                is_search_causal_order = False
        else:
            is_search_causal_order = False
    return (K_bttm, p_bttm)


def BottomUpParceLiNGAM_flatten(self, arr):
    return [val for item in arr for val in (BottomUpParceLiNGAM_flatten(self, item) if hasattr(item, '__iter__') and (not isinstance(item, str)) else [item])]


def BottomUpParceLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=None):
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = BottomUpParceLiNGAM_flatten(self, self._causal_order[:i])
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) != 0:
            B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    for unk_order in self._causal_order:
        if hasattr(unk_order, '__iter__') and (not isinstance(unk_order, str)):
            for i in range(len(unk_order) - 1):
                xi = unk_order[i]
                for xj in unk_order[i + 1:]:
                    B[xi, xj] = np.nan
                    B[xj, xi] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09 C19', 'BottomUpParceLiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrix_'], init=True, opaque=['predict_adaptive_lasso', 'hsic_test_gamma', 'f_correlation'])
def BottomUpParceLiNGAM_fit(self, X):
    """sinks found bottom up by the residual test, unresolved variables in one block"""
    self._causal_order = None
    self._adjacency_matrices = None
    X = check_array(X)
    n_features = X.shape[1]
    if self._Aknw is not None:
        if (n_features, n_features) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (n_features, n_features)')
        else:
            self._partial_orders = BottomUpParceLiNGAM_extract_partial_orders(self, self._Aknw)
    X = X - np.tile(np.mean(X, axis=0), (X.shape[0], 1))
    self._thresh_p = self._alpha / (n_features - 1)
    K_bttm, p_bttm = BottomUpParceLiNGAM_search_causal_order(self, X)
    U_res = list(np.setdiff1d(np.arange(n_features), K_bttm))
    K = []
    if len(U_res) > 1:
        K = [U_res]
    for i in K_bttm:
        K.append(i)
    self._causal_order = K
    self._p_list = p_bttm
    return BottomUpParceLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=self._Aknw)


def RESIT_estimate_order(self, X):
    S = np.arange(X.shape[1])
    pa = {}
    pi = []
    for _ in range(X.shape[1]):
        if len(S) == 1:
            pa[S[0]] = []
            pi.insert(0, S[0])
            continue
        hsic_stats = []
        for k in S:
            predictors = [i for i in S if i != k]
            self._reg.fit(X[:, predictors], X[:, k])
            residual = X[:, k] - self._reg.predict(X[:, predictors])
            hsic_stat, hsic_p = hsic_test_gamma(residual, X[:, predictors])
            hsic_stats.append(hsic_stat)
        k = S[np.argmin(hsic_stats)]
        S = S[S != k]
        pa[k] = S.tolist()
        pi.insert(0, k)
    return (pa, pi)


def RESIT_remove_edges(self, X, pa, pi):
    for k in range(1, X.shape[1]):
        parents = pa[pi[k]].copy()
        for l in parents:
            predictors = [i for i in pa[pi[k]] if i != l]
            if len(predictors) < 1:
                continue
            self._reg.fit(X[:, predictors], X[:, pi[k]])
            residual = X[:, pi[k]] - self._reg.predict(X[:, predictors])
            _, hsic_p = hsic_test_gamma(residual, X[:, predictors])
            if hsic_p > self._alpha:
                pa[pi[k]].remove(l)
    return pa


@defines('C08 C09', 'RESIT.fit', observe=['prop:causal_order_', 'prop:adjacency_matrix_', 'call:.fit'], init=True, opaque=['hsic_test_gamma'])
def RESIT_fit(self, X):
    """sinks found by regression and independence test, edges removed when not needed"""
    X = check_array(X)
    n_features = X.shape[1]
    pa, pi = RESIT_estimate_order(self, X)
    pa = RESIT_remove_edges(self, X, pa, pi)
    adjacency_matrix = np.zeros([n_features, n_features])
    for i, parents in pa.items():
        for p in parents:
            adjacency_matrix[i, p] = 1
    self._causal_order = pi
    self._adjacency_matrix = adjacency_matrix
    return self


def RCD_get_common_ancestors(self, M, U):
    Mj_list = [M[xj] for xj in U]
    return set.intersection(*Mj_list)


def RCD_get_resid_and_coef(self, X, endog_idx, exog_idcs):
    lr = LinearRegression()
    lr.fit(X[:, exog_idcs], X[:, endog_idx])
    resid = X[:, endog_idx] - lr.predict(X[:, exog_idcs])
    return (resid, lr.coef_)


def RCD_get_residual_matrix(self, X, U, H_U):
    if len(H_U) == 0:
        return X
    Y = np.zeros_like(X)
    for xj in U:
        Y[:, xj], _ = RCD_get_resid_and_coef(self, X, xj, list(H_U))
    return Y


def RCD_is_non_gaussianity(self, Y, U):
    for xj in U:
        if shapiro(Y[:, xj])[1] > self._shapiro_alpha:
            return False
    return True


def RCD_is_correlated(self, a, b):
    return pearsonr(a, b)[1] < self._cor_alpha


def RCD_exists_ancestor_in_U(self, M, U, xi, xj_list):
    for xj in xj_list:
        if xi in M[xj]:
            return True
    if set(xj_list) == set(xj_list) & M[xi]:
        return True
    return False


def RCD_is_independent(self, X, Y):
    is_independent = False
    if self._independence == 'hsic':
        _, p = hsic_test_gamma(X, Y, bw_method=self._bw_method)
        is_independent = p > self._ind_alpha
    elif self._independence == 'fcorr':
        f_corr = f_correlation(X, Y)
        is_independent = f_corr < self._ind_corr
    return is_independent


def RCD_get_resid_and_coef_by_MLHSICR(self, Y, xi, xj_list):
    n_samples = Y.shape[0]
    width_list = []
    Lc_list = []
    for xj in xj_list:
        yj = np.reshape(Y[:, xj], [n_samples, 1])
        width_xj = get_kernel_width(yj)
        _, Lc = get_gram_matrix(yj, width_xj)
        width_list.append(width_xj)
        Lc_list.append(Lc)
    _, initial_coef = RCD_get_resid_and_coef(self, Y, xi, xj_list)
    width_xi = get_kernel_width(np.reshape(Y[:, xi], [n_samples, 1]))

    def sum_empirical_hsic(coef):
        resid = Y[:, xi]
        width = width_xi
        for j, xj in enumerate(xj_list):
            resid = resid - coef[j] * Y[:, xj]
            width = width - coef[j] * width_list[j]
        _, Kc = get_gram_matrix(np.reshape(resid, [n_samples, 1]), width)
        objective = 0.0
        for j, xj in enumerate(xj_list):
            objective += hsic_teststat(Kc, Lc_list[j], n_samples)
        return objective
    coefs, _, _ = fmin_l_bfgs_b(func=sum_empirical_hsic, x0=initial_coef, approx_grad=True)
    resid = Y[:, xi]
    for j, xj in enumerate(xj_list):
        resid = resid - coefs[j] * Y[:, xj]
    return (resid, coefs)


def RCD_is_independent_of_resid(self, Y, xi, xj_list):
    n_samples = Y.shape[0]
    is_all_independent = True
    resid, _ = RCD_get_resid_and_coef(self, Y, xi, xj_list)
    for xj in xj_list:
        if not RCD_is_independent(self, np.reshape(resid, [n_samples, 1]), np.reshape(Y[:, xj], [n_samples, 1])):
            is_all_independent = False
            break
    if is_all_independent:
        return True
    elif len(xj_list) == 1 or self._MLHSICR is False:
        return False
    resid, _ = RCD_get_resid_and_coef_by_MLHSICR(self, Y, xi, xj_list)
    for xj in xj_list:
        if not RCD_is_independent(self, np.reshape(resid, [n_samples, 1]), np.reshape(Y[:, xj], [n_samples, 1])):
            return False
    return True


def RCD_extract_ancestors(self, X):
    n_features = X.shape[1]
    M = [set() for i in range(n_features)]
    l = 1
    hu_history = {}
    while True:
        changed = False
        U_list = itertools.combinations(range(n_features), l + 1)
        for U in U_list:
            U = list(U)
            U.sort()
            H_U = RCD_get_common_ancestors(self, M, U)
            if tuple(U) in hu_history and H_U == hu_history[tuple(U)]:
                continue
            Y = RCD_get_residual_matrix(self, X, U, H_U)
            if not RCD_is_non_gaussianity(self, Y, U):
                continue
            is_cor = True
            for xi, xj in itertools.combinations(U, 2):
                if not RCD_is_correlated(self, Y[:, xi], Y[:, xj]):
                    is_cor = False
                    break
            if not is_cor:
                continue
            sink_set = []
            for xi in U:
                xj_list = list(set(U) - set([xi]))
                if RCD_exists_ancestor_in_U(self, M, U, xi, xj_list):
                    continue
                if RCD_is_independent_of_resid(self, Y, xi, xj_list):
                    sink_set.append(xi)
            if len(sink_set) == 1:
                xi = sink_set[0]
                xj_list = list(set(U) - set(sink_set))
                if not M[xi] == M[xi] | set(xj_list):
                    M[xi] = M[xi] | set(xj_list)
                    changed = True
            hu_history[tuple(U)] = H_U
        if changed:
            l = 1
        elif l < self._max_explanatory_num:
            l += 1
        else:
            break
    return M


def RCD_is_parent(self, X, M, xj, xi):
    if len(M[xi] - set([xj])) > 0:
        zi, _ = RCD_get_resid_and_coef(self, X, xi, list(M[xi] - set([xj])))
    else:
        zi = X[:, xi]
    if len(M[xi] & M[xj]) > 0:
        wj, _ = RCD_get_resid_and_coef(self, X, xj, list(M[xi] & M[xj]))
    else:
        wj = X[:, xj]
    return RCD_is_correlated(self, wj, zi)


def RCD_extract_parents(self, X, M):
    n_features = X.shape[1]
    P = [set() for i in range(n_features)]
    for xi in range(n_features):
        for xj in M[xi]:
            if RCD_is_parent(self, X, M, xj, xi):
                P[xi].add(xj)
    return P


def RCD_get_resid_to_parent(self, X, idx, P):
    if len(P[idx]) == 0:
        return X[:, idx]
    resid, _ = RCD_get_resid_and_coef(self, X, idx, list(P[idx]))
    return resid


def RCD_extract_vars_sharing_confounders(self, X, P):
    n_features = X.shape[1]
    C = [set() for i in range(n_features)]
    for i, j in itertools.combinations(range(n_features), 2):
        if i in P[j] or j in P[i]:
            continue
        resid_xi = RCD_get_resid_to_parent(self, X, i, P)
        resid_xj = RCD_get_resid_to_parent(self, X, j, P)
        if RCD_is_correlated(self, resid_xi, resid_xj):
            C[i].add(j)
            C[j].add(i)
    return C


def RCD_estimate_adjacency_matrix(self, X, P, C):
    n_features = X.shape[1]
    B = np.zeros([n_features, n_features], dtype='float64')
    for xi in range(n_features):
        xj_list = list(P[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        _, coef = RCD_get_resid_and_coef(self, X, xi, xj_list)
        for j, xj in enumerate(xj_list):
            B[xi, xj] = coef[j]
    for xi in range(n_features):
        xj_list = list(C[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        for xj in xj_list:
            B[xi, xj] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C09 C19', 'RCD.fit', observe=['prop:ancestors_list_', 'prop:adjacency_matrix_'], init=True, opaque=['hsic_test_gamma', 'f_correlation'])
def RCD_fit(self, X):
    """ancestors by independence of residuals, parents, confounded pairs as nan"""
    X = check_array(X)
    M = RCD_extract_ancestors(self, X)
    P = RCD_extract_parents(self, X, M)
    C = RCD_extract_vars_sharing_confounders(self, X, P)
    self._ancestors_list = M
    return RCD_estimate_adjacency_matrix(self, X, P, C)


def MultiGroupRCD_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._k = len(X_list)
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


def MultiGroupRCD_get_common_ancestors(self, M, U):
    Mj_list = [M[xj] for xj in U]
    return set.intersection(*Mj_list)


def MultiGroupRCD_get_resid_and_coef(self, X, endog_idx, exog_idcs):
    lr = LinearRegression()
    lr.fit(X[:, exog_idcs], X[:, endog_idx])
    resid = X[:, endog_idx] - lr.predict(X[:, exog_idcs])
    return (resid, lr.coef_)


def MultiGroupRCD_get_residual_matrix(self, X, U, H_U):
    if len(H_U) == 0:
        return X
    Y = np.zeros_like(X)
    for xj in U:
        Y[:, xj], _ = MultiGroupRCD_get_resid_and_coef(self, X, xj, list(H_U))
    return Y


def MultiGroupRCD_is_non_gaussianity(self, Y_list, U):
    for xj in U:
        fisher_stat = 0
        for Y in Y_list:
            shapiro_p = shapiro(Y[:, xj])[1]
            fisher_stat += np.inf if shapiro_p == 0 else -2 * np.log(shapiro_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        if fisher_p > self._shapiro_alpha:
            return False
    return True


def MultiGroupRCD_is_correlated(self, Y_list, U):
    for xi, xj in itertools.combinations(U, 2):
        fisher_stat = 0
        for Y in Y_list:
            corr_p = pearsonr(Y[:, xi], Y[:, xj])[1]
            fisher_stat += np.inf if corr_p == 0 else -2 * np.log(corr_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        if fisher_p >= self._cor_alpha:
            return False
    return True


def MultiGroupRCD_exists_ancestor_in_U(self, M, U, xi, xj_list):
    for xj in xj_list:
        if xi in M[xj]:
            return True
    if set(xj_list) == set(xj_list) & M[xi]:
        return True
    return False


def MultiGroupRCD_is_independent(self, X_list, Y_list, xj):
    if self._independence == 'hsic':
        fisher_stat = 0
        for i, Y in enumerate(Y_list):
            _, hsic_p = hsic_test_gamma(X_list[i], Y[:, xj], bw_method=self._bw_method)
            fisher_stat += np.inf if hsic_p == 0 else -2 * np.log(hsic_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        is_independent = fisher_p > self._ind_alpha
    elif self._independence == 'fcorr':
        max_f_corr = 0.0
        for i, Y in enumerate(Y_list):
            f_corr = f_correlation(X_list[i], Y[:, xj])
            if f_corr > max_f_corr:
                max_f_corr = f_corr
        is_independent = max_f_corr < self._ind_corr
    return is_independent


def MultiGroupRCD_get_resid_and_coef_by_MLHSICR(self, Y, xi, xj_list):
    n_samples = Y.shape[0]
    width_list = []
    Lc_list = []
    for xj in xj_list:
        yj = np.reshape(Y[:, xj], [n_samples, 1])
        width_xj = get_kernel_width(yj)
        _, Lc = get_gram_matrix(yj, width_xj)
        width_list.append(width_xj)
        Lc_list.append(Lc)
    _, initial_coef = MultiGroupRCD_get_resid_and_coef(self, Y, xi, xj_list)
    width_xi = get_kernel_width(np.reshape(Y[:, xi], [n_samples, 1]))

    def sum_empirical_hsic(coef):
        resid = Y[:, xi]
        width = width_xi
        for j, xj in enumerate(xj_list):
            resid = resid - coef[j] * Y[:, xj]
            width = width - coef[j] * width_list[j]
        _, Kc = get_gram_matrix(np.reshape(resid, [n_samples, 1]), width)
        objective = 0.0
        for j, xj in enumerate(xj_list):
            objective += hsic_teststat(Kc, Lc_list[j], n_samples)
        return objective
    coefs, _, _ = fmin_l_bfgs_b(func=sum_empirical_hsic, x0=initial_coef, approx_grad=True)
    resid = Y[:, xi]
    for j, xj in enumerate(xj_list):
        resid = resid - coefs[j] * Y[:, xj]
    return (resid, coefs)


def MultiGroupRCD_is_independent_of_resid(self, Y_list, xi, xj_list):
    resid_list = []
    for Y in Y_list:
        resid, _ = MultiGroupRCD_get_resid_and_coef(self, Y, xi, xj_list)
        resid_list.append(resid)
    is_all_independent = True
    for xj in xj_list:
        is_independent = MultiGroupRCD_is_independent(self, resid_list, Y_list, xj)
        if not is_independent:
            is_all_independent = False
            break
    if is_all_independent:
        return True
    elif len(xj_list) == 1 or self._MLHSICR is False:
        return False
    resid_list = []
    for Y in Y_list:
        resid, _ = MultiGroupRCD_get_resid_and_coef_by_MLHSICR(self, Y, xi, xj_list)
        resid_list.append(resid)
    for xj in xj_list:
        is_independent = MultiGroupRCD_is_independent(self, resid_list, Y_list, xj)
        if not is_independent:
            return False
    return True


def MultiGroupRCD_extract_ancestors(self, X_list):
    M = [set() for i in range(self._n_features)]
    l = 1
    hu_history = {}
    while True:
        changed = False
        U_list = itertools.combinations(range(self._n_features), l + 1)
        for U in U_list:
            U = list(U)
            U.sort()
            H_U = MultiGroupRCD_get_common_ancestors(self, M, U)
            if tuple(U) in hu_history and H_U == hu_history[tuple(U)]:
                continue
            Y_list = []
            for X in X_list:
                Y_list.append(MultiGroupRCD_get_residual_matrix(self, X, U, H_U))
            if not MultiGroupRCD_is_non_gaussianity(self, Y_list, U):
                continue
            if not MultiGroupRCD_is_correlated(self, Y_list, U):
                continue
            sink_set = []
            for xi in U:
                xj_list = list(set(U) - set([xi]))
                if MultiGroupRCD_exists_ancestor_in_U(self, M, U, xi, xj_list):
                    continue
                if MultiGroupRCD_is_independent_of_resid(self, Y_list, xi, xj_list):
                    sink_set.append(xi)
            if len(sink_set) == 1:
                xi = sink_set[0]
                xj_list = list(set(U) - set(sink_set))
                if not M[xi] == M[xi] | set(xj_list):
                    M[xi] = M[xi] | set(xj_list)
                    changed = True
            hu_history[tuple(U)] = H_U
        if changed:
            l = 1
        elif l < self._max_explanatory_num:
            l += 1
        else:
            break
    return M


def MultiGroupRCD_is_parent(self, X_list, M, xj, xi):
    fisher_stat = 0
    for X in X_list:
        if len(M[xi] - set([xj])) > 0:
            zi, _ = MultiGroupRCD_get_resid_and_coef(self, X, xi, list(M[xi] - set([xj])))
        else:
            zi = X[:, xi]
        if len(M[xi] & M[xj]) > 0:
            wj, _ = MultiGroupRCD_get_resid_and_coef(self, X, xj, list(M[xi] & M[xj]))
        else:
            wj = X[:, xj]
        corr_p = pearsonr(wj, zi)[1]
        fisher_stat += np.inf if corr_p == 0 else -2 * np.log(corr_p)
    fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
    return fisher_p < self._cor_alpha


def MultiGroupRCD_extract_parents(self, X_list, M):
    P = [set() for i in range(self._n_features)]
    for xi in range(self._n_features):
        for xj in M[xi]:
            if MultiGroupRCD_is_parent(self, X_list, M, xj, xi):
                P[xi].add(xj)
    return P


def MultiGroupRCD_get_resid_to_parent(self, X, idx, P):
    if len(P[idx]) == 0:
        return X[:, idx]
    resid, _ = MultiGroupRCD_get_resid_and_coef(self, X, idx, list(P[idx]))
    return resid


def MultiGroupRCD_extract_vars_sharing_confounders(self, X_list, P):
    C = [set() for i in range(self._n_features)]
    for i, j in itertools.combinations(range(self._n_features), 2):
        if i in P[j] or j in P[i]:
            continue
        fisher_stat = 0
        for X in X_list:
            resid_xi = MultiGroupRCD_get_resid_to_parent(self, X, i, P)
            resid_xj = MultiGroupRCD_get_resid_to_parent(self, X, j, P)
            corr_p = pearsonr(resid_xi, resid_xj)[1]
            fisher_stat += np.inf if corr_p == 0 else -2 * np.log(corr_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        if fisher_p < self._cor_alpha:
            C[i].add(j)
            C[j].add(i)
    return C


def MultiGroupRCD_estimate_adjacency_matrix(self, X, P, C):
    B = np.zeros([self._n_features, self._n_features], dtype='float64')
    for xi in range(self._n_features):
        xj_list = list(P[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        _, coef = MultiGroupRCD_get_resid_and_coef(self, X, xi, xj_list)
        for j, xj in enumerate(xj_list):
            B[xi, xj] = coef[j]
    for xi in range(self._n_features):
        xj_list = list(C[xi])
        xj_list.sort()
        if len(xj_list) == 0:
            continue
        for xj in xj_list:
            B[xi, xj] = np.nan
    return B


@defines('C09 C13 C19', 'MultiGroupRCD.fit', observe=['prop:ancestors_list_', 'prop:adjacency_matrices_'], init=True, opaque=['hsic_test_gamma', 'f_correlation'])
def MultiGroupRCD_fit(self, X_list):
    """ancestors decided on all datasets together, one matrix per dataset"""
    X_list = MultiGroupRCD_check_X_list(self, X_list)
    M = MultiGroupRCD_extract_ancestors(self, X_list)
    P = MultiGroupRCD_extract_parents(self, X_list, M)
    C = MultiGroupRCD_extract_vars_sharing_confounders(self, X_list, P)
    self._ancestors_list = M
    self._adjacency_matrices = []
    for X in X_list:
        adjacency_matrix = MultiGroupRCD_estimate_adjacency_matrix(self, X, P, C)
        self._adjacency_matrices.append(adjacency_matrix)
    return self


def MultiGroupDirectLiNGAM_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


def MultiGroupDirectLiNGAM_extract_partial_orders(self, pk):
    path_pairs = np.array(np.where(pk == 1)).transpose()
    no_path_pairs = np.array(np.where(pk == 0)).transpose()
    check_pairs = np.concatenate([path_pairs, path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        if len(pairs[counts > 1]) > 0:
            raise ValueError(f'The prior knowledge contains inconsistencies at the following indices: {pairs[counts > 1].tolist()}')
    check_pairs = np.concatenate([no_path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) > 0:
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        check_pairs = np.concatenate([no_path_pairs, pairs[counts > 1]])
        pairs, counts = np.unique(check_pairs, axis=0, return_counts=True)
        no_path_pairs = pairs[counts < 2]
    check_pairs = np.concatenate([path_pairs, no_path_pairs[:, [1, 0]]])
    if len(check_pairs) == 0:
        return check_pairs
    pairs = np.unique(check_pairs, axis=0)
    return pairs[:, [1, 0]]


def MultiGroupDirectLiNGAM_search_candidate(self, U):
    if self._Aknw is None:
        return (U, [])
    if not self._apply_prior_knowledge_softly:
        if len(self._partial_orders) != 0:
            Uc = [i for i in U if i not in self._partial_orders[:, 1]]
            return (Uc, [])
        else:
            return (U, [])
    Uc = []
    for j in U:
        index = U[U != j]
        if self._Aknw[j][index].sum() == 0:
            Uc.append(j)
    if len(Uc) == 0:
        U_end = []
        for j in U:
            index = U[U != j]
            if np.nansum(self._Aknw[j][index]) > 0:
                U_end.append(j)
        for i in U:
            index = U[U != i]
            if self._Aknw[index, i].sum() == 0:
                U_end.append(i)
        Uc = [i for i in U if i not in set(U_end)]
    Vj = []
    for i in U:
        if i in Uc:
            continue
        if self._Aknw[i][Uc].sum() == 0:
            Vj.append(i)
    return (Uc, Vj)


def MultiGroupDirectLiNGAM_residual(self, xi, xj):
    return xi - np.cov(xi, xj, bias=True)[0, 1] / np.var(xj) * xj


def MultiGroupDirectLiNGAM_entropy(self, u):
    k1 = 79.047
    k2 = 7.4129
    gamma = 0.37457
    return (1 + np.log(2 * np.pi)) / 2 - k1 * (np.mean(np.log(np.cosh(u))) - gamma) ** 2 - k2 * np.mean(u * np.exp(-u ** 2 / 2)) ** 2


def MultiGroupDirectLiNGAM_diff_mutual_info(self, xi_std, xj_std, ri_j, rj_i):
    return MultiGroupDirectLiNGAM_entropy(self, xj_std) + MultiGroupDirectLiNGAM_entropy(self, ri_j / np.std(ri_j)) - (MultiGroupDirectLiNGAM_entropy(self, xi_std) + MultiGroupDirectLiNGAM_entropy(self, rj_i / np.std(rj_i)))


def MultiGroupDirectLiNGAM_search_causal_order(self, X_list, U):
    Uc, Vj = MultiGroupDirectLiNGAM_search_candidate(self, U)
    if len(Uc) == 1:
        return Uc[0]
    total_size = 0
    for X in X_list:
        total_size += len(X)
    MG_list = []
    for i in Uc:
        MG = 0
        for X in X_list:
            M = 0
            for j in U:
                if i != j:
                    xi_std = (X[:, i] - np.mean(X[:, i])) / np.std(X[:, i])
                    xj_std = (X[:, j] - np.mean(X[:, j])) / np.std(X[:, j])
                    ri_j = xi_std if i in Vj and j in Uc else MultiGroupDirectLiNGAM_residual(self, xi_std, xj_std)
                    rj_i = xj_std if j in Vj and i in Uc else MultiGroupDirectLiNGAM_residual(self, xj_std, xi_std)
                    M += np.min([0, MultiGroupDirectLiNGAM_diff_mutual_info(self, xi_std, xj_std, ri_j, rj_i)]) ** 2
            MG += M * (len(X) / total_size)
        MG_list.append(-1.0 * MG)
    return Uc[np.argmax(MG_list)]


def MultiGroupDirectLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=None):
    if prior_knowledge is not None:
        pk = prior_knowledge.copy()
        np.fill_diagonal(pk, 0)
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i in range(1, len(self._causal_order)):
        target = self._causal_order[i]
        predictors = self._causal_order[:i]
        if prior_knowledge is not None:
            predictors = [p for p in predictors if pk[target, p] != 0]
        if len(predictors) == 0:
            continue
        B[target, predictors] = predict_adaptive_lasso(X, predictors, target)
    self._adjacency_matrix = B
    return self


@defines('C07 C08 C09 C13', 'MultiGroupDirectLiNGAM.fit', observe=['prop:causal_order_', 'prop:adjacency_matrices_'], init=True, opaque=['predict_adaptive_lasso'])
def MultiGroupDirectLiNGAM_fit(self, X_list):
    """one order for all datasets, one matrix per dataset"""
    X_list = MultiGroupDirectLiNGAM_check_X_list(self, X_list)
    if self._Aknw is not None:
        if (self._n_features, self._n_features) != self._Aknw.shape:
            raise ValueError('The shape of prior knowledge must be (n_features, n_features)')
        elif not self._apply_prior_knowledge_softly:
            self._partial_orders = MultiGroupDirectLiNGAM_extract_partial_orders(self, self._Aknw)
    U = np.arange(self._n_features)
    K = []
    X_list_ = [np.copy(X) for X in X_list]
    for _ in range(self._n_features):
        m = MultiGroupDirectLiNGAM_search_causal_order(self, X_list_, U)
        for i in U:
            if i != m:
                for d in range(len(X_list_)):
                    X_list_[d][:, i] = MultiGroupDirectLiNGAM_residual(self, X_list_[d][:, i], X_list_[d][:, m])
        K.append(m)
        U = U[U != m]
        if self._Aknw is not None and (not self._apply_prior_knowledge_softly):
            self._partial_orders = self._partial_orders[self._partial_orders[:, 0] != m]
    self._causal_order = K
    self._adjacency_matrices = []
    for X in X_list:
        MultiGroupDirectLiNGAM_estimate_adjacency_matrix(self, X, prior_knowledge=self._Aknw)
        self._adjacency_matrices.append(self._adjacency_matrix)
    return self


def CAMUV_is_independent_by(self, X, Y, threshold):
    is_independent = False
    if self._independence == 'hsic':
        _, value = hsic_test_gamma(X, Y)
        is_independent = value > threshold
    elif self._independence == 'fcorr':
        value = f_correlation(X, Y)
        is_independent = value < threshold
    return (is_independent, value)


def CAMUV_is_independent(self, X, Y):
    if self._independence == 'hsic':
        threshold = self._alpha
    elif self._independence == 'fcorr':
        threshold = self._ind_corr
    is_independent, _ = CAMUV_is_independent_by(self, X, Y, threshold)
    return is_independent


def CAMUV_get_neighborhoods(self, X):
    n = X.shape[0]
    d = X.shape[1]
    N = [set() for i in range(d)]
    for i in range(d):
        for j in range(d)[i + 1:]:
            in_X = np.reshape(X[:, i], [n, 1])
            in_Y = np.reshape(X[:, j], [n, 1])
            if not CAMUV_is_independent(self, in_X, in_Y):
                N[i].add(j)
                N[j].add(i)
    return N


def CAMUV_check_identified_causality(self, variables_set, P):
    variables_list = list(variables_set)
    for i in variables_list:
        for j in variables_list[variables_list.index(i) + 1:]:
            if j in P[i] or i in P[j]:
                return False
    return True


def CAMUV_check_prior_knowledge(self, xj_list, xi):
    if self._pk_dict is not None:
        for xj in xj_list:
            if xi in self._pk_dict and xj in self._pk_dict[xi]:
                return True
    return False


def CAMUV_check_correlation(self, child, parents, N):
    for parent in parents:
        if parent not in N[child]:
            return False
    return True


def CAMUV_get_residual(self, X, explained_i, explanatory_ids):
    explanatory_ids = list(explanatory_ids)
    if len(explanatory_ids) == 0:
        residual = X[:, explained_i]
    else:
        gam = LinearGAM().fit(X[:, explanatory_ids], X[:, explained_i])
        residual = X[:, explained_i] - gam.predict(X[:, explanatory_ids])
    return residual


def CAMUV_get_child(self, X, variables_set, P, N, Y):
    n = X.shape[0]
    prev_independence = 0.0 if self._independence == 'hsic' else 1.0
    max_independence_child = None
    for child in variables_set:
        parents = variables_set - {child}
        if CAMUV_check_prior_knowledge(self, parents, child):
            continue
        if not CAMUV_check_correlation(self, child, parents, N):
            continue
        residual = CAMUV_get_residual(self, X, child, parents | P[child])
        in_X = np.reshape(residual, [n, 1])
        in_Y = np.reshape(Y[:, list(parents)], [n, len(parents)])
        is_ind, value = CAMUV_is_independent_by(self, in_X, in_Y, prev_independence)
        if is_ind:
            prev_independence = value
            max_independence_child = child
    if self._independence == 'hsic':
        is_independent = prev_independence > self._alpha
    elif self._independence == 'fcorr':
        is_independent = prev_independence < self._ind_corr
    return (max_independence_child, is_independent)


def CAMUV_check_independence_withou_K(self, parents, child, P, N, Y):
    n = Y.shape[0]
    for parent in parents:
        in_X = np.reshape(Y[:, child], [n, 1])
        in_Y = np.reshape(Y[:, parent], [n, 1])
        if CAMUV_is_independent(self, in_X, in_Y):
            return False
    return True


def CAMUV_get_residuals_matrix(self, X, Y_old, P, child):
    Y = copy.deepcopy(Y_old)
    Y[:, child] = CAMUV_get_residual(self, X, child, P[child])
    return Y


def CAMUV_find_parents(self, X, maxnum_vals, N):
    n = X.shape[0]
    d = X.shape[1]
    P = [set() for i in range(d)]
    t = 2
    Y = copy.deepcopy(X)
    while True:
        changed = False
        variables_set_list = list(itertools.combinations(set(range(d)), t))
        for variables_set in variables_set_list:
            variables_set = set(variables_set)
            if not CAMUV_check_identified_causality(self, variables_set, P):
                continue
            child, is_independence_with_K = CAMUV_get_child(self, X, variables_set, P, N, Y)
            if child is None:
                continue
            if not is_independence_with_K:
                continue
            parents = variables_set - {child}
            if not CAMUV_check_independence_withou_K(self, parents, child, P, N, Y):
                continue
            for parent in parents:
                P[child].add(parent)
                changed = True
                Y = CAMUV_get_residuals_matrix(self, X, Y, P, child)
        if changed:
            t = 2
        else:
            t += 1
            if t > maxnum_vals:
                break
    for i in range(d):
        non_parents = set()
        for j in P[i]:
            residual_i = CAMUV_get_residual(self, X, i, P[i] - {j})
            residual_j = CAMUV_get_residual(self, X, j, P[j])
            in_X = np.reshape(residual_i, [n, 1])
            in_Y = np.reshape(residual_j, [n, 1])
            if CAMUV_is_independent(self, in_X, in_Y):
                non_parents.add(j)
        P[i] = P[i] - non_parents
    return P


def CAMUV_estimate_adjacency_matrix(self, X, P, U):
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i, parents in enumerate(P):
        for parent in parents:
            B[i, parent] = 1
    for confounded_pair in U:
        confounded_pair = list(confounded_pair)
        B[confounded_pair[0], confounded_pair[1]] = np.nan
        B[confounded_pair[1], confounded_pair[0]] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C07 C09 C19', 'CAMUV.fit', observe=['prop:adjacency_matrix_'], init=True, opaque=['hsic_test_gamma', 'f_correlation'])
def CAMUV_fit(self, X):
    """parents by additive regression and independence, unobserved pairs as nan"""
    X = check_array(X)
    n = X.shape[0]
    d = X.shape[1]
    N = CAMUV_get_neighborhoods(self, X)
    P = CAMUV_find_parents(self, X, self._num_explanatory_vals, N)
    U = []
    for i in range(d):
        for j in range(d)[i + 1:]:
            if i in P[j] or j in P[i]:
                continue
            if i not in N[j] or j not in N[i]:
                continue
            i_residual = CAMUV_get_residual(self, X, i, P[i])
            j_residual = CAMUV_get_residual(self, X, j, P[j])
            in_X = np.reshape(i_residual, [n, 1])
            in_Y = np.reshape(j_residual, [n, 1])
            if not CAMUV_is_independent(self, in_X, in_Y):
                if not set([i, j]) in U:
                    U.append(set([i, j]))
    self._U = U
    self._P = P
    return CAMUV_estimate_adjacency_matrix(self, X, P, U)


def MultiGroupCAMUV_check_X_list(self, X_list):
    if not isinstance(X_list, list):
        raise ValueError('X_list must be a list.')
    if len(X_list) < 2:
        raise ValueError('X_list must be a list containing at least two items')
    self._k = len(X_list)
    self._n_features = check_array(X_list[0]).shape[1]
    X_list_ = []
    for X in X_list:
        X_ = check_array(X)
        if X_.shape[1] != self._n_features:
            raise ValueError('X_list must be a list with the same number of features')
        X_list_.append(X_)
    return X_list_


def MultiGroupCAMUV_is_independent_by(self, X_list, Y_list, threshold):
    is_independent = False
    value = 0.0
    if self._independence == 'hsic':
        fisher_stat = 0
        for X, Y in zip(X_list, Y_list):
            _, hsic_p = hsic_test_gamma(X, Y)
            fisher_stat += np.inf if hsic_p == 0 else -2 * np.log(hsic_p)
        fisher_p = chi2.sf(fisher_stat, df=2 * self._k)
        is_independent = fisher_p > threshold
        value = fisher_p
    elif self._independence == 'fcorr':
        max_f_corr = 0.0
        for X, Y in zip(X_list, Y_list):
            f_corr = f_correlation(X, Y)
            if f_corr > max_f_corr:
                max_f_corr = f_corr
        is_independent = max_f_corr < threshold
        value = max_f_corr
    return (is_independent, value)


def MultiGroupCAMUV_is_independent(self, X_list, Y_list):
    if self._independence == 'hsic':
        threshold = self._alpha
    elif self._independence == 'fcorr':
        threshold = self._ind_corr
    is_independent, _ = MultiGroupCAMUV_is_independent_by(self, X_list, Y_list, threshold)
    return is_independent


def MultiGroupCAMUV_get_neighborhoods(self, X_list):
    d = X_list[0].shape[1]
    N = [set() for i in range(d)]
    for i in range(d):
        for j in range(d)[i + 1:]:
            in_X_list = []
            in_Y_list = []
            for X in X_list:
                n = X.shape[0]
                in_X_list.append(np.reshape(X[:, i], [n, 1]))
                in_Y_list.append(np.reshape(X[:, j], [n, 1]))
            if not MultiGroupCAMUV_is_independent(self, in_X_list, in_Y_list):
                N[i].add(j)
                N[j].add(i)
    return N


def MultiGroupCAMUV_check_identified_causality(self, variables_set, P):
    variables_list = list(variables_set)
    for i in variables_list:
        for j in variables_list[variables_list.index(i) + 1:]:
            if j in P[i] or i in P[j]:
                return False
    return True


def MultiGroupCAMUV_check_prior_knowledge(self, xj_list, xi):
    if self._pk_dict is not None:
        for xj in xj_list:
            if xi in self._pk_dict and xj in self._pk_dict[xi]:
                return True
    return False


def MultiGroupCAMUV_check_correlation(self, child, parents, N):
    for parent in parents:
        if parent not in N[child]:
            return False
    return True


def MultiGroupCAMUV_get_residual(self, X, explained_i, explanatory_ids):
    explanatory_ids = list(explanatory_ids)
    if len(explanatory_ids) == 0:
        residual = X[:, explained_i]
    else:
        gam = LinearGAM().fit(X[:, explanatory_ids], X[:, explained_i])
        residual = X[:, explained_i] - gam.predict(X[:, explanatory_ids])
    return residual


def MultiGroupCAMUV_get_child(self, X_list, variables_set, P, N, Y_list):
    prev_independence = 0.0 if self._independence == 'hsic' else 1.0
    max_independence_child = None
    for child in variables_set:
        parents = variables_set - {child}
        if MultiGroupCAMUV_check_prior_knowledge(self, parents, child):
            continue
        if not MultiGroupCAMUV_check_correlation(self, child, parents, N):
            continue
        in_X_list = []
        in_Y_list = []
        for X, Y in zip(X_list, Y_list):
            n = X.shape[0]
            residual = MultiGroupCAMUV_get_residual(self, X, child, parents | P[child])
            in_X_list.append(np.reshape(residual, [n, 1]))
            in_Y_list.append(np.reshape(Y[:, list(parents)], [n, len(parents)]))
        is_ind, value = MultiGroupCAMUV_is_independent_by(self, in_X_list, in_Y_list, prev_independence)
        if is_ind:
            prev_independence = value
            max_independence_child = child
    if self._independence == 'hsic':
        is_independent = prev_independence > self._alpha
    elif self._independence == 'fcorr':
        is_independent = prev_independence < self._ind_corr
    return (max_independence_child, is_independent)


def MultiGroupCAMUV_check_independence_withou_K(self, parents, child, P, N, Y_list):
    for parent in parents:
        in_X_list = []
        in_Y_list = []
        for Y in Y_list:
            n = Y.shape[0]
            in_X_list.append(np.reshape(Y[:, child], [n, 1]))
            in_Y_list.append(np.reshape(Y[:, parent], [n, 1]))
        if MultiGroupCAMUV_is_independent(self, in_X_list, in_Y_list):
            return False
    return True


def MultiGroupCAMUV_get_residuals_matrix(self, X, Y_old, P, child):
    Y = copy.deepcopy(Y_old)
    Y[:, child] = MultiGroupCAMUV_get_residual(self, X, child, P[child])
    return Y


def MultiGroupCAMUV_find_parents(self, X_list, maxnum_vals, N):
    d = X_list[0].shape[1]
    P = [set() for i in range(d)]
    t = 2
    Y_list = [copy.deepcopy(X) for X in X_list]
    while True:
        changed = False
        variables_set_list = list(itertools.combinations(set(range(d)), t))
        for variables_set in variables_set_list:
            variables_set = set(variables_set)
            if not MultiGroupCAMUV_check_identified_causality(self, variables_set, P):
                continue
            child, is_independence_with_K = MultiGroupCAMUV_get_child(self, X_list, variables_set, P, N, Y_list)
            if child is None:
                continue
            if not is_independence_with_K:
                continue
            parents = variables_set - {child}
            if not MultiGroupCAMUV_check_independence_withou_K(self, parents, child, P, N, Y_list):
                continue
            for parent in parents:
                P[child].add(parent)
                changed = True
                Y_list_ = []
                for X, Y in zip(X_list, Y_list):
                    Y_list_.append(MultiGroupCAMUV_get_residuals_matrix(self, X, Y, P, child))
                Y_list = Y_list_
        if changed:
            t = 2
        else:
            t += 1
            if t > maxnum_vals:
                break
    for i in range(d):
        non_parents = set()
        for j in P[i]:
            in_X_list = []
            in_Y_list = []
            for X in X_list:
                n = X.shape[0]
                residual_i = MultiGroupCAMUV_get_residual(self, X, i, P[i] - {j})
                residual_j = MultiGroupCAMUV_get_residual(self, X, j, P[j])
                in_X_list.append(np.reshape(residual_i, [n, 1]))
                in_Y_list.append(np.reshape(residual_j, [n, 1]))
            if MultiGroupCAMUV_is_independent(self, in_X_list, in_Y_list):
                non_parents.add(j)
        P[i] = P[i] - non_parents
    return P


def MultiGroupCAMUV_estimate_adjacency_matrix(self, X, P, U):
    B = np.zeros([X.shape[1], X.shape[1]], dtype='float64')
    for i, parents in enumerate(P):
        for parent in parents:
            B[i, parent] = 1
    for confounded_pair in U:
        confounded_pair = list(confounded_pair)
        B[confounded_pair[0], confounded_pair[1]] = np.nan
        B[confounded_pair[1], confounded_pair[0]] = np.nan
    self._adjacency_matrix = B
    return self


@defines('C07 C09 C13 C19', 'MultiGroupCAMUV.fit', observe=['prop:adjacency_matrix_'], init=True, opaque=['hsic_test_gamma', 'f_correlation'])
def MultiGroupCAMUV_fit(self, X_list):
    """parents decided on all datasets together, unobserved pairs as nan"""
    X_list = MultiGroupCAMUV_check_X_list(self, X_list)
    d = X_list[0].shape[1]
    N = MultiGroupCAMUV_get_neighborhoods(self, X_list)
    P = MultiGroupCAMUV_find_parents(self, X_list, self._num_explanatory_vals, N)
    U = []
    for i in range(d):
        for j in range(d)[i + 1:]:
            if i in P[j] or j in P[i]:
                continue
            if i not in N[j] or j not in N[i]:
                continue
            in_X_list = []
            in_Y_list = []
            for X in X_list:
                n = X.shape[0]
                i_residual = MultiGroupCAMUV_get_residual(self, X, i, P[i])
                j_residual = MultiGroupCAMUV_get_residual(self, X, j, P[j])
                in_X_list.append(np.reshape(i_residual, [n, 1]))
                in_Y_list.append(np.reshape(j_residual, [n, 1]))
            if not MultiGroupCAMUV_is_independent(self, in_X_list, in_Y_list):
                if not set([i, j]) in U:
                    U.append(set([i, j]))
    self._U = U
    self._P = P
    return MultiGroupCAMUV_estimate_adjacency_matrix(self, X_list[0], P, U)
