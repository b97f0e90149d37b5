"""Ancestor search."""
import itertools
from sklearn.utils import check_array
from lingam.utils._rcd import get_common_ancestors, get_residual_matrix, is_non_gaussianity, is_correlated, exists_ancestor_in_U, is_independent_of_resid


@defines('C19', 'utils._rcd:extract_ancestors', opaque=['hsic_test_gamma', 'f_correlation'])
def define_utils__rcd_extract_ancestors(X, max_explanatory_num=2, cor_alpha=0.01, ind_alpha=0.01, shapiro_alpha=0.01, MLHSICR=True, bw_method='mdbs'):
    """ancestors by independence of residuals"""
    n_features = X.shape[1]
    M = [set() for i in range(n_features)]
    l = 1
    hu_history = {}
    X = check_array(X)
    while True:
        changed = False
        U_list = itertools.combinations(range(n_features), l + 1)
        U_list = [sorted(list(U)) for U in U_list]
        for U in U_list:
            H_U = get_common_ancestors(M, U)
            if tuple(U) in hu_history and H_U == hu_history[tuple(U)]:
                continue
            Y = get_residual_matrix(X, U, H_U)
            if not is_non_gaussianity(Y, U, shapiro_alpha):
                continue
            is_cor = True
            for xi, xj in itertools.combinations(U, 2):
                if not is_correlated(Y[:, xi], Y[:, xj], cor_alpha):
                    is_cor = False
                    break
            if not is_cor:
                continue
            sink_set = []
            for xi in U:
                xj_list = list(set(U) - set([xi]))
                if exists_ancestor_in_U(M, U, xi, xj_list):
                    continue
                if is_independent_of_resid(Y, xi, xj_list, ind_alpha, bw_method, MLHSICR):
                    sink_set.append(xi)
            if len(sink_set) == 1:
                xi = sink_set[0]
                xj_list = list(set(U) - set(sink_set))
                if not M[xi] == M[xi] | set(xj_list):
                    M[xi] = M[xi] | set(xj_list)
                    changed = True
            hu_history[tuple(U)] = H_U
        if changed:
            l = 1
        elif l < max_explanatory_num:
            l += 1
        else:
            break
    return M
