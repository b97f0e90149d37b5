"""Statistics used by the estimators."""
import numpy as np
from scipy.stats import gamma
from statsmodels.nonparametric import bandwidths
from lingam.hsic import get_kernel_width, get_gram_matrix, hsic_teststat
from scipy.linalg import eigh
from scipy.sparse.linalg import eigsh
from sklearn.utils import check_array
from sklearn.linear_model import LassoLarsIC, LinearRegression
from sklearn.preprocessing import StandardScaler
from lingam.utils import log_p_super_gaussian, variance_i


@defines('C15', 'get_kernel_width')
def define_get_kernel_width(X):
    """median distance kernel width of at most 100 points"""
    n_samples = X.shape[0]
    if n_samples > 100:
        X_med = X[:100, :]
        n_samples = 100
    else:
        X_med = X
    G = np.sum(X_med * X_med, 1).reshape(n_samples, 1)
    dists = G + G.T - 2 * np.dot(X_med, X_med.T)
    dists = dists - np.tril(dists)
    dists = dists.reshape(n_samples ** 2, 1)
    return np.sqrt(0.5 * np.median(dists[dists > 0]))


def rbf_dot(X, width):
    G = np.sum(X * X, axis=1)
    H = G[None, :] + G[:, None] - 2 * np.dot(X, X.T)
    return np.exp(-H / 2 / width ** 2)


@defines('C15', 'get_gram_matrix')
def define_get_gram_matrix(X, width):
    """Gaussian gram matrix and its centred form"""
    n = X.shape[0]
    K = rbf_dot(X, width)
    K_colsums = K.sum(axis=0)
    K_rowsums = K.sum(axis=1)
    K_allsum = K_rowsums.sum()
    Kc = K - (K_colsums[None, :] + K_rowsums[:, None]) / n + K_allsum / n ** 2
    return (K, Kc)


@defines('C15', 'hsic_teststat')
def define_hsic_teststat(Kc, Lc, n):
    """HSIC statistic of two centred gram matrices"""
    return 1 / n * np.sum(Kc.T * Lc)


@defines('C15', 'hsic_test_gamma', opaque=['get_kernel_width', 'get_gram_matrix', 'hsic_teststat'])
def define_hsic_test_gamma(X, Y, bw_method='mdbs'):
    """HSIC test with gamma approximated null"""
    X = X.reshape(-1, 1) if X.ndim == 1 else X
    Y = Y.reshape(-1, 1) if Y.ndim == 1 else Y
    if bw_method == 'scott':
        width_x = bandwidths.bw_scott(X)
        width_y = bandwidths.bw_scott(Y)
    elif bw_method == 'silverman':
        width_x = bandwidths.bw_silverman(X)
        width_y = bandwidths.bw_silverman(Y)
    else:
        width_x = get_kernel_width(X)
        width_y = get_kernel_width(Y)
    K, Kc = get_gram_matrix(X, width_x)
    L, Lc = get_gram_matrix(Y, width_y)
    n = X.shape[0]
    test_stat = hsic_teststat(Kc, Lc, n)
    var = (1 / 6 * Kc * Lc) ** 2
    var = 1 / n / (n - 1) * (np.sum(var) - np.trace(var))
    var = 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3) * var
    K[np.diag_indices(n)] = 0
    L[np.diag_indices(n)] = 0
    mu_X = 1 / n / (n - 1) * K.sum()
    mu_Y = 1 / n / (n - 1) * L.sum()
    mean = 1 / n * (1 + mu_X * mu_Y - mu_X - mu_Y)
    alpha = mean ** 2 / var
    beta = var * n / mean
    p = gamma.sf(test_stat, alpha, scale=beta)
    return (test_stat, p)


def squared_dist(x, y):
    xx = x * x
    yy = y * y
    xy = x.reshape(-1, 1) * y
    xx = np.tile(xx.reshape(-1, 1), (1, len(yy)))
    yy = np.tile(yy, (len(xx), 1))
    return np.abs(xx + yy - 2 * xy)


def incomplete_cholesky(x, sigma, tol):
    n = x.shape[0]
    i = 0
    Gjj = np.ones(n)
    G = np.empty((n, 0))
    P = np.array([i for i in range(n)])
    while np.sum(Gjj[i:n]) > tol:
        G = np.append(G, np.zeros((n, 1)), axis=1)
        if i > 0:
            jast = np.argmax(Gjj[i:n])
            jast = jast + i
            P[[i, jast]] = P[[jast, i]]
            G[[i, jast], :i] = G[[jast, i], :i]
        else:
            jast = 0
        G[i, i] = Gjj[jast]
        G[i, i] = np.sqrt(G[i, i])
        if i < n:
            dist = squared_dist(x[P[i + 1:n]], x[[P[i]]])
            K = np.exp(-0.5 / sigma ** 2 * dist)
            if i > 0:
                sigG = G[i + 1:n, 0:i] @ G[i, 0:i].reshape(-1, 1)
                G[i + 1:n, [i]] = 1 / G[i, i] * (K - sigG)
            else:
                G[i + 1:n, [i]] = 1 / G[i, i] * K
        if i < n:
            Gjj[i + 1:n] = np.ones(n - (i + 1)) - np.sum(G[i + 1:n, 0:i + 1] ** 2, axis=1)
        i = i + 1
    return (G, P)


def svd(G, n, kappa):
    eta = kappa * 0.01
    D, A = eigh(G.T @ G)
    indexes = np.where(D >= n * eta)[0]
    order = np.argsort(D[indexes])
    order = order[::-1]
    indexes = indexes[order[0:len(indexes)]]
    D = D[indexes]
    U = G @ (A[:, indexes] @ np.diag(np.sqrt(1.0 / D)))
    R = D
    for j in range(len(D)):
        R[j] = D[j] / (n * kappa / 2 + D[j])
    return (R, U)


@defines('C15', 'f_correlation')
def define_f_correlation(x, y):
    """kernelised canonical correlation"""
    x_ = check_array(x, ensure_2d=False)
    y_ = check_array(y, ensure_2d=False)
    n = x_.shape[0]
    if y_.shape[0] != n:
        raise ValueError('x and y must be the same size.')
    x_ = (x_ - x_.mean()) / x_.std()
    y_ = (y_ - y_.mean()) / y_.std()
    X = [x_, y_]
    m = len(X)
    if n > 1000:
        kappa, sigma = [0.002, 0.5]
    else:
        kappa, sigma = [0.02, 1.0]
    Rs = []
    Us = []
    sizes = []
    for i in range(m):
        G, P = incomplete_cholesky(X[i], sigma, n * kappa * 0.01)
        G = G[np.argsort(P), :]
        G = G - np.tile(np.mean(G, axis=0), (len(G), 1))
        R, U = svd(G, n, kappa)
        Rs.append(R)
        Us.append(U)
        sizes.append(R.shape[0])
    R_kappa = np.eye(sum(sizes))
    st = np.cumsum(np.hstack([0, sizes]))
    st = st[:m]
    for i in range(1, m):
        for j in range(0, i):
            RUUR = np.diag(Rs[i]) @ (Us[i].T @ Us[j]) @ np.diag(Rs[j])
            R_kappa[st[i]:st[i] + sizes[i], st[j]:st[j] + sizes[j]] = RUUR
            R_kappa[st[j]:st[j] + sizes[j], st[i]:st[i] + sizes[i]] = RUUR.T
    w, _ = eigsh(R_kappa, 1, which='SM')
    return 1 - w[0]


@defines('C15 C08', 'predict_adaptive_lasso')
def define_predict_adaptive_lasso(X, predictors, target, gamma=1.0):
    """coefficients by adaptive lasso, weighted by least squares, chosen by BIC"""
    scaler = StandardScaler()
    X_std = scaler.fit_transform(X)
    lr = LinearRegression()
    lr.fit(X_std[:, predictors], X_std[:, target])
    weight = np.power(np.abs(lr.coef_), gamma)
    reg = LassoLarsIC(criterion='bic')
    reg.fit(X_std[:, predictors] * weight, X_std[:, target])
    pruned_idx = np.abs(reg.coef_ * weight) > 0.0
    coef = np.zeros(reg.coef_.shape)
    if pruned_idx.sum() > 0:
        lr = LinearRegression()
        pred = np.array(predictors)
        lr.fit(X[:, pred[pruned_idx]], X[:, target])
        coef[pruned_idx] = lr.coef_
    return coef


@defines('C15', 'likelihood_i')
def define_likelihood_i(x, i, b_i, bi_0):
    """log likelihood of one variable given its coefficients"""
    sample_size = x.shape[1]
    var_i = variance_i(x, i, b_i)
    ll = 0.0
    ll += np.sum(log_p_super_gaussian((x[i] - np.dot(b_i, x) - bi_0) / np.sqrt(var_i)))
    ll -= sample_size * np.log(np.sqrt(var_i))
    return ll


@defines('C15', 'log_p_super_gaussian')
def define_log_p_super_gaussian(s):
    """super-Gaussian log density"""
    const = -0.35
    return -np.sqrt(2.0) * np.absolute(s) + const


@defines('C15', 'variance_i')
def define_variance_i(X, i, b_i):
    """residual variance of one variable"""
    estimated_disturbance = X[i] - np.dot(b_i, X)
    variance = np.var(estimated_disturbance)
    return variance
