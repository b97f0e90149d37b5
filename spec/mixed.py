"""Mixed data and latent factor models."""
from itertools import product
import networkx as nx
import numpy as np
import pandas as pd
import scipy.optimize as sopt
from scipy.special import expit as sigmoid
from sklearn.linear_model import LinearRegression, LogisticRegression, PoissonRegressor
from sklearn.metrics import log_loss
import lingam.utils as ut
from psy import cfa


def LiM_estimate_LiM(self, X, dis_con, only_global, is_poisson):
    loss_type = self._loss_type

    def _loss(W):
        """Evaluate value and gradient of loss."""
        M = X @ W
        if loss_type == 'logistic':
            loss = 1.0 / X.shape[0] * (np.logaddexp(0, M) - X * M).sum()
            G_loss = 1.0 / X.shape[0] * X.T @ (sigmoid(M) - X)
        elif loss_type == 'poisson':
            loss = -np.sum(X.T @ M) + np.exp(M).sum()
            for j in range(X.shape[0]):
                for k in range(X.shape[1]):
                    loss += np.log(_factorial(X[j][k]))
            loss = 1.0 / X.shape[0] * loss
            G_loss = 1.0 / X.shape[0] * (-X.T @ X + X.T @ np.exp(M))
        elif loss_type == 'laplace':
            R = X - M
            loss = -1.0 / X.shape[0] * np.sum(-np.log(np.cosh(R)))
            G_loss = 1.0 / X.shape[0] * X.T @ np.tanh(R)
        elif loss_type == 'mixed':
            R = X - M
            a1, a2 = (1, 1)
            loss_dis = ((np.logaddexp(0, M) - X * M) * np.absolute(dis_con - 1)).sum()
            loss_con = np.sum(-np.log(np.cosh(R)) * dis_con)
            loss = -1.0 / X.shape[0] * (a1 * loss_dis + a2 * loss_con)
            W_dis = np.zeros([d, d])
            W_con = np.zeros([d, d])
            for ii in np.where(dis_con[0, :] == 0):
                W_dis[[ii], :] = 1
                W_dis[:, [ii]] = 1
            for jj in np.where(dis_con[0, :] == 1):
                W_con[[jj], :] = 1
                W_con[:, [jj]] = 1
            G_dis = X.T @ (sigmoid(M) - X) * W_dis
            G_con = -X.T @ np.tanh(R) * W_con
            G_loss = 1.0 / X.shape[0] * (G_dis + G_con)
        elif loss_type == 'mixed_dag':
            dag = nx.DiGraph(W)
            lingam_data = np.transpose(X)
            df = pd.DataFrame(X)
            is_continuous = dis_con[0, :].astype(bool)
            is_discrete = np.invert(is_continuous)
            loss = -_bic_scoring(dag, is_discrete, is_poisson, df, lingam_data)
            R = X - M
            G_loss = 1.0 / X.shape[0] * (X.T @ (sigmoid(M) - X) - X.T @ np.tanh(R))
        else:
            raise ValueError('unknown loss type')
        return (loss, G_loss)

    def _bic_scoring(dag: nx.DiGraph, is_discrete, is_poisson, df, lingam_data):
        """Evaluate value of loss given the DAG."""
        sample_size = df.shape[0]
        K = dag.number_of_edges() + dag.number_of_nodes()
        penalty = np.log(sample_size) / 2 * K
        total_score = 0.0 - penalty
        for i in dag.nodes:
            parents_i = [j for j in dag.predecessors(i)]
            if is_discrete[i] and is_poisson == False:
                if not parents_i:
                    frequency_table = df[i].value_counts()
                    likekihood_bernoulli = 0.0
                    for count_k in frequency_table:
                        likekihood_bernoulli += count_k * (np.log(count_k) - np.log(frequency_table.sum()))
                    total_score += likekihood_bernoulli
                elif parents_i:
                    X = df[parents_i]
                    y = df[i]
                    logistic = LogisticRegression(solver='lbfgs')
                    logistic.fit(X, y)
                    predict_prob = logistic.predict_proba(X)
                    likekihood_logistic = -log_loss(y_true=y, y_pred=predict_prob, normalize=False)
                    total_score += likekihood_logistic
                pass
            elif is_discrete[i] and is_poisson == True:
                if not parents_i:
                    frequency_table = df[i].value_counts()
                    likekihood_bernoulli = 0.0
                    for count_k in frequency_table:
                        likekihood_bernoulli += count_k * (np.log(count_k) - np.log(frequency_table.sum()))
                    total_score += likekihood_bernoulli
                elif parents_i:
                    for iii in range(len(parents_i)):
                        X = lingam_data[parents_i[iii]]
                        X = X.reshape(-1, 1)
                        y = lingam_data[i]
                        poisson = PoissonRegressor()
                        poisson.fit(X, y)
                        beta = poisson.coef_
                        likekihood_poisson = -np.sum(y * lingam_data[parents_i[iii]] * beta) + np.sum(np.exp(lingam_data[parents_i[iii]] * beta))
                        for j in range(len(y)):
                            likekihood_poisson += np.log(_factorial(y[j]))
                    total_score += likekihood_poisson
            elif not is_discrete[i]:
                b_i = np.zeros(dag.number_of_nodes())
                if parents_i:
                    X = df[parents_i]
                    y = df[i]
                    lr = LinearRegression(fit_intercept=True)
                    lr.fit(X, y)
                    for index, j in enumerate(parents_i):
                        b_i[j] = lr.coef_[index]
                    bi_0 = lr.intercept_
                else:
                    bi_0 = np.mean(df[i])
                likekihood_lingam = ut.likelihood_i(lingam_data, i, b_i, bi_0)
                total_score += likekihood_lingam
                pass
        return total_score

    def _h(W):
        """Evaluate value and gradient of acyclicity constraint."""
        M = np.eye(d) + W * W / d
        G_h = np.linalg.matrix_power(M, d - 1)
        h = (G_h.T * M).sum() - d
        return (h, G_h)

    def _adj(w):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (w[:d * d] - w[d * d:]).reshape([d, d])

    def _func(w):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        W = _adj(w)
        loss, G_loss = _loss(W)
        h, G_h = _h(W)
        obj = loss + 0.5 * rho * h * h + alpha * h + self._lambda1 * w.sum()
        G_smooth = G_loss + (rho * h + alpha) * G_h.T * W * 2
        g_obj = np.concatenate((G_smooth + self._lambda1, -G_smooth + self._lambda1), axis=None)
        return (obj, g_obj)

    def _factorial(y):
        if not isinstance(y, int):
            y = round(y)
        if y == 0 or y == 1 or y < 0:
            return 1
        else:
            return y * _factorial(y - 1)
    n, d = X.shape
    w_est, rho, alpha, h = (np.random.random(2 * d * d), 1.0, 0.0, np.inf)
    bnds = [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)]
    for _ in range(self._max_iter):
        w_new, h_new = (None, None)
        while rho < self._rho_max:
            sol = sopt.minimize(_func, w_est, method='L-BFGS-B', jac=True, bounds=bnds)
            w_new = sol.x
            h_new, _ = _h(_adj(w_new))
            if h_new >= 0.25 * h:
                rho *= 10
            else:
                break
        w_est, h = (w_new, h_new)
        alpha += rho * h
        if h <= self._h_tol and h != 0:
            break
        if rho >= self._rho_max * 1e-06 and h > 100000.0:
            w_est = np.random.random(2 * d * d)
            rho = 1.0
        elif rho >= self._rho_max:
            break
        if np.sum(np.absolute(_adj(w_est))) < 0.09:
            w_est = np.random.random(2 * d * d)
    W_est = _adj(w_est)
    W_est[np.abs(W_est) < self._w_threshold] = 0
    print('W_est (without the 2nd phase) is: \n', W_est)
    if not only_global:
        loss_type = 'mixed_dag'
        aa, aaa = _loss(W_est)
        I = np.where(W_est != 0)
        W_min_lss = np.copy(W_est)
        candi_setting = list(product(range(2), repeat=len(I[0])))
        for candi_setting_i in range(1, len(candi_setting)):
            W_tmp = np.copy(W_est)
            for iii in range(len(I[0])):
                if candi_setting[candi_setting_i][iii] == 1:
                    W_tmp[I[0][iii], I[1][iii]] = 0
                    W_tmp[I[1][iii], I[0][iii]] = 1
            lss, lss_G = _loss(W_tmp)
            if lss < aa and _h(W_tmp)[0] < self._h_tol:
                W_min_lss = np.copy(W_tmp)
                aa = lss
        if d > 2 and len(I[0]) > d - 1:
            W0 = np.copy(W_min_lss)
            I_delete = np.where(W_min_lss != 0)
            for delete_i in range(len(I_delete[0])):
                W_tmp = np.copy(W0)
                W_tmp[I_delete[0][delete_i], I_delete[1][delete_i]] = 0
                lss, lss_G = _loss(W_tmp)
                if lss < aa and _h(W_tmp)[0] < self._h_tol:
                    W_min_lss = np.copy(W_tmp)
                    aa = lss
            if not np.all(W_est.astype(bool) == W_min_lss.astype(bool)):
                W0 = np.copy(W_est)
                for delete_i in range(len(I[0])):
                    W_tmp = np.copy(W0)
                    W_tmp[I[0][delete_i], I[1][delete_i]] = 0
                    lss, lss_G = _loss(W_tmp)
                    if lss < aa and _h(W_tmp)[0] < self._h_tol:
                        W_min_lss = np.copy(W_tmp)
                        aa = lss
        if d > 2 and len(I[0]) < d * (d - 1) / 2:
            W0 = np.copy(W_min_lss)
            W_edges = W0 + W0.T + np.eye(d)
            I_add = np.where(W_edges == 0)
            for add_i in range(len(I_add[0])):
                W_tmp = np.copy(W0)
                W_tmp[I_add[0][add_i], I_add[1][add_i]] = 1
                lss, lss_G = _loss(W_tmp)
                if lss < aa and _h(W_tmp)[0] < self._h_tol:
                    W_min_lss = np.copy(W_tmp)
                    aa = lss
            if not np.all(W_est.astype(bool) == W_min_lss.astype(bool)):
                W0 = np.copy(W_est)
                W_edges = W0 + W0.T + np.eye(d)
                I_add = np.where(W_edges == 0)
                for add_i in range(len(I_add[0])):
                    W_tmp = np.copy(W0)
                    W_tmp[I_add[0][add_i], I_add[1][add_i]] = 1
                    lss, lss_G = _loss(W_tmp)
                    if lss < aa and _h(W_tmp)[0] < self._h_tol:
                        W_min_lss = np.copy(W_tmp)
                        aa = lss
    else:
        W_min_lss = np.copy(W_est)
    return W_min_lss


@defines('C21 C09', 'LiM.fit', observe=['return', 'prop:adjacency_matrix_'], init=True)
def define_LiM_fit(self, X, dis_con, only_global=False, is_poisson=False):
    """weights minimising the penalised loss, orientation by BIC"""
    W_min_lss = LiM_estimate_LiM(self, X, dis_con, only_global, is_poisson)
    self._adjacency_matrix = W_min_lss
    return self._adjacency_matrix


def LiNA_estimate_LiNA(self, f):

    def _loss(W):
        """Evaluate value and gradient of loss."""
        M = f @ W
        if self._loss_type == 'l2':
            R = f - M
            loss = 0.5 / f.shape[0] * (R ** 2).sum()
            D = -1.0 / f.shape[0] * f.T @ R
        elif self._loss_type == 'logistic':
            loss = 1.0 / f.shape[0] * (np.logaddexp(0, M) - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (sigmoid(M) - f)
        elif self._loss_type == 'poisson':
            S = np.exp(M)
            loss = 1.0 / f.shape[0] * (S - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (S - f)
        elif self._loss_type == 'laplace':
            R = f - M
            loss = -np.sum(-np.log(np.cosh(R)))
            D = -f.T @ np.tanh(R)
        else:
            raise ValueError('unknown loss type')
        return (loss, D)

    def _h(W):
        """Evaluate value and gradient of acyclicity constraint."""
        M = np.eye(d) + W * W / d
        E = np.linalg.matrix_power(M, d - 1)
        h = (E.T * M).sum() - d
        return (h, E)

    def _adj(w):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (w[:d * d] - w[d * d:]).reshape([d, d])

    def _func(w):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        W = _adj(w)
        loss, D = _loss(W)
        h, E = _h(W)
        obj = loss + 0.5 * rho * h * h + alpha * h + self._lambda1 * w.sum()
        G = D + (rho * h + alpha) * E.T * W * 2
        grad_cat = np.concatenate((G + self._lambda1, -G + self._lambda1), axis=None)
        return (obj, grad_cat)
    n, d = f.shape
    w_est, rho, alpha, h = (np.zeros(2 * d * d), 1.0, 0.0, np.inf)
    bnds = [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)]
    for _ in range(self._max_iter):
        w_new, h_new = (None, None)
        while rho < self._rho_max:
            sol = sopt.minimize(_func, w_est, method='L-BFGS-B', jac=True, bounds=bnds)
            w_new = sol.x
            h_new, _ = _h(_adj(w_new))
            if h_new > 0.25 * h:
                rho *= 10
            else:
                break
        w_est, h = (w_new, h_new)
        alpha += rho * h
        if h <= self._h_tol or rho >= self._rho_max:
            break
    W_est = _adj(w_est)
    W_est[np.abs(W_est) < self._w_threshold] = 0
    return W_est


@defines('C21 C09', 'LiNA.fit', observe=['return', 'prop:adjacency_matrix_', 'prop:measurement_matrix_'], init=True)
def define_LiNA_fit(self, X, G_sign, scale):
    """latent factors from the measurement groups and their graph"""
    n_samples = X.shape[0]
    n_features_latent = G_sign.shape[1]
    lam, phi, var_e = cfa(X, G_sign)
    G_est_nor = lam
    f_est_nor = np.linalg.inv(G_est_nor.T @ G_est_nor) @ G_est_nor.T @ X.T
    f_est_nor = f_est_nor.T
    f_est = np.zeros([n_samples, n_features_latent])
    for j in range(n_features_latent):
        f_est[:, j] = f_est_nor[:, j] * scale[0, j]
    f = f_est
    W_est = LiNA_estimate_LiNA(self, f)
    self._adjacency_matrix = W_est
    self._measurement_matrix = G_est_nor
    return self._adjacency_matrix


def MDLiNA_estimate_MDLiNA_H(self, f, W):

    def _loss(H):
        """Evaluate value and gradient of loss."""
        inv_HH = np.linalg.inv(H.T @ H)
        fH = f @ H
        M = fH @ inv_HH @ W
        if self._loss_type == 'l2':
            R = f - M
            loss = 0.5 / f.shape[0] * (R ** 2).sum()
            D = -1.0 / f.shape[0] * f.T @ R
        elif self._loss_type == 'laplace':
            R = fH @ inv_HH - M
            for j in range(hq):
                R[:, j] = R[:, j] - np.mean(R[:, j])
                R[:, j] = R[:, j] / np.std(R[:, j])
            if np.trace(H.T @ H) < 10000:
                aa = np.trace(H.T @ H)
                D = -f.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) @ inv_HH + H @ inv_HH @ inv_HH @ fH.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) + H @ inv_HH @ inv_HH @ (np.eye(np.size(H, 1)) - W).T @ np.tanh(R).T @ fH - 2 * f.T @ fH @ inv_HH + 2 * H @ inv_HH @ fH.T @ fH @ inv_HH
            else:
                aa = 0
                D = -f.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) @ inv_HH + H @ inv_HH @ inv_HH @ fH.T @ np.tanh(R) @ (np.eye(np.size(H, 1)) - W) + H @ inv_HH @ inv_HH @ (np.eye(np.size(H, 1)) - W).T @ np.tanh(R).T @ fH - 2 * f.T @ fH @ inv_HH + 2 * H @ inv_HH @ fH.T @ fH @ inv_HH + 2 * H
            loss = np.sum(np.log(np.cosh(R))) + np.trace((f - fH @ inv_HH @ H.T).T @ (f - fH @ inv_HH @ H.T)) + (np.trace(H.T @ H) - aa)
        else:
            raise ValueError('unknown loss type')
        return (loss, D)

    def _adj(h):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (h[:hq * q] - h[hq * q:]).reshape([q, hq])

    def _func(h):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        H = _adj(h)
        loss, D = _loss(H)
        obj = loss + self._lambda1 * h.sum()
        G = D
        grad_cat = np.concatenate((G + self._lambda1, -G + self._lambda1), axis=None)
        return (obj, grad_cat)
    n, q = f.shape
    hq = np.size(W, 0)
    h_est, score_0 = (np.random.rand(2 * hq * q), np.inf)
    for _ in range(self._max_iter):
        sol = sopt.minimize(_func, h_est, method='BFGS', jac=True)
        h_new = sol.x
        score_1 = sol.fun
        if np.abs(score_0 - score_1) < self._h_tol:
            break
        if score_1 > 0 and score_1 < score_0:
            h_est = h_new
            score_0 = score_1
            bb = _adj(h_est)
            bb[np.abs(bb) < self._w_threshold] = 0
            if np.linalg.det(bb.T @ bb) == 0:
                h_est[0:8] = h_est[0:8] + 0.1
            if np.max(np.abs(h_est)) > 100:
                h_est = np.random.rand(2 * hq * q)
                score_0 = np.inf
        else:
            h_est = np.random.rand(2 * hq * q)
    h_est = h_new
    H_est = _adj(h_est)
    H_est[np.abs(H_est) < self._w_threshold] = 0
    self._H_est = H_est
    return self._H_est


def MDLiNA_estimate_MDLiNA_B(self, f):

    def _loss(W):
        """Evaluate value and gradient of loss."""
        M = f @ W
        if self._loss_type == 'l2':
            R = f - M
            loss = 0.5 / f.shape[0] * (R ** 2).sum()
            D = -1.0 / f.shape[0] * f.T @ R
        elif self._loss_type == 'logistic':
            loss = 1.0 / f.shape[0] * (np.logaddexp(0, M) - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (sigmoid(M) - f)
        elif self._loss_type == 'poisson':
            S = np.exp(M)
            loss = 1.0 / f.shape[0] * (S - f * M).sum()
            D = 1.0 / f.shape[0] * f.T @ (S - f)
        elif self._loss_type == 'laplace':
            R = f - M
            loss = -np.sum(-np.log(np.cosh(R)))
            D = -f.T @ np.tanh(R)
        else:
            raise ValueError('unknown loss type')
        return (loss, D)

    def _h(W):
        """Evaluate value and gradient of acyclicity constraint."""
        M = np.eye(d) + W * W / d
        E = np.linalg.matrix_power(M, d - 1)
        h = (E.T * M).sum() - d
        return (h, E)

    def _adj(w):
        """Convert doubled variables ([2 d^2] array) back to original variables ([d, d] matrix)."""
        return (w[:d * d] - w[d * d:]).reshape([d, d])

    def _func(w):
        """Evaluate value and gradient of augmented Lagrangian for doubled variables ([2 d^2] array)."""
        W = _adj(w)
        loss, D = _loss(W)
        h, E = _h(W)
        obj = loss + 0.5 * rho * h * h + alpha * h + self._lambda1 * w.sum()
        G = D + (rho * h + alpha) * E.T * W * 2
        grad_cat = np.concatenate((G + self._lambda1, -G + self._lambda1), axis=None)
        return (obj, grad_cat)
    n, d = f.shape
    w_est, rho, alpha, h = (np.zeros(2 * d * d), 1.0, 0.0, np.inf)
    bnds = [(0, 0) if i == j else (0, None) for _ in range(2) for i in range(d) for j in range(d)]
    for _ in range(self._max_iter):
        w_new, h_new = (None, None)
        while rho < self._rho_max:
            sol = sopt.minimize(_func, w_est, method='L-BFGS-B', jac=True, bounds=bnds)
            w_new = sol.x
            h_new, _ = _h(_adj(w_new))
            if h_new > 0.25 * h:
                rho *= 10
            else:
                break
        w_est, h = (w_new, h_new)
        alpha += rho * h
        if h <= self._h_tol or rho >= self._rho_max:
            break
    W_est = _adj(w_est)
    W_est[np.abs(W_est) < self._w_threshold] = 0
    self._W_est = W_est
    return self._W_est


def MDLiNA_conh(self, W):
    d = self._no_of_latent_1domain
    M = np.eye(d) + W * W / d
    E = np.linalg.matrix_power(M, d - 1)
    h = (E.T * M).sum() - d
    return h


@defines('C21 C09', 'MDLiNA.fit', observe=['return', 'prop:adjacency_matrix_', 'prop:measurement_matrix_'], init=True)
def define_MDLiNA_fit(self, X, G_sign, scale):
    """shared latent factors of several datasets and their graph"""
    lam, phi, var_e = cfa(X, G_sign)
    G_est = lam
    f_est = np.linalg.inv(G_est.T @ G_est) @ G_est.T @ X.T
    f_est = f_est.T
    F = np.zeros([f_est.shape[0], f_est.shape[1]])
    for j in range(f_est.shape[1]):
        if j < self._no_of_latent_1domain:
            F[:, j] = f_est[:, j] * scale[0, j]
        else:
            F[:, j] = f_est[:, j] * scale[1, j]
    W0 = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    H0 = np.zeros([self._no_of_latent_1domain * self._no_of_domain, self._no_of_latent_1domain])
    times = 0
    min_like = np.inf
    Likelihood_all = np.zeros([1, 10000])
    while 1:
        H_est = MDLiNA_estimate_MDLiNA_H(self, F, W0)
        F_final2 = np.linalg.inv(H_est.T @ H_est) @ H_est.T @ F.T
        W_est = MDLiNA_estimate_MDLiNA_B(self, F_final2.T)
        times = times + 1
        print('W_est is:\n', W_est)
        print('W0 is:\n', W0)
        inv_HH = np.linalg.inv(H_est.T @ H_est) @ H_est.T
        P_H = H_est @ inv_HH @ F.T
        LL = np.sum(np.log(np.cosh(F @ H_est - F @ inv_HH.T @ W_est))) + np.abs(W_est).sum() + 10000 * MDLiNA_conh(self, W_est)
        recon_error = np.trace((F.T - P_H).T @ (F.T - P_H))
        H1 = np.abs(H_est).sum()
        likelihood_all = LL + recon_error + H1
        Likelihood_all[0, times] = likelihood_all
        if likelihood_all <= min_like:
            min_like = likelihood_all
        if np.abs(Likelihood_all[0, times] - Likelihood_all[0, times - 1]) < 0.1:
            break
        elif times >= 30 and np.abs(likelihood_all - min_like) < 0.1:
            break
        elif times >= 30 and likelihood_all <= min_like:
            break
        elif times >= 50 and np.abs(likelihood_all - np.min(Likelihood_all[0, times - 20:times - 1])) < 0.1:
            break
        elif times >= 50 and likelihood_all <= np.min(Likelihood_all[0, times - 20:times - 1]):
            break
        else:
            W0 = W_est
            H0 = H_est
    if np.where(H_est != 0)[0].shape[0] == 0:
        H_est = H0
    if np.where(W_est != 0)[0].shape[0] == 0:
        W_est = W0
    tt = 0
    if tt == 0:
        Weight = np.abs(H_est)
        W = W_est
    else:
        Weight = np.abs(H_est)
        W = W0
    BB = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    for i in range(self._no_of_latent_1domain):
        for j in range(self._no_of_latent_1domain):
            BB[j, i] = np.abs(Weight[j, i]) + np.abs(Weight[j + self._no_of_latent_1domain, i])
    order = np.zeros([1, self._no_of_latent_1domain])
    if len(np.where(BB == 0)) == 0:
        for i in range(self._no_of_latent_1domain):
            indice = np.where(BB == np.amax(BB))
            order[0, indice[1]] = indice[0]
            BB[indice[0], :] = 0
            BB[:, indice[1]] = 0
    else:
        indice = np.where(BB == 0)
        BB[:, indice[1]] = BB[:, indice[1]] + 0.01
        for i in range(self._no_of_latent_1domain):
            indice = np.where(BB == np.amax(BB))
            if len(indice[0]) > 1:
                order[0, indice[1][0]] = indice[0][0]
                BB[indice[0][0], :] = 0
                BB[:, indice[1][0]] = 0
            else:
                order[0, indice[1]] = indice[0]
                BB[indice[0], :] = 0
                BB[:, indice[1]] = 0
    W_est_new0 = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    W_est_new = np.zeros([self._no_of_latent_1domain, self._no_of_latent_1domain])
    for i in range(self._no_of_latent_1domain):
        indice = np.where(order == i)
        W_est_new0[[i], :] = W[indice[1], :]
    for i in range(self._no_of_latent_1domain):
        indice = np.where(order == i)
        W_est_new[:, [i]] = W_est_new0[:, indice[1]]
    self._adjacency_matrix = W_est_new
    self._measurement_matrix = G_est
    return self._adjacency_matrix
