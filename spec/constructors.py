"""Constructors: what they keep and what they refuse."""
import numpy as np
from sklearn.utils import check_array
from sklearn.utils import check_scalar
from sklearn.utils import check_random_state


@defines('C09', 'BottomUpParceLiNGAM.__init__', observe=['field:_random_state', 'field:_alpha', 'field:_causal_order', 'field:_adjacency_matrix', 'field:_reg', 'field:_Aknw', 'field:_independence', 'field:_ind_corr'], part_of=['BottomUpParceLiNGAM.fit'])
def define_BottomUpParceLiNGAM___init__(self, random_state=None, alpha=0.1, regressor=None, prior_knowledge=None, independence='hsic', ind_corr=0.5):
    """settings kept as given"""
    if regressor is not None:
        if not (hasattr(regressor, 'fit') and hasattr(regressor, 'predict')):
            raise ValueError("'regressor' has no fit or predict method.")
    if alpha < 0.0:
        raise ValueError('alpha must be an float greater than 0.')
    if independence not in ('hsic', 'fcorr'):
        raise ValueError("independence must be 'hsic' or 'fcorr'.")
    if ind_corr < 0.0:
        raise ValueError('ind_corr must be an float greater than 0.')
    self._random_state = random_state
    self._alpha = alpha
    self._causal_order = None
    self._adjacency_matrix = None
    self._reg = regressor
    self._Aknw = prior_knowledge
    self._independence = independence
    self._ind_corr = ind_corr
    if self._Aknw is not None:
        self._Aknw = check_array(self._Aknw)
        self._Aknw = np.where(self._Aknw < 0, np.nan, self._Aknw)


def CAMUV_make_pk_dict(self, prior_knowledge):
    if prior_knowledge is None:
        return None
    pk_dict = dict()
    for pair in prior_knowledge:
        if not pair[1] in pk_dict:
            pk_dict[pair[1]] = [pair[0]]
        else:
            pk_dict[pair[1]].append(pair[0])
    return pk_dict


@defines('C09', 'CAMUV.__init__', observe=['field:_num_explanatory_vals', 'field:_alpha', 'field:_independence', 'field:_ind_corr', 'field:_pk_dict'], part_of=['CAMUV.fit'])
def define_CAMUV___init__(self, alpha=0.01, num_explanatory_vals=2, independence='hsic', ind_corr=0.5, prior_knowledge=None):
    """settings kept as given"""
    if num_explanatory_vals <= 0:
        raise ValueError('num_explanatory_vals must be > 0.')
    if alpha < 0:
        raise ValueError('alpha must be >= 0.')
    if independence not in ('hsic', 'fcorr'):
        raise ValueError("independence must be 'hsic' or 'fcorr'.")
    if ind_corr < 0.0:
        raise ValueError('ind_corr must be an float greater than 0.')
    self._num_explanatory_vals = num_explanatory_vals
    self._alpha = alpha
    self._independence = independence
    self._ind_corr = ind_corr
    self._pk_dict = CAMUV_make_pk_dict(self, prior_knowledge)


def DirectLiNGAM_BaseLiNGAM_init(self, random_state=None):
    self._random_state = random_state
    self._causal_order = None
    self._adjacency_matrix = None


@defines('C09', 'DirectLiNGAM.__init__', observe=['field:_Aknw', 'field:_apply_prior_knowledge_softly', 'field:_measure', 'field:_random_state', 'field:_causal_order', 'field:_adjacency_matrix'], part_of=['DirectLiNGAM.fit'])
def define_DirectLiNGAM___init__(self, random_state=None, prior_knowledge=None, apply_prior_knowledge_softly=False, measure='pwling'):
    """settings kept as given"""
    DirectLiNGAM_BaseLiNGAM_init(self, random_state)
    self._Aknw = prior_knowledge
    self._apply_prior_knowledge_softly = apply_prior_knowledge_softly
    self._measure = measure
    if self._Aknw is not None:
        self._Aknw = check_array(self._Aknw)
        self._Aknw = np.where(self._Aknw < 0, np.nan, self._Aknw)


def HighDimDirectLiNGAM_BaseLiNGAM_init(self, random_state=None):
    self._random_state = random_state
    self._causal_order = None
    self._adjacency_matrix = None


def HighDimDirectLiNGAM_DirectLiNGAM_init(self, random_state=None, prior_knowledge=None, apply_prior_knowledge_softly=False, measure='pwling'):
    HighDimDirectLiNGAM_BaseLiNGAM_init(self, random_state)
    self._Aknw = prior_knowledge
    self._apply_prior_knowledge_softly = apply_prior_knowledge_softly
    self._measure = measure
    if self._Aknw is not None:
        self._Aknw = check_array(self._Aknw)
        self._Aknw = np.where(self._Aknw < 0, np.nan, self._Aknw)


@defines('C09', 'HighDimDirectLiNGAM.__init__', observe=['field:_J', 'field:_K', 'field:_alpha', 'field:_estimate_adj_mat', 'field:_Aknw', 'field:_apply_prior_knowledge_softly', 'field:_measure', 'field:_random_state', 'field:_causal_order', 'field:_adjacency_matrix'], part_of=['HighDimDirectLiNGAM.fit'])
def define_HighDimDirectLiNGAM___init__(self, J=3, K=4, alpha=0.5, estimate_adj_mat=True, random_state=None):
    """settings kept as given"""
    HighDimDirectLiNGAM_DirectLiNGAM_init(self, random_state=random_state)
    self._J = check_scalar(J, 'J', int, min_val=2, include_boundaries='neither')
    self._K = check_scalar(K, 'K', int, min_val=1)
    self._alpha = check_scalar(alpha, 'alpha', (int, float), min_val=0, max_val=1)
    self._estimate_adj_mat = check_scalar(estimate_adj_mat, 'estimate_adj_mat', bool)


def ICALiNGAM_BaseLiNGAM_init(self, random_state=None):
    self._random_state = random_state
    self._causal_order = None
    self._adjacency_matrix = None


@defines('C09', 'ICALiNGAM.__init__', observe=['field:_max_iter', 'field:_random_state', 'field:_causal_order', 'field:_adjacency_matrix'], part_of=['ICALiNGAM.fit'])
def define_ICALiNGAM___init__(self, random_state=None, max_iter=1000):
    """settings kept as given"""
    ICALiNGAM_BaseLiNGAM_init(self, random_state)
    self._max_iter = max_iter


@defines('C09', 'LiM.__init__', observe=['field:_lambda1', 'field:_loss_type', 'field:_max_iter', 'field:_h_tol', 'field:_rho_max', 'field:_w_threshold', 'field:_adjacency_matrix'], part_of=['LiM.fit'])
def define_LiM___init__(self, lambda1=0.1, loss_type='mixed', max_iter=150, h_tol=1e-08, rho_max=1e+16, w_threshold=0.1):
    """settings kept as given"""
    self._lambda1 = lambda1
    self._loss_type = loss_type
    self._max_iter = max_iter
    self._h_tol = h_tol
    self._rho_max = rho_max
    self._w_threshold = w_threshold
    self._adjacency_matrix = None


@defines('C09', 'LiNA.__init__', observe=['field:_w_threshold', 'field:_lambda1', 'field:_lambda2', 'field:_loss_type', 'field:_max_iter', 'field:_h_tol', 'field:_rho_max', 'field:_adjacency_matrix', 'field:_measurement_matrix'], part_of=['LiNA.fit'])
def define_LiNA___init__(self, w_threshold=0.3, lambda1=0.1, lambda2=0.1, loss_type='laplace', max_iter=100, h_tol=1e-08, rho_max=1e+16):
    """settings kept as given"""
    self._w_threshold = w_threshold
    self._lambda1 = lambda1
    self._lambda2 = lambda2
    self._loss_type = loss_type
    self._max_iter = max_iter
    self._h_tol = h_tol
    self._rho_max = rho_max
    self._adjacency_matrix = None
    self._measurement_matrix = None


@defines('C09', 'MDLiNA.__init__', observe=['field:_w_threshold', 'field:_lambda1', 'field:_lambda2', 'field:_loss_type', 'field:_max_iter', 'field:_h_tol', 'field:_rho_max', 'field:_no_of_domain', 'field:_no_of_latent_1domain', 'field:_adjacency_matrix', 'field:_measurement_matrix'], part_of=['MDLiNA.fit'])
def define_MDLiNA___init__(self, w_threshold=0.3, lambda1=0.1, lambda2=0.1, loss_type='laplace', max_iter=100, h_tol=1e-08, rho_max=1e+16, no_of_domain=2, no_of_latent_1domain=3):
    """settings kept as given"""
    self._w_threshold = w_threshold
    self._lambda1 = lambda1
    self._lambda2 = lambda2
    self._loss_type = loss_type
    self._max_iter = max_iter
    self._h_tol = h_tol
    self._rho_max = rho_max
    self._no_of_domain = no_of_domain
    self._no_of_latent_1domain = no_of_latent_1domain
    self._adjacency_matrix = None
    self._measurement_matrix = None


@defines('C09', 'LongitudinalLiNGAM.__init__', observe=['field:_n_lags', 'field:_measure', 'field:_random_state', 'field:_causal_orders', 'field:_adjacency_matrices', 'field:_Aknw'], part_of=['LongitudinalLiNGAM.fit'])
def define_LongitudinalLiNGAM___init__(self, n_lags=1, prior_knowledge=None, measure='pwling', random_state=None):
    """settings kept as given"""
    self._n_lags = n_lags
    self._measure = measure
    self._random_state = random_state
    self._causal_orders = None
    self._adjacency_matrices = None
    if prior_knowledge is not None:
        prior_knowledge = check_array(prior_knowledge, ensure_2d=False, allow_nd=True)
        if len(prior_knowledge.shape) != 4:
            raise ValueError('prior_knowledge must be 4D.')
    self._Aknw = prior_knowledge


def MultiGroupCAMUV_make_pk_dict(self, prior_knowledge):
    if prior_knowledge is None:
        return None
    pk_dict = dict()
    for pair in prior_knowledge:
        if not pair[1] in pk_dict:
            pk_dict[pair[1]] = [pair[0]]
        else:
            pk_dict[pair[1]].append(pair[0])
    return pk_dict


@defines('C09', 'MultiGroupCAMUV.__init__', observe=['field:_num_explanatory_vals', 'field:_alpha', 'field:_independence', 'field:_ind_corr', 'field:_pk_dict'], part_of=['MultiGroupCAMUV.fit'])
def define_MultiGroupCAMUV___init__(self, alpha=0.01, num_explanatory_vals=2, independence='hsic', ind_corr=0.5, prior_knowledge=None):
    """settings kept as given"""
    if num_explanatory_vals <= 0:
        raise ValueError('num_explanatory_vals must be > 0.')
    if alpha < 0:
        raise ValueError('alpha must be >= 0.')
    if independence not in ('hsic', 'fcorr'):
        raise ValueError("independence must be 'hsic' or 'fcorr'.")
    if ind_corr < 0.0:
        raise ValueError('ind_corr must be an float greater than 0.')
    self._num_explanatory_vals = num_explanatory_vals
    self._alpha = alpha
    self._independence = independence
    self._ind_corr = ind_corr
    self._pk_dict = MultiGroupCAMUV_make_pk_dict(self, prior_knowledge)


def MultiGroupDirectLiNGAM_BaseLiNGAM_init(self, random_state=None):
    self._random_state = random_state
    self._causal_order = None
    self._adjacency_matrix = None


def MultiGroupDirectLiNGAM_DirectLiNGAM_init(self, random_state=None, prior_knowledge=None, apply_prior_knowledge_softly=False, measure='pwling'):
    MultiGroupDirectLiNGAM_BaseLiNGAM_init(self, random_state)
    self._Aknw = prior_knowledge
    self._apply_prior_knowledge_softly = apply_prior_knowledge_softly
    self._measure = measure
    if self._Aknw is not None:
        self._Aknw = check_array(self._Aknw)
        self._Aknw = np.where(self._Aknw < 0, np.nan, self._Aknw)


@defines('C09', 'MultiGroupDirectLiNGAM.__init__', observe=['field:_Aknw', 'field:_apply_prior_knowledge_softly', 'field:_measure', 'field:_random_state', 'field:_causal_order', 'field:_adjacency_matrix'], part_of=['MultiGroupDirectLiNGAM.fit'])
def define_MultiGroupDirectLiNGAM___init__(self, random_state=None, prior_knowledge=None, apply_prior_knowledge_softly=False):
    """settings kept as given"""
    MultiGroupDirectLiNGAM_DirectLiNGAM_init(self, random_state, prior_knowledge, apply_prior_knowledge_softly)


@defines('C09', 'MultiGroupRCD.__init__', observe=['field:_max_explanatory_num', 'field:_cor_alpha', 'field:_ind_alpha', 'field:_shapiro_alpha', 'field:_MLHSICR', 'field:_bw_method', 'field:_ancestors_list', 'field:_adjacency_matrices', 'field:_independence', 'field:_ind_corr'], part_of=['MultiGroupRCD.fit'])
def define_MultiGroupRCD___init__(self, max_explanatory_num=2, cor_alpha=0.01, ind_alpha=0.01, shapiro_alpha=0.01, MLHSICR=True, bw_method='mdbs', independence='hsic', ind_corr=0.5):
    """settings kept as given"""
    if max_explanatory_num <= 0:
        raise ValueError('max_explanatory_num must be > 0.')
    if cor_alpha < 0:
        raise ValueError('cor_alpha must be >= 0.')
    if ind_alpha < 0:
        raise ValueError('ind_alpha must be >= 0.')
    if shapiro_alpha < 0:
        raise ValueError('shapiro_alpha must be >= 0.')
    if bw_method not in ('mdbs', 'scott', 'silverman'):
        raise ValueError("bw_method must be 'mdbs', 'scott' or 'silverman'.")
    if independence not in ('hsic', 'fcorr'):
        raise ValueError("independence must be 'hsic' or 'fcorr'.")
    if ind_corr < 0.0:
        raise ValueError('ind_corr must be an float greater than 0.')
    self._max_explanatory_num = max_explanatory_num
    self._cor_alpha = cor_alpha
    self._ind_alpha = ind_alpha
    self._shapiro_alpha = shapiro_alpha
    self._MLHSICR = MLHSICR
    self._bw_method = bw_method
    self._ancestors_list = None
    self._adjacency_matrices = None
    self._independence = independence
    self._ind_corr = ind_corr


@defines('C09', 'RCD.__init__', observe=['field:_max_explanatory_num', 'field:_cor_alpha', 'field:_ind_alpha', 'field:_shapiro_alpha', 'field:_MLHSICR', 'field:_bw_method', 'field:_ancestors_list', 'field:_adjacency_matrix', 'field:_independence', 'field:_ind_corr'], part_of=['RCD.fit'])
def define_RCD___init__(self, max_explanatory_num=2, cor_alpha=0.01, ind_alpha=0.01, shapiro_alpha=0.01, MLHSICR=False, bw_method='mdbs', independence='hsic', ind_corr=0.5):
    """settings kept as given"""
    if max_explanatory_num <= 0:
        raise ValueError('max_explanatory_num must be > 0.')
    if cor_alpha < 0:
        raise ValueError('cor_alpha must be >= 0.')
    if ind_alpha < 0:
        raise ValueError('ind_alpha must be >= 0.')
    if shapiro_alpha < 0:
        raise ValueError('shapiro_alpha must be >= 0.')
    if bw_method not in ('mdbs', 'scott', 'silverman'):
        raise ValueError("bw_method must be 'mdbs', 'scott' or 'silverman'.")
    if independence not in ('hsic', 'fcorr'):
        raise ValueError("independence must be 'hsic' or 'fcorr'.")
    if ind_corr < 0.0:
        raise ValueError('ind_corr must be an float greater than 0.')
    self._max_explanatory_num = max_explanatory_num
    self._cor_alpha = cor_alpha
    self._ind_alpha = ind_alpha
    self._shapiro_alpha = shapiro_alpha
    self._MLHSICR = MLHSICR
    self._bw_method = bw_method
    self._ancestors_list = None
    self._adjacency_matrix = None
    self._independence = independence
    self._ind_corr = ind_corr


def RESIT_BaseLiNGAM_init(self, random_state=None):
    self._random_state = random_state
    self._causal_order = None
    self._adjacency_matrix = None


@defines('C09', 'RESIT.__init__', observe=['field:_alpha', 'field:_reg', 'field:_random_state', 'field:_causal_order', 'field:_adjacency_matrix'], part_of=['RESIT.fit'])
def define_RESIT___init__(self, regressor, random_state=None, alpha=0.01):
    """settings kept as given"""
    if regressor is None:
        raise ValueError("Specify regression model in 'regressor'.")
    elif not (hasattr(regressor, 'fit') and hasattr(regressor, 'predict')):
        raise ValueError("'regressor' has no fit or predict method.")
    if alpha < 0.0:
        raise ValueError('alpha must be an float greater than 0.')
    RESIT_BaseLiNGAM_init(self, random_state)
    self._alpha = alpha
    self._reg = regressor


@defines('C09', 'VARLiNGAM.__init__', observe=['field:_lags', 'field:_criterion', 'field:_prune', 'field:_ar_coefs', 'field:_lingam_model', 'field:_random_state'], part_of=['VARLiNGAM.fit'])
def define_VARLiNGAM___init__(self, lags=1, criterion='bic', prune=True, ar_coefs=None, lingam_model=None, random_state=None):
    """settings kept as given"""
    self._lags = lags
    self._criterion = criterion
    self._prune = prune
    self._ar_coefs = check_array(ar_coefs, allow_nd=True) if ar_coefs is not None else None
    self._lingam_model = lingam_model
    self._random_state = random_state


@defines('C09', 'VARMALiNGAM.__init__', observe=['field:_order', 'field:_criterion', 'field:_prune', 'field:_max_iter', 'field:_ar_coefs', 'field:_ma_coefs', 'field:_lingam_model', 'field:_random_state'], part_of=['VARMALiNGAM.fit'])
def define_VARMALiNGAM___init__(self, order=(1, 1), criterion='bic', prune=True, max_iter=100, ar_coefs=None, ma_coefs=None, lingam_model=None, random_state=None):
    """settings kept as given"""
    self._order = order
    self._criterion = criterion
    self._prune = prune
    self._max_iter = max_iter
    self._ar_coefs = check_array(ar_coefs, allow_nd=True) if ar_coefs is not None else None
    self._ma_coefs = check_array(ma_coefs, allow_nd=True) if ma_coefs is not None else None
    self._lingam_model = lingam_model
    self._random_state = random_state


@defines('C12', 'BootstrapResult.__init__', observe=['field:_adjacency_matrices', 'field:_total_effects', 'field:_resampled_indices'])
def define_BootstrapResult___init__(self, adjacency_matrices, total_effects, resampled_indices=None):
    """stored samples kept as given"""
    self._adjacency_matrices = adjacency_matrices
    self._total_effects = total_effects
    self._resampled_indices = resampled_indices


def VARBootstrapResult_BootstrapResult_init(self, adjacency_matrices, total_effects, resampled_indices=None):
    self._adjacency_matrices = adjacency_matrices
    self._total_effects = total_effects
    self._resampled_indices = resampled_indices


@defines('C12', 'VARBootstrapResult.__init__', observe=['field:_adjacency_matrices', 'field:_total_effects', 'field:_resampled_indices'])
def define_VARBootstrapResult___init__(self, adjacency_matrices, total_effects):
    """stored samples kept as given"""
    VARBootstrapResult_BootstrapResult_init(self, adjacency_matrices, total_effects)


def VARMABootstrapResult_BootstrapResult_init(self, adjacency_matrices, total_effects, resampled_indices=None):
    self._adjacency_matrices = adjacency_matrices
    self._total_effects = total_effects
    self._resampled_indices = resampled_indices


@defines('C12', 'VARMABootstrapResult.__init__', observe=['field:_order', 'field:_adjacency_matrices', 'field:_total_effects', 'field:_resampled_indices'])
def define_VARMABootstrapResult___init__(self, adjacency_matrices, total_effects, order):
    """stored samples kept as given"""
    self._order = order
    VARMABootstrapResult_BootstrapResult_init(self, adjacency_matrices, total_effects)


@defines('C12', 'LongitudinalBootstrapResult.__init__', observe=['field:_n_timepoints', 'field:_adjacency_matrices', 'field:_total_effects'])
def define_LongitudinalBootstrapResult___init__(self, n_timepoints, adjacency_matrices, total_effects):
    """stored samples kept as given"""
    self._n_timepoints = n_timepoints
    self._adjacency_matrices = adjacency_matrices
    self._total_effects = total_effects


@defines('C17', 'CausalEffect.__init__', observe=['field:_causal_model', 'field:_B', 'field:_causal_order'])
def define_CausalEffect___init__(self, causal_model):
    """settings kept as given"""
    self._causal_model = causal_model
    self._B = None
    self._causal_order = None


@defines('C22', 'OutOfSampleCausalTuning.__init__', observe=['field:cv', 'field:thr', 'field:sparsity_penalty', 'field:random_state'])
def define_OutOfSampleCausalTuning___init__(self, cv=10, sparsity_penalty=True, thr=0.05, random_state=None):
    """settings kept as given"""
    self.cv = cv
    self.thr = thr
    self.sparsity_penalty = sparsity_penalty
    self.random_state = random_state


@defines('C17', 'CausalDataGenerator.__init__', observe=['field:_random_state'])
def define_CausalDataGenerator___init__(self, random_state=None):
    """settings kept as given"""
    random_state = check_random_state(random_state)
    self._random_state = random_state
