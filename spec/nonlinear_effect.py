"""Nonlinear effect curves."""
import numpy as np
import pandas as pd


@defines('C23', 'utils._visualize_nonlinear_causal_effect:_calculate', observe=['return', 'call:.fit'])
def define_utils__visualize_nonlinear_causal_effect__calculate(effect_classes, adj_matrices, index_list, cause_index, effect_index, estimator, cause_positions, X, is_discrete):
    """curves of each model's predicted effect"""
    effect_info = {effect_class: {} for effect_class in effect_classes}
    for c in effect_info.keys():
        effect_info[c] = {p: [] for p in cause_positions}
    for m, sub_index in zip(adj_matrices, index_list):
        covariate = np.where(np.abs(m[cause_index, :]) > 0)[0].tolist()
        covariate = np.delete(covariate, np.argwhere(covariate == effect_index))
        exp = np.sort([cause_index] + covariate.tolist())
        exp = np.delete(exp, np.argwhere(exp == effect_index))
        X_exp = pd.get_dummies(X.iloc[sub_index, exp])
        X_obj = X.iloc[sub_index, effect_index]
        estimator.fit(X_exp, X_obj)
        for interv_val in cause_positions:
            X_ = X.iloc[sub_index, :].copy()
            X_.iloc[:, cause_index] = interv_val
            X_exp2 = pd.get_dummies(X_.iloc[:, exp])
            if not is_discrete:
                effect_values = estimator.predict(X_exp2)
                v = np.mean(effect_values)
                effect_info[None][interv_val].append(v)
            else:
                effect_values = estimator.predict_proba(X_exp2)
                for i, c in enumerate(estimator.classes_):
                    v = np.mean(effect_values[:, i])
                    effect_info[c][interv_val].append(v)
    return effect_info
