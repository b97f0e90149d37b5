"""Simulation and intervention."""
from lingam.direct_lingam import DirectLiNGAM
from lingam.ica_lingam import ICALiNGAM
from lingam.bottom_up_parce_lingam import BottomUpParceLiNGAM
from lingam.var_lingam import VARLiNGAM
import numpy as np
import pandas as pd
from sklearn.utils import check_array, check_random_state
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.base import clone, is_regressor, is_classifier
from sklearn.pipeline import Pipeline
from sklearn.model_selection._search import BaseSearchCV
from lingam.causal_based_simulator import CBSILiNGAM, CBSIUnobsCommonCauseLiNGAM, CBSITimeSeriesLiNGAM, _LinearRegression, _LogisticRegression
from sklearn.preprocessing import OneHotEncoder
from sklearn.compose import ColumnTransformer
from lingam.base import _BaseLiNGAM


def CausalBasedSimulator_dispatch_impl(self, cd_algo_name):
    if cd_algo_name is None:
        return CBSILiNGAM
    elif cd_algo_name == DirectLiNGAM.__name__:
        return CBSILiNGAM
    elif cd_algo_name == ICALiNGAM.__name__:
        return CBSILiNGAM
    elif cd_algo_name == BottomUpParceLiNGAM.__name__:
        return CBSIUnobsCommonCauseLiNGAM
    elif cd_algo_name == VARLiNGAM.__name__:
        return CBSITimeSeriesLiNGAM
    else:
        raise ValueError('Unknown cd_algo_name')


def CausalBasedSimulator_check_model_instance(self, model, var_name, discrete_endog_names):
    if var_name not in discrete_endog_names:
        check_model_type = is_regressor
    else:
        check_model_type = is_classifier
    if isinstance(model, Pipeline):
        if not check_model_type(model.steps[-1][-1]):
            mes = 'The last step in Pipeline should be an '
            mes += 'instance of a regression/classification model.'
            raise RuntimeError(mes)
    elif isinstance(model, BaseSearchCV):
        if not check_model_type(model.get_params()['estimator']):
            mes = 'The type of the estimator shall be an '
            mes += 'instance of a regression/classification model.'
            raise RuntimeError(mes)
    elif not check_model_type(model):
        mes = 'The type of the estimator shall be an '
        mes += 'instance of a regression/classification model.'
        raise RuntimeError(mes)
    if check_model_type == is_classifier:
        try:
            func = getattr(model, 'predict_proba')
            if not callable(func):
                raise Exception
        except Exception:
            mes = 'Classification models shall have '
            mes += 'predict_proba().'
            raise RuntimeError(mes)


def CausalBasedSimulator_check_models(self, models, endog_names, discrete_endog_names):
    if models is None:
        return {}
    if not isinstance(models, dict):
        raise RuntimeError('models must be a dictionary.')
    for var_name, model in models.items():
        if var_name not in endog_names:
            raise RuntimeError(f'Unknown variable name ({var_name})')
        CausalBasedSimulator_check_model_instance(self, model, var_name, discrete_endog_names)
    return models


def CausalBasedSimulator_train(self, models, causal_graph, impl):
    train_result = {}
    for target_name in impl.endog_names_:
        y = impl.get_data(target_name)
        y = y.ravel()
        parent_names = impl.get_parent_names(target_name)
        if len(parent_names) == 0:
            train_result[target_name] = {'model': None, 'parent_names': [], 'predicted': None, 'residual': y}
            continue
        X = impl.get_data(parent_names)
        is_classifier = target_name in impl.discrete_endog_names_
        if target_name in models.keys():
            model = clone(models[target_name])
        elif is_classifier:
            model = LogisticRegression()
        else:
            model = LinearRegression()
        model.fit(X, y)
        predicted = model.predict(X)
        predicted = predicted.ravel()
        if not is_classifier:
            residual = (y - predicted).ravel()
        else:
            residual = None
        train_result[target_name] = {'model': model, 'parent_names': parent_names, 'predicted': predicted, 'residual': residual}
    return train_result


@defines('C17', 'CausalBasedSimulator.train', observe=['return', 'field:_train_result', 'call:.fit'], init=True)
def define_CausalBasedSimulator_train(self, X, causal_graph, cd_algo_name=None, models=None, is_discrete=None):
    """one model per variable, trained on its parents, with its residuals"""
    if cd_algo_name is None:
        cd_algo_name = 'DirectLiNGAM'
    if not isinstance(cd_algo_name, str):
        raise TypeError('cd_algo_name must be str or None.')
    impl_constructor = CausalBasedSimulator_dispatch_impl(self, cd_algo_name)
    impl = impl_constructor(X, causal_graph, is_discrete=is_discrete)
    train_models = CausalBasedSimulator_check_models(self, models, impl.endog_names_, impl.discrete_endog_names_)
    train_result = CausalBasedSimulator_train(self, train_models, causal_graph, impl)
    self._impl = impl
    self._train_result = train_result
    return self


def CausalBasedSimulator_check_changing_exog(self, changing_exog, n_samples, endog_names, discrete_endog_names):
    if changing_exog is None:
        return {}
    if not isinstance(changing_exog, dict):
        raise RuntimeError('changing_exog must be a dictionary.')
    changing_exog_ = {}
    for var_name, values in changing_exog.items():
        if var_name not in endog_names:
            raise RuntimeError(f'Unknown key in changing_exog. ({var_name})')
        if var_name in discrete_endog_names:
            raise RuntimeError(f'Discrete variables shall not be specified. ({var_name})')
        s = check_array(values, ensure_2d=False, dtype=None).ravel()
        if s.shape[0] != n_samples:
            raise RuntimeError(f'Wrong length. ({s.shape[0]} != {n_samples})')
        changing_exog_[var_name] = values
    return changing_exog_


def CausalBasedSimulator_check_changing_models(self, changing_models, endog_names, discrete_endog_names):
    if changing_models is None:
        return {}
    if not isinstance(changing_models, dict):
        raise RuntimeError('changing_models shall be list.')
    changing_models_ = {}
    for target_name, model_info in changing_models.items():
        if not isinstance(model_info, dict):
            raise RuntimeError('changing_models shall be list of dictionaries.')
        if not isinstance(target_name, str):
            raise TypeError('Key of changing_models must be str.')
        if target_name not in endog_names:
            raise RuntimeError(f'Unknown name. ({target_name})')
        if 'parent_names' not in model_info.keys():
            raise KeyError('model_info must have parent_names key.')
        parent_names = model_info['parent_names']
        if not isinstance(parent_names, list):
            raise KeyError('parent_names must be list.')
        for parent_name in model_info['parent_names']:
            if parent_name not in endog_names:
                raise RuntimeError(f'Unknown name. ({parent_name})')
        if len(parent_names) == 0:
            changing_models_[target_name] = {'parent_names': []}
            continue
        if 'coef' not in model_info.keys() and 'model' not in model_info.keys():
            raise KeyError('Elements of changing_models must have coef or model key when parent_names is set.')
        if 'coef' in model_info.keys():
            coef = check_array(model_info['coef'], ensure_2d=False, ensure_min_samples=0)
            if len(coef) != len(parent_names):
                raise ValueError('len(coef) != len(parent_names)')
            if target_name not in discrete_endog_names:
                model = _LinearRegression(coef)
            else:
                model = _LogisticRegression(coef)
            changing_models_[target_name] = {'parent_names': parent_names, 'model': model}
            continue
        if 'model' not in model_info.keys() or model_info['model'] is None:
            raise KeyError("model must be set when coef isn't set.")
        model = model_info['model']
        CausalBasedSimulator_check_model_instance(self, model, target_name, discrete_endog_names)
        changing_models_[target_name] = {'parent_names': parent_names, 'model': model}
    return changing_models_


def CausalBasedSimulator_simulate(self, changing_exog, changing_models, impl, train_result, shuffle_residual, random_state):
    simulated = pd.DataFrame(index=np.arange(impl.exog_length_), columns=impl.endog_names_)
    if shuffle_residual:
        shuffle_index = random_state.choice(np.arange(impl.exog_length_), size=impl.exog_length_, replace=False)
    changing_edges = {}
    for target_name, info in changing_models.items():
        changing_edges[target_name] = info['parent_names']
    causal_order = self._impl.get_causal_order(changing_edges)
    for target_name in causal_order:
        is_classifier = target_name in impl.discrete_endog_names_
        parent_names = impl.get_parent_names(target_name)
        if target_name in changing_models.keys():
            parent_names_ = changing_models[target_name]['parent_names']
            if parent_names_ is not None:
                parent_names = parent_names_
        if target_name not in changing_exog.keys():
            error = train_result[target_name]['residual']
        else:
            error = changing_exog[target_name].ravel()
        if shuffle_residual and error is not None:
            error = error[shuffle_index]
        if len(parent_names) == 0:
            if not is_classifier:
                simulated[target_name] = error
            else:
                simulated[target_name] = impl.get_data(target_name)
            continue
        if target_name not in changing_models.keys():
            model = train_result[target_name]['model']
        else:
            model = changing_models[target_name]['model']
        predicted = model.predict(simulated[parent_names].values)
        predicted = predicted.ravel()
        if not is_classifier:
            predicted = predicted + error
        simulated[target_name] = predicted
    return simulated


@defines('C17', 'CausalBasedSimulator.run', observe=['return', 'call:.fit'])
def define_CausalBasedSimulator_run(self, changing_exog=None, changing_models=None, shuffle_residual=False, random_state=None):
    """variables generated in causal order with the changed parts replaced"""
    if self.train_result_ is None:
        raise RuntimeError('run() must be executed after train() is executed')
    random_state = check_random_state(random_state)
    changing_exog = CausalBasedSimulator_check_changing_exog(self, changing_exog, self._impl.exog_length_, self._impl.endog_names_, self._impl.discrete_endog_names_)
    changing_models = CausalBasedSimulator_check_changing_models(self, changing_models, self._impl.endog_names_, self._impl.discrete_endog_names_)
    simulated_data = CausalBasedSimulator_simulate(self, changing_exog, changing_models, self._impl, self.train_result_, shuffle_residual, random_state)
    return simulated_data


def CausalDataGenerator_is_sklearn_estimator(self, estimator, is_categorical):
    if is_categorical is True and is_regressor(estimator):
        raise TypeError('The Object variable is categorical but the estimator is a regressor.')
    elif is_categorical is False and is_classifier(estimator):
        raise TypeError('The Object variable is not categorical but the estimator is a classifier.')
    if is_categorical is True:
        try:
            func = getattr(estimator, 'predict_proba')
            if not callable(func):
                raise Exception
        except Exception:
            raise RuntimeError('Classification models shall have ' + 'predict_proba().')


def CausalDataGenerator_make_model(self, X, y, name, model=None):
    if model is not None:
        try:
            model.fit(X, y)
        except Exception as e:
            raise RuntimeError(f'{name}.fit(): {str(e)}')
    else:
        if y.dtypes == 'category':
            model = LogisticRegression()
        else:
            model = LinearRegression()
        categoricals = X.columns[X.dtypes == 'category']
        numerics = X.columns[X.dtypes != 'category']
        if len(categoricals) > 0:
            transformers = [('categorical', OneHotEncoder(sparse_output=False), categoricals), ('numeric', 'passthrough', numerics)]
            trans = ColumnTransformer(transformers=transformers)
            model = Pipeline([('transformer', trans), ('estimator', model)])
        model.fit(X, y)
    if y.dtype == 'category':
        resids = np.full(X.shape[0], np.nan)
    else:
        resids = y - model.predict(X)
    resids = pd.Series(resids, index=y.index, name=y.name)
    return (model, resids)


@defines('C17', 'CausalDataGenerator.fit', observe=['return'], init=True)
def define_CausalDataGenerator_fit(self, X, cause, effect, adjustments=None, model_cause=None, model_effect=None):
    """one model per endogenous variable"""
    if not isinstance(X, pd.DataFrame):
        raise TypeError('X shall be a pandas.DataFrame.')
    check_array(X, dtype=None, ensure_min_features=2)
    X = X.copy()
    if cause not in X.columns:
        raise ValueError("cause isn't exist in X.columns.")
    if effect not in X.columns:
        raise ValueError("effect isn't exist in X.columns.")
    if adjustments is None:
        adjustments = np.array([])
    else:
        adjustments = check_array(adjustments, ensure_2d=False, dtype=None, ensure_min_samples=0).reshape((-1,))
    if model_cause is not None:
        is_categorical = X[cause].dtype == 'category'
        CausalDataGenerator_is_sklearn_estimator(self, model_cause, is_categorical)
    if model_effect is not None:
        is_categorical = X[effect].dtype == 'category'
        CausalDataGenerator_is_sklearn_estimator(self, model_effect, is_categorical)
    if len(adjustments) == 0:
        model_cause, resid_cause = (None, X[cause])
    else:
        model_cause, resid_cause = CausalDataGenerator_make_model(self, pd.DataFrame(X[adjustments]), X[cause], 'model_cause', model=model_cause)
    model_effect, resid_effect = CausalDataGenerator_make_model(self, pd.DataFrame(X[[cause, *adjustments]]), X[effect], 'model_effect', model=model_effect)
    self._X = X
    self._cause = cause
    self._effect = effect
    self._adjustments = adjustments
    self.model_cause_ = model_cause
    self.model_effect_ = model_effect
    self.error_cause_ = resid_cause
    self.error_effect_ = resid_effect
    return self


@defines('C17', 'CausalDataGenerator.fit', observe=['field:model_cause_', 'field:model_effect_', 'field:error_cause_', 'field:error_effect_', 'field:_adjustments'], init=True)
def define_CausalDataGenerator_fit(self, X, cause, effect, adjustments=None, model_cause=None, model_effect=None):
    """fitted models and residuals"""
    if not isinstance(X, pd.DataFrame):
        raise TypeError('X shall be a pandas.DataFrame.')
    check_array(X, dtype=None, ensure_min_features=2)
    X = X.copy()
    if cause not in X.columns:
        raise ValueError("cause isn't exist in X.columns.")
    if effect not in X.columns:
        raise ValueError("effect isn't exist in X.columns.")
    if adjustments is None:
        adjustments = np.array([])
    else:
        adjustments = check_array(adjustments, ensure_2d=False, dtype=None, ensure_min_samples=0).reshape((-1,))
    if model_cause is not None:
        is_categorical = X[cause].dtype == 'category'
        CausalDataGenerator_is_sklearn_estimator(self, model_cause, is_categorical)
    if model_effect is not None:
        is_categorical = X[effect].dtype == 'category'
        CausalDataGenerator_is_sklearn_estimator(self, model_effect, is_categorical)
    if len(adjustments) == 0:
        model_cause, resid_cause = (None, X[cause])
    else:
        model_cause, resid_cause = CausalDataGenerator_make_model(self, pd.DataFrame(X[adjustments]), X[cause], 'model_cause', model=model_cause)
    model_effect, resid_effect = CausalDataGenerator_make_model(self, pd.DataFrame(X[[cause, *adjustments]]), X[effect], 'model_effect', model=model_effect)
    self._X = X
    self._cause = cause
    self._effect = effect
    self._adjustments = adjustments
    self.model_cause_ = model_cause
    self.model_effect_ = model_effect
    self.error_cause_ = resid_cause
    self.error_effect_ = resid_effect
    return self


def CausalDataGenerator_check_data_dict(self, data_dict, name):
    if data_dict is None:
        return {}
    if not isinstance(data_dict, dict):
        raise TypeError(f'{name} shall be a dictionary.')
    for name, values in data_dict.items():
        if not isinstance(name, str):
            raise TypeError(f'A key of {name} shall be str.')
        if name not in [self._cause, self._effect, *self._adjustments]:
            raise ValueError(f'Keys of {name} shall be cause or effect or a element of adjustments.')
        values = check_array(values, ensure_2d=False, dtype=None)
        if values.shape[0] != self._X.shape[0]:
            raise ValueError(f'shape[0] of {name} shall be the same as X.shape[0].')
    return data_dict


@defines('C17', 'CausalDataGenerator.generate')
def define_CausalDataGenerator_generate(self, interv_endog=None, interv_exog=None, cause_model=None, cause_model_args=None, effect_model=None, effect_model_args=None):
    """variables generated in causal order"""
    interv_endog = CausalDataGenerator_check_data_dict(self, interv_endog, 'interv_endog')
    interv_exog = CausalDataGenerator_check_data_dict(self, interv_exog, 'interv_exog')
    if cause_model is not None:
        if not callable(cause_model):
            raise TypeError('cause_model shall be callable.')
    if effect_model is not None:
        if not callable(effect_model):
            raise TypeError('effect_model shall be callable.')
    generated = self._X[[self._cause, self._effect, *self._adjustments]].copy()
    generated[self._cause] = self.error_cause_
    generated[self._effect] = self.error_effect_
    for name, interv_exog_ in interv_exog.items():
        generated[name] = interv_exog_
    if self._cause in interv_endog.keys():
        generated[self._cause] = interv_endog[self._cause]
    elif cause_model is not None:
        try:
            predicted = cause_model(generated[self._adjustments], generated[self._cause], cause_model_args)
        except Exception as e:
            raise RuntimeError('Exception: cause_model: ' + str(e))
        generated[self._cause] = predicted
        if self._X[self._cause].dtype == 'category':
            generated[self._cause] = pd.Categorical(generated[self._cause])
    elif self.model_cause_ is not None:
        if self._X[self._cause].dtype != 'category':
            predicted = self.model_cause_.predict(generated[self._adjustments])
            generated[self._cause] += np.array(predicted)
        else:
            proba = self.model_cause_.predict_proba(generated[self._adjustments])
            predicted = []
            for proba_ in proba:
                predicted.append(self._random_state.choice(self.model_cause_.classes_, p=proba_))
            generated[self._cause] = np.array(predicted)
            generated[self._cause] = pd.Categorical(generated[self._cause])
    if self._effect in interv_endog.keys():
        generated[self._effect] = interv_endog[self._effect]
    elif effect_model is not None:
        try:
            predicted = effect_model(generated[[self._cause, *self._adjustments]], generated[self._effect], effect_model_args)
        except Exception as e:
            raise RuntimeError('Exception: effect_model: ' + str(e))
        generated[self._effect] = predicted
        if self._X[self._effect].dtype == 'category':
            generated[self._effect] = pd.Categorical(generated[self._effect])
    elif self._X[self._effect].dtype != 'category':
        predicted = self.model_effect_.predict(generated[[self._cause, *self._adjustments]])
        generated[self._effect] += np.array(predicted)
    else:
        proba = self.model_effect_.predict_proba(generated[[self._cause, *self._adjustments]])
        predicted = []
        for proba_ in proba:
            predicted.append(self._random_state.choice(self.model_effect_.classes_, p=proba_))
        generated[self._effect] = np.array(predicted)
        generated[self._effect] = pd.Categorical(generated[self._effect])
    generated_values = generated.loc[self._X.index, self._X.columns]
    return generated_values


def CausalEffect_check_init_params(self):
    if self._B is not None:
        return
    if isinstance(self._causal_model, _BaseLiNGAM):
        self._B = self._causal_model.adjacency_matrix_
        self._causal_order = self._causal_model.causal_order_
        return
    elif type(self._causal_model) is np.ndarray or type(self._causal_model) is list:
        B = self._causal_model if type(self._causal_model) is np.ndarray else np.array(self._causal_model)
        if len(B.shape) != 2:
            raise ValueError("Specified 'causal_model' is not matrix")
        if B.shape[0] != B.shape[1]:
            raise ValueError("Specified 'causal_model' is not square matrix.")
        original_index = np.arange(B.shape[0])
        causal_order = []
        B_ = B
        for _ in range(B.shape[0]):
            zero_rows = np.where(np.sum(np.abs(B_), axis=1) < 1e-10)[0]
            if len(zero_rows) == 0:
                raise ValueError("Specified 'causal_model' is not lower triangular matrix.")
            causal_order.append(original_index[zero_rows[0]])
            original_index = np.delete(original_index, zero_rows[0], 0)
            mask = np.delete(np.arange(len(B_)), zero_rows[0], 0)
            B_ = B_[mask][:, mask]
        self._B = B
        self._causal_order = causal_order
        return
    else:
        raise ValueError("Specified 'causal_model' cannot be used.")


def CausalEffect_get_propagated_effects(self, En, intervention_index, intervention_value):
    effects = np.zeros(len(self._causal_order))
    for i in self._causal_order:
        if i == intervention_index:
            effects[i] = intervention_value
        else:
            effects[i] = np.dot(self._B[i, :], effects) + En[i]
    return effects


def CausalEffect_predict(self, X, pred_model):
    if hasattr(pred_model, 'predict_proba'):
        p0, p1 = pred_model.predict_proba(X.reshape(1, -1))[0]
        pred = p0 - p1
    elif hasattr(pred_model, 'predict'):
        pred = pred_model.predict(X.reshape(1, -1))[0]
    else:
        raise ValueError("'pred_model' has no prediction method.")
    return pred


@defines('C17', 'CausalEffect.estimate_effects_on_prediction')
def define_CausalEffect_estimate_effects_on_prediction(self, X, target_index, pred_model):
    """expected change of the prediction under interventions"""
    X = check_array(X)
    CausalEffect_check_init_params(self)
    vars_ = [i for i in range(X.shape[1]) if i != target_index]
    Ex = X.mean(axis=0)
    En = Ex - np.dot(self._B, Ex)
    effects = []
    for i in range(X.shape[1]):
        Ex_do = CausalEffect_get_propagated_effects(self, En, i, Ex[i])
        Ey_do = CausalEffect_predict(self, Ex_do[vars_], pred_model)
        Ex_do = CausalEffect_get_propagated_effects(self, En, i, Ex[i] + X[:, i].std())
        Ey1 = Ey_do - CausalEffect_predict(self, Ex_do[vars_], pred_model)
        Ex_do = CausalEffect_get_propagated_effects(self, En, i, Ex[i] - X[:, i].std())
        Ey2 = Ey_do - CausalEffect_predict(self, Ex_do[vars_], pred_model)
        effects.append([np.abs(Ey1), np.abs(Ey2)])
    return np.array(effects)


@defines('C17', 'CausalEffect.estimate_optimal_intervention')
def define_CausalEffect_estimate_optimal_intervention(self, X, target_index, pred_model, intervention_index, desired_output):
    """intervention giving the desired prediction"""
    X = check_array(X)
    CausalEffect_check_init_params(self)
    if not hasattr(pred_model, 'coef_') and (not hasattr(pred_model, 'intercept_')):
        raise ValueError("'pred_model' does not have regression coefficient attributes.")
    if hasattr(pred_model, 'predict_proba'):
        raise ValueError("'pred_model' is not linear regression model.")
    Ex = X.mean(axis=0)
    En = Ex - np.dot(self._B, Ex)
    s = [i for i in range(X.shape[1]) if i != intervention_index]
    root_vars = np.where(np.sum(np.abs(self._B), axis=1) == 0)[0].tolist()
    s = [i for i in s if i not in root_vars]
    alpha = np.zeros(self._B.shape[1])
    alpha[intervention_index] = 1
    Ex[intervention_index] = 0
    En[intervention_index] = 0
    while len(s) > 0:
        k = np.random.choice(s)
        parents = np.where(np.abs(self._B[k]) > 0)[0].tolist()
        if len(list(set(parents) & set(s))) == 0:
            a = 0
            u = 0
            for q in parents:
                a = a + self._B[k, q] * alpha[q]
                if q != intervention_index:
                    u = u + self._B[k, q] * Ex[q]
            Ex[k] = u + En[k]
            alpha[k] = a
            s.remove(k)
    coefs = np.insert(pred_model.coef_, target_index, 0)
    return (desired_output - np.dot(coefs, Ex) - pred_model.intercept_) / np.dot(coefs, alpha)
