"""
The trainer node: fits small native models, converts them with the code under test and
records the native answers that serve as the reference model.

An *entry* (one service) is built from ``spec = {"kind": str, "seed": int}`` alone:

  pool      records any client may send (JSON values)
  bad       records / requests a server is expected to reject (or not - only C05/C12 use them)
  methods   public methods of the service
  forms     how a batch of records is handed over: "list", "sparse", ("one": a single string)
  versions  for each training step: pickled converted model + native answer per method/record

Everything is a pure function of the spec and of the code under test.
"""
import math
import os
import pickle
import random
import string
import warnings

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_k, "1")

import numpy as np  # noqa: E402

import core  # noqa: E402
import zookinds  # noqa: E402

warnings.simplefilter("ignore")


def _compat():
    """scikit-learn 0.23 fails to *report* an unconverged lbfgs fit under this scipy; drop the report"""
    import sklearn.linear_model._logistic as L
    L._check_optimize_result = lambda solver, result, max_iter=None, extra_warning_msg=None: result.nit


_compat()

EXTREME = False
LABELS = ["int0", "int_gap", "str", "neg", "bool"]


# ---------------------------------------------------------------- data
def _labels(rng, k):
    style = rng.choice(LABELS)
    if style == "int0":
        return list(range(k))
    if style == "int_gap":
        return sorted(rng.sample(range(2, 40), k))
    if style == "neg":
        return sorted(rng.sample(range(-9, 9), k))
    if style == "bool" and k == 2:
        return [False, True]
    return sorted("".join(rng.choice(string.ascii_lowercase) for _ in range(3)) + str(i) for i in range(k))


def _grid(rng, lo=-4, hi=4, q=16):
    """float32-exact value"""
    return rng.randint(lo * q, hi * q) / float(q)


class Num:
    """Numeric classification data with float32-exact values."""

    def __init__(self, rng, n=None, d=None, k=None, nonneg=False, zeros=None, labels=None, ints=None, fine=False):
        self.fine = fine  # values that differ in their last single-precision bits: splits fall between them
        self.d = d or rng.choice([1, 2, 3, 4, 5, 6, 9, 11, 12, 14])
        self.k = k or rng.choice([2, 2, 2, 3, 3, 4])
        self.n = n or rng.randint(14 + 5 * self.k, 48)
        self.nonneg = nonneg
        self.zeros = rng.choice([0.0, 0.0, 0.3, 0.6]) if zeros is None else zeros
        self.ints = rng.random() < 0.25 if ints is None else ints
        self.labels = labels or _labels(rng, self.k)
        self.w = [[rng.uniform(-1, 1) for _ in range(self.d)] for _ in range(self.k)]

    def row(self, rng, far=False):
        out = []
        for _ in range(self.d):
            if rng.random() < self.zeros:
                out.append(0.0)
                continue
            lo, hi = (0, 6) if self.nonneg else (-4, 4)
            if far:
                lo, hi = lo * 30, hi * 30
            v = float(rng.randint(lo, hi)) if self.ints else _grid(rng, lo, hi)
            if self.fine:
                v = float(np.float32(v) * (np.float32(1) + np.float32(rng.randint(-4, 4) * 2.0 ** -23)))
            out.append(v)
        return out

    def sample(self, rng):
        X = [self.row(rng) for _ in range(self.n)]
        y = []
        for i, r in enumerate(X):
            s = [sum(a * b for a, b in zip(r, w)) + rng.gauss(0, 0.7) for w in self.w]
            y.append(s.index(max(s)))
        for c in range(self.k):  # every class present at least three times
            for j in range(3):
                y[(c * 3 + j) % self.n] = c
        return np.array(X, dtype=float), np.array([self.labels[c] for c in y])

    def pool(self, rng, n):
        out = [self.row(rng, far=(i % 7 == 6)) for i in range(n)]
        if EXTREME:  # where no native answer, computed in another order, is compared
            for i in range(5, n, 7):
                f = 2.0 ** rng.choice([7, 12, 20, 40, -30])
                out[i] = [v * f for v in out[i]]
        out[0] = [0.0] * self.d
        return out


from zoowords import WORDS  # noqa: E402


def sentence(rng, words=WORDS, n=None):
    n = rng.randint(0, 12) if n is None else n
    seps = [" ", " ", " ", "  ", ", ", "\t", ". "]
    return "".join(rng.choice(words) + rng.choice(seps) for _ in range(n))


def docs(rng, n, words=None):
    words = words or WORDS
    out = []
    for i in range(n):
        m = rng.randint(1, 14)
        s = sentence(rng, words, m)
        if rng.random() < 0.3:
            s += " zzz" + str(rng.randint(0, 99))
        out.append(s)
    return out


def doc_pool(rng, n):
    out = docs(rng, n)
    out[0] = ""
    if n > 1:
        out[1] = "unknownword otherunknown"
    if n > 2:
        out[2] = "good good good bad good the the"
    return out


def num_bad(rng, d):
    return [
        {"records": [[1.0] * (d + 1)], "form": "list"},
        {"records": [[1.0] * max(d - 1, 0)], "form": "list"},
        {"records": [["x"] * d], "form": "list"},
        {"records": [[None] * d], "form": "list"},
        {"records": [[0.5] * d, None], "form": "list"},
        {"records": [[0.5] * d, ["q"] * d], "form": "list"},
        {"records": [[0.5] * d, []], "form": "list"},
        {"records": [], "form": "list"},
        {"records": [[1.0] * d], "form": "tuple"},
        {"records": [[1.0] * (d + 2)], "form": "sparse"},
        {"records": [[1.0] * d, [1.0] * d, [2.0] * d], "form": "generator"},
    ]


def doc_bad(rng):
    return [
        {"records": ["ok good", None], "form": "list"},
        {"records": ["ok good", 3], "form": "list"},
        {"records": [float("nan")], "form": "list"},
        {"records": ["good", ["x"]], "form": "list"},
        {"records": "just a string", "form": "raw"},
        {"records": [], "form": "list"},
    ]


# ---------------------------------------------------------------- builders
class Built:
    def __init__(self, est, train, pool, methods, forms=("list",), bad=(), tol="f64", nversions=1, d=None,
                 native_in="array", convert=None, kw=None, family="num", margin=True, configs=()):
        self.est, self.train, self.pool, self.methods, self.forms = est, train, pool, list(methods), list(forms)
        self.bad, self.tol, self.nversions, self.d = list(bad), tol, nversions, d
        self.native_in, self.convert, self.kw, self.family, self.margin = native_in, convert, kw or {}, family, margin
        self.configs = list(configs)  # mutable objects handed to the estimator (C10 edits them)


CLF = ["predict", "predict_proba", "predict_log_proba", "decision_function"]
TRF = ["transform"]
POOL = 14


def _npnum(rng, v):
    """hyper-parameters often arrive as numpy scalars (grid searches over np.linspace etc.)"""
    if rng.random() < 0.5:
        return v
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        return np.float64(v)
    if isinstance(v, int):
        return v
    if isinstance(v, str):
        return np.str_(v)
    return v


def _clf(rng, est, data, partial=None, forms=("list",), methods=CLF, tol="f64", nv=None, sw=False, bad=True):
    nv = nv or rng.choice([1, 2, 2, 3])
    sets = [data.sample(rng) for _ in range(nv)]
    partial = partial and rng.random() < 0.6

    def train(v):
        X, y = sets[v]
        if partial:
            est.partial_fit(X, y, classes=np.array(data.labels))
        else:
            est.fit(X, y)

    return Built(est, train, data.pool(rng, POOL), methods, forms, num_bad(rng, data.d) if bad else (), tol, nv, data.d)


def b_logreg(rng):
    from sklearn.linear_model import LogisticRegression as E
    solver = rng.choice(["lbfgs", "liblinear", "lbfgs", "newton-cg", "saga"])
    mc = rng.choice(["ovr", "auto"] if solver == "liblinear" else ["ovr", "multinomial", "auto"])
    pen = "l1" if solver in ("liblinear", "saga") and rng.random() < 0.4 else "l2"
    est = E(solver=_npnum(rng, solver), multi_class=_npnum(rng, mc), penalty=pen, C=_npnum(rng, rng.choice([0.05, 1.0, 30.0])), max_iter=60,
            fit_intercept=rng.random() < 0.7, random_state=1)
    return _clf(rng, est, Num(rng), forms=("list", "sparse"))


def b_ridge(rng):
    from sklearn.linear_model import RidgeClassifier as E
    est = E(alpha=rng.choice([0.1, 1.0, 5.0]), fit_intercept=rng.random() < 0.7, random_state=1)
    return _clf(rng, est, Num(rng), forms=("list", "sparse"))


def b_sgd(rng):
    from sklearn.linear_model import SGDClassifier as E
    loss = rng.choice(["hinge", "log", "log", "squared_hinge", "perceptron", "huber", "modified_huber"])
    est = E(loss=_npnum(rng, loss), fit_intercept=rng.random() < 0.7, max_iter=30, tol=None, random_state=1,
            average=rng.choice([False, False, True, 5]), alpha=1e-3)
    m = ["predict", "decision_function"] + (["predict_proba", "predict_log_proba"] if loss == "log" else [])
    return _clf(rng, est, Num(rng), partial=True, forms=("list", "sparse"), methods=m)


def b_perceptron(rng):
    from sklearn.linear_model import Perceptron as E
    est = E(max_iter=30, tol=None, random_state=1, fit_intercept=rng.random() < 0.7)
    return _clf(rng, est, Num(rng), partial=True, forms=("list", "sparse"))


def b_pa(rng):
    from sklearn.linear_model import PassiveAggressiveClassifier as E
    est = E(max_iter=30, tol=None, random_state=1, fit_intercept=rng.random() < 0.7, C=rng.choice([0.01, 1.0]))
    return _clf(rng, est, Num(rng), partial=True, forms=("list", "sparse"))


def b_linsvc(rng):
    from sklearn.svm import LinearSVC as E
    est = E(random_state=1, max_iter=200, fit_intercept=rng.random() < 0.7, multi_class=rng.choice(["ovr", "ovr", "crammer_singer"]))
    return _clf(rng, est, Num(rng), forms=("list", "sparse"))


def _treekw(rng):
    return dict(max_depth=rng.choice([1, 2, 3, 5, None]), random_state=rng.randint(0, 99), min_samples_leaf=rng.choice([1, 1, 3]))


def _treenum(rng, **kw):
    if rng.random() < 0.3:
        return Num(rng, fine=True, ints=rng.random() < 0.7, **kw)
    return Num(rng, **kw)


def b_dtc(rng):
    from sklearn.tree import DecisionTreeClassifier, ExtraTreeClassifier
    E = rng.choice([DecisionTreeClassifier, DecisionTreeClassifier, ExtraTreeClassifier])
    est = E(class_weight=rng.choice([None, "balanced"]), criterion=rng.choice(["gini", "entropy"]), **_treekw(rng))
    return _clf(rng, est, _treenum(rng), forms=("list", "sparse"), methods=CLF[:3])


def b_dtr(rng):
    from sklearn.tree import DecisionTreeRegressor, ExtraTreeRegressor
    E = rng.choice([DecisionTreeRegressor, DecisionTreeRegressor, ExtraTreeRegressor])
    data = _treenum(rng, k=3)
    data.labels = [-1.5, 0.25, 7.0]
    est = E(**_treekw(rng))
    b = _clf(rng, est, data, forms=("list", "sparse"), methods=["predict"])
    b.margin = False
    return b


def b_forest(rng):
    from sklearn.ensemble import RandomForestClassifier, ExtraTreesClassifier
    E = rng.choice([RandomForestClassifier, ExtraTreesClassifier])
    est = E(n_estimators=rng.choice([1, 2, 4, 7]), n_jobs=1, **_treekw(rng))
    return _clf(rng, est, _treenum(rng), forms=("list", "sparse"), methods=CLF[:3])


def b_bagging(rng):
    from sklearn.ensemble import BaggingClassifier as E
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.linear_model import LogisticRegression
    from sklearn.naive_bayes import GaussianNB
    from sklearn.svm import LinearSVC
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import StandardScaler
    base = rng.choice([DecisionTreeClassifier(max_depth=3, random_state=1), LogisticRegression(max_iter=40), GaussianNB(), None,
                       LinearSVC(random_state=1, max_iter=50), DecisionTreeClassifier(max_depth=2, random_state=1),
                       Pipeline([("s", StandardScaler()), ("t", DecisionTreeClassifier(max_depth=2, random_state=1))]), "other", "other"])
    if base == "other":
        from sklearn.linear_model import SGDClassifier, Perceptron, RidgeClassifier
        from sklearn.ensemble import RandomForestClassifier, GradientBoostingClassifier
        from sklearn.dummy import DummyClassifier
        base = rng.choice([SGDClassifier(loss=rng.choice(["log", "hinge"]), max_iter=20, tol=None, random_state=1), Perceptron(max_iter=20, tol=None, random_state=1), RidgeClassifier(),
                           RandomForestClassifier(2, max_depth=2, random_state=1), GradientBoostingClassifier(n_estimators=2, max_depth=1, random_state=1), DummyClassifier(strategy="prior"),
                           E(DecisionTreeClassifier(max_depth=2, random_state=1), n_estimators=2, max_features=0.7, random_state=2)])
    data = Num(rng, d=rng.choice([3, 5, 8, 12]))
    est = E(base, n_estimators=rng.choice([1, 2, 5]), max_features=rng.choice([1.0, 0.6, 0.8]), max_samples=rng.choice([1.0, 0.8] if isinstance(base, GaussianNB) else [1.0, 0.8, 0.5]),
            bootstrap=rng.random() < 0.5, bootstrap_features=rng.random() < 0.3, random_state=rng.randint(0, 99))
    forms = ("list",) if type(base).__name__ in ("GaussianNB", "Pipeline", "GradientBoostingClassifier") else ("list", "sparse")
    return _clf(rng, est, data, methods=CLF[:3], forms=forms)


def b_gb(rng):
    from sklearn.ensemble import GradientBoostingClassifier as E
    loss = rng.choice(["deviance", "deviance", "exponential"])
    data = _treenum(rng, k=2 if loss == "exponential" else None)
    init = None
    if rng.random() < 0.25:
        from sklearn.naive_bayes import GaussianNB
        from sklearn.dummy import DummyClassifier
        # multi-class native models scramble rows when the init estimator answers in Fortran order
        from sklearn.tree import DecisionTreeClassifier
        from sklearn.linear_model import LogisticRegression
        init = rng.choice([DummyClassifier(strategy="prior"), GaussianNB(), DecisionTreeClassifier(max_depth=1, random_state=1), LogisticRegression(max_iter=30)]) if data.k == 2 else DummyClassifier(strategy="prior")
    est = E(loss=loss, learning_rate=_npnum(rng, rng.choice([0.1, 0.3, 1.0])), n_estimators=rng.choice([1, 3, 8]),
            max_depth=rng.choice([1, 2, 3]), subsample=rng.choice([1.0, 0.8]), init=init, random_state=rng.randint(0, 99))
    return _clf(rng, est, data, methods=CLF[:3])


def b_xgb(rng):
    from xgboost import XGBClassifier as E
    data = _treenum(rng)
    data.labels = list(range(data.k))
    kw = {}
    if rng.random() < 0.3:
        kw["base_score"] = rng.choice([0.25, 0.7])
    if rng.random() < 0.3:
        kw["learning_rate"] = _npnum(rng, rng.choice([0.1, 1.0]))
    if rng.random() < 0.3:
        kw["gamma"] = rng.choice([0.1, 0.6])
    if rng.random() < 0.2:
        kw["num_parallel_tree"], kw["subsample"] = rng.choice([2, 3]), 0.7
    if rng.random() < 0.15:
        kw.update(rng.choice([{"tree_method": "hist"}, {"scale_pos_weight": 3}, {"colsample_bynode": 0.5}, {"grow_policy": "lossguide", "tree_method": "hist", "max_leaves": 3}]))
    mv = rng.choice([None, float("nan"), float("nan"), -9.5, 0.0])
    if mv is not None:
        kw["missing"] = mv
    early = rng.random() < 0.2
    if rng.random() < 0.7:
        kw["booster"] = "gbtree"
    est = E(n_estimators=rng.choice([6, 9]) if early else rng.choice([1, 3, 6]), max_depth=rng.choice([1, 2, 4]), random_state=5,
            n_jobs=1, min_child_weight=rng.choice([0, 1]), verbosity=0, **kw)
    names = ["c%d" % ((i * 7) % 23) for i in range(data.d)] if rng.random() < 0.3 else None
    nv = rng.choice([1, 2, 2])
    sets = []
    for _ in range(nv):
        X, y = data.sample(rng)
        if mv is not None:
            X = np.array(_nanify(rng, X.tolist(), 0.12, mv))
        sets.append((X, y))

    def train(v):
        X, y = sets[v]
        if names:
            import pandas as pd
            X = pd.DataFrame(X, columns=names)
        if early:
            est.set_params(early_stopping_rounds=2)
            est.fit(X, y, eval_set=[(X[: data.n // 2], np.roll(y[: data.n // 2], 1))], verbose=False)
        else:
            est.fit(X, y)

    pool = data.pool(rng, POOL)
    if mv is not None:
        pool = _nanify(rng, pool, 0.2, mv)
    b = Built(est, train, pool, ["predict", "predict_proba"], ("list",), num_bad(rng, data.d), "f32", nv, data.d)
    if names:
        b.native_in, b.names = "frame", names
    return b


def b_gnb(rng):
    from sklearn.naive_bayes import GaussianNB as E
    est = E(var_smoothing=rng.choice([1e-9, 1e-3]))
    return _clf(rng, est, Num(rng), partial=True, methods=CLF[:3])


def b_mnb(rng):
    from sklearn.naive_bayes import MultinomialNB as E
    est = E(alpha=rng.choice([0.1, 1.0]), fit_prior=rng.random() < 0.6)
    return _clf(rng, est, Num(rng, nonneg=True), partial=True, methods=CLF[:3])


def b_cnb(rng):
    from sklearn.naive_bayes import ComplementNB as E
    est = E(alpha=rng.choice([0.1, 1.0]), norm=rng.random() < 0.4)
    return _clf(rng, est, Num(rng, nonneg=True), partial=True, methods=CLF[:3])


def b_dummy(rng):
    from sklearn.dummy import DummyClassifier as E
    return _clf(rng, E(strategy=_npnum(rng, "prior")), Num(rng), methods=CLF[:3])


def _trf(rng, est, sets, pool, forms, bad, d, family="num", partial=False, y=False, inplace=False, **kw):
    def train(v):
        if inplace:
            est.set_params(copy=True)  # the native one would edit its training data
        if partial and v > 0:
            est.partial_fit(sets[v])
        else:
            est.fit(sets[v])
        if inplace:
            est.set_params(copy=False)

    return Built(est, train, pool, TRF, forms, bad, "f64", len(sets), d, family=family, **kw)


def _nanify(rng, X, p, mv):
    X = [list(r) for r in X]
    for r in X:
        for j in range(len(r)):
            if rng.random() < p:
                r[j] = mv
    return X


def b_imputer(rng):
    from sklearn.impute import SimpleImputer as E
    if rng.random() < 0.25:
        mv = rng.choice([float("nan"), "N/A"])
        cols = [["red", "green", "blue"][: rng.choice([2, 3])] for _ in range(rng.choice([1, 3]))]
        rows = [[rng.choice(c) if rng.random() < 0.8 else mv for c in cols] for _ in range(20 + POOL)]
        rows[0] = [c[0] for c in cols]
        strat = "constant"  # this scipy has no mode of strings
        est = E(missing_values=mv, strategy=_npnum(rng, strat), fill_value="none" if strat == "constant" else None)
        return _trf(rng, est, [np.array(rows[:20], dtype=object)], rows[20:], ("list",),
                    [{"records": [["red"] * (len(cols) + 1)], "form": "list"}], len(cols), family="cat", native_in="object")
    data = Num(rng, d=rng.choice([2, 3, 5, 8, 12]), zeros=0.1)
    mv = rng.choice([float("nan"), float("nan"), -999.0, 0.0, -7])
    strat = rng.choice(["mean", "median", "most_frequent", "constant"])
    nv = rng.choice([1, 2])
    allmiss = rng.random() < 0.25
    sets = []
    for _ in range(nv):
        X = _nanify(rng, data.sample(rng)[0].tolist(), 0.2, mv)
        if allmiss:
            for r in X:
                r[0] = mv
        if rng.random() < 0.4:  # a column with nothing missing during fit
            for r in X:
                if r[-1] == mv or r[-1] != r[-1]:
                    r[-1] = 1.5
        sets.append(np.array(X))
    est = E(missing_values=mv, strategy=_npnum(rng, strat), add_indicator=rng.random() < 0.4,
            fill_value=rng.choice([None, 2.5]) if strat == "constant" else None)
    pool = _nanify(rng, data.pool(rng, POOL), 0.3, mv)
    return _trf(rng, est, sets, pool, ("list",), num_bad(rng, data.d), data.d, inplace=rng.random() < 0.25)


def b_missing(rng):
    from sklearn.impute import MissingIndicator as E
    data = Num(rng, d=rng.choice([2, 3, 5, 8, 12]), zeros=0.1)
    mv = rng.choice([float("nan"), float("nan"), -999.0, -7])
    err = rng.random() < 0.5
    feats = rng.choice(["missing-only", "missing-only", "all"])
    miss_cols = [j for j in range(data.d) if rng.random() < 0.7] or [data.d - 1]
    sets = []
    for _ in range(rng.choice([1, 2])):
        X = data.sample(rng)[0].tolist()
        for r in X:
            for j in miss_cols:
                if rng.random() < 0.3:
                    r[j] = mv
        for j in miss_cols:
            X[0][j] = mv
        sets.append(np.array(X))
    est = E(missing_values=mv, features=_npnum(rng, feats), error_on_new=err)
    pool = data.pool(rng, POOL)
    for r in pool:
        for j in (miss_cols if (err and feats == "missing-only") else range(data.d)):
            if rng.random() < 0.5:
                r[j] = mv
    bad = num_bad(rng, data.d) + [{"records": [[mv] * data.d], "form": "list"}]
    return _trf(rng, est, sets, pool, ("list",), bad, data.d)


def b_scaler(rng):
    from sklearn.preprocessing import StandardScaler, MinMaxScaler, MaxAbsScaler, Normalizer
    which = rng.choice(["std", "std", "minmax", "maxabs", "norm", "norm"])
    data = Num(rng)
    sets = [data.sample(rng)[0] for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.3:
        for s in sets:
            s[:, 0] = rng.choice([0.0, 3.0])  # constant column
    forms, partial = ("list",), rng.random() < 0.5
    if which == "std":
        wm = rng.random() < 0.5
        est = StandardScaler(with_mean=wm, with_std=rng.random() < 0.7)
        forms = ("list",) if wm else ("list", "sparse")
    elif which == "minmax":
        fr = rng.choice([(0, 1), (-1.0, 1.0), (np.float64(0.25), np.float64(4.0)), (0.5, 2)])
        est = MinMaxScaler(feature_range=fr)
    elif which == "maxabs":
        est, forms = MaxAbsScaler(), ("list", "sparse")
    else:
        est, forms, partial = Normalizer(norm=_npnum(rng, rng.choice(["l1", "l2", "max"]))), ("list", "sparse"), False
    return _trf(rng, est, sets, data.pool(rng, POOL), forms, num_bad(rng, data.d), data.d, partial=partial, inplace=rng.random() < 0.25)


CATS = [["Male", "Female", "Other", "N/A"], [1, 2, 3, 27], ["a", "b", "c", "d", "e"], [10, 20], ["x", "y", "z"], [0, 1, 2, 5, 7]]


def _catdata(rng, uniform=None):
    cols = [rng.choice(CATS) for _ in range(rng.choice([1, 2, 3, 4]))]
    if uniform:
        cols = [c for c in cols if isinstance(c[0], uniform)] or [CATS[0] if uniform is str else CATS[1]]
    return cols


def _catrows(rng, cols, n):
    rows = [[rng.choice(c) for c in cols] for _ in range(n)]
    for j, c in enumerate(cols):
        for i, v in enumerate(c):
            rows[i % n][j] = v
    return rows


def b_encoder(rng):
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
    onehot = rng.random() < 0.65
    cols = _catdata(rng, uniform=rng.choice([None, int, str]))
    mixed = any(isinstance(c[0], str) for c in cols) and any(isinstance(c[0], int) for c in cols)
    if mixed:
        mk = lambda rows: np.array(rows, dtype=object)
    else:
        mk = np.array
    sets = []
    for _ in range(rng.choice([1, 2])):
        sub = [c if rng.random() < 0.6 else c[: max(2, len(c) - 1)] for c in cols]
        if not onehot:
            sub = cols
        sets.append(mk(_catrows(rng, sub, 12)))
    if onehot:
        hu = rng.choice(["ignore", "ignore", "error"])
        if hu == "error":
            sets = [mk(_catrows(rng, cols, 12)) for _ in sets]
        est = OneHotEncoder(handle_unknown=_npnum(rng, hu), sparse=rng.random() < 0.5, dtype=rng.choice([np.float64, np.float32, np.int64, float]))
    else:
        hu = "error"
        est = OrdinalEncoder(dtype=rng.choice([np.float64, np.int32, float]))
    pool = _catrows(rng, cols, POOL)
    if onehot and hu == "ignore":
        for i in (3, 7):
            j = rng.randrange(len(cols))
            pool[i][j] = "Bananas" if isinstance(cols[j][0], str) else 99
    unk = [("Bananas" if isinstance(c[0], str) else 99) for c in cols]
    bad = [{"records": [unk], "form": "list"}, {"records": [pool[0], unk], "form": "list"}, {"records": [pool[0] + ["q"]], "form": "list"},
           {"records": [pool[0], None], "form": "list"}, {"records": [[[1]] * len(cols)], "form": "list"}, {"records": [], "form": "list"}]
    return _trf(rng, est, sets, pool, ("list",), bad, len(cols), family="cat", native_in="object" if mixed else "array")


STOP = ["the", "and", "of", "is", "are"]


def _vec_kw(rng, for_hash=False):
    kw = {}
    an = rng.choice(["word", "word", "word", "char", "char_wb"])
    kw["analyzer"] = an
    if an == "word":
        kw["ngram_range"] = rng.choice([(1, 1), (1, 1), (1, 2), (2, 2), (1, 3)])
        if rng.random() < 0.35:
            stop = [w for w in STOP if rng.random() < 0.6] or STOP[:1]
            kw["stop_words"] = stop if rng.random() < 0.7 else [np.str_(s) for s in stop]
        if rng.random() < 0.3:
            kw["token_pattern"] = rng.choice([r"(?u)\b\w+\b", r"\S+", r"(?u)\b(\w)\w*\b"])
    else:
        kw["ngram_range"] = rng.choice([(1, 1), (1, 2), (2, 3), (3, 5)])
    if rng.random() < 0.4:
        kw["lowercase"] = False
    if rng.random() < 0.4:
        kw["strip_accents"] = rng.choice(["ascii", "unicode"])
    if rng.random() < 0.3:
        kw["binary"] = True
    return kw


def _vectorizer(rng, which=None, inp="content"):
    from sklearn.feature_extraction.text import CountVectorizer, TfidfVectorizer, HashingVectorizer
    which = which or rng.choice(["count", "tfidf", "hash"])
    kw = _vec_kw(rng)
    if which == "count":
        if rng.random() < 0.3:
            kw["max_features"] = rng.choice([3, 8])
        if rng.random() < 0.3:
            kw["dtype"] = rng.choice([np.int64, np.float64, float, np.float32])
        est = CountVectorizer(**kw)
    elif which == "tfidf":
        kw["norm"] = _npnum(rng, rng.choice(["l1", "l2", "l2", None]))
        kw["sublinear_tf"] = rng.random() < 0.25
        kw["smooth_idf"] = rng.random() < 0.7
        kw["use_idf"] = rng.random() < 0.85
        if not kw["smooth_idf"]:
            kw["smooth_idf"] = True if rng.random() < 0.5 else False
        est = TfidfVectorizer(**kw)
    else:
        kw["norm"] = _npnum(rng, rng.choice(["l1", "l2", "l2", None]))
        kw["n_features"] = rng.choice([2, 5, 7, 16, 64, 1000, 2 ** 10, 2 ** 20 if False else 4096])
        kw["alternate_sign"] = rng.random() < 0.6
        est = HashingVectorizer(**kw)
    return est, which


def b_vectorizer(rng):
    est, which = _vectorizer(rng)
    sets = [docs(rng, rng.randint(6, 14)) for _ in range(rng.choice([1, 2]))]
    for s in sets:
        s.append("good data model the price of apple")
    b = _trf(rng, est, sets, doc_pool(rng, POOL), ("list", "generator"), doc_bad(rng), None, family="docs", native_in="raw",
             configs=[est.stop_words] if isinstance(est.stop_words, list) else [])
    return b


def b_filevec(rng):
    """vectorizers that read their documents from files; e["versions"][0]["twin"] takes the same bytes in memory"""
    import copy
    from sklearn.pipeline import Pipeline
    from sklearn.linear_model import LogisticRegression
    est, which = _vectorizer(rng)
    if rng.random() < 0.6:
        est.set_params(analyzer="word")
    enc = rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16", "cp1252", "utf-8-sig", "ascii", "shift_jis"])
    est.set_params(encoding=enc, decode_error=rng.choice(["strict", "strict", "strict", "ignore", "replace"]))
    pre = ""
    methods = TRF
    if rng.random() < 0.25:
        est = Pipeline([("v", est), ("f", LogisticRegression(max_iter=30))])
        pre = "v__"
        methods = CLF[:2]
    mode = rng.choice(["filename", "filename", "file"])
    D = docs(rng, 12) + ["good data model the price of apple is as good as that of plum"]
    y = [i % 2 for i in range(len(D))]
    box = {}

    def train(v):
        est.set_params(**{pre + "input": "content"})
        est.fit(D, y)
        box["twin"] = copy.deepcopy(est)
        est.set_params(**{pre + "input": mode})

    b = Built(est, train, D, methods, ("list",), [], "f64", 1, None, family="files", native_in="raw")
    b.twin = lambda: box["twin"]
    b.extra = {"mode": mode, "encoding": enc, "errors": (est if not pre else est.named_steps["v"]).decode_error}
    return b


def b_tfidf_tr(rng):
    from sklearn.feature_extraction.text import TfidfTransformer as E
    d = rng.choice([2, 3, 5, 9, 12])

    def cnt(n):
        X = [[float(rng.choice([0, 0, 1, 2, 3])) for _ in range(d)] for _ in range(n)]
        X[0] = [1.0] * d
        return X

    import scipy.sparse as sp
    sets = [sp.csr_matrix(np.array(cnt(15))) for _ in range(rng.choice([1, 2]))]
    est = E(norm=_npnum(rng, rng.choice(["l1", "l2", None])), use_idf=rng.random() < 0.85, smooth_idf=True, sublinear_tf=rng.random() < 0.25)
    bad = [b for b in num_bad(rng, d)]
    return _trf(rng, est, sets, cnt(POOL), ("sparse", "list"), bad, d, native_in="csr")


def _dictrec(rng):
    keys = ["pizza", "tacos", "age", "city", "f", "h=1"]
    rec = {}
    for k in rng.sample(keys, rng.randint(0, 4)):
        if k == "city":
            rec[k] = rng.choice(["Rome", "Oslo", "Lima", "Paris"])
        else:
            rec[k] = rng.choice([1, 2, 3, 0.5, -1.25, True])
    return rec


def b_dictvec(rng):
    from sklearn.feature_extraction import DictVectorizer as E
    def data(n):
        X = [_dictrec(rng) for _ in range(n)]
        X.append({"pizza": 1, "city": "Rome"})
        if rng.random() < 0.4:
            X = [{np.str_(k): v for k, v in x.items()} for x in X]
        return X
    sets = [data(10) for _ in range(rng.choice([1, 2]))]
    est = E(sort=rng.random() < 0.7, sparse=rng.random() < 0.6, separator=_npnum(rng, rng.choice(["=", "_"])), dtype=rng.choice([np.float64, float, np.float32]))
    pool = [_dictrec(rng) for _ in range(POOL)]
    pool[1] = {"unseen": 4, "city": "Nowhere"}
    bad = [{"records": [{"pizza": "x"}, None], "form": "list"}, {"records": [{"pizza": None}], "form": "list"}, {"records": [["pizza"]], "form": "list"},
           {"records": [], "form": "list"}]
    return _trf(rng, est, sets, pool, ("list", "generator"), bad, None, family="dicts", native_in="raw")


def b_pipe_num(rng):
    from sklearn.pipeline import Pipeline, FeatureUnion
    from sklearn.impute import SimpleImputer, MissingIndicator
    from sklearn.preprocessing import StandardScaler, MinMaxScaler, MaxAbsScaler, Normalizer
    from sklearn.linear_model import LogisticRegression, SGDClassifier
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.naive_bayes import GaussianNB
    data = Num(rng, d=rng.choice([2, 3, 5, 8, 12]), zeros=0.1)
    nan = rng.random() < 0.5
    steps = []
    if nan:
        steps.append(("imp", SimpleImputer(strategy=rng.choice(["mean", "median"]), add_indicator=rng.random() < 0.3)))
    if rng.random() < 0.7:
        steps.append(("sc", rng.choice([StandardScaler(), MinMaxScaler(), MaxAbsScaler(), Normalizer()])))
    if rng.random() < 0.5:
        un = FeatureUnion([("a", StandardScaler()), ("b", MinMaxScaler())] + ([("c", Normalizer())] if rng.random() < 0.5 else []),
                          transformer_weights=rng.choice([None, {"a": 2.0}, {"a": 0.5, "b": np.float64(3.0)}]))
        steps.append(("un", un))
    final = rng.choice(["lr", "sgd", "dt", "rf", "gnb", "none", "nested"])
    if final == "lr":
        steps.append(("f", LogisticRegression(max_iter=40)))
    elif final == "sgd":
        steps.append(("f", SGDClassifier(loss="log", max_iter=20, tol=None, random_state=1)))
    elif final == "dt":
        steps.append(("f", DecisionTreeClassifier(max_depth=3, random_state=1)))
    elif final == "rf":
        steps.append(("f", RandomForestClassifier(n_estimators=3, max_depth=3, random_state=1)))
    elif final == "gnb":
        steps.append(("f", GaussianNB(var_smoothing=1e-3)))
    elif final == "nested":
        steps.append(("f", Pipeline([("n", MinMaxScaler()), ("g", LogisticRegression(max_iter=40))])))
    else:
        steps.append(("f", StandardScaler()))
    est = Pipeline(steps)
    nv = rng.choice([1, 2])
    sets = []
    for _ in range(nv):
        X, y = data.sample(rng)
        if nan:
            X = np.array(_nanify(rng, X.tolist(), 0.15, float("nan")))
            X[0] = 1.0
        sets.append((X, y))

    def train(v):
        est.fit(*sets[v])

    pool = data.pool(rng, POOL)
    if nan:
        pool = _nanify(rng, pool, 0.2, float("nan"))
    return Built(est, train, pool, TRF if final == "none" else CLF[:3], ("list",), num_bad(rng, data.d), "f64", nv, data.d)


def b_pipe_text(rng):
    from sklearn.pipeline import Pipeline, FeatureUnion
    from sklearn.feature_extraction.text import TfidfTransformer, CountVectorizer
    from sklearn.linear_model import LogisticRegression, SGDClassifier, RidgeClassifier
    from sklearn.svm import LinearSVC
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.preprocessing import MaxAbsScaler, StandardScaler, Normalizer
    steps = []
    r = rng.random()
    if r < 0.3:
        vs = [_vectorizer(rng)[0] for _ in range(rng.choice([2, 2, 3]))]
        steps.append(("u", FeatureUnion([("v%d" % i, v) for i, v in enumerate(vs)],
                                        transformer_weights=rng.choice([None, None, {"v0": 0.5}]))))
    elif r < 0.5:
        steps += [("c", CountVectorizer(**_vec_kw(rng))), ("t", TfidfTransformer(sublinear_tf=rng.random() < 0.2))]
    elif r < 0.65:
        steps += [("c", CountVectorizer(**_vec_kw(rng))),
                  ("u", FeatureUnion([("t1", TfidfTransformer()), ("t2", TfidfTransformer(norm="l1")), ("m", MaxAbsScaler())]))]
    else:
        steps.append(("v", _vectorizer(rng)[0]))
    if rng.random() < 0.4:
        steps.append(("s", rng.choice([MaxAbsScaler(), StandardScaler(with_mean=False), Normalizer()])))
    final = rng.choice(["lr", "sgd", "ridge", "svc", "dt", "rf", "none"])
    F = {"lr": LogisticRegression(max_iter=40), "sgd": SGDClassifier(loss="log", max_iter=20, tol=None, random_state=1), "ridge": RidgeClassifier(),
         "svc": LinearSVC(random_state=1, max_iter=100), "dt": DecisionTreeClassifier(max_depth=4, random_state=1),
         "rf": RandomForestClassifier(n_estimators=3, max_depth=4, random_state=1)}
    if final != "none":
        steps.append(("f", F[final]))
    est = Pipeline(steps)
    nv = rng.choice([1, 2])
    k = rng.choice([2, 3])
    labels = _labels(rng, k)
    sets = []
    for _ in range(nv):
        D = docs(rng, 18) + ["good data model the price of apple"]
        sets.append((D, np.array([labels[i % k] if i < 2 * k else rng.choice(labels) for i in range(len(D))])))

    def train(v):
        est.fit(*sets[v])

    m = {"none": TRF, "ridge": ["predict"], "svc": ["predict"]}.get(final, CLF[:3])
    return Built(est, train, doc_pool(rng, POOL), m, ("list",), doc_bad(rng), "f64", nv, None, family="docs", native_in="raw")


def b_pipe_cat(rng):
    from sklearn.pipeline import Pipeline, FeatureUnion
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.linear_model import LogisticRegression
    from sklearn.tree import DecisionTreeClassifier
    labels = _labels(rng, 2)
    if rng.random() < 0.6:
        cols = _catdata(rng, uniform=str)
        enc = OneHotEncoder(handle_unknown="ignore") if rng.random() < 0.7 else OrdinalEncoder()
        if rng.random() < 0.4:  # a union of sparse and dense blocks
            parts = [("o", OneHotEncoder(handle_unknown="ignore")), ("d", OrdinalEncoder())] + ([("e", OneHotEncoder(sparse=False, handle_unknown="ignore"))] if rng.random() < 0.5 else [])
            rng.shuffle(parts)
            enc = FeatureUnion(parts, transformer_weights=rng.choice([None, None, {"d": 0.5}, {"o": 2.0}]))
        X = _catrows(rng, cols, 20)
        pool, fam, nin = _catrows(rng, cols, POOL), "cat", "array"
        Xn = np.array(X)
        bad = [{"records": [["Bananas"] * len(cols)], "form": "list"}, {"records": [pool[0] + ["q"]], "form": "list"}]
    else:
        enc = DictVectorizer(sparse=rng.random() < 0.6)
        if rng.random() < 0.35:
            parts = [("a", DictVectorizer()), ("b", DictVectorizer(sparse=False, separator="_"))]
            rng.shuffle(parts)
            enc = FeatureUnion(parts, transformer_weights=rng.choice([None, {"a": 2.0}]))
        Xn = [_dictrec(rng) for _ in range(19)] + [{"pizza": 1, "city": "Rome"}]
        pool, fam, nin = [_dictrec(rng) for _ in range(POOL)], "dicts", "raw"
        bad = [{"records": [None], "form": "list"}]
    fin = rng.choice([LogisticRegression(max_iter=40), DecisionTreeClassifier(max_depth=4, random_state=1)])
    est = Pipeline([("e", enc), ("f", fin)])
    y = np.array([labels[i % 2] if i < 4 else rng.choice(labels) for i in range(len(Xn))])

    def train(v):
        est.fit(Xn, y)

    return Built(est, train, pool, CLF[:3], ("list",), bad, "f64", 1, None, family=fam, native_in=nin)


class _Func:
    """marker 'estimator' for the stateless public functions"""


def b_func(rng):
    data = Num(rng, d=rng.choice([2, 3, 5]))
    est = _Func()
    pool = data.pool(rng, POOL)
    return Built(est, lambda v: None, pool, ["cosine_similarity", "cosine_distances", "linear_kernel", "cosine_similarity_self",
                 "cosine_distances_self", "linear_kernel_self", "normalize_l1", "normalize_l2", "normalize_max", "normalize_l2_axis0"],
                 ("list", "sparse"), num_bad(rng, data.d), "f64", 3, data.d, convert=lambda e: None, family="func")


# ---------------------------------------------------------------- fasttext
FTW = ("this that text more is are model café naïve data good bad red green blue one two three über run fun "
       "price apple plum x1 42 don't").split()


def _ft_line(rng, n=None, extra=()):
    n = rng.randint(1, 9) if n is None else n
    return " ".join(rng.choice(FTW + list(extra)) for _ in range(n))


def ft_pool(rng, n):
    out = [_ft_line(rng, extra=["zzzunknown", "qqq"]) for _ in range(n)]
    out[0] = ""
    out[1] = "zzzunknown qqq"
    out[2] = "  this\ttext  is   good "
    out[3] = "data\u00a0good red\u3000blue \u2003 text"
    out[4] = "good good good bad\x0bthis\x0cdata\rmodel"
    out[5] = "this text __label__yes is data"
    return out


def ft_words(rng, kw, labels):
    """words to look up: in the dictionary or not, with the differences in spelling that do and do not count"""
    out = ["this", "text", "zzzunknown", "</s>", "café", "good", "red", "data", "", "42", "don't", "naïve", kw.get("label", "__label__") + rng.choice(labels)]
    w = rng.choice(FTW)
    return out + [" " + w, w + rng.choice([" ", "\t", "\n", "\r", "\u00a0"]), w.upper(), w.title(), w[:-1], "cafe\u0301", w + w, w + " " + rng.choice(FTW), rng.choice(FTW) + ".", "</S>", "__label__", "\ufeff" + w]


def _ft_train(rng, v, sup, path, kw, labels):
    import fasttext
    lines = []
    for i in range(40):
        l = _ft_line(rng, rng.randint(3, 9))
        if sup:
            l = kw.get("label", "__label__") + (labels[i % len(labels)] if i < 8 else rng.choice(labels)) + " " + l
        lines.append(l)
    with open(path, "w", encoding="utf8") as f:
        f.write("\n".join(lines) + "\n")
    if sup:
        return fasttext.train_supervised(path, **kw)
    return fasttext.train_unsupervised(path, **kw)


def b_fasttext(rng):
    import tempfile
    sup = rng.random() < 0.6
    labels = rng.choice([["yes", "no"], ["a", "b", "c"], ["p", "q", "r", "s", "t"]])
    kw = dict(dim=rng.choice([2, 5, 8]), epoch=rng.choice([3, 8]), minCount=rng.choice([1, 1, 3]), thread=1, verbose=0, lr=rng.choice([0.3, 0.8]))
    if not sup:
        kw.update(maxn=0, model=rng.choice(["skipgram", "cbow"]), neg=2)
    elif rng.random() < 0.2:
        kw["label"] = rng.choice(["__c__", "#"])
    nv = rng.choice([1, 2])
    tdir = tempfile.mkdtemp(prefix="ft")
    models = []
    for v in range(nv):
        models.append(_ft_train(rng, v, sup, os.path.join(tdir, "t.txt"), kw, labels))
    import shutil
    shutil.rmtree(tdir)
    est = [None]

    def train(v):
        est[0] = models[v]

    pool = ft_pool(rng, POOL)
    words = ft_words(rng, kw, labels)
    methods = (["predict"] if sup else []) + ["get_sentence_vector", "get_word_vector", "get_word_id"]
    b = Built(est, train, pool, methods, ("one", "list"), [], "ft", nv, None, family="ft", convert=None)
    b.words = words
    b.sup = sup
    # (k, threshold)
    b.kws = [[1, 0.0], [2, 0.0], [3, 0.3], [10, 0.0], [-1, 0.0], [1, 0.9], [2, 0.5]]
    return b


def b_ftodd(rng):
    """fasttext models outside (or at the edge of) what is supported: refused, or answering as the native model"""
    import tempfile
    import shutil
    sup = rng.random() < 0.6
    labels = rng.choice([["yes", "no"], ["a", "b", "c"], ["x"]])
    kw = dict(dim=rng.choice([2, 5]), epoch=3, minCount=1, thread=1, verbose=0, lr=0.5)
    if labels == ["x"]:  # negative sampling never ends with one label
        kw.update(rng.choice([{}, {"loss": "ova"}, {"loss": "softmax", "minCountLabel": 2}]) if sup else {"maxn": 2})
    elif sup:
        kw.update(rng.choice([{"wordNgrams": 2}, {"minn": 2, "maxn": 3}, {"loss": "hs"}, {"loss": "ns"}, {"loss": "ova"}, {"wordNgrams": 3, "bucket": 100},
                              {"minCountLabel": 9}, {"dim": 1}, {"bucket": 0}, {"minn": 0, "maxn": 3, "bucket": 50}]))
    else:
        kw.update(rng.choice([{"minn": 2, "maxn": 3}, {"maxn": 0, "loss": "hs"}, {"maxn": 0, "loss": "softmax"}, {"maxn": 6}, {"maxn": 0, "wordNgrams": 2},
                              {"maxn": 0, "minn": 3}, {"minn": 3, "maxn": 3, "bucket": 20}, {"maxn": 0, "loss": "ova"}]))
    kw.setdefault("bucket", 700)  # the default of two million rows makes artifacts of many megabytes
    tdir = tempfile.mkdtemp(prefix="ft")
    try:
        model = _ft_train(rng, 0, sup, os.path.join(tdir, "t.txt"), kw, labels)
    finally:
        shutil.rmtree(tdir)
    methods = (["predict"] if sup else []) + ["get_sentence_vector", "get_word_vector", "get_word_id"]
    b = Built([None], lambda v: b.est.__setitem__(0, model), ft_pool(rng, POOL), methods, ("one", "list"), [], "ft", 1, None, family="ft", convert=None)
    b.words = ft_words(rng, kw, labels)
    b.sup = sup
    b.kws = [[1, 0.0], [2, 0.0], [10, 0.0], [-1, 0.0], [1, 0.9]]
    b.extra = {"odd": " ".join("%s=%s" % (k, kw[k]) for k in sorted(kw) if k not in ("epoch", "bucket", "thread", "verbose", "lr", "minCount"))}
    return b


def _upper(s):
    return s.upper()


def _split(s):
    return s.split()


def b_odd(rng):
    """
    Configurations outside what is supported. Conversion or the call may refuse them; an answer that is given
    must be the native one all the same.
    """
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeRegressor, ExtraTreeClassifier
    from sklearn.ensemble import RandomForestClassifier, BaggingClassifier, GradientBoostingClassifier, ExtraTreesClassifier
    from sklearn.linear_model import LogisticRegression, SGDClassifier, Perceptron, RidgeClassifier, PassiveAggressiveClassifier
    from sklearn.naive_bayes import GaussianNB, MultinomialNB, ComplementNB
    from sklearn.dummy import DummyClassifier
    from sklearn.svm import LinearSVC
    from sklearn.pipeline import Pipeline, FeatureUnion
    from sklearn.preprocessing import StandardScaler, MinMaxScaler, MaxAbsScaler, Normalizer, OneHotEncoder, OrdinalEncoder
    from sklearn.impute import SimpleImputer, MissingIndicator
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.feature_extraction.text import CountVectorizer, TfidfVectorizer, HashingVectorizer
    group = rng.choice(["multi", "multi", "bag", "bag", "gb", "xgb", "xgb", "dummy", "text", "text", "pipe", "pipe", "enc", "imp", "lin", "scale", "dict"])
    data = Num(rng)
    extra = {"odd": group}

    def fin(b):
        b.extra = extra
        return b
    if group == "multi":
        est = rng.choice([DecisionTreeRegressor(max_depth=3, random_state=1), ExtraTreeRegressor(max_depth=3, random_state=1), DecisionTreeClassifier(max_depth=3, random_state=1),
                          ExtraTreeClassifier(random_state=1), RandomForestClassifier(3, random_state=1), ExtraTreesClassifier(2, random_state=1), DummyClassifier(strategy="prior")])
        X, y = data.sample(rng)
        k = rng.choice([2, 3])
        Y = np.array([[(i * (j + 1) + rng.randint(0, 1)) % 3 for j in range(k)] for i in range(len(X))])
        if rng.random() < 0.3:
            Y = np.minimum(Y, 1)
        return fin(Built(est, lambda v: est.fit(X, Y), data.pool(rng, POOL), ["predict"], ("list",), (), "f64", 1, data.d, margin=False))
    if group == "bag":
        base = rng.choice([SGDClassifier(loss=rng.choice(["log", "modified_huber", "modified_huber", "hinge", "squared_hinge"]), max_iter=20, tol=None, random_state=1), Perceptron(max_iter=20, tol=None),
                           RidgeClassifier(), GradientBoostingClassifier(n_estimators=2), RandomForestClassifier(2), DummyClassifier(strategy=rng.choice(["prior", "most_frequent", "uniform"])),
                           BaggingClassifier(n_estimators=2), PassiveAggressiveClassifier(max_iter=20, tol=None), LinearSVC(max_iter=50),
                           Pipeline([("s", "passthrough"), ("t", DecisionTreeClassifier(max_depth=2))]), Pipeline([("s", MinMaxScaler()), ("t", SGDClassifier(loss="modified_huber", max_iter=20, tol=None))])])
        est = BaggingClassifier(base, n_estimators=rng.choice([1, 3]), max_features=rng.choice([1.0, 0.7]), random_state=rng.randint(0, 99))
        return fin(_clf(rng, est, data, nv=1, bad=False))
    if group == "gb":
        if rng.random() < 0.7:
            data = Num(rng, k=2)
        init = rng.choice(["zero", DecisionTreeClassifier(max_depth=1, random_state=1), LogisticRegression(max_iter=30), SGDClassifier(loss="log", max_iter=20, tol=None, random_state=1)])
        if data.k > 2:
            init = rng.choice(["zero", None])
        est = GradientBoostingClassifier(n_estimators=3, max_depth=2, init=init, random_state=1, loss=rng.choice(["deviance", "exponential"]) if data.k == 2 else "deviance",
                                         learning_rate=rng.choice([0.1, 1.0, 30.0]))
        return fin(_clf(rng, est, data, nv=1, bad=False))
    if group == "xgb":
        from xgboost import XGBClassifier
        kw = rng.choice([dict(booster="dart", rate_drop=0.5), dict(booster="dart"), dict(booster="gblinear"), dict(objective="binary:logitraw"), dict(objective="binary:hinge"), dict(objective="reg:logistic"),
                         dict(objective="multi:softmax"), dict(num_parallel_tree=3, subsample=0.7), dict(num_parallel_tree=2, subsample=0.6), dict(tree_method="hist"), dict(max_delta_step=1),
                         dict(grow_policy="lossguide", tree_method="hist", max_leaves=4), dict(reg_alpha=5, gamma=3), dict(scale_pos_weight=3), dict(colsample_bynode=0.5)])
        data.labels = list(range(data.k))
        est = XGBClassifier(**{**dict(booster="gbtree", n_estimators=rng.choice([1, 4]), max_depth=rng.choice([1, 3]), verbosity=0, n_jobs=1, random_state=3), **kw})
        return fin(_clf(rng, est, data, nv=1, methods=CLF[:2], tol="f32", bad=False))
    if group == "dummy":
        s = rng.choice(["most_frequent", "constant", "prior", "stratified", "uniform"])
        est = DummyClassifier(strategy=s, constant=data.labels[-1] if s == "constant" else None, random_state=1)
        return fin(_clf(rng, est, data, nv=1, methods=CLF[:3], bad=False))
    if group == "lin":
        est = rng.choice([LogisticRegression(multi_class="multinomial", max_iter=40), LogisticRegression(class_weight="balanced", max_iter=40), LogisticRegression(penalty="none", max_iter=30),
                          LogisticRegression(penalty="elasticnet", l1_ratio=0.5, solver="saga", max_iter=40), RidgeClassifier(normalize=True), LinearSVC(intercept_scaling=5.0, max_iter=100, random_state=1),
                          LogisticRegression(solver="liblinear", intercept_scaling=7.0, C=1e6), SGDClassifier(loss="modified_huber", max_iter=20, tol=None, random_state=1),
                          SGDClassifier(early_stopping=True, random_state=1), Perceptron(penalty="l1", max_iter=20, tol=None), GaussianNB(priors=[1.0 / data.k] * data.k)])
        b = _clf(rng, est, data, nv=1, forms=("list", "sparse"), bad=False)
        if isinstance(est, GaussianNB):
            b.forms = ["list"]
        if hasattr(est, "sparsify") and rng.random() < 0.3:
            fit = b.train

            def train(v):
                fit(v)
                est.sparsify()
            b.train = train
            extra["odd"] = "sparsified"
        return fin(b)
    if group == "scale":
        import scipy.sparse as sp
        X, _ = data.sample(rng)
        est = rng.choice([StandardScaler(with_mean=False), StandardScaler(with_std=False), StandardScaler(with_mean=False, with_std=False), MinMaxScaler(feature_range=(-3, 5)), MaxAbsScaler(), Normalizer(norm="max")])
        S = sp.csr_matrix(X) if not isinstance(est, MinMaxScaler) and rng.random() < 0.5 and not getattr(est, "with_mean", False) else X.astype(rng.choice([np.float32, np.float64]))
        return fin(_trf(rng, est, [S], data.pool(rng, POOL), ("list",) if not sp.issparse(S) else ("sparse",), (), data.d, native_in="array" if not sp.issparse(S) else "csr"))
    if group == "imp":
        mv = float("nan")
        X = np.array(_nanify(rng, data.sample(rng)[0].tolist(), 0.2, mv))
        X[0] = mv
        X[1] = 1.0
        est = rng.choice([MissingIndicator(sparse=True, error_on_new=False), MissingIndicator(sparse="auto", features="all"), MissingIndicator(sparse=False, error_on_new=False),
                          SimpleImputer(strategy="most_frequent", add_indicator=True), SimpleImputer(strategy="constant", fill_value=-1, add_indicator=True), SimpleImputer(missing_values=0.0, strategy="mean")])
        nan = not (isinstance(est, SimpleImputer) and est.missing_values == 0.0)
        if not nan:
            X[X != X] = 0.0
        pool = data.pool(rng, POOL)
        return fin(_trf(rng, est, [X], _nanify(rng, pool, 0.3, mv) if nan else pool, ("list",), (), data.d))
    if group == "enc":
        cols = _catdata(rng, uniform=rng.choice([int, str]))
        X = np.array(_catrows(rng, cols, 14))
        cats = [sorted(set(c)) for c in cols]
        more = [c + (["zz"] if isinstance(c[0], str) else [77]) for c in cats]
        est = rng.choice([OneHotEncoder(drop="first"), OneHotEncoder(drop="if_binary"), OneHotEncoder(drop=[c[-1] for c in cats]), OneHotEncoder(categories=more), OneHotEncoder(categories=cats, sparse=False),
                          OrdinalEncoder(categories=more), OneHotEncoder(categories=more, drop="first"), OrdinalEncoder(categories=[c[::-1] for c in cats] if isinstance(cats[0][0], str) else [c + [99] for c in cats])])
        return fin(_trf(rng, est, [X], _catrows(rng, cols, POOL), ("list",), (), len(cols), family="cat"))
    if group == "dict":
        D = [_dictrec(rng) for _ in range(10)] + [{"pizza": 1, "city": "Rome"}]
        est = DictVectorizer(sort=rng.random() < 0.3, sparse=rng.random() < 0.5, separator=rng.choice(["=", "", "::"]), dtype=rng.choice([np.float64, np.float32, np.int32]))
        return fin(_trf(rng, est, [D], [_dictrec(rng) for _ in range(POOL)], ("list",), (), None, family="dicts", native_in="raw"))
    if group == "text":
        V = rng.choice([CountVectorizer, TfidfVectorizer, HashingVectorizer])
        kw = rng.choice([{"stop_words": "english"}, {"tokenizer": _split}, {"preprocessor": _upper}, {"analyzer": _split}, {"vocabulary": ["red", "good", "model"]}, {"vocabulary": {"good": 0, "data": 2, "model": 1}},
                         {"vocabulary": {"red", "good"}}, {"max_df": 0.5}, {"min_df": 3}, {"max_df": 3, "max_features": 5}, {"token_pattern": r"\b(\w\w)\w*\b"}, {"norm": "max"},
                         {"stop_words": frozenset(["good", "the"])}, {"stop_words": ["The", "GOOD"]}, {"lowercase": False, "stop_words": ["good"]}, {"dtype": np.float32},
                         {"strip_accents": _upper}, {"n_features": 3, "alternate_sign": False}, {"n_features": 2 ** 12, "norm": "l1"}, {"ngram_range": (1, 3), "analyzer": "word", "stop_words": ["the"]}, {"analyzer": "char_wb", "ngram_range": (6, 9)}])
        if V is HashingVectorizer:
            kw = {k: v for k, v in kw.items() if k not in ("vocabulary", "max_df", "min_df", "max_features")}
        else:
            kw = {k: v for k, v in kw.items() if k not in ("n_features", "alternate_sign") and (k != "norm" or V is TfidfVectorizer)}
        extra["odd"] = "text %s" % sorted(kw)
        if V is HashingVectorizer:
            kw.setdefault("n_features", 200)
        est = V(**kw)
        return fin(_trf(rng, est, [docs(rng, 12) + ["good data model red the price of apple"] * 2], doc_pool(rng, POOL), ("list",), (), None, family="docs", native_in="raw"))
    s, m, x = StandardScaler(), MinMaxScaler(), MaxAbsScaler()
    head = rng.choice([[("a", "passthrough")], [("a", None)], [("a", FeatureUnion([("s", s), ("d", "drop")]))], [("a", FeatureUnion([("s", s), ("d", None), ("m", m)]))],
                       [("a", FeatureUnion([("s", s), ("m", m)], transformer_weights={"m": 0.0})), ("x", x)], [("a", s), ("p", "passthrough"), ("x", x)],
                       [("a", FeatureUnion([("s", Pipeline([("q", s), ("r", m)])), ("m", x)], transformer_weights={"s": -2.0}))], [("a", FeatureUnion([("s", s)]))]])
    tail = rng.choice([[("f", LogisticRegression(max_iter=40))], [("f", "passthrough")], [("f", None)], [("f", LinearSVC(max_iter=100, random_state=1))], [("f", DecisionTreeClassifier(max_depth=3, random_state=1))], [("f", Normalizer())]])
    est = Pipeline(head + tail)
    return fin(_clf(rng, est, data, nv=1, methods=CLF + TRF, bad=False))


BUILDERS = {
    "logreg": (b_logreg, 4), "ridge": (b_ridge, 2), "sgd": (b_sgd, 4), "perceptron": (b_perceptron, 1), "pa": (b_pa, 1), "linsvc": (b_linsvc, 2),
    "dtc": (b_dtc, 4), "dtr": (b_dtr, 2), "forest": (b_forest, 4), "bagging": (b_bagging, 4), "gb": (b_gb, 5), "xgb": (b_xgb, 4),
    "gnb": (b_gnb, 2), "mnb": (b_mnb, 2), "cnb": (b_cnb, 1), "dummy": (b_dummy, 2),
    "imputer": (b_imputer, 4), "missing": (b_missing, 3), "scaler": (b_scaler, 6), "encoder": (b_encoder, 5),
    "vectorizer": (b_vectorizer, 9), "tfidf_tr": (b_tfidf_tr, 3), "dictvec": (b_dictvec, 3),
    "pipe_num": (b_pipe_num, 5), "pipe_text": (b_pipe_text, 6), "pipe_cat": (b_pipe_cat, 3), "func": (b_func, 3), "fasttext": (b_fasttext, 4),
    "filevec": (b_filevec, 0), "odd": (b_odd, 0), "ftodd": (b_ftodd, 0),
}


assert set(BUILDERS) == set(zookinds.WEIGHTS)


# ---------------------------------------------------------------- native answers
def native_input(b, records):
    if b.native_in == "raw":
        return list(records)
    if b.native_in == "object":
        return np.array(records, dtype=object)
    if b.native_in == "frame":
        import pandas as pd
        return pd.DataFrame(records, columns=b.names)
    if b.native_in == "csr":
        import scipy.sparse as sp
        return sp.csr_matrix(np.array(records, dtype=float))
    return np.array(records)


def _rows(out):
    if hasattr(out, "toarray"):
        out = out.toarray()
    out = np.asarray(out)
    return out.tolist()


def native_func(method, X, Y):
    from sklearn.metrics.pairwise import cosine_similarity, cosine_distances, linear_kernel
    from sklearn.preprocessing import normalize
    f = {"cosine_similarity": cosine_similarity, "cosine_distances": cosine_distances, "linear_kernel": linear_kernel}
    if method in f:
        return _rows(f[method](X, Y))
    if method.endswith("_self"):
        return _rows(f[method[:-5]](X))
    norm = method.split("_")[1]
    return _rows(normalize(X, norm=norm, axis=0 if method.endswith("axis0") else 1))


def native_answers(b):
    """method -> list of per-record answers (None: native refuses)"""
    out = {}
    if b.family == "func":
        return {}
    if b.family == "ft":
        m = b.est[0]
        for meth in b.methods:
            if meth == "predict":
                for k, thr in b.kws:
                    rows = []
                    for t in b.pool:
                        try:
                            l, p = m.predict(t, k=k, threshold=thr)
                        except ValueError:  # native 0.9.1 cannot return an empty answer
                            rows.append([[], []])
                            continue
                        rows.append([list(l), np.asarray(p).tolist()])
                    out["predict:%s:%s" % (k, thr)] = rows
            elif meth == "get_sentence_vector":
                out[meth] = [m.get_sentence_vector(t).tolist() for t in b.pool]
            elif meth == "get_word_vector":
                # the native vector of a label is read beyond the end of the matrix
                out[meth] = [m.get_word_vector(w).tolist() if w not in m.get_labels() or not b.sup else [0.0] * m.get_dimension() for w in b.words]
            elif meth == "get_word_id":
                out[meth] = [int(m.get_word_id(w)) for w in b.words]
        return out
    X = native_input(b, b.pool)
    for meth in list(b.methods):
        try:
            out[meth] = _rows(getattr(b.est, meth)(X))
        except Exception:
            if "odd" not in getattr(b, "extra", {}):
                raise
            b.methods.remove(meth)  # the native model refuses too
    # ambiguous labels: top two scores closer than rounding can separate
    amb = [False] * len(b.pool)
    sc = None
    if b.margin and "predict" in b.methods:
        for meth in ("predict_proba", "decision_function"):
            if hasattr(b.est, meth):
                try:
                    sc = _rows(getattr(b.est, meth)(X))
                    break
                except Exception:
                    sc = None
    if sc is not None:
        for i, s in enumerate(sc):
            if not isinstance(s, list):
                amb[i] = abs(s) < 1e-7
            else:
                t = sorted(s)
                amb[i] = len(t) > 1 and (t[-1] - t[-2]) < (1e-5 if b.tol == "f32" else 1e-7)
    out["__ambiguous__"] = amb
    return out


def converter(b):
    if b.convert is not None:
        return b.convert
    if b.family == "ft":
        from pure_fasttext import FastText
        return lambda e: FastText(e[0])
    from pure_sklearn.map import convert_estimator
    return convert_estimator


def build(spec):
    """untrained Built from spec; np.random seeded so that native training is repeatable"""
    rng = random.Random("%s:%s" % (spec["kind"], spec["seed"]))
    np.random.seed(spec["seed"] % (2 ** 32))
    random.seed(spec["seed"])
    return BUILDERS[spec["kind"]][0](rng)


def make_probes(e, n):
    """n requests over the entry, every method at least once"""
    rng = random.Random("probes:%s:%s" % (e["spec"]["kind"], e["spec"]["seed"]))
    out = [core.gen_request(rng, e, methods=[m]) for m in e["methods"]]
    while len(out) < n:
        out.append(core.gen_request(rng, e))
    return out


def served(m, e, req):
    box = []

    def go():
        box.append(core.invoke(m, req, core.payload_of(e, req)))
        return box[0]
    out = core.outcome(go)
    return ["ok", core.neutral(box[0])] if out[0] == "ok" else ["raise", out[1]]


def entry(spec, native=False, nversions=None, protocol=4, probes=0):
    """Fully trained and converted entry (dict, picklable without third-party packages)."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = build(spec)
        conv = converter(b)
        e = {"spec": spec, "family": b.family, "pool": b.pool, "bad": b.bad, "methods": b.methods, "forms": b.forms, "d": b.d,
             "tol": b.tol, "versions": [], "error": None, "desc": describe(b)}
        if b.family == "ft":
            e["words"], e["kws"] = b.words, b.kws
        e.update(getattr(b, "extra", {}))
        for v in range(b.nversions if nversions is None or b.family == "func" else min(nversions, b.nversions)):
            b.train(v)
            if b.family not in ("func", "ft"):
                b.methods = e["methods"] = [m for m in b.methods if hasattr(b.est, m)]
            ver = {}
            try:
                m = conv(b.est)
                if hasattr(b, "twin"):
                    ver["twin"] = pickle.dumps(conv(b.twin()), protocol)
                if probes:
                    if "probes" not in e:
                        e["probes"] = make_probes(e, probes)
                    sm = core.load_model(e, v) if b.family == "func" else conv(b.est)
                    ver["served"] = [served(sm, e, r) for r in e["probes"]]
                try:
                    ver["blob"] = pickle.dumps(m, protocol)
                except Exception as ex:
                    ver["error"], ver["stage"] = "%s: %s" % (type(ex).__name__, str(ex)[:200]), "store"
            except Exception as ex:  # refused: reported by the properties that care
                ver["error"], ver["stage"] = "%s: %s" % (type(ex).__name__, str(ex)[:200]), "convert"
            if native:
                ver["native"] = native_answers(b)
            e["versions"].append(ver)
        return e


def describe(b):
    try:
        if b.family == "ft":
            return "fasttext(%s)" % ("supervised" if b.sup else "unsupervised")
        return " ".join(repr(b.est).split())[:300]
    except Exception:
        return type(b.est).__name__
