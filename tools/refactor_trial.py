import re
def sub(p, *pairs):
    s=open(p).read()
    for a,b in pairs:
        assert a in s,(p,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
P='pure_sklearn/'
sub(P+'feature_extraction/text.py',
('''        if self.input == "filename":
            with open(doc, "rb") as fh:
                doc = fh.read()

        elif self.input == "file":
            doc = doc.read()

        if isinstance(doc, bytes):
            doc = doc.decode(self.encoding, self.decode_error)
''','''        doc = self._fetch(doc)
        if isinstance(doc, bytes):
            doc = str(doc, self.encoding, self.decode_error)
'''),
('''    def _word_ngrams(self''','''    def _fetch(self, doc):
        """ Raw content of a document """
        if self.input == "file":
            return doc.read()
        if self.input != "filename":
            return doc
        chunks = []
        with open(doc, "rb") as fh:
            while True:
                chunk = fh.read(4096)
                if not chunk:
                    break
                chunks.append(chunk)
        return b"".join(chunks)

    def _word_ngrams(self'''),
('''                try:
                    feature_idx = vocabulary[feature]
                    if feature_idx not in feature_counter:
                        feature_counter[feature_idx] = 1
                    else:
                        feature_counter[feature_idx] += 1
                except KeyError:
                    continue
''','''                feature_idx = vocabulary.get(feature)
                if feature_idx is None:
                    continue
                feature_counter[feature_idx] = feature_counter.get(feature_idx, 0) + 1
'''),
('''        if self.sublinear_tf:
            for index in range(len(X)):
                for k, v in X[index].items():
                    X[index][k] = safe_log(v) + 1
''','''        if self.sublinear_tf:
            for row in X:
                for k in row:
                    row[k] = safe_log(row[k]) + 1
'''),
('''            for index in range(len(X)):
                for k, v in X[index].items():
                    X[index][k] = v * self.idf_[k]
''','''            idf = self.idf_
            for row in X:
                row.update([(k, v * idf[k]) for k, v in row.items()])
'''),
('''        X = self._get_hasher().transform(analyzer(doc) for doc in X)
''','''        docs = [analyzer(doc) for doc in X]
        X = self._get_hasher().transform(docs)
'''),
('''            for n in range(min_n, max_n + 1):
                offset = 0
                ngrams_append(w[offset : offset + n])
                while offset + n < w_len:
                    offset += 1
                    ngrams_append(w[offset : offset + n])
                if offset == 0:  # count a short word (w_len < n) only once
                    break
''','''            for n in range(min_n, max_n + 1):
                if n >= w_len:
                    ngrams_append(w)
                    break
                for offset in range(w_len - n + 1):
                    ngrams_append(w[offset : offset + n])
'''),
)
sub(P+'feature_extraction/_hash.py',
('''            row[index] = row.get(index, 0) + value
''','''            if index in row:
                row[index] += value
            else:
                row[index] = value
'''))
sub(P+'feature_extraction/_dict_vectorizer.py',
('''        data = []
        for x in X:
            row = {}
            for f, v in x.items():
                if isinstance(v, str):
                    f = "%s%s%s" % (f, self.separator, v)
                    v = 1
                if f in vocab:
                    row[vocab[f]] = dtype(v)
            data.append(row)
        result''','''        data = [self._row(x, vocab, dtype) for x in X]
        result'''),
('''    def transform(self, X):''','''    def _row(self, x, vocab, dtype):
        row = {}
        for f, v in x.items():
            if isinstance(v, str):
                f, v = "{}{}{}".format(f, self.separator, v), 1
            index = vocab.get(f)
            if index is not None:
                row[index] = dtype(v)
        return row

    def transform(self, X):'''))
sub(P+'preprocessing/_encoders.py',
('''        n_samples, n_features = shape(X_int)
        n_values = [0] + [len(cats) for cats in self.categories_]
        feature_indices = list(accumu(n_values))
        data = [
            dict(
                [
                    (feature_indices[i] + X_int[j][i], self.dtype(1))
                    for i in range(n_features)
                    if X_mask[j][i]
                ]
            )
            for j in range(n_samples)
        ]
        out = sparse_list(data, size=feature_indices[-1], dtype=self.dtype)
''','''        offsets, size = self._offsets()
        one = self.dtype(1)
        data = []
        for codes, known in zip(X_int, X_mask):
            row = {}
            for offset, code, ok in zip(offsets, codes, known):
                if ok:
                    row[offset + code] = one
            data.append(row)
        out = sparse_list(data, size=size, dtype=self.dtype)
'''),
('''class OneHotEncoderPure(_BaseEncoderPure):
    """
    Pure python implementation of `OneHotEncoder`.

    Args:
        estimator (sklearn estimator): fitted `OneHotEncoder` object
    """
''','''class OneHotEncoderPure(_BaseEncoderPure):
    """
    Pure python implementation of `OneHotEncoder`.

    Args:
        estimator (sklearn estimator): fitted `OneHotEncoder` object
    """

    _cached = None

    def _offsets(self):
        if self._cached is None:
            offsets = []
            total = 0
            for cats in self.categories_:
                offsets.append(total)
                total += len(cats)
            self._cached = (tuple(offsets), total)
        return self._cached
'''))
sub(P+'preprocessing/_label.py',('''        table = {val: i for i, val in enumerate(uniques)}
        try:
            encoded = [table[v] for v in values]
        except KeyError as e:
            raise ValueError("y contains previously unseen labels: %s" % str(e))
''','''        table = dict(zip(uniques, range(len(uniques))))
        encoded = []
        for v in values:
            if v not in table:
                raise ValueError("y contains previously unseen labels: %r" % (v,))
            encoded.append(table[v])
'''))
sub(P+'pipeline.py',
('''        Xt = X
        for _, name, transform in self._iter(with_final=False):
            Xt = transform.transform(Xt)
        return self.steps[-1][-1].predict(Xt, **predict_params)''','''        return self._final.predict(self._before(X), **predict_params)'''),
('''        Xt = X
        for _, name, transform in self._iter(with_final=False):
            Xt = transform.transform(Xt)
        return self.steps[-1][-1].predict_proba(Xt)''','''        Xt = self._before(X)
        return self._final.predict_proba(Xt)'''),
('''        Xt = X
        for _, name, transform in self._iter(with_final=False):
            Xt = transform.transform(Xt)
        return self.steps[-1][-1].predict_log_proba(Xt)''','''        return self._final.predict_log_proba(self._before(X))'''),
('''    def __len__(self):''','''    @property
    def _final(self):
        return self.steps[-1][-1]

    def _before(self, X):
        """ Apply every step but the last """
        return reduce(
            lambda data, step: step[2].transform(data), self._iter(with_final=False), X
        )

    def __len__(self):'''),
('''            func = lambda index: [
                list(
                    {(k + start_indices[i]): v for k, v in Xs[i][index].items()}.items()
                )
                for i in range(len(Xs))
            ]
            X_total = [dict(reduce(add, func(index))) for index in range(len(X))]
            return''','''            X_total = []
            for rows in zip(*Xs):
                row = {}
                for start, part in zip(start_indices, rows):
                    for k, v in part.items():
                        row[start + k] = v
                X_total.append(row)
            return'''),
)
sub(P+'tree/_classes.py',
('''        if isinstance(x, dict):
            left_equal = lambda nd: to_float32(x.get(self.feature_[nd], 0.0))
        else:
            left_equal = lambda nd: to_float32(x[self.feature_[nd]])
        found_node = False
        node_id = 0
        while not found_node:
            if self.children_left_[node_id] == self.children_right_[node_id]:
                found_node = True
            else:
                value = left_equal(node_id)
                if (value != value) and (self.missing_ is not None):
                    node_id = self.missing_[node_id]
                elif value <= self.threshold_[node_id]:
                    node_id = self.children_left_[node_id]
                else:
                    node_id = self.children_right_[node_id]
        return node_id
''','''        left, right = self.children_left_, self.children_right_
        node_id = 0
        while left[node_id] != right[node_id]:
            value = self._value(x, self.feature_[node_id])
            if isnan(value) and self.missing_ is not None:
                node_id = self.missing_[node_id]
            else:
                side = left if value <= self.threshold_[node_id] else right
                node_id = side[node_id]
        return node_id

    @staticmethod
    def _value(x, feature):
        if isinstance(x, dict):
            return to_float32(x.get(feature, 0.0))
        return to_float32(x[feature])
'''),
('''        leaves = [self._get_leaf_node(x) for x in X]
        preds = [self._get_pred_from_leaf_node(x) for x in leaves]
        return [self.classes_[x] for x in preds]
''','''        out = []
        for x in X:
            leaf = self._get_leaf_node(x)
            out.append(self.classes_[self._get_pred_from_leaf_node(leaf)])
        return out
'''),
('''        return [a / sum(self.value_[node_id]) for a in self.value_[node_id]]''','''        counts = self.value_[node_id]
        total = sum(counts)
        return [a / total for a in counts]'''))
sub(P+'base.py',('''        expons = [safe_exp(x - max_) for x in arr]
        out = list(map(lambda x: x / float(sum(expons)), expons))''','''        expons = [safe_exp(x - max_) for x in arr]
        total = float(sum(expons))
        out = [x / total for x in expons]'''),
('''    arr = []
    for i in range(len(B)):
        if isinstance(A, dict):
            val = sum([v * B[i][k] for k, v in A.items()])
        else:
            val = sum(map(mul, A, B[i]))
        arr.append(val)
    return arr''','''    if isinstance(A, dict):
        return [sum([v * b[k] for k, v in A.items()]) for b in B]
    return [sum(map(mul, A, b)) for b in B]'''))
sub(P+'map.py',('''    module = __import__(module, fromlist=[name])
    return getattr(module, name)''','''    return getattr(import_module(module), name)'''))
s=open(P+'map.py').read()
i=s.index('MAPPING')
s=s[:i]+'from importlib import import_module\n\n'+s[i:]
open(P+'map.py','w').write(s)
sub(P+'ensemble/_bagging.py',('''        proba = self._predict_proba_one(X, 0)
        for idx in range(len(self.estimators_))[1:]:
            proba = operate_2d(proba, self._predict_proba_one(X, idx), add)
        func = lambda x: x / float(len(self.estimators_))
        return apply_2d(proba, func)''','''        n = len(self.estimators_)
        total = None
        for idx in range(n):
            proba = self._predict_proba_one(X, idx)
            total = proba if total is None else operate_2d(total, proba, add)
        return apply_2d(total, lambda x: x / float(n))'''))
sub(P+'ensemble/_gb.py',('''        out = []
        for k in range(len(self.estimators_[0])):
            column = [0] * (shape(X)[0])
            for index in range(len(self.estimators_)):
                preds = self.estimators_[index][k].predict(X)
                column = [
                    column[i] + (preds[i] * self.learning_rate)
                    for i in range(len(preds))
                ]
            out.append(column)
''','''        out = [[0] * len(X) for _ in self.estimators_[0]]
        for stage in self.estimators_:
            for column, est in zip(out, stage):
                for i, pred in enumerate(est.predict(X)):
                    column[i] += pred * self.learning_rate
'''))
sub(P+'impute/_base.py',('''        X_imputed = [[func(a, i) for i in range(len(a))] for a in X]
''','''        X_imputed = []
        for a in X:
            row = list(a)
            for i in range(len(row)):
                row[i] = func(a, i)
            X_imputed.append(row)
'''))
sub(P+'utils.py',('''    start = time.perf_counter()
    _ = pickle.loads(pickled)
    pickle_t = time.perf_counter() - start
''','''    pickle_t = _timed(pickle.loads, pickled)
'''),('''    start = time.perf_counter()
    _ = pickle.loads(pickled_)
    pickle_t_ = time.perf_counter() - start
''','''    pickle_t_ = _timed(pickle.loads, pickled_)
'''),('''    start = time.perf_counter()
    _ = sklearn_estimator.predict(X_pred)
    pred_t = time.perf_counter() - start
''','''    pred_t = _timed(sklearn_estimator.predict, X_pred)
'''),('''    start = time.perf_counter()
    _ = pure_sklearn_estimator.predict(X_pred_)
    pred_t_ = time.perf_counter() - start
''','''    pred_t_ = _timed(pure_sklearn_estimator.predict, X_pred_)
'''),('''def performance_comparison(''','''def _timed(func, *args):
    """ Duration of one call """
    start = time.perf_counter_ns()
    func(*args)
    return (time.perf_counter_ns() - start) / 1e9


def performance_comparison('''),
('''    if isinstance(obj, dict):
        return {to_pure(k): to_pure(v) for k, v in obj.items()}
    elif type(obj) is list:
        return [to_pure(ob) for ob in obj]
    elif type(obj) is tuple:
        return tuple(to_pure(ob) for ob in obj)
''','''    if isinstance(obj, dict):
        out = {}
        for k, v in obj.items():
            out[to_pure(k)] = to_pure(v)
        return out
    if type(obj) in (list, tuple):
        return type(obj)(map(to_pure, obj))
    if obj is None:
        return None
'''),('''    elif isinstance(obj, TYPES) and not isinstance(obj, type) and hasattr''','''    if isinstance(obj, TYPES) and not isinstance(obj, type) and hasattr'''))
F='pure_fasttext/FastText.py'
sub(F,('''    expons = list(map(lambda x: exp(x - max(arr)), arr))
    return list(map(lambda x: x / float(sum(expons)), expons))''','''    top = max(arr)
    expons = [exp(x - top) for x in arr]
    total = float(sum(expons))
    return [x / total for x in expons]'''),
('''        if word in self.words_:
            return self.words_.index(word)
        else:
            return -1
''','''        return self._get_index().get(word, -1)

    def _get_index(self):
        index = self.__dict__.get("_index")
        if index is None:
            with _lock:
                index = self.__dict__.get("_index")
                if index is None:
                    index = {}
                    for i, w in enumerate(self.words_):
                        index.setdefault(w, i)
                    self._index = index
        return index
'''),
('''EOS = "</s>"''','''EOS = "</s>"
_lock = Lock()'''),('''from re import split''','''from re import split
from threading import Lock'''),
('''        if isinstance(text, list):
            all_labels = []
            all_probs = []
            for text_ in text:
                labels, probs = self._predict(text_, k, threshold)
                all_labels.append(labels)
                all_probs.append(probs)
            return all_labels, all_probs
''','''        if isinstance(text, list):
            answers = [self._predict(line, k, threshold) for line in text]
            return [a[0] for a in answers], [a[1] for a in answers]
'''))
sub(P+'naive_bayes.py',('''        log_prob_x = list(map(logsumexp, jll))
        return [
            list(map(lambda a: a - log_prob_x[index], jll[index]))
            for index in range(len(jll))
        ]''','''        out = []
        for row in jll:
            norm = logsumexp(row)
            out.append([a - norm for a in row])
        return out'''))
sub(P+'xgboost/_classes.py',('''        preds = []
        for cls_index in range(self.n_classes_):
            cls_sum = [0] * len(X)
            for est_row in self.estimators_:
                est_preds = est_row[cls_index].predict(X)
                cls_sum = list(map(lambda x, y: x + y, cls_sum, est_preds))
            preds.append(cls_sum)
        return preds''','''        return [
            self._total(0, [est_row[cls_index] for est_row in self.estimators_], X)
            for cls_index in range(self.n_classes_)
        ]

    @staticmethod
    def _total(start, trees, X):
        sums = [start] * len(X)
        for tree in trees:
            sums = [x + y for x, y in zip(sums, tree.predict(X))]
        return sums'''),('''        preds = [self.base_margin_] * len(X)
        for estimator in self.estimators_:
            preds = list(map(lambda x, y: x + y, preds, estimator.predict(X)))
        return preds''','''        return self._total(self.base_margin_, self.estimators_, X)'''))
