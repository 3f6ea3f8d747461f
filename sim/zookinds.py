"""Names and weights of the service kinds (no third-party imports)."""
import random

WEIGHTS = {"logreg": 4, "ridge": 2, "sgd": 4, "perceptron": 1, "pa": 1, "linsvc": 2, "dtc": 4, "dtr": 2, "forest": 4, "bagging": 4, "gb": 5, "xgb": 4, "gnb": 2, "mnb": 2, "cnb": 1, "dummy": 2, "imputer": 4, "missing": 3, "scaler": 6, "encoder": 5, "vectorizer": 9, "tfidf_tr": 3, "dictvec": 3, "pipe_num": 5, "pipe_text": 6, "pipe_cat": 3, "func": 3, "fasttext": 4, "filevec": 0, "odd": 0, "ftodd": 0}


def pick_specs(seed, n, kinds=None, boost=None, start=0):
    """
    n specs drawn by weight; successive shards start at different places of the list of kinds, so
    that over all shards every kind appears.
    """
    rng = random.Random("zoo:%s" % seed)
    w = dict(WEIGHTS)
    for k, x in (boost or {}).items():
        w[k] = (w.get(k) or 1) * x
    names = [k for k in WEIGHTS if (WEIGHTS[k] if kinds is None else k in kinds)]
    out = []
    for i in range(min(len(names), n // 2)):
        out.append(names[(start * (n // 2) + i) % len(names)])
    bag = [k for k in names for _ in range(max(1, int(w[k])))]
    while len(out) < n:
        out.append(rng.choice(bag))
    return [{"kind": k, "seed": rng.randrange(1 << 40)} for k in out]
