"""C37: Implicitron batch samplers yield valid batches for every random draw."""
import contextlib
import math
import random as pyrandom
import warnings
from types import SimpleNamespace
from unittest import mock
import numpy as np
import torch
from symx.harness import case
from pytorch3d.implicitron.dataset import utils as du
from pytorch3d.implicitron.dataset.data_loader_map_provider import (
    BatchConditioningType, DoublePoolBatchSampler, SequenceDataLoaderMapProvider, SimpleDataLoaderMapProvider)
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.dataset.scene_batch_sampler import SceneBatchSampler
from pytorch3d.implicitron.tools.config import expand_args_fields

KW = dict(dtype="float32", feas_ms=200)


class Draws:
    """every random source of numpy, torch and random replaced by an unconstrained choice of the solver"""
    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def below(self, n):
        self.n += 1
        return 0 if n == 1 else self.ctx.pick(f"draw{self.n}", tuple(range(n)))

    def distinct(self, n, k):
        if k > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        pool = list(range(n))
        return [pool.pop(self.below(len(pool))) for _ in range(k)]

    def np_choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if len(a) == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is None:
            return a[self.below(len(a))]
        size = int(size)
        return a[[self.below(len(a)) for _ in range(size)] if replace else self.distinct(len(a), size)]

    def np_randint(self, low, high=None, size=None, dtype=int):
        low, high = (0, low) if high is None else (low, high)
        one = lambda: int(low) + self.below(int(high) - int(low))
        return one() if size is None else np.array([one() for _ in range(int(np.prod(size)))]).reshape(size)

    def np_permutation(self, x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.asarray(x)
        return x[self.distinct(len(x), len(x))]

    def shuffle(self, x):
        x[:] = [x[i] for i in self.distinct(len(x), len(x))]

    def t_randint(self, low=0, high=None, size=None, **kw):
        if not isinstance(high, (int, type(None))):
            high, size = None, high
        low, high = (0, low) if high is None else (low, high)
        n = math.prod(size)
        return torch.tensor([low + self.below(high - low) for _ in range(n)], dtype=torch.int64).reshape(tuple(size))

    def t_randperm(self, n, **kw):
        return torch.tensor(self.distinct(n, n), dtype=torch.int64)

    @contextlib.contextmanager
    def everywhere(self):
        with contextlib.ExitStack() as s:
            for mod, name, fn in [
                (np.random, "choice", self.np_choice), (np.random, "randint", self.np_randint),
                (np.random, "permutation", self.np_permutation), (np.random, "shuffle", self.shuffle),
                (torch.Tensor, "random_", lambda t, *a, **k: t.zero_()),  # only seeds the generators
                (torch, "randint", self.t_randint), (torch, "randperm", self.t_randperm),
                (pyrandom, "shuffle", self.shuffle), (pyrandom, "choice", lambda x: x[self.below(len(x))]),
                (pyrandom, "sample", lambda x, k: [x[i] for i in self.distinct(len(x), k)]),
                (pyrandom, "randrange", lambda n: self.below(n)), (pyrandom, "randint", lambda a, b: a + self.below(b - a + 1)),
                (pyrandom, "choices", lambda x, k=1: [x[self.below(len(x))] for _ in range(k)]),
            ]:
                s.enter_context(mock.patch.object(mod, name, fn))
            warnings.simplefilter("ignore")
            yield


class Scenes:
    """sequences with interleaved dataset indices; frames of a sequence are (timestamp, number, index)"""
    def __init__(self, lengths, cats=None, frames=None):
        self.names = [f"s{i}" for i in range(len(lengths))]
        self.index, free = {n: [] for n in self.names}, 0
        for j in range(max(lengths)):
            for n, k in zip(self.names, lengths):
                if j < k:
                    self.index[n].append(free)
                    free += 1
        self.size, self.cats, self.frames = free, cats, frames

    def __len__(self):
        return self.size

    def sequence_names(self):
        return iter(self.names)

    def category_to_sequence_names(self):
        out = {}
        for n, c in zip(self.names, self.cats):
            out.setdefault(c, []).append(n)
        return out

    def sequence_indices_in_order(self, name):
        return iter(self.index[str(name)])

    def sequence_frames_in_order(self, name):
        frames = (self.frames or {}).get(str(name)) or [(0.0, j) for j in range(len(self.index[str(name)]))]
        return iter([(ts, no, i) for (ts, no), i in zip(frames, self.index[str(name)])])

    def owner(self, i):
        return next((n for n in self.names if i in self.index[n]), None)


def groups(data, batch):
    """the batch cut into maximal runs of frames of one sequence"""
    out = []
    for i in batch:
        o = data.owner(i)
        if out and out[-1][0] == o:
            out[-1][1].append(i)
        else:
            out.append((o, [i]))
    return out


def check_batch(ctx, data, batch, size, options, max_seqs=None, aware=False):
    """the batch is explained by one of the options: k frames of each sequence"""
    ctx.true("batch is a list of frame indices", isinstance(batch, list) and all(isinstance(i, int) for i in batch))
    ctx.true("frame indices are valid", all(data.owner(i) is not None for i in batch))
    ctx.true("a batch is not empty nor longer than requested", 0 < len(batch) <= size)
    runs = groups(data, batch)
    ctx.true("every sequence is used once", len({o for o, _ in runs}) == len(runs))
    ctx.true("no frame is repeated", len(set(batch)) == len(batch))

    def fits(k):
        want = -(-size // k)
        for j, (o, r) in enumerate(runs):
            full = min(k, len(data.index[o]))
            if len(r) != full and not (j == len(runs) - 1 and len(batch) == size and len(r) < full):
                return False
        if len(runs) > want:
            return False
        if aware:
            n_cats = len(set(data.cats))
            used = [data.cats[data.names.index(o)] for o, _ in runs]
            if want <= n_cats and len(set(used)) != len(used):
                return False
            if len(batch) == size:
                return True
            # fewer sequences only when a category has run out, or sequences are short
            exhausted = any(used.count(c) == data.cats.count(c) for c in set(used))
            return (len(runs) == want or exhausted) and (any(len(r) < k for _, r in runs) or len(runs) < want)
        return len(batch) == size or len(runs) == min(want, len(data.names)) and (len(runs) < want or any(len(r) < k for _, r in runs))
    ctx.true("groups of the requested number of frames", any(fits(k) for k in options))


CONFIGS = {
    "one": ([4], 3, (3,)), "round-up": ([3, 3, 3], 3, (2,)), "short": ([1, 3, 2], 4, (2,)), "few": ([2, 2], 6, (2,)),
    "options": ([3, 2], 3, (1, 3)), "singles": ([2, 2, 1], 2, (1,)), "too-many": ([3, 2], 2, (3,)), "pair": ([4, 2], 4, (2,)),
}


@case(params=[dict(c=c) for c in CONFIGS], **KW)
def scene_batches(ctx, c):
    lengths, size, options = CONFIGS[c]
    data = Scenes(lengths)
    draws = Draws(ctx)
    with draws.everywhere():
        s = SceneBatchSampler(data, size, 1, options, category_aware=False)
        out = list(s)
    ctx.true("number of batches", len(out) == 1 and len(s) == 1)
    for b in out:
        check_batch(ctx, data, b, size, options)


CATS = {
    "two-cats": ([2, 1, 2], "xxy", 3, (2,)), "spread": ([2, 2, 2], "xyz", 4, (2,)), "repeat": ([1, 1, 1, 1], "xxyy", 3, (1,)),
    "uneven": ([2, 2, 1, 1], "xyyy", 4, (2, 1)), "exhausted": ([2, 2, 2], "xyy", 3, (1,)), "single-cat": ([3, 2], "xx", 4, (2,)),
}


@case(params=[dict(c=c) for c in CATS], **KW)
def category_batches(ctx, c):
    lengths, cats, size, options = CATS[c]
    data = Scenes(lengths, list(cats))
    draws = Draws(ctx)
    with draws.everywhere():
        out = list(SceneBatchSampler(data, size, 1, options))
    ctx.true("number of batches", len(out) == 1)
    for b in out:
        check_batch(ctx, data, b, size, options, aware=True)


@case(params=[dict(n=n, size=s) for n in (0, 1, 3) for s in (1, 2)], **KW)
def several_batches(ctx, n, size):
    data = Scenes([2, 1], ["x", "x"])
    with Draws(ctx).everywhere():
        s = SceneBatchSampler(data, size, n, (1,), category_aware=False)
        out = list(s)
    ctx.true("exactly the requested number of batches", len(out) == n and len(s) == n)
    for b in out:
        check_batch(ctx, data, b, size, (1,))
        ctx.true("requested size", len(b) == size)


def windows(ctx, ok, k):
    """[(first, last)] of the eligible segments, given which neighbours are joined (decided on the path)"""
    segs, a = [], 0
    for j, joined in enumerate(ok + [False]):
        if not joined:
            segs.append((a, j))
            a = j + 1
    long = [s for s in segs if s[1] - s[0] + 1 >= k]
    return long or [s for s in segs if s[1] - s[0] == max(t[1] - t[0] for t in segs)], bool(long)


@case(params=[dict(L=L, k=k, by=by) for L, k in [(4, 2), (5, 3), (4, 4), (5, 2), (3, 1)] for by in ("time", "number", "both", "none")], **KW)
def consecutive_frames(ctx, L, k, by):
    """frames of one sequence with arbitrary increasing timestamps and numbers, and arbitrary gap limits"""
    data = Scenes([L])
    dt, dn = ctx.real("dt", (L,), 0.01, 4), ctx.integer("dn", (L,), 1, 6)
    ts, no, frames = 0.0, 0, []
    for j in range(L):
        ts, no = ts + dt[j], no + dn[j]
        frames.append((ts if by in ("time", "both") else 0.0, no))
    data.frames = {"s0": frames}
    gap_s = 1.5 if by in ("time", "both") else 0.0
    gap = 2 if by in ("number", "both") else 0
    with Draws(ctx).everywhere():
        (batch,) = list(SceneBatchSampler(data, k, 1, (k,), sample_consecutive_frames=True, consecutive_frames_max_gap=gap,
                                          consecutive_frames_max_gap_seconds=gap_s, category_aware=False))
    order = data.index["s0"]
    at = [order.index(i) if i in order else -1 for i in batch]
    ctx.true("frames of the sequence", min(at) >= 0 and len(batch) <= k)
    ctx.true("frames in order without holes", all(b == a + 1 for a, b in zip(at, at[1:])))
    ok = []
    for j in range(1, L):
        joined = True
        if gap > 0:
            joined = joined and not ctx.fork(dn[j] > gap)
        if gap_s > 0:
            joined = joined and not ctx.fork(dt[j] > gap_s)
        ok.append(joined)
    ctx.true("no gap above the limit within the group", all(ok[a] for a in at[:-1]))
    segs, long = windows(ctx, ok, k)
    ctx.true("full length when a long enough segment exists", len(batch) == k if long else len(batch) == segs[0][1] - segs[0][0] + 1)
    ctx.true("inside an eligible segment", any(a <= at[0] and at[-1] <= b for a, b in segs))


@case(params=[dict(L=L, k=k, size=s) for L, k, s in [((4, 3), 2, 4), ((5, 2), 3, 6), ((3, 4), 3, 5), ((2, 2, 2), 1, 2)]], **KW)
def consecutive_groups(ctx, L, k, size):
    data = Scenes(list(L))
    with Draws(ctx).everywhere():
        (batch,) = list(SceneBatchSampler(data, size, 1, (k,), sample_consecutive_frames=True, consecutive_frames_max_gap=0,
                                          consecutive_frames_max_gap_seconds=0.0, category_aware=False))
    check_batch(ctx, data, batch, size, (k,))
    for o, r in groups(data, batch):
        at = [data.index[o].index(i) for i in r]
        ctx.true("consecutive frames", all(b == a + 1 for a, b in zip(at, at[1:])))


@case(params=[dict(bad=b) for b in ("size", "options", "unordered")], **KW)
def rejected(ctx, bad):
    data = Scenes([3])
    d = ctx.real("d", (), -3, -0.01)
    data.frames = {"s0": [(0.0, 5), (0.0, 5 + d), (0.0, 9)]}
    try:
        with Draws(ctx).everywhere():
            s = SceneBatchSampler(data, 0 if bad == "size" else 2, 1, () if bad == "options" else (2,), category_aware=False,
                                  sample_consecutive_frames=True, consecutive_frames_max_gap=1)
            if bad == "unordered":
                list(s)
        refused = False
    except (ValueError, AssertionError):
        refused = True
    ctx.true("a request that cannot be served is refused", refused)


POOLS = [dict(F=F, R=R, size=s, repl=r, n=n) for F, R, s, r, n in [
    (3, 2, 1, False, None), (3, 3, 3, False, None), (2, 3, 2, True, 2), (2, 2, 3, True, None), (3, 1, 2, False, 2), (2, 2, 2, False, 5),
    (3, 1, 1, False, 7), (2, 0, 1, True, 3), (2, 4, 2, False, 0), (1, 3, 4, False, 2)]]


@case(params=POOLS, **KW)
def double_pool(ctx, F, R, size, repl, n):
    first, rest = [10 + 3 * i for i in range(F)], [100 + 7 * i for i in range(R)]
    with Draws(ctx).everywhere():
        s = DoublePoolBatchSampler(first, rest, size, repl, n)
        out = list(s)
    want = n if n else F
    ctx.true("number of batches", len(out) == want and len(s) == want)
    for b in out:
        ctx.true("batch size", len(b) == size)
        ctx.true("first element from the first list", b[0] in first)
        ctx.true("the others from the second list, without repetition", all(i in rest for i in b[1:]) and len(set(b[1:])) == size - 1)
    if not repl:
        heads = [b[0] for b in out]
        for a in range(0, want, F):
            ctx.true("first elements are repeated only once all were used", len(set(heads[a:a + F])) == len(heads[a:a + F]))


@case(params=[dict(F=1, R=1, size=3), dict(F=2, R=0, size=2)], **KW)
def double_pool_refused(ctx, F, R, size):
    try:
        with Draws(ctx).everywhere():
            DoublePoolBatchSampler(list(range(F)), list(range(R)), size, bool(ctx.fork(ctx.boolean("repl"))))
        refused = False
    except ValueError:
        refused = True
    ctx.true("too few frames are refused", refused)


TYPES = ("train_known", "train_unseen", "test_known", "test_unseen", "known", "unseen")


class Frames(Scenes):
    frame_data_type = SimpleNamespace(collate=lambda b: b)

    def __init__(self, types, evals=None, lengths=None):
        super().__init__(lengths or [len(types)], ["x"] * len(lengths or [0]))
        self.types, self.evals = types, evals

    def __getitem__(self, i):
        return SimpleNamespace(frame_type=self.types[i])

    def get_eval_batches(self):
        return self.evals


@case(**KW)
def frame_types(ctx):
    types = [ctx.pick(f"type{i}", TYPES) for i in range(2)]
    ctx.true("known frames", du.is_known_frame(types).tolist() == [t.split("_")[-1] == "known" for t in types])
    ctx.true("train frames", du.is_train_frame(types).tolist() == [t.split("_")[0] == "train" for t in types])
    ctx.true("scalar form", [du.is_known_frame_scalar(t) for t in types] == du.is_known_frame(types).tolist())


def provider(cls=SequenceDataLoaderMapProvider, **kw):
    expand_args_fields(cls)
    return cls(**kw)


def batches(loader):
    return [list(b) for b in loader.batch_sampler]


@case(params=[dict(role=r, cond=c, n=n) for r in ("train", "val", "test") for c in ("SAME", "TRAIN", "KNOWN") for n in (0, 1)], **KW)
def conditioning(ctx, role, cond, n):
    """every loader draws its frames from the documented sets"""
    types = [ctx.pick(f"type{i}", ("test_known", "test_unseen")) if cond == "KNOWN" else "test_unseen" for i in range(2 if cond == "TRAIN" else 3)]
    if cond == "KNOWN" and (types.count("test_known") == 0 or types.count("test_unseen") == 0):
        ctx.prune()
    other = Frames(["train_known", "train_known"])
    mine = Frames(types)
    sets = {"train": mine if role == "train" else other, "val": None, "test": None}
    if role != "train":
        sets[role] = mine
    size = 2
    p = provider(batch_size=size, **{f"{role}_conditioning_type": BatchConditioningType[cond], f"dataset_length_{role}": n})
    with Draws(ctx).everywhere():
        loaders = p.get_data_loader_map(DatasetMap(**sets))
        loader = getattr(loaders, role)
        out = batches(loader)
    for r in ("val", "test"):
        ctx.true("a loader exists exactly for a dataset", (getattr(loaders, r) is None) == (sets[r] is None))
    L = len(types)
    if cond == "SAME":
        want = n if n else L // size
        ctx.true("frames of the dataset", all(0 <= i < L for b in out for i in b))
        if not n:
            flat = [i for b in out for i in b]
            ctx.true("every frame at most once per epoch", len(set(flat)) == len(flat))
    elif cond == "TRAIN":
        want = n if n else L
        total = len(loader.dataset)
        T = len(sets["train"])
        ctx.true("dataset extended by the training frames", total == L + T)
        ctx.true("first the frame to predict, then training frames", all(0 <= b[0] < L and all(L <= i < total for i in b[1:]) for b in out))
    else:
        unseen = [i for i, t in enumerate(types) if t == "test_unseen"]
        known = [i for i, t in enumerate(types) if t == "test_known"]
        want = n if n else len(unseen)
        ctx.true("first an unseen frame, then known frames", all(b[0] in unseen and all(i in known for i in b[1:]) for b in out))
    ctx.true("number of batches", len(out) == want)
    ctx.true("batch sizes", all(len(b) == size for b in out))


@case(params=[dict(cls=c) for c in ("sequence", "simple")], **KW)
def eval_batches(ctx, cls):
    evals = [[ctx.pick(f"e{i}{j}", (0, 1, 2)) for j in range(2)] for i in range(2)]
    data = Frames(["test_unseen"] * 3, evals)
    p = provider(SequenceDataLoaderMapProvider if cls == "sequence" else SimpleDataLoaderMapProvider, batch_size=1)
    with Draws(ctx).everywhere():
        loader = p.get_data_loader_map(DatasetMap(train=None, val=data, test=None))
        out = batches(loader.val)
    ctx.true("evaluation batches of the dataset are used as they are", out == evals and loader.train is None and loader.test is None)


@case(params=[dict(n=n, size=s) for n in (0, 1, 2) for s in (1, 2)], **KW)
def simple_provider(ctx, n, size):
    data = Frames(["x"] * 3)
    p = provider(SimpleDataLoaderMapProvider, batch_size=size, dataset_length_train=n)
    with Draws(ctx).everywhere():
        out = batches(p.get_data_loader_map(DatasetMap(train=data, val=None, test=None)).train)
    ctx.true("number of batches", len(out) == (n if n else 3 // size))
    ctx.true("batch sizes", all(len(b) == size for b in out))
    ctx.true("frames of the dataset", all(0 <= i < 3 for b in out for i in b))
    flat = [i for b in out for i in b]
    ctx.true("every frame at most once per epoch", n > 0 or len(set(flat)) == len(flat))


@case(params=[dict(consecutive=c, n=n) for c in (False, True) for n in (0, 2)], **KW)
def scene_loader(ctx, consecutive, n):
    data = Frames(["x"] * 4, lengths=[3, 1])
    p = provider(batch_size=2, images_per_seq_options=(2,), dataset_length_train=n, sample_consecutive_frames=consecutive,
                 consecutive_frames_max_gap_seconds=0.0)
    with Draws(ctx).everywhere():
        loader = p.get_data_loader_map(DatasetMap(train=data, val=None, test=None)).train
        ctx.true("epoch length", len(loader) == (n or 4))
        out = [next(iter(loader.batch_sampler))]
    for b in out:
        check_batch(ctx, data, b, 2, (2,), aware=True)
        if consecutive:
            at = [data.index[data.owner(i)].index(i) for i in b]
            ctx.true("consecutive frames", all(y == x + 1 for x, y in zip(at, at[1:])))
