"""Stand-ins for the embedding models that are not installed here."""
import hashlib
import sys
import types

import numpy as np

DIMS = {"small": 3, "sentence-transformers/all-MiniLM-L6-v2": 8, "wide": 12}
DEFAULT = "sentence-transformers/all-MiniLM-L6-v2"
LOG = []            # texts handed to a model
FAIL = "BOOM"       # the model cannot embed texts with this word


def vector(text, name="sentence-transformers/all-MiniLM-L6-v2"):
    """What the model called name gives for text."""
    if text == "ZERO":
        return np.zeros(DIMS.get(name, 8), dtype=np.float32)
    seed = hashlib.sha256((name + "\0" + text).encode("utf-8", "surrogatepass")).digest()
    return np.random.RandomState(np.frombuffer(seed, dtype=np.uint32)).normal(size=DIMS.get(name, 8)).astype(np.float32)


class SentenceTransformer:
    def __init__(self, name, *a, **k):
        self.name = name

    def to(self, device):
        return self

    def encode(self, texts, batch_size=32, **k):
        one = isinstance(texts, str)
        for t in [texts] if one else texts:
            LOG.append(t)
            if FAIL in t:
                raise RuntimeError("model failure")
        if one:
            return vector(texts, self.name)
        return np.array([vector(t, self.name) for t in texts])

    def get_sentence_embedding_dimension(self):
        return DIMS.get(self.name, 8)


class _Embedding:
    @staticmethod
    def create(input=None, model=None, **k):
        LOG.append(input)
        if FAIL in input:
            raise RuntimeError("model failure")
        return {"data": [{"embedding": [float(x) for x in vector(input, "openai")]}]}


# ---------------------------------------------------------------- torch and transformers
PIECE = 4           # characters of a token


def tokens(text):
    return [text[i:i + PIECE] for i in range(0, len(text), PIECE)] or [""]


def state(piece, place, text, name):
    """The hidden state of the token at a place; it depends on the whole text, too."""
    if text == "ZERO":
        return np.zeros(DIMS.get(name, 8), dtype=np.float32)
    return vector("%d\0%s\0%s" % (place, piece, text), name)


def pooled(text, name, max_length):
    """Mean of the hidden states of the first max_length tokens."""
    ts = tokens(text)[:max_length]
    return np.mean([state(t, i, "".join(ts), name) for i, t in enumerate(ts)], axis=0).astype(np.float32)


class Tensor:
    def __init__(self, a):
        self.a = np.asarray(a)

    shape = property(lambda s: s.a.shape)
    dtype = property(lambda s: s.a.dtype)

    def mean(self, dim=None, keepdim=False):
        return Tensor(self.a.mean(axis=dim, keepdims=keepdim))

    def sum(self, dim=None, keepdim=False):
        return Tensor(self.a.sum(axis=dim, keepdims=keepdim))

    def squeeze(self, dim=None):
        return Tensor(self.a.squeeze() if dim is None else self.a.squeeze(dim))

    def to(self, *a, **k):
        return self

    cpu = detach = float = to

    def norm(self, p=2, dim=None, keepdim=False):
        return Tensor(np.linalg.norm(self.a, axis=dim, keepdims=keepdim))

    def unsqueeze(self, dim):
        return Tensor(np.expand_dims(self.a, dim))

    def __truediv__(self, b):
        return Tensor(self.a / (b.a if isinstance(b, Tensor) else b))

    def numpy(self):
        return self.a

    def tolist(self):
        return self.a.tolist()

    def __getitem__(self, i):
        return Tensor(self.a[i])

    def __len__(self):
        return len(self.a)


class _Quiet:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class AutoTokenizer:
    def __init__(self, name):
        self.name = name

    @classmethod
    def from_pretrained(cls, name, *a, **k):
        return cls(name)

    def __call__(self, text, return_tensors=None, truncation=False, max_length=None, padding=False, **k):
        texts = [text] if isinstance(text, str) else list(text)
        out = []
        for t in texts:
            if FAIL in t:
                raise RuntimeError("model failure")
            LOG.append(t)
            out.append(tokens(t)[:max_length] if truncation and max_length else tokens(t))
        n = max(map(len, out))
        rows = [r + [None] * (n - len(r)) for r in out]
        return {"input_ids": Tensor(np.array(rows, dtype=object)),
                "attention_mask": Tensor(np.array([[int(x is not None) for x in r] for r in rows]))}


class AutoModel:
    def __init__(self, name):
        self.name = name

    @classmethod
    def from_pretrained(cls, name, *a, **k):
        return cls(name)

    def to(self, device):
        return self

    def eval(self):
        return self

    def __call__(self, input_ids=None, attention_mask=None, **k):
        rows = [[t for t in r if t is not None] for r in input_ids.a.tolist()]
        n = input_ids.a.shape[1]
        zero = np.zeros(DIMS.get(self.name, 8), dtype=np.float32)
        h = [[state(r[i], i, "".join(r), self.name) if i < len(r) else zero for i in range(n)] for r in rows]
        return types.SimpleNamespace(last_hidden_state=Tensor(np.array(h)))


def install_torch():
    t = types.ModuleType("torch")
    t.Tensor, t.no_grad, t.inference_mode = Tensor, _Quiet, _Quiet
    t.cuda = types.SimpleNamespace(is_available=lambda: False)
    sys.modules["torch"] = t
    f = types.ModuleType("transformers")
    f.AutoTokenizer, f.AutoModel = AutoTokenizer, AutoModel
    sys.modules["transformers"] = f


# ---------------------------------------------------------------- images
class Image:
    """A picture is a file whose content names it."""

    @staticmethod
    def open(path, *a, **k):
        with open(path, "rb") as f:
            b = f.read()
        if not b.startswith(b"PIC "):
            raise OSError("cannot identify image file")
        im = Image()
        im.name = b[4:].decode()
        return im

    def convert(self, mode):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def picture(name):
    return vector("picture " + name, "wide")


class _Clip:
    def encode_image(self, t):
        return Tensor(t.a)

    def eval(self):
        return self

    def to(self, device):
        return self


def install_clip():
    install_torch()
    c = types.ModuleType("clip")
    c.load = lambda name, device=None, **k: (_Clip(), lambda im: Tensor(picture(im.name)))
    sys.modules["clip"] = c
    p = types.ModuleType("PIL")
    p.Image = Image
    sys.modules["PIL"] = p


def install():
    m = types.ModuleType("sentence_transformers")
    m.SentenceTransformer = SentenceTransformer
    sys.modules["sentence_transformers"] = m
    o = types.ModuleType("openai")
    o.Embedding = _Embedding
    sys.modules["openai"] = o
