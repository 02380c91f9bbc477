PROPERTY='P29'
NEEDS='an image database made of files of which one cannot be read'
BREAKS='images are numbered by what could be read so far instead of by their place in the list, so their ids no longer lead back to the files'
EDITS=[('src/valori/factory.py','''                try:
                    image = Image.open(image_path)
''','''                try:
                    image_info = {
                        "image_path": str(image_path),
                        "image_id": len(vectors),
                        "extractor": "clip",
                    }
                    image = Image.open(image_path)
'''),('src/valori/factory.py','''                    metadata.append(
                        {
                            "image_path": str(image_path),
                            "image_id": i,
                            "extractor": "clip",
                        }
                    )
''','''                    metadata.append(image_info)
''')]
DEMO='''
import os, sys, tempfile, shutil, types
import numpy as np
class T:
    def __init__(s, a): s.a = np.asarray(a, dtype=float)
    def unsqueeze(s, d): return T(np.expand_dims(s.a, d))
    def to(s, d): return s
    cpu = lambda s: s
    def norm(s, dim=None, keepdim=False): return T(np.linalg.norm(s.a, axis=dim, keepdims=keepdim))
    def __truediv__(s, b): return T(s.a / b.a)
    def numpy(s): return s.a
class Q:
    def __enter__(s): return s
    def __exit__(s, *a): return False
class Im:
    @staticmethod
    def open(p):
        t = open(p).read()
        if not t.startswith("PIC"): raise OSError("no picture")
        return [float(x) for x in t[3:].split(",")]
class M:
    def encode_image(s, t): return t
c = types.ModuleType("clip"); c.load = lambda n, device=None: (M(), lambda im: T(im)); sys.modules["clip"] = c
t = types.ModuleType("torch"); t.no_grad = Q; t.Tensor = T; t.cuda = types.SimpleNamespace(is_available=lambda: False); sys.modules["torch"] = t
p = types.ModuleType("PIL"); p.Image = Im; sys.modules["PIL"] = p
import valori
d = tempfile.mkdtemp()
fs = []
for i, s in enumerate(["PIC1,0,0", "junk", "PIC0,1,0", "PIC0,0,1"]):
    f = os.path.join(d, "%d.png" % i); open(f, "w").write(s); fs.append(f)
bad = True
try:
    db = valori.create_image_search_db(fs, index_type="flat")
    m = [db.search(np.array(v, dtype=float), 1)[0]["metadata"] for v in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
    print(m)
    bad = [x["image_path"] for x in m] != [fs[0], fs[2], fs[3]] or [x["image_id"] for x in m] != [0, 2, 3]
finally:
    shutil.rmtree(d)
sys.exit(bool(bad))
'''
