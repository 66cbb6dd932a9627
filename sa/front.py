"""Front end: Python-2 syntax trees of /repo's working tree (parsed by Jython, nothing is executed)."""
import hashlib, json, os, subprocess, sys, tempfile, shutil

REPO = os.environ.get("SA_REPO", "/repo")
JYTHON = "/opt/py2/bin/jython"

# module name -> path inside the repository
UNITS = {
    "uni_vts": "vts/uni_vts.py", "matrix_of_signs": "vts/matrix_of_signs.py", "isym": "vts/isym.py",
    "checker": "vts/checker.py", "grf_parser": "vts/grf_parser.py",
    "examples_parser": "vts/examples_parser.py",
    "muchnik": "highschool_qe/muchnik.py", "cohenhorm": "highschool_qe/cohenhorm.py",
    "sympywrapper": "highschool_qe/sympywrapper.py", "cachedsympywrapper": "highschool_qe/cachedsympywrapper.py",
    "grf": "GRF/grf.sage", "smt2": "GRF/smt2.py", "local_search": "GRF/local_search.py",
}

class FrontError(Exception):
    pass

class Node(object):
    __slots__ = ("_t", "d", "lineno", "file")
    def __init__(self, t, d, lineno, file):
        self._t = t; self.d = d; self.lineno = lineno; self.file = file
    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)
    def get(self, k, default=None):
        return self.d.get(k, default)
    def __repr__(self):
        return "<%s %s:%s>" % (self._t, self.file, self.lineno)

def build(j, file):
    if isinstance(j, list):
        return [build(x, file) for x in j]
    if isinstance(j, dict):
        if "_n" in j:
            if j["_n"] == "int": return int(j["v"])
            if j["_n"] == "float": return float(j["v"])
            return ("other", j["v"])
        t = j["_t"]
        return Node(t, {k: build(v, file) for k, v in j.items() if k not in ("_t", "lineno")}, j.get("lineno", 0), file)
    return j

def all_sources():
    """every module of the repository: the named units plus any further .py/.sage file found"""
    units = dict(UNITS)
    known = set(units.values())
    extra = {}
    for root in ("vts", "highschool_qe", "GRF"):
        top = os.path.join(REPO, root)
        for dp, dn, fn in os.walk(top):
            if "Examples" in dp or "/cache" in dp:
                continue
            for f in sorted(fn):
                rel = os.path.relpath(os.path.join(dp, f), REPO)
                if rel in known or not f.endswith(".py"):
                    continue
                base = os.path.basename(rel)[:-3]
                if base.startswith("test") or base.endswith("test") or base.endswith(" - Copy") or base.startswith("#"):
                    continue
                if base in ("examples", "imports", "qe_imports"):
                    continue
                extra.setdefault(base, rel)
    for b, r in extra.items():
        if b not in units:
            units[b] = r
    return units

def load(cache_dir=None):
    units = {n: p for n, p in all_sources().items() if os.path.exists(os.path.join(REPO, p))}
    missing = [p for n, p in UNITS.items() if n not in units]
    h = hashlib.sha256()
    for n in sorted(units):
        h.update(n.encode()); h.update(open(os.path.join(REPO, units[n]), "rb").read())
    h.update(open(os.path.join(os.path.dirname(__file__), "dump_ast.py"), "rb").read())
    key = h.hexdigest()
    js = None
    if cache_dir:
        cp = os.path.join(cache_dir, key + ".json")
        if os.path.exists(cp):
            try:
                js = json.load(open(cp))
            except ValueError:
                js = None
    if js is None:
        tmp = tempfile.mkdtemp(prefix="sa_front_")
        try:
            lst = os.path.join(tmp, "list"); out = os.path.join(tmp, "out.json")
            with open(lst, "w") as f:
                for n in sorted(units):
                    f.write("%s\t%s\n" % (n, os.path.join(REPO, units[n])))
            env = dict(os.environ); env["PYTHONDONTWRITEBYTECODE"] = "1"
            r = subprocess.run([JYTHON, os.path.join(os.path.dirname(os.path.abspath(__file__)), "dump_ast.py"), lst, out],
                               cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0 or not os.path.exists(out):
                raise FrontError("parser failed: " + r.stdout.decode("latin-1")[-2000:])
            js = json.load(open(out))
            if cache_dir:
                os.makedirs(cache_dir, exist_ok=True)
                tmpc = os.path.join(cache_dir, key + ".tmp%d" % os.getpid())
                json.dump(js, open(tmpc, "w")); os.rename(tmpc, os.path.join(cache_dir, key + ".json"))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    mods = {}
    for n, j in js.items():
        if "_error" in j:
            raise FrontError("syntax error in %s: %s" % (units[n], j["_error"]))
        mods[n] = build(j, units[n])
    return mods, units, missing, key

if __name__ == "__main__":
    m, u, miss, k = load()
    print(sorted(u.items()), miss)
