"""Example preparation, as specified."""
import examples_parser

def preformat(dirs):
    out = {}
    for d in dirs:
        files = {}
        for f in dirs[d]:
            files[f] = [(examples_parser.make_univariate(e['antecedent']['fmls']), examples_parser.make_univariate(e['succedent']['fmls'])) for e in dirs[d][f]]
        out[d] = files
    return out

def stored(dirs, base):
    """path -> what is there, after storing"""
    import os
    fs = {}
    for d in dirs:
        fs[os.path.join(base, d)] = "dir"
        for f in dirs[d]:
            fs[os.path.join(base, d, f + '.pkl')] = ("pickle", "wb", dirs[d][f])
    return fs

def load_all(collections, base):
    import os
    import pickle
    out = []
    for c in collections:
        for p, ds, fs in os.walk(os.path.join(base, c)):
            for f in fs:
                out.append(pickle.load(open(os.path.join(p, f), 'rb')))
    return out

def load_dir(d):
    import os
    import pickle
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            out[f] = pickle.load(open(os.path.join(p, f), 'rb'))
    return out

def load_dirs(collections, base):
    import os
    return {c: load_dir(os.path.join(base, c)) for c in collections}

def parsed_dir(d):
    import os
    import grf_parser
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            text = open(os.path.join(p, f)).read()
            out[f] = [r for r, s, e in grf_parser.cmd.scanString(text)]
    return out
