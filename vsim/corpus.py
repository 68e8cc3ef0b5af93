import os, re, glob
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = os.path.join(HERE, "..", "corpus")
def load(patterns=("*.js",)):
    out = {}
    for p in patterns:
        for f in sorted(glob.glob(os.path.join(DIR, p))):
            name = None
            for line in open(f, encoding="utf-8"):
                m = re.match(r"//@ (\S+)(.*)", line)
                if m:
                    name = m.group(1); flags = m.group(2).split(); out[name] = {"src": "", "flags": flags, "file": os.path.basename(f)}
                elif name:
                    out[name]["src"] += line
    return out
