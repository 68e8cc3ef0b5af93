#!/usr/bin/env python3
"""tools/mutate.py WORKDIR N SEED [file-regex]: small random changes to a scratch copy of /repo; prints which checks notice each.

Works only in WORKDIR (a copy of /repo).  A change is skipped when it does not compile or fails the stable tests."""
import json, os, random, re, subprocess, sys, time
W, N, SEED = sys.argv[1], int(sys.argv[2]), sys.argv[3]; FR = re.compile(sys.argv[4] if len(sys.argv) > 4 else ".")
MAP = [
 (r"rjs_promise.*|rjs_job", ["C05", "C10"]), (r"rjs_generator_opt", ["C06", "C07"]), (r"rjs_async.*", ["C06"]), (r"rjs_weak.*|rjs_final.*", ["C03", "C04"]),
 (r"rjs_gc\.c|rjs_runtime\.c|rjs_context|rjs_native_stack", ["C01", "C02", "C09"]), (r"rjs_module_opt|rjs_module_ns", ["C08", "C17"]),
 (r"rjs_iterator|rjs_array_object|rjs_map_|rjs_set_|rjs_hash_object|rjs_proxy|rjs_reflect|rjs_object_object", ["C10", "C12", "C01"]),
 (r"rjs_typed_array|rjs_array_buffer|rjs_data_view|rjs_int_indexed", ["C11", "C10"]), (r"rjs_atomics|rjs_data_block|rjs_shared|rjs_arch_linux", ["C13", "C14", "C15"]),
 (r"rjs_extension", ["C16"]), (r"rjs_main|rjs_input|rjs_conv|rjs_char", ["C17", "C16"]),
 (r"rjs_string_object|rjs_regexp_object|rjs_json|rjs_error|rjs_function_object|rjs_date_object|rjs_operation|rjs_bc_call|rjs_object\.c", ["C10", "C01"]),
]
def props(f):
    b = os.path.basename(f)
    for r, p in MAP:
        if re.match(r, b): return p
    return None
def sh(c, t=900, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
    except subprocess.TimeoutExpired:
        class R: returncode = 124; stdout = b"timeout"
        return R
orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.decode().split()[0]
base = [h.split()[0] for h in sh("git -C /repo log --format='%H %s'").stdout.decode().split("\n") if h and not h.split(" ", 1)[1].startswith("fix:")][0]
def lines(f):
    """Line numbers that the original repository has."""
    out = sh("git -C /repo blame -l -s %s" % f).stdout.decode("utf-8", "replace").split("\n"); ok = set()
    mine = set(sh("git -C /repo rev-list %s..HEAD" % base).stdout.decode().split())
    for i, l in enumerate(out):
        if l and l.split(" ")[0].lstrip("^") not in mine and l.split(" ")[0] not in mine: ok.add(i)
    return ok
def muts(l):
    s = l.strip()
    if not s or s.startswith(("/*", "*", "//", "#", "RJS_LOG", "assert", "case", "default")): return
    if re.match(r"^[\w>\-\.\[\]]+\s*(=|\+=|-=|\|=)[^=].*;$", s) and not re.match(r"^(size_t|int|RJS_\w+|const|static|struct|uint\w*|double)\b", s): yield "del", re.sub(r"\S.*", ";", l)
    if re.match(r"^\w+ ?\(.*\);$", s) and not s.startswith(("return", "rjs_property_name_deinit", "va_", "rjs_vector_init")): yield "del", re.sub(r"\S.*", ";", l)
    if re.search(r"\w+ ?(\+\+|--);$", s): yield "del", re.sub(r"\S.*", ";", l)
    m = re.match(r"^(\s*(?:\} else )?if \()(.*)\)( \{)?$", l)
    if m:
        c = m.group(2)
        if c.count("(") == c.count(")"):
            if "RJS_ERR" not in c:
                if " && " in c:
                    a, b = c.split(" && ", 1)
                    if a.count("(") == a.count(")"): yield "dropl", m.group(1) + b + ")" + (m.group(3) or ""); yield "dropr", m.group(1) + a + ")" + (m.group(3) or "")
                elif " || " in c:
                    a, b = c.split(" || ", 1)
                    if a.count("(") == a.count(")"): yield "dropl", m.group(1) + b + ")" + (m.group(3) or ""); yield "dropr", m.group(1) + a + ")" + (m.group(3) or "")
                else: yield "false", m.group(1) + "0 && (" + c + "))" + (m.group(3) or ""); yield "true", m.group(1) + "1 || (" + c + "))" + (m.group(3) or "")
            if re.search(r" [<>]=? ", c):
                yield "rel", m.group(1) + re.sub(r" ([<>])(=?) ", lambda x: " " + x.group(1) + ("" if x.group(2) else "=") + " ", c, count=1) + ")" + (m.group(3) or "")
    if s == "goto end;" or s == "break;": return
    m = re.match(r"^(\s*)(.*\b)(RJS_TRUE|RJS_FALSE)(\b.*;)$", l)
    if m: yield "bool", m.group(1) + m.group(2) + ("RJS_FALSE" if m.group(3) == "RJS_TRUE" else "RJS_TRUE") + m.group(4)
    m = re.match(r"^(.*[^\w])(\d)(\)?[,;].*)$", l)
    if m and "rjs_argument_get" not in l: yield "num", m.group(1) + str(int(m.group(2)) + 1) + m.group(3)
files = [f for f in sh("git -C /repo ls-files 'src/*.c'").stdout.decode().split() if props(f) and FR.search(f)]
rng = random.Random(SEED); cand = []
for f in files:
    L = open(os.path.join(W, f), errors="surrogateescape").read().split("\n"); ok = lines(f)
    for i, l in enumerate(L):
        if i in ok:
            for k, n in muts(l): cand.append((f, i, k, n))
rng.shuffle(cand); print(len(cand), "candidates in", len(files), "files", flush=True)
bs = open("/opt/vp/build.sh").read(); ts = open("/opt/vp/test.sh").read()
done = 0; env = dict(os.environ, RATJS_REPO=W, VERIF_SEED=str(rng.randrange(1, 1000)))
exp = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])) or [])
for f, i, k, n in cand:
    if done >= N: break
    p = os.path.join(W, f); t0 = open(p, errors="surrogateescape").read(); L = t0.split("\n"); old = L[i]; L[i] = n
    open(p, "w", errors="surrogateescape").write("\n".join(L))
    try:
        pass
        tst = sh("bash /tmp/muttest.sh %s" % W, 120)
        if tst.returncode: continue
        done += 1; res = []
        for q in props(f):
            a = time.time(); r = sh("%s /verif/check.py %s --tier quick" % (sys.executable, q), 900, cwd="/verif", env=env)
            res.append("%s:%s(%ds)" % (q, {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "rc%d" % r.returncode), time.time() - a))
            if r.returncode: break
        print("%s %s:%d %s\n    - %s\n    + %s\n    %s" % ("CAUGHT" if r.returncode == 1 else "MISSED", f, i + 1, k, old.strip(), n.strip(), " ".join(res)), flush=True)
    finally:
        open(p, "w", errors="surrogateescape").write(t0)
