"""Conformance suites for the two command line tools, run as processes in a scratch directory."""
from concurrent.futures import ThreadPoolExecutor
from core import *
from bp import short, THOROUGH

_bins = None
def bins():
    global _bins
    if _bins is None:
        _bins = cargo_build("cli", ["bin-prot-layout-reader", "bin_prot_checker"])
    return _bins

def call(argv, data=b"", timeout=120, out=None):
    e = dict(os.environ, RUST_LOG="error", RUST_BACKTRACE="0")
    try:
        p = subprocess.run(argv, input=data, stdout=open(out, "wb") if out else subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout,
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30)))
        return p.returncode, p.stdout or b"", p.stderr
    except subprocess.TimeoutExpired:
        return "HANG", b"", b""

def signed(b):
    return int.from_bytes(bytes(b), "little", signed=True)

def debug_value(t, i=0):
    """Debug form of a bin_prot Value, without white space."""
    k = t[i]
    n = k["t"]
    if n == "unit": return "Unit", i + 1
    if n == "bool": return "Bool(%s)" % ("true" if k["b"][0] else "false"), i + 1
    if n == "char": return "Char(%d)" % k["b"][0], i + 1
    if n == "int": return "Int(%d)" % signed(k["b"]), i + 1
    if n == "none": return "Option(None)", i + 1
    if n == "some":
        s, j = debug_value(t, i + 1)
        return "Option(Some(%s))" % s, j
    if n in ("list", "tup"):
        cnt = signed(k["b"]) if n == "list" else k["b"][0]
        j, o = i + 1, []
        for _ in range(cnt):
            s, j = debug_value(t, j)
            o.append(s)
        return "%s([%s])" % ("List" if n == "list" else "Tuple", ",".join(o)), j
    if n == "rec":
        j, o = i + 1, []
        for _ in range(k["b"][0]):
            name = t[j]["s"]
            s, j = debug_value(t, j + 1)
            o.append('("%s",%s)' % (name, s))
        return "Record([%s])" % ",".join(o), j
    if n == "sum":
        s, j = debug_value(t, i + 1)
        return 'Sum{name:"%s",index:%d,value:%s}' % (k["s"], k["b"][0], s), j
    raise ToolError("no debug form for " + n)

def norm(text):
    s = re.sub(r"\s+", "", text)
    return re.sub(r",([)\]}])", r"\1", s)

def suite_reader(rep, kinds):
    cases, r = tlc_export("MC_Cli", workers=1)
    rep.spec("MC_Cli", r)
    reader = bins()[0]
    d = tempfile.mkdtemp(dir=scratch())
    lay = {}
    for c in cases:
        k = json.dumps(c["rule"])
        if k not in lay:
            lay[k] = os.path.join(d, "layout%d.json" % len(lay))
            os.mkdir(lay[k] + ".dir")
            text = json.dumps(dict(layout_loc="l", version_opt=None, type_decl="t", bin_io_derived=True, bin_prot_rule=c["rule"]))
            for name, t in (("", text), (".empty", ""), (".no", text.replace("bin_prot_rule", "bin_prot_rules")), (".cut", text[:-1])):
                open(lay[k] + name, "w").write(t)
    def one(ic):
        i, c = ic
        f = os.path.join(d, "in%d" % i)
        o = os.path.join(d, "out%d" % i)
        open(f, "wb").write(bytes(c["file"]))
        l, ft = lay[json.dumps(c["rule"])], c["fault"]
        l += {"layout missing": ".missing", "layout is a directory": ".dir", "layout is empty": ".empty", "layout is no layout": ".no",
              "layout is cut": ".cut"}.get(ft, "")
        if ft == "data missing": f = os.path.join(d, "missing")
        if ft == "data is a directory": f = l + ".dir"
        argv = [reader, l, f]
        if c["flag"]: argv.append("--roundtrip" if i % 2 else "-r")
        if c["sink"] == "no directory": o = os.path.join(d, "nowhere", "out")
        if c["sink"] == "longer file": open(o, "w").write("?" * 5000)
        if c["sink"] != "stdout": argv += ["--output" if i % 2 else "-o", o]
        code, out, err = call(argv)
        text = None
        if c["sink"] != "stdout":
            text = open(o).read() if os.path.exists(o) else ""
        res = dict(code=code, out=out.decode("utf8", "replace"), file=text)
        for x in (os.path.join(d, "in%d" % i), o):
            if os.path.exists(x): os.unlink(x)
        return res
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(cases)))
    rep.ran("MC_Cli", len(cases), traces=len(cases))
    for c, x in zip(cases, res):
        if c["out"] == "fail":
            good = x["code"] not in (0, "HANG") and not norm(x["out"]) and x["file"] in (None, "", "?" * 5000)
        else:
            want = debug_value(c["toks"])[0]
            if c["sink"] != "stdout":
                good = x["code"] == 0 and norm(x["file"]) == want and not norm(x["out"])
            else:
                good = x["code"] == 0 and norm(x["out"]) == want
        if not good:
            rep.violation("cli", "layout reader on file %s with layout %s%s%s, to %s: specification %s, command %s"
                          % (short(c["file"]), short(c["rule"]), "" if c["fault"] == "none" else " (" + c["fault"] + ")", " --roundtrip" if c["flag"] else "", c["sink"], c["out"], short(x)),
                          dict(harness="cli", case=c, observed=x, expected=c["out"]))
    rep.sample(dict(spec_behaviour=cases[len(cases) // 2], command=res[len(cases) // 2]))
    # files larger than any buffer: a string of n bytes, raw and in hexadecimal
    lf, inf, outf = (os.path.join(d, n) for n in ("string.json", "big", "bigout"))
    open(lf, "w").write(json.dumps(dict(layout_loc="l", version_opt=None, type_decl="t", bin_io_derived=True, bin_prot_rule=["String"])))
    for n, hexa in ((9000, False), (66000, True), (700000, True), (1100000, False)) + (((5000000, False),) if THOROUGH else ()):
        body = bytes(33 + i % 89 for i in range(n))
        data = (bytes([254]) + n.to_bytes(2, "little") if n < 65536 else bytes([253]) + n.to_bytes(4, "little")) + body
        open(inf, "wb").write(data.hex().encode() if hexa else data)
        code, out, err = call([reader, "-r", lf, inf, "-o", outf])
        got = open(outf).read() if os.path.exists(outf) else ""
        rep.ran("large", 1, traces=1)
        if code != 0 or norm(got) != "List([%s])" % ",".join("Char(%d)" % b for b in body):
            rep.violation("cli", "layout reader on a string of %d bytes%s: exit code %s, %d characters printed" % (n, " in hexadecimal" if hexa else "", code, len(got)),
                          dict(harness="cli", case=dict(n=n, hex=hexa), observed=dict(code=code, out=got[-200:], err=err.decode("utf8", "replace")[-300:]), expected="the string"))
        if os.path.exists(outf): os.unlink(outf)

def show_checker(test, t):
    if test == "nat0": return str(signed(t[0]["b"]))
    E = "ABC"
    prim = lambda k: str(signed(k["b"])) if k["t"] == "int" else ("true" if k["b"][0] else "false") if k["t"] == "bool" else E[k["b"][0]]
    if test in ("bool", "int", "int32", "int64", "enum"): return prim(t[0])
    if test == "record": return "S { a: %s, b: %s, c: %s }" % tuple(prim(k) for k in t)
    return "%s(%s)" % (E[t[0]["b"][0]], prim(t[1]))

def suite_checker(rep, kinds):
    cases, r = tlc_export("MC_Checker")
    rep.spec("MC_Checker", r)
    chk = bins()[1]
    d = tempfile.mkdtemp(dir=scratch())
    def one(ic):
        i, c = ic
        f = os.path.join(d, "f%d" % i)
        argv = [chk, "--test", c["test"]]
        via, path = c["via"], None
        if via in ("file", "longer file"): path = f
        if via in ("no directory", "missing file"): path = os.path.join(d, "nowhere", "f")
        if via == "full device": path = "/dev/full"
        if via == "directory": path = d
        if via == "longer file": open(f, "wb").write(b"?" * 300)
        argv += (["--path", path] if path else []) + ["serialize" if c["mode"] == "write" else "deserialize"]
        if via == "file" and c["mode"] == "read": open(f, "wb").write(bytes(c["in"]))
        code, out, err = call(argv, bytes(c["in"]) if c["mode"] == "read" and via == "pipe" else b"", out="/dev/full" if via == "full pipe" else None)
        x = dict(code=code, text=out.decode("utf8", "replace"))
        if c["mode"] == "write":
            x["bytes"] = list(out) if via == "pipe" else list(open(f, "rb").read()) if os.path.exists(f) else None
            if via == "pipe": x["text"] = ""
        if os.path.exists(f): os.unlink(f)
        return x
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, enumerate(cases)))
    rep.ran("MC_Checker", len(cases), traces=len(cases))
    for c, x in zip(cases, res):
        if c["st"] == "fail":
            good = x["code"] not in (0, "HANG") and "Wrote" not in x["text"] and "Deserialized value" not in x["text"]
        elif c["mode"] == "write":
            good = x["code"] == 0 and x["bytes"] == c["in"] and (c["via"] == "pipe" or "Wrote %d bytes" % len(c["in"]) in x["text"])
        elif c["st"] == "ok":
            good = x["code"] == 0 and x["text"].strip() == "Deserialized value: " + show_checker(c["test"], c["toks"])
        else:
            good = x["code"] not in (0, "HANG") and "Deserialized value" not in x["text"]
        if not good:
            rep.violation("cli", "checker %s %s %s (%s): specification %s, command %s" % (c["mode"], c["test"], c["in"], c["via"], c["st"], short(x)),
                          dict(harness="cli", case=c, observed=x, expected=c["st"]))
    rep.sample(dict(spec_behaviour=cases[len(cases) // 2], command=res[len(cases) // 2]))
