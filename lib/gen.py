"""Random types, values, layouts and byte strings (inputs only: the oracle is the specification)."""
INTK = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
        "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**63 - 1)}
PRIM = ["unit", "ustruct", "bool", "char", "u8", "f32", "f64", "str"] + list(INTK)
LABELS = ["A", "B", "Bc", "Foo", "None", "Some", "x", "Zz9", "Q_1", "ab'c"[:4], "One", "Two"]

def T(k, a=(), v=()):
    return {"k": k, "a": list(a), "v": list(v)}

def rtype(r, depth):
    if depth <= 0 or r.random() < 0.25:
        return T(r.choice(PRIM))
    k = r.choice(["opt", "seq", "tuple", "tstruct", "struct", "newtype", "enum", "poly", "struct", "tuple"])
    if k in ("opt", "seq", "newtype"):
        return T(k, [rtype(r, depth - 1)])
    if k in ("tuple", "tstruct", "struct"):
        return T(k, [rtype(r, depth - 1) for _ in range(r.randint(2 if k != "struct" else 0, 4))])
    n = r.randint(1, 5)
    if k == "enum":
        n = r.choice([1, 2, 3, 5, 9])
        if depth == 1 and r.random() < 0.25:
            return wide_enum(r)
    labels = r.sample(LABELS, min(n, len(LABELS)))
    vs = []
    for l in labels:
        s = r.choice(["unit", "newtype", "tuple", "struct"])
        a = [] if s == "unit" else [rtype(r, depth - 1) for _ in range(1 if s == "newtype" else r.randint(2, 3))]
        vs.append({"s": s, "n": [ord(c) for c in l], "a": a})
    return T(k, [], vs)

def wide_enum(r):
    shape = lambda i: r.choice(["unit", "unit", "newtype"]) if i > 125 else "unit"
    vs = []
    for i in range(r.choice([127, 128, 129, 200, 255, 256])):
        s = shape(i)
        vs.append({"s": s, "n": [ord(c) for c in "V%d" % i], "a": [T("bool")] if s == "newtype" else []})
    return T("enum", [], vs)

def le8(x):
    return list((x & (2**64 - 1)).to_bytes(8, "little"))

def rint(r, lo, hi):
    m = r.random()
    if m < 0.7:
        e = r.choice([7, 8, 15, 16, 31, 32, 63, 0, 6, 14])
        x = (1 << e) + r.randint(-2, 2)
        if r.random() < 0.5:
            x = -x
    else:
        x = r.getrandbits(r.randint(1, 64))
        if r.random() < 0.5:
            x = -x
    return x if lo <= x <= hi else r.choice([lo, hi, r.randint(lo, hi), min(hi, max(lo, 0))])

def rstr(r, small):
    n = r.choice([0, 1, 2, 5] if small else [0, 1, 3, 20, 126, 127, 128, 129, 255, 256, 300])
    s = ""
    while len(s.encode()) < n:
        s += r.choice(["a", "Z", "0", "\0", "\x7f", "é", "ß", "€", "漢", "😀", " ", "\n"])
    return list(s.encode())

def tok(t, b=(), s=""):
    return {"t": t, "b": list(b), "s": s}

def rvalue(r, ty, out, size=40):
    k = ty["k"]
    small = len(out) > size
    if k in ("unit", "ustruct"):
        out.append(tok("unit"))
    elif k == "bool":
        out.append(tok("bool", [r.randint(0, 1)]))
    elif k == "char":
        out.append(tok("char", [r.choice([0, 65, 127, 128, 255, r.randint(0, 255)])]))
    elif k == "u8":
        out.append(tok("u8", [r.choice([0, 127, 128, 252, 253, 254, 255, r.randint(0, 255)])]))
    elif k in INTK:
        out.append(tok("int", le8(rint(r, *INTK[k]))))
    elif k == "f32":
        out.append(tok("f32", rfloat(r, 4)))
    elif k == "f64":
        out.append(tok("f64", rfloat(r, 8)))
    elif k == "str":
        out.append(tok("str", rstr(r, small)))
    elif k == "opt":
        if r.random() < 0.35:
            out.append(tok("none"))
        else:
            out.append(tok("some"))
            rvalue(r, ty["a"][0], out, size)
    elif k == "seq":
        n = r.choice([0, 1]) if small else r.choice([0, 1, 2, 3, 5])
        if not small and ty["a"][0]["k"] in ("u8", "bool", "unit", "char") and r.random() < 0.2:
            n = r.choice([127, 128, 200])
        out.append(tok("seq", le8(n)))
        for _ in range(n):
            rvalue(r, ty["a"][0], out, size)
    elif k in ("newtype", "tuple", "tstruct", "struct"):
        for t in ty["a"]:
            rvalue(r, t, out, size)
    elif k in ("enum", "poly"):
        n = len(ty["v"])
        i = r.choice([126, 127, 128, n - 1, n - 2, r.randrange(n)]) if n > 128 else r.randrange(n)
        v = ty["v"][i]
        out.append(tok("var", [i]) if k == "enum" else tok("poly", v["n"]))
        for t in v["a"]:
            rvalue(r, t, out, size)
    else:
        raise ValueError(k)
    return out

def rfloat(r, n):
    # NaN payloads are exercised as bytes too, quiet ones only (signalling NaNs may be quieted by the FPU)
    b = [r.choice([0, 1, 128, 255, r.randint(0, 255)]) for _ in range(n)]
    if n == 4 and (b[3] & 127) == 127 and b[2] >= 128:
        b[2] |= 64
    if n == 8 and (b[7] & 127) == 127 and (b[6] >> 4) == 15:
        b[6] |= 8
    return b

def mutate(r, b):
    b = list(b)
    for _ in range(r.randint(1, 3)):
        m = r.random()
        if b and m < 0.5:
            b[r.randrange(len(b))] = r.choice([0, 1, 2, 3, 127, 128, 129, 250, 251, 252, 253, 254, 255, r.randint(0, 255)])
        elif b and m < 0.65:
            b = b[:r.randrange(len(b))]
        elif m < 0.8:
            b.insert(r.randint(0, len(b)), r.choice([0, 1, 128, 252, 253, 254, 255]))
        elif b and m < 0.9:
            del b[r.randrange(len(b))]
        else:
            b.append(r.randint(0, 255))
    return b

# --------------------------------------------------------------------- layouts
FIELDS = ["first", "second", "x", "y", "blob", "A", "deep_field"]
PATHS = ["Foo.Bar", "", "State_hash", "Ledger_hash0", "Pickles_types.Vector.Vector2", "Pickles_types.Vector.Vector4",
         "Pickles_type.Vector.Vector2", "Epoch_seed", "Snark_params.Tick", "Pending_coinbase.Stack_hash",
         "State_body_hash", "Pending_coinbase.Hash_builder", "Snark_params.Make_inner_curve_scalar",
         "Zexe_backend.Zexe_backend_common.Stable.Field", "Pending_coinbase.Coinbase_stack",
         "Pickles_types.Vector.Vector8", "Pickles_types.Vector.Vector17", "Pickles_types.Vector.Vector18"]

def rrule(r, depth, hashes=(3953222, 4203884, 65537, 1000000, 2147483, 1073741824, 1500000000, 2147483647)):
    leaf = ["Unit", "Bool", "Char", "Int", "Int32", "Int64", "Native_int", "Float", "String"]
    if depth <= 0 or r.random() < 0.2:
        if r.random() < 0.04:
            return r.choice([["Nat0"], ["Bigstring"], ["Custom", []], ["Vec", 3, ["Bool"]], ["Type_var", "a"]])
        return [r.choice(leaf)]
    k = r.choice(["Option", "List", "Tuple", "Record", "Sum", "Polyvar", "Ref", "Record", "Tuple", "Sum"])
    sub = lambda: rrule(r, depth - 1, hashes)
    if k in ("Option", "List"):
        return [k, sub()]
    if k == "Tuple":
        return [k, [sub() for _ in range(r.randint(0, 3))]]
    if k == "Record":
        return [k, [{"field_name": n, "field_rule": sub()} for n in r.sample(FIELDS, r.randint(0, 4))]]
    if k == "Sum" and depth == 1 and r.random() < 0.12:
        return [k, [{"ctor_name": "C%d" % i, "index": i, "ctor_args": [["Bool"]] if i % 5 == 3 else []}
                    for i in range(r.choice([128, 129, 200, 255, 256]))]]
    if k == "Sum":
        return [k, [{"ctor_name": "C%d" % i, "index": i, "ctor_args": [sub() for _ in range(r.randint(0, 2))]}
                    for i in range(r.randint(1, 4))]]
    if k == "Polyvar":
        hs = r.sample(hashes, r.randint(1, 3))
        if r.random() < 0.2:        # the first of several with one tag is meant
            hs.insert(r.randint(0, len(hs)), r.choice(hs))
        return [k, [["Tagged", {"polyvar_name": "P%d_%d" % (h, i), "hash": h, "polyvar_args": [sub() for _ in range(r.randint(0, 2))]}]
                    for i, h in enumerate(hs)]]
    p = r.choice(PATHS)
    inner = ["Custom", [sub()]] if r.random() < 0.6 else sub()
    d = {"source_type_decl": "t", "source_module_path": p, "bin_io_derived": True, "ref_rule": inner}
    if r.random() < 0.1:
        del d["source_module_path"]
    return ["Reference", ["Resolved", d]]

VEC = {"Pickles_type.Vector.Vector2": 2, "Pickles_types.Vector.Vector2": 2, "Pickles_types.Vector.Vector4": 4,
       "Pickles_types.Vector.Vector8": 8, "Pickles_types.Vector.Vector17": 17, "Pickles_types.Vector.Vector18": 18}
def renc_int(r):
    m = r.random()
    if m < 0.4: return [r.randint(0, 127)]
    if m < 0.55: return [255, r.randint(0, 255)]
    if m < 0.75: return [254] + [r.randint(0, 255) for _ in range(2)]
    if m < 0.9: return [253] + [r.randint(0, 255) for _ in range(4)]
    return [252] + [r.randint(0, 255) for _ in range(8)]

def renc(r, rule, path, budget):
    """Bytes that plausibly follow the rule (validity is judged by the specification)."""
    out = []
    st = {"p": path}
    def go(rule):
        k = rule[0]
        if len(out) > budget: return
        if k == "Unit": out.append(0)
        elif k == "Bool": out.append(r.randint(0, 1))
        elif k == "Char": out.append(r.randint(0, 255))
        elif k in ("Int", "Int32", "Int64", "Native_int"): out.extend(renc_int(r))
        elif k == "Float": out.extend(rfloat(r, 8))
        elif k == "String":
            n = r.choice([0, 1, 4, 9, 130 if r.random() < 0.05 else 2])
            out.extend([n] if n < 128 else [254, n & 255, n >> 8])
            out.extend(r.randint(0, 255) for _ in range(n))
        elif k == "Option":
            b = r.randint(0, 1); out.append(b)
            if b: go(rule[1])
        elif k == "List":
            n = r.choice([0, 1, 2, 3])
            if rule[1][0] in ("Unit", "Bool", "Char", "Int") and r.random() < 0.2:
                n = r.choice([20, 127, 128, 129, 260])
            out.extend([n] if n < 128 else [254, n & 255, n >> 8])
            for _ in range(n): go(rule[1])
        elif k == "Tuple":
            for x in rule[1]: go(x)
        elif k == "Record":
            for f in rule[1]: go(f["field_rule"])
        elif k == "Sum":
            n = len(rule[1])
            i = r.choice([126, 127, 128 % n, n - 1, r.randrange(n)]) if n > 127 else r.randrange(n); out.append(i)
            for x in rule[1][i]["ctor_args"]: go(x)
        elif k == "Polyvar":
            v = r.choice(rule[1])[1]
            out.extend(((v["hash"] << 1) | 1).to_bytes(4, "little"))
            for x in v["polyvar_args"]: go(x)
        elif k == "Reference":
            if rule[1][0] == "Resolved":
                st["p"] = rule[1][1].get("source_module_path", "")
                go(rule[1][1]["ref_rule"])
        elif k == "Custom":
            p = st["p"]
            if p in VEC and rule[1]:
                for _ in range(VEC[p]): go(rule[1][0])
                out.append(0)
            elif p is not None:
                out.extend(r.randint(0, 255) for _ in range(32))
    go(rule)
    return out
