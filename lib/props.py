"""Which suites decide which property, and the probes of the known findings."""
import os, re
import core, bp, gen, ver, cli, mer, chain, net, text, blocks, node, web, crawler, genesis, p2p, parts

def binary(name):
    return {"bp": bp.bp, "ver": ver.ver, "merkle": mer.mer, "chain": chain.chain, "net": net.net, "node": node.node, "web": web.web, "p2p": p2p.p2p}[name]()

def build_all():
    bp.bp()
    ver.ver()
    cli.bins()
    mer.mer()
    chain.chain()
    net.net()
    node.node()
    web.web()
    crawler.crawler()
    p2p.p2p()

PANIC = {"panic"}
PROPS = {
    "C01": dict(suites=[(bp.suite_write_exhaustive, {"bytes"}), (bp.suite_big, {"big"}), (bp.suite_write_random, {"bytes"}), (bp.suite_with, {"bytes"})]),
    "C02": dict(suites=[(bp.suite_roundtrip, {"roundtrip"}), (bp.suite_big, {"big", "panic"})]),
    "C03": dict(suites=[(bp.suite_read_exhaustive, {"accept", "reject", "value", "count", "class", "entry", "trace"}),
                        (bp.suite_read_random, {"trace"}), (bp.suite_big, {"big"})]),
    "C04": dict(suites=[(bp.suite_hostile, PANIC), (bp.suite_read_exhaustive, PANIC), (bp.suite_read_random, PANIC)]),
    "C05": dict(suites=[(bp.suite_read_exhaustive, {"strict"}), (bp.suite_strict, {"strict"})]),
    "C06": dict(suites=[(bp.suite_io, {"io"})]),
    "C07": dict(suites=[(bp.suite_loose_exhaustive, {"accept", "reject", "value", "count", "re", "class"}),
                        (bp.suite_loose_random, {"trace"}), (bp.suite_value_write, {"re"}), (bp.suite_fixtures, {"re", "reject", "trace"}), (bp.suite_big_loose, {"big", "panic"})]),
    "C08": dict(suites=[(bp.suite_loose_hostile, PANIC), (bp.suite_loose_exhaustive, PANIC), (bp.suite_loose_random, PANIC),
                        (bp.suite_fixtures, PANIC)]),
    "C09": dict(suites=[(bp.suite_hybrid, {"hybrid", "panic"})]),
    "C10": dict(suites=[(bp.suite_poly, {"poly"})]),
    "C11": dict(suites=[(bp.suite_layout_json, {"json"})]),
    "C12": dict(suites=[(bp.suite_index, {"index"})]),
    "C13": dict(suites=[(bp.suite_prim, {"prim", "ret", "bytes", "panic"})]),
    "C14": dict(suites=[(ver.suite_versioned, None)]),
    "C15": dict(suites=[(ver.suite_autofrom, None)]),
    "C16": dict(suites=[(cli.suite_reader, None)]),
    "C17": dict(suites=[(cli.suite_checker, None)]),
    "C18": dict(suites=[(mer.suite_history, {"root"}), (mer.suite_random, {"root"})]),
    "C19": dict(suites=[(mer.suite_proofs, {"proof", "forged"}), (mer.suite_history, {"proof"}), (mer.suite_random, {"proof"})]),
    "C20": dict(suites=[(mer.suite_paths, {"path", "meta"})]),
    "C21": dict(suites=[(chain.suite_fork, {"select"})]),
    "C22": dict(suites=[(chain.suite_fork, {"range", "density"})]),
    "C23": dict(suites=[(chain.suite_chain, {"build"})]),
    "C24": dict(suites=[(chain.suite_signed, {"signed", "input", "verify", "block"})]),
    "C27": dict(suites=[(chain.suite_signed, {"built", "memo", "text"})]),
    "C25": dict(suites=[(net.suite_frontier, {"frontier"})]),
    "C26": dict(suites=[(net.suite_schedule, {"schedule"})]),
    "C28": dict(suites=[(text.suite_graphql, {"graphql"}), (text.suite_answer, {"answer"})]),
    "C29": dict(suites=[(chain.suite_input, {"hash"}), (chain.suite_pack, {"hash"})]),
    "C30": dict(suites=[(text.suite_textform, {"form"})]),
    "C31": dict(suites=[(text.suite_base58, {"kind"})]),
    "C32": dict(suites=[(blocks.suite_blocks, None), (blocks.suite_blockform, None)]),
    "C34": dict(suites=[(node.suite_wallet, {"open", "import", "export"})]),
    "C35": dict(suites=[(node.suite_account, {"account"}), (node.suite_ledger, {"walk"})]),
    "C36": dict(suites=[(web.suite_backend, {"backend"}), (web.suite_fetch, {"fetch"})]),
    "C37": dict(suites=[(web.suite_page, {"page"})]),
    "C38": dict(suites=[(crawler.suite_crawler, {"crawl"})]),
    "C39": dict(suites=[(genesis.suite_genesis, None)]),
    "C40": dict(suites=[(p2p.suite_status, {"status"}), (p2p.suite_transport, {"transport"})]),
    "C41": dict(suites=[(parts.suite_parts, {"parts"})]),
    "C33": dict(suites=[(blocks.suite_blockjson, None), (blocks.suite_blockbytes, None)]),
}

def run(rep, p):
    for s, kinds in p["suites"]:
        s(rep, kinds)

# ------------------------------------------------------------------------- known findings
# each probe reproduces exactly one listed finding; it suppresses nothing else
def one(op):
    return core.run_cases(bp.bp(), [op], mem_gb=2)[0]
def p_long_label():
    return one(dict(op="hash", label="Three"))["err"] == "PANIC"
def p_u64():
    e = one(dict(op="enc", ty=gen.T("u64"), toks=[gen.tok("int", [255] * 8)]))
    return e["ok"] and not one(dict(op="dec", ty=gen.T("u64"), **{"in": e["out"]}))["ok"]
def p_char():
    e = one(dict(op="charenc", c=0x100))
    return e["ok"] and e["out"] == [0]
def p_with():
    return one(dict(op="with", f="integer", x=gen.le8(5)))["back"] == "WontImplement"
def p_map_read():
    return one(dict(op="mapdec", **{"in": [252] + [255] * 7 + [127]}))["err"] in ("PANIC", "CRASH")
def p_map_write():
    return one(dict(op="mapenc"))["err"] == "PANIC"
def p_pv_small():
    e = one(dict(op="venc", toks=[dict(t="pv", b=[5, 0, 0, 0], s="x"), dict(t="tup", b=[0], s="")]))
    return e["ok"] and e["out"] == [5]

def p_density():
    b = dict(len=5, vrf=2, hash=2, epoch=3, slk=1, nlk=1, slot=22000, spe=7140, mwd=77, win=[6] * 11)
    return core.run_cases(chain.chain(), [dict(op="fork", tip=b, cands=[dict(b, slk=2)])])[0]["dens"] == [60, 60]

def p_state_hash():
    cases, _ = core.tlc_export("MC_StateInput", {"MaxDev": 0}, timeout=300, workers=1)
    s = [c["s"] for c in cases if c["net"] == "legacy"][0]
    run = lambda h: core.run_cases(chain.chain(), [dict(op="stateinput", net="legacy", s=dict(s, previous=h), uri=[], zkapp=[])])[0]
    return run("05" + "00" * 31).get("ok") and run("ff" * 32).get("err") == "PANIC"

def blk(leaf, v, paths):
    d, n = blocks.Draw(core.rng("probe")), None
    while n is None:
        b = d.document()
        n = next((n for n in blocks.parse(b).all() if leaf(n)), None)
    r = core.run_cases(chain.chain(), [dict(op="document", doc=b.hex(), patch=[[n.s, n.e, v.hex()]], paths=paths)])[0]["runs"]
    return [(x[-1]["st"], x[-1].get("wire") == b.hex()) for x in r]
def p_version_tag():
    return blk(lambda n: n.path[-1:] == ("version",) and "previous_state_hash" in n.path, b"\2", [["block", "wire"], ["typed", "json", "typed", "wire"]]) == [("ok", True)] * 2
def p_block_key():
    return [x[0] for x in blk(lambda n: n.path[-1:] == ("x",) and "block_creator" in n.path, b"\xff" * 32, [["block"], ["typed", "json"]])] == ["PANIC"] * 2
def p_block_signature():
    return blk(lambda n: "signature" in n.path and n.kind == "Custom", b"\xff" * 32, [["block"]])[0][0] == "PANIC"

PROBES = dict(dropped_account=node.dropped_account, noncanonical_key=node.noncanonical_key, version_tag=p_version_tag, block_key=p_block_key, block_signature=p_block_signature, state_hash=p_state_hash, density=p_density, long_label=p_long_label, u64=p_u64, char=p_char, with_adapters=p_with, map_read=p_map_read,
              map_write=p_map_write, pv_small=p_pv_small)

def probe_findings(rep, prop):
    f = os.path.join(core.VERIF, "known-findings.txt")
    for line in open(f):
        m = re.match(r"open: property=(\S+) probe=(\S+) (.*)", line)
        if m and m.group(1) == prop and PROBES[m.group(2)]():
            print("KNOWN-FINDING: property=%s %s" % (prop, m.group(3)))
            rep.known.append(m.group(2))
