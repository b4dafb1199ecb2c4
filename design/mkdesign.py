"""Compose DESIGN.md. Run: /opt/venv/bin/python design/mkdesign.py"""
import glob, importlib, json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
PY = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if PY not in sys.path:
    sys.path.append(PY)

M = {
"C01": ("correct, decoders.mwpm, decoders.unionfind and the stabilizer graphs on an arbitrary symbolic bit per qubit (paths split on the syndrome only, bits stay symbolic inside a path), symbolic erasure sets",
        "after `correct` the XOR of the bits of every parity check, taken from an independent description of the lattice (`_codes.Lattice`), is 0 for all bits of the path"),
"C02": ("the same with symbolic placement of up to t flips and s erasures, 2t+s < d",
        "verdict True, and the residual commutes with every plane of the lattice model"),
"C03": ("check_correction on symbolic residuals constrained to even checks, before and after multiplying by one or two symbolic trivial loops",
        "parities of all parallel planes agree, verdict = AND of plane parities, verdict unchanged by trivial loops; planes from the lattice model"),
"C04": ("SurfaceCode construction and check_correction on a symbolic flip set",
        "GF(2)/z3: no undetected flip set of weight < d fails; every straight chain of weight d is undetected and fails"),
"C05": ("RHG_graph neighbour rule on unbounded symbolic integer vertices; whole lattices with symbolic bits and edge weights",
        "neighbour relation symmetric, degree 4, types alternate, polarity rule; the check operators are the products of cluster stabilizers (sum of neighbours cancels)"),
"C06": ("stabilizer graphs of both backends and their conversion on symbolic background bits, flips and weights",
        "flipping a qubit changes exactly the parities at the ends of the edges that carry it; node and edge sets equal the lattice model's"),
"C07": ("mwpm_decoder with symbolic weights and syndromes",
        "no flip set with the same syndrome is lighter: the alternative set is a second symbolic vector, so the minimality claim is one query per path"),
"C08": ("shortest_paths_* of both backends with symbolic weights",
        "returned paths are paths, their lengths are the sums of their weights, and no symbolic alternative walk is shorter (Bellman inequalities)"),
"C09": ("assign_weights with symbolic labels, outcomes, probabilities, multipliers",
        "weight formula written independently; log and exp uninterpreted"),
"C10": ("Union-Find data structures and growth loop on symbolic histories, parities, boundaries and graphs",
        "reference partition; cluster parity, boundary status, size and root consistency after every step; half-edge accounting in the growth loop"),
"C11": ("spanning forest and peeling on symbolic graphs and parities",
        "the forest spans the grown graph; the peeled set has odd degree exactly at the odd nodes, and contains only forest edges"),
"C12": ("GKP_binner, integer_fractional on symbolic reals",
        "nearest-multiple specification with floor atoms; ties to the even multiple"),
"C13": ("Z_err_cond, Z_err on symbolic variances and outcomes",
        "ratio of the sums of the same exp terms; 0 <= ratio <= 1; elementwise agreement; 0/0 cases under an underflow model; Z_err against bins of erf"),
"C14": ("SCZ_apply, SCZ_mat, permutation and splitter routines on symbolic matrices",
        "agreement of the routes, symplecticity, block structure, group law, the n-mode splitter is the 4-mode one on each block"),
"C15": ("CVLayer state assignment and covariances over symbolic binomial draws, position choices, subsets, delta",
        "the partition is the drawn/requested one; means and covariances per kind; perfect qubits noiseless; earlier applications leave nothing"),
"C16": ("measure_hom and inner decoding with symbolic samples",
        "outcome = CZ image of the sampled quadratures, written to the measured modes only; bits are the translator's"),
"C17": ("CVMacroLayer end to end with symbolic codeword bits and p-squeezed positions",
        "noise 0: every check of the reduced lattice even, bits as in the codeword, label/probability rules of the reduction"),
"C18": ("macronize, macro/micro coordinates with symbolic displacement, edges and attributes",
        "four micronodes per node in its own cell, edges one-to-one, attributes copied, to_macro inverts"),
"C19": ("EGraph under symbolic operation histories",
        "reference adjacency model: indices a bijection, adjacency matrix = weights, rejected requests leave no trace"),
"C20": ("are_lc_equivalent on symbolic adjacency bits",
        "'yes' answers: the returned Clifford maps one graph state to the other; 'no' answers: a query over all 6^n local Cliffords is unsat"),
"C21": ("linear algebra modulo 2 on symbolic matrices",
        "reduced row echelon form, same row space (symbolic test vector), rank, kernel basis and its completeness"),
"C22": ("IidNoise with symbolic draws and probability",
        "bit = [u < p] for every qubit of the code, one draw each, nothing else touched"),
"C23": ("ec_monte_carlo, run_ec_simulation with a symbolic verdict per trial, symbolic worker count",
        "errors = number of failed verdicts over all workers; file rows parse back to the arguments in header order"),
"C24": ("matching graphs of three backends with symbolic weights",
        "the returned pairs are a perfect matching; no perfect matching (all of them enumerated as linear forms) is lighter"),
"C25": ("noise and decoding on a used code with symbolic leftovers, twin execution against a fresh code",
        "every observable equal on both copies for all values"),
"C26": ("lemonpy.cpp, compiled by clang to LLVM IR against stand-in headers for LEMON and pybind11 (symcheck/stubs); the IR is executed by symcheck/llvmir.py with symbolic floating-point values and concrete integers and pointers",
        "the stand-in library returns any perfect matching of largest weight by the weights it was handed; the rows returned cover every row once and no other perfect matching has a larger total of matrix entries; replayed on the extension built with the real libraries"),
"C28": ("correct(draw=True) and the drawing functions with symbolic syndromes and attributes, twin execution against the undrawn code; drawing libraries replaced by a recorder",
        "verdict, bits, weights and structure equal; the recorded cubes, nodes, edges, names, colours and paths are those of the lattice model and the flipped qubits"),
}

def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out = [open(os.path.join(HERE, "intro.md")).read().rstrip(), "", "## 3. Properties", ""]
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    na = {e["property"]: e["reason"] for e in man["not_applicable"]}
    for p in props:
        out += ["### %s %s" % (p["id"], p["title"]), ""]
        if p["id"] in na:
            out += ["Not applicable: %s." % na[p["id"]].rstrip("."), ""]
            continue
        h = importlib.import_module("harness." + p["id"])
        run, oracle = M[p["id"]]
        out += ["*Encoded:* %s." % run, "", "*Decided by solver:* %s." % oracle, "", "*Bounds:* %s." % h.BOUNDS, ""]
        if h.ASSUMPTIONS:
            out += ["*Assumed:* %s." % "; ".join(h.ASSUMPTIONS), ""]
        cost = COST.get(p["id"])
        if cost:
            out += ["*Cost (8 cores):* %s." % cost, ""]
        out += ["*Why tests cannot:* %s" % p["why_tests_cant"], ""]
    fixes = [re.match(r"fixed: property=(\S+) (\S+) (.*)", s) for v in json.load(open(os.path.join(ROOT, "known-findings.json"))).values() if isinstance(v, list) for s in v]
    fixes = "\n".join("* %s `%s`: %s" % m.groups() for m in fixes if m)
    out += [open(os.path.join(HERE, "notes.md")).read().rstrip().replace("FIXES", fixes), ""]
    caught = json.load(open(os.path.join(HERE, "caught.json")))
    out += ["## 8. Planted bugs", "", "Quick tier of the named property's check on a copy with the patch applied.", "", "| bug | property | needs | result |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        b = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        out.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"].replace("|", "\\|"), caught.get(b, "not run")))
    open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")


COST = json.load(open(os.path.join(HERE, "cost.json")))
if __name__ == "__main__":
    main()
