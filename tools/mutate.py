#!/usr/bin/env python3
"""mutate.py COMPONENT [-n N] [-j JOBS] [--seed S] [--sec T] [--out FILE] [--files a,b] [--lines a-b]
Measures the checks: makes small random changes to the headers of a component in
scratch copies of /repo/include, runs the component's checks on each and lists
the changes that no check notices (to be read by hand: equivalent, or a gap)."""
import argparse, os, random, re, shutil, subprocess, sys, tempfile, time, json
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMP = {
 "fst": (["flat_segment_tree.hpp", "flat_segment_tree_def.inl", "flat_segment_tree_itr.hpp", "node.hpp"], "C01 C02 C03 C04"),
 "segtree": (["segment_tree.hpp", "segment_tree_def.inl"], "C05 C06"),
 "quad": (["point_quad_tree.hpp", "quad_node.hpp"], "C07 C08 C09"),
 "trie": (["trie_map.hpp", "trie_map_def.inl", "trie_map_itr.hpp"], "C10 C11 C12"),
 "ssm": (["sorted_string_map.hpp", "sorted_string_map_def.inl"], "C13"),
 "rtree": (["rtree.hpp", "rtree_def.inl"], "C14 C15 C16"),
 "soa": (["multi_type_vector/soa/main.hpp", "multi_type_vector/soa/main_def.inl", "multi_type_vector/soa/iterator.hpp"], "C17 C18 C25 C21 C22 C19 C20 C24 C23 C26"),
 "aos": (["multi_type_vector/aos/main.hpp", "multi_type_vector/aos/main_def.inl", "multi_type_vector/aos/iterator.hpp", "multi_type_vector/aos/block_util.hpp"], "C17 C18 C25 C21 C22 C19 C20 C24 C23 C26"),
 "mtvu": (["multi_type_vector/types.hpp", "multi_type_vector/block_funcs.hpp", "multi_type_vector/util.hpp", "multi_type_vector/soa/block_util.hpp", "multi_type_vector/iterator_node.hpp", "multi_type_vector/types_util.hpp"], "C26 C17 C23 C24 C21 C33 C28 C18 C20 C25 C22 C27"),
 "coll": (["multi_type_vector/collection.hpp", "multi_type_vector/collection_def.inl"], "C27"),
 "ddv": (["multi_type_vector/delayed_delete_vector.hpp"], "C28"),
 "mtm": (["multi_type_matrix.hpp", "multi_type_matrix_def.inl"], "C29 C30 C31"),
}
REL = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="]}
def mutants(text):
    out = []
    incomment = False; depth_dbg = 0; stack = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if s.startswith("//"): continue
        if s.startswith("#"):
            if re.match(r"#\s*if", s): stack.append("DEBUG" in s or "TRACE" in s)
            elif re.match(r"#\s*else", s) and stack: stack[-1] = not stack[-1] if stack[-1] else stack[-1]
            elif re.match(r"#\s*endif", s) and stack: stack.pop()
            continue
        if any(stack): continue
        code = l.split("//")[0]
        if '"' in code or "static_assert" in code or "template" in code or "typename" in code and "<" in code and "(" not in code: continue
        if "using " in code or "#include" in code or "operator" in code or "MDDS_" in code or "TRACE" in code or "assert(" in code: continue
        def add(kind, new):
            if new != l: out.append((i, kind, new))
        for m in re.finditer(r"(?<=\s)(<=|>=|==|!=|<|>)(?=\s)", code):
            for r in REL[m.group(1)]: add("rel", l[:m.start(1)] + r + l[m.end(1):])
        for m in re.finditer(r"(?<=\s)(&&|\|\|)(?=\s)", code):
            add("logic", l[:m.start(1)] + ("||" if m.group(1) == "&&" else "&&") + l[m.end(1):])
        for m in re.finditer(r"(?<=[\w\)\]]) ([+-]) (?=[\w\(])", code):
            add("arith", l[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + l[m.end(1):])
        for m in re.finditer(r" [+-] 1\b", code): add("one", l[:m.start()] + l[m.end():])
        for m in re.finditer(r"(\+\+|--)", code):
            add("inc", l[:m.start()] + ("--" if m.group(1) == "++" else "++") + l[m.end():])
        for m in re.finditer(r"(?<=\s)([+-])= ", code): add("asgn", l[:m.start(1)] + ("-" if m.group(1) == "+" else "+") + l[m.end(1):])
        for m in re.finditer(r"\b(true|false)\b", code): add("bool", l[:m.start()] + ("false" if m.group(1) == "true" else "true") + l[m.end():])
        for m in re.finditer(r"(?<![\w.])([01])(?![\w.])", code): add("const", l[:m.start()] + ("1" if m.group(1) == "0" else "0") + l[m.end():])
        m = re.match(r"^(\s*)((?:else )?if) \((.*)\)\s*$", code)
        if m and "constexpr" not in code:
            add("iffalse", "%s%s (false && (%s))" % m.groups())
            add("iftrue", "%s%s (true || (%s))" % m.groups())
        # deletion of one-line statements
        if s.endswith(";") and not re.match(r"(return|break|continue|throw|using|typedef|case|const |auto |struct|class|friend|size_type \w+ =|bool \w+ =)", s) and (re.match(r"^[\w\.\->\*\[\]\(\):<>, +]+(\(.*\)|\s[+-]?=\s.*|\+\+|--);$", s) or re.match(r"^(\+\+|--)\w", s)):
            prev = lines[i - 1].strip() if i else ""
            if prev.endswith((";", "{", "}", ")", "else")) or prev == "":
                if not re.match(r"^[\w:<>\*&]+ [\w\*&]+( =|\(|;|\{)", s) or re.match(r"^delete ", s): add("del", re.match(r"\s*", l).group(0) + ";")
        if s in ("break;",): pass
        if re.match(r"return .*;$", s) and s not in ("return true;", "return false;"): pass
    return out
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("comp"); ap.add_argument("-n", type=int, default=50); ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--sec", default="6"); ap.add_argument("--out"); ap.add_argument("--files"); ap.add_argument("--lines"); ap.add_argument("--props")
    ap.add_argument("--repo", default="/repo"); ap.add_argument("--count", action="store_true"); ap.add_argument("--cxx"); ap.add_argument("--workers", type=int, default=2); ap.add_argument("--skip"); ap.add_argument("--budget", type=float, default=1e9)
    a = ap.parse_args()
    files, props = COMP[a.comp]
    if a.files: files = [f for f in files if any(x in f for x in a.files.split(","))]
    props = (a.props or props).replace(",", " ").split()
    allm = []
    for f in files:
        t = open(a.repo + "/include/mdds/" + f).read()
        for m in mutants(t):
            if a.lines:
                lo, hi = map(int, a.lines.split("-"))
                if not lo <= m[0] + 1 <= hi: continue
            if a.skip and any(int(r.split("-")[0]) <= m[0] + 1 <= int(r.split("-")[1]) for r in a.skip.split(",")): continue
            allm.append((f,) + m)
    if a.count: print(len(allm)); return
    random.Random(a.seed).shuffle(allm)
    allm = allm[:a.n]
    out = open(a.out or "/tmp/mut.%s.txt" % a.comp, "a")
    t0 = time.time(); stats = {}
    def run(m):
        f, i, kind, new = m
        if time.time() - t0 > a.budget: return
        d = tempfile.mkdtemp(prefix="mut-")
        try:
            shutil.copytree(a.repo + "/include", d + "/include")
            p = d + "/include/mdds/" + f
            L = open(p).read().split("\n"); old = L[i]; L[i] = new
            open(p, "w").write("\n".join(L))
            env = dict(os.environ, VF_REPO=d)
            res, killer = "SURVIVED", ""
            if a.cxx: env["VF_CXX"] = a.cxx
            for q in props:
                q, _, parts = q.partition(":")
                if parts: env["VF_PARTS"] = parts.replace("+", ",")
                elif "VF_PARTS" in env: del env["VF_PARTS"]
                try: r = subprocess.run([H + "/check", q, "--seconds", a.sec, "--workers", str(a.workers), "--evidence", d + "/e.json", "--replay-dir", d], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=d, timeout=700)
                except subprocess.TimeoutExpired: res, killer = "TIMEOUT", q; break
                if r.returncode == 1: res, killer = "killed", q; break
                if r.returncode == 2: res, killer = "nocompile", q; break
                if r.returncode != 0: res, killer = "rc%d" % r.returncode, q; break
            stats[res] = stats.get(res, 0) + 1
            out.write("%s %s %s:%d %s\n   - %s\n   + %s\n" % (res, killer, f, i + 1, kind, old.strip(), new.strip())); out.flush()
        finally: shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(run, allm))
    out.write("# %s %s\n" % (a.comp, stats)); print(a.comp, stats)
main()
