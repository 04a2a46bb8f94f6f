#!/usr/bin/env python3
# Development aid: plants small syntactic changes in copies of the model's sources and reports which ones no check sees.
#   tools/mutate.py OUT.tsv FILE[:FROM-TO] ...   (files relative to /repo)
import os, re, subprocess, sys, shutil, hashlib, concurrent.futures as cf, threading, random
REPO = "/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"; SRCS = ["src/bmi_lgar.cxx", "src/lgar.cxx", "src/soil_funcs.cxx", "src/linked_list.cxx", "src/mem_funcs.cxx", "src/util_funcs.cxx", "src/aet.cxx", "giuh/giuh.c"]
CHECKS = os.environ.get("CHECKS", "C10 C12 C05 C06 C14 C18 C17 C03 C07 C01 C02 C16 C15 C21 C11 C08 C09 C04 C22 C13").split()
CASES = int(os.environ.get("CASES", "300"))
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def objname(s): return s.replace("/", "_").replace(".", "_") + ".o"
def cc(s): return "gcc" if s.endswith(".c") else "g++ -std=c++14"
def strip(line):
    i = line.find("//"); return line if i < 0 else line[:i]
def mutants(path, lo, hi):
    L = open(f"{REPO}/{path}").read().split("\n"); out = []; incom = False
    for n, line in enumerate(L):
        code = strip(line)
        if "/*" in code and "*/" not in code: incom = True; code = code[:code.index("/*")]
        elif incom:
            if "*/" in code: incom = False
            continue
        if not (lo <= n + 1 <= hi) or not code.strip() or code.lstrip().startswith("#"): continue
        if any(k in code for k in ("cerr", "cout", "printf", "verbosity", "errMsg", "assert")): continue
        def add(new, kind):
            if new != line: out.append((path, n + 1, kind, line.strip(), new.strip(), L[:n] + [new] + L[n+1:]))
        def subs(pat, rep, kind):
            for m in re.finditer(pat, code):
                r = rep(m) if callable(rep) else rep
                add(code[:m.start()] + r + code[m.end():] + line[len(code):], kind)
        subs(r"(?<=[\w\)\]]) ?\+ ?(?=[\w\(])(?!\+)", " - ", "+-"); subs(r"(?<=[\w\)\]]) ?(?<!-)-(?![->=]) ?(?=[\w\(])", " + ", "-+")
        subs(r"(?<=[\w\)\]]) ?\*(?![=/\*]) ?(?=[\w\(])", " / ", "*/"); subs(r"(?<=[\w\)\]]) ?/(?![/\*=]) ?(?=[\w\(])", " * ", "/*")
        subs(r"(?<![<\-])<(?![<=])(?=[\s\w\(])", "<=", "<"); subs(r"(?<![->])>(?![>=])", ">=", ">"); subs(r"<=", "<", "<="); subs(r">=", ">", ">=")
        subs(r"==", "!=", "=="); subs(r"!=", "==", "!="); subs(r"&&", "||", "&&"); subs(r"\|\|", "&&", "||")
        subs(r"\btrue\b|\bTRUE\b", "false", "true"); subs(r"\bfalse\b|\bFALSE\b", "true", "false")
        subs(r"\bfmin\b", "fmax", "min"); subs(r"\bfmax\b", "fmin", "max")
        subs(r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1), "const"); subs(r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1), "const-")
        subs(r"(?<![\w])\d+\.\d*(?:[eE][-+]?\d+)?", lambda m: "(" + m.group(0) + "*1.01)" if float(m.group(0)) else "0.001", "fconst")
        subs(r"\+=", "=", "+="); subs(r"-=", "+=", "-=")
        subs(r"->next\b", "->next->next", "next") if "if" not in code and "while" not in code else None
        subs(r"\bcm_to_m\b", "m_to_cm", "unit"); subs(r"\bif ?\((.*)\) ?(\{?) *$", lambda m: "if (!(" + m.group(1) + ")) " + m.group(2), "neg")
        if re.match(r"^\s*[\w\->\.\[\]\(\)\+\*, ]+ ?[-+*/]?=[^=].*;\s*$", code) and not re.match(r"^\s*(double|int|bool|struct|char|std|string|FILE|float|unsigned|vector|const|static)\b", code): add(re.match(r"\s*", code).group(0) + ";", "del")
        if re.match(r"^\s*[\w:]+\(.*\);\s*$", code): add(re.match(r"\s*", code).group(0) + ";", "delcall")
        if re.match(r"^\s*(break|continue);", code): add(";", "delbr")
    return out
def setup():
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/base")
    d = sh(f"{V}/build.sh plain").stdout.strip(); assert d, "build"
    hk = d.rsplit("-", 1)[1]; hob = [f"{V}/build/hplain-{hk}/" + f for f in os.listdir(f"{V}/build/hplain-{hk}") if f.endswith(".o")]
    shutil.copytree(f"{V}/build/hplain-{hk}", W + "/h"); hob = [W + "/h/" + os.path.basename(f) for f in hob]
    for s in SRCS: assert sh(f"{cc(s)} -O1 -w -DBMI_ACTIVE -I{REPO}/include -c {REPO}/{s} -o {W}/base/{objname(s)}").returncode == 0, s
    r = sh(f"g++ -std=c++17 -O1 -w -DBMI_ACTIVE -I{REPO}/include -DLGAR_BMI_HEADER='\"{REPO}/include/bmi_lgar.hxx\"' -c {V}/harness/sim.cpp -o {W}/base/sim.o"); assert r.returncode == 0, r.stderr
    return hob
def judge(i, m, hob):
    path, n, kind, old, new, text = m; d = f"{W}/m{i}"; os.makedirs(d)
    for k in ("include", "bmi", "giuh", "src"): shutil.copytree(f"{REPO}/{k}", f"{d}/{k}")
    open(f"{d}/{path}", "w").write("\n".join(text))
    try:
        r = sh(f"{cc(path)} -O1 -w -DBMI_ACTIVE -I{d}/include -c {d}/{path} -o {d}/m.o")
        if r.returncode: return "nocompile", ""
        objs = " ".join(f"{W}/base/{objname(s)}" for s in SRCS if s != path)
        r = sh(f"g++ {d}/m.o {objs} {W}/base/sim.o {' '.join(hob)} -o {d}/runner -Wl,--wrap=abort,--wrap=exit,--wrap=__assert_fail")
        if r.returncode: return "nolink", r.stderr[-200:]
        for c in CHECKS:
            try: r = sh(f"LGAR_CPU_LIMIT=4 {d}/runner run {c} --workers 1 --cases {CASES} --fast 1 --seed 7", timeout=300)
            except subprocess.TimeoutExpired: return c, "timeout"
            if r.returncode == 1: return c, (r.stdout.split("VIOLATION", 1) + [""])[1][:120].replace("\n", " ").replace("\t", " ")
            if r.returncode: return "error", c + r.stderr[-100:]
        return "SURVIVED", ""
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    out = sys.argv[1]; ms = []
    for a in sys.argv[2:]:
        f, _, rg = a.partition(":"); lo, hi = (int(x) for x in rg.split("-")) if rg else (1, 10**9); ms += mutants(f, lo, hi)
    lim = int(os.environ.get("LIMIT", "0"))
    if lim: random.seed(int(os.environ.get("MSEED", "1"))); random.shuffle(ms); ms = ms[:lim]
    hob = setup(); print(len(ms), "mutants", flush=True); lock = threading.Lock(); cnt = {}
    with open(out, "w") as o, cf.ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(judge, i, m, hob): m for i, m in enumerate(ms)}
        for k, f in enumerate(cf.as_completed(fs)):
            m = fs[f]; st, msg = f.result(); cnt[st] = cnt.get(st, 0) + 1
            o.write("\t".join([st, m[0] + ":" + str(m[1]), m[2], m[3], m[4], msg]) + "\n"); o.flush()
            if k % 100 == 99: print(k + 1, cnt, flush=True)
    print(cnt)
main()
