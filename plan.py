"""How much each check runs: [(kind, variant, configuration, workers, cases per worker)]."""
import json, os
PROPS = {}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")) as f:
    for line in f:
        if line.strip():
            p = json.loads(line); PROPS[p["id"]] = p

CFG29 = ["base", "step1", "step37", "step4096", "plain", "noprintf", "noprnf", "nofloat", "nodefault", "minimal", "user", "user_min"]
# all 32 combinations of the on/off options and default allocators (half of them, covering every triple of settings, in the quick tier),
# each with one growth step of four; thorough: every combination with three of the steps
def x29(tier):
    from run import CONFIGS
    r = []
    for o, c in enumerate(c for c in CONFIGS if c.startswith("x")):
        if tier != "quick" or (bin(o & 7).count("1") + (o // 8 % 4) & 1) == o // 32: r.append(c)
    return r
# cases per worker in the quick tier: (sanitizer build, optimised build, fuzzer)
N = {
    "C01": (12000, 50000, 1500), "C02": (108000, 450000, 45000), "C03": (81000, 306000, 36000), "C04": (25000, 80000, 20000),
    "C05": (30000, 120000, 1200), "C06": (20000, 150000, 20000), "C07": (144000, 360000, 90000), "C08": (80000, 200000, 25000),
    "C09": (360000, 720000, 72000), "C10": (5000, 15000, 1200),
    "C11": (540000, 720000, 270000), "C12": (540000, 720000, 360000), "C13": (300000, 400000, 40000), "C14": (540000, 720000, 144000),
    "C15": (540000, 720000, 360000), "C16": (450000, 720000, 90000), "C17": (540000, 720000, 540000), "C18": (540000, 720000, 216000),
    "C19": (540000, 720000, 540000), "C20": (540000, 720000, 540000),
    "C21": (540000, 720000, 270000), "C22": (450000, 720000, 270000), "C23": (250000, 400000, 120000), "C24": (300000, 400000, 200000),
    "C25": (40000, 80000, 6000), "C26": (200000, 400000, 100000), "C27": (200000, 400000, 120000), "C28": (120000, 300000, 40000),
    "C29": (40000, 150000, 4000), "C30": (540000, 720000, 270000),
    "C31": (36000, 60000, 6000), "C32": (100000, 300000, 6000), "C33": (40000, 50000, 5000), "C34": (8000, 20000, 2000), "C35": (150000, 300000, 60000), "C37": (60000, 150000, 20000), "C38": (100000, 300000, 0), "C39": (0, 3000, 0), "C40": (200000, 500000, 100000),
}
def PLAN(pid, tier):
    m = 1 if tier == "quick" else 40
    a, o, f = N.get(pid, (2000, 2000, 2000)); a *= m; o *= m; f *= m
    if pid == "C36": return [] # generated programs: harness/p_inc.py
    if pid == "C29":
        return [("rand", "asan", c, 1, a) for c in CFG29] + [("rand", "asan", c, 1, a // 4) for c in x29(tier)] + [("rand", "opt", c, 1, o) for c in ("base", "minimal", "user", "nodefault")] + ([("fuzz", "", "base", 2, f)] if tier != "quick" else [])
    if pid == "C31":
        return [("rand", "tsan", "base", 3, a // 2), ("rand", "asan", "base", 2, a), ("rand", "opt", "base", 2, o), ("fuzz", "", "base", 1, f)]
    if pid == "C32":
        return [("rand", v, "base", n, k) for v, n, k in (("uasan", 2, a), ("uopt", 1, o), ("ucl", 1, o), ("o0", 1, o // 2), ("o3", 1, o), ("os", 1, o), ("cl3", 1, o))] + ([("fuzz", "", "base", 1, f)] if tier != "quick" else [])
    if pid == "C38":
        return [("rand", "roasan", "base", 3, a), ("rand", "roopt", "base", 4, o)]
    if pid == "C39":
        return [("rand", "opt", "base", 4, o), ("rand", "o0", "base", 2, o // 3), ("rand", "cl3", "base", 1, o)]
    if pid in ("C05", "C10"):
        r = [("rand", "asan", "base", 2, a)] + [("rand", "asan", c, 1, a) for c in ("step1", "step37", "step4096")] + [("rand", "opt", "base", 2, o)]
        if pid == "C10": r += [("rand", "opt", "step1m", 1, o)]
        return r + [("fuzz", "", "base", 1, f)]
    return [("rand", "asan", "base", 4, a), ("rand", "opt", "base", 3, o), ("fuzz", "", "base", 1 if tier == "quick" else 4, f)]
