"""Writes mac_gen.h: call sites of every interface macro with many kinds of argument expression.

Each call site is a function void f(struct E*) using the operands in E; a table tells the harness the operation, the kind
of source operand and how often each operand must have been evaluated (-1: the form does not count)."""
import random, sys
rnd = random.Random(20240817)
LITS = ['""', '"ab"', '"x" "," "y"', '"\\0z"']      # their values as C strings: "", "ab", "x,y", ""

def view(x, c):   # expressions of type strview_t for the operand x, counted by n[c]; (text, counted)
    return [("e->%s" % x, 0), ("(e->n[%d]++, e->%s)" % (c, x), 1), ("*e->p%s++" % x, 1), ("e->a%s[e->k%s++]" % (x, x), 1),
            ("e->yes ? e->%s : e->other" % x, 0), ("e->no ? e->other : e->%s" % x, 0), ("get_%s(e)" % x, 1), ("e->t%s = e->%s" % (x, x), 0),
            ("((strview_t){ .data = e->%s.data, .size = e->%s.size })" % (x, x), 0), ("e->n[%d]++, e->%s" % (c, x), 1, "paren"),
            ("strview_trim(strview_trim(e->%s, \"\"), e->empty)" % x, 0), ("strview_trim_end((e->n[%d]++, e->%s), e->yes ? \"\" : \"x\")" % (c, x), 1),
            ("*(const strview_t*)&e->%s" % x, 0)]
def fix(forms): return [("(%s)" % f[0] if len(f) > 2 else f[0], f[1]) for f in forms]
def view_forms(x, c): return [(t, n, "view", 0) for t, n in fix(view(x, c))]
CSTR = [("e->s", 0), ("e->m", 0), ("(e->n[1]++, e->s)", 1), ("(e->n[1]++, e->m)", 1), ("*e->ps++", 1), ("e->as[e->ks++]", 1), ("e->yes ? e->s : e->m", 0), ("e->yes ? e->m : NULL", 0),
        ("e->no ? \"\" : e->s", 0), ("e->before + 1", 0), ("get_s(e)", 1), ("get_m(e)", 1), ("e->ts = e->s", 0), ("&e->m[0]", 0), ("(char*)e->s", 0), ("*(const char* const*)&e->s", 0),
        ("*(char* const volatile*)&e->m", 0), ("(const char*)(e->yes ? e->m : NULL)", 0)]
SHORT = [("e->buf", 0), ("e->yes ? e->buf : \"\"", 0), ("e->cbuf", 0), ("(e->n[1]++, e->buf)", 1), ("&e->buf[e->zero]", 0)]
def src_forms(): return (view_forms("w", 1) + [(t, n, "cstr", 0) for t, n in CSTR] + [(t, n, "short", 0) for t, n in SHORT] + [(t, 0, "lit", i) for i, t in enumerate(LITS)])
BUF = [("&e->b", 0), ("(e->n[0]++, &e->b)", 1), ("*e->pb++", 1), ("e->ab[e->kb++]", 1), ("e->yes ? &e->b : NULL", 0), ("get_b(e)", 1), ("e->tb = &e->b", 0)]
IDX = [("e->i", 0), ("(e->n[2]++, e->i)", 1), ("*e->pi++", 1), ("e->ai[e->ki++]", 1), ("e->yes ? e->i : 0", 0), ("e->i - e->zero", 0), ("e->i | e->zero", 0), ("get_i(e)", 1), ("(short)e->i", 0), ("e->ti = e->i", 0)]
OPT = [("e->o", 0), ("(e->n[2]++, e->o)", 1), ("*e->po++", 1), ("e->yes ? e->o : 0", 0), ("e->o | STRNUM_DEFAULT", 0), ("e->o & ~e->zero", 0), ("get_o(e)", 1), ("e->o ^ STRNUM_DEFAULT", 0)]
NSRC = [("&e->v", 0), ("(e->n[1]++, &e->v)", 1), ("e->pnv++", 1), ("e->yes ? &e->v : NULL", 0), ("get_pv(e)", 1), ("&*e->pnv", 0), ("e->tpv = &e->v", 0)]
TYPES = ["unsigned char", "unsigned short", "unsigned int", "unsigned long", "unsigned long long", "char", "short", "int", "long", "long long", "float", "double", "long double"]

out, table = [], []
def emit(op, body, kind, lit, counts, extra=0, nofloat=False):
    k = len(table)
    if op == 10: nofloat = True   # variably modified structures are a GCC extension
    if nofloat: out.append("#if %s" % ("!defined(__clang__)" if op == 10 else "!defined(STRNUM_NOFLOAT)"))
    out.append("static void mf_%d(struct E* e)\n{\n\t%s\n}" % (k, body))
    if nofloat: out.append("#else\n#define mf_%d NULL\n#endif" % k)
    table.append((op, {"view": 0, "cstr": 1, "short": 2, "lit": 3, "none": 4}[kind], lit, counts, extra, k))
def view_out(k, x): return ["e->out = %s;", "e->out.size = %s.size; e->size_only = 1;", "e->out = (e->n[3]++, %s);", "e->yes ? (void)(e->out = %s) : (void)0;", "if((e->out = %s).size < 0) e->n[3] = 99;", "e->out = strview_sub(%s, 0, INT_MAX);"][k % 6] % x
def bool_out(k, x): return ["e->r = %s;", "e->r = !%s; e->r = !e->r;", "e->r = %s == true;", "e->r = %s ? 1 : 0;", "e->r = %s && e->yes;", "if(%s) e->r = 1; else e->r = 0;"][k % 6] % x

OPS = {"append": 0, "prepend": 1, "insert_at_index": 2, "insert_before": 3, "insert_after": 4, "strip": 5}
for name, op in OPS.items():
    for j, (t, n, kind, lit) in enumerate(src_forms()):
        for rep in range(2):
            bt, bn = rnd.choice(BUF); args = [bt]; pn = 0
            if op == 2: it, pn = rnd.choice(IDX); args.append(it)
            if op in (3, 4): vt, pn = rnd.choice(fix(view("v", 2))); args.append(vt)
            args.append(t)
            emit(op, view_out(rnd.randrange(6), "strbuf_%s(%s)" % (name, ", ".join(args))), kind, lit, (bn, n, pn))
for nargs in list(range(1, 9)) * 3 + list(range(9, 128)):
    bt, bn = rnd.choice(BUF); cs, cnt = [], 0
    for i in range(nargs):
        t, c = rnd.choice([("e->c[%d]", 0), ("(e->n[1]++, e->c[%d])", 1), ("get_c(e, %d)", 1), ("e->yes ? e->c[%d] : e->other", 0), ("strview_trim(e->c[%d], \"\")", 0), ("((strview_t){ e->c[%d].data, e->c[%d].size })", 0)])
        cs.append(t.replace("%d", str(i))); cnt += c
    emit(6, view_out(rnd.randrange(6), "strbuf_cat(%s, %s)" % (bt, ", ".join(cs))), "none", 0, (bn, cnt, 0), nargs)
# strbuf_create: initial capacity (int or size_t) or content
for t, n in [("e->i", 0), ("e->cap", 0), ("(e->n[1]++, e->i)", 1), ("(e->n[1]++, e->cap)", 1), ("e->cap - e->zero", 0), ("e->yes ? e->i : 0", 0), ("get_i(e)", 1), ("*e->pi++", 1), ("(int)e->cap", 0), ("(size_t)e->i", 0), ("e->i + (e->no ? 5 : 0)", 0)]:
    for at, an in [("&e->alloc", 0), ("e->yes ? &e->alloc : NULL", 0), ("(e->n[2]++, &e->alloc)", 1), ("e->pal++", 1)]:
        two = 2 if ("get_i" in t or "*e->pi" in t) else 1
        c = [0, 0, an]; c[two] += n
        emit(7, "e->b = strbuf_create(%s, %s);" % (t, at), "none", 0, tuple(c))
for t, n in fix(view("w", 1)):
    for at, an in [("&e->alloc", 0), ("(e->n[2]++, &e->alloc)", 1), ("e->no ? NULL : &e->alloc", 0)]:
        emit(8, "e->b = strbuf_create(%s, %s);" % (t, at), "view", 0, (0, n, an))
# capacities given as expressions
for t, v in [("3 + 4", 7), ("1 << 4", 16), ("5 > 4 ? 9 : 2", 9), ("20 | 3", 23), ("sizeof(int) * 3", 12), ("6 & 3", 2), ("100 - 1", 99), ("40 | 7", 47), ("0x40 | 0xF", 79), ("sizeof(int) == 4 ? 40 : 20", 40), ("1 ? 16 : 2", 16), ("0x30 ^ 0xF", 63), ("32 == 32 ? 8 * 4 : 0", 32), ("0 || 0", 0), ("'A'", 65)]:
    emit(9, "strbuf_t* b = STRBUF_FIXED_CAP(%s); e->got(b, %d, e->user);" % (t, v), "none", 0, (0, 0, 0), v)
    emit(9, "strbuf_space_t(%s) sp = STRBUF_STATIC_INIT(%s); e->got((strbuf_t*)&sp, %d, e->user);" % (t, t, v), "none", 0, (0, 0, 0), v)
    emit(9, "static strbuf_space_t(%s) sp; strbuf_space_t(%s) init = STRBUF_STATIC_INIT(%s); memcpy(&sp, &init, sizeof sp); e->got((strbuf_t*)&sp, %d, e->user);" % (t, t, t, v), "none", 0, (0, 0, 0), v)
for t in ["e->n9 + 2", "e->yes ? e->n9 + 2 : 1", "e->n9 | 2", "2 + e->n9"]:   # n9 is 9 or 41: the capacity is decided at run time
    emit(10, "int want = %s; strbuf_space_t(%s) sp; e->got(strbuf_create_fixed(&sp, sizeof sp), want, e->user);" % (t, t), "none", 0, (0, 0, 0))
# views: yes/no questions, trims and searches
for op, name in enumerate(["strview_is_match", "strview_is_match_nocase", "strview_starts_with", "strview_starts_with_nocase"], 20):
    for t, n, kind, lit in src_forms():
        for rep in range(2):
            vt, vn = rnd.choice(fix(view("v", 0))); emit(op, bool_out(rnd.randrange(6), "%s(%s, %s)" % (name, vt, t)), kind, lit, (vn, n, 0))
for op, name in enumerate(["strview_trim", "strview_trim_start", "strview_trim_end", "strview_find_first", "strview_find_first_nocase", "strview_find_last", "strview_find_last_nocase"], 24):
    for t, n, kind, lit in src_forms():
        for rep in range(2):
            vt, vn = rnd.choice(fix(view("v", 0))); emit(op, view_out(rnd.randrange(6), "%s(%s, %s)" % (name, vt, t)), kind, lit, (vn, n, 0))
# numbers
for ti, T in enumerate(TYPES):
    D = [("(%s*)e->dst" % T, 0), ("(e->n[0]++, (%s*)e->dst)" % T, 1), ("e->yes ? (%s*)e->dst : NULL" % T, 0), ("&((%s*)e->dst)[e->zero]" % T, 0), ("((%s*)e->dst0) + 1" % T, 0), ("get_d(e)", 1), ("&((struct { %s x; }*)e->dst)->x" % T, 0)]
    for dt, dn in D:
        for rep in range(3):
            if dt == "get_d(e)": dt = "(%s*)get_d(e)" % T
            st, sn = rnd.choice(NSRC); ot, on = rnd.choice(OPT); k = rnd.randrange(3)
            x = "strnum_value(%s, %s, %s)" % (dt, st, ot)
            emit(40 + ti, ["e->r = %s;", "if((e->r = %s) != 0) e->n[3]++;", "e->r = (%s) + e->zero;"][k] % x, "none", 0, (dn, sn, on), nofloat=ti >= 10)
# packing: any expression of an integer type as value, any buffer expression, any lvalue as destination
PT = [("uint8_t", "u8"), ("int8_t", "s8"), ("uint16_t", "u16"), ("int16_t", "s16"), ("uint32_t", "u32"), ("int32_t", "s32"), ("uint64_t", "u64"), ("int64_t", "s64")]
for ti, (T, f) in enumerate(PT):
    S = [("e->%s" % f, 0), ("(e->n[1]++, e->%s)" % f, 1), ("(%s)(e->%s + 0)" % (T, f), 0), ("e->a%s[e->kp++]" % f, 1), ("*e->p%s++" % f, 1), ("get_%s(e)" % f, 1), ("e->%s++" % f, 2), ("e->x.%s" % f, 0), ("(%s)~e->not_%s" % (T, f), 0)]
    if ti >= 4: S += [("e->yes ? e->%s : 0" % f, 0), ("e->%s | 0" % f, 0), ("e->%s - e->%s + e->%s" % (f, f, f), 0), ("e->%s & e->%s" % (f, f), 0)] if ti != 5 and ti != 7 else [("e->yes ? e->%s : 0" % f, 0), ("e->%s | 0" % f, 0), ("e->%s ^ 0" % f, 0)]
    for be in (0, 1):
        for t, n in S:
            bt, bn = rnd.choice(BUF)
            if n == 2: emit(60 + ti, "%s old = e->%s; STRBUF_PACK_%s(%s, %s); e->n[1] += e->%s == (%s)(old + 1) ? 1 : 7;" % (T, f, "BE" if be else "LE", bt, t, f, T), "none", 0, (bn, 1, 0), be)
            else: emit(60 + ti, "if(e->yes) STRBUF_PACK_%s(%s, %s); else e->n[3] = 99;" % ("BE" if be else "LE", bt, t), "none", 0, (bn, n, 0), be)
        for d in ["e->%s" % f, "e->x.%s" % f, "*e->p%s" % f, "e->a%s[e->zero + 1]" % f, "(e->%s)" % f]:
            for v in ["e->v", "*e->pv", "e->av[1]", "(*(&e->v))"]:
                if rnd.random() < 0.5: continue
                emit(70 + ti, "if(e->yes) STRVIEW_UNPACK_%s(%s, %s); else e->n[3] = 99; e->x.wide = (uint64_t)(int64_t)%s; e->out = %s;" % ("BE" if be else "LE", d, v, d, v), "none", 0, (0, 0, 0), be)
        # swaps
    for t, n in [("e->%s" % f, 0), ("(e->n[1]++, e->%s)" % f, 1), ("get_%s(e)" % f, 1), ("*e->p%s++" % f, 1)] + ([("e->yes ? e->%s : 0" % f, 0), ("e->%s | 0" % f, 0)] if ti >= 4 else []):
        emit(80 + ti, "e->x.wide = (uint64_t)(int64_t)xendian_SWAP(%s);" % t, "none", 0, (0, n, 0))
# literals and printing
for i, (t, val) in enumerate([('"abc"', 3), ('"a" "b" "c" "d"', 4), ('""', 0), ('"in\\0ner"', 6)]):
    emit(90, "e->out = cstr_SL(%s); e->lit = %s; e->r = %d;" % (t, t, val), "none", 0, (0, 0, 0))
    emit(90, "e->out.data = cstr_SL(%s).data; e->out.size = cstr_SL(%s).size; e->lit = %s; e->r = %d;" % (t, t, t, val), "none", 0, (0, 0, 0))
for t in ["e->v", "*e->pv", "e->av[1]", "e->yes ? e->v : e->other", "(&e->v)[e->zero]", "get_v(e)"]:
    emit(91, "e->r = snprintf(e->print, sizeof e->print, \"<%%\"PRIstr\"|%%d>\", PRIstrarg(%s), 42);" % t, "none", 0, (-1, 0, 0))
out.append("static const struct mac_form mac_table[] = {")
for op, kind, lit, c, extra, k in table: out.append("\t{ mf_%d, %d, %d, %d, { %d, %d, %d }, %d }," % (k, op, kind, lit, c[0], c[1], c[2], extra))
out.append("};\n")
open(sys.argv[1], "w").write("\n".join(out))
