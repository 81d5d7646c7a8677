"""C36: generated programs that use the public headers. A case is a program of one to three source files; each file includes a random
subset of the public headers (and some standard ones) in random order, possibly repeatedly, and holds small functions that use what
those headers offer, with generated texts and generated names for everything the user names. Every file must compile with the
declared meaning (implicit declarations and incompatible pointers are errors), the files must link with the library, and the program
must find every result equal to what the generator computed from the definitions. Oracle: the compiler, the linker and the expected
values. A failing program is shrunk by dropping files, functions, includes and renamings, and becomes the replay file."""
import concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

HEADERS = ["strview.h", "strbuf.h", "strnum.h", "strbuf_io.h", "strview_io.h", "strbuf_pack.h", "strview_unpack.h", "xendian.h", "strbuf_crypt/strbuf_crypt.h"]
STDH = ["stdio.h", "stdlib.h", "stdint.h", "limits.h", "ctype.h", "errno.h", "math.h", "float.h", "inttypes.h", "unistd.h", "endian.h", "assert.h", "time.h", "locale.h", "setjmp.h", "string.h", "strings.h", "sys/types.h", "sys/param.h", "arpa/inet.h", "stdalign.h"]
# what a header brings with it, because its own types need it
GIVES = {"strview.h": {"strview.h"}, "strbuf.h": {"strbuf.h", "strview.h"}, "strnum.h": {"strnum.h", "strview.h"}, "strbuf_io.h": {"strbuf_io.h", "strbuf.h", "strview.h"},
         "strview_io.h": {"strview_io.h", "strview.h"}, "strbuf_pack.h": {"strbuf_pack.h", "strbuf.h", "strview.h"}, "strview_unpack.h": {"strview_unpack.h", "strview.h"},
         "xendian.h": {"xendian.h"}, "strbuf_crypt/strbuf_crypt.h": {"strbuf_crypt/strbuf_crypt.h", "strbuf.h", "strview.h"}}
# names a user may well have for variables of his own
NAMES = ("tmp x v buf str i n dst src view size data in out retval result a b c len ptr count err value num opts key init alloc text item cap needle haystack p q s t u w y z "
         "pos begin end index base digit sign buffer content string chars delims left right first last line eol quote fmt args va list new_size old it cur next prev "
         "str1 str2 buf_ptr dst_size chars_to_trim src_ptr addr addr_size initial_content options dfault fd arg sl_arg word bytes word16 word32 self this_one min max sum low high from to key_ptr bytes_left").split()
# names a user may well have for functions of his own (not prefixed ones: those are the library's)
FNAMES = ("find_first find_last contains_char contains swap_views insert insert_str destroy create append round_up round_up_capacity split split_index "
          "split_digits is_valid memcmp_nocase change_capacity grow shrink assign empty_buf consume consume_sign make_float make_double isbdigit xdigit_value "
          "to_str helper max_of min_of view_of buf_contains_str cat vcat trim dequote parse pack unpack swap16 swap32 swap64 pad unpad read_all write_all "
          "enc256cbc dec256cbc cypher_size allocfunc allocfunc_stdlib char_handler create_buf buffer_vcat insert_strview_into_buf destroy_buf change_buf_capacity "
          "assign_strview_to_buf append_char_to_buf buf_is_dynamic add_will_overflow_int view_contains_char char_handler_for_prnf consume_signed consume_unsigned "
          "consume_base_prefix consume_digits consume_decimal_digits consume_hex_digits consume_bin_digits process_float_components consume_float_special "
          "consume_exponent make_ldouble upper_nibble_ull_is_zero upper_bit_ull_is_zero split_first_delim split_last_delim encdec_with_ctx_on_stack min max swap "
          "clamp sign maximum minimum count_of is_empty is_space to_upper to_lower move_block rotate reverse log_text error_text").split()

# macros a user may well have (none that the standard headers define)
MACROS = ("BIT BITS FLAG MASK BASE STEP DEFAULT INVALID CAPACITY BUF_SIZE SWAP PACK UNPACK LE BE HEX BIN DEC OK FAIL LENGTH COUNT ROUND ALIGN_UP PAD PADDING CAT JOIN NARG CONCAT STR STRING VIEW BUF "
          "EMPTY FIXED DYNAMIC BLOCK BLOCK_SIZE KEY_SIZE IV_SIZE LIMIT LIMITS LOWEST HIGHEST IS_DIGIT TO_LOWER QUOTE QUOTES SPACE WHITESPACE CR LF CRLF EOL DIGITS NUMBER FLOAT DOUBLE SIGN EXPONENT "
          "BIG_END LITTLE_END HOST_ORDER SWAP16 SWAP32 SWAP64 BYTES WORDS APPEND INSERT ASSIGN FORMAT PRINTF ALLOC RESIZE RELEASE FD READ_SIZE").split()

def q(t): return '"' + "".join(c if c.isalnum() or c in " ,.;:_-+=/" else "\\%03o" % ord(c) for c in t) + '"'
def word(r, lo=0, hi=8, a="abcXYZ019_"): return "".join(r.choice(a) for _ in range(r.randint(lo, hi)))

# every snippet: name -> (headers it uses, needs, maker). maker(r, v) gives the body of "static int f(void)" that returns 0 when all is
# as expected; v is a list of distinct names to use.
S = {}
def snip(name, *headers, **kw):
    def d(f): S[name] = (set(headers), kw, f); return f
    return d
EQ = "same_text(%s, %s)"
@snip("cstr", "strview.h")
def _(r, v): t = word(r); return "strview_t %s = cstr(%s); return !(%s.size == %d && %s && strview_is_valid(%s) && !strview_is_valid(STRVIEW_INVALID));" % (v[0], q(t), v[0], len(t), EQ % (v[0], q(t)), v[0])
@snip("cstr_SL", "strview.h")
def _(r, v): t = word(r); return "strview_t %s[2] = { cstr_SL(%s), cstr_SL(%s) }; return !(%s && %s);" % (v[0], q(t), q("x" + t), EQ % (v[0] + "[0]", q(t)), EQ % (v[0] + "[1]", q("x" + t)))
@snip("sub", "strview.h")
def _(r, v):
    t = word(r, 3, 12); a = r.randint(0, len(t) - 2); b = r.randint(a + 1, len(t))
    return "strview_t %s = cstr(%s), %s; int %s = %d, %s = %d; %s = strview_sub(%s, %s, %s); return !%s;" % (v[0], q(t), v[1], v[2], a, v[3], b, v[1], v[0], v[2], v[3], EQ % (v[1], q(t[a:b])))
@snip("trim", "strview.h")
def _(r, v):
    t = word(r, 1, 5, "abc"); l = word(r, 0, 4, " ;"); e = word(r, 0, 4, " ;"); k = r.randrange(3)
    m = ["strview_trim", "strview_trim_start", "strview_trim_end"][k]; w = [t, t + e, l + t][k]
    arg = r.choice(['" ;"', v[1], 'cstr(" ;")', v[2]])
    return "strview_t %s = cstr(%s); const char* %s = \" ;\"; char %s[] = \"; \"; (void)%s; (void)%s; %s = %s(%s, %s); return !%s;" % (v[0], q(l + t + e), v[1], v[2], v[1], v[2], v[0], m, v[0], arg, EQ % (v[0], q(w)))
@snip("find", "strview.h")
def _(r, v):
    n = word(r, 1, 2, "ab"); h = word(r, 0, 6, "ab") + n + word(r, 0, 6, "ab"); last = r.random() < .5; nc = r.random() < .5
    at = h.rfind(n) if last else h.find(n); arg = r.choice([q(n.upper() if nc else n), "cstr(%s)" % q(n)])
    return "strview_t %s = cstr(%s), %s = strview_find_%s%s(%s, %s); return !(%s && %s.data == %s.data + %d && strview_contains(%s, cstr(%s)));" % (v[0], q(h), v[1], "last" if last else "first", "_nocase" if nc else "", v[0], arg, EQ % (v[1], q(n)), v[1], v[0], at, v[0], q(n))
@snip("match", "strview.h")
def _(r, v):
    a, b = word(r, 0, 3, "ab"), word(r, 0, 3, "ab")
    return "strview_t %s = cstr(%s), %s = cstr(%s); return !(strview_is_match(%s, %s) == %d && strview_is_match(%s, %s) == %d && strview_starts_with(%s, %s) == %d && strview_starts_with_nocase(%s, %s) == %d && strview_is_match_nocase(%s, %s) == %d && (strview_compare(%s, %s) < 0) == %d);" % (
        v[0], q(a), v[1], q(b), v[0], v[1], a == b, v[1], q(a), a == b, v[0], v[1], a.startswith(b), v[0], q(b.upper()), a.startswith(b), v[0], q(b.upper()), a == b, v[0], v[1], a < b)
@snip("split", "strview.h")
def _(r, v):
    f = [word(r, 0, 4, "ab") for _ in range(r.randint(1, 4))]; t = ",".join(f); n = len(f)
    return "strview_t %s = cstr(%s), %s[5]; int %s = strview_split_all(5, %s, %s, \",\", false); if(%s != %d) return 1; %s; return 0;" % (v[0], q(t), v[1], v[2], v[1], v[0], v[2], n, "; ".join("if(!%s) return 1" % (EQ % ("%s[%d]" % (v[1], i), q(x))) for i, x in enumerate(f)))
@snip("delim", "strview.h")
def _(r, v):
    a, b = word(r, 0, 4, "ab"), word(r, 0, 4, "ab.")
    return "strview_t %s = cstr(%s); strview_t %s = strview_split_first_delim(&%s, \"-+\", %s); return !(%s && %s);" % (v[0], q(a + r.choice("-+") + b), v[1], v[0], r.choice(["false", "true"]), EQ % (v[1], q(a)), EQ % (v[0], q(b)))
@snip("line", "strview.h")
def _(r, v):
    a, b = word(r, 0, 4), word(r, 0, 4)
    return "char %s = 0; strview_t %s = cstr(%s); strview_t %s = strview_split_line(&%s, &%s); return !(%s && %s);" % (v[0], v[1], q(a + "\n" + b), v[2], v[1], v[0], EQ % (v[2], q(a)), EQ % (v[1], q(b)))
@snip("misc", "strview.h")
def _(r, v):
    t = word(r, 2, 6); return "strview_t %s = cstr(%s), %s = cstr(\"'%s'\"); char %s = strview_pop_first_char(&%s); char %s[20]; strview_swap(&%s, &%s); return !(%s == '%s' && %s && %s && same_text(cstr(strview_to_cstr(%s, sizeof %s, %s)), \"'%s'\"));" % (
        v[0], q(t), v[1], t, v[2], v[0], v[3], v[0], v[1], v[2], t[0], EQ % (v[1], q(t[1:])), EQ % ("strview_dequote(%s)" % v[0], q(t)), v[3], v[3], v[0], t)
@snip("printf", "strview.h", std="stdio.h")
def _(r, v):
    t = word(r); n = r.randint(0, 99); return "char %s[60]; strview_t %s = cstr(%s); int %s = snprintf(%s, sizeof %s, \"[%%\" PRIstr \"]%%d\", PRIstrarg(%s), %d); return !(%s == %d && same_text(cstr(%s), %s));" % (v[0], v[1], q(t), v[2], v[0], v[0], v[1], n, v[2], len("[%s]%d" % (t, n)), v[0], '"[%s]%d"' % (t, n))
def fixed(r, v, cap): return r.choice(["strbuf_t* %s = STRBUF_FIXED_CAP(%d)" % (v, cap), "static strbuf_space_t(%d) room_of_%s = STRBUF_STATIC_INIT(%d); strbuf_t* %s = (strbuf_t*)&room_of_%s" % (cap, v, cap, v, v),
                                       "char mem_of_%s[%d + 100] __attribute__((aligned)); strbuf_t* %s = strbuf_create_fixed(mem_of_%s, sizeof mem_of_%s)" % (v, cap, v, v, v)])
@snip("fixed", "strbuf.h")
def _(r, v):
    a, b, c = word(r), word(r), word(r); return "%s; strview_t %s = cstr(%s); strbuf_assign(&%s, cstr(%s)); strbuf_append(&%s, %s); strbuf_prepend(&%s, %s); strbuf_append_char(&%s, '!'); return !%s;" % (
        fixed(r, v[0], r.randint(40, 200)), v[1], q(b), v[0], q(a), v[0], v[1], v[0], q(c), v[0], EQ % ("strbuf_view(&%s)" % v[0], '"%s%s%s!"' % (c, a, b)))
@snip("cat", "strbuf.h")
def _(r, v):
    ts = [word(r, 0, 3) for _ in range(r.choice([1, 2, 3, 9, 10, 60, 100, 126, 127]))]
    return "%s; strview_t %s[%d] = { %s }; return !(%s && !%s->cstr[%d]);" % (fixed(r, v[0], 400), v[1], len(ts), ", ".join("cstr_SL(%s)" % q(t) for t in ts),
        EQ % ("strbuf_cat(&%s, %s)" % (v[0], ", ".join("%s[%d]" % (v[1], i) for i in range(len(ts)))), q("".join(ts))), v[0], len("".join(ts)))
@snip("insert", "strbuf.h")
def _(r, v):
    a, b = word(r, 2, 6, "abc"), word(r, 0, 4, "XYZ"); i = r.randint(0, len(a)); k = r.randrange(3); n = r.choice([q(b), v[2], "cstr(%s)" % q(b)])
    call = ["strbuf_insert_at_index(&%s, %d, %s)" % (v[0], i, n), "strbuf_insert_before(&%s, strview_sub(%s, %d, 100), %s)" % (v[0], v[1], min(i, len(a) - 1), n), "strbuf_insert_after(&%s, strview_sub(%s, 0, %d), %s)" % (v[0], v[1], max(i, 1), n)][k]
    at = [i, min(i, len(a) - 1), max(i, 1)][k]
    return "%s; const char* %s = %s; strview_t %s = strbuf_assign(&%s, cstr(%s)); (void)%s; (void)%s; %s; return !%s;" % (fixed(r, v[0], 60), v[2], q(b), v[1], v[0], q(a), v[1], v[2], call, EQ % ("strbuf_view(&%s)" % v[0], q(a[:at] + b + a[at:])))
@snip("strip", "strbuf.h")
def _(r, v):
    a = word(r, 0, 9, "abcd"); n = r.choice(['"bd"', 'cstr("db")', v[1]])
    return "%s; char %s[] = \"bd\"; (void)%s; strbuf_assign(&%s, cstr(%s)); strbuf_strip(&%s, %s); return !%s;" % (fixed(r, v[0], 30), v[1], v[1], v[0], q(a), v[0], n, EQ % ("strbuf_view(&%s)" % v[0], q(a.replace("b", "").replace("d", ""))))
@snip("alloc", "strbuf.h")
def _(r, v):
    a, b = word(r), word(r); return "strbuf_allocator_t %s = { .allocator = user_allocator }; strbuf_t* %s = strbuf_create(%s, &%s); strbuf_grow(&%s, %d); strbuf_append(&%s, %s); int %s = %s && strbuf_shrink(&%s).size == %d; strbuf_destroy(&%s); return !(%s && !%s);" % (
        v[0], v[1], "cstr(%s)" % q(a), v[0], v[1], r.randint(0, 90), v[1], q(b), v[2], EQ % ("strbuf_view(&%s)" % v[1], q(a + b)), v[1], len(a + b), v[1], v[2], v[1])
@snip("default", "strbuf.h", default=True)
def _(r, v):
    a = word(r); return "strbuf_t* %s = strbuf_create(%d, NULL); strbuf_append(&%s, %s); int %s = %s; strbuf_destroy(&%s); return !(%s && !%s);" % (v[0], r.randint(0, 60), v[0], q(a), v[1], EQ % ("strbuf_view(&%s)" % v[0], q(a)), v[0], v[1], v[0])
@snip("bufprintf", "strbuf.h", printf=True)
def _(r, v):
    n = r.randint(-999, 9999); t = word(r); return "%s; int %s = %d; strbuf_printf(&%s, \"%%d\", %s); strbuf_append_printf(&%s, \"/%%s\", %s); return !%s;" % (fixed(r, v[0], 40), v[1], n, v[0], v[1], v[0], q(t), EQ % ("strbuf_view(&%s)" % v[0], '"%d/%s"' % (n, t)))
@snip("bufprnf", "strbuf.h", prnf=True)
def _(r, v):
    n = r.randint(-999, 9999); return "%s; strbuf_prnf(&%s, \"%%d\", %d); strbuf_append_prnf(&%s, \"/%%d\", %d); return !%s;" % (fixed(r, v[0], 40), v[0], n, v[0], n, EQ % ("strbuf_view(&%s)" % v[0], '"%d/%d"' % (n, n)))
NT = [("unsigned char", 8, 0), ("unsigned short", 16, 0), ("unsigned int", 32, 0), ("unsigned long", 64, 0), ("unsigned long long", 64, 0), ("char", 7, 0), ("short", 16, 1), ("int", 32, 1), ("long", 64, 1), ("long long", 64, 1)]
@snip("value", "strnum.h")
def _(r, v):
    ty, bits, sg = r.choice(NT); n = r.getrandbits(r.randint(1, bits - sg)); t = str(n); e = word(r, 0, 3, ",;x"); o = r.choice(["STRNUM_DEFAULT", "0", "STRNUM_NOBX", "STRNUM_NOSIGN|STRNUM_NOSPACE"])
    return "%s %s = 0; strview_t %s = cstr(%s); int %s = strnum_value(&%s, &%s, %s); return !(!%s && %s == %d%s && %s);" % (ty, v[0], v[1], q(t + "," + e), v[2], v[0], v[1], o, v[2], v[0], n, "ull" if n > 2**63 - 1 else "ll" if n > 2**31 - 1 else "", EQ % (v[1], q("," + e)))
@snip("dfault", "strnum.h")
def _(r, v):
    k = r.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]); n = r.randint(0, 127); d = r.randint(0, 99); bad = r.random() < .4
    return "strview_t %s = cstr(%s); %sint%s_t %s = strnum_%s(%s, %d, %s); return !(%s == %d && %s);" % (v[0], q("zz" if bad else "%d" % n), "u" if k[0] == "u" else "", k[1:], v[1], k, v[0], d, r.choice(["0", "STRNUM_NOSPACE"]), v[1], d if bad else n, EQ % (v[0], q("zz" if bad else "%d" % n)))
@snip("errnos", "strnum.h")
def _(r, v):
    return "int %s = 5; strview_t %s = cstr(\"99999999999\"), %s = cstr(\"-\"); return !(strnum_value(&%s, &%s, 0) == ERANGE && strnum_value(&%s, &%s, 0) == EINVAL && %s == 5);" % (v[0], v[1], v[2], v[0], v[1], v[0], v[2], v[0])
@snip("float", "strnum.h", flt=True)
def _(r, v):
    ty = r.choice(["float", "double", "long double"]); n = r.randint(0, 4000); f = r.choice(["", ".5", ".25", ".0"]); return "%s %s = 0; strview_t %s = cstr(%s); return !(!strnum_value(&%s, &%s, 0) && %s == %d%s && !%s.size && strnum_double(cstr(\"x\"), 0.5, 0) == 0.5);" % (ty, v[0], v[1], q("%d%s" % (n, f)), v[0], v[1], v[0], n, f if f else ".0", v[1])
PT = [("int8_t", 1, 1), ("uint8_t", 1, 0), ("int16_t", 2, 1), ("uint16_t", 2, 0), ("int32_t", 4, 1), ("uint32_t", 4, 0), ("int64_t", 8, 1), ("uint64_t", 8, 0)]
def num(r, n, sg):
    x = r.getrandbits(8 * n); y = x - (1 << 8 * n) if sg and x >> (8 * n - 1) else x
    c = "(-%dll-1)" % (-y - 1) if y < 0 else "%d%s" % (y, "ull" if y > 2**63 - 1 else "ll")
    return x, c
def b(n, x, be): return "".join("\\%03o" % c for c in x.to_bytes(n, "big" if be else "little"))
@snip("pack", "strbuf_pack.h")
def _(r, v):
    ty, n, sg = r.choice(PT); x, c = num(r, n, sg); be = r.random() < .5
    return "%s; strbuf_t** %s = &%s; %s %s = (%s)%s; strbuf_append_char(%s, '<'); STRBUF_PACK_%s(%s, %s); STRBUF_PACK_%s(&%s, (%s)1); return !(strbuf_view(%s).size == %d && same_bytes(%s->cstr, \"<%s%s\", %d) && %s == (%s)%s);" % (
        fixed(r, v[0], 40), v[1], v[0], ty, v[2], ty, c, v[1], "BE" if be else "LE", v[1], v[2], "LE" if be else "BE", v[0], ty, v[1], 1 + 2 * n, v[0], b(n, x, be), b(n, 1, not be), 1 + 2 * n, v[2], ty, c)
@snip("unpack", "strview_unpack.h")
def _(r, v):
    ty, n, sg = r.choice(PT); x, c = num(r, n, sg); be = r.random() < .5; k = r.randint(0, 5)
    return "strview_t %s = cstr_SL(\"%s%s\"); %s %s; if(%d) STRVIEW_UNPACK_%s(%s, %s); else return 2; return !(%s == (%s)%s && %s.size == %d);" % (v[0], b(n, x, be), "." * k, ty, v[1], 1, "BE" if be else "LE", v[1], v[0], v[1], ty, c, v[0], k)
@snip("swap", "xendian.h")
def _(r, v):
    ty, n, sg = r.choice(PT); x, c = num(r, n, sg); y = int.from_bytes(x.to_bytes(n, "big"), "little")
    return "%s %s = (%s)%s, %s = xendian_SWAP(%s); return !(%s == (%s)%dull && xendian_unpack_BE(xendian_pack_BE(%s)) == %s && xendian_unpack_LE(xendian_pack_LE(%s)) == %s);" % (ty, v[0], ty, c, v[1], v[0], v[1], ty, y, v[0], v[0], v[0], v[0])
@snip("bufio", "strbuf_io.h")
def _(r, v): return "strbuf_t* %s = NULL; int %s = strbuf_write(-1, &%s); return !(%s == 0 && strbuf_append_read(&%s, -1) == 0 && strbuf_write(-1, NULL) == 0);" % (v[0], v[1], v[0], v[1], v[0])
@snip("viewio", "strview_io.h")
def _(r, v): return "strview_t %s = STRVIEW_INVALID; int %s = strview_write(-1, &%s); return !(%s == 0 && !strview_is_valid(%s));" % (v[0], v[1], v[0], v[1], v[0])
@snip("crypt", "strbuf_crypt/strbuf_crypt.h")
def _(r, v):
    t = word(r, 0, 40); return "%s; uint8_t %s[32] = { %d }, %s[16] = { %d }; strbuf_assign(&%s, cstr(%s)); strview_t %s = strbuf_encrypt(&%s, %s, %s); if(%s.size != %d) return 1; return !%s;" % (
        fixed(r, v[0], 64), v[1], r.randrange(256), v[2], r.randrange(256), v[0], q(t), v[3], v[0], v[1], v[2], v[3], len(t) // 16 * 16 + 16, EQ % ("strbuf_decrypt(&%s, %s, %s)" % (v[0], v[1], v[2]), q(t)))

# (declarations outside of the function, body)
@snip("outside", "strbuf.h", gnu=True)
def _(r, v):
    a, b = word(r), word(r); n = r.randint(30, 300); u = "%d" % r.getrandbits(30); k = r.randrange(3)
    top = ["static strbuf_t* own%s_%s = STRBUF_FIXED_CAP(%d);" % (u, v[0], n), "static strbuf_space_t(%d) room%s = STRBUF_STATIC_INIT(%d); static strbuf_t* own%s_%s = (strbuf_t*)&room%s;" % (n, u, n, u, v[0], u),
           "enum { cap%s = %d }; static strbuf_space_t(cap%s + 1) room%s = STRBUF_STATIC_INIT(cap%s + 1); static strbuf_t* own%s_%s = &room%s.buf;" % (u, n - 1, u, u, u, u, v[0], u)][k]
    x = "own%s_%s" % (u, v[0])
    return top, "if(%s->size || %s->capacity != %d || %s->cstr[0]) return 1; strbuf_append(&%s, cstr(%s)); strbuf_append(&%s, %s); return !%s;" % (x, x, n, x, x, q(a), x, q(b), EQ % ("strbuf_view(&%s)" % x, q(a + b)))
@snip("spaces", "strbuf.h")
def _(r, v):
    a, b = word(r), word(r); n, m = r.randint(10, 99), r.randint(10, 99); st = r.choice(["static ", ""])
    return "%sstrbuf_space_t(%d) %s = STRBUF_STATIC_INIT(%d); %sstrbuf_space_t(%d) %s = STRBUF_STATIC_INIT(%d); strbuf_t *%s = &%s.buf, *%s = (strbuf_t*)&%s; strbuf_append(&%s, %s); strbuf_append(&%s, %s); return !(%s && %s && %s->capacity == %d && %s->capacity == %d && sizeof %s > %d && sizeof %s > %d);" % (
        st, n, v[0], n, st, m, v[1], m, v[2], v[0], v[3], v[1], v[2], q(a), v[3], q(b), EQ % ("strbuf_view(&%s)" % v[2], q(a)), EQ % ("strbuf_view(&%s)" % v[3], q(b)), v[2], n, v[3], m, v[0], n, v[1], m)
@snip("viewoutside", "strview.h", gnu=True)
def _(r, v):
    t = word(r); u = "%d" % r.getrandbits(30); return "static strview_t text%s = cstr_SL(%s), none%s = STRVIEW_INVALID; static const strview_t texts%s[] = { cstr_SL(%s), cstr_SL(\"x\"), STRVIEW_INVALID };" % (u, q(t), u, u, q(t)), "return !(%s && %s && texts%s[1].size == 1 && !strview_is_valid(none%s) && !strview_is_valid(texts%s[2]));" % (EQ % ("text" + u, q(t)), EQ % ("texts%s[0]" % u, q(t)), u, u, u)
@snip("options", "strnum.h")
def _(r, v):
    k = r.randrange(5); n = r.getrandbits(r.randint(1, 31)); t, o, w = [("%x" % n, "STRNUM_BASE_HEX", n), ("{:b}".format(n), "STRNUM_BASE_BIN", n), ("0x%x" % n, "0", n), ("0b" + "{:b}".format(n), "STRNUM_DEFAULT", n), ("0x%x" % n, "STRNUM_NOBX", 0)][k]
    return "unsigned %s = 7; strview_t %s = cstr(%s), %s = cstr(%s); return !(!strnum_value(&%s, &%s, %s) && %s == %du && %s.size == %d && strnum_value(&%s, &%s, STRNUM_NOSPACE) == EINVAL);" % (v[0], v[1], q(t), v[2], q(" 5"), v[0], v[1], o, v[0], w, v[1], len(t) - 1 if k == 4 else 0, v[0], v[2])
@snip("expo", "strnum.h", flt=True)
def _(r, v):
    n = r.randint(0, 999); e = r.randint(0, 9); ne = r.random() < .5; return "double %s = 7; strview_t %s = cstr(%s); return !(!strnum_value(&%s, &%s, %s) && %s == %s && %s.size == %d);" % (v[0], v[1], q("%de%d" % (n, e)), v[0], v[1], "STRNUM_NOEXP" if ne else "0", v[0], "%d.0" % n if ne else "%d.0" % (n * 10 ** e), v[1], 2 if ne else 0)

HELP = """static int same_bytes(const char* p1_, const char* p2_, int n_) { while(n_ > 0) { n_--; if(p1_[n_] != p2_[n_]) return 0; } return 1; }
static int same_text(strview_t v_, const char* p_) { int n_ = 0; while(p_[n_]) n_++; return v_.data && v_.size == n_ && same_bytes(v_.data, p_, n_); }
"""
ALLOC = """static void* user_allocator(struct strbuf_allocator_t* a_, void* p_, size_t n_) { (void)a_; if(!n_) { __builtin_free(p_); return 0; } return __builtin_realloc(p_, n_); }
"""
CONFIGS = {"all": dict(printf=1, prnf=1, default=1, flt=1), "nofloat": dict(printf=1, prnf=1, default=1, flt=0), "noprintf": dict(printf=0, prnf=1, default=1, flt=1), "noprnf": dict(printf=1, prnf=0, default=1, flt=1),
           "nodefault": dict(printf=1, prnf=1, default=0, flt=1), "minimal": dict(printf=0, prnf=0, default=0, flt=0), "user": dict(printf=1, prnf=0, default=2, flt=1)}
def flags(c):
    o = CONFIGS[c]; return ["-DSTRBUF_PROVIDE_PRINTF"] * o["printf"] + ["-DSTRBUF_PROVIDE_PRNF"] * o["prnf"] + ["-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB"] * (o["default"] == 1) + ["-DSTRNUM_NOFLOAT"] * (not o["flt"])

KEYWORDS = set("return sizeof else case goto do while for if int char short long unsigned signed void const static extern struct union enum typedef break continue default switch volatile inline auto register float double".split())
def hot_names(repo):
    """{header: those of NAMES that occur in its macros}: names more likely than others to meet one the macro uses itself"""
    hot = {}
    for h in HEADERS:
        f = os.path.join(repo, h); f = f if os.path.exists(f) else os.path.join(repo, "accessories", h); ids = set(); bodies = []
        if os.path.exists(f):
            t = open(f, errors="replace").read().replace("\r", ""); t = re.sub(r"//[^\n\\]*", "", re.sub(r"\\[ \t]*\n", " ", re.sub(r"/\*.*?\*/", " ", t, flags=re.S)))
            bodies = re.findall(r"^[ \t]*#[ \t]*define\b(.*)", t, re.M)
            for m in bodies: ids |= set(re.findall(r"[A-Za-z_]\w*", m))
        # and what looks like a variable of the macro's own, under a plain name (one word) that a user may have
        own = {n for m in bodies for n in re.findall(r"[A-Za-z_]\w*[\s*]+([a-z]+\b)\s*(?:=(?!=)|;|\[)", m)} - set(NAMES)
        hot[h] = [n for n in NAMES if n in ids] + sorted(n for n in own if not n.startswith(("str", "xendian", "pp")) and n not in KEYWORDS)
    return hot
def gen(r, hot={}):
    case = dict(cc=r.choice(["gcc", "clang"]), std=r.choice(["gnu11", "gnu11", "gnu17", "gnu2x", "gnu99", "c11", "c17"]), opt=r.choice(["-O0", "-O0", "-O1"]), config=r.choice(list(CONFIGS)), files=[], names=[])
    if r.random() < .4: case["names"] = r.sample(FNAMES, r.randint(1, 8))
    o = CONFIGS[case["config"]]; gnu = case["std"].startswith("gnu")
    for k in range(r.choice([1, 1, 2, 2, 3])):
        hs = r.sample(HEADERS, r.choice([1, 1, 1, 2, 2, 3, 4, 6, 9])); given = set().union(*(GIVES[h] for h in hs))
        if r.random() < .3: hs.insert(r.randint(0, len(hs)), r.choice(hs))
        st = r.sample(STDH, r.choice([0, 0, 0, 1, 2, 5]))
        ok = [n for n, (h, kw, _) in S.items() if h <= given and not (kw.get("printf") and not o["printf"]) and not (kw.get("prnf") and not o["prnf"]) and not (kw.get("default") and not o["default"]) and not (kw.get("flt") and not o["flt"])
              and (gnu or not (kw.get("gnu") or n == "pack"))]
        f = dict(incs=[], snips=[])
        # macros of the user's own, defined before or after the headers
        f["macros"] = [[n, r.choice(["", "x_"]), r.randint(100, 999), r.random() < .5] for n in r.sample(MACROS, r.randint(1, 6))] if r.random() < .3 else []
        todo = [("own", h) for h in hs]
        for h in st: todo.insert(r.randint(0, len(todo)), ("std", h))
        # the functions that use a header may come before the next header is included
        def pick():
            if r.random() < .6: return r.choice(ok)
            h = r.choice(sorted(given)); return r.choice([n for n in ok if h in S[n][0]] or ok)
        for n in (pick() for _ in range(r.randint(1, 5))):
            v = r.sample(NAMES, 5)
            near = [x for h in sorted(S[n][0]) for x in hot.get(h, [])]
            if near and r.random() < .6: # the first names a snippet uses
                for j, x in enumerate(r.sample(near, min(3, len(near)))):
                    if x in v: v[v.index(x)] = v[j]
                    v[j] = x
            f["snips"].append(dict(name=n, v=v, seed=r.getrandbits(32)))
            need = S[n][1].get("std")
            if need and ("std", need) not in todo: todo.insert(0, ("std", need))
        f["incs"] = todo; f["early"] = r.random() < .3
        case["files"].append(f)
    if not valid(case): case["config"] = "noprnf" if any(s["name"] == "default" for f in case["files"] for s in f["snips"]) else "nodefault" if any(s["name"] == "bufprnf" for f in case["files"] for s in f["snips"]) else "noprnf"
    return case
def texts(case):
    out = []; o = CONFIGS[case["config"]]
    for k, f in enumerate(case["files"]):
        mac = f.get("macros", []); define = lambda first: "".join("#define %s%s %d\n" % (n, "(%s)" % a if a else "", x) for n, a, x, b in mac if b == first)
        t = define(True); given = set(); std = set(); todo = list(enumerate(f["snips"])); help_ = alloc = False; incs = list(f["incs"])
        for j, (kind, h) in enumerate(incs):
            t += "#include <%s>\n" % h if kind == "std" else '#include "%s"\n' % h
            if kind == "std": std.add(h)
            else: given |= GIVES[h]
            last = j == len(incs) - 1
            if last: t += define(False)
            if not (f["early"] or last): continue
            if "strview.h" in given and not help_: t += HELP; help_ = True
            if "strbuf.h" in given and not alloc:
                t += ALLOC; alloc = True
                if k == 0 and o["default"] == 2: t += "strbuf_allocator_t strbuf_default_allocator = { .allocator = user_allocator };\n"
            for x in list(todo): # as soon as what it uses is there
                i, s = x; need = S[s["name"]]
                if need[0] <= given and (not need[1].get("std") or need[1]["std"] in std):
                    body = need[2](random.Random(s["seed"]), s["v"])
                    if isinstance(body, tuple): t += body[0] + "\n"; body = body[1]
                    t += "static int use%d_%d(void) { %s }\n" % (k, i, body); todo.remove(x)
        assert not todo
        if k == 0: t += "".join("int %s(int n_) { return n_ + %d; }\n" % (n, i) for i, n in enumerate(case["names"]))
        t += "int run%d(void);\nint run%d(void) { int bad_ = 0; (void)bad_;\n%s return 0; }\n" % (k, k, "".join(" if(use%d_%d()) return %d;\n" % (k, i, i + 1) for i in range(len(f["snips"]))) + "".join(" if(%s%s != %d) return 9;\n" % (n, "(0)" if a else "", x) for n, a, x, b in mac))
        if k == 0:
            t += "".join("int run%d(void);\n" % j for j in range(1, len(case["files"])))
            t += "int main(void) { int r_; (void)r_;\n%s%s return 0; }\n" % ("".join(" r_ = run%d(); if(r_) return %d + r_;\n" % (j, 10 * j) for j in range(len(case["files"]))), "".join(" if(%s(%d) != %d) return 99;\n" % (n, i, 2 * i) for i, n in enumerate(case["names"])))
        out.append(t)
    return out
WERR = ["-w", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-Werror=return-type"]
def valid(case):
    """the user default allocator lives in the first file, which then has to know strbuf.h"""
    o = CONFIGS[case["config"]]
    if o["default"] == 2: return any(h == "strbuf.h" or "strbuf.h" in GIVES[h] for kd, h in case["files"][0]["incs"] if kd == "own")
    return True
class Runner:
    def __init__(self, repo, tmp, user_objs): self.repo, self.tmp, self.objs, self.n = repo, tmp, user_objs, 0
    def run(self, case, d):
        """None when all is well, otherwise (stage, output)"""
        os.makedirs(d, exist_ok=True); objs = []
        inc = ["-I" + self.repo, "-I" + self.repo + "/accessories"] + (["-I" + self.repo + "/test"] if CONFIGS[case["config"]]["prnf"] else [])
        for k, t in enumerate(texts(case)):
            c = os.path.join(d, "f%d.c" % k); open(c, "w").write(t); ob = os.path.join(d, "f%d.o" % k); objs.append(ob)
            p = subprocess.run([case["cc"], "-std=" + case["std"], "-fdiagnostics-color=never", case["opt"]] + WERR + inc + flags(case["config"]) + ["-c", c, "-o", ob], capture_output=True, text=True, errors="replace", timeout=120)
            if p.returncode: return ("file %d does not compile" % k, p.stderr[-3000:])
        exe = os.path.join(d, "prog")
        p = subprocess.run([case["cc"]] + objs + self.objs[(case["cc"], case["config"])] + ["-lm", "-o", exe], capture_output=True, text=True, errors="replace", timeout=120)
        if p.returncode: return ("the files do not link", p.stderr[-3000:])
        try: p = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=60, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired: return ("the program does not end", "")
        if p.returncode: return ("the program reports a wrong result", "exit status %d (10 * file + function counted from 1, 9: a macro of the user's own; 99: a function of the user's own)\n%s" % (p.returncode, p.stdout + p.stderr))
        return None
def shrink(rn, case, d, stage, secs):
    end = time.time() + secs; kind = stage.split(" ", 2)[-1] if stage.startswith("file") else stage
    def bad(c):
        if time.time() > end or not c["files"] or not valid(c): return False
        x = rn.run(c, d); return x is not None and (x[0].endswith(kind))
    progress = True
    while progress and time.time() < end:
        progress = False
        def attempt(c):
            nonlocal case, progress
            if bad(c): case = c; progress = True; return True
            return False
        cp = lambda: json.loads(json.dumps(case))
        for k in reversed(range(len(case["files"]))):
            if len(case["files"]) > 1: c = cp(); del c["files"][k]; attempt(c)
        for k in range(len(case["files"])):
            for i in reversed(range(len(case["files"][k]["snips"]))):
                if i < len(case["files"][k]["snips"]): c = cp(); del c["files"][k]["snips"][i]; attempt(c)
            for i in reversed(range(len(case["files"][k]["incs"]))):
                c = cp(); x = c["files"][k]["incs"]
                if i >= len(x): continue
                del x[i]; given = set().union(set(), *(GIVES[h] for kd, h in x if kd == "own"))
                if all(S[s["name"]][0] <= given and (not S[s["name"]][1].get("std") or ["std", S[s["name"]][1]["std"]] in [list(y) for y in x]) for s in c["files"][k]["snips"]): attempt(c)
            for i, s in enumerate(case["files"][k]["snips"]):
                c = cp(); c["files"][k]["snips"][i]["v"] = ["v%d_" % j for j in range(5)]
                if c["files"][k]["snips"][i]["v"] != s["v"]: attempt(c)
        if case["names"]: c = cp(); c["names"] = []; attempt(c)
        for k in range(len(case["files"])):
            for i in reversed(range(len(case["files"][k].get("macros", [])))): c = cp(); del c["files"][k]["macros"][i]; attempt(c)
        for key, val in (("config", "all"), ("std", "gnu11"), ("cc", "gcc"), ("opt", "-O0")):
            if case[key] != val: c = cp(); c[key] = val; attempt(c)
    return case

LIBS = ["strbuf.c", "strview.c", "strnum.c", "accessories/strbuf_io.c", "accessories/strview_io.c", "accessories/strbuf_crypt/strbuf_crypt.c"]
def library(R, d):
    """{(cc, config): [objects]}: the library as a user builds it"""
    os.makedirs(d, exist_ok=True); jobs = {}; objs = {}
    for cc in ("gcc", "clang"):
        for c in CONFIGS:
            l = objs[(cc, c)] = []
            for f in LIBS + (["test/prnf.c"] if CONFIGS[c]["prnf"] else []) + ["%s/%s.c" % (R.AES_DIR, a) for a in R.AES]:
                aes = "/aes/" in f; o = os.path.join(d, "%s-%s-%s.o" % (cc, "all" if aes else c, os.path.basename(f)[:-2])); l.append(o)
                jobs[o] = [cc, "-std=gnu99", "-w", "-O1", "-DPLATFORM_PC"] + ([] if aes else flags(c)) + R.INC + ["-c", os.path.join(R.REPO, f), "-o"]
    def one(o):
        if os.path.exists(o): return None
        p = subprocess.run(jobs[o] + [o + ".tmp"], capture_output=True, text=True, errors="replace")
        if p.returncode: return (jobs[o], p.stderr)
        os.rename(o + ".tmp", o)
    with cf.ThreadPoolExecutor(R.JOBS) as ex: bad = [x for x in ex.map(one, jobs) if x]
    return objs, bad
N = {"quick": 2000, "thorough": 24000}
def setup(R):
    b = R.Builder()
    try: return library(R, os.path.join(b.dir, "inc"))
    finally: b.close()
def nontrivial(case): return len(case["files"]) > 1 or sum(len(f["snips"]) for f in case["files"]) > 1 or any(len(f["incs"]) > 1 for f in case["files"])
def check(R, tier, seed):
    ck = R.Check("C36", tier, seed); objs, bad = setup(R)
    ck.ev["rule"] = "a program of at least two files, two library uses or two included headers"
    if bad: print(" ".join(bad[0][0])); print(bad[0][1][-3000:]); print("the library does not compile"); return 2
    ck.log("library built"); tmp = tempfile.mkdtemp(prefix="vf-C36-"); rn = Runner(R.REPO, tmp, objs); found = []; hot = hot_names(R.REPO); lab = ck.ev["labels"]
    end = time.time() + (400 if tier == "quick" else 3000)
    def one(i):
        if found or time.time() > end: return None
        case = gen(random.Random("%d/%d" % (seed, i)), hot); d = os.path.join(tmp, "c%d" % i)
        try: x = rn.run(case, d)
        except subprocess.TimeoutExpired: return (case, "slow")
        shutil.rmtree(d, ignore_errors=True)
        if x: found.append((i, case, x))
        return (case, None)
    try:
        with cf.ThreadPoolExecutor(R.JOBS) as ex:
            for y in ex.map(one, range(N[tier])):
                if not y: continue
                case, note = y
                if note: ck.notes.append(note); continue
                ck.ev["evaluations"] += 1
                for l in [case["cc"], case["std"], "config " + case["config"], "%d files" % len(case["files"])] + ["use " + s["name"] for f in case["files"] for s in f["snips"]] + (["own function names"] if case["names"] else []) + (["own macros"] if any(f["macros"] for f in case["files"]) else []) + (["a single header"] if any(len([1 for kd, h in f["incs"] if kd == "own"]) == 1 for f in case["files"]) else []): lab[l] = lab.get(l, 0) + 1
                if nontrivial(case): ck.ev["hashes"].add(hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16])
                if len(ck.ev["samples"]) < 4 and len(case["files"]) == 1 and nontrivial(case): ck.ev["samples"].append("%s -std=%s, configuration %s\n%s" % (case["cc"], case["std"], case["config"], texts(case)[0]))
        for i, case, x in sorted(found, key=lambda f: f[0])[:1]:
            ck.log("program %d: %s; confirming" % (i, x[0])); d = os.path.join(tmp, "shrink")
            case = json.loads(json.dumps(case))
            if not all(rn.run(case, d) for _ in range(2)): ck.notes.append("a failure did not reproduce: " + x[0]); continue
            case = shrink(rn, case, d, x[0], 60 if tier == "quick" else 200); x = rn.run(case, d) or x
            rp = ck.replay_path("case"); json.dump(dict(property="C36", kind="program", case=case, files=texts(case), stage=x[0], output=x[1]), open(rp, "w"), indent=1)
            print("%s -std=%s, configuration %s: %s" % (case["cc"], case["std"], case["config"], x[0]))
            for k, t in enumerate(texts(case)): print("--- file %d\n%s" % (k, t))
            print(x[1][-3000:]); ck.evidence(1); print("VIOLATION property=C36 replay=%s" % rp, flush=True); return 1
    finally: shutil.rmtree(tmp, ignore_errors=True)
    ck.evidence(0)
    if not ck.ev["evaluations"]: print("no case completed"); return 2
    ck.log("held on %d cases, %d distinct non-trivial" % (ck.ev["evaluations"], len(ck.ev["hashes"])))
    for n in ck.notes: ck.log("note: " + n)
    return 0
def replay(R, r, path):
    objs, bad = setup(R)
    if bad: print(bad[0][1][-2000:]); return 2
    tmp = tempfile.mkdtemp(prefix="vf-C36-")
    try: x = Runner(R.REPO, tmp, objs).run(r["case"], os.path.join(tmp, "r"))
    finally: shutil.rmtree(tmp, ignore_errors=True)
    if not x: print("exit 0"); return 0
    for k, t in enumerate(texts(r["case"])): print("--- file %d\n%s" % (k, t))
    print(x[0]); print(x[1]); print("VIOLATION property=C36 replay=%s" % path); return 1
