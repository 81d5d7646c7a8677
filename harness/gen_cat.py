import sys
o = ["// generated by gen_cat.py: one strbuf_cat() call site per argument count", "static strview_t cat_n(strbuf_t** b, int n, const strview_t* A)", "{", "\tswitch(n)", "\t{"]
for n in range(1, 128):
    o.append("\t\tcase %d: return strbuf_cat(b, %s);" % (n, ",".join("A[%d]" % i for i in range(n))))
o += ["\t}", "\treturn STRVIEW_INVALID;", "}", ""]
open(sys.argv[1], "w").write("\n".join(o))
