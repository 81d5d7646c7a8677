#include "shim.h"
#include "strview.h"
#include "strbuf.h"
#include "accessories/strbuf_crypt/strbuf_crypt.h"

static SV vf_out(strview_t v) { return (SV){ v.data, v.size }; }

SV vb_encrypt(SB** b, uint8_t* k, uint8_t* v) { return vf_out(strbuf_encrypt(b, k, v)); }
SV vb_decrypt(SB** b, uint8_t* k, uint8_t* v) { return vf_out(strbuf_decrypt(b, k, v)); }
