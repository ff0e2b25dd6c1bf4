// handlebars.c headers for C++ (some of them open extern "C" without closing it)
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <csetjmp>
#include <cassert>
#include <cstdbool>
#include <memory.h>
#include <time.h>
#include <string>
extern "C" {
#include <talloc.h>
#define HANDLEBARS_CACHE_PRIVATE
#define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
#define HANDLEBARS_HELPERS_PRIVATE
#include "handlebars.h"
#undef HBS_EXTERN_C_START
#undef HBS_EXTERN_C_END
#define HBS_EXTERN_C_START
#define HBS_EXTERN_C_END
#include "handlebars_value_private.h"
#include "handlebars_memory.h"
#include "handlebars_ast.h"
#include "handlebars_ast_printer.h"
#include "handlebars_cache.h"
#include "handlebars_closure.h"
#include "handlebars_compiler.h"
#include "handlebars_delimiters.h"
#include "handlebars_helpers.h"
#include "handlebars_json.h"
#include "handlebars_map.h"
#include "handlebars_module_printer.h"
#include "handlebars_opcodes.h"
#include "handlebars_opcode_printer.h"
#include "handlebars_opcode_serializer.h"
#include "handlebars_parser.h"
#include "handlebars_partial_loader.h"
#include "handlebars_ptr.h"
#include "handlebars_rc.h"
#include "handlebars_stack.h"
#include "handlebars_string.h"
#include "handlebars_token.h"
#include "handlebars_value.h"
#include "handlebars_value_handlers.h"
#include "handlebars_vm.h"
#include "handlebars_yaml.h"
#include "handlebars_cache_private.h"
}
#include "core.h"

typedef handlebars_context hctx;
typedef handlebars_string hstr;
typedef handlebars_value hval;

// Run f with an error trap on ctx. Returns 0, or the error number thrown.
template <class F> static inline int hb_try(hctx *ctx, F f) {
    jmp_buf b;
    jmp_buf *volatile prev = ctx->e->jmp;
    int rc = handlebars_setjmp_ex(ctx, &b);
    if (rc == 0) f();
    ctx->e->jmp = prev;
    return rc;
}
static inline void hb_clear(hctx *ctx) { ctx->e->num = HANDLEBARS_SUCCESS; ctx->e->msg = nullptr; memset(&ctx->e->loc, 0, sizeof ctx->e->loc); }
static inline std::string S(hstr *s) { return s ? std::string(hbs_str_val(s), hbs_str_len(s)) : std::string(); }
static inline hstr *mkstr(hctx *c, const std::string &s) { return handlebars_string_ctor(c, s.data(), s.size()); }
