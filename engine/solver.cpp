#include <unistd.h>
#include "expr.h"
ExprPool P;
Z3_context Z;
static Z3_sort bvs[65];
static Z3_sort bv(int w) {
    if (!bvs[w]) { bvs[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, (Z3_ast)bvs[w]); }
    return bvs[w];
}
void solver_init() {
    Z3_config c = Z3_mk_config();
    Z3_set_param_value(c, "model", "true");
    Z = Z3_mk_context_rc(c);
    Z3_del_config(c);
    Z3_set_error_handler(Z, [](Z3_context cc, Z3_error_code e) {
        fprintf(stderr, "ENGINE-ERROR z3: %s\n", Z3_get_error_msg(cc, e));
        _exit(70);
    });
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
Z3_ast z3b(Expr* e) {
    if (e->zb) return e->zb;
    Z3_ast r, t[2];
    switch (e->op) {
    case E_CONST: r = e->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(Z, z3b(e->a), z3b(e->b)) : Z3_mk_eq(Z, z3bv(e->a), z3bv(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, z3bv(e->a), z3bv(e->b)); break;
    case E_ULE: r = Z3_mk_bvule(Z, z3bv(e->a), z3bv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, z3bv(e->a), z3bv(e->b)); break;
    case E_SLE: r = Z3_mk_bvsle(Z, z3bv(e->a), z3bv(e->b)); break;
    case E_AND: t[0] = z3b(e->a); t[1] = z3b(e->b); r = Z3_mk_and(Z, 2, t); break;
    case E_OR: t[0] = z3b(e->a); t[1] = z3b(e->b); r = Z3_mk_or(Z, 2, t); break;
    case E_XOR:
        if (e->b->op == E_CONST && e->b->k) r = Z3_mk_not(Z, z3b(e->a));
        else r = Z3_mk_xor(Z, z3b(e->a), z3b(e->b));
        break;
    case E_ITE: r = Z3_mk_ite(Z, z3b(e->a), z3b(e->b), z3b(e->c)); break;
    default: r = Z3_mk_eq(Z, z3bv(e), Z3_mk_unsigned_int64(Z, 1, bv(1))); break;
    }
    return e->zb = keep(r);
}
Z3_ast z3bv(Expr* e) {
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->op) {
    case E_CONST: r = Z3_mk_unsigned_int64(Z, e->k, bv(e->w)); break;
    case E_VAR: {
        Z3_symbol s = Z3_mk_int_symbol(Z, (int)e->k);
        r = Z3_mk_const(Z, s, bv(e->w));
        break; }
    case E_ITE:
        r = Z3_mk_ite(Z, z3b(e->a), z3bv(e->b), z3bv(e->c)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, z3bv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, z3bv(e->a)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, e->k + e->w - 1, e->k, z3bv(e->a)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, z3bv(e->a), z3bv(e->b)); break;
    default:
        if (ExprPool::iscmp(e->op) ) {
            r = Z3_mk_ite(Z, z3b(e), Z3_mk_unsigned_int64(Z, 1, bv(1)), Z3_mk_unsigned_int64(Z, 0, bv(1)));
        } else {
            Z3_ast x = z3bv(e->a), y = z3bv(e->b);
            switch (e->op) {
            case E_ADD: r = Z3_mk_bvadd(Z, x, y); break;
            case E_SUB: r = Z3_mk_bvsub(Z, x, y); break;
            case E_MUL: r = Z3_mk_bvmul(Z, x, y); break;
            case E_UDIV: r = Z3_mk_bvudiv(Z, x, y); break;
            case E_SDIV: r = Z3_mk_bvsdiv(Z, x, y); break;
            case E_UREM: r = Z3_mk_bvurem(Z, x, y); break;
            case E_SREM: r = Z3_mk_bvsrem(Z, x, y); break;
            case E_AND: r = Z3_mk_bvand(Z, x, y); break;
            case E_OR: r = Z3_mk_bvor(Z, x, y); break;
            case E_XOR: r = Z3_mk_bvxor(Z, x, y); break;
            case E_SHL: r = Z3_mk_bvshl(Z, x, y); break;
            case E_LSHR: r = Z3_mk_bvlshr(Z, x, y); break;
            case E_ASHR: r = Z3_mk_bvashr(Z, x, y); break;
            default: fprintf(stderr, "z3bv: op %d\n", e->op); _exit(70);
            }
        }
    }
    return e->z = keep(r);
}
