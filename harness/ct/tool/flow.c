/* A Valgrind tool that observes control flow: between two client requests it follows the address of
   every guest instruction executed, and the operands of every integer division, and compares the
   sequence with a recorded one. */
#include "pub_tool_basics.h"
#include "pub_tool_tooliface.h"
#include "pub_tool_libcassert.h"
#include "pub_tool_libcprint.h"
#include "pub_tool_libcbase.h"
#include "pub_tool_machine.h"
#include "pub_tool_mallocfree.h"
#include "pub_tool_aspacemgr.h"
#include "pub_tool_options.h"

#define REQ_RECORD  (0x46570000u + 1)
#define REQ_COMPARE (0x46570000u + 2)
#define REQ_STOP    (0x46570000u + 3)

#define CAP (1ul << 27) /* entries; pages are committed as they are used */

static ULong *ref;
static ULong ref_len, at, diff, diff_pc;
static int mode; /* 0 off, 1 record, 2 compare */

static inline void entry(ULong x)
{
   if (LIKELY(mode == 2)) {
      if (UNLIKELY(at >= ref_len || ref[at] != x)) {
         if (diff == ~0ull) {
            diff = at;
            /* the last instruction both have executed */
            ULong i = at < ref_len ? at : ref_len;
            while (i > 0 && ref[i - 1] >> 63)
               i--;
            diff_pc = i > 0 ? ref[i - 1] : 0;
         }
      }
   } else if (at < CAP) {
      ref[at] = x;
   }
   at++;
}

static VG_REGPARM(1) void on_insn(ULong pc)
{
   if (mode)
      entry(pc);
}

static inline ULong mix(ULong a, ULong b)
{
   a = (a << 17 | a >> 47) ^ b;
   return a * 0x9e3779b97f4a7c15ull;
}

static VG_REGPARM(3) void on_div(ULong hi, ULong lo, ULong by)
{
   if (mode)
      entry(mix(mix(mix(1, hi), lo), by) | 1ull << 63);
}

static Bool division(IROp op)
{
   switch (op) {
   case Iop_DivU32: case Iop_DivS32: case Iop_DivU64: case Iop_DivS64:
   case Iop_DivU32E: case Iop_DivS32E: case Iop_DivU64E: case Iop_DivS64E:
   case Iop_DivModU64to32: case Iop_DivModS64to32:
   case Iop_DivModU128to64: case Iop_DivModS128to64: case Iop_DivModS64to64: case Iop_DivModU64to64:
   case Iop_DivModU32to32: case Iop_DivModS32to32:
      return True;
   default:
      return False;
   }
}

static IRExpr *tmp(IRSB *sb, IRType ty, IRExpr *e)
{
   IRTemp t = newIRTemp(sb->tyenv, ty);
   addStmtToIRSB(sb, IRStmt_WrTmp(t, e));
   return IRExpr_RdTmp(t);
}
static IRExpr *wide(IRSB *sb, IRExpr *e)
{
   switch (typeOfIRExpr(sb->tyenv, e)) {
   case Ity_I64: return e;
   case Ity_I32: return tmp(sb, Ity_I64, IRExpr_Unop(Iop_32Uto64, e));
   case Ity_I16: return tmp(sb, Ity_I64, IRExpr_Unop(Iop_16Uto64, e));
   default: VG_(tool_panic)("unexpected operand of a division");
   }
}

static IRSB *instrument(VgCallbackClosure *c, IRSB *in, const VexGuestLayout *l, const VexGuestExtents *e,
                        const VexArchInfo *a, IRType gw, IRType hw)
{
   IRSB *out = deepCopyIRSBExceptStmts(in);
   Int i;
   for (i = 0; i < in->stmts_used; i++) {
      IRStmt *st = in->stmts[i];
      if (!st || st->tag == Ist_NoOp)
         continue;
      if (st->tag == Ist_WrTmp && st->Ist.WrTmp.data->tag == Iex_Binop && division(st->Ist.WrTmp.data->Iex.Binop.op)) {
         IRExpr *x = st->Ist.WrTmp.data->Iex.Binop.arg1, *y = st->Ist.WrTmp.data->Iex.Binop.arg2;
         IRExpr *hi, *lo;
         if (typeOfIRExpr(out->tyenv, x) == Ity_I128) {
            hi = tmp(out, Ity_I64, IRExpr_Unop(Iop_128HIto64, x));
            lo = tmp(out, Ity_I64, IRExpr_Unop(Iop_128to64, x));
         } else {
            hi = IRExpr_Const(IRConst_U64(0));
            lo = wide(out, x);
         }
         IRDirty *d = unsafeIRDirty_0_N(3, "on_div", VG_(fnptr_to_fnentry)(&on_div), mkIRExprVec_3(hi, lo, wide(out, y)));
         addStmtToIRSB(out, IRStmt_Dirty(d));
      }
      addStmtToIRSB(out, st);
      if (st->tag == Ist_IMark) {
         IRDirty *d = unsafeIRDirty_0_N(1, "on_insn", VG_(fnptr_to_fnentry)(&on_insn),
                                        mkIRExprVec_1(IRExpr_Const(IRConst_U64(st->Ist.IMark.addr))));
         addStmtToIRSB(out, IRStmt_Dirty(d));
      }
   }
   return out;
}

static Bool on_request(ThreadId tid, UWord *arg, UWord *ret)
{
   switch (arg[0]) {
   case REQ_RECORD:
      at = 0;
      mode = 1;
      *ret = 1;
      return True;
   case REQ_COMPARE:
      at = 0;
      diff = ~0ull;
      diff_pc = 0;
      mode = 2;
      *ret = 1;
      return True;
   case REQ_STOP: {
      ULong *o = (ULong *)arg[1];
      if (mode == 1)
         ref_len = at;
      /* length of the reference, length of this one, first difference, instruction before it */
      o[0] = ref_len;
      o[1] = at;
      o[2] = mode == 2 ? (diff == ~0ull && at != ref_len ? at : diff) : ~0ull;
      o[3] = diff_pc;
      mode = 0;
      *ret = 1;
      return True;
   }
   default:
      return False;
   }
}

static void post_init(void) {}
static void fini(Int code) {}

static void pre_init(void)
{
   VG_(details_name)("flow");
   VG_(details_version)(NULL);
   VG_(details_description)("control flow comparison");
   VG_(details_copyright_author)("");
   VG_(details_bug_reports_to)("");
   VG_(details_avg_translation_sizeB)(400);
   VG_(basic_tool_funcs)(post_init, instrument, fini);
   VG_(needs_client_requests)(on_request);
   SysRes r = VG_(am_shadow_alloc)(CAP * sizeof(ULong));
   if (sr_isError(r))
      VG_(tool_panic)("no memory");
   ref = (ULong *)(Addr)sr_Res(r);
}

VG_DETERMINE_INTERFACE_VERSION(pre_init)
