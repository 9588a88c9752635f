From b53c11398e1bd2d74f08bf838eea36936324c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 01/57] fix: rank short below int in the usual arithmetic
 conversions

Compound assignment doesn't promote its left operand beforehand, so the
order of the primitives made 's /= i' a 16-bit operation (or an ICE) when
's' was a short.
---
 src/cc1/btype.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cc1/btype.c b/src/cc1/btype.c
index edf0f01..9b1b21f 100644
--- a/src/cc1/btype.c
+++ b/src/cc1/btype.c
@@ -140,13 +140,17 @@ int type_intrank(enum type_primitive p)
 		default:
 			return -1;
 
+		/* short has a lower rank than int, despite coming after it in the enum */
+		case type_short:
+		case type_ushort:
+			return type_int + (p - type_short);
+		case type_int:
+		case type_uint:
+			return type_short + (p - type_int);
+
 		case type_nchar:
 		case type_schar:
 		case type_uchar:
-		case type_int:
-		case type_uint:
-		case type_short:
-		case type_ushort:
 		case type_long:
 		case type_ulong:
 		case type_llong:
-- 
2.43.0


From f4234121937fc166857d121312c9061b589be483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 02/57] fix: promote both arms of a conditional to int

A conditional between two different types narrower than int converted
one arm to the other's narrow type, losing e.g. the sign of a char.
---
 src/cc1/ops/expr_if.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cc1/ops/expr_if.c b/src/cc1/ops/expr_if.c
index 3ee9c13..f287f3c 100644
--- a/src/cc1/ops/expr_if.c
+++ b/src/cc1/ops/expr_if.c
@@ -248,6 +248,9 @@ void fold_expr_if(expr *e, symtable *stab)
 		/* 6.5.15 p4 */
 		expr **middle_op = e->lhs ? &e->lhs : &e->expr;
 
+		expr_promote_int_if_smaller(middle_op, stab);
+		expr_promote_int_if_smaller(&e->rhs, stab);
+
 		expr_check_sign(desc, *middle_op, e->rhs, &e->where);
 
 		e->tree_type = op_promote_types(
-- 
2.43.0


From e83dd114346c094d916dc7cd330e35228af61f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 03/57] fix: make an enum with negative enumerators a signed
 type

It was always treated as unsigned, so a negative enumerator stored in an
enum object zero-extended when widened and compared as a huge value.
---
 src/cc1/btype.c    | 3 +++
 src/cc1/fold_sue.c | 1 +
 src/cc1/sue.h      | 3 ++-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc1/btype.c b/src/cc1/btype.c
index 9b1b21f..5b3db9c 100644
--- a/src/cc1/btype.c
+++ b/src/cc1/btype.c
@@ -131,6 +131,9 @@ int type_primitive_is_signed(enum type_primitive p, int hard_err_on_su)
 
 int btype_is_signed(const btype *t)
 {
+	if(t->primitive == type_enum)
+		return t->sue->enum_signed;
+
 	return type_primitive_is_signed(t->primitive, 1);
 }
 
diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index e42e275..00398b2 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -172,6 +172,7 @@ static void fold_enum(struct_union_enum_st *en, symtable *stab)
 	en->size = type_size(contained_ty, NULL);
 	en->align = type_align(contained_ty, NULL);
 	round_size_to_align(&en->size, en->align);
+	en->enum_signed = is_signed;
 }
 
 static int fold_sue_check_unnamed(
diff --git a/src/cc1/sue.h b/src/cc1/sue.h
index 3589139..f4faabe 100644
--- a/src/cc1/sue.h
+++ b/src/cc1/sue.h
@@ -31,7 +31,8 @@ struct struct_union_enum_st
 	         membs_progress : 2, /* see SUE_MEMBS_* */
 	         foldprog : 2,
 	         flexarr : 1,
-	         contains_const : 1;
+	         contains_const : 1,
+	         enum_signed : 1; /* has a negative enumerator */
 
 #define SUE_FOLDED_NO 0
 #define SUE_FOLDED_PARTIAL 1
-- 
2.43.0


From dbbab18334a3fa765265c5e1f542df5f6cab780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 04/57] fix: value of a compound assignment to a bitfield is
 the truncated field

---
 src/cc1/ops/expr_assign_compound.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 92d3850..14c858b 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -106,6 +106,13 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->bits.compoundop.upcast_ty) /* need to cast back down to store */
 		result = out_cast(octx, result, e->tree_type, /*normalise_bool:*/1);
 
+	if(!saved_post && expr_is_struct_bitfield(e->lhs)){
+		/* the result is the value after truncation to the bitfield */
+		out_val_retain(octx, addr_lhs);
+		out_store(octx, addr_lhs, result);
+		return out_deref(octx, addr_lhs);
+	}
+
 	if(!saved_post)
 		out_val_retain(octx, result);
 	out_store(octx, addr_lhs, result);
-- 
2.43.0


From c262754489c1d7a74a148495dedacf13948b5613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 05/57] fix: bitfield masks for fields reaching the top bit of
 a 64-bit unit

---
 src/cc1/out/bitfield.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cc1/out/bitfield.c b/src/cc1/out/bitfield.c
index 6727c94..a695fbc 100644
--- a/src/cc1/out/bitfield.c
+++ b/src/cc1/out/bitfield.c
@@ -11,6 +11,14 @@
 
 #include "bitfield.h"
 
+static unsigned long low_mask(unsigned nbits)
+{
+	/* avoid shifting by the type's width */
+	return nbits >= CHAR_BIT * sizeof(unsigned long)
+		? -1UL
+		: ~(-1UL << nbits);
+}
+
 const out_val *out_bitfield_to_scalar(
 		out_ctx *octx,
 		const struct vbitfield *const bf,
@@ -29,7 +37,7 @@ const out_val *out_bitfield_to_scalar(
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf->nbits)));
+			out_new_l(octx, ty, low_mask(bf->nbits)));
 
 	/* if it's signed we need to sign extend
 	 * using a signed right shift to copy its MSB
@@ -87,7 +95,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 *     +- width
 	 */
 
-	mask_leading_1s = -1UL << (bf.off + bf.nbits);
+	mask_leading_1s = ~low_mask(bf.off + bf.nbits);
 
 	/* e.g. again:
 	 *
@@ -95,7 +103,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	 * << = 11111100
 	 * ~  = 00000011
 	 */
-	mask_back_0s = ~(-1UL << bf.off);
+	mask_back_0s = low_mask(bf.off);
 
 	/* | = 111100011 */
 	mask_rm = mask_leading_1s | mask_back_0s;
@@ -111,7 +119,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 	scalar = out_op(
 			octx, op_and,
 			scalar,
-			out_new_l(octx, ty, ~(-1UL << bf.nbits)));
+			out_new_l(octx, ty, low_mask(bf.nbits)));
 
 	scalar = out_op(
 			octx, op_shiftl,
-- 
2.43.0


From 39436fac6fc37932a0f8debd802ece13f938ffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 06/57] fix: promotion of signed int:32 and of bitfields wider
 than int

---
 src/cc1/fold.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cc1/fold.c b/src/cc1/fold.c
index 875fd4b..319a3e0 100644
--- a/src/cc1/fold.c
+++ b/src/cc1/fold.c
@@ -320,7 +320,10 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 			unsigned bf_nbits = const_fold_val_i(bitfield->bits.var.field_width);
 			unsigned uint_nbits = type_primitive_size(type_int) * CHAR_BIT;
 			unsigned sint_nbits = uint_nbits - 1; /* we assume 2's complement: */
-			type *prom;
+			type *prom = NULL;
+
+			if(type_is_signed(bitfield->ref))
+				sint_nbits = uint_nbits; /* sign bit is part of the field */
 
 			if(bf_nbits <= sint_nbits){
 				/* can be represented in int */
@@ -329,12 +332,14 @@ expr *fold_expr_lval2rval(expr *e, symtable *stab)
 							"promoting unsigned bitfield to int");
 				}
 				prom = type_nav_btype(cc1_type_nav, type_int);
-			}else{
+			}else if(bf_nbits <= uint_nbits){
 				/* must be represented in unsigned int */
 				prom = type_nav_btype(cc1_type_nav, type_uint);
 			}
+			/* else wider than int - not promoted */
 
-			fold_insert_casts(prom, &e, stab);
+			if(prom)
+				fold_insert_casts(prom, &e, stab);
 		}
 
 		if((enum_ty = type_is_enum(e->tree_type))){
-- 
2.43.0


From 6d23cc5bc9f0e23f55d8fe24982484c0b32ad8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 07/57] fix: keep bitfield masks within the storage unit's type

---
 src/cc1/out/bitfield.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cc1/out/bitfield.c b/src/cc1/out/bitfield.c
index a695fbc..c06a9c7 100644
--- a/src/cc1/out/bitfield.c
+++ b/src/cc1/out/bitfield.c
@@ -107,6 +107,7 @@ const out_val *out_bitfield_scalar_merge(out_ctx *octx,
 
 	/* | = 111100011 */
 	mask_rm = mask_leading_1s | mask_back_0s;
+	mask_rm &= low_mask(CHAR_BIT * type_size(ty, NULL));
 
 	/* &-out our value */
 	out_comment(octx, "bitmask/rm = %#lx", mask_rm);
-- 
2.43.0


From af2c68df11560e386877b1464c5a6f86ecbbe7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:23 +0000
Subject: [PATCH 08/57] fix: lay out bitfields per the x86-64 ABI, without
 overlapping later members

---
 src/cc1/decl.c     |  27 ------
 src/cc1/decl.h     |   3 -
 src/cc1/fold_sue.c | 150 ++++++++++----------------------
 src/cc1/out/asm.c  | 211 +++++++++++++++++----------------------------
 src/cc1/out/dbg.c  |   6 +-
 5 files changed, 125 insertions(+), 272 deletions(-)

diff --git a/src/cc1/decl.c b/src/cc1/decl.c
index d59b4d1..aebfeb2 100644
--- a/src/cc1/decl.c
+++ b/src/cc1/decl.c
@@ -125,33 +125,6 @@ unsigned decl_size(decl *d)
 	return type_size(d->ref, &d->where);
 }
 
-type *decl_type_for_bitfield(decl *d)
-{
-	assert(!type_is(d->ref, type_func));
-
-	if(d->bits.var.field_width){
-		const unsigned bits = const_fold_val_i(d->bits.var.field_width);
-		const int is_signed = type_is_signed(d->ref);
-		unsigned bytes = bits / CHAR_BIT;
-
-		/* need to add on a byte for any leftovers */
-		if(bits % CHAR_BIT)
-			bytes++;
-
-		return type_nav_MAX_FOR(cc1_type_nav, bytes, is_signed);
-	}else{
-		return d->ref;
-	}
-}
-
-void decl_size_align_inc_bitfield(decl *d, unsigned *const sz, unsigned *const align)
-{
-	type *ty = decl_type_for_bitfield(d);
-
-	*sz = type_size(ty, NULL);
-	*align = type_align(ty, NULL);
-}
-
 static unsigned decl_align1(decl *d)
 {
 	unsigned al = 0;
diff --git a/src/cc1/decl.h b/src/cc1/decl.h
index 09e6702..5205f7a 100644
--- a/src/cc1/decl.h
+++ b/src/cc1/decl.h
@@ -54,7 +54,6 @@ struct decl
 			type *bitfield_master_ty;
 			unsigned struct_offset;
 			unsigned struct_offset_bitfield; /* add onto struct_offset */
-			int first_bitfield; /* marker for the first bitfield in a set */
 
 			struct
 			{
@@ -115,8 +114,6 @@ void         decl_free(decl *);
 unsigned decl_size(decl *);
 unsigned decl_align(decl *);
 #define decl_check_size(d) (void)decl_size(d)
-void decl_size_align_inc_bitfield(decl *, unsigned *const sz, unsigned *const align);
-type *decl_type_for_bitfield(decl *);
 
 enum type_cmp decl_cmp(decl *a, decl *b, enum type_cmp_opts opts);
 unsigned decl_hash(const decl *);
diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index 00398b2..891c69b 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -25,13 +25,6 @@
 
 #include "ops/expr_val.h"
 
-struct bitfield_state
-{
-	type *master_ty;
-	unsigned current_off, first_off;
-	unsigned current_limit;
-};
-
 struct pack_state
 {
 	decl *d;
@@ -51,20 +44,14 @@ static void struct_pack(
 	d->bits.var.struct_offset = after_space;
 }
 
-static void round_size_to_align(unsigned *const size, unsigned align)
+static unsigned long bits_to_bytes(unsigned long bits)
 {
-	*size = pack_to_align(*size, align);
+	return (bits + CHAR_BIT - 1) / CHAR_BIT;
 }
 
-static void struct_pack_finish_bitfield(
-		unsigned long *offset, struct bitfield_state *bitfield)
+static void round_size_to_align(unsigned *const size, unsigned align)
 {
-	if(bitfield->master_ty){
-		unsigned master_ty_size = type_size(bitfield->master_ty, NULL);
-
-		if(*offset % master_ty_size)
-			*offset += master_ty_size - *offset % master_ty_size;
-	}
+	*size = pack_to_align(*size, align);
 }
 
 static void fold_enum(struct_union_enum_st *en, symtable *stab)
@@ -271,88 +258,51 @@ static int fold_sue_check_vm(decl *d)
 
 static void fold_sue_calc_fieldwidth(
 		struct pack_state *pack_state,
-		int *const realign_next,
-		unsigned long *const offset,
-		struct bitfield_state *const bitfield)
+		unsigned long *const bit_offset)
 {
-	const unsigned bits = const_fold_val_i(pack_state->d->bits.var.field_width);
 	decl *const d = pack_state->d;
+	const unsigned bits = const_fold_val_i(d->bits.var.field_width);
+	const unsigned ty_size = type_size(d->ref, &d->where);
+	const unsigned unit_bits = CHAR_BIT * ty_size;
+	unsigned long off = 0, unit;
+
+	if(pack_state->sue->primitive == type_struct)
+		off = *bit_offset;
 
 	/* don't affect sz_max or align_max */
 	pack_state->sz = pack_state->align = 0;
 
 	if(bits == 0){
-		/* align next field / treat as new bitfield
-		 * note we don't pad here - we don't want to
-		 * take up any space with this field
-		 */
-		*realign_next = 1;
-
-		/* also set struct_offset for 0-len bf, for pad reasons */
-		d->bits.var.struct_offset = *offset;
-
-	}else if(*realign_next
-	|| !bitfield->current_off
-	|| bitfield->current_off + bits > bitfield->current_limit)
-	{
-		if(*realign_next || bitfield->current_off){
-			if(!*realign_next){
-				/* bitfield overflow - repad */
-				cc1_warn_at(&d->where,
-						bitfield_boundary,
-						"bitfield overflow (%d + %d > %d) - "
-						"moved to next boundary", bitfield->current_off, bits,
-						bitfield->current_limit);
-			}
-
-			*realign_next = 0;
-			bitfield->current_off = 0;
+		/* the next field begins a new storage unit -
+		 * this field takes up no space itself */
+		off = pack_to_align(off, unit_bits);
 
-			if(bitfield->master_ty){
-				/* round offset up to master_ty's size */
-				struct_pack_finish_bitfield(offset, bitfield);
-			}
+	}else{
+		/* a field doesn't straddle a storage unit of its type,
+		 * but may share one with any preceding members */
+		const unsigned current_off = off % unit_bits;
+
+		if(current_off + bits > unit_bits){
+			cc1_warn_at(&d->where,
+					bitfield_boundary,
+					"bitfield overflow (%d + %d > %d) - "
+					"moved to next boundary", current_off, bits,
+					unit_bits);
+
+			off = pack_to_align(off, unit_bits);
 		}
 
-		bitfield->master_ty = d->ref;
-		bitfield->current_limit = CHAR_BIT * type_size(d->ref, &d->where);
-
-		d->bits.var.bitfield_master_ty = bitfield->master_ty;
-
-		/* Get some initial padding.
-		 * Note that we want to affect the align_max
-		 * of the struct and the size of this field
-		 */
-		decl_size_align_inc_bitfield(d, &pack_state->sz, &pack_state->align);
-		round_size_to_align(&pack_state->sz, pack_state->align);
-
-		/* we are onto the beginning of a new group */
-		struct_pack(d, offset, pack_state->sz, pack_state->align);
-		bitfield->first_off = d->bits.var.struct_offset;
-		d->bits.var.first_bitfield = 1;
-
-		/* now that we've done the struct packing w.r.t. bitfield size, we change
-		 * pack_state->align to the align of the declared member type itself, to
-		 * affect the struct's alignment (and also tail padding, etc) */
+		pack_state->sz = bits_to_bytes(bits);
 		pack_state->align = type_align(d->ref, NULL);
-
-	}else{
-		/* mirror previous bitfields' offset in the struct
-		 * difference is in .struct_offset_bitfield
-		 */
-		d->bits.var.struct_offset = bitfield->first_off;
-		d->bits.var.bitfield_master_ty = bitfield->master_ty;
 	}
 
-	d->bits.var.struct_offset_bitfield = bitfield->current_off;
-	bitfield->current_off += bits; /* allowed to go above sizeof(int) */
+	/* the field is accessed via the storage unit which contains it */
+	unit = off / unit_bits;
+	d->bits.var.struct_offset = unit * ty_size;
+	d->bits.var.struct_offset_bitfield = off % unit_bits;
+	d->bits.var.bitfield_master_ty = d->ref;
 
-	if(bitfield->current_off == bitfield->current_limit){
-		/* exactly reached the limit, reset bitfield indexing */
-		bitfield->current_off = 0;
-
-		struct_pack_finish_bitfield(offset, bitfield);
-	}
+	*bit_offset = off + bits;
 }
 
 static void populate_size_align(struct pack_state *pack_state)
@@ -389,20 +339,15 @@ static void fold_sue_calc_normal(struct pack_state *const pack_state)
 
 static void fold_sue_apply_normal_offset(
 		struct pack_state *pack_state,
-		unsigned long *const offset,
-		struct bitfield_state *const bitfield)
+		unsigned long *const bit_offset)
 {
 	decl *const d = pack_state->d;
-	const int prev_offset = *offset;
+	unsigned long offset = bits_to_bytes(*bit_offset);
+	const int prev_offset = offset;
 	int pad;
 
-	if(bitfield->current_off){
-		/* we automatically pad on the next struct_pack,
-		 * don't struct_pack() here */
-		bitfield->current_off = 0;
-	}
-
-	struct_pack(d, offset, pack_state->sz, pack_state->align);
+	struct_pack(d, &offset, pack_state->sz, pack_state->align);
+	*bit_offset = offset * CHAR_BIT;
 
 	pad = d->bits.var.struct_offset - prev_offset;
 	if(pad){
@@ -464,15 +409,11 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 	}else{
 		unsigned align_max = 1;
 		unsigned sz_max = 0;
-		unsigned long offset = 0;
-		int realign_next = 0;
+		unsigned long bit_offset = 0;
 		int submemb_const = 0;
-		struct bitfield_state bitfield;
 		sue_member **i;
 		const int packed = !!attr_present(sue->attr, attr_packed);
 
-		memset(&bitfield, 0, sizeof bitfield);
-
 		if(cc1_fopt.dump_layouts)
 			fprintf(stderr, "Record layout for %s:\n", sue->spel);
 
@@ -508,10 +449,7 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 				fold_sue_calc_substrut(&pack_state, sub_sue, stab, &submemb_const);
 
 			}else if(d->bits.var.field_width){
-				fold_sue_calc_fieldwidth(
-						&pack_state,
-						&realign_next, &offset,
-						&bitfield);
+				fold_sue_calc_fieldwidth(&pack_state, &bit_offset);
 
 			}else{
 				fold_sue_calc_normal(&pack_state);
@@ -521,7 +459,7 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 				pack_state.align = 1;
 
 			if(sue->primitive == type_struct && !d->bits.var.field_width){
-				fold_sue_apply_normal_offset(&pack_state, &offset, &bitfield);
+				fold_sue_apply_normal_offset(&pack_state, &bit_offset);
 			}
 
 			if(cc1_fopt.dump_layouts){
@@ -569,7 +507,7 @@ warn:
 
 		sue->align = align_max;
 		sue->size = pack_to_align(
-				sue->primitive == type_struct ? offset : sz_max,
+				sue->primitive == type_struct ? bits_to_bytes(bit_offset) : sz_max,
 				align_max);
 		round_size_to_align(&sue->size, sue->align);
 
diff --git a/src/cc1/out/asm.c b/src/cc1/out/asm.c
index 9352b2c..1fe178a 100644
--- a/src/cc1/out/asm.c
+++ b/src/cc1/out/asm.c
@@ -51,11 +51,11 @@
 		fprintf(stderr, "  " __VA_ARGS__); \
 }while(0)
 
-struct bitfield_val
+struct bitfield_run
 {
-	integral_t val;
-	unsigned offset;
-	unsigned width;
+	/* bytes of adjacent bitfields, yet to be output */
+	unsigned char *bytes;
+	unsigned start, count; /* byte offset in the struct, byte count */
 };
 
 const char *asm_section_desc(enum section_builtin sec)
@@ -161,77 +161,60 @@ static void asm_declare_init_type(const struct section *sec, type *ty)
 	asm_out_section(sec, ".%s ", asm_type_directive(ty));
 }
 
-static void asm_declare_init_bitfields(
-		const struct section *sec,
-		struct bitfield_val *vals, unsigned n,
-		type *ty)
+static void bitfield_run_add(
+		struct bitfield_run *run, decl *mem, decl_init *di)
 {
-	integral_t v = 0;
-	unsigned width = 0;
+	const unsigned width = const_fold_val_i(mem->bits.var.field_width);
+	const unsigned first_bit
+		= mem->bits.var.struct_offset * CHAR_BIT
+		+ mem->bits.var.struct_offset_bitfield;
+	const unsigned count = (first_bit + width + CHAR_BIT - 1) / CHAR_BIT - run->start;
+	integral_t val = 0;
 	unsigned i;
 
-	DEBUG_BITFIELD_INIT("    bitfield out -- new\n");
-	for(i = 0; i < n; i++){
-		integral_t this = integral_truncate_bits(
-				vals[i].val, vals[i].width, NULL);
-
-		width += vals[i].width;
-
-		DEBUG_BITFIELD_INIT("    bitfield out: 0x%llx << %u gives",
-				this, vals[i].offset);
+	if(di){
+		ASSERT_SCALAR(di);
+		val = integral_truncate_bits(const_fold_val_i(di->bits.expr), width, NULL);
+	}
 
-		v |= this << vals[i].offset;
+	DEBUG_BITFIELD_INIT("    bitfield .%s: bits %u-%u = 0x%llx\n",
+			mem->spel, first_bit, first_bit + width - 1, val);
 
-		DEBUG_BITFIELD_INIT("\t0x%llx\n", v);
+	if(count > run->count){
+		run->bytes = urealloc1(run->bytes, count);
+		memset(run->bytes + run->count, 0, count - run->count);
+		run->count = count;
 	}
 
-	DEBUG_BITFIELD_INIT("    bitfield done as (%s)0x%llx\n", type_to_str(ty), v);
+	for(i = 0; i < width; i++){
+		const unsigned bit = first_bit + i - run->start * CHAR_BIT;
 
-	if(width > 0){
-		asm_declare_init_type(sec, ty);
-		asm_out_section(sec, "%" NUMERIC_FMT_D "\n", v);
-	}else{
-		asm_out_section(sec,
-				ASM_COMMENT " skipping zero length bitfield%s init\n",
-				n == 1 ? "" : "s");
+		if(val >> i & 1)
+			run->bytes[bit / CHAR_BIT] |= 1u << bit % CHAR_BIT;
 	}
 }
 
-static void bitfields_out(
-		const struct section *sec,
-		struct bitfield_val *bfs, unsigned *pn,
-		type *ty)
+static void bitfield_run_out(
+		const struct section *sec, struct bitfield_run *run)
 {
-	asm_declare_init_bitfields(sec, bfs, *pn, ty);
-	*pn = 0;
-}
-
-static void bitfield_val_set(
-		struct bitfield_val *bfv, expr *kval, expr *field_w)
-{
-	bfv->val = kval ? const_fold_val_i(kval) : 0;
-	bfv->offset = 0;
-	bfv->width = const_fold_val_i(field_w);
-}
+	unsigned i = 0;
 
-static struct bitfield_val *bitfields_add(
-		struct bitfield_val *bfs, unsigned *pn,
-		decl *mem, decl_init *di)
-{
-	const unsigned i = *pn;
+	while(i < run->count){
+		unsigned sz = sizeof(integral_t), j;
+		integral_t v = 0;
 
-	bfs = urealloc1(bfs, (*pn += 1) * sizeof *bfs);
+		while(sz > run->count - i)
+			sz /= 2;
 
-	if(di)
-		ASSERT_SCALAR(di);
+		for(j = 0; j < sz; j++)
+			v |= (integral_t)run->bytes[i + j] << j * CHAR_BIT;
 
-	bitfield_val_set(&bfs[i],
-			di ? di->bits.expr : NULL,
-			mem->bits.var.field_width);
-
-	bfs[i].offset = mem->bits.var.struct_offset_bitfield;
+		asm_declare_init_type(sec, type_nav_MAX_FOR(cc1_type_nav, sz, 0));
+		asm_out_section(sec, "%" NUMERIC_FMT_D "\n", v);
+		i += sz;
+	}
 
-	return bfs;
+	run->count = 0;
 }
 
 void asm_out_fp(const struct section *sec, type *ty, floating_t f)
@@ -354,9 +337,7 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 		sue_member **mem;
 		decl_init **i;
 		unsigned end_of_last = 0;
-		struct bitfield_val *bitfields = NULL;
-		unsigned nbitfields = 0;
-		decl *first_bf = NULL;
+		struct bitfield_run bitfields = { 0 };
 		expr *copy_from_exp;
 
 		UCC_ASSERT(init->type == decl_init_brace, "unbraced struct");
@@ -424,85 +405,53 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 			DEBUG_BITFIELD_INIT("current offset=%d, end of last field=%d\n",
 					d_mem->bits.var.struct_offset, end_of_last);
 
-			/* only pad if we're not on a bitfield or we're on the first bitfield */
-			if(!d_mem->bits.var.field_width || !first_bf){
+			if(d_mem->bits.var.field_width){
+				const unsigned bit_off = d_mem->bits.var.struct_offset_bitfield;
+				const unsigned byte_off
+					= d_mem->bits.var.struct_offset + bit_off / CHAR_BIT;
+
+				if(const_fold_val_i(d_mem->bits.var.field_width) == 0){
+					DEBUG_BITFIELD_INIT("  .%s is zero width, ignored\n", d_mem->spel);
+					continue;
+				}
+
+				if(byte_off >= end_of_last){
+					/* not sharing a byte with a previous bitfield */
+					bitfield_run_out(sec, &bitfields);
+					asm_declare_pad(sec, byte_off - end_of_last, "prev struct padding");
+					bitfields.start = byte_off;
+				}
+
+				bitfield_run_add(&bitfields, d_mem, di_to_use);
+				end_of_last = bitfields.start + bitfields.count;
+
+			}else{
+				bitfield_run_out(sec, &bitfields);
+
 				UCC_ASSERT(
 						d_mem->bits.var.struct_offset >= end_of_last,
 						"negative struct pad, %s::%s @ %u >= end_of_last @ %u",
 						sue->spel, decl_to_str(d_mem),
 						d_mem->bits.var.struct_offset, end_of_last);
 
-				DEBUG_BITFIELD_INIT("  adding %u bytes of padding\n",
-						d_mem->bits.var.struct_offset - end_of_last);
-
 				asm_declare_pad(sec,
 						d_mem->bits.var.struct_offset - end_of_last,
 						"prev struct padding");
-			}
-
-			if(d_mem->bits.var.field_width){
-				const int zero_width = const_fold_val_i(d_mem->bits.var.field_width) == 0;
-
-				/* we aren't in a BF at the mo, and this is set as first_bitfield */
-				if(!first_bf || d_mem->bits.var.first_bitfield){
-					if(!first_bf){
-						DEBUG_BITFIELD_INIT("  new bitfield group (at .%s)\n", d_mem->spel);
-					}else{
-						DEBUG_BITFIELD_INIT("  new bitfield group (at .%s) after current bitfield group - flushing\n",
-								d_mem->spel);
-
-						/* next bitfield group - store the current */
-						bitfields_out(sec, bitfields, &nbitfields, first_bf->ref);
-					}
-
-					if(zero_width){
-						DEBUG_BITFIELD_INIT("  .%s is zero width - not marking as anchor for this group\n", d_mem->spel);
-						first_bf = NULL;
-					}else{
-						first_bf = d_mem;
-					}
-				}
-
-				if(zero_width){
-					DEBUG_BITFIELD_INIT("  .%s is zero width, ignored\n", d_mem->spel);
-				}else{
-					DEBUG_BITFIELD_INIT("  adding .%s to bitfield group, offset %d, width %" NUMERIC_FMT_D "\n",
-							d_mem->spel,
-							d_mem->bits.var.struct_offset_bitfield,
-							const_fold_val_i(d_mem->bits.var.field_width));
-
-					bitfields = bitfields_add(
-							bitfields, &nbitfields,
-							d_mem, di_to_use);
-				}
-
-			}else{
-				if(nbitfields){
-					DEBUG_BITFIELD_INIT("  at non-bitfield, flushing current\n");
-
-					bitfields_out(sec, bitfields, &nbitfields, decl_type_for_bitfield(first_bf));
-					first_bf = NULL;
-				}
 
 				DEBUG_BITFIELD_INIT("  normal init for .%s\n", d_mem->spel);
 				asm_declare_init(sec, di_to_use, d_mem->ref);
-			}
-
-			if(type_is_incomplete_array(d_mem->ref)){
-				UCC_ASSERT(!mem[1], "flex-arr not at end");
-			}else if(!d_mem->bits.var.field_width || d_mem->bits.var.first_bitfield){
-				unsigned sz, align;
 
-				decl_size_align_inc_bitfield(d_mem, &sz, &align);
-
-				end_of_last = d_mem->bits.var.struct_offset + sz;
-				DEBUG_BITFIELD_INIT("  %d byte(s) initialised so far\n", end_of_last);
+				if(type_is_incomplete_array(d_mem->ref)){
+					UCC_ASSERT(!mem[1], "flex-arr not at end");
+				}else{
+					end_of_last = d_mem->bits.var.struct_offset + type_size(d_mem->ref, NULL);
+					DEBUG_BITFIELD_INIT("  %d byte(s) initialised so far\n", end_of_last);
+				}
 			}
 		}
 
-		if(nbitfields)
-			bitfields_out(sec, bitfields, &nbitfields, first_bf->ref);
-		free(bitfields);
+		bitfield_run_out(sec, &bitfields);
+		free(bitfields.bytes);
 
 		/* need to pad to struct size */
 		asm_declare_pad(sec,
@@ -561,18 +510,18 @@ static void asm_declare_init(const struct section *sec, decl_init *init, type *t
 			/* union init, member at index `i' */
 			if(mem->bits.var.field_width){
 				/* we know it's integral */
-				struct bitfield_val bfv;
+				struct bitfield_run bf = { 0 };
 
-				ASSERT_SCALAR(u_init);
+				sub = bf.count = type_size(mem_r, NULL);
+				bf.bytes = umalloc(bf.count);
 
-				bitfield_val_set(&bfv, u_init->bits.expr, mem->bits.var.field_width);
-
-				asm_declare_init_bitfields(sec, &bfv, 1, mem_r);
+				bitfield_run_add(&bf, mem, u_init);
+				bitfield_run_out(sec, &bf);
+				free(bf.bytes);
 			}else{
 				asm_declare_init(sec, u_init, mem_r);
+				sub = type_size(mem_r, NULL);
 			}
-
-			sub = type_size(mem_r, NULL);
 		} /* else null union init */
 
 		asm_declare_pad(sec,
diff --git a/src/cc1/out/dbg.c b/src/cc1/out/dbg.c
index 1709465..68a86f3 100644
--- a/src/cc1/out/dbg.c
+++ b/src/cc1/out/dbg.c
@@ -864,7 +864,6 @@ static struct DIE *dwarf_suetype(
 		case type_struct:
 		{
 			sue_member **si;
-			decl *current_bitfield = NULL;
 
 			suedie = dwarf_sue_header(
 					cu,
@@ -882,9 +881,6 @@ static struct DIE *dwarf_suetype(
 				struct dwarf_block *offset;
 				struct dwarf_block_ent *blkents;
 
-				if(dmem->bits.var.first_bitfield)
-					current_bitfield = dmem;
-
 				if(DECL_IS_ANON_BITFIELD(dmem)){
 					/* skip, otherwise dwarf thinks this decl's a field and messes up */
 					continue;
@@ -921,7 +917,7 @@ static struct DIE *dwarf_suetype(
 				/* bitfield */
 				if(dmem->bits.var.field_width){
 					form_data_t width = const_fold_val_i(dmem->bits.var.field_width);
-					form_data_t whole_sz = type_size(current_bitfield->ref, NULL);
+					form_data_t whole_sz = type_size(dmem->ref, NULL);
 
 					/* address of top-end */
 					form_data_t off =
-- 
2.43.0


From b8aac7496b1030e83981a3c863dd578d73b8c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 09/57] fix: wrap folded unsigned arithmetic modulo 2^N

---
 src/cc1/const.c | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 6607d01..3622aa7 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -249,25 +249,9 @@ integral_t const_op_exec(
 			break;
 	}
 
-	if(!is_signed){
-		/* need to apply proper wrap-around */
-		integral_t max = type_max(arithty, NULL);
-
-		if(max == NUMERIC_T_MAX){
-			/* handling integral_t:s, already done */
-		}else if(result > max){
-			if(op_increases(op)){
-				/* result = 256 -> 256 - (255 + 1) -> 0 */
-
-				result = result - (max + 1);
-			}else{
-				/* (assuming integral_t max = 65536)
-				 * result = 65536 -> 65536 - 65536 + 256 -> 256 */
-
-				result = result - NUMERIC_T_MAX + max;
-			}
-		}
-	}
+	/* need to apply proper wrap-around */
+	if(!is_signed)
+		result = integral_truncate(result, type_size(arithty, NULL), NULL);
 
 	return result;
 }
-- 
2.43.0


From f741cbad732fbbfd7b797c5f09db82ab845ed1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:15 +0000
Subject: [PATCH 10/57] fix: fold comparisons in the operands' type

---
 src/cc1/ops/expr_op.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 63b94c5..6d4d42f 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -314,9 +314,12 @@ static void const_op_num_int(
 		{
 			integral_t int_r;
 
+			/* comparisons are done in the operands' type, not the result's */
 			int_r = const_op_exec(
 					l.offset, rhs ? &r.offset : NULL,
-					e->bits.op.op, e->tree_type, &err);
+					e->bits.op.op,
+					op_returns_bool(e->bits.op.op) ? e->lhs->tree_type : e->tree_type,
+					&err);
 
 			if(SHOW_CONST_OP){
 				char tbufs[2][TYPE_STATIC_BUFSIZ];
-- 
2.43.0


From 3a0ef48bc20348136529e837ee1e57040131226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:22 +0000
Subject: [PATCH 11/57] fix: compare case labels and ranges in the switch's
 promoted type

---
 src/cc1/ops/stmt_case_range.c | 23 ++++++++++++++++-------
 src/cc1/ops/stmt_switch.c     | 15 +++++++++++----
 2 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/cc1/ops/stmt_case_range.c b/src/cc1/ops/stmt_case_range.c
index f9c1c90..a482306 100644
--- a/src/cc1/ops/stmt_case_range.c
+++ b/src/cc1/ops/stmt_case_range.c
@@ -3,6 +3,7 @@
 #include "ops.h"
 #include "stmt_case_range.h"
 #include "../out/lbl.h"
+#include "../type_is.h"
 
 const char *str_stmt_case_range(void)
 {
@@ -11,7 +12,7 @@ const char *str_stmt_case_range(void)
 
 void fold_stmt_case_range(stmt *s)
 {
-	integral_t lv, rv;
+	numeric lv, rv;
 
 	FOLD_EXPR(s->expr,  s->symtab);
 	FOLD_EXPR(s->expr2, s->symtab);
@@ -19,19 +20,27 @@ void fold_stmt_case_range(stmt *s)
 	(void)!fold_check_expr(s->expr,
 			FOLD_CHK_INTEGRAL | FOLD_CHK_CONST_I,
 			"case-range");
-	lv = const_fold_val_i(s->expr);
-
 	(void)!fold_check_expr(s->expr2,
 			FOLD_CHK_INTEGRAL | FOLD_CHK_CONST_I,
 			"case-range");
-	rv = const_fold_val_i(s->expr2);
-
-	if(lv >= rv)
-		die_at(&s->where, "case range equal or inverse");
 
 	cc1_warn_at(&s->where, gnu_case_range, "use of GNU case-range");
 
+	/* converts the range to the switch's type */
 	fold_stmt_and_add_to_curswitch(s);
+
+	if(!const_fold_integral_try(s->expr, &lv)
+	|| !const_fold_integral_try(s->expr2, &rv))
+	{
+		return;
+	}
+
+	if(type_is_signed(s->expr->tree_type)
+		? (sintegral_t)lv.val.i >= (sintegral_t)rv.val.i
+		: lv.val.i >= rv.val.i)
+	{
+		die_at(&s->where, "case range equal or inverse");
+	}
 }
 
 void gen_stmt_case_range(const stmt *s, out_ctx *octx)
diff --git a/src/cc1/ops/stmt_switch.c b/src/cc1/ops/stmt_switch.c
index 46af73a..d4ce4c9 100644
--- a/src/cc1/ops/stmt_switch.c
+++ b/src/cc1/ops/stmt_switch.c
@@ -33,6 +33,7 @@ static void fold_switch_dups(stmt *sw)
 	size_t n = dynarray_count(sw->bits.switch_.cases);
 	size_t i = 0;
 	stmt **titer;
+	const int is_signed = type_is_signed(sw->expr->tree_type);
 
 	if(n == 0)
 		return;
@@ -55,6 +56,13 @@ static void fold_switch_dups(stmt *sw)
 			memcpy(&vals[i].end, &vals[i].start, sizeof vals[i].end);
 		}
 
+		/* compare as the switch's type */
+		if(is_signed)
+			vals[i].start.suffix &= ~VAL_UNSIGNED;
+		else
+			vals[i].start.suffix |= VAL_UNSIGNED;
+		vals[i].end.suffix = vals[i].start.suffix;
+
 		i++;
 	}
 
@@ -63,10 +71,7 @@ static void fold_switch_dups(stmt *sw)
 			sizeof(*vals), (qsort_f)numeric_cmp); /* struct layout guarantees this */
 
 	for(i = 1; i < n; i++){
-		const long last_prev  = vals[i-1].end.val.i;
-		const long first_this = vals[i].start.val.i;
-
-		if(last_prev >= first_this){
+		if(numeric_cmp(&vals[i-1].end, &vals[i].start) >= 0){
 			const int overlap = vals[i  ].end.val.i != vals[i  ].start.val.i
 				               || vals[i-1].end.val.i != vals[i-1].start.val.i;
 
@@ -210,6 +215,8 @@ void fold_stmt_and_add_to_curswitch(stmt *cse)
 	if(cse->expr){
 		/* promote to the controlling statement */
 		fold_insert_casts(sw->expr->tree_type, &cse->expr, cse->symtab);
+		if(cse->expr2) /* case range */
+			fold_insert_casts(sw->expr->tree_type, &cse->expr2, cse->symtab);
 
 		dynarray_add(&sw->bits.switch_.cases, cse);
 	}else{
-- 
2.43.0


From 4a1c3090c8c374aa3f924b16a88549bf02e03c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:29 +0000
Subject: [PATCH 12/57] fix: signedness of comparisons and divisions on spilt
 values

---
 src/cc1/out/x86_64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 6c4ec7e..49084f0 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1356,7 +1356,7 @@ static const out_val *x86_idiv(
 	v_freeup_reg(octx, &rdx);
 	v_reserve_reg(octx, &rdx);
 	{
-		const int is_signed = type_is_signed(r->t);
+		const int is_signed = type_is_signed(v_get_type(r));
 
 		/* need to move 'l' into eax
 		 * then sign extended later - cqto */
@@ -1598,7 +1598,7 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 					&& !type_is_floating(v_get_type(r)),
 					"float cmp should be handled above");
 		{
-			const int is_signed = type_is_signed(l->t);
+			const int is_signed = type_is_signed(v_get_type(l));
 			char buf[VAL_STR_SZ];
 			int inv = 0;
 			const out_val *vconst = NULL;
-- 
2.43.0


From 647ea6dabdb0e5d7efebb93a9a52babe0035cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 13/57] fix: shifting a constant zero gives zero, not the shift
 count

---
 src/cc1/out/op.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 1201750..f7f8f11 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -105,8 +105,6 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 		case op_plus:
 		case op_or:
 		case op_xor:
-		case op_shiftl: /* if we're shifting 0, or shifting _by_ zero, noop */
-		case op_shiftr:
 			return vconst->bits.val_i == 0;
 
 		case op_multiply:
@@ -117,6 +115,8 @@ static int const_is_noop(enum op_type binop, const out_val *vconst, int is_lhs)
 			return (sintegral_t)vconst->bits.val_i == -1;
 
 		/* non-commutative: */
+		case op_shiftl: /* shifting _by_ zero - noop */
+		case op_shiftr:
 		case op_minus:
 			return !is_lhs && vconst->bits.val_i == 0;
 
-- 
2.43.0


From 42275763c8c32ecc3a2d6cb8d2ffe1abace351e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 14/57] fix: expression statement reading a volatile scalar
 dereferenced its value

---
 src/cc1/ops/stmt_expr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/stmt_expr.c b/src/cc1/ops/stmt_expr.c
index 67b92d5..5adf90b 100644
--- a/src/cc1/ops/stmt_expr.c
+++ b/src/cc1/ops/stmt_expr.c
@@ -66,7 +66,12 @@ void gen_stmt_expr(const stmt *s, out_ctx *octx)
 	if(is_volatile){
 		assert(lvalue && "only lvalues can be the source of volatile");
 
-		out_force_read(octx, s->expr->tree_type, v);
+		if(type_is_s_or_u(s->expr->tree_type)){
+			out_force_read(octx, s->expr->tree_type, v);
+		}else{
+			/* already read by the lval2rval cast */
+			out_val_consume(octx, v);
+		}
 	}else{
 		out_val_consume(octx, v);
 	}
-- 
2.43.0


From e65cca8bb89925dfff03cb49677aba0e62bd89a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:53 +0000
Subject: [PATCH 15/57] fix: post-increment reads its operand once

---
 src/cc1/ops/expr_assign_compound.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index 14c858b..a95aa6b 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -96,7 +96,13 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	rhs = gen_expr(e->rhs, octx);
 
 	/* here's the delayed dereference */
-	lhs = out_deref(octx, addr_lhs); /* addr_lhs=1 */
+	if(saved_post){
+		/* already read, must only read once */
+		out_val_consume(octx, addr_lhs); /* addr_lhs=1 */
+		lhs = out_val_retain(octx, saved_post);
+	}else{
+		lhs = out_deref(octx, addr_lhs); /* addr_lhs=1 */
+	}
 	if(e->bits.compoundop.upcast_ty)
 		lhs = out_cast(octx, lhs, e->bits.compoundop.upcast_ty, /*normalise_bool:*/1);
 
-- 
2.43.0


From f1f888ab4ace16670ab26edfb3bfaeea8a14633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 16/57] fix: a ?: b with a comparison as the condition lost its
 value

---
 src/cc1/out/ctrl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/ctrl.c b/src/cc1/out/ctrl.c
index 1642b68..92b0f20 100644
--- a/src/cc1/out/ctrl.c
+++ b/src/cc1/out/ctrl.c
@@ -33,7 +33,10 @@ void out_ctrl_branch(
 		const out_val *cond,
 		out_blk *if_true, out_blk *if_false)
 {
-	v_decay_flags_except1(octx, cond);
+	if(cond->retains > 1) /* used after the branch, where the flags are gone */
+		v_decay_flags(octx);
+	else
+		v_decay_flags_except1(octx, cond);
 	v_transfer_spill(octx, cond);
 
 	impl_branch(octx,
-- 
2.43.0


From b993b79c71a1dc3db32e925fec6536e70329967a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:55 +0000
Subject: [PATCH 17/57] fix: merge the arms of a conditional into the same
 register

When the arms differ in size the narrower one was widened after being
placed in the merge register, and the cast may pick another register.
---
 src/cc1/out/ctrl.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cc1/out/ctrl.c b/src/cc1/out/ctrl.c
index 92b0f20..08ddc0a 100644
--- a/src/cc1/out/ctrl.c
+++ b/src/cc1/out/ctrl.c
@@ -117,33 +117,34 @@ const out_val *out_ctrl_merge_n(out_ctx *octx, out_blk **rets)
 	/* need them all in registers */
 	for(blk_iter = rets; *blk_iter; blk_iter++){
 		out_blk *const blk = *blk_iter;
+		const out_val *phi;
 		const out_val *regged;
 
 		out_current_blk(octx, blk);
 
+		/* if we have mismatching sizes, we need to cast one side up,
+		 * so that we fill out all parts of the smaller size'd register.
+		 * this is done first, since the cast may change registers */
+		phi = blk->phi_val;
+		if(type_size(phi->t, NULL) < max.sz)
+			phi = out_cast(octx, phi, max.ty, 0);
+
 		if(!merge_reg_set){
 			/* apply_offset - prevent merge_reg being a base pointer */
 			regged =
 				v_reg_apply_offset(octx,
 						v_to_reg_out(
 							octx,
-							blk->phi_val,
+							phi,
 							&merge_reg));
 
 			/* apply_offset may move to another reg */
 			memcpy_safe(&merge_reg, &regged->bits.regoff.reg);
 			merge_reg_set = 1;
 		}else{
-			regged = v_to_reg_given(octx, blk->phi_val, &merge_reg);
+			regged = v_to_reg_given(octx, phi, &merge_reg);
 		}
 
-		/* if we have mismatching sizes, we need to cast one side up,
-		 * so that we fill out all parts of the smaller size'd register,
-		 */
-		if(type_size(regged->t, NULL) < max.sz)
-			regged = out_cast(octx, regged, max.ty, 0);
-
-
 		out_flush_volatile(octx, regged);
 	}
 
-- 
2.43.0


From 16500a0687beb17ac7e8cef7e8c2844312385fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 18/57] fix: size of VLAs of pointers, and of arrays of a VLA
 typedef

An array of pointers was sized as pointer size times the size of what is
pointed to; an array of a typedef'd VLA asserted.
---
 src/cc1/vla.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cc1/vla.c b/src/cc1/vla.c
index 5f36c94..e9520ef 100644
--- a/src/cc1/vla.c
+++ b/src/cc1/vla.c
@@ -138,8 +138,15 @@ static const out_val *vla_gen_size_ty(
 
 		case type_ptr:
 		case type_block:
-			mul = platform_word_size();
-			break;
+			/* the size is that of a pointer, but arrays that are
+			 * pointed to may still have their sizes to generate */
+			if(type_is_variably_modified(type_next(t))){
+				out_val_consume(octx,
+						vla_gen_size_ty(type_next(t), octx, arith_ty, stack_ent));
+			}else if(stack_ent){
+				out_val_release(octx, stack_ent);
+			}
+			return out_new_l(octx, arith_ty, platform_word_size());
 
 		case type_array:
 			if(t->bits.array.vla_kind){
@@ -199,7 +206,8 @@ static const out_val *vla_gen_size_ty(
 		{
 			const out_val *cached = vla_cached_size(t, octx);
 			if(cached){
-				out_val_release(octx, stack_ent);
+				if(stack_ent)
+					out_val_release(octx, stack_ent);
 				return cached;
 			}
 
-- 
2.43.0


From 7621491d7c1c11eed2dba1f4ff35d6f99f18b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 19/57] fix: keep the stack 16-byte aligned after allocating a
 VLA

It was aligned to 8 by default, so calls made while a VLA is live could be
made with a misaligned stack.
---
 src/cc1/out/alloca.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cc1/out/alloca.c b/src/cc1/out/alloca.c
index 02172c7..a618fa7 100644
--- a/src/cc1/out/alloca.c
+++ b/src/cc1/out/alloca.c
@@ -4,6 +4,8 @@
 
 #include "out.h"
 #include "val.h"
+#include "../../util/platform.h"
+
 #include "../type_nav.h"
 
 /* v_to_reg_given */
@@ -43,6 +45,10 @@ const out_val *out_alloca_push(
 	if(align < (unsigned)cc1_mstack_align)
 		align = cc1_mstack_align;
 
+	/* as for calls, mstack_align may be less than the ABI's alignment */
+	if(!IS_32_BIT() && align < 16)
+		align = 16;
+
 	octx->alloca_count++;
 
 	if(align == 1)
-- 
2.43.0


From 8aa888487feb727f6dba2353aadbda0686855e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 20/57] fix: keep spills out of the outgoing stack-argument
 area

---
 src/cc1/out/x86_64.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 49084f0..b88ee26 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2359,6 +2359,7 @@ const out_val *impl_call(
 	struct
 	{
 		v_stackt bytesz;
+		v_stackt stack_sz_after, max_stack_sz_before;
 		const out_val *vptr;
 		enum
 		{
@@ -2446,6 +2447,11 @@ const out_val *impl_call(
 
 			if(octx->stack_callspace < arg_stack.bytesz)
 				octx->stack_callspace = arg_stack.bytesz;
+
+			/* start watching for spills below the argument space */
+			arg_stack.stack_sz_after = octx->cur_stack_sz;
+			arg_stack.max_stack_sz_before = octx->max_stack_sz;
+			octx->max_stack_sz = octx->cur_stack_sz;
 		}
 	}
 
@@ -2602,6 +2608,15 @@ const out_val *impl_call(
 			free(jtarget);
 	}
 
+	if(arg_stack.vptr){
+		/* arguments are stored relative to %rsp, i.e. the bottom of the stack,
+		 * which must be clear of anything spilt while setting them up */
+		if(octx->max_stack_sz > arg_stack.stack_sz_after)
+			octx->max_stack_sz += arg_stack.bytesz;
+
+		octx->max_stack_sz = MAX(octx->max_stack_sz, arg_stack.max_stack_sz_before);
+	}
+
 	if(arg_stack.bytesz){
 		if(arg_stack.need_cleanup & CLEANUP_RESTORE_PUSHBACK){
 			/* callee cleanup - the callee will have popped
-- 
2.43.0


From 1257e54760b2458c825a2bce3bdf70323f31a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 21/57] fix: return small structs in the registers their
 members are classed into

---
 src/cc1/out/impl.c   | 162 ++++++++++++++++++++++++++-----------
 src/cc1/out/impl.h   |   3 +
 src/cc1/out/x86_64.c | 189 +++++++++++++++++++++++++------------------
 3 files changed, 229 insertions(+), 125 deletions(-)

diff --git a/src/cc1/out/impl.c b/src/cc1/out/impl.c
index aad1514..10b2203 100644
--- a/src/cc1/out/impl.c
+++ b/src/cc1/out/impl.c
@@ -96,6 +96,83 @@ const char *impl_val_str(const out_val *vs, int deref)
 	return impl_val_str_r(buf, vs, deref);
 }
 
+unsigned impl_overlay_size(unsigned memsz)
+{
+	const unsigned pws = platform_word_size();
+	unsigned tail = memsz % pws;
+	unsigned tail_pow2 = 1;
+
+	if(!tail)
+		return memsz;
+
+	while(tail_pow2 < tail)
+		tail_pow2 *= 2;
+
+	return memsz - tail + tail_pow2;
+}
+
+static const out_val *impl_overlay_ptr(
+		out_ctx *octx, const out_val *ptr, unsigned offset, type *ty)
+{
+	out_val_retain(octx, ptr);
+
+	if(offset){
+		ptr = out_change_type(
+				octx,
+				ptr,
+				type_ptr_to(type_nav_btype(cc1_type_nav, type_uchar)));
+
+		ptr = out_op(octx, op_plus,
+				ptr,
+				out_new_l(
+					octx,
+					type_nav_btype(cc1_type_nav, type_intptr_t),
+					offset));
+	}
+
+	return out_change_type(octx, ptr, type_ptr_to(ty));
+}
+
+static const out_val *impl_overlay_load_parts(
+		out_ctx *octx, const out_val *ptr,
+		unsigned offset, const unsigned sz)
+{
+	/* load an amount that isn't a power of two, without reading past it */
+	type *const regty = type_nav_btype(cc1_type_nav, type_ulong);
+	const out_val *joined = NULL;
+	unsigned done = 0, part;
+
+	for(part = 4; part > 0; part /= 2){
+		const out_val *val;
+		type *partty;
+
+		if(!(sz & part))
+			continue;
+
+		partty = type_nav_MAX_FOR(cc1_type_nav, part, 0);
+
+		val = out_cast(
+				octx,
+				out_deref(
+					octx,
+					impl_overlay_ptr(octx, ptr, offset + done, partty)),
+				regty, 0);
+
+		if(joined){
+			val = out_op(octx, op_shiftl,
+					val, out_new_l(octx, regty, CHAR_BIT * done));
+
+			joined = out_op(octx, op_or, joined, val);
+		}else{
+			joined = val;
+		}
+
+		done += part;
+	}
+
+	return joined;
+}
+
 static void impl_overlay_mem_reg(
 		out_ctx *octx,
 		unsigned memsz, unsigned nregs,
@@ -103,8 +180,8 @@ static void impl_overlay_mem_reg(
 		const out_val *ptr)
 {
 	const unsigned pws = platform_word_size();
-	struct vreg *cur_reg = regs;
-	unsigned reg_i = 0;
+	unsigned reg_i;
+	unsigned offset = 0;
 
 	assert(ptr->type != V_SPILT && "possible mishandling of spilt register for mem/reg overlay");
 
@@ -123,46 +200,56 @@ static void impl_overlay_mem_reg(
 			mem2reg ? "reg" : "mem",
 			memsz);
 
-	if(!mem2reg){
-		/* reserve all registers so we don't accidentally wipe before the spill */
+	/* reserve all registers so we don't accidentally wipe before the spill,
+	 * nor between loading one and the next */
+	for(reg_i = 0; reg_i < nregs; reg_i++)
+		v_reserve_reg(octx, &regs[reg_i]);
+
+	if(mem2reg && nregs > 1){
+		/* the memory's address can't live in a register we're about to load,
+		 * except for the last */
 		for(reg_i = 0; reg_i < nregs; reg_i++)
-			v_reserve_reg(octx, &regs[reg_i]);
+			v_freeup_reg(octx, &regs[reg_i]);
+
+		if(ptr->type == V_SPILT)
+			ptr = v_to_reg(octx, ptr);
 	}
 
-	for(;; cur_reg++, reg_i++){
+	for(reg_i = 0; offset < memsz; reg_i++, offset += pws){
 		/* read/write whatever size is required */
+		struct vreg *const cur_reg = &regs[reg_i];
+		const unsigned this_memsz = memsz - offset < pws ? memsz - offset : pws;
 		type *this_ty;
-		unsigned this_sz;
+
+		UCC_ASSERT(reg_i < nregs, "reg oob");
 
 		if(cur_reg->is_float){
-			UCC_ASSERT(memsz >= 4, "float for memsz %u?", memsz);
+			UCC_ASSERT(this_memsz >= 4, "float for memsz %u?", this_memsz);
 
 			this_ty = type_nav_btype(
 					cc1_type_nav,
-					memsz > 4 ? type_double : type_float);
+					this_memsz > 4 ? type_double : type_float);
 
 		}else{
-			this_ty = type_nav_MAX_FOR(cc1_type_nav, memsz, 0);
+			this_ty = type_nav_MAX_FOR(cc1_type_nav, this_memsz, 0);
 		}
-		this_sz = type_size(this_ty, NULL);
-
-		UCC_ASSERT(this_sz <= memsz, "reading/writing too much memory");
-
-		ptr = out_change_type(octx, ptr, type_ptr_to(this_ty));
-
-		out_val_retain(octx, ptr);
 
 		if(mem2reg){
 			const out_val *fetched;
 
-			/* can use impl_deref, as we have a register already,
-			 * and know that the memory is an lvalue and not a bitfield
-			 *
-			 * this means we can load straight into the desired register
-			 */
-			fetched = impl_deref(octx, ptr, cur_reg, NULL);
-
-			UCC_ASSERT(reg_i < nregs, "reg oob");
+			if(type_size(this_ty, NULL) == this_memsz){
+				/* can use impl_deref, as we have a register already,
+				 * and know that the memory is an lvalue and not a bitfield
+				 *
+				 * this means we can load straight into the desired register
+				 */
+				fetched = impl_deref(
+						octx,
+						impl_overlay_ptr(octx, ptr, offset, this_ty),
+						cur_reg, NULL);
+			}else{
+				fetched = impl_overlay_load_parts(octx, ptr, offset, this_memsz);
+			}
 
 			if(fetched->type != V_REG || !vreg_eq(&fetched->bits.regoff.reg, cur_reg)){
 				/* move to register */
@@ -170,32 +257,15 @@ static void impl_overlay_mem_reg(
 				fetched = v_to_reg_given(octx, fetched, cur_reg);
 			}
 			out_flush_volatile(octx, fetched);
-			v_reserve_reg(octx, cur_reg); /* prevent changes */
 
 		}else{
 			const out_val *vreg = v_new_reg(octx, NULL, this_ty, cur_reg);
 
-			out_store(octx, ptr, vreg);
-		}
-
-		memsz -= this_sz;
-
-		/* early termination */
-		if(memsz == 0)
-			break;
+			UCC_ASSERT(type_size(this_ty, NULL) == this_memsz,
+					"writing the wrong amount of memory");
 
-		/* increment our memory pointer */
-		ptr = out_change_type(
-				octx,
-				ptr,
-				type_ptr_to(type_nav_btype(cc1_type_nav, type_uchar)));
-
-		ptr = out_op(octx, op_plus,
-				ptr,
-				out_new_l(
-					octx,
-					type_nav_btype(cc1_type_nav, type_intptr_t),
-					pws));
+			out_store(octx, impl_overlay_ptr(octx, ptr, offset, this_ty), vreg);
+		}
 	}
 
 	out_val_release(octx, ptr);
diff --git a/src/cc1/out/impl.h b/src/cc1/out/impl.h
index 80614c4..fb7264a 100644
--- a/src/cc1/out/impl.h
+++ b/src/cc1/out/impl.h
@@ -73,6 +73,9 @@ const struct vreg *impl_callee_save_regs(type *fnty, unsigned *pn);
 void impl_comment(out_ctx *, const char *fmt, va_list l);
 
 /* implicitly takes vtop as a pointer to the memory */
+/* size of an object, when stored from registers by impl_overlay_regs2mem() */
+unsigned impl_overlay_size(unsigned memsz);
+
 void impl_overlay_mem2regs(
 		out_ctx *,
 		unsigned memsz, unsigned nregs,
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index b88ee26..3de9c0f 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -230,6 +230,99 @@ static const char *x86_suffix(type *ty)
 	ICE("no suffix for %s", type_to_str(ty));
 }
 
+enum regtype
+{
+	NONE,
+	INT,
+	FLOAT
+};
+
+static int x86_classify(
+		type *ty, const unsigned long off_bits, enum regtype classes[/*2*/])
+{
+	/* x86_64 ABI, 3.2.3 - classify each eightbyte by the members which
+	 * fall into it. Returns zero if the type must be passed in memory.
+	 *
+	 * 4. Each field [...] classified recursively so that always two fields
+	 * are considered.
+	 *   (a) If both classes are equal, this is the resulting class.
+	 *   // adjacent floats or ints
+	 *   (b) If one of the classes is NO_CLASS, the resulting class is the other.
+	 *   // empty structs - ignored
+	 *   (c) If one of the classes is MEMORY, the result is the MEMORY class.
+	 *   // big struct, etc
+	 *   (d) If one of the classes is INTEGER, the result is the INTEGER.
+	 *   // float,int -> INTEGER; int,int -> INTEGER
+	 *   (e) If one of the classes is X87, X87UP, COMPLEX_X87, MEMORY is used.
+	 *   // ignored for now
+	 *   (f) Otherwise class SSE is used.
+	 */
+	const unsigned eightbyte = CHAR_BIT * 8;
+	struct_union_enum_st *su = type_is_s_or_u(ty);
+	type *arr;
+	enum regtype this_type;
+	unsigned idx;
+
+	if(su){
+		sue_member **mi;
+
+		for(mi = su->members; mi && *mi; mi++){
+			decl *mem = (*mi)->struct_member;
+			const unsigned long mem_off = off_bits
+				+ CHAR_BIT * (unsigned long)mem->bits.var.struct_offset;
+
+			if(mem->bits.var.field_width){
+				const unsigned bits = const_fold_val_i(mem->bits.var.field_width);
+				const unsigned long first =
+					mem_off + mem->bits.var.struct_offset_bitfield;
+
+				if(bits == 0)
+					continue;
+
+				/* a bitfield may end up in both, if packed */
+				for(idx = first / eightbyte; idx <= (first + bits - 1) / eightbyte; idx++){
+					UCC_ASSERT(idx < 2, "too many eightbytes");
+					classes[idx] = INT;
+				}
+			}else if(!x86_classify(mem->ref, mem_off, classes)){
+				return 0;
+			}
+		}
+		return 1;
+	}
+
+	if((arr = type_is(ty, type_array))){
+		type *const elem = type_next(arr);
+		unsigned long i, n;
+
+		if(type_is_incomplete_array(arr))
+			return 1; /* flexarr */
+
+		for(i = 0, n = type_array_len(arr); i < n; i++)
+			if(!x86_classify(
+					elem,
+					off_bits + i * CHAR_BIT * type_size(elem, NULL),
+					classes))
+				return 0;
+		return 1;
+	}
+
+	/* unaligned members are passed in memory */
+	if(off_bits % (CHAR_BIT * type_size(ty, NULL)))
+		return 0;
+
+	this_type = type_is_floating(ty) ? FLOAT : INT;
+	idx = off_bits / eightbyte;
+	UCC_ASSERT(idx < 2, "too many eightbytes");
+
+	if(classes[idx] == NONE)
+		classes[idx] = this_type;
+	else if(classes[idx] != this_type)
+		classes[idx] = INT; /* floats defer to ints */
+
+	return 1;
+}
+
 enum stret
 {
 	stret_scalar,
@@ -293,16 +386,16 @@ static enum stret x86_stret(type *ty, unsigned *stack_space)
 	if(sz > 2 * platform_word_size())
 		return stret_memcpy;
 
+	{
+		enum regtype classes[2] = { NONE, NONE };
+
+		if(!x86_classify(ty, 0, classes))
+			return stret_memcpy;
+	}
+
 	return stret_regs;
 }
 
-enum regtype
-{
-	NONE,
-	INT,
-	FLOAT
-};
-
 static void x86_overlay_regpair_1(
 		struct vreg regs[], enum regtype chosentype, int *regpair_idx)
 {
@@ -333,83 +426,17 @@ static void x86_overlay_regpair_1(
 static void x86_overlay_regpair(
 		struct vreg regpair[/*2*/], int *const nregs, type *retty)
 {
-	/* if we have two floats at either 0-1 or 2-3, then we can do
-	 * a xmm0:rax or rax:xmm0 return. Otherwise we fallback to rdx:rax overlay
-	 *
-	 * x86_64 ABI, 3.2.3:
-	 *
-	 * 4. Each field [...] classified recursively so that always two fields
-	 * are considered.
-	 *   (a) If both classes are equal, this is the resulting class.
-	 *   // adjacent floats or ints
-	 *   (b) If one of the classes is NO_CLASS, the resulting class is the other.
-	 *   // empty structs - ignored
-	 *   (c) If one of the classes is MEMORY, the result is the MEMORY class.
-	 *   // big struct, etc
-	 *   (d) If one of the classes is INTEGER, the result is the INTEGER.
-	 *   // float,int -> INTEGER; int,int -> INTEGER
-	 *   (e) If one of the classes is X87, X87UP, COMPLEX_X87, MEMORY is used.
-	 *   // ignored for now
-	 *   (f) Otherwise class SSE is used.
-	 *   // ignored for now
-	 */
-
-	struct_union_enum_st *su = type_is_s_or_u(retty);
-	sue_member **mi;
-	unsigned current_size_bits = 0;
-	enum regtype current_type = NONE;
-	int regpair_idx = 0;
+	enum regtype classes[2] = { NONE, NONE };
+	const unsigned sz = type_size(retty, NULL);
 
 	*nregs = 0;
 
-	UCC_ASSERT(su->primitive != type_enum, "enum?");
-
-	for(mi = su->members; mi && *mi; mi++){
-		decl *mem = (*mi)->struct_member;
-		type *ty = mem->ref;
+	(void)x86_classify(retty, 0, classes);
 
-		enum regtype this_type = type_is_floating(ty) ? FLOAT : INT;
+	x86_overlay_regpair_1(regpair, classes[0], nregs);
 
-		if(current_type == NONE)
-			current_type = this_type;
-		else if(this_type != current_type)
-			current_type = INT; /* floats defer to ints */
-
-		if(mem->bits.var.field_width){
-			const unsigned bits = const_fold_val_i(
-					mem->bits.var.field_width);
-
-			current_size_bits += bits;
-
-		}else{
-			current_size_bits += CHAR_BIT * type_size(ty, NULL);
-		}
-
-		/* if we pass 64... */
-		if(current_size_bits >= CHAR_BIT * 8){
-			UCC_ASSERT(regpair_idx < 2, "too many regpairs");
-
-			/* hit one eightbyte, decide how we pass this group */
-			x86_overlay_regpair_1(
-					regpair,
-					current_type,
-					&regpair_idx);
-
-			++*nregs;
-
-			current_type = NONE;
-			current_size_bits = 0;
-		}
-	}
-
-	if(regpair_idx < 2){
-		x86_overlay_regpair_1(
-				regpair,
-				current_type,
-				&regpair_idx);
-
-		++*nregs;
-	}
+	if(sz > platform_word_size())
+		x86_overlay_regpair_1(regpair, classes[1], nregs);
 }
 
 static const char *x86_reg_str(const struct vreg *reg, type *r)
@@ -2403,6 +2430,10 @@ const out_val *impl_call(
 			nints++; /* only an extra pointer arg for stret_memcpy */
 			/* fall */
 		case stret_regs:
+			if(stret_kind == stret_regs){
+				/* room to store whole registers */
+				stret_stack = impl_overlay_size(stret_stack);
+			}
 			stret_spill = out_aalloc(octx, stret_stack, type_align(retty, NULL), retty, NULL);
 		case stret_scalar:
 			break;
-- 
2.43.0


From 974f06f5b8101453533fbfbc667247f590732edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:57 +0000
Subject: [PATCH 22/57] fix: stack arguments and the hidden struct return
 pointer

---
 src/cc1/out/x86_64.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 3de9c0f..b83ef3c 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2489,7 +2489,9 @@ const out_val *impl_call(
 	if(arg_stack.bytesz > 0){
 		const out_val *stack_iter;
 
-		nints = nfloats = 0;
+		/* a hidden stret pointer takes the first integer register */
+		nints = stret_kind == stret_memcpy;
+		nfloats = 0;
 
 		/* Rather than spilling the registers based on %rbp, we spill
 		 * them based as offsets from %rsp, that way they're always
@@ -2547,6 +2549,9 @@ const out_val *impl_call(
 		out_val_retain(octx, stret_spill);
 		v_freeup_reg(octx, stret_reg);
 		out_flush_volatile(octx, v_to_reg_given(octx, stret_spill, stret_reg));
+
+		/* keep it, until the call */
+		v_reserve_reg(octx, stret_reg);
 	}
 
 	for(i = 0; i < nargs; i++){
@@ -2639,6 +2644,9 @@ const out_val *impl_call(
 			free(jtarget);
 	}
 
+	if(stret_kind == stret_memcpy)
+		v_unreserve_reg(octx, &call_iregs[0]);
+
 	if(arg_stack.vptr){
 		/* arguments are stored relative to %rsp, i.e. the bottom of the stack,
 		 * which must be clear of anything spilt while setting them up */
-- 
2.43.0


From 7b10853a5fc766285bf4bd3bbc7a4b3fbad293f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:45 +0000
Subject: [PATCH 23/57] fix: unnamed bitfields don't align their struct

---
 src/cc1/fold_sue.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index 891c69b..1dfab95 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -293,7 +293,8 @@ static void fold_sue_calc_fieldwidth(
 		}
 
 		pack_state->sz = bits_to_bytes(bits);
-		pack_state->align = type_align(d->ref, NULL);
+		/* unnamed bitfields don't affect the alignment */
+		pack_state->align = d->spel ? type_align(d->ref, NULL) : 1;
 	}
 
 	/* the field is accessed via the storage unit which contains it */
-- 
2.43.0


From 83adedb3ec8315014071d41feb53c70ee2bbebb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 24/57] fix: a pointer isn't aligned as what it points to is

---
 src/cc1/attribute.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cc1/attribute.c b/src/cc1/attribute.c
index 7f15c99..9f387aa 100644
--- a/src/cc1/attribute.c
+++ b/src/cc1/attribute.c
@@ -51,9 +51,14 @@ attribute *type_attr_present(type *r, enum attribute_type t)
 	 * this means typedefs carry attributes too
 	 */
 
+	int indirect = 0;
+
 	while(r){
 		attribute *da;
 
+		if(indirect && (r->type == type_btype || r->type == type_tdef))
+			return NULL;
+
 		switch(r->type){
 			case type_auto:
 				assert(0 && "__auto_type");
@@ -82,6 +87,11 @@ attribute *type_attr_present(type *r, enum attribute_type t)
 			case type_ptr:
 			case type_block:
 			case type_func:
+				/* the alignment of a struct isn't that of a pointer to it */
+				if(t == attr_aligned)
+					indirect = 1;
+				/* fall */
+
 			case type_array:
 			case type_cast:
 			case type_where:
-- 
2.43.0


From 195b31d3179d9777bce03d94354efe5b2ae1439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 25/57] fix: size and signedness of enums under -fshort-enums

---
 src/cc1/fold_sue.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index 1dfab95..924a640 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -79,9 +79,7 @@ static void fold_enum(struct_union_enum_st *en, symtable *stab)
 			FOLD_EXPR(m->val, stab);
 
 			v = defval;
-			if(negative && v == 0){
-				negative = 0;
-			}
+			negative = !has_bitmask && defval < 0;
 
 		}else{
 			numeric n;
@@ -143,13 +141,20 @@ static void fold_enum(struct_union_enum_st *en, symtable *stab)
 	}
 
 	if(cc1_fopt.short_enums){
-		unsigned bits = (MAX(log2ll(round2(-min + 1)), log2ll(round2(max + 1))));
-
 		/* bits needs to be a power of 2 since those are the only word sizes supported */
-		bits = round2(bits);
+		unsigned bits = 8;
 
-		if(bits < 8)
-			bits = 8;
+		if(is_signed){
+			while(bits < 64
+			&& (max > ((integral_t)1 << (bits - 1)) - 1
+			|| -min > (integral_t)1 << (bits - 1)))
+			{
+				bits *= 2;
+			}
+		}else{
+			while(bits < 64 && max > ((integral_t)1 << bits) - 1)
+				bits *= 2;
+		}
 
 		contained_ty = type_nav_MAX_FOR(cc1_type_nav, bits / 8, is_signed);
 	}else{
-- 
2.43.0


From e8a0e62657a71ccee888f475e091258f3dc8af1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 26/57] fix: packed structs with aligned members, and pointers
 to packed structs as members

---
 src/cc1/fold_sue.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index 924a640..2519bbc 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -403,6 +403,25 @@ static void check_sue_align_attr(struct_union_enum_st *sue, symtable *stab)
 	round_size_to_align(&sue->size, sue->align);
 }
 
+static int fold_sue_member_packed(decl *d)
+{
+	/* only the attributes of the member itself - a member whose type is, or
+	 * refers to a packed struct isn't packed because of that */
+	type *t = d->ref;
+
+	if(attr_present(d->attr, attr_packed))
+		return 1;
+
+	while(t->type != type_btype && t->type != type_tdef){
+		if(t->type == type_attr && attr_present(t->bits.attr, attr_packed))
+			return 1;
+
+		t = t->ref;
+	}
+
+	return 0;
+}
+
 void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 {
 	if(sue->foldprog != SUE_FOLDED_NO || sue->membs_progress != SUE_MEMBS_COMPLETE)
@@ -461,9 +480,14 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 				fold_sue_calc_normal(&pack_state);
 			}
 
-			if(packed || attribute_present(d, attr_packed))
+			if(packed || fold_sue_member_packed(d)){
+				/* an explicit alignment still applies */
 				pack_state.align = 1;
 
+				if(d->bits.var.align.resolved)
+					pack_state.align = d->bits.var.align.resolved;
+			}
+
 			if(sue->primitive == type_struct && !d->bits.var.field_width){
 				fold_sue_apply_normal_offset(&pack_state, &bit_offset);
 			}
-- 
2.43.0


From 5a46f10bf02870452ba3036013517182b30f5648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:22 +0000
Subject: [PATCH 27/57] fix: in packed structs, only a member's own alignment
 applies

---
 src/cc1/fold_sue.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index 2519bbc..c958888 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -403,23 +403,21 @@ static void check_sue_align_attr(struct_union_enum_st *sue, symtable *stab)
 	round_size_to_align(&sue->size, sue->align);
 }
 
-static int fold_sue_member_packed(decl *d)
+static attribute *fold_sue_member_attr(decl *d, enum attribute_type which)
 {
 	/* only the attributes of the member itself - a member whose type is, or
 	 * refers to a packed struct isn't packed because of that */
 	type *t = d->ref;
+	attribute *attr = attr_present(d->attr, which);
 
-	if(attr_present(d->attr, attr_packed))
-		return 1;
-
-	while(t->type != type_btype && t->type != type_tdef){
-		if(t->type == type_attr && attr_present(t->bits.attr, attr_packed))
-			return 1;
+	while(!attr && t->type != type_btype && t->type != type_tdef){
+		if(t->type == type_attr)
+			attr = attr_present(t->bits.attr, which);
 
 		t = t->ref;
 	}
 
-	return 0;
+	return attr;
 }
 
 void fold_sue(struct_union_enum_st *const sue, symtable *stab)
@@ -480,11 +478,11 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 				fold_sue_calc_normal(&pack_state);
 			}
 
-			if(packed || fold_sue_member_packed(d)){
+			if(packed || fold_sue_member_attr(d, attr_packed)){
 				/* an explicit alignment still applies */
 				pack_state.align = 1;
 
-				if(d->bits.var.align.resolved)
+				if(d->bits.var.align.first || fold_sue_member_attr(d, attr_aligned))
 					pack_state.align = d->bits.var.align.resolved;
 			}
 
-- 
2.43.0


From 52654a11509866e61c5f9c204ae810c378ecd21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:04 +0000
Subject: [PATCH 28/57] fix: later designators in a union's initialiser
 override earlier ones

---
 src/cc1/decl_init.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 991199b..5d1753a 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -1049,8 +1049,18 @@ static decl_init **decl_init_brace_up_sue2(
 				bitfield_trunc_check(d_mem, braced_sub->bits.expr);
 			}
 
-			if(sue->primitive == type_union)
-				break;
+			if(sue->primitive == type_union){
+				size_t other;
+
+				/* a union keeps only its last initialised member */
+				for(other = 0; other < n; other++)
+					if(other != i)
+						current[other] = DYNARRAY_NULL;
+
+				/* which may be designated next */
+				if(!*iter->pos || !(*iter->pos)->desig)
+					break;
+			}
 		}else{
 			break;
 		}
-- 
2.43.0


From 972f01c633297653c0f0cb34c1f0889ba915662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:41 +0000
Subject: [PATCH 29/57] fix: floating literals are correctly rounded, and may
 begin with a zero

---
 src/cc1/tokenise.c | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index afef4b0..e6e1577 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -1019,6 +1019,17 @@ out:
 	curtok = is_wide ? token_integer : token_character;
 }
 
+static int is_exponent(const char *p)
+{
+	if(tolower(*p++) != 'e')
+		return 0;
+
+	if(*p == '+' || *p == '-')
+		p++;
+
+	return isdigit(*p);
+}
+
 static void read_number(const int first)
 {
 	char *const num_start = bufferpos - 1;
@@ -1043,7 +1054,13 @@ static void read_number(const int first)
 			default:
 				mode = OCT;
 
-				if(isoct(next)){
+				/* a leading zero doesn't make a float octal */
+				for(p = bufferpos; isdigit(*p); p++);
+
+				if(*p == '.' || is_exponent(p)){
+					mode = DEC;
+					update_bufferpos(num_start);
+				}else if(isoct(next)){
 					/* fine */
 				}else if(isdigit(next)){
 					die_at(NULL, "invalid oct character '%c'", next);
@@ -1063,11 +1080,22 @@ static void read_number(const int first)
 	 * may be a hex-float constant */
 	for(p = bufferpos; (mode == HEX ? isxdigit : isdigit)(*p); p++);
 
-	if(*p == '.' || (mode == HEX && *p == 'p')){
+	if(*p == '.'
+	|| (mode == HEX && tolower(*p) == 'p')
+	|| (mode == DEC && is_exponent(p)))
+	{
 		char *new;
 		int bad_prefix = 0;
 
 		currentval.val.f = ucc_strtold(num_start, &new);
+
+		/* avoid double-rounding, via floating_t */
+		switch(tolower(*new)){
+			case 'f': currentval.val.f = strtof(num_start, NULL); break;
+			case 'l': break;
+			default: currentval.val.f = strtod(num_start, NULL); break;
+		}
+
 		currentval.suffix = VAL_FLOATING;
 		update_bufferpos(new);
 
@@ -1077,7 +1105,7 @@ static void read_number(const int first)
 
 			case HEX:
 				/* check for exponent */
-				assert(!strncmp(num_start, "0x", 2));
+				assert(num_start[0] == '0' && tolower(num_start[1]) == 'x');
 				for(p = num_start + 2; isxdigit(*p) || *p == '.'; p++);
 
 				if(tolower(*p) != 'p'){
-- 
2.43.0


From 0082e4b305356404ce21255f3a5fd1c9427e340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 30/57] fix: floating constants are folded with the precision
 of their type

---
 src/cc1/const.c       | 32 +++++++++++++++++++++++++++++++-
 src/cc1/const.h       |  2 +-
 src/cc1/ops/expr_op.c |  3 ++-
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index 3622aa7..d6291c9 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -256,10 +256,40 @@ integral_t const_op_exec(
 	return result;
 }
 
+static floating_t const_fp_arith_double(double lv, double rv, enum op_type op)
+{
+	switch(op){
+		case op_divide:   return lv / rv;
+		case op_multiply: return lv * rv;
+		case op_plus:     return lv + rv;
+		case op_minus:    return lv - rv;
+		default:
+			break;
+	}
+	ucc_unreach(-1);
+}
+
 floating_t const_op_exec_fp(
 		floating_t lv, const floating_t *rv,
-		enum op_type op)
+		enum op_type op, struct type *ty)
 {
+	switch(op){
+		case op_divide:
+		case op_multiply:
+		case op_plus:
+		case op_minus:
+			/* round as the operation at runtime would */
+			if(!rv || (op == op_divide && lv == 0 && *rv == 0))
+				break;
+			if(type_is_primitive(ty, type_float))
+				return (float)const_fp_arith_double(lv, *rv, op);
+			if(type_is_primitive(ty, type_double))
+				return const_fp_arith_double(lv, *rv, op);
+			break;
+		default:
+			break;
+	}
+
 	switch(op){
 		case op_orsc:
 		case op_andsc:
diff --git a/src/cc1/const.h b/src/cc1/const.h
index d2d5122..7786bb0 100644
--- a/src/cc1/const.h
+++ b/src/cc1/const.h
@@ -97,6 +97,6 @@ integral_t const_op_exec(
 
 floating_t const_op_exec_fp(
 		floating_t lv, const floating_t *rv,
-		enum op_type op);
+		enum op_type op, struct type *ty);
 
 #endif
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 6d4d42f..9a3ce02 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -68,7 +68,8 @@ static void const_op_num_fp(
 	fp_r = const_op_exec_fp(
 			lhs->bits.num.val.f,
 			rhs ? &rhs->bits.num.val.f : NULL,
-			e->bits.op.op);
+			e->bits.op.op,
+			e->tree_type);
 
 	k->type = CONST_NUM;
 
-- 
2.43.0


From fc11f9026e068aedc9fad8e9a5f955dde2a3cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:16 +0000
Subject: [PATCH 31/57] fix: -0.0 as an initialiser isn't all-zero bits

---
 src/cc1/decl_init.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index 5d1753a..d1a8cd4 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -253,6 +253,18 @@ int decl_init_is_const(
 	return -1;
 }
 
+static int expr_is_negative_fp_zero(expr *e)
+{
+	/* compares equal to zero, but isn't all-zero bits */
+	consty k;
+
+	const_fold(e, &k);
+
+	return k.type == CONST_NUM
+		&& K_FLOATING(k.bits.num)
+		&& 1 / k.bits.num.val.f < 0;
+}
+
 static int decl_init_is_zero_fold(decl_init *dinit, symtable *symtab)
 {
 	DINIT_NULL_CHECK(dinit, return 1);
@@ -261,7 +273,8 @@ static int decl_init_is_zero_fold(decl_init *dinit, symtable *symtab)
 		case decl_init_scalar:
 			if(symtab)
 				fold_expr_nodecay(dinit->bits.expr, symtab);
-			return const_expr_and_zero(dinit->bits.expr);
+			return const_expr_and_zero(dinit->bits.expr)
+				&& !expr_is_negative_fp_zero(dinit->bits.expr);
 
 		case decl_init_brace:
 		{
-- 
2.43.0


From 1aa1339ae47c16adcb6568fa5d3d2fa29b6c2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:37 +0000
Subject: [PATCH 32/57] fix: zeroing a remainder of three, five, six or seven
 bytes

---
 src/cc1/out/mem.c | 54 ++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/cc1/out/mem.c b/src/cc1/out/mem.c
index fff6a7a..c4ccdc0 100644
--- a/src/cc1/out/mem.c
+++ b/src/cc1/out/mem.c
@@ -134,53 +134,25 @@ void out_memset(
 
 		out_val_consume(octx, emit_libc_call(octx, "memset", v_ptr, byte_val, nbytes_val));
 	}else{
-		size_t n, rem;
-		unsigned i;
-		type *tzero = type_nav_MAX_FOR(cc1_type_nav, nbytes, 0);
-
-		type *textra, *textrap;
+		size_t bytes_todo = nbytes;
+		type *t1 = type_nav_btype(cc1_type_nav, type_intptr_t);
 
 		assert(byte == 0 && "TODO: non-zero out_memset()");
 
-		if(!tzero)
-			tzero = type_nav_btype(cc1_type_nav, type_nchar);
-
-		n   = nbytes / type_size(tzero, NULL);
-		rem = nbytes % type_size(tzero, NULL);
-
-		if((textra = rem ? type_nav_MAX_FOR(cc1_type_nav, rem, 0) : NULL))
-			textrap = type_ptr_to(textra);
-
-		v_ptr = out_change_type(octx, v_ptr, type_ptr_to(tzero));
-
-#ifdef MEMSET_VERBOSE
-		out_comment("memset(%s, %d, %lu), using ptr<%s>, %lu steps",
-				e->expr->f_str(),
-				e->bits.builtin_memset.ch,
-				e->bits.builtin_memset.len,
-				type_to_str(tzero), n);
-#endif
-
-		for(i = 0; i < n; i++){
-			const out_val *v_zero = out_new_zero(octx, tzero);
-			const out_val *v_inc;
-
-			/* *p = 0 */
-			out_val_retain(octx, v_ptr);
-			out_store(octx, v_ptr, v_zero);
-
-			/* p++ (copied pointer) */
-			v_inc = out_new_l(octx, type_nav_btype(cc1_type_nav, type_intptr_t), 1);
-
-			v_ptr = out_op(octx, op_plus, v_ptr, v_inc);
+		while(bytes_todo > 0){
+			type *step = type_nav_MAX_FOR(cc1_type_nav, bytes_todo, 0);
+			unsigned step_sz = type_size(step, NULL);
 
-			if(rem){
-				/* need to zero a little more */
-				v_ptr = out_change_type(octx, v_ptr, textrap);
-				v_zero = out_new_zero(octx, textra);
+			v_ptr = out_change_type(octx, v_ptr, type_ptr_to(step));
 
+			while(bytes_todo >= step_sz){
+				/* *p = 0 */
 				out_val_retain(octx, v_ptr);
-				out_store(octx, v_ptr, v_zero);
+				out_store(octx, v_ptr, out_new_zero(octx, step));
+
+				/* p++ (copied pointer) */
+				v_ptr = out_op(octx, op_plus, v_ptr, out_new_l(octx, t1, 1));
+				bytes_todo -= step_sz;
 			}
 		}
 
-- 
2.43.0


From d509791bc22e45c720f320dcc7631e6c6a6e1b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 33/57] fix: overriding an initialiser that isn't constant, or
 by one in braces

---
 src/cc1/decl_init.c | 56 +++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/src/cc1/decl_init.c b/src/cc1/decl_init.c
index d1a8cd4..5a2d348 100644
--- a/src/cc1/decl_init.c
+++ b/src/cc1/decl_init.c
@@ -516,7 +516,7 @@ static decl_init *decl_init_brace_up_scalar(
 		if(n > 1)
 			excess_init(&first_init->where, tfor);
 
-		ret = decl_init_brace_up_r(current, &it, tfor, stab, /*nested*/0);
+		ret = decl_init_brace_up_r(/*current - free'd*/NULL, &it, tfor, stab, /*nested*/0);
 
 		init_debug_indent(--);
 
@@ -588,6 +588,29 @@ static void warn_replacing_with_sideeffects(where *replacing_location, decl_init
 	}
 }
 
+static int desig_discards_obj(decl_init *this, decl_init *replacing)
+{
+	if(/* next designator:*/this->desig
+	/* replacing { obj } init type: */
+	&& replacing->type == decl_init_brace
+	&& dynarray_count(replacing->bits.ar.inits) == 1
+	&& replacing->bits.ar.inits[0] != DYNARRAY_NULL
+	&& replacing->bits.ar.inits[0]->type == decl_init_scalar
+	&& type_is_s_or_u(replacing->bits.ar.inits[0]->bits.expr->tree_type))
+	{
+		int warned = cc1_warn_at(
+				&this->where,
+				init_obj_discard,
+				"designating into object discards entire previous initialisation");
+
+		if(warned)
+			note_at(&replacing->where, "previous initialisation");
+
+		return 1;
+	}
+	return 0;
+}
+
 static decl_init **decl_init_brace_up_array2(
 		decl_init **current, struct init_cpy ***range_store,
 		init_iter *iter,
@@ -676,15 +699,19 @@ static decl_init **decl_init_brace_up_array2(
 				 * i.e. x[] = { [0 ... 2] = f(), [1] = 5 }
 				 * ^ fine, as we can't replace subobjects of scalars
 				 */
-				if(replacing != DYNARRAY_NULL
-				&& !type_is_scalar(next_type)){
+				if(desig_discards_obj(this, replacing)){
+					/* XXX: memleak */
+					current[i] = DYNARRAY_NULL;
+				}else if(!type_is_scalar(next_type)){
 					/* we can replace brace inits IF they're constant (as a special
 					 * case), which is usually a common usage for static/global inits
 					 * i.e.
 					 * int x[] = { [0 ... 9] = f(), [1] = `exp' };
 					 * if exp is const we can do it.
 					 */
-					if(!decl_init_is_const(replacing, stab, next_type, NULL, NULL)){
+					if(replacing->type == decl_init_copy
+					&& !decl_init_is_const(replacing, stab, next_type, NULL, NULL))
+					{
 						char wbuf[WHERE_BUF_SIZ];
 
 						die_at(&this->where,
@@ -869,7 +896,9 @@ static decl_init **decl_init_brace_up_sue2(
 		fold_expr_nodecay(e = this->bits.expr, stab);
 
 		if(type_is_s_or_u(e->tree_type) == sue){
-			/* copy init */
+			/* copy init - replaces any previous initialisation, memleak */
+			current = NULL;
+			n = 0;
 			dynarray_padinsert(&current, 0, &n, this);
 
 			++iter->pos;
@@ -999,22 +1028,9 @@ static decl_init **decl_init_brace_up_sue2(
 				 *                            ^~~~~~~~~
 				 * this causes the original '.obj' init to be dropped
 				 */
-				if(/* next designator:*/this->desig
-				&& /* current designator:*/ des
-				/* replacing { obj } init type: */
-				&& replacing->type == decl_init_brace
-				&& dynarray_count(replacing->bits.ar.inits) == 1
-				&& replacing->bits.ar.inits[0]->type == decl_init_scalar
-				&& type_is_s_or_u(replacing->bits.ar.inits[0]->bits.expr->tree_type))
+				if(/* current designator:*/ des
+				&& desig_discards_obj(this, replacing))
 				{
-					int warned = cc1_warn_at(
-							&this->where,
-							init_obj_discard,
-							"designating into object discards entire previous initialisation");
-
-					if(warned)
-						note_at(&replacing->where, "previous initialisation");
-
 					/* XXX: memleak */
 					replacing = NULL;
 					current[i] = DYNARRAY_NULL;
-- 
2.43.0


From 96718ca8172a563a5dd0d7856b32ba9fac866faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 34/57] fix: -0.0 was loaded as 0.0

---
 src/cc1/out/x86_64.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index b83ef3c..0f153df 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1015,7 +1015,7 @@ static const out_val *x86_load_fp(out_ctx *octx, const out_val *from)
 			ICE("load int into float?");
 
 		case V_CONST_F:
-			if(from->bits.val_f == 0){
+			if(from->bits.val_f == 0 && 1 / from->bits.val_f > 0 /* not -0.0 */){
 				type *const ty_fp = from->t;
 				out_val *mut = v_dup_or_reuse(octx, from, from->t);
 				struct vreg r;
@@ -1033,7 +1033,8 @@ static const out_val *x86_load_fp(out_ctx *octx, const out_val *from)
 			/* if it's an int-const, we can load without a label
 			 * ... unless it's greater than 0x1p63, in which case,
 			 * we can't create it from an integer. */
-			if(from->bits.val_f == (integral_t)from->bits.val_f
+			if(from->bits.val_f != 0
+			&& from->bits.val_f == (integral_t)from->bits.val_f
 			&& ucc_fabs(from->bits.val_f) < 9223372036854775808.0 /* 0x1p63 */
 			&& cc1_fopt.integral_float_load)
 			{
-- 
2.43.0


From 4e7cf8af5fbdacd66cbb881109feb88eadeaa436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:38 +0000
Subject: [PATCH 35/57] fix: folding of && and || on floats, and of == and - on
 addresses

---
 src/cc1/ops/expr_op.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 9a3ce02..e133a2b 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -107,7 +107,10 @@ static void collapse_const(collapsed_consty *out, const consty *in)
 
 		case CONST_NUM:
 			out->lbl = NULL;
-			out->offset = in->bits.num.val.i + in->offset;
+			if(K_FLOATING(in->bits.num)) /* for its truth */
+				out->offset = in->bits.num.val.f != 0;
+			else
+				out->offset = in->bits.num.val.i + in->offset;
 			break;
 
 		case CONST_STRK:
@@ -397,7 +400,7 @@ static void const_op_num_int(
 					if(l.is_weak || r.is_weak){
 						CONST_FOLD_NO(k, e);
 					}else{
-						int same = !strcmp(l.lbl, r.lbl);
+						int same = !strcmp(l.lbl, r.lbl) && l.offset == r.offset;
 						k->type = CONST_NUM;
 
 						k->bits.num.val.i = ((e->bits.op.op == op_eq) == same);
@@ -411,7 +414,8 @@ static void const_op_num_int(
 						assert(tnext);
 
 						k->type = CONST_NUM;
-						k->bits.num.val.i = (l.offset - r.offset) / type_size(tnext, NULL);
+						k->bits.num.val.i =
+							(sintegral_t)(l.offset - r.offset) / (sintegral_t)type_size(tnext, NULL);
 						k->nonstandard_const = e;
 					}
 					break;
@@ -433,6 +437,14 @@ static void const_op_num(
 
 		fp[1] = type_is_floating(e->rhs->tree_type);
 
+		if(op_is_shortcircuit(e->bits.op.op)){
+			/* operands aren't converted, just tested */
+			const_op_num_int(e, k, lhs, rhs);
+			if((fp[0] || fp[1]) && !k->nonstandard_const)
+				k->nonstandard_const = e;
+			return;
+		}
+
 		valid = fp[0] == fp[1];
 
 		if(!valid){
-- 
2.43.0


From 0134a20746f03e12d821ce4b941bde9235c7b463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 36/57] fix: negating an ordered floating comparison with a nan
 operand

!(a < b) was compiled as a >= b, which is false when either is a nan.
---
 src/cc1/out/op.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index f7f8f11..33498e1 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -395,6 +395,24 @@ const out_val *out_op(
 	return result;
 }
 
+static int v_can_not_cmp(const out_val *flag)
+{
+	/* an ordered floating comparison and its opposite are both
+	 * false for a nan, so !(a < b) isn't a >= b */
+	if(!(flag->bits.flag.mods & flag_mod_float) || cc1_fopt.finite_math_only)
+		return 1;
+
+	switch(flag->bits.flag.cmp){
+		case flag_lt:
+		case flag_le:
+		case flag_gt:
+		case flag_ge:
+			return 0;
+		default:
+			return 1;
+	}
+}
+
 const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 {
 	switch(uop){
@@ -408,7 +426,7 @@ const out_val *out_op_unary(out_ctx *octx, enum op_type uop, const out_val *val)
 	/* special case - reverse the flag if possible */
 	switch(val->type){
 		case V_FLAG:
-			if(uop == op_not){
+			if(uop == op_not && v_can_not_cmp(val)){
 				out_val *reversed = v_dup_or_reuse(octx, val, val->t);
 
 				reversed->bits.flag.cmp = v_not_cmp(reversed->bits.flag.cmp);
-- 
2.43.0


From 1054cb98c9423bb14ff9e828ffbf37bf794d1003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 37/57] fix: an operand that's still in use was overwritten by
 its operator

x++ on a float gave the incremented value, as did p++ on a pointer to a
variable length array.
---
 src/cc1/out/x86_64.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 0f153df..07b6b00 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1577,6 +1577,10 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 		l = v_to(octx, l, TO_REG);
 		r = v_to(octx, r, TO_REG | TO_MEM);
 
+		/* l is overwritten - others may be using it */
+		if(l->retains > 1u + (l == r))
+			l = v_dup_or_reuse(octx, l, l->t);
+
 		{
 			char b1[VAL_STR_SZ], b2[VAL_STR_SZ];
 
@@ -1777,6 +1781,10 @@ const out_val *impl_op(out_ctx *octx, enum op_type op, const out_val *l, const o
 			x86_reg_cp(octx, &new_reg, &old_reg, l->t);
 		}
 
+		/* l is overwritten - others may be using it */
+		if(l->type == V_REG && l->retains > 1u + (l == r))
+			l = v_dup_or_reuse(octx, l, l->t);
+
 		/* ensure types match - may have upgraded from V_FLAG / _Bool */
 		maybe_promote(octx, &l, &r);
 
-- 
2.43.0


From 4b458fa851b3ebddf8c2f863937dbd994847004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:36 +0000
Subject: [PATCH 38/57] fix: negating 0.0 gave 0.0

---
 src/cc1/out/x86_64.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index 07b6b00..b019cff 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -1898,9 +1898,13 @@ const out_val *impl_op_unary(out_ctx *octx, enum op_type op, const out_val *val)
 
 		case op_minus:
 			if(type_is_floating(val->t)){
+				/* -0.0 - x, as 0.0 - x is 0.0 for an x of 0.0 */
+				numeric negzero = { 0 };
+				negzero.val.f = -0.0;
+				negzero.suffix = VAL_FLOATING;
 				return out_op(
 						octx, op_minus,
-						out_new_zero(octx, val->t),
+						out_new_num(octx, val->t, &negzero),
 						val);
 			}
 			opc = "neg";
-- 
2.43.0


From 5d3588ce40c194d65ccfe31c248deeee99f1512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 39/57] fix: a flag still to be read was lost when applying a
 register's offset

---
 src/cc1/out/virt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cc1/out/virt.c b/src/cc1/out/virt.c
index 65a60a1..eedc68a 100644
--- a/src/cc1/out/virt.c
+++ b/src/cc1/out/virt.c
@@ -425,6 +425,11 @@ const out_val *v_reg_apply_offset(out_ctx *octx, const out_val *const orig)
 	if(!off)
 		return orig;
 
+	/* we're about to change cpu flags */
+	v_decay_flags_except1(octx, orig);
+	if(orig->type != V_REG && orig->type != V_REGOFF)
+		return v_reg_apply_offset(octx, v_to_reg(octx, orig)); /* spilt */
+
 	REMOVE_CONST(out_val *, orig)->bits.regoff.offset = 0;
 	{
 		vreg = v_dup_or_reuse(octx, orig, orig->t);
-- 
2.43.0


From bc0b3a99d6805c43c3d2e9971b01ad4d6de03d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 40/57] fix: a pointer was lost after its null check, with a
 handler to call

---
 src/cc1/sanitize.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index c0c4713..b834c73 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -82,6 +82,13 @@ static type *uintptr_ty(void)
 	return type_nav_btype(cc1_type_nav, type_uintptr_t);
 }
 
+static void sanitize_assert_nonzero(const out_val *v, out_ctx *octx, const char *desc)
+{
+	/* compare, instead of branching on v, since v is used after the branch
+	 * and so mustn't be moved by the failure block alone */
+	sanitize_assert_order(v, op_ne, 0, uintptr_ty(), octx, desc);
+}
+
 void sanitize_boundscheck(
 		expr *elhs, expr *erhs,
 		out_ctx *octx,
@@ -249,7 +256,7 @@ void sanitize_nonnull(
 {
 	if(!out_sanitize_enabled(octx, SAN_NULL))
 		return;
-	sanitize_assert(out_val_retain(octx, v), octx, desc);
+	sanitize_assert_nonzero(v, octx, desc);
 }
 
 void sanitize_aligned(const out_val *v, out_ctx *octx, type *t)
@@ -271,7 +278,7 @@ void sanitize_returns_nonnull(const out_val *v, out_ctx *octx)
 {
 	if(!out_sanitize_enabled(octx, SAN_RETURNS_NONNULL_ATTRIBUTE))
 		return;
-	sanitize_assert(out_val_retain(octx, v), octx, "returns_nonnull");
+	sanitize_assert_nonzero(v, octx, "returns_nonnull");
 }
 
 void sanitize_bool(const out_val *v, out_ctx *octx)
-- 
2.43.0


From 486714a690c26da831f4a89bb885e4c02c119572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 41/57] fix: vla bounds checks let through negative and huge
 indexes

---
 src/cc1/sanitize.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index b834c73..96f29b7 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -133,7 +133,7 @@ void sanitize_boundscheck(
 		case CONST_NO:
 		{
 			/* vla */
-			const out_val *bytesize, *byteindex, *tsize;
+			const out_val *bytesize, *index, *count, *tsize;
 			type *tnext = type_is_array(array_decl->ref);
 
 			if(type_is_variably_modified(tnext))
@@ -141,12 +141,15 @@ void sanitize_boundscheck(
 			else
 				tsize = out_new_l(octx, uintptr_ty(), type_size(tnext, NULL));
 
-			out_val_retain(octx, val);
-			byteindex = out_op(octx, op_multiply, val, tsize);
-
 			bytesize = vla_size(array_decl->ref, octx);
 
-			sanitize_assert_order2(byteindex, op_le, bytesize, octx, "vla bounds");
+			/* unsigned compare, as above */
+			index = out_change_type(octx, out_val_retain(octx, val), uintptr_ty());
+			count = out_op(octx, op_divide,
+					out_change_type(octx, bytesize, uintptr_ty()),
+					out_change_type(octx, tsize, uintptr_ty()));
+
+			sanitize_assert_order2(index, op_le, count, octx, "vla bounds");
 			break;
 		}
 
-- 
2.43.0


From 605daa019df0b7d71c770e51e8fc4058fc8b3582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 42/57] fix: divide sanitizer used int's minimum for every type

---
 src/cc1/sanitize.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index 96f29b7..a5c2aad 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -203,6 +203,7 @@ void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *
 {
 	const out_val *cmp, *zero;
 	const int is_fp = type_is_floating(ty);
+	long min;
 
 	if(is_fp){
 		numeric n;
@@ -223,11 +224,13 @@ void sanitize_divide(const out_val *lhs, const out_val *rhs, type *ty, out_ctx *
 	cmp = out_op(octx, op_ne, out_val_retain(octx, rhs), zero);
 	sanitize_assert(cmp, octx, "divide by zero");
 
-	if(is_fp)
+	if(is_fp || !type_is_signed(ty))
 		return;
 
+	min = ~0ul << (CHAR_BIT * type_size(ty, NULL) - 1);
+
 	cmp = out_op(octx, op_or,
-			out_op(octx, op_ne, out_val_retain(octx, lhs), out_new_l(octx, ty, UCC_INT_MIN)),
+			out_op(octx, op_ne, out_val_retain(octx, lhs), out_new_l(octx, ty, min)),
 			out_op(octx, op_ne, out_val_retain(octx, rhs), out_new_l(octx, ty, -1)));
 	sanitize_assert(cmp, octx, "INT_MIN / -1");
 }
-- 
2.43.0


From cc935e6d990913baa01c70d220ae00221804aacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 43/57] fix: compound assignment and modulus weren't sanitized,
 overflow was checked after truncation

---
 src/cc1/ops/expr_assign_compound.c | 21 ++++++++++++++++++++-
 src/cc1/ops/expr_op.c              |  3 ++-
 src/cc1/sanitize.c                 |  8 ++++----
 src/cc1/sanitize.h                 |  2 +-
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/cc1/ops/expr_assign_compound.c b/src/cc1/ops/expr_assign_compound.c
index a95aa6b..16e3f00 100644
--- a/src/cc1/ops/expr_assign_compound.c
+++ b/src/cc1/ops/expr_assign_compound.c
@@ -5,6 +5,7 @@
 #include "expr_op.h"
 
 #include "../type_nav.h"
+#include "../sanitize.h"
 
 const char *str_expr_assign_compound(void)
 {
@@ -79,6 +80,7 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	 * lea int, cast up to float, add, cast down to int, store
 	 */
 	const out_val *saved_post = NULL, *addr_lhs, *rhs, *lhs, *result;
+	type *op_ty;
 
 	addr_lhs = gen_expr(e->lhs, octx);
 
@@ -106,8 +108,25 @@ const out_val *gen_expr_assign_compound(const expr *e, out_ctx *octx)
 	if(e->bits.compoundop.upcast_ty)
 		lhs = out_cast(octx, lhs, e->bits.compoundop.upcast_ty, /*normalise_bool:*/1);
 
+	op_ty = e->bits.compoundop.upcast_ty;
+	if(!op_ty)
+		op_ty = e->tree_type;
+
+	switch(e->bits.compoundop.op){
+		case op_shiftl:
+		case op_shiftr:
+			sanitize_shift(op_ty, e->rhs->tree_type, e->bits.compoundop.op, octx, &lhs, &rhs);
+			break;
+		case op_divide:
+		case op_modulus:
+			sanitize_divide(lhs, rhs, op_ty, octx);
+			break;
+		default:
+			break;
+	}
+
 	result = out_op(octx, e->bits.compoundop.op, lhs, rhs);
-	gen_op_trapv(e->tree_type, &result, octx, e->bits.compoundop.op);
+	gen_op_trapv(op_ty, &result, octx, e->bits.compoundop.op);
 
 	if(e->bits.compoundop.upcast_ty) /* need to cast back down to store */
 		result = out_cast(octx, result, e->tree_type, /*normalise_bool:*/1);
diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index e133a2b..48029aa 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1569,9 +1569,10 @@ const out_val *gen_expr_op(const expr *e, out_ctx *octx)
 				break;
 			case op_shiftl:
 			case op_shiftr:
-				sanitize_shift(e->lhs, e->rhs, e->bits.op.op, octx, &lhs, &rhs);
+				sanitize_shift(e->lhs->tree_type, e->rhs->tree_type, e->bits.op.op, octx, &lhs, &rhs);
 				break;
 			case op_divide:
+			case op_modulus:
 				sanitize_divide(lhs, rhs, e->tree_type, octx);
 				break;
 			default:
diff --git a/src/cc1/sanitize.c b/src/cc1/sanitize.c
index a5c2aad..dcf5e41 100644
--- a/src/cc1/sanitize.c
+++ b/src/cc1/sanitize.c
@@ -167,13 +167,13 @@ void sanitize_vlacheck(const out_val *vla_sz, type *sz_ty, out_ctx *octx)
 }
 
 void sanitize_shift(
-		expr *elhs, expr *erhs,
+		type *tlhs, type *trhs,
 		enum op_type op,
 		out_ctx *octx,
 		const out_val **const lhs, const out_val **const rhs)
 {
 	/* rhs must be < bit-size of lhs' type */
-	const unsigned max = CHAR_BIT * type_size(elhs->tree_type, NULL);
+	const unsigned max = CHAR_BIT * type_size(tlhs, NULL);
 	out_blk *current;
 
 	if(!out_sanitize_enabled(octx, SAN_SHIFT_EXPONENT))
@@ -189,11 +189,11 @@ void sanitize_shift(
 	sanitize_assert_order(*rhs, op_lt, max, uintptr_ty(), octx, "shift rhs size");
 
 	/* rhs must not be negative */
-	sanitize_assert_order(*rhs, op_ge, 0, erhs->tree_type, octx, "shift rhs negative");
+	sanitize_assert_order(*rhs, op_ge, 0, trhs, octx, "shift rhs negative");
 
 	/* if left shift, lhs must not be negative */
 	if(op == op_shiftl)
-		sanitize_assert_order(*lhs, op_ge, 0, elhs->tree_type, octx, "shift lhs negative");
+		sanitize_assert_order(*lhs, op_ge, 0, tlhs, octx, "shift lhs negative");
 
 	*lhs = out_val_unphi(octx, *lhs);
 	*rhs = out_val_unphi(octx, *rhs);
diff --git a/src/cc1/sanitize.h b/src/cc1/sanitize.h
index 410e336..ec4fadc 100644
--- a/src/cc1/sanitize.h
+++ b/src/cc1/sanitize.h
@@ -13,7 +13,7 @@ void sanitize_boundscheck(
 void sanitize_vlacheck(const out_val *vla_sz, type *sz_ty, out_ctx *);
 
 void sanitize_shift(
-		expr *elhs, expr *erhs,
+		type *tlhs, type *trhs,
 		enum op_type,
 		out_ctx *octx,
 		const out_val **lhs, const out_val **rhs);
-- 
2.43.0


From 19acc7afccd7a4aabd8035e6598c7fd73758e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 44/57] fix: overflow traps for operators which don't overflow,
 or whose flags were folded away

---
 src/cc1/ops/expr_op.c | 14 ++++++++++++--
 src/cc1/out/op.c      | 11 ++++++++---
 src/cc1/out/x86_64.c  |  6 ++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/cc1/ops/expr_op.c b/src/cc1/ops/expr_op.c
index 48029aa..e828049 100644
--- a/src/cc1/ops/expr_op.c
+++ b/src/cc1/ops/expr_op.c
@@ -1509,8 +1509,15 @@ void gen_op_trapv(
 		return;
 	}
 
-	if(op_is_comparison(op))
-		return;
+	switch(op){
+		case op_plus:
+		case op_minus:
+		case op_multiply:
+			break;
+		default:
+			/* doesn't overflow, nor (always) set the overflow flag */
+			return;
+	}
 
 	{
 		out_blk *land = out_blk_new(octx, "trapv_end");
@@ -1584,6 +1591,9 @@ const out_val *gen_expr_op(const expr *e, out_ctx *octx)
 		/* make sure we get the pointer, for example 2+(int *)p
 		 * or the int, e.g. (int *)a && (int *)b -> int */
 		eval = out_change_type(octx, eval, e->tree_type);
+
+		if(type_is_ptr(e->lhs->tree_type) && type_is_ptr(e->rhs->tree_type))
+			return eval; /* pointer difference - a subtraction, then a division */
 	}
 
 	gen_op_trapv(e->tree_type, &eval, octx, e->bits.op.op);
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 33498e1..95a17a2 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -333,6 +333,9 @@ const out_val *out_op(
 	const out_val *vconst = NULL, *vregp_or_lbl = NULL;
 	const out_val *result;
 	const out_val *decay_except[] = { lhs, rhs, NULL };
+	/* the instruction's overflow flag will be tested */
+	const int need_flags = out_sanitize_enabled(
+			octx, SAN_SIGNED_INTEGER_OVERFLOW | SAN_POINTER_OVERFLOW);
 
 	v_decay_flags_except(octx, decay_except); /* an op instruction may change cpu flags */
 
@@ -340,14 +343,16 @@ const out_val *out_op(
 	fill_if_type(rhs, &vconst, &vregp_or_lbl);
 
 	/* check for adding or subtracting to stack */
-	if(vconst && vregp_or_lbl){
+	if(vconst && vregp_or_lbl
+	&& (!need_flags || vregp_or_lbl->type != V_REG || v_is_const_reg(vregp_or_lbl)))
+	{
 		result = try_mem_offset(octx, binop, vconst, vregp_or_lbl, rhs);
 		if(result)
 			return result;
 	}
 
 	/* constant folding */
-	if(vconst && cc1_fopt.const_fold){
+	if(vconst && cc1_fopt.const_fold && !need_flags){
 		const out_val *oconst = (vconst == lhs ? rhs : lhs);
 
 		if(oconst->type == V_CONST_I){
@@ -376,7 +381,7 @@ const out_val *out_op(
 			break;
 		case op_multiply:
 		case op_divide:
-			if(vconst && !out_sanitize_enabled(octx, SAN_SIGNED_INTEGER_OVERFLOW | SAN_POINTER_OVERFLOW))
+			if(vconst && !need_flags)
 				try_shift_conv(octx, &binop, &lhs, &rhs);
 			break;
 		case op_modulus:
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index b019cff..f37cfb2 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -2752,6 +2752,12 @@ static const out_val *impl_test(out_ctx *octx, const out_val **eval, enum flag_c
 
 const out_val *impl_test_overflow(out_ctx *octx, const out_val **eval)
 {
+	const out_val *v = *eval;
+
+	/* an address that didn't need an instruction, so the flag isn't ours */
+	if(v->type == V_CONST_I || v->type == V_LBL || v_is_const_reg(v))
+		return out_new_l(octx, type_nav_btype(cc1_type_nav, type_int), 0);
+
 	return impl_test(octx, eval, flag_overflow);
 }
 
-- 
2.43.0


From 7889c35f3f211d73386d3904d11dccef8b143d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:31 +0000
Subject: [PATCH 45/57] fix: overflow builtins with mixed operand and result
 types

---
 src/cc1/ops/__builtin.c | 217 +++++++++++++++++++++++++++++++++-------
 src/cc1/out/op.c        |  20 ++++
 src/cc1/out/out.h       |   4 +
 3 files changed, 203 insertions(+), 38 deletions(-)

diff --git a/src/cc1/ops/__builtin.c b/src/cc1/ops/__builtin.c
index efd33b7..dad6ac3 100644
--- a/src/cc1/ops/__builtin.c
+++ b/src/cc1/ops/__builtin.c
@@ -1185,67 +1185,208 @@ static void fold_arith_overflow(expr *e, symtable *stab)
 	}
 }
 
-static type *arith_overflow_largest_type(const expr *e)
+#define VAL(v) out_val_retain(octx, v)
+#define CONST(ty, k) out_new_l(octx, ty, k)
+
+static const out_val *arith_overflow_or(out_ctx *octx, const out_val *a, const out_val *b)
 {
-	type *t = type_is_ptr(e->funcargs[2]->tree_type);
-	unsigned sz = type_size(t, NULL);
-	int i;
+	type *intty = type_nav_btype(cc1_type_nav, type_int);
 
-	for(i = 0; i < 2; i++){
-		type *t2 = e->funcargs[i]->tree_type;
-		unsigned sz2 = type_size(t2, NULL);
+	if(!a)
+		return b;
+	return out_op(octx, op_or, out_cast(octx, a, intty, 0), out_cast(octx, b, intty, 0));
+}
 
-		if(sz2 > sz){
-			t = t2;
-			sz = sz2;
-		}
+/* -1 if negative, otherwise zero. consumes v, which is 64-bit */
+static const out_val *arith_overflow_sign(
+		out_ctx *octx, const out_val *v, type *ty, type *s64)
+{
+	if(!type_is_signed(ty)){
+		out_val_consume(octx, v);
+		return CONST(s64, 0);
+	}
+
+	return out_op(octx, op_shiftr, out_change_type(octx, v, s64), CONST(s64, 63));
+}
+
+/* does v (64-bit) change when narrowed to ty? - NULL if not */
+static const out_val *arith_overflow_narrow(
+		out_ctx *octx, const out_val *v, type *ty, type *s64)
+{
+	const out_val *narrowed;
+
+	if(type_size(ty, NULL) == type_size(s64, NULL))
+		return NULL;
+
+	narrowed = out_cast(octx, VAL(v), ty, 0);
+	narrowed = out_cast(octx, narrowed, s64, 0);
+
+	return out_op(octx, op_ne, narrowed, out_change_type(octx, VAL(v), s64));
+}
+
+/* both operands fit in wide, as does the result (if *overflow isn't set) */
+static const out_val *arith_overflow_direct(
+		out_ctx *octx, enum op_type op,
+		const out_val *lhs, const out_val *rhs,
+		type *wide, type *s64, type *storety,
+		const out_val **const overflow)
+{
+	const out_val *result;
+
+	*overflow = NULL;
+	if(op == op_multiply && type_is_signed(wide))
+		result = out_op_overflow(octx, op, lhs, rhs, overflow);
+	else
+		result = out_op(octx, op, lhs, rhs);
+
+	if(type_is_signed(wide) != type_is_signed(storety)){
+		*overflow = arith_overflow_or(octx, *overflow,
+				out_op(octx, op_lt,
+					out_change_type(octx, VAL(result), s64),
+					CONST(s64, 0)));
+	}
+
+	return result;
+}
+
+/* 65-bit result, as a 64-bit half and its extension */
+static const out_val *arith_overflow_addsub(
+		out_ctx *octx, enum op_type op,
+		const out_val *lhs, type *tlhs,
+		const out_val *rhs, type *trhs,
+		type *u64, type *s64, type *storety,
+		const out_val **const overflow)
+{
+	const out_val *hi, *carry, *result;
+
+	hi = out_op(octx, op,
+			arith_overflow_sign(octx, VAL(lhs), tlhs, s64),
+			arith_overflow_sign(octx, VAL(rhs), trhs, s64));
+
+	if(op == op_plus){
+		result = out_op(octx, op, VAL(lhs), rhs);
+		carry = out_op(octx, op_lt, VAL(result), lhs);
+	}else{
+		carry = out_op(octx, op_lt, VAL(lhs), VAL(rhs));
+		carry = out_cast(octx, carry, s64, 0);
+		result = out_op(octx, op, lhs, rhs);
 	}
+	hi = out_op(octx, op, hi, out_cast(octx, carry, s64, 0));
+
+	*overflow = out_op(octx, op_ne, hi,
+			arith_overflow_sign(octx, VAL(result), storety, s64));
 
-	return t;
+	return out_change_type(octx, result, u64);
+}
+
+/* multiply magnitudes, then see if they fit */
+static const out_val *arith_overflow_mul(
+		out_ctx *octx,
+		const out_val *lhs, type *tlhs,
+		const out_val *rhs, type *trhs,
+		type *u64, type *s64, type *storety,
+		const out_val **const overflow)
+{
+	const unsigned bits = CHAR_BIT * type_size(storety, NULL) - type_is_signed(storety);
+	const out_val *lneg, *rneg, *neg, *mag, *limit, *result, *divisor;
+
+	lneg = out_change_type(octx, arith_overflow_sign(octx, VAL(lhs), tlhs, s64), u64);
+	rneg = out_change_type(octx, arith_overflow_sign(octx, VAL(rhs), trhs, s64), u64);
+	neg = out_op(octx, op_xor, VAL(lneg), VAL(rneg)); /* 0 or -1 */
+
+	lhs = out_op(octx, op_xor, lhs, VAL(lneg));
+	lhs = out_op(octx, op_minus, lhs, lneg);
+	rhs = out_op(octx, op_xor, rhs, VAL(rneg));
+	rhs = out_op(octx, op_minus, rhs, rneg);
+
+	mag = out_op(octx, op_multiply, VAL(lhs), VAL(rhs));
+
+	/* overflow if lhs && mag / lhs != rhs */
+	divisor = out_op(octx, op_eq, VAL(lhs), CONST(u64, 0));
+	divisor = out_op(octx, op_or, out_cast(octx, divisor, u64, 0), VAL(lhs));
+	*overflow = out_op(octx, op_ne, out_op(octx, op_divide, VAL(mag), divisor), rhs);
+	*overflow = out_op(octx, op_and,
+			out_cast(octx, *overflow, s64, 0),
+			out_cast(octx, out_op(octx, op_ne, lhs, CONST(u64, 0)), s64, 0));
+
+	/* 2^bits - 1, or for a negative result, either 2^bits or zero */
+	limit = CONST(u64, ~0ul >> (64 - bits));
+	if(type_is_signed(storety))
+		limit = out_op(octx, op_minus, limit, VAL(neg));
+	else
+		limit = out_op(octx, op_and, limit, out_op_unary(octx, op_bnot, VAL(neg)));
+
+	*overflow = arith_overflow_or(octx, *overflow, out_op(octx, op_gt, VAL(mag), limit));
+
+	result = out_op(octx, op_xor, mag, VAL(neg));
+	return out_op(octx, op_minus, result, neg);
 }
 
 static const out_val *gen_arith_overflow(const expr *e, out_ctx *octx)
 {
-	const out_val *lhs, *rhs, *result, *result_trunc;
-	const out_val *of;
-	const out_val *store;
-	type *largest = arith_overflow_largest_type(e);
+	enum op_type op = e->bits.op.op;
+	type *s64 = type_nav_btype(cc1_type_nav, type_llong);
+	type *u64 = type_nav_btype(cc1_type_nav, type_ullong);
+	type *tlhs = e->funcargs[0]->tree_type;
+	type *trhs = e->funcargs[1]->tree_type;
 	type *storety = type_is_ptr(e->funcargs[2]->tree_type);
-	int smaller_than_int = type_size(storety, NULL) < type_primitive_size(type_int);
+	const unsigned size64 = type_size(s64, NULL);
+	const int lhs64 = type_size(tlhs, NULL) == size64;
+	const int rhs64 = type_size(trhs, NULL) == size64;
+	const out_val *lhs, *rhs, *result, *overflow, *narrow, *store;
 
 	lhs = gen_expr(e->funcargs[0], octx);
 	rhs = gen_expr(e->funcargs[1], octx);
+	store = gen_expr(e->funcargs[2], octx);
 
-	lhs = out_cast(octx, lhs, largest, 0);
-	rhs = out_cast(octx, rhs, largest, 0);
+	lhs = out_cast(octx, lhs, type_is_signed(tlhs) ? s64 : u64, 0);
+	rhs = out_cast(octx, rhs, type_is_signed(trhs) ? s64 : u64, 0);
 
-	result = out_op(octx, e->bits.op.op, lhs, rhs);
+	if(!lhs64 && !rhs64){
+		type *wide = op == op_multiply && !type_is_signed(tlhs) && !type_is_signed(trhs)
+			? u64 : s64;
 
-	of = out_new_overflow(octx, &result);
+		result = arith_overflow_direct(octx, op,
+				out_change_type(octx, lhs, wide),
+				out_change_type(octx, rhs, wide),
+				wide, s64, storety, &overflow);
 
-	store = gen_expr(e->funcargs[2], octx);
-	if(smaller_than_int)
-		out_val_retain(octx, result);
+	}else if(op != op_multiply){
+		result = arith_overflow_addsub(octx, op,
+				out_change_type(octx, lhs, u64), tlhs,
+				out_change_type(octx, rhs, u64), trhs,
+				u64, s64, storety, &overflow);
 
-	result_trunc = out_cast(octx, result, storety, 0);
-	out_store(octx, store, result_trunc);
+	}else if((!lhs64 || type_is_signed(tlhs))
+	&& (!rhs64 || type_is_signed(trhs))
+	&& (type_is_signed(storety) || type_size(storety, NULL) < size64))
+	{
+		result = arith_overflow_direct(octx, op,
+				out_change_type(octx, lhs, s64),
+				out_change_type(octx, rhs, s64),
+				s64, s64, storety, &overflow);
+
+	}else{
+		result = arith_overflow_mul(octx,
+				out_change_type(octx, lhs, u64), tlhs,
+				out_change_type(octx, rhs, u64), trhs,
+				u64, s64, storety, &overflow);
+	}
 
-	if(smaller_than_int){
-		type *intty = type_nav_btype(cc1_type_nav, type_int);
-		const out_val *extended, *shortened;
-		const out_val *hasdiff;
+	narrow = arith_overflow_narrow(octx, result, storety, s64);
+	if(narrow)
+		overflow = arith_overflow_or(octx, overflow, narrow);
 
-		out_val_retain(octx, result);
-		extended = out_cast(octx, result, intty, 0);
-		shortened = out_cast(octx, extended, storety, 0);
-		hasdiff = out_op(octx, op_ne, shortened, result);
+	out_store(octx, store, out_cast(octx, result, storety, 0));
 
-		of = out_op(octx, op_or, of, hasdiff);
-	}
-
-	return of;
+	if(!overflow)
+		return CONST(e->tree_type, 0);
+	return out_cast(octx, overflow, e->tree_type, 0);
 }
 
+#undef VAL
+#undef CONST
+
 static expr *parse_arith_overflow(const char *ident, symtable *scope, enum op_type op)
 {
 	expr *fcall = parse_any_args(scope);
diff --git a/src/cc1/out/op.c b/src/cc1/out/op.c
index 95a17a2..9dd1183 100644
--- a/src/cc1/out/op.c
+++ b/src/cc1/out/op.c
@@ -400,6 +400,26 @@ const out_val *out_op(
 	return result;
 }
 
+const out_val *out_op_overflow(
+		out_ctx *octx, enum op_type binop,
+		const out_val *lhs, const out_val *rhs,
+		const out_val **const overflow)
+{
+	const out_val *decay_except[] = { lhs, rhs, NULL };
+	const out_val *result;
+
+	v_decay_flags_except(octx, decay_except);
+
+	/* no folding or strength reduction - the overflow flag is needed */
+	lhs = v_reg_apply_offset(octx, v_to_reg(octx, lhs));
+	rhs = v_reg_apply_offset(octx, v_to_reg(octx, rhs));
+
+	result = impl_op(octx, binop, lhs, rhs);
+	*overflow = out_new_overflow(octx, &result);
+
+	return result;
+}
+
 static int v_can_not_cmp(const out_val *flag)
 {
 	/* an ordered floating comparison and its opposite are both
diff --git a/src/cc1/out/out.h b/src/cc1/out/out.h
index e547aec..378c4aa 100644
--- a/src/cc1/out/out.h
+++ b/src/cc1/out/out.h
@@ -78,6 +78,10 @@ ucc_wur const out_val *out_annotate_likely(
 
 /* operators/comparisons */
 ucc_wur const out_val *out_op(out_ctx *, enum op_type, const out_val *lhs, const out_val *rhs);
+/* like out_op(), also giving whether the (signed) operation overflowed */
+ucc_wur const out_val *out_op_overflow(
+		out_ctx *, enum op_type, const out_val *lhs, const out_val *rhs,
+		const out_val **overflow);
 ucc_wur const out_val *out_op_unary(out_ctx *, enum op_type, const out_val *);
 
 ucc_wur const out_val *out_memcpy(
-- 
2.43.0


From ceac308a67af29c802f2434ab0e8027368cbdfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:04 +0000
Subject: [PATCH 46/57] fix: va_start/va_arg register save area limits, named
 stack arguments and struct returns; stack arguments exhausting registers

---
 src/cc1/ops/__builtin_va.c | 26 +++++++++++++++++++-------
 src/cc1/out/func.c         |  5 +++++
 src/cc1/out/impl.h         |  2 ++
 src/cc1/out/out.h          |  3 +++
 src/cc1/out/x86_64.c       | 36 ++++++++++++++++++------------------
 5 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/cc1/ops/__builtin_va.c b/src/cc1/ops/__builtin_va.c
index a2d197a..8d8c6a6 100644
--- a/src/cc1/ops/__builtin_va.c
+++ b/src/cc1/ops/__builtin_va.c
@@ -143,16 +143,27 @@ static void fold_va_start(expr *e, symtable *stab)
 		{
 			unsigned gp, fp;
 		} nargs = { 0, 0 };
-		funcargs *const fa = type_funcargs(symtab_func(stab)->ref);
+		/* FIXME: x86_64::N_CALL_REGS_{I,F} references below */
+		const unsigned n_gp_regs = 6, n_fp_regs = 8;
+		unsigned nstack = 0;
 
-		funcargs_ty_calc(fa, &nargs.gp, &nargs.fp);
+		out_func_arg_counts(symtab_func(stab)->ref, &nargs.gp, &nargs.fp);
+
+		/* named arguments passed on the stack */
+		if(nargs.gp > n_gp_regs){
+			nstack += nargs.gp - n_gp_regs;
+			nargs.gp = n_gp_regs;
+		}
+		if(nargs.fp > n_fp_regs){
+			nstack += nargs.fp - n_fp_regs;
+			nargs.fp = n_fp_regs;
+		}
 
 		/* need to set the offsets to act as if we've skipped over
 		 * n call regs, since we may already have some arguments used
 		 */
 		ADD_ASSIGN_VAL("gp_offset", nargs.gp * ws);
-		ADD_ASSIGN_VAL("fp_offset", (6 + nargs.fp) * ws);
-		/* FIXME: x86_64::N_CALL_REGS_I reference above */
+		ADD_ASSIGN_VAL("fp_offset", (n_gp_regs + 2 * nargs.fp) * ws);
 
 		ADD_ASSIGN("reg_save_area", W(builtin_new_reg_save_area()));
 
@@ -162,8 +173,9 @@ static void fold_va_start(expr *e, symtable *stab)
 						W(builtin_new_frame_address(0)),
 						type_ptr_to(type_nav_btype(cc1_type_nav, type_nchar)),
 						1)),
-					/* *2 to step over saved-rbp and saved-ret */
-					W(expr_new_val(ws * 2)))));
+					/* 2 to step over saved-rbp and saved-ret,
+					 * then any named arguments on the stack */
+					W(expr_new_val(ws * (2 + nstack))))));
 
 
 		fold_stmt(assigns);
@@ -225,7 +237,7 @@ static const out_val *va_arg_gen_read(
 
 	/* FIXME: this needs to reference x86_64::N_CALL_REGS_{I,F} */
 	const int fp = type_is_floating(ty);
-	const unsigned max_reg_args_sz = 6 * 8 + (fp ? 16 * 16 : 0);
+	const unsigned max_reg_args_sz = 6 * 8 + (fp ? 8 * 16 : 0);
 	const unsigned ws = platform_word_size();
 	const out_val *valist, *gpoff_addr, *gpoff_val;
 	const int VALIST_OFFSET_TYPE = type_uint;
diff --git a/src/cc1/out/func.c b/src/cc1/out/func.c
index 7d1c603..3774396 100644
--- a/src/cc1/out/func.c
+++ b/src/cc1/out/func.c
@@ -25,6 +25,11 @@
 #include "../../util/platform.h"
 #include "../../util/dynarray.h"
 
+void out_func_arg_counts(type *fnty, unsigned *n_int, unsigned *n_fp)
+{
+	impl_func_arg_counts(fnty, n_int, n_fp);
+}
+
 const out_val *out_call(out_ctx *octx,
 		const out_val *fn, const out_val **args,
 		type *fnty)
diff --git a/src/cc1/out/impl.h b/src/cc1/out/impl.h
index fb7264a..3364c40 100644
--- a/src/cc1/out/impl.h
+++ b/src/cc1/out/impl.h
@@ -45,6 +45,8 @@ ucc_wur const out_val *impl_call(
 
 void impl_to_retreg(out_ctx *, const out_val *, type *retty);
 
+void impl_func_arg_counts(type *fnty, unsigned *n_int, unsigned *n_fp);
+
 void impl_func_prologue_save_fp(out_ctx *octx);
 void impl_func_prologue_save_call_regs(
 		out_ctx *,
diff --git a/src/cc1/out/out.h b/src/cc1/out/out.h
index 378c4aa..f1d333c 100644
--- a/src/cc1/out/out.h
+++ b/src/cc1/out/out.h
@@ -154,6 +154,9 @@ ucc_wur const out_val *out_ctrl_merge(out_ctx *, out_blk *, out_blk *);
 ucc_wur const out_val *out_ctrl_merge_n(out_ctx *, out_blk **rets);
 
 /* function setup */
+/* named arguments to a function, including any hidden ones */
+void out_func_arg_counts(type *fnty, unsigned *n_int, unsigned *n_fp);
+
 void out_func_prologue(
 		out_ctx *,
 		int nargs, int variadic, int stack_protector,
diff --git a/src/cc1/out/x86_64.c b/src/cc1/out/x86_64.c
index f37cfb2..ebe1608 100644
--- a/src/cc1/out/x86_64.c
+++ b/src/cc1/out/x86_64.c
@@ -632,6 +632,15 @@ void impl_func_prologue_save_fp(out_ctx *octx)
 	 * but not interfere with argument locations */
 }
 
+void impl_func_arg_counts(type *fnty, unsigned *n_int, unsigned *n_fp)
+{
+	funcargs_ty_calc(type_funcargs(fnty), n_int, n_fp);
+
+	/* hidden stret argument */
+	if(x86_stret(type_func_call(fnty, NULL), NULL) == stret_memcpy)
+		++*n_int;
+}
+
 void impl_func_prologue_save_call_regs(
 		out_ctx *octx,
 		type *rf, unsigned nargs,
@@ -667,9 +676,7 @@ void impl_func_prologue_save_call_regs(
 			/* trim by the number of args */
 			unsigned fp_cnt, int_cnt;
 
-			funcargs_ty_calc(fa, &int_cnt, &fp_cnt);
-
-			int_cnt += is_stret;
+			impl_func_arg_counts(rf, &int_cnt, &fp_cnt);
 
 			n_call_i = MIN(n_call_i, int_cnt);
 			n_call_f = MIN(n_call_f, fp_cnt);
@@ -774,7 +781,7 @@ void impl_func_prologue_save_variadic(out_ctx *octx, type *rf)
 
 	x86_call_regs(rf, &n_call_regs, &call_regs);
 
-	funcargs_ty_calc(type_funcargs(rf), &n_int_args, &n_fp_args);
+	impl_func_arg_counts(rf, &n_int_args, &n_fp_args);
 
 	/* space for all call regs */
 	stk_spill = out_aalloc(octx,
@@ -2476,7 +2483,7 @@ const out_val *impl_call(
 		else
 			arg_stack.need_cleanup |= CLEANUP_RESTORE_PUSHBACK;
 
-		/* see comment about stack_iter below */
+		/* see comment about stack_off below */
 		if(octx->alloca_count){
 			arg_stack.bytesz = pack_to_align(arg_stack.bytesz, octx->max_align);
 
@@ -2500,7 +2507,7 @@ const out_val *impl_call(
 	}
 
 	if(arg_stack.bytesz > 0){
-		const out_val *stack_iter;
+		long stack_off = 0;
 
 		/* a hidden stret pointer takes the first integer register */
 		nints = stret_kind == stret_memcpy;
@@ -2516,8 +2523,6 @@ const out_val *impl_call(
 		 * Instead, we allocate stack explicitly, use it for the call,
 		 * then free it (done above).
 		 */
-		stack_iter = v_new_sp(octx, NULL);
-
 		/* save in order */
 		for(i = 0; i < nargs; i++){
 			const int stack_this = float_arg[i]
@@ -2527,21 +2532,16 @@ const out_val *impl_call(
 			if(stack_this){
 				type *storety = type_ptr_to(local_args[i]->t);
 
-				assert(stack_iter->retains > 0);
-
-				stack_iter = out_change_type(octx, stack_iter, storety);
-				out_val_retain(octx, stack_iter);
-				local_args[i] = v_to_stack_mem(octx, local_args[i], stack_iter, V_REGOFF);
+				/* a new reference to the stack pointer each time - copying
+				 * one would need a register for each stack argument */
+				local_args[i] = v_to_stack_mem(octx, local_args[i],
+						v_new_sp3(octx, NULL, storety, stack_off), V_REGOFF);
 
 				assert(local_args[i]->retains > 0);
 
-				stack_iter = out_op(octx, op_plus,
-						out_change_type(octx, stack_iter, arithty),
-						out_new_l(octx, arithty, pws));
+				stack_off += pws;
 			}
 		}
-
-		out_val_release(octx, stack_iter);
 	}
 
 	/* must be set before stret pointer argument */
-- 
2.43.0


From 5e0e251d7300e81696859cc04ef8373fc4f7cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 47/57] fix: cpp: character constants and lone quotes in
 directives and macro bodies

---
 src/cpp2/tokenise.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cpp2/tokenise.c b/src/cpp2/tokenise.c
index cfab0d8..6bedf55 100644
--- a/src/cpp2/tokenise.c
+++ b/src/cpp2/tokenise.c
@@ -57,11 +57,16 @@ token **tokenise(char *line)
 				t->tok = TOKEN_CLOSE_PAREN;
 				break;
 			case '"':
+			case '\'':
 			{
-				char *end = str_quotefin(p + 1);
+				char *end = str_quotefin2(p + 1, c);
 
-				/* guaranteed, since strip_comment() checks */
-				UCC_ASSERT(end, "strip_comment() broken for >>>%s<<<", p);
+				if(!end){
+					/* lone quote, warned about in strip_comment() */
+					t->tok = TOKEN_OTHER;
+					t->w = ustrdup2(p, p + 1);
+					break;
+				}
 
 				t->w = ustrdup2(p, end + 1);
 				p = end;
-- 
2.43.0


From e04729aac931339f665b01bcb1b278cdb7ba196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 48/57] fix: reading past the end of a line ending in a
 backslash inside a quote

---
 src/util/str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/str.c b/src/util/str.c
index 5ac02a3..4234b77 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -9,7 +9,7 @@
 char *str_quotefin2(char *s, char q)
 {
 	for(; *s; s++)
-		if(*s == '\\')
+		if(*s == '\\' && s[1])
 			s++;
 		else if(*s == q)
 			return s;
-- 
2.43.0


From b88025c8782e0c99f394466545eda59e5f311281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 49/57] fix: undetected overflow of integer constants

---
 src/util/escape.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/util/escape.c b/src/util/escape.c
index a66e776..d8ac965 100644
--- a/src/util/escape.c
+++ b/src/util/escape.c
@@ -49,12 +49,8 @@ static int inc_and_chk(unsigned long long *const val, unsigned base, unsigned in
 	const unsigned long long new = *val * base + inc;
 
 	/* can't just check: new < *val
-	 * since if base=16, inc=15 (0xff),
-	 * then: 0xffff..ff * 16 = 0xffff..00
-	 *  and: + 0xff = 0xffff..ff
-	 * and we start again.
-	 */
-	int of = new < *val || *val * base < *val;
+	 * since the multiplication may wrap and still give a larger value */
+	int of = *val > (ULLONG_MAX - inc) / base;
 
 	*val = new;
 
-- 
2.43.0


From 3f4275e3335c70fc6c328d3c0c5066723cb4fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:12 +0000
Subject: [PATCH 50/57] fix: #if expressions: associativity, intmax_t/uintmax_t
 arithmetic, unevaluated operands, constants

---
 src/cpp2/directive.c |   6 +-
 src/cpp2/expr.c      | 159 ++++++++++++++++++++++++++++---------------
 src/cpp2/expr.h      |   9 ++-
 src/cpp2/expr_tok.c  |  50 ++++++++++----
 4 files changed, 153 insertions(+), 71 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index b58fb51..55b8140 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -393,7 +393,11 @@ static int /*bool*/ if_eval(token **tokens, const char *type)
 	/* and eval (this also frees e) */
 	{
 		int had_ident = 0;
-		const int r = !!expr_eval(e, &had_ident, 0);
+		int r;
+		expr_n num;
+
+		expr_eval(e, &num, &had_ident, 0);
+		r = !!num.val;
 
 		if(had_ident)
 			CPP_WARN(WUNDEF_IN_IF,
diff --git a/src/cpp2/expr.c b/src/cpp2/expr.c
index 9db56a6..81f7879 100644
--- a/src/cpp2/expr.c
+++ b/src/cpp2/expr.c
@@ -70,10 +70,10 @@ static expr *expr_ident(void)
 	return e;
 }
 
-static expr *expr_num(expr_n num)
+static expr *expr_num(const expr_n *num)
 {
 	expr *e = expr_new(E_NUM);
-	e->bits.num = num;
+	e->bits.num = *num;
 	return e;
 }
 
@@ -107,7 +107,7 @@ static expr *parse_primary(void)
 {
 	switch(tok_cur){
 		case tok_ident: tok_next(); return expr_ident();
-		case tok_num:   tok_next(); return expr_num(tok_cur_num);
+		case tok_num:   tok_next(); return expr_num(&tok_cur_num);
 		case tok_lparen:
 		{
 			expr *e;
@@ -121,6 +121,7 @@ static expr *parse_primary(void)
 
 		case tok_not:
 		case tok_bnot:
+		case tok_plus:
 		case tok_minus:
 		{
 			const e_op op = tok_cur;
@@ -219,8 +220,7 @@ static expr *parse_rhs(expr *lhs, int priority)
 			rhs = parse_primary();
 
 			/* now on the next op, or eof (in which case, precedence returns -1 */
-			next_pri = PRECEDENCE(tok_cur);
-			if(next_pri < this_pri) {
+			while(is_op(tok_cur) && (next_pri = PRECEDENCE(tok_cur)) < this_pri){
 				/* next is tighter, give it our rhs as its lhs */
 				rhs = parse_rhs(rhs, next_pri);
 			}
@@ -257,7 +257,54 @@ expr *expr_parse(char *str)
 }
 
 /* eval */
-expr_n expr_eval(expr *e_, int *had_ident, int noop)
+static void num_set(expr_n *n, unsigned long long val, int is_unsigned)
+{
+	n->val = val;
+	n->is_unsigned = is_unsigned;
+}
+
+static int num_neg(const expr_n *n)
+{
+	return !n->is_unsigned && (long long)n->val < 0;
+}
+
+/* n / d or n % d, without overflowing for INTMAX_MIN / -1 */
+static unsigned long long num_div(
+		const expr_n *n, const expr_n *d,
+		int is_unsigned, int want_mod)
+{
+	const int neg_n = !is_unsigned && num_neg(n);
+	const int neg_d = !is_unsigned && num_neg(d);
+	const unsigned long long un = neg_n ? 0 - n->val : n->val;
+	const unsigned long long ud = neg_d ? 0 - d->val : d->val;
+
+	if(want_mod)
+		return neg_n ? 0 - un % ud : un % ud;
+	return neg_n ^ neg_d ? 0 - un / ud : un / ud;
+}
+
+static unsigned long long num_shift(const expr_n *n, const expr_n *by, int right)
+{
+	const unsigned long long fill = right && num_neg(n) ? ~0ULL : 0;
+	const unsigned amount = by->val;
+
+	if(num_neg(by) || by->val >= 64)
+		return fill;
+	if(!right)
+		return n->val << amount;
+	if(amount == 0)
+		return n->val;
+	return n->val >> amount | fill << (64 - amount);
+}
+
+static int num_lt(const expr_n *l, const expr_n *r)
+{
+	if(l->is_unsigned || r->is_unsigned || num_neg(l) == num_neg(r))
+		return l->val < r->val;
+	return num_neg(l);
+}
+
+void expr_eval(expr *e_, expr_n *out, int *had_ident, int noop)
 {
 	const expr ke = *e_;
 	free(e_);
@@ -265,80 +312,82 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 	switch(ke.type){
 		case E_IDENT:
 			*had_ident = 1;
-			return 0; /* identifiers are zero */
+			num_set(out, 0, 0); /* identifiers are zero */
+			return;
 		case E_NUM:
-			return ke.bits.num;
+			*out = ke.bits.num;
+			return;
 		case E_UOP:
-		{
-			expr_n n = expr_eval(ke.bits.uop.e, had_ident, noop);
-			if(noop)
-				return 0;
-			switch(ke.bits.op.op){
-#define UNARY(ch, o) case ch: return o n
-				UNARY('-', -);
-				UNARY('!', !);
-				UNARY('~', ~);
+			expr_eval(ke.bits.uop.e, out, had_ident, noop);
+
+			switch(ke.bits.uop.op){
+				case '+': return;
+				case '-': out->val = 0 - out->val; return;
+				case '~': out->val = ~out->val; return;
+				case '!': num_set(out, !out->val, 0); return;
 				default:
-				break;
+					break;
 			}
 			ICE("bad op");
-		}
 		case E_OP:
 		{
-			expr_n nums[2];
-			int skip_rhs = 0;
+			expr_n l, r;
+			int skip_rhs = noop;
+			int is_unsigned;
 
-			nums[0] = expr_eval(ke.bits.op.lhs, had_ident, noop);
+			expr_eval(ke.bits.op.lhs, &l, had_ident, noop);
 
 			switch(ke.bits.op.op){
 				case tok_andsc:
-					if(!nums[0]){
+					if(!l.val)
 						skip_rhs = 1;
-					}
 					break;
 				case tok_orsc:
-					if(nums[0]){
+					if(l.val)
 						skip_rhs = 1;
-					}
 					break;
 			}
 
-			nums[1] = expr_eval(ke.bits.op.rhs, had_ident, skip_rhs);
+			expr_eval(ke.bits.op.rhs, &r, had_ident, skip_rhs);
 
-			if(noop)
-				return 0;
+			is_unsigned = l.is_unsigned || r.is_unsigned;
 
 			switch(ke.bits.op.op){
-				case '%':
-				case '/':
-					if(nums[1] == 0)
+				case tok_modulus:
+				case tok_divide:
+					if(r.val){
+						num_set(out,
+								num_div(&l, &r, is_unsigned, ke.bits.op.op == tok_modulus),
+								is_unsigned);
+						return;
+					}
+					if(!noop){
 						CPP_DIE("%s by zero",
-								ke.bits.op.op == '/' ? "division" : "modulo");
-				default:
-					break;
-			}
+								ke.bits.op.op == tok_divide ? "division" : "modulo");
+					}
+					num_set(out, 0, is_unsigned);
+					return;
 
-			switch(ke.bits.op.op){
-#define OP(ty, op) case tok_ ## ty: return nums[0] op nums[1]
-				OP(divide, /);
-				OP(modulus, %);
+#define OP(ty, op) case tok_ ## ty: num_set(out, l.val op r.val, is_unsigned); return
 				OP(multiply, *);
 				OP(plus, +);
 				OP(minus, -);
 				OP(xor, ^);
 				OP(or, |);
 				OP(and, &);
-				OP(orsc, ||);
-				OP(andsc, &&);
-				OP(shiftl, <<);
-				OP(shiftr, >>);
-				OP(eq, ==);
-				OP(ne, !=);
-				OP(le, <=);
-				OP(lt, <);
-				OP(ge, >=);
-				OP(gt, >);
 #undef OP
+#define OP(ty, exp) case tok_ ## ty: num_set(out, exp, 0); return
+				OP(orsc, l.val || r.val);
+				OP(andsc, l.val && r.val);
+				OP(eq, l.val == r.val);
+				OP(ne, l.val != r.val);
+				OP(lt, num_lt(&l, &r));
+				OP(gt, num_lt(&r, &l));
+				OP(le, !num_lt(&r, &l));
+				OP(ge, !num_lt(&l, &r));
+#undef OP
+				case tok_shiftl: num_set(out, num_shift(&l, &r, 0), l.is_unsigned); return;
+				case tok_shiftr: num_set(out, num_shift(&l, &r, 1), l.is_unsigned); return;
 
 				default:
 					break;
@@ -349,10 +398,12 @@ expr_n expr_eval(expr *e_, int *had_ident, int noop)
 		{
 			expr_n a, b, c;
 			/* must evaluate all - free the expressions */
-			a = expr_eval(ke.bits.top.e, had_ident, noop);
-			b = expr_eval(ke.bits.top.if_true, had_ident, !a);
-			c = expr_eval(ke.bits.top.if_false, had_ident, !!a);
-			return a ? b : c;
+			expr_eval(ke.bits.top.e, &a, had_ident, noop);
+			expr_eval(ke.bits.top.if_true, &b, had_ident, noop || !a.val);
+			expr_eval(ke.bits.top.if_false, &c, had_ident, noop || a.val);
+
+			num_set(out, a.val ? b.val : c.val, b.is_unsigned || c.is_unsigned);
+			return;
 		}
 	}
 
diff --git a/src/cpp2/expr.h b/src/cpp2/expr.h
index 761f844..7900a75 100644
--- a/src/cpp2/expr.h
+++ b/src/cpp2/expr.h
@@ -2,9 +2,14 @@
 #define EXPR_H
 
 typedef struct expr expr;
-typedef long expr_n;
+/* intmax_t or uintmax_t */
+typedef struct expr_n
+{
+	unsigned long long val;
+	int is_unsigned;
+} expr_n;
 
 expr *expr_parse(char *);
-expr_n expr_eval(expr *, int *had_ident, int noop);
+void expr_eval(expr *, expr_n *, int *had_ident, int noop);
 
 #endif
diff --git a/src/cpp2/expr_tok.c b/src/cpp2/expr_tok.c
index 0e217c8..4c2ccba 100644
--- a/src/cpp2/expr_tok.c
+++ b/src/cpp2/expr_tok.c
@@ -42,17 +42,38 @@ void tok_next(void)
 	tok_pos = str_spc_skip(tok_pos);
 
 	if(isdigit(*tok_pos)){
-		char *ep;
-		tok_cur_num = strtol(tok_pos, &ep, 0);
-		do switch(*ep){
-			case 'L':
-			case 'U':
-				ep++;
+		enum base base = DEC;
+		int overflow;
+		char *ep = tok_pos;
+
+		tok_cur_num.is_unsigned = 0;
+
+		if(*ep == '0'){
+			base = OCT;
+			if((ep[1] == 'x' || ep[1] == 'X') && isxdigit((unsigned char)ep[2])){
+				base = HEX;
+				ep += 2;
+			}else if((ep[1] == 'b' || ep[1] == 'B') && (ep[2] == '0' || ep[2] == '1')){
+				base = BIN;
+				ep += 2;
+			}
+		}
+
+		tok_cur_num.val = char_seq_to_ullong(ep, &ep, 0, base, &overflow);
+		if(overflow)
+			CPP_DIE("integer constant is too large");
+		if((long long)tok_cur_num.val < 0)
+			tok_cur_num.is_unsigned = 1;
+
+		for(;; ep++){
+			if(*ep == 'u' || *ep == 'U')
+				tok_cur_num.is_unsigned = 1;
+			else if(*ep != 'l' && *ep != 'L')
 				break;
-			default:
-				goto end_ty;
-		}while(1);
-end_ty:
+		}
+		if(iswordpart(*ep) || *ep == '.')
+			CPP_DIE("invalid integer constant \"%s\"", tok_pos);
+
 		tok_pos = ep;
 		tok_cur = tok_num;
 		return;
@@ -73,9 +94,12 @@ end_ty:
 
 		tok_pos++;
 		limit = char_quotefin(tok_pos);
+		if(!limit)
+			CPP_DIE("missing terminating single quote (\"%s\")", tok_pos);
 
 		warn = err = 0;
-		tok_cur_num = escape_char(
+		tok_cur_num.is_unsigned = 0;
+		tok_cur_num.val = (long long)escape_char(
 				tok_pos, limit, &tok_pos, wide,
 				&mchar, &warn, &err);
 
@@ -88,9 +112,7 @@ end_ty:
 				break;
 		}
 
-		if(!tok_pos)
-			CPP_DIE("missing terminating single quote (\"%s\")", tok_pos);
-		tok_pos++;
+		tok_pos = limit + 1;
 
 		if(mchar)
 			CPP_WARN(WMULTICHAR, "multi-char constant");
-- 
2.43.0


From ebdddd24ce154b7f8e5de28d975749b9291931f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:58 +0000
Subject: [PATCH 51/57] fix: conversions of constants to unsigned types,
 overflowing constant division

---
 src/cc1/const.c         |  5 ++++-
 src/cc1/ops/expr_cast.c | 44 +++++++++++------------------------------
 2 files changed, 16 insertions(+), 33 deletions(-)

diff --git a/src/cc1/const.c b/src/cc1/const.c
index d6291c9..0519c24 100644
--- a/src/cc1/const.c
+++ b/src/cc1/const.c
@@ -212,7 +212,10 @@ integral_t const_op_exec(
 
 		case op_modulus:
 		case op_divide:
-			if(*rval){
+			if(is_signed && (S)*rval == -1 && (S)lval < 0 && lval == -lval){
+				*error = "overflow in division";
+				result = 0;
+			}else if(*rval){
 				if(is_signed){
 					/* need sign-extended division */
 					result = (op == op_divide
diff --git a/src/cc1/ops/expr_cast.c b/src/cc1/ops/expr_cast.c
index ecb6b52..496db7a 100644
--- a/src/cc1/ops/expr_cast.c
+++ b/src/cc1/ops/expr_cast.c
@@ -168,37 +168,15 @@ static integral_t convert_integral_to_integral_warn(
 	integral_t to_iv = integral_truncate(in, sz_out, &to_iv_sign_ext);
 	integral_t ret;
 
-	if(!signed_out && signed_in){
-		const unsigned sz_in_bits = CHAR_BIT * sz_in;
-		const unsigned sz_out_bits = CHAR_BIT * sz_out;
-
-		/* e.g. "(unsigned)-1". Pick to_iv, i.e. the unsigned truncated repr
-		 * this assumes that signed ints on the host machine we're run on
-		 * are 2's complement, i.e. truncated a negative gives us all 1s,
-		 * which we truncate */
-		ret = to_iv;
-
-		/* need to ensure sign extension */
-		if(ret & (1ULL << (sz_in_bits - 1))
-		&& sz_in_bits != sz_out_bits)
-		{
-			ret |= -1ULL << sz_in_bits;
-
-			/* need to unmask any top bits, e.g. int instead of long long */
-			if(sz_out_bits >= CHAR_BIT * sizeof(ret)){
-				/* shift would be a no-op (technically UB) */
-			}else{
-				ret &= -1ULL >> sz_out_bits;
-			}
-		}
-
-	}else if(signed_in){
-		/* signed to signed */
-		ret = (integral_t)to_iv_sign_ext;
-	}else{
-		/* unsigned to unsigned */
-		ret = to_iv_sign_ext;
+	/* constants are kept sign extended if their type is signed, zero extended
+	 * otherwise, so that the next conversion sees the value.
+	 * (assumes two's complement) */
+	if(signed_in && sz_in < sz_out){
+		/* the result of e.g. 1 << 31 isn't truncated, for warnings' sake */
+		integral_truncate(in, sz_in, &to_iv_sign_ext);
+		to_iv = integral_truncate(to_iv_sign_ext, sz_out, NULL);
 	}
+	ret = signed_out ? (integral_t)to_iv_sign_ext : to_iv;
 
 	if(sz_in == sz_out){
 		/* representable, don't warn */
@@ -206,11 +184,13 @@ static integral_t convert_integral_to_integral_warn(
 	}
 
 	if(do_warn){
-		if(ret != in){
+		const integral_t warn_iv = signed_in || signed_out ? ret : (integral_t)to_iv_sign_ext;
+
+		if(warn_iv != in){
 			warn_value_changed_at(w,
 					"implicit cast changes value from %llA to %llB",
 					signed_in, signed_out,
-					in, signed_out ? (integral_t)to_iv_sign_ext : ret);
+					in, warn_iv);
 
 		}else if(signed_out && !signed_in && (sintegral_t)ret < 0){
 			warn_value_changed_at(w,
-- 
2.43.0


From 6a1bf90861fd58641bbb0bd17f9814f9e828c29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:53 +0000
Subject: [PATCH 52/57] fix: debug info: lengths of escaped strings, array
 bounds above 32 bits

---
 src/cc1/out/dbg.c | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/cc1/out/dbg.c b/src/cc1/out/dbg.c
index 68a86f3..7e8f355 100644
--- a/src/cc1/out/dbg.c
+++ b/src/cc1/out/dbg.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdarg.h>
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
@@ -400,6 +401,24 @@ static void dwarf_die_free_r(struct DIE *die)
 	dwarf_die_free_1(die);
 }
 
+/* the smallest form, from four bytes, that holds sz */
+static enum dwarf_attr_encoding dwarf_size_form(form_data_t sz)
+{
+	return sz > 0xffffffffu ? DW_FORM_data8 : DW_FORM_data4;
+}
+
+/* the number of bytes a string from str_add_escape() assembles to */
+static unsigned long dwarf_escaped_len(const char *s)
+{
+	unsigned long len = 0;
+
+	for(; *s; s++, len++)
+		if(*s == '\\')
+			s += isdigit((unsigned char)s[1]) ? 3 : 1;
+
+	return len;
+}
+
 static struct DIE_attr *dwarf_attr_lookup(
 		struct DIE *die, enum dwarf_attribute attr)
 {
@@ -761,9 +780,9 @@ static struct DIE *dwarf_type_die(
 				/*dwarf_attr(szdie, DW_AT_lower_bound, DW_FORM_data4, 0);*/
 
 				if(sz > 0){
+					--sz;
 					dwarf_attr(szdie, DW_AT_upper_bound,
-							DW_FORM_data4,
-							(--sz, &sz));
+							dwarf_size_form(sz), &sz);
 				}
 			}
 
@@ -818,7 +837,7 @@ static struct DIE *dwarf_sue_header(
 		form_data_t sz = sue_size(sue, NULL);
 
 		dwarf_attr(suedie, DW_AT_byte_size,
-				DW_FORM_data4, &sz);
+				dwarf_size_form(sz), &sz);
 	}
 
 	return suedie;
@@ -1521,7 +1540,7 @@ addr:
 
 			case DW_FORM_string:
 				asm_out_section(state->info.sec, "\t.ascii \"%s\"\n", a->bits.str);
-				state->info.byte_cnt += strlen(a->bits.str);
+				state->info.byte_cnt += dwarf_escaped_len(a->bits.str);
 
 				dwarf_printf(&state->info, BYTE, "0");
 				break;
@@ -1640,7 +1659,7 @@ static unsigned long dwarf_offset_die(
 				break;
 
 			case DW_FORM_string:
-				off += strlen(a->bits.str) + 1;
+				off += dwarf_escaped_len(a->bits.str) + 1;
 				break;
 
 			case DW_FORM_ref4:
-- 
2.43.0


From 170fb1b36317d0bdec8f4ea2bc97c51e760d748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:53 +0000
Subject: [PATCH 53/57] fix: objects larger than the size type were silently
 truncated

---
 src/cc1/fold_sue.c | 11 ++++++++---
 src/cc1/pack.c     |  2 +-
 src/cc1/type.c     |  8 +++++++-
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/cc1/fold_sue.c b/src/cc1/fold_sue.c
index c958888..39d224c 100644
--- a/src/cc1/fold_sue.c
+++ b/src/cc1/fold_sue.c
@@ -3,6 +3,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <assert.h>
+#include <limits.h>
 
 #include "../util/util.h"
 #include "../util/where.h"
@@ -432,7 +433,7 @@ void fold_sue(struct_union_enum_st *const sue, symtable *stab)
 	}else{
 		unsigned align_max = 1;
 		unsigned sz_max = 0;
-		unsigned long bit_offset = 0;
+		unsigned long bit_offset = 0, total_sz;
 		int submemb_const = 0;
 		sue_member **i;
 		const int packed = !!attr_present(sue->attr, attr_packed);
@@ -533,10 +534,14 @@ warn:
 				cc1_warn_at(NULL, empty_struct, "%s %s", sue_str_type(sue->primitive), warn);
 		}
 
-		sue->align = align_max;
-		sue->size = pack_to_align(
+		total_sz = pack_to_align(
 				sue->primitive == type_struct ? bits_to_bytes(bit_offset) : sz_max,
 				align_max);
+		if(total_sz > UINT_MAX)
+			die_at(&sue->where, "%s is too large", sue_str_type(sue->primitive));
+
+		sue->align = align_max;
+		sue->size = total_sz;
 		round_size_to_align(&sue->size, sue->align);
 
 		check_sue_align_attr(sue, stab);
diff --git a/src/cc1/pack.c b/src/cc1/pack.c
index 65956fb..b3b2bb7 100644
--- a/src/cc1/pack.c
+++ b/src/cc1/pack.c
@@ -15,7 +15,7 @@ pack_t pack_to_align(pack_t sz, unsigned align)
 
 	return sz;
 #else
-	return (sz + align - 1) & -align;
+	return (sz + align - 1) & -(pack_t)align;
 #endif
 }
 
diff --git a/src/cc1/type.c b/src/cc1/type.c
index 262c20a..4031d6e 100644
--- a/src/cc1/type.c
+++ b/src/cc1/type.c
@@ -2,6 +2,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <assert.h>
+#include <limits.h>
 
 #include "../util/where.h"
 #include "../util/util.h"
@@ -360,6 +361,7 @@ unsigned type_size(type *r, const where *from)
 		case type_array:
 		{
 			integral_t sz;
+			unsigned elem_sz;
 
 			if(type_is_void(r->ref))
 				die_at(from, "array of void");
@@ -369,7 +371,11 @@ unsigned type_size(type *r, const where *from)
 
 			sz = const_fold_val_i(r->bits.array.size);
 
-			return sz * type_size(r->ref, from);
+			elem_sz = type_size(r->ref, from);
+			if(elem_sz && sz > UINT_MAX / elem_sz)
+				die_at(from, "array is too large");
+
+			return sz * elem_sz;
 		}
 	}
 
-- 
2.43.0


From 2748170bff6b33f8c4338bbd25df33a4d3957175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:48 +0000
Subject: [PATCH 54/57] fix: cpp line numbers (__LINE__, #line, markers),
 directives in skipped groups

---
 src/cc1/tokenise.c   |  6 ++++--
 src/cpp2/directive.c | 41 ++++++++++++++++++++++++++---------------
 src/cpp2/eval.c      |  4 +++-
 src/cpp2/preproc.c   |  6 +++++-
 src/util/str.c       | 12 ++++++++++++
 src/util/str.h       |  1 +
 6 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index e6e1577..3b7b4bb 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -370,7 +370,7 @@ static void parse_line_directive(char *l)
 	if(!strncmp(l, "line", 4))
 		l += 4;
 
-	lno = strtol(l, &ep, 0);
+	lno = strtol(l, &ep, 10);
 	if(ep == l){
 		cc1_warn_at(NULL, cpp_line_parsing,
 				"couldn't parse number for #line directive (%s)", ep);
@@ -399,7 +399,9 @@ static void parse_line_directive(char *l)
 				}
 
 				flags = str_spc_skip(p + 1);
-				handle_line_file_directive(ustrdup2(ep, p), lno, flags);
+				ep = ustrdup2(ep, p);
+				str_unquote(ep);
+				handle_line_file_directive(ep, lno, flags);
 				break;
 			}
 		case '\0':
diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index 55b8140..605cd02 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -326,9 +326,10 @@ static void if_push(int is_true)
 	if(if_idx == N_IFSTACK)
 		die("ifdef stack exceeded");
 
-	noop = !is_true;
 	/* we've found a true #if/#ifdef/#ifndef ? */
-	if_elif_chosen = is_true ? GOT_TRUTH : NO_TRUTH;
+	if_elif_chosen = is_true || noop ? GOT_TRUTH : NO_TRUTH;
+	/* inside a skipped group no #elif or #else may be chosen (or evaluated) */
+	noop = noop || !is_true;
 }
 
 static void if_pop(void)
@@ -344,13 +345,15 @@ static void if_pop(void)
 
 static void handle_somedef(token **tokens, int rev)
 {
+	if(noop){
+		if_push(0);
+		return;
+	}
+
 	tokens = tokens_skip_whitespace(tokens);
 	SINGLE_TOKEN("too many arguments to ifdef macro");
 
-	if(noop)
-		if_push(0);
-	else
-		if_push(rev ^ !!macro_find(tokens[0]->w));
+	if_push(rev ^ !!macro_find(tokens[0]->w));
 }
 
 static void handle_ifdef(token **tokens)
@@ -485,7 +488,7 @@ static int handle_line_directive(char *line)
 	int need_line = 0;
 	int n;
 	char *endp;
-	char *output_anchor;
+	char *expanded = NULL;
 
 	line = str_spc_skip(line);
 
@@ -499,7 +502,13 @@ static int handle_line_directive(char *line)
 	}
 	line = str_spc_skip(line);
 
-	n = strtol(line, &endp, 0);
+	if(need_line && !isdigit((unsigned char)*line)){
+		/* 6.10.4/5: macros are expanded if it's not of the usual form */
+		line = expanded = eval_expand_macros(ustrdup(line));
+		line = str_spc_skip(line);
+	}
+
+	n = strtol(line, &endp, 10);
 	if(endp == line){
 		if(need_line)
 			CPP_DIE("invalid #line directive");
@@ -511,24 +520,26 @@ static int handle_line_directive(char *line)
 		CPP_DIE("#line directive with a negative argument");
 
 	/* parse the filename, if given */
-	output_anchor = line;
 	line = str_spc_skip(endp);
-	*endp = '\0';
 	if(*line == '"'){
 		char *fname = line + 1;
-		char *end = strchr(fname, '"');
+		char *end = str_quotefin(fname);
 
 		if(!*fname || !end)
 			CPP_DIE("#line directive has unterminated double-quote");
 
-		*line = '\0';
 		*end = '\0';
+		str_unquote(fname);
 		set_current_fname(fname);
+		free(file_stack[file_stack_idx].fname);
+		file_stack[file_stack_idx].fname = ustrdup(fname);
 	}
 
 	/* don't care about the filename - that's for cc1 */
-	preproc_emit_line_info(atoi(output_anchor), current_fname, /* no line-info */0);
-	current_line = n - 1;
+	preproc_emit_line_info(n, current_fname, /* no line-info */0);
+	current_line = n;
+
+	free(expanded);
 
 	return 1;
 }
@@ -544,7 +555,7 @@ void parse_directive(char *line)
 	token **tokens = NULL;
 
 	/* check for /# *[0-9]+ *( +"...")?/ */
-	if(handle_line_directive(line))
+	if(!parse_should_noop() && handle_line_directive(line))
 		goto fin;
 
 	/* check for include - we handle it specially
diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index ac40867..b9c10b7 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -330,7 +330,7 @@ static char *eval_macro_r(macro *m, char *start, char **pat)
 			if(!strcmp(m->nam, "__FILE__")){
 				val = str_quote(current_fname, 0);
 			}else if(!strcmp(m->nam, "__LINE__")){
-				val = ustrprintf("%d", current_line);
+				val = ustrprintf("%d", current_line - 1); /* we're already on the next line */
 			}else if(!strcmp(m->nam, "__COUNTER__")){
 				val = ustrprintf("%d", counter++);
 			}else if(!strcmp(m->nam, "__DATE__")){
@@ -531,6 +531,8 @@ static int defined_macro_find(char *ident)
 	int ret;
 
 	ident = word_find_any(ident);
+	if(!ident)
+		CPP_DIE("identifier expected for \"" DEFINED_STR "\"");
 	end = word_end(ident);
 	assert(end);
 	save = *end;
diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index 019a573..e8257a7 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -48,11 +48,15 @@ void include_bt(FILE *f)
 void preproc_emit_line_info(int lineno, const char *fname, enum lineinfo lineinfo)
 {
 	unsigned lineinfobits = lineinfo;
+	char *quoted;
+
 	/* output PP info */
 	if(no_output || !option_line_info)
 		return;
 
-	printf("# %d \"%s\"", lineno, fname);
+	quoted = str_quote((char *)fname, 0);
+	printf("# %d %s", lineno, quoted);
+	free(quoted);
 
 	while(lineinfobits){
 		unsigned bit = extractbottombit(&lineinfobits);
diff --git a/src/util/str.c b/src/util/str.c
index 4234b77..fe69129 100644
--- a/src/util/str.c
+++ b/src/util/str.c
@@ -27,6 +27,18 @@ char *str_quotefin(char *s)
 	return str_quotefin2(s, '"');
 }
 
+void str_unquote(char *s)
+{
+	char *out = s;
+
+	for(; *s; s++){
+		if(*s == '\\' && (s[1] == '\\' || s[1] == '"'))
+			s++;
+		*out++ = *s;
+	}
+	*out = '\0';
+}
+
 char *str_spc_skip(const char *s)
 {
 	for(; isspace(*s); s++);
diff --git a/src/util/str.h b/src/util/str.h
index 7c48ec1..25e5250 100644
--- a/src/util/str.h
+++ b/src/util/str.h
@@ -8,6 +8,7 @@
 char *str_quotefin2(char *s, char q);
 
 char *str_spc_skip(const char *);
+void str_unquote(char *);
 char *str_quotefin(char *);
 char *char_quotefin(char *);
 
-- 
2.43.0


From 4e6a6c727c04326bc48d6f5496bcda51e019ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:48 +0000
Subject: [PATCH 55/57] fix: macro expansion: nested calls, rescanning,
 multi-line calls, # and ## of any token

---
 src/cpp2/Makefile   |   2 +-
 src/cpp2/eval.c     | 824 +++++++++++++++++++++++++++-----------------
 src/cpp2/eval.h     |   9 +
 src/cpp2/macro.c    |   1 -
 src/cpp2/macro.h    |   1 -
 src/cpp2/preproc.c  | 112 +++++-
 src/cpp2/snapshot.c |  87 -----
 src/cpp2/snapshot.h |  16 -
 src/cpp2/str.c      |  21 +-
 src/cpp2/str.h      |   3 +
 src/cpp2/tokenise.c |   8 +
 11 files changed, 661 insertions(+), 423 deletions(-)
 delete mode 100644 src/cpp2/snapshot.c
 delete mode 100644 src/cpp2/snapshot.h

diff --git a/src/cpp2/Makefile b/src/cpp2/Makefile
index 51b44f8..3eae4dc 100644
--- a/src/cpp2/Makefile
+++ b/src/cpp2/Makefile
@@ -4,7 +4,7 @@ CFLAGS += -Wmissing-prototypes
 
 OBJ_CPP = preproc.o main.o macro.o str.o \
       directive.o tokenise.o eval.o  \
-      snapshot.o include.o deps.o    \
+      include.o deps.o               \
       expr.o expr_tok.o has.o
 
 OBJ_DEP = ../util/util.o ../util/alloc.o \
diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index b9c10b7..6d43a31 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -11,12 +11,12 @@
 #include "../util/util.h"
 #include "../util/alloc.h"
 #include "../util/str.h"
+#include "../util/macros.h"
 
 #include "tokenise.h"
 #include "macro.h"
 #include "str.h"
 #include "main.h"
-#include "snapshot.h"
 #include "preproc.h"
 #include "has.h"
 
@@ -26,6 +26,171 @@
 
 #define VA_ARGS_STR "__VA_ARGS__"
 
+/* only set while expanding a line of text (not in a directive) */
+static enum eval_more *eval_more;
+int eval_counter;
+
+/*
+ * While a line is being expanded, markers are kept in its text (and removed at
+ * the end): one after each macro's replacement - until that's passed the macro
+ * isn't expanded - and one before each identifier that was met while its macro
+ * wasn't to be expanded, and so never will be (6.10.3.4/2). The third keeps
+ * tokens apart which would otherwise form another one.
+ */
+#define MARK_END   '\1'
+#define MARK_PAINT '\2'
+#define MARK_SEP   '\3'
+
+/* the macros whose replacement we're inside, innermost last.
+ * active[active_base...] end in the text currently looked at */
+static macro **active;
+static size_t active_base;
+
+static char *expand(char *line);
+
+static void active_push(macro *m)
+{
+	m->blue++;
+	dynarray_add(&active, m);
+}
+
+static void active_pop(void)
+{
+	macro *m = dynarray_pop(macro *, &active);
+	m->blue--;
+}
+
+/* end of the string/character literal at s, or NULL if there's none there */
+static char *literal_end(char *s)
+{
+	if(*s == '"' || *s == '\''){
+		char *fin = str_quotefin2(s + 1, *s);
+		if(fin)
+			return fin + 1;
+	}
+	return NULL;
+}
+
+/* would the tokens on either side of end be lexed as something else, if left together? */
+static int would_join(const char *start, const char *end, char next)
+{
+	static const char pairs[][3] = { "->", "/*", "<:", ":>", "<%", "%>", "%:" };
+	size_t i;
+	const char *word = end;
+	char prev;
+
+	if(end == start || !next)
+		return 0;
+	prev = end[-1];
+
+	if(iswordpart(prev)){
+		while(word > start && (iswordpart(word[-1]) || word[-1] == '.'))
+			word--;
+
+		if(isdigit((unsigned char)*word) || *word == '.'){
+			if(next == '.')
+				return 1;
+			if((next == '+' || next == '-') && strchr("eEpP", prev))
+				return 1;
+		}else if((next == '"' || next == '\'') && end - word == 1 && prev == 'L'){
+			return 1;
+		}
+		return iswordpart(next);
+	}
+
+	if(prev == '.' && isdigit((unsigned char)next))
+		return 1;
+	if(next == '=')
+		return !!strchr("+-*/%<>=!&|^", prev);
+	if(prev == next)
+		return !!strchr("+-<>&|#./", prev);
+	for(i = 0; i < countof(pairs); i++)
+		if(prev == pairs[i][0] && next == pairs[i][1])
+			return 1;
+	return 0;
+}
+
+static int is_marker(char c)
+{
+	return c == MARK_END || c == MARK_PAINT || c == MARK_SEP;
+}
+
+static void strip_markers(char *const start, int spaces)
+{
+	char *s = start, *out = start;
+
+	while(*s){
+		char *end = literal_end(s);
+
+		if(end){
+			memmove(out, s, end - s);
+			out += end - s;
+			s = end;
+		}else if(is_marker(*s)){
+			int sep = 0;
+
+			for(; is_marker(*s); s++)
+				sep |= *s == MARK_SEP;
+
+			if(sep && spaces && would_join(start, out, *s))
+				*out++ = ' ';
+		}else{
+			*out++ = *s++;
+		}
+	}
+	*out = '\0';
+}
+
+/* the markers' characters can't be in the text itself */
+static char *drop_stray_markers(char *const start)
+{
+	char *s = start;
+
+	while(*s){
+		char *end = literal_end(s);
+
+		if(end){
+			s = end;
+			continue;
+		}
+		if(is_marker(*s))
+			*s = ' ';
+		s++;
+	}
+
+	return start;
+}
+
+static char *skip_spc_and_ends(char *s)
+{
+	while(isspace((unsigned char)*s) || *s == MARK_END || *s == MARK_SEP)
+		s++;
+	return s;
+}
+
+/* the ')' for the '(' at s */
+static char *find_close_paren(char *s)
+{
+	unsigned nest = 0;
+
+	while(*s){
+		char *end = literal_end(s);
+
+		if(end){
+			s = end;
+			continue;
+		}
+
+		if(*s == '(')
+			nest++;
+		else if(*s == ')' && --nest == 0)
+			return s;
+		s++;
+	}
+
+	return NULL;
+}
+
 static char **split_func_args(char *args_str)
 {
 	token **tokens = tokenise(args_str);
@@ -67,69 +232,211 @@ static char **split_func_args(char *args_str)
 	return args;
 }
 
-static char *find_arg(macro *m, char *word, char **args, int *alloced)
+/* the (unexpanded) argument which word names, or NULL */
+static const char *find_arg(macro *m, const char *word, char **args)
 {
-	*alloced = 0;
-	if(!strcmp(word, VA_ARGS_STR)){
-		if(args){
-			size_t i = dynarray_count(m->args);
-			/* if count(args) < i then args[i] is NULL,
-			 * which str_join handles
-			 */
-			*alloced = 1;
-			return str_join(args + i, ", ");
-		}else{
-			return "";
+	const int nargs = dynarray_count(args);
+	int i;
+
+	if(m->type == MACRO)
+		return NULL;
+
+	for(i = 0; m->args && m->args[i]; i++)
+		if(!strcmp(m->args[i], word))
+			return i < nargs ? args[i] : "";
+
+	if(!strcmp(word, VA_ARGS_STR))
+		return i < nargs ? args[i] : "";
+
+	return NULL;
+}
+
+/* 6.10.3.2: spelling of the argument, with \ and " escaped in its literals */
+static char *stringise(const char *arg)
+{
+	char *const dup = ustrdup(arg);
+	char *const ret = umalloc(2 * strlen(arg) + 3);
+	char *s = dup, *out = ret;
+
+	strip_markers(dup, 0);
+
+	*out++ = '"';
+	while(*s){
+		char *end = literal_end(s);
+
+		if(!end){
+			*out++ = *s++;
+			continue;
+		}
+		for(; s < end; s++){
+			if(*s == '"' || *s == '\\')
+				*out++ = '\\';
+			*out++ = *s;
 		}
 	}
+	strcpy(out, "\"");
+
+	free(dup);
+	return ret;
+}
+
+/* a token of the replacement list as it's given to # and ##, i.e. without expansion.
+ * advances *pti over '#' and its parameter */
+static char *noexpand_token(macro *m, token ***const pti, char **args)
+{
+	token *t = **pti;
+	char *ret;
+
+	if(t->tok == TOKEN_HASH_QUOTE && m->type != MACRO){
+		const char *arg;
+
+		t = *++*pti;
+		if(!t)
+			CPP_DIE("nothing to %s after '#' character", "quote");
+		if(t->tok != TOKEN_WORD)
+			CPP_DIE("can't %s a none-word (%s)", "quote", token_str(t));
+
+		arg = find_arg(m, t->w, args);
+		if(!arg)
+			CPP_DIE("can't %s non-argument \"%s\"", "quote", t->w);
+
+		return stringise(arg);
+	}
 
-	if(m->args){
-		char *w;
-		size_t i;
+	ret = (char *)(t->tok == TOKEN_WORD ? find_arg(m, t->w, args) : NULL);
+	ret = ustrdup(ret ? ret : token_str(t));
+	return ret;
+}
 
-		for(i = 0; (w = m->args[i]); i++)
-			if(!strcmp(w, word))
-				return args[i]; /* don't expand */
+static char *paste(char *lhs, char *rhs)
+{
+	char *joined, *p;
+
+	/* the result is a new identifier, which may be expanded */
+	strip_markers(lhs, 0);
+	strip_markers(rhs, 0);
+
+	joined = ustrprintf("%s%s", lhs, rhs);
+
+	p = joined;
+	if(ppnum_len(joined) == strlen(joined)){
+		/* fine */
+	}else if(iswordpart(*p) || (*p && iswordpart(p[1]))){
+		/* else we might have < ## < which gives << */
+		for(; *p; p++)
+			if(!iswordpart(*p)){
+				CPP_WARN(WPASTE,
+						"pasting \"%s\" and \"%s\" doesn't "
+						"give a single token",
+						lhs, rhs);
+				break;
+			}
 	}
 
-	/* word not found, we use the given identifier */
-	return word;
+	free(lhs);
+	free(rhs);
+
+	return joined;
+}
+
+static char *expand_arg(const char *arg)
+{
+	/* arguments are expanded alone, as if the rest of the file didn't follow */
+	enum eval_more *const save_more = eval_more;
+	const size_t save_base = active_base;
+	char *ret;
+
+	eval_more = NULL;
+	active_base = dynarray_count(active);
+
+	ret = expand(ustrdup(arg));
+
+	active_base = save_base;
+	eval_more = save_more;
+
+	return ret;
 }
 
-static char *noeval_hash(
-		macro *m, token *this, char **args,
-		int *alloced,
-		int need_arg, const char *emsg)
+/*
+ * 6.10.3.1/1:
+ * ... after the arguments for the invocation of a function-like
+ * macro have been identified, argument substitution takes
+ * place. A parameter in the replacement list, unless preceded
+ * by a # or ## preprocessing token or followed by a ##
+ * preprocessing token (see below), is replaced by the
+ * corresponding argument after all macros contained therein
+ * have been expanded...
+ */
+static char *substitute(macro *m, char **args)
 {
-	char *word;
+	static const char mark_sep[] = { MARK_SEP, '\0' };
+	char *const val = drop_stray_markers(ustrdup(m->val));
+	token **const toks = tokenise(val);
+	token **ti;
+	char *replace = ustrdup("");
+	int prev_arg = 0;
+
+	for(ti = toks; ti && *ti; ti++){
+		const int spc = (*ti)->had_whitespace;
+		int is_arg = 0;
+		char *word, *joined;
+		const char *sep;
+
+		if((*ti)->tok == TOKEN_HASH_JOIN)
+			CPP_DIE("## with no prior argument");
+
+		if((*ti)->tok == TOKEN_WORD && !(ti[1] && ti[1]->tok == TOKEN_HASH_JOIN)){
+			const char *arg = find_arg(m, (*ti)->w, args);
+			word = arg ? expand_arg(arg) : ustrdup((*ti)->w);
+			is_arg = !!arg;
+		}else{
+			is_arg = ti[1] && ti[1]->tok == TOKEN_HASH_JOIN;
+			word = noexpand_token(m, &ti, args);
+		}
 
-	if(!this)
-		CPP_DIE("nothing to %s after '#' character", emsg);
-	if(this->tok != TOKEN_WORD)
-		CPP_DIE("can't %s a none-word (%s)", emsg, token_str(this));
+		while(ti[1] && ti[1]->tok == TOKEN_HASH_JOIN){
+			ti += 2;
+			if(!*ti)
+				CPP_DIE("nothing to %s after '#' character", "join");
+			word = paste(word, noexpand_token(m, &ti, args));
+		}
+
+		sep = is_arg || prev_arg ? mark_sep : "";
+		prev_arg = is_arg;
 
-	word = find_arg(m, this->w, args, alloced); /* don't expand */
-	if(need_arg && word == this->w){
-		/* not found */
-		CPP_DIE("can't %s non-argument \"%s\"", emsg, word);
+		joined = ustrprintf("%s%s%s", replace, spc && *replace ? " " : sep, word);
+		free(word);
+		free(replace);
+		replace = joined;
 	}
 
-	return word;
+	tokens_free(toks);
+	free(val);
+
+	return replace;
+}
+
+static void trim_arg(char *arg)
+{
+	const char *s = arg;
+	size_t len;
+
+	while(isspace((unsigned char)*s) || *s == MARK_SEP)
+		s++;
+
+	len = strlen(s);
+	while(len > 0 && (isspace((unsigned char)s[len - 1]) || s[len - 1] == MARK_SEP))
+		len--;
+
+	memmove(arg, s, len);
+	arg[len] = '\0';
 }
 
 static char *eval_func_macro(macro *m, char *args_str)
 {
-	/*
-	 * 6.10.3.1/1:
-	 * ... after the arguments for the invocation of a function-like
-	 * macro have been identified, argument substitution takes
-	 * place. A parameter in the replacement list, unless preceded
-	 * by a # or ## preprocessing token or followed by a ##
-	 * preprocessing token (see below), is replaced by the
-	 * corresponding argument after all macros contained therein
-	 * have been expanded...
-	 */
 	char **args = split_func_args(args_str);
+	char *replace;
+	int i;
 
 	int got = dynarray_count(args)
 		, exp = dynarray_count(m->args);
@@ -143,6 +450,7 @@ static char *eval_func_macro(macro *m, char *args_str)
 		}
 
 		/* we don't want macro-substitution of the argument */
+		strip_markers(args[0], 0);
 		ret = has_func(m->nam, args[0]);
 		if(ret == -1)
 			CPP_DIE("unknown builtin macro \"%s\"", m->nam);
@@ -152,6 +460,13 @@ static char *eval_func_macro(macro *m, char *args_str)
 		return ustrdup(ret ? "1" : "0");
 	}
 
+	for(i = 0; i < got; i++)
+		trim_arg(args[i]);
+
+	if(got == 1 && exp == 0 && m->type != VARIADIC && !*args[0]){
+		/* F( ) - no arguments, just white space */
+		got = 0;
+	}
 
 	if(m->type == VARIADIC ? got < exp : got != exp){
 		if(got == 0 && exp == 1){
@@ -172,317 +487,212 @@ static char *eval_func_macro(macro *m, char *args_str)
 		}
 	}
 
-	if(args){
-		int i;
-		for(i = 0; args[i]; i++)
-			str_trim(args[i]);
+	if(m->type == VARIADIC && got > exp + 1){
+		/* the remaining arguments make up __VA_ARGS__ */
+		char *const va_args = str_join(args + exp, ", ");
+
+		for(i = exp; i < got; i++)
+			free(args[i]);
+		args[exp] = va_args;
+		args[exp + 1] = NULL;
 	}
 
-	{
-		token **toks = tokenise(m->val);
-		token **ti;
-		char *replace = ustrdup("");
-
-#define APPEND(ws, fmt, ...)                        \
-				do{                                         \
-					char *new = ustrprintf("%s%s" fmt,        \
-							replace,                              \
-							*replace && ws ? " " : "",            \
-							__VA_ARGS__);                         \
-					free(replace), replace = new;             \
-				}while(0)
-
-		for(ti = toks; ti && *ti; ti++){
-			token *this = *ti;
-			switch(this->tok){
-				case TOKEN_HASH_QUOTE:
-				{
-					/* replace #arg with the quote of arg */
-					/* # - don't eval */
-					int alloced;
-					char *w = noeval_hash(m, *++ti, args, &alloced, 1, "quote");
-					w = str_quote(w, alloced);
-
-					APPEND(this->had_whitespace, "%s", w);
-
-					free(w);
-					break;
-				}
+	replace = substitute(m, args);
 
-				case TOKEN_HASH_JOIN:
-					/* replace a ## b with the join of both */
-					CPP_DIE("## with no prior argument");
-
-				case TOKEN_WORD:
-				{
-					int free_word = 0;
-					char *word;
-
-					if(ti[1] && ti[1]->tok == TOKEN_HASH_JOIN){
-						/* word with ## - don't eval */
-						word = noeval_hash(m, ti[0], args, &free_word, 0, "join");
-
-						ti++;
-
-						while(*ti && ti[0]->tok == TOKEN_HASH_JOIN){
-							char *old = free_word ? word : (free_word = 1, ustrdup(word));
-							char *neh;
-							int free_neh;
-							char *p;
-
-							word = ustrprintf("%s%s", word,
-									neh = noeval_hash(m, ti[1], args, &free_neh, 0, "join"));
-
-							p = word;
-							if(iswordpart(*p) || (*p && iswordpart(p[1]))){
-								/* else we might have < ## < which gives << */
-								for(; *p; p++)
-									if(!iswordpart(*p)){
-										CPP_WARN(WPASTE,
-												"pasting \"%s\" and \"%s\" doesn't "
-												"give a single token",
-												old, neh);
-										break;
-									}
-							}
-
-							if(free_neh)
-								free(neh);
-							if(free_word)
-								free(old);
-							free_word = 1;
-
-							ti += 2;
-						}
-						ti--;
-					}else{
-						/* word without # nor ## - we may eval */
-						word = find_arg(m, this->w, args, &free_word);
-						if(word != this->w){
-							/* is an argument, eval.
-							 * "... is replaced by the corresponding argument after all
-							 * macros contained therein have been expanded..."
-							 */
-
-							if(!free_word){
-								/* eval_expand_macros() (below) frees its argument
-								 * if it expands, so we must own 'word' at this point */
-								word = ustrdup(word);
-								free_word = 1;
-							}
-
-							/* we don't blue paint arguments, e.g.
-							 * define G(x) x+5
-							 * define F(x) G(x)
-							 * F(G(1))
-							 * we end up with `replace = "G(x+5)`
-							 * which we then want to double-expand
-							 */
-							{
-								snapshot *snap = snapshot_take();
-
-								word = eval_expand_macros(word);
-
-								snapshot_restore_used(snap);
-								snapshot_free(snap);
-							}
-						}
-					}
-
-					APPEND(this->had_whitespace, "%s", word);
-					if(free_word)
-						free(word);
-					break;
-				}
+	dynarray_free(char **, args, free);
 
-				case TOKEN_OPEN_PAREN:
-				case TOKEN_CLOSE_PAREN:
-				case TOKEN_COMMA:
-				case TOKEN_ELIPSIS:
-				case TOKEN_STRING:
-				case TOKEN_OTHER:
-					APPEND(this->had_whitespace, "%s", token_str(this));
-			}
-		}
-
-
-		dynarray_free(char **, args, free);
-		tokens_free(toks);
-		return replace;
-	}
-#undef APPEND
+	return replace;
 }
 
-static char *eval_macro_r(macro *m, char *start, char **pat)
+static char *eval_obj_macro(macro *m)
 {
-	if(m->type == MACRO){
-		static int counter = 0; /* __COUNTER__ */
-		int free_val = 0;
-		char *val;
-		char *ret;
-		size_t change;
-
-		if(m->val){
-			val = m->val;
-		}else{
-			free_val = 1;
-
-			if(!strcmp(m->nam, "__FILE__")){
-				val = str_quote(current_fname, 0);
-			}else if(!strcmp(m->nam, "__LINE__")){
-				val = ustrprintf("%d", current_line - 1); /* we're already on the next line */
-			}else if(!strcmp(m->nam, "__COUNTER__")){
-				val = ustrprintf("%d", counter++);
-			}else if(!strcmp(m->nam, "__DATE__")){
-				free_val = 0;
-				val = cpp_date;
-			}else if(!strcmp(m->nam, "__TIME__")){
-				free_val = 0;
-				val = cpp_time;
-			}else if(!strcmp(m->nam, "__TIMESTAMP__")){
-				free_val = 0;
-				val = cpp_timestamp;
-			}else if(!strcmp(m->nam, "__BASE_FILE__")){
-				free_val = 0;
-				val = cpp_basefile;
-			}else{
-				ICE("invalid macro");
-			}
-		}
-
-		change = *pat - start;
-		ret = word_replace(start, *pat, strlen(m->nam), val);
-		*pat = ret + change + strlen(val);
+	if(m->val)
+		return substitute(m, NULL);
+
+	if(!strcmp(m->nam, "__FILE__"))
+		return str_quote(current_fname, 0);
+	if(!strcmp(m->nam, "__LINE__"))
+		return ustrprintf("%d", current_line - 1); /* we're already on the next line */
+	if(!strcmp(m->nam, "__COUNTER__"))
+		return ustrprintf("%d", eval_counter++);
+	if(!strcmp(m->nam, "__DATE__"))
+		return ustrdup(cpp_date);
+	if(!strcmp(m->nam, "__TIME__"))
+		return ustrdup(cpp_time);
+	if(!strcmp(m->nam, "__TIMESTAMP__"))
+		return ustrdup(cpp_timestamp);
+	if(!strcmp(m->nam, "__BASE_FILE__"))
+		return ustrdup(cpp_basefile);
+
+	ICE("invalid macro");
+}
 
-		if(free_val)
-			free(val);
+/* expands the identifier at line[*ppos] with macro m, if it's to be expanded;
+ * *ppos is then left at the replacement, otherwise after the identifier */
+static char *expand_macro(macro *m, char *line, size_t *const ppos)
+{
+	const size_t pos = *ppos;
+	char *const end = line + pos + strlen(m->nam);
+	char *after = end;
+	char *replace, *ret, *ends;
+	size_t n_ends = 1;
 
+	if(m->blue){
+		ret = ustrprintf("%.*s%c%s", (int)pos, line, MARK_PAINT, line + pos);
+		free(line);
+		*ppos = pos + 1 + strlen(m->nam);
 		return ret;
+	}
+
+	if(m->type == MACRO){
+		replace = eval_obj_macro(m);
 
 	}else{
-		char *open_b, *close_b;
+		char *open_b = skip_spc_and_ends(end);
+		char *close_b, *args_str, *s;
 
-		open_b = str_spc_skip(*pat + strlen(m->nam));
+		*ppos = pos + strlen(m->nam);
 
 		if(*open_b != '('){
-			/* not an invocation - return and also knock down the use-count */
-			macro_use(m, -1);
+			if(!*open_b && eval_more){
+				*eval_more = EVAL_NAME_AT_END;
+				return line;
+			}
+			/* not an invocation */
 			CPP_WARN(WUNCALLED_FN, "ignoring non-function instance of %s", m->nam);
-			return start;
+			return line;
 		}
 
-		close_b = strchr_nest(open_b, ')');
-		if(!close_b)
-			CPP_DIE("unterminated function-macro '%s'", m->nam);
-
 		if(!strcmp(m->nam, HAS_INCLUDE_STR)){
 			/* noop - not in #if mode */
-			return start;
+			return line;
 		}
 
-		{
-			char *all_args = ustrdup2(open_b + 1, close_b);
-			char *eval_d = eval_func_macro(m, all_args);
-			size_t change;
-
-			free(all_args);
-
-			change = *pat - start;
-			start = str_replace(start, *pat, close_b + 1, eval_d);
-			*pat = start + change + strlen(eval_d);
+		close_b = find_close_paren(open_b);
+		if(!close_b){
+			if(!eval_more)
+				CPP_DIE("unterminated function-macro '%s'", m->nam);
+			*eval_more = EVAL_UNTERMINATED;
+			return line;
+		}
 
-			free(eval_d);
+		/* if other macros' replacements end before our arguments do, what we're
+		 * replaced by still counts as nested in them */
+		args_str = ustrdup2(end, close_b);
+		for(s = args_str; *s;){
+			char *const lit = literal_end(s);
 
-			return start;
+			if(lit){
+				s = lit;
+				continue;
+			}
+			if(*s == MARK_END){
+				*s = MARK_SEP;
+				n_ends++;
+			}
+			s++;
 		}
-	}
-}
 
-static char *eval_macro_double_eval(macro *m, char *start, char **pat)
-{
-	/* FIXME: need to snapshot *m too? i.e. snapshot one level higher */
-	snapshot *snapshot = snapshot_take();
-	size_t change;
+		replace = eval_func_macro(m, strchr(args_str, '(') + 1);
+		free(args_str);
 
-	start = eval_macro_r(m, start, pat);
-	change = *pat - start;
+		after = close_b + 1;
+	}
 
-	/* mark any macros that changed as blue, to prevent re-evaluation */
-	snapshot_take_post(snapshot);
-	snapshot_blue_used(snapshot);
+	macro_use(m, +1);
+	active_push(m);
 
-	/* double eval */
-	start = eval_expand_macros(start);
-	*pat = start + change;
+	/* keep the replacement from being lexed together with what's around it */
+	ends = umalloc(n_ends + 1);
+	memset(ends, MARK_END, n_ends);
+	ret = ustrprintf("%.*s%c%s%s%s", (int)pos, line, MARK_SEP, replace, ends, after);
+	free(ends);
+	free(replace);
+	free(line);
 
-	snapshot_unblue_used(snapshot);
-	snapshot_free(snapshot);
+	*ppos = pos;
 
-	return start;
+	return ret;
 }
 
-static char *eval_macro(macro *m, char *start, char **pat)
+static char *expand(char *line)
 {
-	char *r;
-	if(m->blue){
-		*pat += strlen(m->nam);
-		return start;
-	}
+	size_t pos = 0;
 
-	macro_use(m, +1);
+	while(line[pos]){
+		char *s = line + pos;
+		char *end = literal_end(s);
+		size_t len;
+		char save;
+		macro *m;
 
-	m->blue++;
-	r = eval_macro_double_eval(m, start, pat);
-	m->blue--;
-	return r;
-}
+		if(end){
+			pos = end - line;
+			continue;
+		}
 
-char *eval_expand_macros(char *line)
-{
-	char *anchor = line;
+		if(*s == MARK_END){
+			if((size_t)dynarray_count(active) > active_base)
+				active_pop();
+			*s = MARK_SEP;
+			continue;
+		}
 
-	for(; *line; line++){
-		char *end, save;
-		macro *m;
+		if((len = ppnum_len(s))){
+			pos += len;
+			continue;
+		}
+
+		if(*s == MARK_PAINT){
+			pos = word_end(s + 1) - line;
+			continue;
+		}
 
-		line = word_find_any(line);
-		if(!line)
-			break;
+		if(!iswordpart(*s)){
+			pos++;
+			continue;
+		}
 
-		end = word_end(line);
+		end = word_end(s);
 
-		if(*end == '"' && line == end - 1 && *line == 'L'){
-			line = end;
+		if(*end == '"' && *s == 'L' && end == s + 1){
+			pos++;
 			continue;
 		}
 
 		save = *end, *end = '\0';
-		m = macro_find(line);
+		m = macro_find(s);
 		*end = save;
 
-		if(m){
-			anchor = eval_macro(m, anchor, &line);
-
-			switch(*line){
-				case '"':
-				case '\'':
-				{
-					/* skip quotes */
-					char *p = str_quotefin2(line + 1, *line);
-					UCC_ASSERT(p, "no matching quote on line '%s' @ '%s'", anchor, line);
-					break;
-				}
-			}
-
-		}else{
-			/* skip this word */
-			line = end;
-		}
-		if(!*line)
-			break;
+		if(m)
+			line = expand_macro(m, line, &pos);
+		else
+			pos = end - line;
 	}
 
-	return anchor;
+	return line;
+}
+
+char *eval_expand_macros(char *line)
+{
+	line = expand(drop_stray_markers(line));
+
+	while(dynarray_count(active))
+		active_pop();
+
+	strip_markers(line, 1);
+
+	return line;
+}
+
+char *eval_expand_macros_more(char *line, enum eval_more *const more)
+{
+	*more = EVAL_COMPLETE;
+	eval_more = more;
+	line = eval_expand_macros(line);
+	eval_more = NULL;
+
+	return line;
 }
 
 static char *eval_expand(char *w, const char *from, int eval(char *), int paren_optional)
diff --git a/src/cpp2/eval.h b/src/cpp2/eval.h
index b4fdbca..aeb8e26 100644
--- a/src/cpp2/eval.h
+++ b/src/cpp2/eval.h
@@ -5,4 +5,13 @@ char *eval_expand_defined(char *);
 char *eval_expand_has_include(char *);
 char *eval_expand_macros(char *line);
 
+enum eval_more
+{
+	EVAL_COMPLETE,
+	EVAL_NAME_AT_END, /* function-macro's name, with nothing following it */
+	EVAL_UNTERMINATED /* function-macro call without its close paren */
+};
+char *eval_expand_macros_more(char *line, enum eval_more *);
+extern int eval_counter; /* __COUNTER__ */
+
 #endif
diff --git a/src/cpp2/macro.c b/src/cpp2/macro.c
index a925b44..f57cff2 100644
--- a/src/cpp2/macro.c
+++ b/src/cpp2/macro.c
@@ -122,7 +122,6 @@ int macro_remove(const char *nam)
 
 void macro_use(macro *m, int adj)
 {
-	m->use_cnt  += adj;
 	m->use_dump += adj;
 }
 
diff --git a/src/cpp2/macro.h b/src/cpp2/macro.h
index 514daef..3b92a8d 100644
--- a/src/cpp2/macro.h
+++ b/src/cpp2/macro.h
@@ -12,7 +12,6 @@ typedef struct
 	enum { MACRO, FUNC, VARIADIC } type;
 	char **args;
 	int blue; /* being evaluated? */
-	int use_cnt; /* track usage for double-eval */
 	int use_dump; /* for -dS */
 	int include_depth;
 } macro;
diff --git a/src/cpp2/preproc.c b/src/cpp2/preproc.c
index e8257a7..f401429 100644
--- a/src/cpp2/preproc.c
+++ b/src/cpp2/preproc.c
@@ -30,6 +30,10 @@ struct file_stack file_stack[64];
 
 int file_stack_idx = -1;
 static int prev_newline;
+static int n_nls; /* newlines owed, from splices and multi-line macro calls */
+static int peeking; /* looking for the rest of a macro call: stay in this file */
+static char *peeked_line;
+static int peeked_nls;
 
 void include_bt(FILE *f)
 {
@@ -158,6 +162,9 @@ re_read:
 		if(ferror(f))
 			die("read():");
 
+		if(peeking)
+			return NULL;
+
 		fclose(f);
 		if(file_stack_idx > 0){
 			free(dirname_pop());
@@ -247,7 +254,6 @@ static char *expand_digraphs(char *line)
 
 static char *splice_lines(int *peof)
 {
-	static int n_nls;
 	char *line;
 	char *last_backslash;
 	int splice = 0;
@@ -392,6 +398,100 @@ strip_1line:
 	return line;
 }
 
+static char *next_line(int *peof)
+{
+	char *line;
+
+	if(peeked_line && !n_nls){
+		line = peeked_line;
+		peeked_line = NULL;
+		n_nls = peeked_nls;
+		return line;
+	}
+
+	line = splice_lines(peof);
+	if(!line)
+		return NULL;
+
+	debug_push_line(line);
+
+	if(option_digraphs)
+		line = expand_digraphs(line);
+
+	return strip_comment(line);
+}
+
+/* the line after the current one, or NULL if it can't be part of a macro call.
+ * if it's not taken, it must be given to untake_line() */
+static char *take_line(int *const pnls)
+{
+	const int save_nls = n_nls;
+	int eof = 0;
+	char *line;
+
+	n_nls = 0;
+	peeking = 1;
+	line = next_line(&eof);
+	peeking = 0;
+
+	*pnls = n_nls;
+	n_nls = save_nls;
+
+	return line;
+}
+
+static void untake_line(char *line, int nls)
+{
+	peeked_line = line;
+	peeked_nls = nls;
+}
+
+static char *expand_line(char *line)
+{
+	for(;;){
+		const int save_counter = eval_counter;
+		enum eval_more more;
+		char *expanded = eval_expand_macros_more(ustrdup(line), &more);
+		char *next;
+		int nls;
+
+		switch(more){
+			case EVAL_COMPLETE:
+				break;
+
+			case EVAL_UNTERMINATED:
+			case EVAL_NAME_AT_END:
+				next = take_line(&nls);
+
+				if(next && *str_spc_skip(next) != '#'){
+					/* a newline is just white space in (or before) the arguments */
+					const char *const nonspc = str_spc_skip(next);
+
+					if(more == EVAL_UNTERMINATED || *nonspc == '(' || !*nonspc){
+						char *joined = ustrprintf("%s %s", line, next);
+						free(next);
+						free(line);
+						free(expanded);
+						line = joined;
+						n_nls += nls + 1;
+						eval_counter = save_counter;
+						continue;
+					}
+				}
+
+				if(next)
+					untake_line(next, nls);
+
+				if(more == EVAL_UNTERMINATED)
+					CPP_DIE("unterminated function-macro call");
+				break;
+		}
+
+		free(line);
+		return expanded;
+	}
+}
+
 static char *filter_macros(char *line)
 {
 	/* check for non-standard space-then-# */
@@ -408,7 +508,7 @@ static char *filter_macros(char *line)
 		if(parse_should_noop())
 			*line = '\0';
 		else
-			line = eval_expand_macros(line);
+			line = expand_line(line);
 		return line;
 	}
 }
@@ -420,13 +520,7 @@ void preprocess(void)
 
 	preproc_push(stdin, current_fname, /*sysh:*/0);
 
-	while(!eof && (line = splice_lines(&eof))){
-		debug_push_line(line);
-
-		if(option_digraphs)
-			line = expand_digraphs(line);
-
-		line = strip_comment(line);
+	while(!eof && (line = next_line(&eof))){
 		switch(strip_in_block){
 			case NOT_IN_BLOCK:
 			case IN_BLOCK_BEGIN:
diff --git a/src/cpp2/snapshot.c b/src/cpp2/snapshot.c
deleted file mode 100644
index fad5a72..0000000
--- a/src/cpp2/snapshot.c
+++ /dev/null
@@ -1,87 +0,0 @@
-#include <stdlib.h>
-#include <stdarg.h>
-
-#include "../util/dynarray.h"
-#include "../util/alloc.h"
-#include "../util/where.h"
-
-#include "snapshot.h"
-#include "macro.h"
-
-#define NEW(exp) umalloc(sizeof *exp)
-#define NEW_N(n, exp) umalloc(n * sizeof *exp)
-
-struct snapshot
-{
-	int *pre, *post;
-	size_t n;
-};
-
-static int *snapshot_take_1(size_t n)
-{
-	int *p;
-	size_t i;
-
-	if(!n)
-		return NULL;
-
-	p = NEW_N(n, p);
-
-	for(i = 0; i < n; i++)
-		p[i] = macros[i]->use_cnt;
-
-	return p;
-}
-
-void snapshot_restore_used(snapshot *snap)
-{
-	size_t i;
-	for(i = 0; i < snap->n; i++)
-		macros[i]->use_cnt = snap->pre[i];
-}
-
-snapshot *snapshot_take(void)
-{
-	snapshot *snap;
-	size_t n = dynarray_count(macros);
-
-	snap       = NEW(snap);
-	snap->n    = n;
-	snap->pre  = snapshot_take_1(snap->n);
-
-	return snap;
-}
-
-void snapshot_free(snapshot *snap)
-{
-	free(snap->pre);
-	free(snap->post);
-	free(snap);
-}
-
-void snapshot_take_post(snapshot *snap)
-{
-	snap->post = snapshot_take_1(snap->n);
-}
-
-static void snapshot_alter_blue(snapshot *snap, int change)
-{
-	size_t i;
-
-	for(i = 0; i < snap->n; i++)
-		if(snap->post[i] != snap->pre[i])
-#ifdef EVAL_DEBUG
-			printf(">> blue %s += %d\n", macros[i]->nam, change),
-#endif
-			macros[i]->blue += change;
-}
-
-void snapshot_blue_used(snapshot *snap)
-{
-	snapshot_alter_blue(snap, 1);
-}
-
-void snapshot_unblue_used(snapshot *snap)
-{
-	snapshot_alter_blue(snap, -1);
-}
diff --git a/src/cpp2/snapshot.h b/src/cpp2/snapshot.h
deleted file mode 100644
index 8502b50..0000000
--- a/src/cpp2/snapshot.h
+++ /dev/null
@@ -1,16 +0,0 @@
-#ifndef SNAPSHOT_H
-#define SNAPSHOT_H
-
-typedef struct snapshot snapshot;
-
-snapshot *snapshot_take(void);
-void snapshot_take_post(snapshot *);
-
-void snapshot_blue_used(snapshot *);
-void snapshot_unblue_used(snapshot *);
-
-void snapshot_restore_used(snapshot *);
-
-void snapshot_free(snapshot *);
-
-#endif
diff --git a/src/cpp2/str.c b/src/cpp2/str.c
index 5cf0ce3..ef36407 100644
--- a/src/cpp2/str.c
+++ b/src/cpp2/str.c
@@ -21,6 +21,25 @@ char *word_end(char *s)
 	return s;
 }
 
+/* the length of the preprocessing number at s, or zero */
+size_t ppnum_len(const char *s)
+{
+	const char *const start = s;
+
+	if(*s == '.')
+		s++;
+	if(!isdigit((unsigned char)*s))
+		return 0;
+
+	for(; *s; s++){
+		if((*s == '+' || *s == '-') && strchr("eEpP", s[-1]))
+			continue;
+		if(!iswordpart(*s) && *s != '.')
+			break;
+	}
+	return s - start;
+}
+
 char *word_find_any(char *s)
 {
 	for(; *s; s++){
@@ -46,7 +65,7 @@ void str_trim(char *str)
 
 	for(s = str; *s; s++);
 
-	while(s > str && isspace(*s))
+	while(s > str && isspace(s[-1]))
 		s--;
 
 	*s = '\0';
diff --git a/src/cpp2/str.h b/src/cpp2/str.h
index 6a27ba4..cda5555 100644
--- a/src/cpp2/str.h
+++ b/src/cpp2/str.h
@@ -1,7 +1,10 @@
 #ifndef STR_H
 #define STR_H
 
+#include <stddef.h>
+
 int  iswordpart(char c);
+size_t ppnum_len(const char *); /* of the preprocessing number at the string, or zero */
 char *word_dup(const char *);
 char *word_end(char *); /* word_end("hello=there") -> ptr to '=' */
 char *word_find_any(char *);
diff --git a/src/cpp2/tokenise.c b/src/cpp2/tokenise.c
index 6bedf55..107751e 100644
--- a/src/cpp2/tokenise.c
+++ b/src/cpp2/tokenise.c
@@ -46,6 +46,14 @@ token **tokenise(char *line)
 			t->w = ustrdup2(start, p);
 			p--;
 
+		}else if(ppnum_len(p)){
+			const char *start = p;
+
+			p += ppnum_len(p);
+			t->tok = TOKEN_OTHER;
+			t->w = ustrdup2(start, p);
+			p--;
+
 		}else switch(c){
 			case ',':
 				t->tok = TOKEN_COMMA;
-- 
2.43.0


From 3d56881250c04fae49fdf3b5e2a2cc14d85dc628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:36 +0000
Subject: [PATCH 56/57] fix: cpp: lines after #pragma and null directives,
 #define's parameter list, unterminated calls

---
 src/cpp2/directive.c | 33 +++++++++++++++++++++++++--------
 src/cpp2/eval.c      | 17 +++++++++++++----
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/cpp2/directive.c b/src/cpp2/directive.c
index 605cd02..73ef9a7 100644
--- a/src/cpp2/directive.c
+++ b/src/cpp2/directive.c
@@ -74,6 +74,14 @@ int parse_should_noop(void)
 	return 0;
 }
 
+static int define_tok(token *t)
+{
+	/* trailing whitespace is an empty token */
+	if(!t || (t->w && !*t->w))
+		CPP_DIE("no close paren for macro parameters");
+	return t->tok;
+}
+
 static void handle_define(token **tokens)
 {
 	char *name;
@@ -97,16 +105,18 @@ static void handle_define(token **tokens)
 		variadic = 0;
 		args = NULL;
 
-		for(i = 2; tokens[i]; i++){
-			switch(tokens[i]->tok){
+		for(i = 2;; i++){
+			switch(define_tok(tokens[i])){
 				case TOKEN_CLOSE_PAREN:
+					if(args)
+						CPP_DIE("expected: parameter name");
 					i++;
 					goto for_fin;
 
 				case TOKEN_ELIPSIS:
 					variadic = 1;
 					i++;
-					if(tokens[i]->tok != TOKEN_CLOSE_PAREN)
+					if(define_tok(tokens[i]) != TOKEN_CLOSE_PAREN)
 						CPP_DIE("expected: close paren");
 					i++;
 					goto for_fin;
@@ -115,7 +125,7 @@ static void handle_define(token **tokens)
 					dynarray_add(&args, ustrdup(token_str(tokens[i])));
 
 					i++;
-					switch(tokens[i]->tok){
+					switch(define_tok(tokens[i])){
 						case TOKEN_COMMA:
 							continue;
 						case TOKEN_CLOSE_PAREN:
@@ -581,17 +591,24 @@ void parse_directive(char *line)
 
 	tokens = tokenise(line);
 
-	if(!tokens)
-		return;
+	/* null directive */
+	if(tokens_count_skip_spc(tokens) == 0){
+		directive_sync();
+		goto fin;
+	}
 
 	if(tokens[0]->tok != TOKEN_WORD){
-		if(parse_should_noop())
+		if(parse_should_noop()){
+			directive_sync();
 			goto fin;
+		}
 
 		CPP_DIE("invalid preproc token");
 	}
 
-	directive_sync();
+	/* a pragma takes up its own line of output */
+	if(parse_should_noop() || strcmp(tokens[0]->w, "pragma"))
+		directive_sync();
 
 #define HANDLE(s)                \
 	if(!strcmp(tokens[0]->w, #s)){ \
diff --git a/src/cpp2/eval.c b/src/cpp2/eval.c
index 6d43a31..b3a647a 100644
--- a/src/cpp2/eval.c
+++ b/src/cpp2/eval.c
@@ -311,12 +311,20 @@ static char *noexpand_token(macro *m, token ***const pti, char **args)
 static char *paste(char *lhs, char *rhs)
 {
 	char *joined, *p;
+	const char *rhs_start = rhs;
+	size_t len = strlen(lhs), word;
 
 	/* the result is a new identifier, which may be expanded */
-	strip_markers(lhs, 0);
-	strip_markers(rhs, 0);
+	while(len > 0 && is_marker(lhs[len - 1]))
+		len--;
+	lhs[len] = '\0';
+	for(word = len; word > 0 && iswordpart(lhs[word - 1]); word--);
+	if(word > 0 && lhs[word - 1] == MARK_PAINT)
+		lhs[word - 1] = MARK_SEP;
+	while(is_marker(*rhs_start))
+		rhs_start++;
 
-	joined = ustrprintf("%s%s", lhs, rhs);
+	joined = ustrprintf("%s%s", lhs, rhs_start);
 
 	p = joined;
 	if(ppnum_len(joined) == strlen(joined)){
@@ -555,7 +563,8 @@ static char *expand_macro(macro *m, char *line, size_t *const ppos)
 
 		if(*open_b != '('){
 			if(!*open_b && eval_more){
-				*eval_more = EVAL_NAME_AT_END;
+				if(*eval_more == EVAL_COMPLETE)
+					*eval_more = EVAL_NAME_AT_END;
 				return line;
 			}
 			/* not an invocation */
-- 
2.43.0


From 9474bc418f71bca2762795b288bf9b1712517529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:47 +0000
Subject: [PATCH 57/57] fix: cc1: lines after #pragma (to match cpp)

---
 src/cc1/tokenise.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/cc1/tokenise.c b/src/cc1/tokenise.c
index 3b7b4bb..f42d5d3 100644
--- a/src/cc1/tokenise.c
+++ b/src/cc1/tokenise.c
@@ -348,6 +348,14 @@ static void handle_line_file_directive(char *fnam /*owned by us*/, int lno, char
 		free(fnam);
 }
 
+static void next_line_number(void)
+{
+	loc_now.line++;
+
+	if(current_fname_stack_cnt > 0)
+		current_fname_stack[current_fname_stack_cnt - 1].lno = loc_now.line;
+}
+
 static void parse_line_directive(char *l)
 {
 	int lno;
@@ -358,7 +366,11 @@ static void parse_line_directive(char *l)
 	if(!strncmp(l, "pragma", 6)){
 		where loc;
 
+		/* unlike the others, this is a line of the source */
+		next_line_number();
+
 		where_cc1_current(&loc);
+		loc.line = loc_now.line;
 		loc.line_str = NULL;
 
 		l = str_spc_skip(l + 6);
@@ -457,11 +469,8 @@ static ucc_wur char *tokenise_read_line(void)
 		}
 
 		loc_now.chr = 0;
-		loc_now.line++;
+		next_line_number();
 		loc_tok = loc_now;
-
-		if(current_fname_stack_cnt > 0)
-			current_fname_stack[current_fname_stack_cnt - 1].lno = loc_now.line;
 	}
 
 	return l;
-- 
2.43.0

