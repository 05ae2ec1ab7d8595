@@# ------------------------------------------------------------------ single-point bit crossing (C09)
@@module genetic::cross
broadcast use {crate::spec::ax, crate::spec::ax_layout, crate::realmodel::rax, crate::num::numax};
/// bits at and above `pos` from `a`, bits below from `b`
pub open spec fn mix_u8(a: u8, b: u8, pos: usize) -> u8 { (a & (!0u8 << pos)) | (b & !(!0u8 << pos)) }
pub proof fn lem_bits_u8(a: u8, b: u8, pos: usize, k: usize)
    requires 1 <= pos < 8, k < 8
    ensures (mix_u8(a, b, pos) >> k) & 1u8 == (if k >= pos { (a >> k) & 1u8 } else { (b >> k) & 1u8 })
{
    assert((((a & (!0u8 << pos)) | (b & !(!0u8 << pos))) >> k) & 1u8 == (if k >= pos { (a >> k) & 1u8 } else { (b >> k) & 1u8 })) by (bit_vector) requires 1 <= pos < 8, k < 8;
}
/// bits at and above `pos` from `a`, bits below from `b`
pub open spec fn mix_u16(a: u16, b: u16, pos: usize) -> u16 { (a & (!0u16 << pos)) | (b & !(!0u16 << pos)) }
pub proof fn lem_bits_u16(a: u16, b: u16, pos: usize, k: usize)
    requires 1 <= pos < 16, k < 16
    ensures (mix_u16(a, b, pos) >> k) & 1u16 == (if k >= pos { (a >> k) & 1u16 } else { (b >> k) & 1u16 })
{
    assert((((a & (!0u16 << pos)) | (b & !(!0u16 << pos))) >> k) & 1u16 == (if k >= pos { (a >> k) & 1u16 } else { (b >> k) & 1u16 })) by (bit_vector) requires 1 <= pos < 16, k < 16;
}
/// bits at and above `pos` from `a`, bits below from `b`
pub open spec fn mix_u32(a: u32, b: u32, pos: usize) -> u32 { (a & (!0u32 << pos)) | (b & !(!0u32 << pos)) }
pub proof fn lem_bits_u32(a: u32, b: u32, pos: usize, k: usize)
    requires 1 <= pos < 32, k < 32
    ensures (mix_u32(a, b, pos) >> k) & 1u32 == (if k >= pos { (a >> k) & 1u32 } else { (b >> k) & 1u32 })
{
    assert((((a & (!0u32 << pos)) | (b & !(!0u32 << pos))) >> k) & 1u32 == (if k >= pos { (a >> k) & 1u32 } else { (b >> k) & 1u32 })) by (bit_vector) requires 1 <= pos < 32, k < 32;
}
/// bits at and above `pos` from `a`, bits below from `b`
pub open spec fn mix_u64(a: u64, b: u64, pos: usize) -> u64 { (a & (!0u64 << pos)) | (b & !(!0u64 << pos)) }
pub proof fn lem_bits_u64(a: u64, b: u64, pos: usize, k: usize)
    requires 1 <= pos < 64, k < 64
    ensures (mix_u64(a, b, pos) >> k) & 1u64 == (if k >= pos { (a >> k) & 1u64 } else { (b >> k) & 1u64 })
{
    assert((((a & (!0u64 << pos)) | (b & !(!0u64 << pos))) >> k) & 1u64 == (if k >= pos { (a >> k) & 1u64 } else { (b >> k) & 1u64 })) by (bit_vector) requires 1 <= pos < 64, k < 64;
}
/// bits at and above `pos` from `a`, bits below from `b`
pub open spec fn mix_i8(a: i8, b: i8, pos: usize) -> i8 { (a & (!0i8 << pos)) | (b & !(!0i8 << pos)) }
pub proof fn lem_bits_i8(a: i8, b: i8, pos: usize, k: usize)
    requires 1 <= pos < 8, k < 8
    ensures (mix_i8(a, b, pos) >> k) & 1i8 == (if k >= pos { (a >> k) & 1i8 } else { (b >> k) & 1i8 })
{
    assert((((a & (!0i8 << pos)) | (b & !(!0i8 << pos))) >> k) & 1i8 == (if k >= pos { (a >> k) & 1i8 } else { (b >> k) & 1i8 })) by (bit_vector) requires 1 <= pos < 8, k < 8;
}
/// bits at and above `pos` from `a`, bits below from `b`
pub open spec fn mix_i16(a: i16, b: i16, pos: usize) -> i16 { (a & (!0i16 << pos)) | (b & !(!0i16 << pos)) }
pub proof fn lem_bits_i16(a: i16, b: i16, pos: usize, k: usize)
    requires 1 <= pos < 16, k < 16
    ensures (mix_i16(a, b, pos) >> k) & 1i16 == (if k >= pos { (a >> k) & 1i16 } else { (b >> k) & 1i16 })
{
    assert((((a & (!0i16 << pos)) | (b & !(!0i16 << pos))) >> k) & 1i16 == (if k >= pos { (a >> k) & 1i16 } else { (b >> k) & 1i16 })) by (bit_vector) requires 1 <= pos < 16, k < 16;
}
@@fn genetic::cross::cross_u8
@@props C09
@@spec
    requires 1 <= pos < 8
    ensures r == mix_u8(parent_1, parent_2, pos)
@@bv u8
    requires 1 <= pos < 8
    ensures __result == ((parent_1 & (!0u8 << pos)) | (parent_2 & !(!0u8 << pos)))
@@fn genetic::cross::cross_u16
@@props C09
@@spec
    requires 1 <= pos < 16
    ensures r == mix_u16(parent_1, parent_2, pos)
@@bv u16
    requires 1 <= pos < 16
    ensures __result == ((parent_1 & (!0u16 << pos)) | (parent_2 & !(!0u16 << pos)))
@@fn genetic::cross::cross_u32
@@props C09 C10
@@spec
    requires 1 <= pos < 32
    ensures r == mix_u32(parent_1, parent_2, pos)
@@bv u32
    requires 1 <= pos < 32
    ensures __result == ((parent_1 & (!0u32 << pos)) | (parent_2 & !(!0u32 << pos)))
@@fn genetic::cross::cross_u64
@@props C09 C10
@@spec
    requires 1 <= pos < 64
    ensures r == mix_u64(parent_1, parent_2, pos)
@@bv u64
    requires 1 <= pos < 64
    ensures __result == ((parent_1 & (!0u64 << pos)) | (parent_2 & !(!0u64 << pos)))
@@fn genetic::cross::cross_i8
@@props C09
@@spec
    requires 1 <= pos < 8
    ensures r == mix_i8(parent_1, parent_2, pos)
@@bv i8
    requires 1 <= pos < 8
    ensures __result == ((parent_1 & (!0i8 << pos)) | (parent_2 & !(!0i8 << pos)))
@@fn genetic::cross::cross_i16
@@props C09 C10
@@spec
    requires 1 <= pos < 16
    ensures r == mix_i16(parent_1, parent_2, pos)
@@bv i16
    requires 1 <= pos < 16
    ensures __result == ((parent_1 & (!0i16 << pos)) | (parent_2 & !(!0i16 << pos)))
@@fn genetic::cross::cross_f32
@@props C09 C10
@@spec
    requires 1 <= pos < 32
    ensures bits_f32(r) == mix_u32(bits_f32(parent_1), bits_f32(parent_2), pos), r == mix_f32(parent_1, parent_2, pos)
@@fn genetic::cross::cross_f64
@@props C09 C10
@@spec
    requires 1 <= pos < 64
    ensures bits_f64(r) == mix_u64(bits_f64(parent_1), bits_f64(parent_2), pos), r == mix_f64(parent_1, parent_2, pos)
@@module genetic::cross
pub open spec fn mix_f64(a: f64, b: f64, pos: usize) -> f64 { of_bits_f64(mix_u64(bits_f64(a), bits_f64(b), pos)) }
pub open spec fn mix_f32(a: f32, b: f32, pos: usize) -> f32 { of_bits_f32(mix_u32(bits_f32(a), bits_f32(b), pos)) }
@@# ------------------------------------------------------------------ cross operators (C10)
@@module genetic::cross
use crate::genetic::deref_all;
use crate::rand::distributions::uniform::in_range;
/// sum and product of the first n parents, read as real numbers
pub open spec fn rsum<G>(p: Seq<&G>, n: int) -> real decreases n { if n <= 0 { 0real } else { rsum(p, n - 1) + rv(*p[n - 1]) } }
pub open spec fn rprod<G>(p: Seq<&G>, n: int) -> real decreases n { if n <= 0 { 1real } else { rprod(p, n - 1) * rv(*p[n - 1]) } }
pub open spec fn rval<G>(x: G) -> real { rv(x) }
/// what the exponent/mantissa crossing returns for the two positions and the parent giving the sign
pub open spec fn exp_child(a: (u64, i16, i8), b: (u64, i16, i8), mpos: usize, epos: usize, first: bool) -> real {
    (if first { a.2 as real } else { b.2 as real }) * (mix_u64(a.0, b.0, mpos) as real) * rexp2(mix_i16(a.1, b.1, epos) as real)
}
/// `b` is `a` followed by the single-gene crossings of the first n pairs of genes
pub open spec fn gene_calls<G>(a: Seq<(Seq<G>, Seq<G>)>, b: Seq<(Seq<G>, Seq<G>)>, p1: Seq<G>, p2: Seq<G>, n: int) -> bool {
    &&& b.len() == a.len() + n
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k]
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] b[a.len() + k]).0 == seq![p1[k], p2[k]]
}
@@fn genetic::cross::CrossMean::new
@@props C10
@@fn genetic::cross::FloatCrossGeometricMean::new
@@props C10
@@fn genetic::cross::CrossBitwise::new
@@props C10
@@fn genetic::cross::FloatCrossExp::new
@@props C10
@@fn genetic::cross::VecCrossAllGenes::new
@@props C10 C28
@@spec
    ensures r.single_cross == single_cross
@@fn genetic::cross::<CrossMean as Cross<G>>::cross
@@props C10
@@mode lift
@@spec
    ensures parents_genes@.len() >= 2, r@.len() == 1,
        rm() ==> rval(r@[0]) == rsum(parents_genes@, parents_genes@.len() as int) / (parents_genes@.len() as real)
@@valid
parents_genes@.len() >= 2
@@loop 0
        rm() ==> rval(__f0) == rsum(parents_genes@, __i0 as int),
@@fn genetic::cross::<FloatCrossGeometricMean as Cross<G>>::cross
@@props C10
@@mode lift
@@spec
    ensures parents_genes@.len() >= 2, r@.len() == 1,
        rm() ==> rval(r@[0]) == rpow(rprod(parents_genes@, parents_genes@.len() as int), 1real / (parents_genes@.len() as real))
@@valid
parents_genes@.len() >= 2
@@loop 0
        rm() ==> rval(__f0) == rprod(parents_genes@, __i0 as int),
@@fn genetic::cross::<CrossBitwise as Cross<f64>>::cross
@@props C10
@@mode lift
@@spec
    ensures parents_genes@.len() == 2,
        exists|pos: usize| 1 <= pos < 64 && r@ == seq![#[trigger] mix_f64(*parents_genes@[0], *parents_genes@[1], pos)],
        r@ == seq![mix_f64(*parents_genes@[0], *parents_genes@[1], hist::<usize>(final(self).random).last())] && forall|pos: usize| 1 <= pos < 64 ==> #[trigger] (supps::<usize>(final(self).random).last())(pos) //# C00
@@valid
parents_genes@.len() == 2
@@at exit
    let ghost d = hist::<usize>(self.random).last();
    assert(__result@ =~= seq![mix_f64(*parents_genes@[0], *parents_genes@[1], d)]);
@@fn genetic::cross::<CrossBitwise as Cross<f32>>::cross
@@props C10
@@mode lift
@@spec
    ensures parents_genes@.len() == 2,
        exists|pos: usize| 1 <= pos < 32 && r@ == seq![#[trigger] mix_f32(*parents_genes@[0], *parents_genes@[1], pos)],
        r@ == seq![mix_f32(*parents_genes@[0], *parents_genes@[1], hist::<usize>(final(self).random).last())] && forall|pos: usize| 1 <= pos < 32 ==> #[trigger] (supps::<usize>(final(self).random).last())(pos) //# C00
@@valid
parents_genes@.len() == 2
@@at exit
    let ghost d = hist::<usize>(self.random).last();
    assert(__result@ =~= seq![mix_f32(*parents_genes@[0], *parents_genes@[1], d)]);
@@fn genetic::cross::<VecCrossAllGenes as Cross<Vec<G>>>::cross
@@props C10
@@mode lift
@@spec
    requires parents@.len() == 2 ==> parents@[1]@.len() >= parents@[0]@.len()
    ensures parents@.len() == 2,
        gene_calls(old(self).single_cross.log(), final(self).single_cross.log(), parents@[0]@, parents@[1]@, parents@[0]@.len() as int),
        r@.len() == 1,
        r@[0]@ == flat(final(self).single_cross.log(), old(self).single_cross.log().len() as int, final(self).single_cross.log().len() as int),
@@valid
parents@.len() == 2
@@loop 0
        parents@.len() == 2,
        gene_calls(old(self_).single_cross.log(), self_.single_cross.log(), parents@[0]@, parents@[1]@, __i0 as int),
        child@ == flat(self_.single_cross.log(), old(self_).single_cross.log().len() as int, self_.single_cross.log().len() as int),
@@at loop 0 begin
    let ghost c_old = self_.single_cross.log();
@@at loop 0 end
    proof {
        let c = self_.single_cross.log(); let n0 = old(self_).single_cross.log().len() as int;
        assert(c == c_old.push(c.last()));
        assert(c.last().0 =~= seq![parents@[0]@[__j0 as int], parents@[1]@[__j0 as int]]);
        lem_flat_ext(c_old, c, n0, c_old.len() as int);
        assert(child@ =~= flat(c, n0, c.len() as int));
    }
@@fn genetic::cross::<FloatCrossExp as Cross<T>>::cross
@@props C10
@@mode lift
@@spec
    ensures parents_genes@.len() == 2, r@.len() == 1,
        rm() ==> exists|mpos: usize, epos: usize, first: bool| 1 <= mpos < 64 && 1 <= epos < 16
            && rval(r@[0]) == #[trigger] exp_child(decode_s(*parents_genes@[0]), decode_s(*parents_genes@[1]), mpos, epos, first),
        ({ //# C00
            let h = hist::<usize>(final(self).random).skip(hist::<usize>(old(self).random).len() as int); let q = supps::<usize>(old(self).random).len() as int; //# C00
            &&& rm() ==> rval(r@[0]) == exp_child(decode_s(*parents_genes@[0]), decode_s(*parents_genes@[1]), h[0], h[1], hist::<i8>(final(self).random).last() == 0) //# C00
            &&& supps::<usize>(final(self).random).len() >= q + 2 && (forall|x: usize| 1 <= x < 64 ==> #[trigger] (supps::<usize>(final(self).random)[q])(x)) && (forall|x: usize| 1 <= x < 16 ==> #[trigger] (supps::<usize>(final(self).random)[q + 1])(x)) //# C00
            &&& (supps::<i8>(final(self).random).last())(0) && (supps::<i8>(final(self).random).last())(1) //# C00
        }), //# C00
@@valid
parents_genes@.len() == 2
@@at entry
    let ghost __h = hist::<usize>(self_.random).len() as int;
@@at exit
    proof {
        let h = hist::<usize>(self.random);
        let a = h[__h]; let b = h[__h + 1];
        let d1 = decode_s(*parents_genes@[0]); let d2 = decode_s(*parents_genes@[1]);
        if rm() {
            assert(rval(__result@[0]) == exp_child(d1, d2, a, b, true) || rval(__result@[0]) == exp_child(d1, d2, a, b, false)
                || rval(__result@[0]) == exp_child(d1, d2, b, a, true) || rval(__result@[0]) == exp_child(d1, d2, b, a, false));
        }
    }
@@# ------------------------------------------------------------------ mutation (C11)
@@module genetic::mutation
use crate::rand::distributions::uniform::in_range;
broadcast use {crate::spec::ax, crate::spec::ax_layout, crate::realmodel::rax, crate::num::numax};
/// one bit of x flipped at each of the positions
pub open spec fn flips_u32(x: u32, s: Seq<usize>) -> u32 decreases s.len() { if s.len() == 0 { x } else { flips_u32(x, s.drop_last()) ^ (1u32 << s.last()) } }
/// a bit that is at none of the positions keeps its value: at most s.len() bits differ
pub proof fn lem_flips_u32(x: u32, s: Seq<usize>, k: usize)
    requires k < 32, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 32 && s[i] != k
    ensures (flips_u32(x, s) >> k) & 1u32 == (x >> k) & 1u32
    decreases s.len()
{
    if s.len() > 0 {
        lem_flips_u32(x, s.drop_last(), k);
        let y = flips_u32(x, s.drop_last()); let p = s.last();
        assert(((y ^ (1u32 << p)) >> k) & 1u32 == (y >> k) & 1u32) by (bit_vector) requires k < 32, p < 32, p != k;
    }
}
/// one bit of x flipped at each of the positions
pub open spec fn flips_u64(x: u64, s: Seq<usize>) -> u64 decreases s.len() { if s.len() == 0 { x } else { flips_u64(x, s.drop_last()) ^ (1u64 << s.last()) } }
/// a bit that is at none of the positions keeps its value: at most s.len() bits differ
pub proof fn lem_flips_u64(x: u64, s: Seq<usize>, k: usize)
    requires k < 64, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 64 && s[i] != k
    ensures (flips_u64(x, s) >> k) & 1u64 == (x >> k) & 1u64
    decreases s.len()
{
    if s.len() > 0 {
        lem_flips_u64(x, s.drop_last(), k);
        let y = flips_u64(x, s.drop_last()); let p = s.last();
        assert(((y ^ (1u64 << p)) >> k) & 1u64 == (y >> k) & 1u64) by (bit_vector) requires k < 64, p < 64, p != k;
    }
}
/// how many of the first n draws are below the percentage
pub open spec fn hits(h: Seq<f64>, p: f64, n: int) -> int decreases n { if n <= 0 { 0 } else { hits(h, p, n - 1) + (if h[n - 1].ieee_lt(p) { 1int } else { 0 }) } }
/// the first n genes: each drawn for, copied or mutated by the single-gene mutation
pub open spec fn mut_upto<G>(c: Seq<G>, r: Seq<G>, h: Seq<f64>, p: f64, a: Seq<(G, G)>, b: Seq<(G, G)>, n: int) -> bool {
    &&& r.len() == n && h.len() == n
    &&& b.len() == a.len() + hits(h, p, n)
    &&& forall|k: int| 0 <= k < a.len() ==> #[trigger] b[k] == a[k]
    &&& forall|k: int| 0 <= k < n ==> (if (#[trigger] h[k]).ieee_lt(p) { b[a.len() + hits(h, p, k)] == (c[k], r[k]) } else { r[k] == c[k] })
    &&& forall|k: int| 0 <= k < n ==> 0.0f64.ieee_le(#[trigger] h[k]) && h[k].ieee_lt(100.0f64)
}
pub proof fn lem_hits_mono(h: Seq<f64>, p: f64, k: int, n: int) requires k <= n ensures 0 <= hits(h, p, k) <= hits(h, p, n) decreases n
{ if k < n && n > 0 { lem_hits_mono(h, p, k, n - 1); } else if n > 0 { lem_hits_mono(h, p, k - 1, n - 1); } }
pub proof fn lem_hits_ext(h: Seq<f64>, g: Seq<f64>, p: f64, n: int) requires n <= h.len(), n <= g.len(), forall|i: int| 0 <= i < n ==> h[i] == g[i] ensures hits(h, p, n) == hits(g, p, n) decreases n
{ if n > 0 { lem_hits_ext(h, g, p, n - 1); } }
pub proof fn lem_scale() ensures 0.0f64.ieee_lt(100.0f64), !0.0f64.ieee_is_nan(), !100.0f64.ieee_is_nan()
{ assert(0.0f64.ieee_lt(100.0f64) && !0.0f64.ieee_is_nan() && !100.0f64.ieee_is_nan()) by (bit_vector); }
/// a percentage of 0 never mutates, one of 100 always does
pub proof fn lem_never(d: f64, p: f64) requires 0.0f64.ieee_le(d), p.ieee_le(0.0f64) ensures !d.ieee_lt(p)
{ assert(0.0f64.ieee_le(d) && p.ieee_le(0.0f64) ==> !d.ieee_lt(p)) by (bit_vector); }
pub proof fn lem_always(d: f64, p: f64) requires d.ieee_lt(100.0f64), 100.0f64.ieee_le(p) ensures d.ieee_lt(p)
{ assert(d.ieee_lt(100.0f64) && 100.0f64.ieee_le(p) ==> d.ieee_lt(p)) by (bit_vector); }
/// the percentages at the ends of the scale
pub proof fn lem_ends<G>(c: Seq<G>, r: Seq<G>, h: Seq<f64>, p: f64, a: Seq<(G, G)>, b: Seq<(G, G)>)
    requires mut_upto(c, r, h, p, a, b, c.len() as int)
    ensures p.ieee_le(0.0f64) ==> r == c && b.len() == a.len(), 100.0f64.ieee_le(p) ==> b.len() == a.len() + c.len()
{
    if p.ieee_le(0.0f64) {
        assert forall|k: int| 0 <= k < c.len() implies !(#[trigger] h[k]).ieee_lt(p) by { lem_never(h[k], p); }
        lem_none(h, p, c.len() as int);
        assert forall|k: int| 0 <= k < c.len() implies #[trigger] r[k] == c[k] by { assert(!h[k].ieee_lt(p)); }
        assert(r =~= c);
    }
    if 100.0f64.ieee_le(p) {
        assert forall|k: int| 0 <= k < c.len() implies (#[trigger] h[k]).ieee_lt(p) by { lem_always(h[k], p); }
        lem_all(h, p, c.len() as int);
    }
}
pub proof fn lem_none(h: Seq<f64>, p: f64, n: int) requires 0 <= n <= h.len(), forall|k: int| 0 <= k < n ==> !(#[trigger] h[k]).ieee_lt(p) ensures hits(h, p, n) == 0 decreases n
{ if n > 0 { lem_none(h, p, n - 1); } }
pub proof fn lem_all(h: Seq<f64>, p: f64, n: int) requires 0 <= n <= h.len(), forall|k: int| 0 <= k < n ==> (#[trigger] h[k]).ieee_lt(p) ensures hits(h, p, n) == n decreases n
{ if n > 0 { lem_all(h, p, n - 1); } }
@@fn genetic::mutation::BitwiseMutation::new
@@props C11 C28
@@spec
    ensures r.change_gene_count == change_gene_count
@@fn genetic::mutation::VecMutation::new
@@props C11 C28
@@spec
    ensures r.probability == probability, r.single_mutation == single_mutation
@@fn genetic::mutation::<BitwiseMutation as Mutation<f32>>::mutation
@@props C11
@@mode lift
@@spec
    ensures final(self).change_gene_count == old(self).change_gene_count,
        exists|s: Seq<usize>| s.len() == old(self).change_gene_count && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 32)
            && bits_f32(r) == #[trigger] flips_u32(bits_f32(*gene), s),
        bits_f32(r) == flips_u32(bits_f32(*gene), hist::<usize>(final(self).random).skip(hist::<usize>(old(self).random).len() as int)), //# C00
        supps::<usize>(final(self).random).len() == supps::<usize>(old(self).random).len() + old(self).change_gene_count && cover_usize(supps::<usize>(final(self).random), supps::<usize>(old(self).random).len() as int, 0, 32), //# C00
@@at entry
    let ghost __h = hist::<usize>(self_.random).len() as int;
    let ghost __q = supps::<usize>(self_.random).len() as int;
@@loop 0
        self_.change_gene_count == old(self_).change_gene_count,
        hist::<usize>(self_.random).len() == __h + __i0,
        forall|i: int| 0 <= i < __i0 ==> 0 <= #[trigger] hist::<usize>(self_.random).skip(__h)[i] < 32,
        bit_value == flips_u32(bits_f32(*gene), hist::<usize>(self_.random).skip(__h)),
        supps::<usize>(self_.random).len() == __q + __i0 && cover_usize(supps::<usize>(self_.random), __q, 0, 32), //# C00
@@at loop 0 begin
    let ghost h_old = hist::<usize>(self_.random);
@@at loop 0 end
    assert(hist::<usize>(self_.random).skip(__h).drop_last() =~= h_old.skip(__h));
    assert(hist::<usize>(self_.random).skip(__h) =~= h_old.skip(__h).push(hist::<usize>(self_.random).last()));
@@at exit
    assert(bits_f32(__result) == flips_u32(bits_f32(*gene), hist::<usize>(self.random).skip(__h)));
@@fn genetic::mutation::<BitwiseMutation as Mutation<f64>>::mutation
@@props C11
@@mode lift
@@spec
    ensures final(self).change_gene_count == old(self).change_gene_count,
        exists|s: Seq<usize>| s.len() == old(self).change_gene_count && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 64)
            && bits_f64(r) == #[trigger] flips_u64(bits_f64(*gene), s),
        bits_f64(r) == flips_u64(bits_f64(*gene), hist::<usize>(final(self).random).skip(hist::<usize>(old(self).random).len() as int)), //# C00
        supps::<usize>(final(self).random).len() == supps::<usize>(old(self).random).len() + old(self).change_gene_count && cover_usize(supps::<usize>(final(self).random), supps::<usize>(old(self).random).len() as int, 0, 64), //# C00
@@at entry
    let ghost __h = hist::<usize>(self_.random).len() as int;
    let ghost __q = supps::<usize>(self_.random).len() as int;
@@loop 0
        self_.change_gene_count == old(self_).change_gene_count,
        hist::<usize>(self_.random).len() == __h + __i0,
        forall|i: int| 0 <= i < __i0 ==> 0 <= #[trigger] hist::<usize>(self_.random).skip(__h)[i] < 64,
        bit_value == flips_u64(bits_f64(*gene), hist::<usize>(self_.random).skip(__h)),
        supps::<usize>(self_.random).len() == __q + __i0 && cover_usize(supps::<usize>(self_.random), __q, 0, 64), //# C00
@@at loop 0 begin
    let ghost h_old = hist::<usize>(self_.random);
@@at loop 0 end
    assert(hist::<usize>(self_.random).skip(__h).drop_last() =~= h_old.skip(__h));
    assert(hist::<usize>(self_.random).skip(__h) =~= h_old.skip(__h).push(hist::<usize>(self_.random).last()));
@@at exit
    assert(bits_f64(__result) == flips_u64(bits_f64(*gene), hist::<usize>(self.random).skip(__h)));
@@fn genetic::mutation::<VecMutation as Mutation<Vec<G>>>::mutation
@@props C11
@@mode lift
@@spec
    ensures r@.len() == chromosomes@.len(), final(self).probability == old(self).probability,
        hist::<f64>(final(self).random).len() >= hist::<f64>(old(self).random).len(),
        mut_upto(chromosomes@, r@, hist::<f64>(final(self).random).skip(hist::<f64>(old(self).random).len() as int), vm_p(*old(self)),
            old(self).single_mutation.log(), final(self).single_mutation.log(), chromosomes@.len() as int),
        supps::<f64>(final(self).random).len() == supps::<f64>(old(self).random).len() + chromosomes@.len() && cover_f64(supps::<f64>(final(self).random), supps::<f64>(old(self).random).len() as int, 0.0f64, 100.0f64), //# C00
@@at entry
    proof { lem_scale(); }
    let ghost __q = supps::<f64>(self_.random).len() as int;
    let ghost __h = hist::<f64>(self_.random).len() as int;
@@loop 0
        self_.probability == old(self_).probability, __n0 == chromosomes@.len(),
        hist::<f64>(self_.random).len() == __h + __i0,
        mut_upto(chromosomes@, result@, hist::<f64>(self_.random).skip(__h), vm_p(*self_), old(self_).single_mutation.log(), self_.single_mutation.log(), __i0 as int),
        supps::<f64>(self_.random).len() == __q + __i0 && cover_f64(supps::<f64>(self_.random), __q, 0.0f64, 100.0f64), //# C00
@@at loop 0 begin
    let ghost h_old = hist::<f64>(self_.random).skip(__h);
    let ghost l_old = self_.single_mutation.log();
@@at loop 0 end
    proof {
        let h = hist::<f64>(self_.random).skip(__h);
        assert(h =~= h_old.push(h.last()));
        assert forall|k: int| 0 <= k <= __j0 implies #[trigger] hits(h, vm_p(*self_), k) == hits(h_old, vm_p(*self_), k) && hits(h, vm_p(*self_), k) <= hits(h, vm_p(*self_), __j0 as int) by {
            lem_hits_ext(h, h_old, vm_p(*self_), k);
            lem_hits_mono(h, vm_p(*self_), k, __j0 as int);
        }
        assert(h.last() == hist::<f64>(self_.random).last());
        assert forall|k: int| 0 <= k < __i0 implies 0.0f64.ieee_le(#[trigger] h[k]) && h[k].ieee_lt(100.0f64) by {
            if k < __j0 { assert(h[k] == h_old[k]); } else { assert(h[k] == h.last()); }
        }
        assert forall|k: int| 0 <= k < __i0 implies (if (#[trigger] h[k]).ieee_lt(vm_p(*self_)) { self_.single_mutation.log()[old(self_).single_mutation.log().len() + hits(h, vm_p(*self_), k)] == (chromosomes@[k], result@[k]) } else { result@[k] == chromosomes@[k] }) by {
            if k < __j0 {
                assert(h[k] == h_old[k]);
                assert(hits(h, vm_p(*self_), k) == hits(h_old, vm_p(*self_), k));
                if h[k].ieee_lt(vm_p(*self_)) { lem_hits_mono(h, vm_p(*self_), k + 1, __j0 as int); }
            } else {
                assert(hits(h, vm_p(*self_), k) == hits(h_old, vm_p(*self_), k));
            }
        }
        assert(hits(h, vm_p(*self_), __i0 as int) == hits(h, vm_p(*self_), __j0 as int) + (if h[__j0 as int].ieee_lt(vm_p(*self_)) { 1int } else { 0int }));
        assert(hits(h_old, vm_p(*self_), __j0 as int) == hits(h, vm_p(*self_), __j0 as int));
        assert(self_.single_mutation.log().len() == old(self_).single_mutation.log().len() + hits(h, vm_p(*self_), __i0 as int));
        lem_hits_mono(h_old, vm_p(*self_), __j0 as int, __j0 as int);
        assert forall|k: int| 0 <= k < old(self_).single_mutation.log().len() implies #[trigger] self_.single_mutation.log()[k] == old(self_).single_mutation.log()[k] by { assert(l_old[k] == old(self_).single_mutation.log()[k]); }
    }
@@module genetic::mutation
pub open spec fn vm_p<G>(m: VecMutation<G>) -> f64 { m.probability }
@@# ------------------------------------------------------------------ benchmark functions (C30)
@@module testfunc
broadcast use {crate::spec::ax, crate::realmodel::rax, crate::num::numax};
pub open spec fn rval<G>(x: G) -> real { rv(x) }
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn paraboloid_s<G>(x: Seq<G>, n: int) -> real decreases n { if n <= 0 { 0real } else { paraboloid_s(x, n - 1) + sq(rv(x[n - 1]) - (n as real)) } }
pub open spec fn schwefel_s<G>(x: Seq<G>, n: int) -> real decreases n { if n <= 0 { 0real } else { schwefel_s(x, n - 1) + rv(x[n - 1]) * rsin(rsqrt(rabs(rv(x[n - 1])))) } }
pub open spec fn rpi() -> real { 3.14159265358979real }
pub open spec fn rastrigin_s<G>(x: Seq<G>, n: int) -> real decreases n { if n <= 0 { 0real } else { rastrigin_s(x, n - 1) + sq(rv(x[n - 1])) - 10real * rcos(2real * rpi() * rv(x[n - 1])) } }
pub open spec fn rosenbrock_s<G>(x: Seq<G>, n: int) -> real decreases n {
    if n <= 0 { 0real } else { rosenbrock_s(x, n - 1) + 100real * sq(rv(x[n]) - sq(rv(x[n - 1]))) + sq(1real - rv(x[n - 1])) }
}
@@fn testfunc::paraboloid
@@props C30
@@spec
    ensures rm() ==> rval(r) == paraboloid_s(x@, x@.len() as int)
@@loop 0
        rm() ==> rval(result) == paraboloid_s(x@, __i0 as int), __n0 == x@.len(),
@@fn testfunc::schwefel
@@props C30
@@spec
    ensures rm() ==> rval(r) == 418.9829real * (x@.len() as real) - schwefel_s(x@, x@.len() as int)
@@loop 0
        rm() ==> rval(__f0) == schwefel_s(x@, __i0 as int), __n0 == x@.len(),
@@fn testfunc::rastrigin
@@props C30
@@spec
    ensures rm() ==> rval(r) == 10real * (x@.len() as real) + rastrigin_s(x@, x@.len() as int)
@@loop 0
        rm() ==> rval(__f0) == rastrigin_s(x@, __i0 as int), __n0 == x@.len(),
@@fn testfunc::rosenbrock
@@props C30
@@spec
    requires x@.len() >= 1
    ensures rm() ==> rval(r) == rosenbrock_s(x@, x@.len() - 1)
@@loop 0
        rm() ==> rval(sum) == rosenbrock_s(x@, __i0 as int), __n0 == x@.len() - 1,
