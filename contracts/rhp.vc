@@ fn rhp::sector_root
    requires sector@.len() == 0x40_0000
    ensures res == crate::lemmas_merkle::mroot(crate::lemmas_merkle::leaves(sector@))
@attr #[verifier::loop_isolation(true)]
@start
broadcast use crate::spec::lemma_take32;
proof {
    assert(1usize << 22 == 0x40_0000usize) by(bit_vector);
    vstd::arithmetic::power2::lemma2_to64();
}
let ghost lv = crate::lemmas_merkle::leaves(sector@);
@loop 0
    invariant params.hlen() == 32, __z0 == 4, __n0 == 16384, __i0 <= __n0, tree_hashes@.len() == 65536,
        sector@.len() == 0x40_0000, lv == crate::lemmas_merkle::leaves(sector@),
        forall|x: int| 0 <= x < 4 * __i0 ==> #[trigger] tree_hashes@[x] == lv[x],
    decreases __n0 - __i0,
@loop 1
    invariant __n1 == 4, __i1 <= __n1, sector@.len() == 0x40_0000, 0 <= i < 16384, inputs@.len() == 4,
        forall|x: int| 0 <= x < __i1 ==> #[trigger] inputs@[x]@ == seq![0u8] + sector@.subrange(64 * (4 * i + x), 64 * (4 * i + x) + 64),
    decreases __n1 - __i1,
@loop 2
    invariant __n2 == 4, 0 <= __i2 <= __n2, 0 <= i < 16384, jobs@.len() == 4, chunk@.len() == 4,
        sector@.len() == 0x40_0000, lv == crate::lemmas_merkle::leaves(sector@),
        forall|x: int| 0 <= x < 4 ==> #[trigger] jobs@[x].done() && jobs@[x].hlen() == 32 && jobs@[x].data() == seq![0u8] + sector@.subrange(64 * (4 * i + x), 64 * (4 * i + x) + 64),
        forall|x: int| 0 <= x < __i2 ==> chunk@[x] == lv[4 * i + x],
    decreases __n2 - __i2,

@before 3
let ghost mut k: nat = 0;
proof {
    assert forall|x: int| 0 <= x < 65536 implies #[trigger] tree_hashes@[x] == lv[x] by { assert(lv[x] == lv[x]); }
    crate::lemmas_merkle::lemma_level_0(tree_hashes@, lv, 65536);
}
@loop 3
    invariant params.hlen() == 32, tree_hashes@.len() == 65536, lv.len() == 65536, k <= 15,
        chunk_size == 4 * vstd::arithmetic::power2::pow2(k),
        crate::lemmas_merkle::level(tree_hashes@, lv, vstd::arithmetic::power2::pow2(k) as int, 0, 65536int / vstd::arithmetic::power2::pow2(k) as int),
    decreases 4 * 65536 - chunk_size,
@body 3
let ghost g = vstd::arithmetic::power2::pow2(k) as int;
let ghost m = vstd::arithmetic::power2::pow2((14 - k) as nat) as int;
proof {
    vstd::arithmetic::power2::lemma2_to64();
    assert(k < 15);
    vstd::arithmetic::power2::lemma_pow2_adds(k, (14 - k) as nat);
    vstd::arithmetic::power2::lemma_pow2_adds(2, k);
    vstd::arithmetic::power2::lemma_pow2_unfold(k + 1);
    vstd::arithmetic::power2::lemma_pow2_pos(k);
    vstd::arithmetic::power2::lemma_pow2_pos((14 - k) as nat);
    assert(m * (4 * g) == 65536) by(nonlinear_arith) requires g * m == 16384;
    assert((4 * m) * g == 65536) by(nonlinear_arith) requires g * m == 16384;
    assert((2 * m) * (2 * g) == 65536) by(nonlinear_arith) requires g * m == 16384;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(65536 + 4 * g - 1, 4 * g, m, 4 * g - 1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(65536, g, 4 * m, 0);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(65536, 2 * g, 2 * m, 0);
}
@before 4
proof {
    assert(crate::lemmas_merkle::level(tree_hashes@, lv, 2 * g, 0, 0)) by { reveal(crate::lemmas_merkle::level); }
}
@loop 4
    invariant params.hlen() == 32, tree_hashes@.len() == 65536, lv.len() == 65536, __i4 <= __n4, __z4 == chunk_size, __n4 == m,
        g == vstd::arithmetic::power2::pow2(k), chunk_size == 4 * g, m * (4 * g) == 65536, g >= 1,
        crate::lemmas_merkle::level(tree_hashes@, lv, 2 * g, 0, 2 * __i4), crate::lemmas_merkle::level(tree_hashes@, lv, g, 4 * __i4, 4 * m),
    decreases __n4 - __i4,
@body 4
let ghost t = tree_hashes@;
let ghost b = __j4 * (4 * g);
proof {
    assert(0 <= b && b + 4 * g <= 65536 && (__j4 + 1) * (4 * g) == b + 4 * g && 4 * g * m == 65536) by(nonlinear_arith)
        requires b == __j4 * (4 * g), __j4 < m, g >= 1, m * (4 * g) == 65536;
}
@bodyend 4
proof {
    crate::lemmas_merkle::lemma_level_step(t, tree_hashes@, lv, k, m, __j4 as int, b);
}
@loop 5
    invariant __n5 == 2, __i5 <= __n5, inputs@.len() == 2, chunk_size == 4 * g, 1 <= g <= 65536, nodes@.len() == 4 * g,
        __i5 >= 1 ==> inputs@[0]@ == seq![1u8] + nodes@[0].0@ + nodes@[g].0@,
        __i5 >= 2 ==> inputs@[1]@ == seq![1u8] + nodes@[2 * g].0@ + nodes@[3 * g].0@,
    decreases __n5 - __i5,
@after 4
proof { k = k + 1; }
@body 5
proof {
    assert(0 * chunk_size == 0 && 1 * chunk_size == chunk_size);
    assert(__j5 == 0 || __j5 == 1);
}
@bodyend 5
proof {
    assert(inputs@[__j5 as int]@ =~= seq![1u8] + nodes@[step as int].0@ + nodes@[step as int + g].0@);
}
@after 3
proof {
    vstd::arithmetic::power2::lemma2_to64();
    vstd::arithmetic::power2::lemma2_to64_rest();
    assert(k == 15);
    assert(vstd::arithmetic::power2::pow2(k) == 32768 && 65536int / 32768int == 2);
    crate::lemmas_merkle::lemma_level_get(tree_hashes@, lv, 32768, 0, 2, 0);
    crate::lemmas_merkle::lemma_level_get(tree_hashes@, lv, 32768, 0, 2, 1);
    crate::lemmas_merkle::lemma_join_at(lv, 0, 15, 32768, 65536);
    assert(lv.subrange(0, 65536) =~= lv);
}
