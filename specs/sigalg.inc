//@fn crypto::sign::$M::public_key as $N_public_key
//@params private_key
    requires private_key@.len() == 32
    ensures r is Ok ==> seed_ok($A, private_key@) && r->Ok_0@ == pubk($A, private_key@), seed_ok($A, private_key@) ==> r is Ok
//@start
    broadcast use group_seq;
//@end
//@fn crypto::sign::$M::sign as $N_sign
//@params private_key ser
    requires private_key@.len() == 32
    ensures r is Ok ==> seed_ok($A, private_key@) && issig($A, private_key@, ser@, r->Ok_0@), seed_ok($A, private_key@) ==> r is Ok
//@start
    proof { axiom_ed(private_key@); }
//@end
//@fn crypto::sign::$M::verify as $N_verify
//@params public_key sig ser
    ensures r is Ok ==> r->Ok_0 == ver($A, public_key@, sig@, ser@),
        pk_ok($A, public_key@) && sg_ok($A, sig@) ==> r is Ok
//@start
    proof { axiom_ed_len(public_key@, sig@); }
//@end
