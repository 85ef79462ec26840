//@imports creder
//@include fields.inc
// ------------------------------------------------------------------ what a credential says
impl Creder {
//@fn core::creder::Creder::crd as crd
    ensures dv(r) == dv(self.ked)
//@end
//@fn core::creder::Creder::issuer as issuer
    ensures ({ let t = ftxt(dv(self.ked), L"i"); (r is Ok <==> t is Some) && (r is Ok ==> r->Ok_0@ == t->0) })
//@start
    proof { lemma_dvos(); }
//@end
//@fn core::creder::Creder::schema as schema
    ensures ({ let t = ftxt(dv(self.ked), L"s"); (r is Ok <==> t is Some) && (r is Ok ==> r->Ok_0@ == t->0) })
//@start
    proof { lemma_dvos(); }
//@end
//@fn core::creder::Creder::subject as subject
    requires fld(dv(self.ked), L"a") is Some
    ensures dv(r) == fld(dv(self.ked), L"a")->0
//@end
//@fn core::creder::Creder::status as status
    ensures ({ let d = dv(self.ked); let f = fld(d, L"ri"); (r is Ok <==> d is Obj && (f is Some ==> f->0 is Str)) && (r is Ok ==> (r->Ok_0 is Some <==> f is Some) && (f is Some ==> f->0 == D::Str(r->Ok_0->0@))) })
//@start
    proof { lemma_dvos(); }
//@end
//@fn core::creder::Creder::chains as chains
    ensures ({ let d = dv(self.ked); let f = fld(d, L"e"); (r is Ok <==> d is Obj) && (r is Ok ==> dv(r->Ok_0) == (if f is Some { f->0 } else { D::Obj(Seq::empty()) })) })
//@start
    proof { lemma_dvos(); }
//@tail
    proof { if __ret is Ok { lemma_dv(__ret->Ok_0); if fld(dv(self.ked), L"e") is None { assert(dv(__ret->Ok_0)->Obj_0 =~= Seq::<(Seq<u8>, D)>::empty()); } } }
//@end
}
