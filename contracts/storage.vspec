%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use lin.rs
%mod algebra
%source circom_algebra/src/algebra.rs
%bound C = Sig
%item Constraint attr=verifier::reject_recursive_types(C)
%import storage.fns
