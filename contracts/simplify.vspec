%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use lin.rs
%import modarith.fns assume=modarith
%import algebra.fns assume=algebra
%import simplify.fns
