%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use lin.rs
%import modarith.fns assume=modarith
%import algebra.fns assume=algebra
%import storage.fns assume=storage
%import simplify.fns assume=simplify
%import cluster.fns
