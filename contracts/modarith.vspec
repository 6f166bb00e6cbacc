%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%import modarith.fns
