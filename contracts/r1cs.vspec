%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use vstring.rs
%use file.rs
%use bytes.rs
%import r1w.fns
