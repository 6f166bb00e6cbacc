%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use lin.rs
%use vstring.rs
%use file.rs
%import modarith.fns assume=modarith
%import algebra.fns assume=algebra
%import dag.fns assume=dag
%import storage.fns assume=storage
%import clist.fns assume=flatten
%import flatten.fns assume=flatten
%import symw.fns
%import labels.fns
%import csym.fns
%import dsym.fns
