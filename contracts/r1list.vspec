%use ops.rs
%use bigint.rs
%use std.rs
%use iter.rs
%use field.rs
%use maps.rs
%use lin.rs
%use vstring.rs
%use dense.rs
%use file.rs
%use bytes.rs
%import modarith.fns assume=modarith
%import algebra.fns assume=algebra
%import storage.fns assume=storage
%import dag.fns assume=dag
%import r1w.fns assume=r1cs
%import dr1.fns assume=r1port
%import clist.fns assume=flatten
%import clw.fns assume=witness
%import cr1.fns
