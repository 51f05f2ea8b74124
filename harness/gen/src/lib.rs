#![allow(warnings)]
#![recursion_limit = "512"]
include!(concat!(env!("VF_GEN"), "/lib.rs"));
