#![allow(non_snake_case, dead_code, unused_imports)]
pub mod api;
pub mod g;
#[cfg(feature = "smoke")] pub mod smoke;
#[cfg(feature = "tv")] pub mod tv;
#[cfg(feature = "stamp")] pub mod stamp;
#[cfg(feature = "term")] pub mod term;
#[cfg(feature = "unify")] pub mod unify;
#[cfg(feature = "rules")] pub mod rules;
#[cfg(feature = "evid")] pub mod evid;
#[cfg(feature = "mem")] pub mod mem;
#[cfg(feature = "task")] pub mod task;
#[cfg(feature = "cyc")] pub mod cyc;
#[cfg(feature = "parse")] pub mod parse;
#[cfg(feature = "goal")] pub mod goal;
#[cfg(feature = "proc_")] pub mod proc_;
#[cfg(feature = "input")] pub mod input;
#[cfg(feature = "num")] pub mod num;
#[cfg(feature = "text")] pub mod text;
include!(concat!(env!("OUT_DIR"), "/entries.rs"));
