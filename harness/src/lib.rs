pub mod engine;
pub mod gen;
pub mod pda;
pub mod rp;
pub mod util;
pub mod strs;
pub mod big;
pub mod deleg;
pub mod guard;
pub mod ops;
