pub mod dict;
pub mod funcs;
pub mod gen;
pub mod model;
pub mod props;
pub mod run;
pub mod src;
pub mod uut;
