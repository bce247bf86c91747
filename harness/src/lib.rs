pub mod alloc;
pub mod bad;
pub mod cost;
pub mod dict;
pub mod exact;
pub mod gen;
pub mod hostile;
pub mod memory;
pub mod mtl;
pub mod obj;
pub mod outcome;
pub mod props;
pub mod report;
pub mod silent;
pub mod spy;
pub mod src;
pub mod strings;
pub mod supervise;
pub mod types;
pub mod worker;
