pub mod abi;
pub mod model;
pub mod ops;
pub mod reasons;
pub mod run;
pub mod world;
pub mod oracle;
pub mod probe;
pub mod market;
pub mod wire;
pub mod containers;
pub mod builders;
