pub mod privilege;
pub mod rig;
pub mod step;
pub mod transp;
pub mod strict;
pub mod contention;
pub mod devices;
pub mod machine;
pub mod objfile;
pub mod os;
pub mod run;
pub mod words;
pub mod source;
