pub mod alloc;
pub mod cards_ref;
pub mod chaos;
pub mod dict;
pub mod genreg;
pub mod job;
pub mod leaf;
pub mod mem;
pub mod meta;
pub mod mutate;
pub mod native;
pub mod store;
pub mod sut;
pub mod tape;
pub mod walk;
pub mod props;
pub mod runner;
