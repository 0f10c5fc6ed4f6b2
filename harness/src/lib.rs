pub mod ast;
pub mod checks;
pub mod cov;
pub mod cpp;
pub mod eng;
pub mod gen;
pub mod heap;
pub mod llvm;
pub mod mangle;
pub mod mutate;
pub mod print;
pub mod refdem;
pub mod run;
pub mod sut;
pub mod visit;
