#![allow(unused)]
pub mod diagrams;
pub mod indices;
pub mod matrices;
#[cfg(feature = "h_rips_program")]
pub mod program;

macro_rules! table {
    ($($n:literal $m:ident :: $f:ident),* $(,)?) => {
        pub const TABLE: &[(&str, extern "C" fn(u64))] = &[$(#[cfg(feature = $n)] ($n, $m::$f)),*];
    };
}
table! {
    "h_rips_index" indices::h_rips_index,
    "h_rips_bases" indices::h_rips_bases,
    "h_rips_matrices" matrices::h_rips_matrices,
    "h_rips_values" matrices::h_rips_values,
    "h_rips_program" program::h_rips_program,
    "h_rips_diagram" diagrams::h_rips_diagram,
}
