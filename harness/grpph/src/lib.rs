#![allow(unused, unexpected_cfgs)]
pub mod bars;
pub mod cells;
pub mod digraphs;
#[cfg(feature = "h_grpph_filtration")]
pub mod filtration;

macro_rules! table {
    ($($n:literal $m:ident :: $f:ident),* $(,)?) => {
        pub const TABLE: &[(&str, extern "C" fn(u64))] = &[$(#[cfg(feature = $n)] ($n, $m::$f)),*];
    };
}
table! {
    "h_grpph_filtration" filtration::h_grpph_filtration,
    "h_grpph_cells" cells::h_grpph_cells,
    "h_grpph_bars" bars::h_grpph_bars,
    "h_grpph_entry" bars::h_grpph_entry,
    "h_grpph_reps" bars::h_grpph_reps,
}
