#![allow(unused)]
pub mod columns;
pub mod adaptors;
pub mod combine;
pub mod complexes;
pub mod dense;
pub mod fields;
pub mod fp;
pub mod rational;
pub mod reduce;

macro_rules! table {
    ($($n:literal $m:ident :: $f:ident),* $(,)?) => {
        pub const TABLE: &[(&str, extern "C" fn(u64))] = &[$(#[cfg(feature = $n)] ($n, $m::$f)),*];
    };
}
table! {
    "h_field" fields::h_field, "h_field_laws" fields::h_field_laws,
    "h_col_sorted" columns::h_col_sorted, "h_col_ops" columns::h_col_ops, "h_col_entries" columns::h_col_entries,
    "h_product" combine::h_product, "h_product_assoc" combine::h_product_assoc, "h_sum" combine::h_sum, "h_wrappers" combine::h_wrappers,
    "h_adaptors" adaptors::h_adaptors, "h_reverse" adaptors::h_reverse, "h_cache" adaptors::h_cache, "h_consolidate" adaptors::h_consolidate, "h_construct" adaptors::h_construct, "h_eq_on_col" adaptors::h_eq_on_col, "h_lookup" adaptors::h_lookup,
    "h_diagram" complexes::h_diagram,
    "h_rational" rational::h_rational, "h_rational_wide" rational::h_rational_wide, "h_standard_q" rational::h_standard_q,
    "h_standard" reduce::h_standard,
}
