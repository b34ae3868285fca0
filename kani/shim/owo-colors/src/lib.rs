//! Assumed contract of the `owo-colors` dependency: colouring a value yields the value.
#![no_std]
macro_rules! m { ($($n:ident)*) => { pub trait OwoColorize { $(fn $n(&self) -> &Self { self })* } } }
m!(red green blue yellow cyan magenta white black dimmed bold bright_black bright_red bright_green bright_blue bright_yellow bright_cyan bright_magenta purple underline italic);
impl<T: ?Sized> OwoColorize for T {}
