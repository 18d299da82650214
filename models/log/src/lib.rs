//! Verification stand-in for `log`: every macro type-checks its arguments and evaluates none of
//! them (the same thing the real crate does when the level is disabled).
#[macro_export]
macro_rules! __log_off { ($($arg:tt)*) => { if false { let _ = ::core::format_args!($($arg)*); } } }
#[macro_export]
macro_rules! error { (target: $t:expr, $($arg:tt)*) => { $crate::__log_off!($($arg)*) }; ($($arg:tt)*) => { $crate::__log_off!($($arg)*) } }
#[macro_export]
macro_rules! warn { (target: $t:expr, $($arg:tt)*) => { $crate::__log_off!($($arg)*) }; ($($arg:tt)*) => { $crate::__log_off!($($arg)*) } }
#[macro_export]
macro_rules! info { (target: $t:expr, $($arg:tt)*) => { $crate::__log_off!($($arg)*) }; ($($arg:tt)*) => { $crate::__log_off!($($arg)*) } }
#[macro_export]
macro_rules! debug { (target: $t:expr, $($arg:tt)*) => { $crate::__log_off!($($arg)*) }; ($($arg:tt)*) => { $crate::__log_off!($($arg)*) } }
#[macro_export]
macro_rules! trace { (target: $t:expr, $($arg:tt)*) => { $crate::__log_off!($($arg)*) }; ($($arg:tt)*) => { $crate::__log_off!($($arg)*) } }
