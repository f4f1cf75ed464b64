//! Offline stand-in for dfinity/ic `ic-utils-ensure`.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $msg:expr $(,)?) => {
        if !$cond {
            return Err(format!("Condition {} is false: {}", stringify!($cond), $msg));
        }
    };
    ($cond:expr, $fmt:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!("Condition {} is false: {}", stringify!($cond), format!($fmt, $($arg)*)));
        }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($lhs:expr, $rhs:expr $(,)?) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?})", stringify!($lhs), $lhs, stringify!($rhs), $rhs));
        }
    };
    ($lhs:expr, $rhs:expr, $msg:expr $(,)?) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?}): {}", stringify!($lhs), $lhs, stringify!($rhs), $rhs, $msg));
        }
    };
    ($lhs:expr, $rhs:expr, $fmt:expr, $($arg:tt)*) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) != {} ({:?}): {}", stringify!($lhs), $lhs, stringify!($rhs), $rhs, format!($fmt, $($arg)*)));
        }
    };
}
