// Stand-in for the if_chain crate (not available offline).
#[macro_export]
macro_rules! if_chain { ($($t:tt)*) => { $crate::chain!($($t)*) }; }
#[macro_export]
macro_rules! chain {
    (let $p:pat = $e:expr; $($r:tt)+) => { { let $p = $e; $crate::chain!($($r)+) } };
    (let $t:ident : $ty:ty = $e:expr; $($r:tt)+) => { { let $t: $ty = $e; $crate::chain!($($r)+) } };
    (if let $p:pat = $e:expr; $($r:tt)+) => { if let $p = $e { $crate::chain!($($r)+) } };
    (if $c:expr; $($r:tt)+) => { if $c { $crate::chain!($($r)+) } };
    (then $b:block else $e:block) => { $b };
    (then $b:block) => { $b };
}
