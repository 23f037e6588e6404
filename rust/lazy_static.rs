// Stand-in for the lazy_static crate (not available offline).
#[macro_export]
macro_rules! lazy_static {
    () => {};
    ($(#[$a:meta])* $v:vis static ref $n:ident : $t:ty = $e:expr; $($r:tt)*) => {
        $v static $n: ::std::sync::LazyLock<$t> = ::std::sync::LazyLock::new(|| $e);
        $crate::lazy_static!{$($r)*}
    };
}
