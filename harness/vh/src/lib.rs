//! One binary per property, so that each is built and run on its own.
pub use vint;
pub use vrun;

/// An entry running `$f::<$t>` for every type of a list.
#[macro_export]
macro_rules! entries {
    ($list:ident, $case:ty, $($f:ident)::+) => {{
        let mut v: Vec<$crate::vrun::Entry<$case>> = Vec::new();
        macro_rules! one {
            ($d:tt) => {
                macro_rules! each {
                    ($d($d t:path),*) => {$d(
                        {
                            fn go(c: &$case) -> (Result<(), String>, $crate::vrun::Seen) {
                                let mut cov = $crate::vint::Cov::default();
                                let r = $($f)::+::<$d t>(c, &mut cov);
                                (r, $crate::vrun::Seen { nontrivial: cov.nontrivial, labels: cov.labels })
                            }
                            let i = <$d t as $crate::vint::Subject>::INFO;
                            v.push($crate::vrun::Entry { name: i.name, source: i.source, run: go });
                        }
                    )*};
                }
            };
        }
        one!($);
        vtypes::$list!(each);
        v
    }};
}
