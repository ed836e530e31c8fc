#[macro_export]
macro_rules! default_env { ($a:expr, $b:expr) => { $b }; }
