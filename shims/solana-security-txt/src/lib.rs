#[macro_export]
macro_rules! security_txt { ($($t:tt)*) => {}; }
