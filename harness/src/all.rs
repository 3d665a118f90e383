//! The harnesses, by property.
#![allow(unused_imports)]

macro_rules! harnesses {
    ($($name:ident => $f:expr;)*) => {
        $(
            #[no_mangle]
            pub extern "C-unwind" fn $name() {
                $f()
            }
        )*
        #[allow(dead_code)]
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($name), || $f())),*]
        }
    };
}

pub mod client;
pub mod decode;
pub mod history;
pub mod more;
pub mod roundtrip;
pub mod sizes;
pub mod structs;
pub mod survive;

#[allow(dead_code)]
pub fn table() -> Vec<(&'static str, fn())> {
    let mut v = vec![];
    v.extend(client::table());
    v.extend(decode::table());
    v.extend(history::table());
    v.extend(more::table());
    v.extend(roundtrip::table());
    v.extend(sizes::table());
    v.extend(structs::table());
    v.extend(survive::table());
    v
}
