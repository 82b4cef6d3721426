#![allow(warnings)]
// The command line program of the repository, see build.rs.
include!(concat!(env!("OUT_DIR"), "/front.rs"));

/// What the runtime makes of the value that `main` returns.
pub trait Status {
    fn status(self) -> i32;
}
impl Status for () {
    fn status(self) -> i32 {
        0
    }
}
impl<E: ::std::fmt::Debug> Status for ::std::result::Result<(), E> {
    fn status(self) -> i32 {
        match self {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("Error: {:?}", e);
                1
            }
        }
    }
}

/// Runs the program with the arguments of the simulated process.
pub fn front_main() -> i32 {
    Status::status(the_main())
}
