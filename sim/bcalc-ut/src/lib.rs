//! The program under test: /repo/src/main.rs and its modules, unchanged, as a library.
//! Only names are redirected: standard output/error and process exit of the simulated session.
#![allow(unused_imports, dead_code, unused_macros)]

macro_rules! println {
    () => { ::simrt::print_out("\n") };
    ($($t:tt)*) => { ::simrt::print_out(&(format!($($t)*) + "\n")) };
}
macro_rules! print {
    ($($t:tt)*) => { ::simrt::print_out(&format!($($t)*)) };
}
macro_rules! eprintln {
    () => { ::simrt::print_err("\n") };
    ($($t:tt)*) => { ::simrt::print_err(&(format!($($t)*) + "\n")) };
}
macro_rules! eprint {
    ($($t:tt)*) => { ::simrt::print_err(&format!($($t)*)) };
}

extern crate std_seam as std;

include!(concat!(env!("BCALC_SRC"), "/main.rs"));

/// Runs `main`; an error is what the runtime would print before exiting with status 1.
pub fn run_main() -> Result<(), String> {
    let r = main();
    <_ as ProgramResult>::into_result(r)
}

trait ProgramResult {
    fn into_result(self) -> Result<(), String>;
}
impl ProgramResult for () {
    fn into_result(self) -> Result<(), String> {
        Ok(())
    }
}
impl ProgramResult for ::std::process::ExitCode {
    fn into_result(self) -> Result<(), String> {
        match format!("{self:?}") == format!("{:?}", ::std::process::ExitCode::SUCCESS) {
            true => Ok(()),
            false => Err(format!("{self:?}")),
        }
    }
}
impl<E: std::fmt::Debug> ProgramResult for Result<(), E> {
    fn into_result(self) -> Result<(), String> {
        self.map_err(|e| format!("{e:?}"))
    }
}
