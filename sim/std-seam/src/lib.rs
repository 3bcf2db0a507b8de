//! The standard library, with standard output, standard error, process exit, sleeping,
//! panic hooks and further threads redirected.
#![allow(ambiguous_glob_reexports)]
pub use ::std::*;
pub mod io {
    pub use ::simrt::{stderr, stdout, SimStderr as Stderr, SimStdout as Stdout};
    pub use ::simrt::{SimStderrLock as StderrLock, SimStdoutLock as StdoutLock};
    pub use ::std::io::*;
}
pub mod thread {
    pub use ::simrt::tasks::{scope, spawn, JoinHandle, Scope, ScopedJoinHandle};
    pub use ::simrt::sleep;
    pub use ::std::thread::*;
}
pub mod panic {
    pub use ::simrt::{set_hook, take_hook};
    pub use ::std::panic::*;
}
pub mod process {
    pub use ::simrt::exit;
    pub use ::std::process::*;
}
