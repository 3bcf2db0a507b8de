//! What the seams (crossterm, clap, stdout) call: the hooks of the simulated
//! session that owns the current thread.
use std::cell::RefCell;
use std::io::{self, LineWriter, Write};
use std::rc::Rc;

pub use crossterm_real::event::Event;

pub trait SessionHooks {
    fn args(&self) -> Vec<String>;
    fn read_event(&self) -> io::Result<Event>;
    fn poll(&self, us: u64) -> io::Result<bool>;
    fn cursor_position(&self) -> io::Result<(u16, u16)>;
    fn size(&self) -> io::Result<(u16, u16)>;
    fn set_raw(&self, on: bool) -> io::Result<()>;
    fn is_raw(&self) -> bool;
    fn tty_write(&self, data: &[u8]) -> io::Result<usize>;
    fn err_write(&self, data: &[u8]);
    fn exit(&self, code: i32) -> !;
    fn sleep(&self, us: u64);
    /// After how many further keys a thread started now gets its turn.
    fn delay(&self) -> u32;
    /// What unwinds with this is the end of the whole process.
    fn fatal(&self, p: &(dyn std::any::Any + Send)) -> bool;
}

pub mod tasks;

pub fn sleep(d: std::time::Duration) {
    if in_session() {
        current().sleep(d.as_micros() as u64)
    } else {
        std::thread::sleep(d)
    }
}

pub type PanicHook = Box<dyn Fn(&std::panic::PanicHookInfo<'_>) + Sync + Send + 'static>;

/// Stands in for `std::panic::set_hook`: every session has its own.
pub fn set_hook(h: PanicHook) {
    HOOK.with(|c| *c.borrow_mut() = Some(h));
}
pub fn take_hook() -> PanicHook {
    let h = HOOK.with(|c| c.borrow_mut().take());
    h.unwrap_or_else(|| Box::new(|i| print_err(&format!("{i}\n"))))
}
/// What the session wants to be done first when it panics.
pub fn run_hook(i: &std::panic::PanicHookInfo<'_>) {
    let h = HOOK.with(|c| c.borrow_mut().take());
    if let Some(h) = h {
        h(i);
        HOOK.with(|c| *c.borrow_mut() = Some(h));
    }
}

thread_local! {
    static HOOK: RefCell<Option<PanicHook>> = const { RefCell::new(None) };
    static CUR: RefCell<Option<Rc<dyn SessionHooks>>> = const { RefCell::new(None) };
    static OUT: RefCell<Option<LineWriter<Tty>>> = const { RefCell::new(None) };
}

pub fn enter(h: Rc<dyn SessionHooks>) {
    HOOK.with(|c| *c.borrow_mut() = None);
    CUR.with(|c| *c.borrow_mut() = Some(h));
    OUT.with(|o| *o.borrow_mut() = Some(LineWriter::new(Tty)));
}

pub fn leave() {
    tasks::at_exit();
    // Whatever is still buffered is flushed at process exit, as std does.
    OUT.with(|o| {
        if let Some(w) = o.borrow_mut().as_mut() {
            let _ = w.flush();
        }
    });
    CUR.with(|c| *c.borrow_mut() = None);
    OUT.with(|o| {
        if let Some(w) = o.borrow_mut().take() {
            std::mem::forget(w);
        }
    });
}

pub fn current() -> Rc<dyn SessionHooks> {
    CUR.with(|c| c.borrow().clone()).expect("seam used outside a simulated session")
}

pub fn in_session() -> bool {
    CUR.try_with(|c| c.try_borrow().map(|b| b.is_some()).unwrap_or(false)).unwrap_or(false)
}

pub struct Tty;
impl Write for Tty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        current().tty_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Stands in for `std::io::Stdout`: one line-buffered writer per session.
#[derive(Clone, Copy, Debug)]
pub struct SimStdout;
pub fn stdout() -> SimStdout {
    SimStdout
}
impl SimStdout {
    pub fn lock(&self) -> SimStdoutLock<'static> {
        SimStdoutLock(std::marker::PhantomData)
    }
    pub fn is_terminal(&self) -> bool {
        true
    }
}
#[derive(Debug)]
pub struct SimStdoutLock<'a>(std::marker::PhantomData<&'a ()>);
impl SimStdoutLock<'_> {
    pub fn is_terminal(&self) -> bool {
        true
    }
}
impl Write for SimStdoutLock<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        SimStdout.write(b)
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        SimStdout.write_all(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        SimStdout.flush()
    }
}
impl Write for &SimStdout {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        with_out(|w| w.write(b))
    }
    fn flush(&mut self) -> io::Result<()> {
        with_out(|w| w.flush())
    }
}
fn with_out<R>(f: impl FnOnce(&mut LineWriter<Tty>) -> R) -> R {
    // Taken out while in use: the write may unwind (a simulated kill).
    let mut w = OUT
        .with(|o| o.borrow_mut().take())
        .expect("stdout used outside a simulated session");
    let r = f(&mut w);
    OUT.with(|o| *o.borrow_mut() = Some(w));
    r
}
impl Write for SimStdout {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        with_out(|w| w.write(b))
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        with_out(|w| w.write_all(b))
    }
    fn flush(&mut self) -> io::Result<()> {
        with_out(|w| w.flush())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct SimStderr;
pub fn stderr() -> SimStderr {
    SimStderr
}
impl SimStderr {
    pub fn lock(&self) -> SimStderrLock<'static> {
        SimStderrLock(std::marker::PhantomData)
    }
    pub fn is_terminal(&self) -> bool {
        true
    }
}
#[derive(Debug)]
pub struct SimStderrLock<'a>(std::marker::PhantomData<&'a ()>);
impl Write for SimStderrLock<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        SimStderr.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for SimStderr {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        current().err_write(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn print_out(s: &str) {
    if let Err(e) = SimStdout.write_all(s.as_bytes()) {
        panic!("failed printing to stdout: {e}");
    }
}
pub fn print_err(s: &str) {
    let _ = SimStderr.write_all(s.as_bytes());
}
pub fn exit(code: i32) -> ! {
    tasks::at_exit();
    let _ = SimStdout.flush();
    current().exit(code)
}
