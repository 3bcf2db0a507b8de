//! Threads the program starts. They run on the session's own thread: when they are joined, or
//! after a number of further keys that the simulator draws, or never (the process ends first).
use super::current;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Outcome<T> = Result<T, Box<dyn Any + Send>>;

struct Task<T> {
    body: RefCell<Option<Box<dyn FnOnce() -> T>>>,
    out: RefCell<Option<Outcome<T>>>,
}
trait Runs {
    fn run(&self);
}
impl<T> Runs for Task<T> {
    fn run(&self) {
        let body = self.body.borrow_mut().take();
        if let Some(f) = body {
            let r = catch_unwind(AssertUnwindSafe(f));
            if let Err(p) = &r {
                if current().fatal(p.as_ref()) {
                    resume_unwind(r.err().unwrap());
                }
            }
            *self.out.borrow_mut() = Some(r);
        }
    }
}

thread_local! {
    static PENDING: RefCell<Vec<(Cell<u32>, Rc<dyn Runs>)>> = const { RefCell::new(Vec::new()) };
}

pub struct JoinHandle<T>(Rc<Task<T>>);
// A session has one thread.
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Outcome<T> {
        self.0.run();
        let r = self.0.out.borrow_mut().take();
        r.expect("thread joined from within itself")
    }
    pub fn is_finished(&self) -> bool {
        self.0.body.borrow().is_none()
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let n = current().delay();
    let t = Rc::new(Task { body: RefCell::new(Some(Box::new(f))), out: RefCell::new(None) });
    if n == 0 {
        t.run();
    } else {
        PENDING.with(|p| p.borrow_mut().push((Cell::new(n), t.clone())));
    }
    JoinHandle(t)
}

/// Called for every key.
pub fn key() {
    let due: Vec<Rc<dyn Runs>> = PENDING.with(|p| {
        let mut p = p.borrow_mut();
        let mut due = Vec::new();
        p.retain(|(n, t)| {
            n.set(n.get() - 1);
            if n.get() == 0 {
                due.push(t.clone());
            }
            n.get() > 0
        });
        due
    });
    for t in due {
        t.run();
    }
}

/// The process ends: what has not had its turn is gone.
pub fn at_exit() {
    let left = PENDING.with(|p| std::mem::take(&mut *p.borrow_mut()));
    // Not dropped: an exit runs no destructors of other threads.
    std::mem::forget(left);
}

pub struct Scope<'scope, 'env: 'scope>(PhantomData<&'scope mut &'scope ()>, PhantomData<&'env mut &'env ()>);
pub struct ScopedJoinHandle<'scope, T>(Outcome<T>, PhantomData<&'scope ()>);
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Outcome<T> {
        self.0
    }
    pub fn is_finished(&self) -> bool {
        true
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Err(p) = &r {
            if current().fatal(p.as_ref()) {
                resume_unwind(r.err().unwrap());
            }
        }
        ScopedJoinHandle(r, PhantomData)
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    f(&Scope(PhantomData, PhantomData))
}
