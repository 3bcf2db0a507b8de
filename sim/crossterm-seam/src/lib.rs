//! The real crossterm (types and output encoding), with the device behind a seam.
pub use crossterm_real::*;

pub mod event {
    pub use crossterm_real::event::*;
    pub fn read() -> std::io::Result<Event> {
        simrt::tasks::key();
        simrt::current().read_event()
    }
    pub fn poll(timeout: std::time::Duration) -> std::io::Result<bool> {
        simrt::current().poll(timeout.as_micros() as u64)
    }
}
pub mod cursor {
    pub use crossterm_real::cursor::*;
    pub fn position() -> std::io::Result<(u16, u16)> {
        simrt::current().cursor_position()
    }
}
pub mod terminal {
    pub use crossterm_real::terminal::*;
    pub fn size() -> std::io::Result<(u16, u16)> {
        simrt::current().size()
    }
    pub fn enable_raw_mode() -> std::io::Result<()> {
        simrt::current().set_raw(true)
    }
    pub fn disable_raw_mode() -> std::io::Result<()> {
        simrt::current().set_raw(false)
    }
    pub fn is_raw_mode_enabled() -> std::io::Result<bool> {
        Ok(simrt::current().is_raw())
    }
}
