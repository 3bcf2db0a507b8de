//! Terminal emulator: the screen a user would see.
#[derive(Clone, Debug, Default)]
pub struct Row {
    pub cells: Vec<u8>,
    /// The text continues on the next row because the terminal wrapped it.
    pub wrapped: bool,
}

#[derive(Clone, Debug)]
pub struct Screen {
    /// Rows that scrolled off, then the visible ones: row index is absolute.
    pub rows: Vec<Row>,
    pub top: usize,
    pub cx: usize,
    pub cy: usize, // relative to top
    pub pending: bool,
}

#[derive(Clone, Debug)]
pub struct Term {
    pub cols: usize,
    pub height: usize,
    pub main: Screen,
    pub alt: Option<Screen>,
    esc: Option<Vec<u8>>,
    pub raw: bool,
    pub bytes: u64,
    pub unknown: u64,
    pub oob_moves: u64,
}

impl Screen {
    fn new(cols: usize, height: usize) -> Screen {
        let _ = cols;
        Screen { rows: vec![Row::default(); height], top: 0, cx: 0, cy: 0, pending: false }
    }
    fn row(&mut self) -> &mut Row {
        let i = self.top + self.cy;
        &mut self.rows[i]
    }
    pub fn text(&self, abs: usize) -> String {
        match self.rows.get(abs) {
            None => String::new(),
            Some(r) => String::from_utf8_lossy(&r.cells).into_owned(),
        }
    }
    pub fn abs_cursor(&self) -> usize {
        self.top + self.cy
    }
}

impl Term {
    pub fn new(cols: u16, rows: u16) -> Term {
        Term {
            cols: cols as usize,
            height: rows as usize,
            main: Screen::new(cols as usize, rows as usize),
            alt: None,
            esc: None,
            raw: false,
            bytes: 0,
            unknown: 0,
            oob_moves: 0,
        }
    }
    pub fn cur(&mut self) -> &mut Screen {
        match &mut self.alt {
            Some(a) => a,
            None => &mut self.main,
        }
    }
    pub fn scr(&self) -> &Screen {
        match &self.alt {
            Some(a) => a,
            None => &self.main,
        }
    }
    pub fn resize(&mut self, cols: u16, rows: u16) {
        let (c, h) = (cols as usize, rows as usize);
        self.cols = c;
        self.height = h;
        for s in [Some(&mut self.main), self.alt.as_mut()].into_iter().flatten() {
            for r in s.rows.iter_mut().skip(s.top) {
                r.cells.truncate(c);
            }
            // Keep the cursor row on the screen.
            if s.cy >= h {
                s.top += s.cy + 1 - h;
                s.cy = h - 1;
            }
            s.rows.truncate((s.top + h).max(s.abs_cursor() + 1));
            while s.rows.len() < s.top + h {
                s.rows.push(Row::default());
            }
            s.cx = s.cx.min(c - 1);
            s.pending = false;
        }
    }
    pub fn feed(&mut self, b: &[u8]) {
        for &x in b {
            self.byte(x);
        }
        self.bytes += b.len() as u64;
    }
    fn byte(&mut self, x: u8) {
        if let Some(mut e) = self.esc.take() {
            e.push(x);
            if e.len() == 1 {
                match x {
                    b'[' => self.esc = Some(e),
                    b'7' | b'8' | b'c' | b'=' | b'>' => {}
                    _ => self.unknown += 1,
                }
                return;
            }
            if (0x40..=0x7e).contains(&x) {
                self.csi(&e[1..]);
            } else if e.len() < 64 {
                self.esc = Some(e);
            }
            return;
        }
        match x {
            0x1b => self.esc = Some(Vec::new()),
            b'\n' => {
                if !self.raw {
                    self.cur().cx = 0;
                    self.cur().pending = false;
                }
                self.linefeed();
            }
            b'\r' => {
                let s = self.cur();
                s.cx = 0;
                s.pending = false;
            }
            0x08 => {
                let s = self.cur();
                s.cx = s.cx.saturating_sub(1);
                s.pending = false;
            }
            b'\t' => {
                let c = self.cols;
                let s = self.cur();
                s.cx = ((s.cx / 8 + 1) * 8).min(c - 1);
                s.pending = false;
            }
            0..=0x1f | 0x7f => {}
            _ => self.put(x),
        }
    }
    fn linefeed(&mut self) {
        let h = self.height;
        let s = self.cur();
        if s.cy + 1 < h {
            s.cy += 1;
        } else {
            s.top += 1;
        }
        while s.rows.len() < s.top + h {
            s.rows.push(Row::default());
        }
    }
    fn put(&mut self, x: u8) {
        let c = self.cols;
        if self.cur().pending {
            self.cur().row().wrapped = true;
            self.cur().cx = 0;
            self.cur().pending = false;
            self.linefeed();
        }
        let s = self.cur();
        let cx = s.cx;
        let r = s.row();
        if r.cells.len() <= cx {
            r.cells.resize(cx + 1, b' ');
        }
        r.cells[cx] = x;
        if cx + 1 < c {
            s.cx += 1;
        } else {
            s.pending = true;
        }
    }
    fn csi(&mut self, e: &[u8]) {
        let fin = e[e.len() - 1];
        let body = String::from_utf8_lossy(&e[..e.len() - 1]).into_owned();
        let (c, h) = (self.cols, self.height);
        if let Some(p) = body.strip_prefix('?') {
            let n: u32 = p.parse().unwrap_or(0);
            if n == 1049 || n == 47 || n == 1047 {
                if fin == b'h' && self.alt.is_none() {
                    let mut s = Screen::new(c, h);
                    // xterm keeps the cursor position when switching.
                    s.cx = self.main.cx;
                    s.cy = self.main.cy;
                    self.alt = Some(s);
                } else if fin == b'l' {
                    self.alt = None;
                }
            }
            return;
        }
        let p: Vec<usize> = body.split(';').map(|s| s.parse().unwrap_or(0)).collect();
        let n1 = p[0].max(1);
        let mut oob = false;
        let s = self.cur();
        match fin {
            b'G' => {
                oob = n1 > c;
                s.cx = (n1 - 1).min(c - 1);
                s.pending = false;
            }
            b'H' | b'f' => {
                let col = p.get(1).copied().unwrap_or(1).max(1);
                oob = n1 > h || col > c;
                s.cy = (n1 - 1).min(h - 1);
                s.cx = (col - 1).min(c - 1);
                s.pending = false;
            }
            b'A' => {
                s.cy = s.cy.saturating_sub(n1);
                s.pending = false;
            }
            b'B' => {
                s.cy = (s.cy + n1).min(h - 1);
                s.pending = false;
            }
            b'C' => {
                s.cx = (s.cx + n1).min(c - 1);
                s.pending = false;
            }
            b'D' => {
                s.cx = s.cx.saturating_sub(n1);
                s.pending = false;
            }
            b'E' => {
                s.cy = (s.cy + n1).min(h - 1);
                s.cx = 0;
                s.pending = false;
            }
            b'F' => {
                s.cy = s.cy.saturating_sub(n1);
                s.cx = 0;
                s.pending = false;
            }
            b'd' => {
                s.cy = (n1 - 1).min(h - 1);
                s.pending = false;
            }
            b'K' => {
                let cx = s.cx;
                let r = s.row();
                match p[0] {
                    0 => r.cells.truncate(cx),
                    1 => {
                        for k in 0..=cx.min(r.cells.len().saturating_sub(1)) {
                            if k < r.cells.len() {
                                r.cells[k] = b' ';
                            }
                        }
                    }
                    _ => r.cells.clear(),
                }
                r.wrapped = false;
            }
            b'J' => {
                let (top, cy, cx) = (s.top, s.cy, s.cx);
                match p[0] {
                    0 => {
                        let r = s.row();
                        r.cells.truncate(cx);
                        r.wrapped = false;
                        for k in top + cy + 1..s.rows.len() {
                            s.rows[k] = Row::default();
                        }
                    }
                    1 => {
                        for k in top..top + cy {
                            s.rows[k] = Row::default();
                        }
                    }
                    _ => {
                        for k in top..s.rows.len() {
                            s.rows[k] = Row::default();
                        }
                    }
                }
            }
            b'S' => {
                // Scroll up: the content moves, the cursor does not.
                s.top += n1;
                while s.rows.len() < s.top + h {
                    s.rows.push(Row::default());
                }
            }
            b'm' | b'h' | b'l' | b'q' | b'r' | b'n' => {}
            _ => self.unknown += 1,
        }
        if oob {
            self.oob_moves += 1;
        }
    }

    /// The logical lines between two absolute rows (soft-wrapped rows joined).
    pub fn logical(&self, from: usize, to: usize) -> Vec<String> {
        let s = self.scr();
        let mut out: Vec<String> = Vec::new();
        let mut cont = false;
        for r in from..to {
            let t = s.text(r);
            if cont {
                out.last_mut().unwrap().push_str(&t);
            } else {
                out.push(t);
            }
            cont = s.rows.get(r).map(|x| x.wrapped).unwrap_or(false);
        }
        out
    }
}
