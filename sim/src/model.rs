//! Reference models, written from the protocol description: command line recogniser, message body
//! encoding and decoding, reply splitting, and the sequential session model.
use std::net::{Ipv4Addr, Ipv6Addr};

// ------------------------------------------------------------------ command lines

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Line {
    Mail(Option<Vec<u8>>), // canonical wire form of the address
    Rcpt(Vec<u8>),
    Data,
    Other,
    Bad,
}

/// The local part of an address as written, and with its quoting undone
pub fn local_part(wire: &[u8]) -> (&[u8], Vec<u8>) {
    if wire.first() != Some(&b'"') {
        let n = wire.iter().position(|&b| b == b'@').unwrap_or(wire.len());
        return (&wire[..n], wire[..n].to_vec());
    }
    let mut v = Vec::new();
    let mut i = 1;
    while i < wire.len() && wire[i] != b'"' {
        if wire[i] == b'\\' {
            i += 1;
        }
        v.push(wire[i]);
        i += 1;
    }
    (&wire[..i + 1], v)
}

fn alnum(b: u8) -> bool {
    b.is_ascii_alphanumeric()
}
fn atext(b: u8) -> bool {
    alnum(b) || b"!#$%&'*+-/=?^_`{|}~".contains(&b)
}
fn sp(b: u8) -> bool {
    b == b' ' || b == b'\t'
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).cloned()
    }
    fn eat(&mut self, b: u8) -> bool {
        if self.peek() == Some(b) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn kw(&mut self, k: &[u8]) -> bool {
        if self.s.len() >= self.i + k.len() && self.s[self.i..self.i + k.len()].eq_ignore_ascii_case(k) {
            self.i += k.len();
            true
        } else {
            false
        }
    }
    fn spaces(&mut self) {
        while self.peek().map_or(false, sp) {
            self.i += 1;
        }
    }
    fn at_end(&self) -> bool {
        &self.s[self.i..] == b"\r\n"
    }
    fn host(&mut self) -> Option<Vec<u8>> {
        let start = self.i;
        if self.peek().map_or(false, alnum) {
            loop {
                // one label; the caller's cursor is at an alphanumeric
                self.i += 1;
                while self.peek().map_or(false, |b| alnum(b) || b == b'-') {
                    self.i += 1;
                }
                if self.peek() == Some(b'.') && self.s.get(self.i + 1).map_or(false, |&b| alnum(b)) {
                    self.i += 1;
                } else {
                    return Some(self.s[start..self.i].to_vec());
                }
            }
        }
        if self.peek() == Some(b'[') {
            if let Some(e) = self.s[start..].iter().position(|&b| b == b']') {
                let inner = &self.s[start + 1..start + e];
                let txt = std::str::from_utf8(inner).ok()?;
                let r = if let Some(v6) = txt.strip_prefix("IPv6:") {
                    v6.parse::<Ipv6Addr>().ok().map(|a| format!("[IPv6:{}]", a))
                } else {
                    txt.parse::<Ipv4Addr>().ok().map(|a| format!("[{}]", a))
                };
                if let Some(r) = r {
                    self.i = start + e + 1;
                    return Some(r.into_bytes());
                }
            }
        }
        None
    }
    fn local(&mut self) -> Option<Vec<u8>> {
        let start = self.i;
        if self.peek() == Some(b'"') {
            self.i += 1;
            loop {
                match self.peek() {
                    Some(b'"') => {
                        self.i += 1;
                        return Some(self.s[start..self.i].to_vec());
                    }
                    Some(b'\\') if self.s.get(self.i + 1).map_or(false, |&b| (32..=126).contains(&b)) => self.i += 2,
                    Some(b) if (32..=126).contains(&b) && b != b'\\' => self.i += 1,
                    _ => {
                        self.i = start;
                        return None;
                    }
                }
            }
        }
        if !self.peek().map_or(false, atext) {
            return None;
        }
        loop {
            while self.peek().map_or(false, atext) {
                self.i += 1;
            }
            if self.peek() == Some(b'.') && self.s.get(self.i + 1).map_or(false, |&b| atext(b)) {
                self.i += 1;
            } else {
                return Some(self.s[start..self.i].to_vec());
            }
        }
    }
    fn email(&mut self) -> Option<Vec<u8>> {
        let mut r = self.local()?;
        let save = self.i;
        if self.eat(b'@') {
            match self.host() {
                Some(h) => {
                    r.push(b'@');
                    r.extend(h);
                }
                None => self.i = save,
            }
        }
        Some(r)
    }
    fn route(&mut self) {
        // optional, possibly empty list of @host separated by commas, then a colon
        let save = self.i;
        let mut first = true;
        loop {
            let here = self.i;
            if !first && !self.eat(b',') {
                break;
            }
            if !self.eat(b'@') || self.host().is_none() {
                self.i = here;
                break;
            }
            first = false;
        }
        if !self.eat(b':') {
            self.i = save;
        }
    }
    fn path(&mut self) -> Option<Vec<u8>> {
        let save = self.i;
        if self.eat(b'<') {
            self.route();
            if let Some(e) = self.email() {
                if self.eat(b'>') {
                    return Some(e);
                }
            }
            self.i = save;
            return None;
        }
        self.route();
        let r = self.email();
        if r.is_none() {
            self.i = save;
        }
        r
    }
    fn params(&mut self) {
        loop {
            let save = self.i;
            if !self.peek().map_or(false, sp) {
                return;
            }
            self.spaces();
            if !self.peek().map_or(false, alnum) {
                self.i = save;
                return;
            }
            while self.peek().map_or(false, |b| alnum(b) || b == b'-') {
                self.i += 1;
            }
            if self.peek() == Some(b'=') {
                let g = |b: u8| (33..=126).contains(&b) && b != b'=';
                if self.s.get(self.i + 1).map_or(false, |&b| g(b)) {
                    self.i += 1;
                    while self.peek().map_or(false, g) {
                        self.i += 1;
                    }
                }
            }
        }
    }
}

/// `s` is a line up to and including its first CRLF
pub fn classify(s: &[u8]) -> Line {
    let mut p = P { s, i: 0 };
    if p.kw(b"DATA") || p.kw(b"QUIT") || p.kw(b"RSET") {
        let d = s[..4].eq_ignore_ascii_case(b"DATA");
        p.spaces();
        return if !p.at_end() {
            Line::Bad
        } else if d {
            Line::Data
        } else {
            Line::Other
        };
    }
    if p.kw(b"EXPN") || p.kw(b"VRFY") {
        return if p.peek().map_or(false, sp) { Line::Other } else { Line::Bad };
    }
    if p.kw(b"HELP") || p.kw(b"NOOP") {
        return Line::Other;
    }
    if p.kw(b"MAIL FROM:") {
        p.spaces();
        let save = p.i;
        let from = if p.eat(b'<') && p.eat(b'>') {
            None
        } else {
            p.i = save;
            match p.path() {
                Some(e) => Some(e),
                None => return Line::Bad,
            }
        };
        p.params();
        p.spaces();
        return if p.at_end() { Line::Mail(from) } else { Line::Bad };
    }
    if p.kw(b"RCPT TO:") {
        p.spaces();
        let to = match p.path() {
            Some(e) => e,
            None => return Line::Bad,
        };
        p.params();
        p.spaces();
        return if p.at_end() { Line::Rcpt(to) } else { Line::Bad };
    }
    p.spaces();
    if p.kw(b"EHLO") || p.kw(b"HELO") {
        p.spaces();
        if p.host().is_none() {
            return Line::Bad;
        }
        p.spaces();
        return if p.at_end() { Line::Other } else { Line::Bad };
    }
    Line::Bad
}

// ------------------------------------------------------------------ message body

/// Dot-stuffed encoding of a body, without the terminator
pub fn encode(body: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(body.len() + 8);
    for (i, &b) in body.iter().enumerate() {
        if b == b'.' && (i == 0 || (i >= 2 && &body[i - 2..i] == b"\r\n")) {
            out.push(b'.');
        }
        out.push(b);
    }
    out
}
pub fn ends_line(body: &[u8]) -> bool {
    body.is_empty() || body.ends_with(b"\r\n")
}
/// Encoding with terminator
pub fn encode_full(body: &[u8]) -> Vec<u8> {
    let mut out = encode(body);
    if !ends_line(body) {
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b".\r\n");
    out
}
/// What the receiver must recover
pub fn delivered(body: &[u8]) -> Vec<u8> {
    let mut b = body.to_vec();
    if !ends_line(body) {
        b.extend_from_slice(b"\r\n");
    }
    b
}

pub struct Decoded {
    pub body: Vec<u8>,
    /// offset just after the terminator, if it is there
    pub end: Option<usize>,
}
/// Decode a wire body line by line. Without a terminator, `body` is what is determined so far:
/// a trailing "." or ".\r" at the start of a line is undecided and not included.
pub fn decode(w: &[u8]) -> Decoded {
    let mut body = Vec::new();
    let mut i = 0;
    loop {
        // i is at the beginning of a line
        if w[i..].starts_with(b".\r\n") {
            return Decoded { body, end: Some(i + 3) };
        }
        let rest = &w[i..];
        if rest == b"." || rest == b".\r" {
            return Decoded { body, end: None };
        }
        let skip = if rest.first() == Some(&b'.') { 1 } else { 0 };
        match rest.windows(2).position(|x| x == b"\r\n") {
            Some(p) => {
                // a dot followed directly by CRLF has been handled above
                body.extend_from_slice(&rest[skip..p + 2]);
                i += p + 2;
            }
            None => {
                body.extend_from_slice(&rest[skip..]);
                return Decoded { body, end: None };
            }
        }
    }
}

// ------------------------------------------------------------------ replies

/// Split a byte stream into complete reply lines; returns lines (without CRLF) and the rest
pub fn reply_lines(w: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut v = Vec::new();
    let mut r = w;
    while let Some(p) = r.windows(2).position(|x| x == b"\r\n") {
        v.push(&r[..p]);
        r = &r[p + 2..];
    }
    (v, r)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reply {
    pub code: u16,
    pub text: Vec<u8>,
}

/// Strict parse of a sequence of replies; Err describes the first malformation
pub fn parse_replies(w: &[u8]) -> Result<(Vec<Reply>, usize), String> {
    let (lines, rest) = reply_lines(w);
    let mut out = Vec::new();
    let mut cur: Option<Reply> = None;
    let mut off = 0;
    let mut done = 0;
    for l in lines {
        off += l.len() + 2;
        if l.len() + 2 > 512 {
            return Err(format!("reply line of {} bytes", l.len() + 2));
        }
        if l.len() < 4 || !l[..3].iter().all(|b| b.is_ascii_digit()) || (l[3] != b' ' && l[3] != b'-') {
            return Err(format!("malformed reply line {:?}", show(l)));
        }
        if let Some(b) = l[4..].iter().find(|&&b| !(b == 9 || (32..=126).contains(&b))) {
            return Err(format!("byte {} in a reply text", b));
        }
        let code = (l[0] - b'0') as u16 * 100 + (l[1] - b'0') as u16 * 10 + (l[2] - b'0') as u16;
        let r = cur.get_or_insert(Reply { code, text: Vec::new() });
        if r.code != code {
            return Err(format!("code changes from {} to {} inside a reply", r.code, code));
        }
        r.text.extend_from_slice(&l[4..]);
        if l[3] == b' ' {
            out.push(cur.take().unwrap());
            done = off;
        }
    }
    let _ = rest;
    Ok((out, done))
}

fn show(b: &[u8]) -> String {
    crate::sim::show(b)
}

// ------------------------------------------------------------------ session

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    NewMail,
    From { from: Option<Vec<u8>>, user: u64 },
    To { to: Vec<u8>, from: Option<Vec<u8>>, rcpts: Vec<Vec<u8>>, user: u64 },
    Data { from: Option<Vec<u8>>, rcpts: Vec<Vec<u8>>, user: u64 },
    Handle { from: Option<Vec<u8>>, rcpts: Vec<Vec<u8>>, user: u64 },
}

#[derive(Clone, Debug)]
pub struct Verdict {
    pub reject: Option<(u16, Vec<u8>)>,
    /// rewrite applied by the filter before it answers
    pub rewrite: Rewrite,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Rewrite {
    None,
    /// replace the address under consideration
    Addr(Vec<u8>),
    /// sender filter: make it the empty sender
    Null,
    /// recipient or data filter: replace the sender of the transaction
    MetaFrom(Vec<u8>),
    /// recipient and data filter: drop the last recipient accepted so far (if there are several)
    DropLast,
    /// recipient and data filter: add a recipient (the expansion of an alias)
    AddRcpt(Vec<u8>),
}

#[derive(Clone)]
pub struct Texts {
    pub welcome: Reply,
    pub mail_ok: Reply,
    pub rcpt_ok: Reply,
    pub data_ok: Reply,
    pub accepted: Reply,
    pub in_mail: Reply,
    pub rcpt_first: Reply,
    pub data_no_rcpt: Reply,
    pub data_no_mail: Reply,
    pub unimpl: Reply,
    pub unrec: Reply,
}

#[derive(Clone, Debug, PartialEq, Eq, Copy)]
pub enum Kind {
    Greeting,
    Plain,
    GoAhead,
    Final { accepted: bool, complete: bool },
}

#[derive(Clone, Debug)]
pub enum Exp {
    Reply { r: Reply, kind: Kind, /// input offset by which this reply is due
            due: usize },
    Call { c: Call, due: usize },
    /// the handler of the preceding Handle call finishes
    Handled { body: Vec<u8>, complete: bool, accepted: bool },
}

/// Which optional callbacks the embedder overrides
#[derive(Clone, Copy, Debug)]
pub struct Profile {
    pub new_mail: bool,
    pub data_filter: bool,
}

pub struct ModelOut {
    pub exp: Vec<Exp>,
    pub commands: u64,
    pub mails: u64,
    /// bytes consumed by complete commands and messages
    pub consumed: usize,
    pub mid_data: bool,
    pub state_hash: u64,
}

pub const INCOMPLETE: (u16, &[u8]) = (451, b"incomplete message");

/// The whole session as a sequential function of the bytes received (up to end of input) and of
/// the embedder's verdicts (consumed one per callback that takes a decision).
pub fn session(input: &[u8], texts: &Texts, prof: Profile, verdict: &mut dyn FnMut(usize) -> Verdict) -> ModelOut {
    let mut exp = vec![Exp::Reply { r: texts.welcome.clone(), kind: Kind::Greeting, due: 0 }];
    let mut tx: Option<(Option<Vec<u8>>, Vec<Vec<u8>>)> = None;
    let mut i = 0;
    let mut nv = 0;
    let mut user = 0;
    let (mut commands, mut mails) = (0, 0);
    let mut mid_data = false;
    let mut sh = 0u64;
    macro_rules! next_verdict {
        () => {{
            let v = verdict(nv);
            nv += 1;
            user += 1;
            v
        }};
    }
    while let Some(p) = input[i..].windows(2).position(|x| x == b"\r\n") {
        let line = &input[i..i + p + 2];
        i += p + 2;
        commands += 1;
        let cl = classify(line);
        sh = crate::tape::mix(
            sh ^ match cl {
                Line::Mail(_) => 1,
                Line::Rcpt(_) => 2,
                Line::Data => 3,
                Line::Other => 4,
                Line::Bad => 5,
            } ^ match tx {
                None => 0,
                Some((_, ref v)) => 0x10 + v.len().min(3) as u64 * 0x10,
            },
        );
        let due = i;
        let plain = |exp: &mut Vec<Exp>, r: &Reply| exp.push(Exp::Reply { r: r.clone(), kind: Kind::Plain, due });
        let rej = |x: &(u16, Vec<u8>)| Reply { code: x.0, text: x.1.clone() };
        match cl {
            Line::Bad => plain(&mut exp, &texts.unrec),
            Line::Other => plain(&mut exp, &texts.unimpl),
            Line::Mail(from) => {
                if tx.is_some() {
                    plain(&mut exp, &texts.in_mail);
                } else {
                    if prof.new_mail {
                        exp.push(Exp::Call { c: Call::NewMail, due });
                    }
                    exp.push(Exp::Call { c: Call::From { from: from.clone(), user }, due });
                    let v = next_verdict!();
                    let mut from = from;
                    match v.rewrite {
                        Rewrite::Addr(a) => from = Some(a),
                        Rewrite::Null => from = None,
                        _ => (),
                    }
                    match v.reject {
                        None => {
                            plain(&mut exp, &texts.mail_ok);
                            tx = Some((from, Vec::new()));
                        }
                        Some(ref x) => plain(&mut exp, &rej(x)),
                    }
                }
            }
            Line::Rcpt(to) => {
                if let Some((ref mut from, ref mut rc)) = tx {
                    exp.push(Exp::Call { c: Call::To { to: to.clone(), from: from.clone(), rcpts: rc.clone(), user }, due });
                    let v = next_verdict!();
                    let mut to = to;
                    match v.rewrite {
                        Rewrite::Addr(a) => to = a,
                        Rewrite::MetaFrom(a) => *from = Some(a),
                        Rewrite::AddRcpt(a) => rc.push(a),
                        Rewrite::DropLast if rc.len() > 1 => {
                            rc.pop();
                        }
                        _ => (),
                    }
                    match v.reject {
                        None => {
                            rc.push(to);
                            plain(&mut exp, &texts.rcpt_ok);
                        }
                        Some(ref x) => plain(&mut exp, &rej(x)),
                    }
                } else {
                    plain(&mut exp, &texts.rcpt_first);
                }
            }
            Line::Data => match tx.take() {
                None => plain(&mut exp, &texts.data_no_mail),
                Some((from, rc)) if rc.is_empty() => {
                    plain(&mut exp, &texts.data_no_rcpt);
                    tx = Some((from, rc));
                }
                Some((mut from, mut rc)) => {
                    let v = if prof.data_filter {
                        exp.push(Exp::Call { c: Call::Data { from: from.clone(), rcpts: rc.clone(), user }, due });
                        next_verdict!()
                    } else {
                        Verdict { reject: None, rewrite: Rewrite::None }
                    };
                    match v.rewrite {
                        Rewrite::MetaFrom(a) => from = Some(a),
                        Rewrite::AddRcpt(a) => rc.push(a),
                        Rewrite::DropLast if rc.len() > 1 => {
                            rc.pop();
                        }
                        _ => (),
                    }
                    if let Some(ref x) = v.reject {
                        plain(&mut exp, &rej(x));
                        tx = Some((from, rc));
                        continue;
                    }
                    exp.push(Exp::Reply { r: texts.data_ok.clone(), kind: Kind::GoAhead, due });
                    exp.push(Exp::Call { c: Call::Handle { from, rcpts: rc, user }, due });
                    let v = next_verdict!();
                    let d = decode(&input[i..]);
                    mails += 1;
                    match d.end {
                        Some(e) => {
                            i += e;
                            let acc = v.reject.is_none();
                            exp.push(Exp::Handled { body: d.body, complete: true, accepted: acc });
                            let r = match v.reject {
                                None => texts.accepted.clone(),
                                Some(ref x) => rej(x),
                            };
                            exp.push(Exp::Reply { r, kind: Kind::Final { accepted: acc, complete: true }, due: i });
                        }
                        None => {
                            mid_data = true;
                            let due = input.len();
                            exp.push(Exp::Handled { body: d.body, complete: false, accepted: false });
                            exp.push(Exp::Reply {
                                r: Reply { code: INCOMPLETE.0, text: INCOMPLETE.1.to_vec() },
                                kind: Kind::Final { accepted: false, complete: false },
                                due,
                            });
                            i = input.len();
                        }
                    }
                }
            },
        }
    }
    ModelOut { exp, commands, mails, consumed: i, mid_data, state_hash: sh }
}
